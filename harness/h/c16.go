package h

import (
	"crypto/sha1"
	"fmt"

	"github.com/spdx/tools-golang/spdx"
	"github.com/spdx/tools-golang/spdx/v2/common"
	"github.com/spdx/tools-golang/utils"

	"verifharness/sym"
)

const hexset = "0123456789abcdefABCDEF"

// insertSorted keeps list sorted.
func insertSorted(list []string, s string) []string {
	i := 0
	for i < len(list) && list[i] <= s {
		i++
	}
	list = append(list, "")
	copy(list[i+1:], list[i:])
	list[i] = s
	return list
}

// C16_Code: the code is the SHA-1 of the sorted SHA-1 values of all files but the excluded one.
func C16_Code() {
	sym.Witness("code")
	n := 3
	if sym.Thorough() {
		n = 4
	}
	n = sym.Choice("files", n+1)
	exclude := ""
	if sym.Choice("exclude", 2) == 1 {
		exclude = sym.From("excluded", tokenSet, 1, 12)
	}
	var files []*spdx.File
	var shas []string
	for i := 0; i < n; i++ {
		f := &spdx.File{FileName: sym.From("name", tokenSet, 0, 12), FileSPDXIdentifier: common.ElementID(fmt.Sprint(i))}
		out := exclude != "" && f.FileName == exclude
		sum := func(alg common.ChecksumAlgorithm) {
			c := common.Checksum{Algorithm: alg, Value: sym.From("sum", hexset, 40, 40)}
			f.Checksums = append(f.Checksums, c)
			if alg == common.SHA1 && !out {
				shas = insertSorted(shas, c.Value)
			}
		}
		switch sym.Choice("sums", 5) {
		case 1:
			sum(common.SHA1)
		case 2:
			sum(common.SHA256)
			sum(common.SHA1)
		case 3:
			sum(common.SHA1)
			sum(common.MD5)
		case 4:
			sum(common.SHA256)
		}
		files = append(files, f)
	}
	before := append([]*spdx.File(nil), files...)
	code, err := utils.GetVerificationCode(files, exclude)
	sym.Assert(err == nil, "the verification code of well-formed files is refused")
	text := ""
	for _, s := range shas {
		text += s
	}
	sym.Assert(code.Value == fmt.Sprintf("%x", sha1.Sum([]byte(text))), "the verification code is not the SHA-1 of the sorted SHA-1 values")
	if exclude == "" {
		sym.Assert(len(code.ExcludedFiles) == 0, "a file is recorded as excluded although none is")
	} else {
		sym.Assert(len(code.ExcludedFiles) == 1 && code.ExcludedFiles[0] == exclude, "the excluded file is not recorded")
	}
	for i := range before {
		sym.Assert(before[i] == files[i], "the caller's list of files is changed")
	}
	sym.Reach("code")
}

// C16_Missing: an absent file is an error wherever it stands.
func C16_Missing() {
	sym.Witness("refused")
	n := 1 + sym.Choice("files", 3)
	at := sym.Choice("at", n)
	var files []*spdx.File
	for i := 0; i < n; i++ {
		if i == at {
			files = append(files, nil)
			continue
		}
		f := &spdx.File{FileName: sym.From("name", tokenSet, 0, 12)}
		if sym.Choice("sum", 2) == 1 {
			f.Checksums = []common.Checksum{{Algorithm: common.SHA1, Value: sym.From("sum", hexset, 40, 40)}}
		}
		files = append(files, f)
	}
	_, err := utils.GetVerificationCode(files, sym.From("excluded", tokenSet, 0, 12))
	sym.Assert(err != nil, "a verification code is given although a file is absent")
	sym.Reach("refused")
}
