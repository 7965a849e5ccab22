package h

import (
	"strings"

	"github.com/spdx/tools-golang/spdx/v2/common"

	"verifharness/sym"
)

// formats a document is made for
const (
	tagValue = iota
	jsonForm
	anyForm // nothing but Go values: conversions
)

// filler supplies the field values of a document. All fields are numbered in
// the order in which they are asked for. The field with number focus gets an
// arbitrary value of its kind; the others are absent or, in a full document,
// short symbolic words.
type filler struct {
	format  int
	full    bool
	focus   int
	flips   []int // fields that are there in a sparse and absent in a full document
	on      bool  // the field asked for last is there
	flipped bool  // it is one of the flips
	can     []int // the fields that can be flipped, as found by a dry run
	n       int
	dry     bool
	max     int
	set     string // the characters of arbitrary texts, if not all of ASCII
}

func (f *filler) arbitrary(name string) string {
	if f.set != "" {
		return sym.From(name, f.set, 0, f.max)
	}
	return sym.String(name, f.max)
}

func (f *filler) at() bool {
	f.n++
	return !f.dry && f.n-1 == f.focus
}

// may is at for a field that may be there or not, or have one of some values.
func (f *filler) may() bool {
	f.on, f.flipped = f.full, false
	for _, i := range f.flips {
		if i == f.n {
			f.on, f.flipped = !f.full, true
		}
	}
	if f.dry {
		f.can = append(f.can, f.n)
	}
	return f.at()
}

// flip chooses up to two fields that differ from the others in being there.
func (f *filler) flip(with func(*filler)) {
	for len(f.flips) < 2 {
		g := &filler{format: f.format, full: f.full, focus: -1, dry: true, flips: f.flips}
		with(g)
		var can []int
		for _, i := range g.can {
			if len(f.flips) == 0 || i > f.flips[0] {
				can = append(can, i)
			}
		}
		k := sym.Choice("flip", len(can)+1)
		if k == len(can) {
			return
		}
		f.flips = append(f.flips, can[k])
	}
}

// pick explores the alternatives of a field in focus and takes dflt otherwise.
func (f *filler) pick(name string, n, dflt int) int {
	if f.may() {
		return sym.Choice(name, n)
	}
	if f.flipped {
		return (dflt + n - 1) % n
	}
	return dflt
}

// pickOf takes one alternative in a sparse and one in a full document.
func (f *filler) pickOf(name string, n, sparse, full int) int {
	if f.may() {
		return sym.Choice(name, n)
	}
	if f.on {
		return full
	}
	return sparse
}

// some is a number of elements.
func (f *filler) some(name string, n, full int) int {
	return f.pickOf(name, n, 0, full)
}

func (f *filler) w(name string) string {
	if f.dry {
		return "w"
	}
	return sym.From(name, alnum, 1, 6)
}

// oneLine is an arbitrary value that a line of tag-value text can hold.
func (f *filler) oneLine(name string) string {
	if f.format != tagValue {
		return f.arbitrary(name)
	}
	v := sym.From(name, lineSet, 0, f.max)
	sym.Assume(sym.Eq(strings.TrimSpace(v), v))
	sym.Assume(!has(v, "<text>"))
	return v
}

// anyText is an arbitrary value that a text block can hold.
func (f *filler) anyText(name string) string {
	if f.format != tagValue {
		return f.arbitrary(name)
	}
	v := ""
	for i, n := 0, sym.Choice(name+".breaks", 3); i <= n; i++ {
		if i > 0 {
			v += "\n"
		}
		s := sym.From(name, lineSet, 0, f.max)
		sym.Assume(!has(s, "</text>"))
		v += s
	}
	return v
}

func (f *filler) opt(name string, arb func(string) string) string {
	if f.may() {
		return arb(name)
	}
	if f.on {
		return f.w(name)
	}
	return ""
}

func (f *filler) l(name string) string { return f.opt(name, f.oneLine) }
func (f *filler) t(name string) string { return f.opt(name, f.anyText) }

// must is a one-line field that is always there.
func (f *filler) must(name string) string {
	if f.at() {
		v := f.oneLine(name)
		sym.Assume(v != "")
		return v
	}
	return f.w(name)
}

// who is the name of an agent: one line without outer white space.
func (f *filler) who(name string) string {
	v := f.must(name)
	if !f.dry && f.format != tagValue {
		sym.Assume(sym.Eq(strings.TrimSpace(v), v))
	}
	return v
}

// named is the name of a supplier or originator: NOASSERTION stands for none.
func (f *filler) named(name string) string {
	v := f.who(name)
	if !f.dry && f.format == jsonForm {
		sym.Assume(v != "NOASSERTION")
	}
	return v
}

// tok is a one-line field that is always there and has no blanks in it.
func (f *filler) tok(name string) string {
	if f.at() {
		v := sym.From(name, tokenSet, 1, f.max)
		if f.format == tagValue {
			sym.Assume(!has(v, "<text>"))
		}
		return v
	}
	return f.w(name)
}

// id is an identifier that is always there.
func (f *filler) id(prefix, name string) string {
	if f.at() {
		v := sym.From(name, idset, 1, 12)
		if f.format == jsonForm {
			// the JSON writer takes an identifier with or without its prefix
			sym.Assume(!strings.HasPrefix(v, "SPDXRef-") && !strings.HasPrefix(v, "DocumentRef-"))
		}
		return prefix + v
	}
	return prefix + f.w(name)
}

func (f *filler) list(name string, arb func(string) string) []string {
	if f.may() {
		var out []string
		n := sym.Choice(name+".len", 4)
		if n == 0 {
			return nil
		}
		for at, i := sym.Choice(name+".at", n), 0; i < n; i++ {
			if i == at {
				out = append(out, arb(name))
			} else {
				out = append(out, f.w(name))
			}
		}
		return out
	}
	if f.on {
		return []string{f.w(name), f.w(name)}
	}
	return nil
}

func (f *filler) ls(name string) []string { return f.list(name, f.oneLine) }
func (f *filler) ts(name string) []string { return f.list(name, f.anyText) }

// the checksum algorithms of each SPDX version that the tag-value readers know
var (
	algorithms21 = []common.ChecksumAlgorithm{common.SHA1, common.SHA256, common.MD5}
	algorithms22 = []common.ChecksumAlgorithm{
		common.SHA1, common.SHA224, common.SHA256, common.SHA384, common.SHA512,
		common.MD2, common.MD4, common.MD5, common.MD6,
	}
	algorithms23 = []common.ChecksumAlgorithm{
		common.SHA1, common.SHA224, common.SHA256, common.SHA384, common.SHA512,
		common.MD2, common.MD4, common.MD5, common.MD6,
		common.SHA3_256, common.SHA3_384, common.SHA3_512,
		common.BLAKE2b_256, common.BLAKE2b_384, common.BLAKE2b_512, common.BLAKE3, common.ADLER32,
	}
)

func (f *filler) sums(name string, algs []common.ChecksumAlgorithm) []common.Checksum {
	if f.may() {
		var out []common.Checksum
		switch sym.Choice(name+".len", 3) {
		case 1:
			out = append(out, common.Checksum{Algorithm: algs[sym.Choice(name+".alg", len(algs))], Value: f.oneLine(name)})
		case 2:
			out = append(out,
				common.Checksum{Algorithm: common.SHA256, Value: f.oneLine(name)},
				common.Checksum{Algorithm: common.SHA256, Value: f.oneLine(name)})
		}
		return out
	}
	if f.on {
		return []common.Checksum{{Algorithm: common.SHA1, Value: f.w(name)}, {Algorithm: common.MD5, Value: f.w(name)}}
	}
	return nil
}

// agent is the type and the name of a creator, annotator or reviewer.
func (f *filler) agent(name string) (string, string) {
	types := []string{"Person", "Organization", "Tool"}
	typ := types[f.pick(name+".type", len(types), 0)]
	return typ, f.who(name)
}

func (f *filler) agents(name string) []common.Creator {
	typ, who := f.agent(name)
	out := []common.Creator{{CreatorType: typ, Creator: who}}
	if f.full {
		typ, who = f.agent(name)
		out = append(out, common.Creator{CreatorType: typ, Creator: who})
	}
	return out
}

func (f *filler) supplier(name string) *common.Supplier {
	switch f.pickOf(name+".kind", 4, 0, 2) {
	case 1:
		return &common.Supplier{Supplier: "NOASSERTION"}
	case 2:
		return &common.Supplier{SupplierType: "Person", Supplier: f.named(name)}
	case 3:
		return &common.Supplier{SupplierType: "Organization", Supplier: f.named(name)}
	}
	return nil
}

func (f *filler) originator(name string) *common.Originator {
	switch f.pickOf(name+".kind", 4, 0, 3) {
	case 1:
		return &common.Originator{Originator: "NOASSERTION"}
	case 2:
		return &common.Originator{OriginatorType: "Person", Originator: f.named(name)}
	case 3:
		return &common.Originator{OriginatorType: "Organization", Originator: f.named(name)}
	}
	return nil
}

func (f *filler) code(name string) *common.PackageVerificationCode {
	kinds := 3
	if f.format != tagValue {
		kinds = 4
	}
	switch f.pickOf(name+".kind", kinds, 0, 2) {
	case 3:
		return &common.PackageVerificationCode{ExcludedFiles: []string{f.must(name + ".excluded")}}
	case 1:
		v := f.must(name)
		sym.Assume(!has(v, "(excludes:"))
		return &common.PackageVerificationCode{Value: v}
	case 2:
		v, x := f.must(name), f.must(name+".excluded")
		sym.Assume(!has(v, "(excludes:"))
		if f.format == tagValue {
			sym.Assume(!has(x, ")"))
			return &common.PackageVerificationCode{Value: v, ExcludedFiles: []string{x}}
		}
		return &common.PackageVerificationCode{Value: v, ExcludedFiles: []string{x, f.must(name + ".excluded")}}
	}
	return nil
}

// elem is an element identifier as it appears in relationships and annotations.
func (f *filler) elem(name string) common.DocElementID {
	switch f.pick(name+".kind", 2, 0) {
	case 1:
		return common.DocElementID{DocumentRefID: common.DocumentID(f.id("", name+".doc")), ElementRefID: common.ElementID(f.id("", name))}
	}
	return common.DocElementID{ElementRefID: common.ElementID(f.id("", name))}
}

// target is the right side of a relationship.
func (f *filler) target(name string) common.DocElementID {
	switch f.pick(name+".kind", 4, 0) {
	case 1:
		return common.DocElementID{SpecialID: "NONE"}
	case 2:
		return common.DocElementID{SpecialID: "NOASSERTION"}
	case 3:
		return common.DocElementID{DocumentRefID: common.DocumentID(f.id("", name+".doc")), ElementRefID: common.ElementID(f.id("", name))}
	}
	return common.DocElementID{ElementRefID: common.ElementID(f.id("", name))}
}

func (f *filler) num(name string) int {
	if f.at() {
		return sym.Int(name, 1, 1<<31-1)
	}
	if f.dry {
		return 1
	}
	return sym.Int(name, 1, 9)
}

// ranges are byte and line ranges of a snippet.
func (f *filler) ranges(name string) []common.SnippetRange {
	sparse := 0
	if f.format == jsonForm {
		sparse = 3
	}
	var out []common.SnippetRange
	k := f.pickOf(name+".kind", 4, sparse, 3)
	ptr := func() (p common.SnippetRangePointer) {
		if f.format != tagValue {
			p.FileSPDXIdentifier = common.ElementID(f.id("", name+".ref"))
		}
		return
	}
	if k&1 != 0 {
		a, b := ptr(), ptr()
		a.Offset, b.Offset = f.num(name+".from"), f.num(name+".to")
		out = append(out, common.SnippetRange{StartPointer: a, EndPointer: b})
	}
	if k&2 != 0 {
		a, b := ptr(), ptr()
		a.LineNumber, b.LineNumber = f.num(name+".first"), f.num(name+".last")
		out = append(out, common.SnippetRange{StartPointer: a, EndPointer: b})
	}
	return out
}

func (f *filler) count(full, sparse int) int {
	if f.full {
		return full
	}
	return sparse
}

// category is the category of an external reference.
func (f *filler) category(name string) string {
	v := f.tok(name)
	if !f.dry && f.format != tagValue {
		// JSON spells the separator "-" or "_"; both mean the same
		sym.Assume(!has(v, "_"))
	}
	return v
}

// free is a non-empty text of its own, without outer white space.
func (f *filler) free(name string) string {
	v := sym.String(name, 60)
	sym.Assume(v != "")
	sym.Assume(sym.Eq(strings.TrimSpace(v), v))
	return v
}

// artifact is the name of an artifact-of project.
func (f *filler) artifact(name string) string {
	if f.format == anyForm {
		return f.must(name) // an element without any content is no element
	}
	return f.l(name)
}
