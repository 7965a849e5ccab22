package h

import (
	"bytes"
	"errors"
	"io"

	"github.com/spdx/tools-golang/reporter"

	"verifharness/sym"
)

var errRefused = errors.New("refused")

// flaky is a destination that accepts a limited amount of data, or refuses one
// write or part of it.
type flaky struct {
	got     bytes.Buffer
	limited bool
	room    int
	refuse  int
	calls   int
	refused bool
	part    bool
	err     error
}

// refusal is the answer to a write that is not accepted in full.
func (f *flaky) refusal(p []byte, took int) (int, error) {
	f.refused = true
	if !f.part {
		took = 0
	}
	if took > 0 {
		sym.Reach("partial")
	}
	return took, f.err
}

func (f *flaky) Write(p []byte) (int, error) {
	f.calls++
	if f.limited {
		if f.refused {
			return 0, errRefused
		}
		if len(p) > f.room {
			return f.refusal(p, f.room)
		}
		f.room -= len(p)
		f.got.Write(p)
		return len(p), nil
	}
	if f.calls == f.refuse {
		took := 0
		if f.part {
			took = sym.Int("took", 0, 1<<20)
			sym.Assume(took <= len(p))
		}
		return f.refusal(p, took)
	}
	f.got.Write(p)
	return len(p), nil
}

// checkFailing runs a writer against a destination that may fail anywhere.
func checkFailing(write func(w io.Writer) error) {
	var all bytes.Buffer
	sym.Assert(write(&all) == nil, "writing to memory fails")
	f := &flaky{}
	switch sym.Choice("mode", 2) {
	case 0:
		f.limited = true
		f.room = sym.Int("room", 0, 1<<20)
	case 1:
		f.refuse = sym.Int("refuse", 1, 1<<20)
	}
	f.part = sym.Choice("part", 2) == 1
	f.err = []error{errRefused, io.ErrShortWrite, io.EOF, io.ErrUnexpectedEOF}[sym.Choice("error", 4)]
	err := write(f)
	if f.refused {
		sym.Reach("failed")
		sym.Assert(err != nil, "data was refused but the writer reports success")
		return
	}
	sym.Assert(err == nil, "the writer reports an error although all data was accepted")
	sym.Assert(sym.Eq(f.got.String(), all.String()), "the writer reports success but data is missing")
	sym.Reach("succeeded")
}

// C23_Report: a license report to a destination that may fail anywhere.
func C23_Report() {
	sym.Witness("failed")
	sym.Witness("succeeded")
	p, _ := reportPackage(sym.Choice("files", 3))
	checkFailing(func(w io.Writer) error { return reporter.Generate(p, w) })
}
