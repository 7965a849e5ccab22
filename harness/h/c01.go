package h

import (
	"strings"

	tv "github.com/spdx/tools-golang/tagvalue/reader"

	"verifharness/sym"
)

type pair = tv.TagValuePair

func samePairs(got, want []pair) {
	sym.Assert(len(got) == len(want), "number of pairs differs from what the text spells")
	for i := range want {
		sym.Assert(sym.Eq(got[i].Tag, want[i].Tag), "a tag differs from what the text spells")
		sym.Assert(sym.Eq(got[i].Value, want[i].Value), "a value differs from what the text spells")
	}
}

// C01_Lines: a text put together from arbitrary lines of every kind is split
// into the pairs it spells.
func C01_Lines() {
	sym.Witness("ok")
	sym.Witness("bad")
	n := 3
	if sym.Thorough() {
		n = 4
	}
	text := ""
	var want []pair
	bad := false
	for i := 0; i < n; i++ {
		lead := sym.From("lead", " \t", 0, 3)
		switch sym.Choice("kind", 7) {
		case 0: // blank
			text += lead + "\n"
		case 1: // comment
			text += lead + "#" + line("comment", 40) + "\n"
		case 2: // one-line pair
			tag := sym.From("tag", alnum, 1, 20)
			val := line("val", 60)
			sym.Assume(!has(val, "<text>"))
			text += lead + tag + sym.From("ws", " \t", 0, 2) + ":" + val + "\n"
			want = append(want, pair{Tag: tag, Value: strings.TrimSpace(val)})
		case 3: // text block on one line
			tag := sym.From("tag", alnum, 1, 20)
			val := line("val", 60)
			sym.Assume(!has(val, "</text>"))
			text += lead + tag + ":" + sym.From("ws", " \t", 0, 2) + "<text>" + val + "</text>" + sym.From("trail", " \t", 0, 2) + "\n"
			want = append(want, pair{Tag: tag, Value: val})
		case 4: // text block over two lines
			tag := sym.From("tag", alnum, 1, 20)
			a, b := line("first", 40), line("second", 40)
			sym.Assume(!has(a, "</text>"))
			sym.Assume(!has(b, "</text>"))
			text += lead + tag + ": <text>" + a + "\n" + b + "</text>\n"
			want = append(want, pair{Tag: tag, Value: a + "\n" + b})
		case 5: // text block over three lines with blank, comment-like and pair-like content
			tag := sym.From("tag", alnum, 1, 20)
			a, m, b := line("first", 20), line("middle", 40), line("second", 20)
			sym.Assume(!has(a, "</text>"))
			sym.Assume(!has(m, "</text>"))
			sym.Assume(!has(b, "</text>"))
			text += lead + tag + ":<text>" + a + "\n" + m + "\n" + b + "</text>\n"
			want = append(want, pair{Tag: tag, Value: a + "\n" + m + "\n" + b})
		case 6: // no colon
			junk := sym.From("junk", alnum+" .-", 1, 20)
			sym.Assume(strings.TrimSpace(junk) != "")
			text += lead + junk + "\n"
			bad = true
		}
	}
	got, err := tv.ReadTagValues(strings.NewReader(text))
	if bad {
		sym.Reach("bad")
		sym.Assert(err != nil, "a line without a colon was accepted")
		return
	}
	sym.Assert(err == nil, "well-formed text was refused")
	if err != nil {
		return
	}
	sym.Reach("ok")
	samePairs(got, want)
}

// spelled is the reference reading of a text: what the format says the text
// spells, one line at a time.
func spelled(text string) (pairs []pair, bad bool) {
	inText := false
	var cur pair
	for text != "" {
		ln := text
		if i := strings.Index(text, "\n"); i >= 0 {
			ln, text = text[:i], text[i+1:]
		} else {
			text = ""
		}
		ln = strings.TrimSuffix(ln, "\r")
		if inText {
			before, _, closed := strings.Cut(ln, "</text>")
			if !closed {
				cur.Value += ln + "\n"
				continue
			}
			cur.Value += before
			pairs = append(pairs, cur)
			inText = false
			continue
		}
		if t := strings.TrimSpace(ln); t == "" || strings.HasPrefix(t, "#") {
			continue
		}
		tag, rest, ok := strings.Cut(ln, ":")
		if !ok {
			return nil, true
		}
		cur = pair{Tag: strings.TrimSpace(tag)}
		_, inner, opens := strings.Cut(rest, "<text>")
		if !opens {
			cur.Value = strings.TrimSpace(rest)
			pairs = append(pairs, cur)
			continue
		}
		val, _, closed := strings.Cut(inner, "</text>")
		cur.Value = val
		if closed {
			pairs = append(pairs, cur)
			continue
		}
		cur.Value += "\n"
		inText = true
	}
	return pairs, inText
}

// C01_AnyText: an arbitrary text is read the way the reference reads it.
func C01_AnyText() {
	sym.Witness("pairs")
	sym.Witness("error")
	n := 200
	sym.Bound("split", 3)
	if sym.Thorough() {
		n = 400
		sym.Bound("split", 4)
	}
	text, breaks := "", 1
	switch sym.Choice("open", 3) {
	case 1:
		text, breaks = "T:<text>", 2
	case 2:
		text = "A: b\nT:<text>c\n"
	}
	if sym.Thorough() {
		breaks = 2
	}
	text += sym.String("text", n)
	sym.Assume(strings.Count(text, "\n") <= breaks)
	want, bad := spelled(text)
	got, err := tv.ReadTagValues(strings.NewReader(text))
	if bad {
		sym.Reach("error")
		sym.Assert(err != nil, "text with an unclosed block or a line without colon was accepted")
		return
	}
	sym.Assert(err == nil, "well-formed text was refused")
	sym.Reach("pairs")
	samePairs(got, want)
}

// long is a text whose length is about one of the sizes that buffers have.
func long() string {
	n := 1 << []int{12, 16, 20}[sym.Choice("size", 3)]
	return strings.Repeat("x", n-40) + sym.From("v", alnum, 1, 80)
}

// C01_Long: lines may have any length.
func C01_Long() {
	sym.Witness("long")
	v := long()
	sep := []string{"\n", "\r\n", ""}[sym.Choice("end", 3)]
	text, want := "A: b\nC: "+v+sep, []pair{{Tag: "A", Value: "b"}, {Tag: "C", Value: v}}
	switch sym.Choice("where", 4) {
	case 1:
		text = "A: b\nC: <text>" + v + "</text>" + sep
	case 2:
		text, want = "A: b\nC: <text>\n"+v+"\n</text>"+sep, []pair{want[0], {Tag: "C", Value: "\n" + v + "\n"}}
	case 3:
		text, want = "A: b\n#"+v+sep, want[:1]
	}
	if sep != "" {
		text += "D: e" + sep
		want = append(want, pair{Tag: "D", Value: "e"})
	}
	got, err := tv.ReadTagValues(strings.NewReader(text))
	sym.Assert(err == nil, "text with a long line is refused")
	samePairs(got, want)
	sym.Reach("long")
}
