package reflow

import (
	"github.com/metafates/bento"
	"github.com/metafates/bento/internal/grapheme"
	"github.com/metafates/bento/internal/vc"
	"github.com/metafates/bento/widget/textwidget"
)

var _ = vc.Register(func(r *vc.R) InputLine {
	var l textwidget.Line
	switch r.Intn(4) {
	case 0:
		l = vc.Make[textwidget.Line](r)
	default: // words and runs of spaces
		s := ""
		for i := r.Intn(2 + r.Size); i > 0; i-- {
			s += vc.Pick(r, "a", "bc", " ", "  ", "def", "界", "界好", "\u00a0", "e\u0301", "\u200b", "x", "好x", "\u0301", " ")
		}
		l = textwidget.NewLineStr(s).WithAlignment(vc.Make[bento.Alignment](r))
	}
	return InputLine{Graphemes: l.StyledGraphemes(bento.NewStyle()), Alignment: l.Alignment}
})

func vcWidth(l []textwidget.StyledGrapheme) int {
	n := 0
	for _, g := range l {
		n += g.Width()
	}
	return n
}

func vcEq(a, b []textwidget.StyledGrapheme) bool {
	if len(a) != len(b) {
		return false
	}
	for i := range a {
		if a[i] != b[i] {
			return false
		}
	}
	return true
}

type vcOut struct {
	line  []textwidget.StyledGrapheme
	width int
	al    bento.Alignment
}

// vcAll collects the lines of a composer; what it delivered may be overwritten by the next call.
func vcAll(c LineComposer, limit int) (out []vcOut, done bool) {
	for len(out) <= limit {
		l, ok := c.NextLine()
		if !ok {
			return out, true
		}
		out = append(out, vcOut{vc.Snap(l.Line), l.Width, l.Alignment})
	}
	return out, false
}

// vcKept reports that the output lines hold the graphemes of the input in order, without those
// wider than a line and without white space dropped where lines end or begin.
func vcKept(in []textwidget.StyledGrapheme, out []vcOut, width int) bool {
	var flat []textwidget.StyledGrapheme
	edge := map[int]bool{0: true}
	for _, o := range out {
		flat = append(flat, o.line...)
		edge[len(flat)] = true
	}
	can := make([]bool, len(flat)+1) // whether the rest of the input yields flat[j:]
	can[len(flat)] = true
	for i := len(in) - 1; i >= 0; i-- {
		g := in[i]
		next := make([]bool, len(flat)+1)
		for j := range next {
			if g.Width() > width {
				next[j] = can[j]
				continue
			}
			next[j] = j < len(flat) && flat[j] == g && can[j+1] || g.IsWhitespace() && edge[j] && can[j]
		}
		can = next
	}
	return can[0]
}

//vc:prop C17
//vc:bounded
func spec_WordWrapper(in InputLine, width int, trim bool) {
	vc.Requires(width > 0)
	orig := vc.Snap(in.Graphemes)
	w := NewWordWrapper([]InputLine{in}, width, trim)
	out, done := vcAll(&w, 2*len(orig)+4)
	vc.Ensures("wrapping ends", done)
	vc.Ensures("every input line yields a line", len(out) > 0)
	for _, o := range out {
		vc.Ensures("no line is wider than the width", vcWidth(o.line) <= width)
		vc.Ensures("the reported width of a line is its width", o.width == vcWidth(o.line))
		vc.Ensures("lines keep the alignment of their input line", o.al == in.Alignment)
	}
	vc.Ensures("the lines hold the text in order except for white space at line breaks", vcKept(orig, out, width))
	vc.Ensures("the input is unchanged", vcEq(in.Graphemes, orig))
}

//vc:prop C17
//vc:bounded
func spec_WordWrapper_lines(a, b, c InputLine, width int, trim bool) {
	vc.Requires(width > 0)
	in := []InputLine{a, b, c}
	w := NewWordWrapper(in, width, trim)
	out, done := vcAll(&w, 400)
	vc.Ensures("wrapping ends", done)
	var want []vcOut
	for _, l := range []InputLine{a, b, c} {
		v := NewWordWrapper([]InputLine{l}, width, trim)
		o, _ := vcAll(&v, 400)
		want = append(want, o...)
	}
	vc.Ensures("input lines are wrapped one after the other", vcOutEq(out, want))
}

func vcOutEq(a, b []vcOut) bool {
	if len(a) != len(b) {
		return false
	}
	for i := range a {
		if a[i].al != b[i].al || a[i].width != b[i].width || !vcEq(a[i].line, b[i].line) {
			return false
		}
	}
	return true
}

//vc:prop C17
//vc:bounded
func spec_LineTruncator(in []InputLine, width, offset int) {
	vc.Requires(width > 0 && offset >= 0)
	lt := NewLineTruncator(append([]InputLine(nil), in...), width)
	lt.SetHorizontalOffset(offset)
	out, done := vcAll(&lt, len(in)+2)
	vc.Ensures("one line per input line", done && len(out) == len(in))
	for i, o := range out {
		vc.Ensures("no line is wider than the width", vcWidth(o.line) <= width && o.width == vcWidth(o.line))
		vc.Ensures("lines keep the alignment of their input line", o.al == in[i].Alignment)
		var want []textwidget.StyledGrapheme
		off, used := offset, 0
		for _, g := range in[i].Graphemes {
			if g.Width() > width {
				continue
			}
			if in[i].Alignment == bento.AlignmentLeft && off > 0 {
				if g.Width() <= off {
					off -= g.Width()
					continue
				}
				off = 0
			}
			if used+g.Width() > width {
				break
			}
			used += g.Width()
			want = append(want, g)
		}
		var got []textwidget.StyledGrapheme
		for _, g := range o.line {
			if g.Grapheme != (grapheme.Grapheme{}) {
				got = append(got, g)
			}
		}
		vc.Ensures("each line is the part of its input line that fits after the offset", vcEq(got, want))
	}
}
