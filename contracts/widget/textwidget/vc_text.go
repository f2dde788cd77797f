package textwidget

import (
	"strings"

	"github.com/metafates/bento"
	"github.com/metafates/bento/internal/vc"
)

var _ = vc.Register(func(r *vc.R) Span { return Span{Style: vc.Make[bento.Style](r), Content: r.Str()} })

var _ = vc.Register(func(r *vc.R) Line {
	n := r.Intn(4)
	l := Line{Style: vc.Make[bento.Style](r), Alignment: vc.Make[bento.Alignment](r), Spans: make([]Span, 0, n+r.Intn(3))}
	for i := 0; i < n; i++ {
		l.Spans = append(l.Spans, vc.Make[Span](r))
	}
	return l
})

var _ = vc.Register(func(r *vc.R) Text {
	n := r.Intn(4)
	t := Text{Style: vc.Make[bento.Style](r), Alignment: vc.Make[bento.Alignment](r), Lines: make([]Line, 0, n+r.Intn(3))}
	for i := 0; i < n; i++ {
		t.Lines = append(t.Lines, vc.Make[Line](r))
	}
	return t
})

//vc:prop C13
//vc:aux
//vc:use
//vc:target (Span).StyledGraphemes
func spec_Span_StyledGraphemes(s Span, style bento.Style) []StyledGrapheme {
	vc.Invariant(func(rs []StyledGrapheme) bool {
		return vc.Forall(0, len(rs), func(i int) bool { return rs[i].Width() >= 0 })
	})
	r := s.StyledGraphemes(style)
	vc.Ensures("no grapheme takes a negative number of columns", vc.Forall(0, len(r), func(i int) bool { return r[i].Width() >= 0 }))
	return r
}

//vc:prop C13
//vc:use
//vc:target (Span).Render
func spec_Span_Render(s Span, place bento.VcPlace, buffer *bento.Buffer, p bento.Position) {
	area := bento.Rect(place)
	vc.Requires(bento.VcPlaceOK(area) && bento.VcBufOK(buffer) && bento.VcInside(buffer.Area(), p.X, p.Y))
	old, was, size := bento.VcCell(buffer, p), buffer.Area(), bento.VcSize(buffer)
	bento.VcDraws(buffer)
	vc.InvariantIn("Render", func(x int) bool {
		in := area.Intersection(was)
		return in.X <= x && x <= in.X+in.Width
	})
	vc.Invariant(func() bool { return bento.VcInside(area, p.X, p.Y) || bento.VcCell(buffer, p) == old })
	s.Render(area, buffer)
	vc.Ensures("the buffer keeps its area", buffer.Area() == was && bento.VcSize(buffer) == size)
	vc.Ensures("a cell outside the area is unchanged", bento.VcInside(area, p.X, p.Y) || bento.VcCell(buffer, p) == old)
}

//vc:prop C13
//vc:aux
//vc:use
//vc:target spansAfterWidth
func spec_spansAfterWidth(spans []Span, skipWidth int) []_SpanAfterWidth {
	vc.Invariant(func(rs []_SpanAfterWidth) bool {
		return vc.Forall(0, len(rs), func(i int) bool { return rs[i].Offset >= 0 && rs[i].Width >= 0 })
	})
	r := spansAfterWidth(spans, skipWidth)
	vc.Ensures("spans are not moved to the left", vc.Forall(0, len(r), func(i int) bool { return r[i].Offset >= 0 && r[i].Width >= 0 }))
	return r
}

//vc:prop C13
//vc:aux
//vc:use
//vc:target renderSpans
func spec_renderSpans(spans []Span, place bento.VcPlace, buffer *bento.Buffer, spanSkipWidth int, p bento.Position) {
	area := bento.Rect(place)
	vc.Requires(bento.VcNearOK(area) && bento.VcBufOK(buffer) && bento.VcInside(buffer.Area(), p.X, p.Y))
	old, was, size := bento.VcCell(buffer, p), buffer.Area(), bento.VcSize(buffer)
	bento.VcDraws(buffer)
	vc.InvariantIn("renderSpans", func(a bento.Rect) bool { return a.Y == area.Y && a.Height == area.Height && a.Width >= 0 })
	vc.InvariantIn("renderSpans", func(a bento.Rect) bool { return a.Width == 0 || a.X >= area.X && a.Right() <= area.Right() })
	vc.Invariant(func() bool { return bento.VcInside(area, p.X, p.Y) || bento.VcCell(buffer, p) == old })
	renderSpans(spans, area, buffer, spanSkipWidth)
	vc.Ensures("the buffer keeps its area", buffer.Area() == was && bento.VcSize(buffer) == size)
	vc.Ensures("a cell outside the area is unchanged", bento.VcInside(area, p.X, p.Y) || bento.VcCell(buffer, p) == old)
}

// VcLineWidth is the number of columns a line takes.
func VcLineWidth(l Line) int {
	return vc.Sum(len(l.Spans), func(i int) int { return vc.Width(l.Spans[i].Content) })
}

//vc:prop C16
//vc:use
//vc:target (Line).Width
func spec_Line_Width(l Line) int {
	vc.InvariantIn("Width", func(width, i int) bool {
		return width == vc.Sum(i, func(j int) int { return vc.Width(l.Spans[j].Content) })
	})
	w := l.Width()
	vc.Ensures("a line is as wide as its spans together", w == VcLineWidth(l) && w >= 0)
	return w
}

//vc:prop C13
//vc:aux
//vc:use
//vc:target (Line).renderWithAlignment
func spec_Line_renderWithAlignment(l Line, place bento.VcPlace, buffer *bento.Buffer, parentAlignment bento.Alignment, p bento.Position) {
	area := bento.Rect(place)
	vc.Requires(bento.VcPlaceOK(area) && bento.VcBufOK(buffer) && bento.VcInside(buffer.Area(), p.X, p.Y))
	old, was, size := bento.VcCell(buffer, p), buffer.Area(), bento.VcSize(buffer)
	bento.VcDraws(buffer)
	vc.Invariant(func(width int) bool { return width >= 0 })
	l.renderWithAlignment(area, buffer, parentAlignment)
	vc.Ensures("the buffer keeps its area", buffer.Area() == was && bento.VcSize(buffer) == size)
	vc.Ensures("a cell outside the area is unchanged", bento.VcInside(area, p.X, p.Y) || bento.VcCell(buffer, p) == old)
}

//vc:prop C13
//vc:use
//vc:target (Line).Render
func spec_Line_Render(l Line, place bento.VcPlace, buffer *bento.Buffer, p bento.Position) {
	area := bento.Rect(place)
	vc.Requires(bento.VcPlaceOK(area) && bento.VcBufOK(buffer) && bento.VcInside(buffer.Area(), p.X, p.Y))
	old, was, size := bento.VcCell(buffer, p), buffer.Area(), bento.VcSize(buffer)
	bento.VcDraws(buffer)
	l.Render(area, buffer)
	vc.Ensures("the buffer keeps its area", buffer.Area() == was && bento.VcSize(buffer) == size)
	vc.Ensures("a cell outside the area is unchanged", bento.VcInside(area, p.X, p.Y) || bento.VcCell(buffer, p) == old)
}

//vc:prop C13
//vc:use
//vc:target (Text).Render
func spec_Text_Render(t Text, place bento.VcPlace, buffer *bento.Buffer, p bento.Position) {
	area := bento.Rect(place)
	vc.Requires(bento.VcPlaceOK(area) && bento.VcBufOK(buffer) && bento.VcInside(buffer.Area(), p.X, p.Y))
	old, was, size := bento.VcCell(buffer, p), buffer.Area(), bento.VcSize(buffer)
	bento.VcDraws(buffer)
	vc.Invariant(func() bool { return bento.VcInside(area, p.X, p.Y) || bento.VcCell(buffer, p) == old })
	t.Render(area, buffer)
	vc.Ensures("the buffer keeps its area", buffer.Area() == was && bento.VcSize(buffer) == size)
	vc.Ensures("a cell outside the area is unchanged", bento.VcInside(area, p.X, p.Y) || bento.VcCell(buffer, p) == old)
}

// vcGlyph is a grapheme cluster of a line with the columns it takes.
type vcGlyph struct {
	s     string
	at, w int
	style bento.Style
}

func vcControl(s string) bool {
	return strings.ContainsFunc(s, func(r rune) bool { return r < ' ' || r == 0x7f || 0x80 <= r && r < 0xa0 })
}

func vcGlyphs(l Line) (out []vcGlyph, width int) {
	for _, s := range l.Spans {
		for _, g := range vc.Graphemes(s.Content) {
			if vcControl(g) {
				continue
			}
			w := vc.Width(g)
			out = append(out, vcGlyph{g, width, w, s.Style})
			width += w
		}
	}
	return out, width
}

//vc:prop C16
//vc:bounded
func spec_Line_shown(l Line, buffer *bento.Buffer, place bento.VcPlace) {
	vc.Requires(bento.VcBufOK(buffer))
	area := bento.Rect(place).Intersection(buffer.Area())
	for _, s := range l.Spans {
		vc.Requires(vc.Width(s.Content) == vcSumWidth(s.Content)) // the display width of the whole is that of its clusters
	}
	l.Render(area, buffer)
	if area.IsEmpty() {
		return
	}
	gs, width := vcGlyphs(l)
	from := 0 // column of the line shown first
	at := 0   // column of the area where it is shown
	switch l.Alignment {
	case bento.AlignmentCenter:
		from, at = max(0, width-area.Width)/2, max(0, area.Width-width)/2
	case bento.AlignmentRight:
		from, at = max(0, width-area.Width), max(0, area.Width-width)
	}
	room := area.Width
	for _, g := range gs {
		x := g.at - from + at
		if g.w == 0 || x < 0 || x+g.w > room {
			continue
		}
		c := buffer.CellAt(bento.Position{X: area.X + x, Y: area.Y})
		vc.Ensures("the part of the line that fits is shown at its columns", strings.Contains(c.Symbol, g.s))
		for d := 1; d < g.w; d++ {
			vc.Ensures("the rest of a wide grapheme is blank", strings.HasPrefix(buffer.CellAt(bento.Position{X: area.X + x + d, Y: area.Y}).Symbol, " "))
		}
	}
}

func vcSumWidth(s string) int {
	n := 0
	for _, g := range vc.Graphemes(s) {
		if !vcControl(g) {
			n += vc.Width(g)
		}
	}
	return n
}

//vc:prop C16
func spec_widths(s Span, t Text) {
	vc.Ensures("the width of a span is the display width of its content", s.Width() == vc.Width(s.Content))
	vc.Ensures("the height of a text is its number of lines", t.Height() == len(t.Lines) && t.Lines.Height() == len(t.Lines))
}

//vc:prop C16
func spec_Text_Width(t Text) {
	vc.Invariant(func(width int) bool { return width >= 0 })
	vc.InvariantIn("Width", func(width, i int) bool {
		return i < -1 || i > len(t.Lines) || vc.Forall(0, i, func(k int) bool { return VcLineWidth(t.Lines[k]) <= width })
	})
	vc.InvariantIn("Width", func(width, i int) bool {
		return i < -1 || i > len(t.Lines) || width == 0 || vc.Exists(0, i, func(k int) bool { return VcLineWidth(t.Lines[k]) == width })
	})
	w := t.Width()
	vc.Ensures("a text is at least as wide as each of its lines", w >= 0 && vc.Forall(0, len(t.Lines), func(k int) bool { return VcLineWidth(t.Lines[k]) <= w }))
	vc.Ensures("the width of a text is that of its widest line", w == 0 || vc.Exists(0, len(t.Lines), func(k int) bool { return VcLineWidth(t.Lines[k]) == w }))
}

//vc:prop C16
//vc:bounded
func spec_Text_String(t Text) {
	str := ""
	for i, x := range t.Lines {
		if i > 0 {
			str += "\n"
		}
		for _, y := range x.Spans {
			str += y.Content
		}
	}
	vc.Ensures("the string of a text is its content", t.String() == str)
}

//vc:prop C16
//vc:use
//vc:target NewLineStr
func spec_NewLineStr(s string) Line {
	want := vc.Lines(s)
	vc.Invariant(func(spans []Span, n vc.Iter) bool {
		return len(spans) == int(n) && vc.Forall(0, len(spans), func(i int) bool { return spans[i] == NewSpan(want[i]) })
	})
	l := NewLineStr(s)
	vc.Ensures("a line holds the lines of the string, one after the other", len(l.Spans) == len(want) && vc.Forall(0, len(want), func(i int) bool { return l.Spans[i] == NewSpan(want[i]) }))
	vc.Ensures("in the default style", l.Style == bento.NewStyle() && l.Alignment == bento.AlignmentNone)
	return l
}

//vc:prop C16
//vc:target NewTextStr
func spec_NewTextStr(s string, k int) Text {
	want := vc.Lines(s)
	if s == "" {
		want = []string{""}
	}
	vc.Requires(0 <= k && k < len(want))
	var spans []string
	spans = vc.Lines(want[k])
	vc.Invariant(func(lines []Line, n vc.Iter) bool { return len(lines) == int(n) })
	vc.Invariant(func(lines []Line, n vc.Iter) bool {
		return vc.Implies(k < int(n), len(lines[k].Spans) == len(spans) && vc.Forall(0, len(spans), func(i int) bool { return lines[k].Spans[i] == NewSpan(spans[i]) }))
	})
	t := NewTextStr(s)
	vc.Ensures("a text has one line per line of the string", len(t.Lines) == len(want))
	vc.Ensures("each line holds its line of the string", len(t.Lines[k].Spans) == len(spans) && vc.Forall(0, len(spans), func(i int) bool { return t.Lines[k].Spans[i] == NewSpan(spans[i]) }))
	return t
}

//vc:prop C16
//vc:bounded
func spec_NewTextStr_joined(parts []string) {
	s := strings.Join(parts, "\n")
	vc.Requires(!strings.Contains(s, "\r"))
	t := NewTextStr(s)
	want := strings.Split(strings.TrimSuffix(s, "\n"), "\n")
	vc.Ensures("a text has one line per line of the string", len(t.Lines) == len(want))
	for i := range want {
		vc.Ensures("each line holds its line of the string", t.Lines[i].String() == want[i])
	}
}

//vc:prop C16
//vc:bounded
func spec_Text_rows(t Text, buffer *bento.Buffer, place bento.VcPlace, i int) {
	vc.Requires(bento.VcBufOK(buffer))
	area := bento.Rect(place).Intersection(buffer.Area())
	vc.Requires(0 <= i && i < len(t.Lines) && i < area.Height && !area.IsEmpty())
	l := t.Lines[i]
	if l.Alignment == bento.AlignmentNone {
		l.Alignment = t.Alignment
	}
	other := bento.NewBufferEmpty(buffer.Area())
	t.Render(area, buffer)
	row := bento.Rect{Position: bento.Position{X: area.X, Y: area.Y + i}, Width: area.Width, Height: 1}
	for x := row.X; x < row.X+row.Width; x++ {
		*other.CellAt(bento.Position{X: x, Y: row.Y}) = *buffer.CellAt(bento.Position{X: x, Y: row.Y})
	}
	l.Render(row, &other)
	for x := row.X; x < row.X+row.Width; x++ {
		vc.Ensures("line i is shown on row i with the text's alignment unless it has its own", other.CellAt(bento.Position{X: x, Y: row.Y}).Symbol == buffer.CellAt(bento.Position{X: x, Y: row.Y}).Symbol)
	}
}

// Builders.

func vcSpansEq(a, b []Span) bool {
	if len(a) != len(b) {
		return false
	}
	for i := range a {
		if a[i] != b[i] {
			return false
		}
	}
	return true
}

func vcLineEq(a, b Line) bool {
	return a.Style == b.Style && a.Alignment == b.Alignment && vcSpansEq(a.Spans, b.Spans)
}

func vcLinesEq(a, b Lines) bool {
	if len(a) != len(b) {
		return false
	}
	for i := range a {
		if !vcLineEq(a[i], b[i]) {
			return false
		}
	}
	return true
}

//vc:prop C22
func spec_Line_builders(l Line, s1, s2 Span, str string, style bento.Style, al bento.Alignment) {
	old := Line{Style: l.Style, Alignment: l.Alignment, Spans: vc.Snap(l.Spans)}
	a := l.WithSpans(s1)
	wantA := Line{Style: l.Style, Alignment: l.Alignment, Spans: append(vc.Snap(l.Spans), s1)}
	vc.Ensures("spans are added at the end", vcLineEq(a, wantA))
	b := l.WithSpans(s2, s1)
	c := l.WithSpansStr(str)
	d := a.WithSpans(s2)
	e := a.WithSpansStr(str, "x")
	vc.Ensures("adding to one copy is not seen by another", vcLineEq(a, wantA))
	vc.Ensures("adding to one copy is not seen by another", vcLineEq(b, Line{Style: l.Style, Alignment: l.Alignment, Spans: append(vc.Snap(l.Spans), s2, s1)}))
	vc.Ensures("adding to one copy is not seen by another", vcLineEq(c, Line{Style: l.Style, Alignment: l.Alignment, Spans: append(vc.Snap(l.Spans), NewSpan(str))}))
	vc.Ensures("adding to one copy is not seen by another", vcLineEq(d, Line{Style: l.Style, Alignment: l.Alignment, Spans: append(vc.Snap(wantA.Spans), s2)}))
	vc.Ensures("adding to one copy is not seen by another", vcLineEq(e, Line{Style: l.Style, Alignment: l.Alignment, Spans: append(vc.Snap(wantA.Spans), NewSpan(str), NewSpan("x"))}))
	w := l
	w.Style = style
	vc.Ensures("WithStyle changes the style only", vcLineEq(l.WithStyle(style), w))
	w = l
	w.Alignment = al
	vc.Ensures("WithAlignment changes the alignment only", vcLineEq(l.WithAlignment(al), w))
	w.Alignment = bento.AlignmentLeft
	vc.Ensures("Left", vcLineEq(l.Left(), w))
	w.Alignment = bento.AlignmentRight
	vc.Ensures("Right", vcLineEq(l.Right(), w))
	w.Alignment = bento.AlignmentCenter
	vc.Ensures("Center", vcLineEq(l.Center(), w))
	vc.Ensures("the receiver is unchanged", vcLineEq(l, old))
}

//vc:prop C22
func spec_Span_builders(s Span, style bento.Style) {
	old := s
	w := s
	w.Style = style
	vc.Ensures("WithStyle changes the style only", s.WithStyle(style) == w)
	w.Style = old.Style.Patched(style)
	vc.Ensures("WithStylePatch patches the style only", s.WithStylePatch(style) == w)
	vc.Ensures("the receiver is unchanged", s == old)
}

//vc:prop C22
//vc:bounded
func spec_Text_builders(t Text, l1, l2 Line, str string, style bento.Style, al bento.Alignment) {
	eq := func(a Text, lines Lines, s bento.Style, al bento.Alignment) bool {
		return a.Style == s && a.Alignment == al && vcLinesEq(a.Lines, lines)
	}
	old := Lines(vc.Snap(t.Lines))
	a := t.WithLines(l1)
	b := t.WithLines(l2, l1)
	c := t.WithLinesStr(str)
	d := a.WithLines(l2)
	e := a.WithLinesStr(str)
	vc.Ensures("adding to one copy is not seen by another", eq(a, append(vc.Snap(old), l1), t.Style, t.Alignment))
	vc.Ensures("adding to one copy is not seen by another", eq(b, append(vc.Snap(old), l2, l1), t.Style, t.Alignment))
	vc.Ensures("adding to one copy is not seen by another", eq(c, append(vc.Snap(old), NewLinesStr(str)...), t.Style, t.Alignment))
	vc.Ensures("adding to one copy is not seen by another", eq(d, append(vc.Snap(old), l1, l2), t.Style, t.Alignment))
	vc.Ensures("adding to one copy is not seen by another", eq(e, append(append(vc.Snap(old), l1), NewLinesStr(str)...), t.Style, t.Alignment))
	vc.Ensures("WithStyle changes the style only", eq(t.WithStyle(style), old, style, t.Alignment))
	vc.Ensures("WithAlignment changes the alignment only", eq(t.WithAlignment(al), old, t.Style, al))
	vc.Ensures("Left", eq(t.Left(), old, t.Style, bento.AlignmentLeft))
	vc.Ensures("Right", eq(t.Right(), old, t.Style, bento.AlignmentRight))
	vc.Ensures("Center", eq(t.Center(), old, t.Style, bento.AlignmentCenter))
	vc.Ensures("the receiver is unchanged", vcLinesEq(t.Lines, old))
}

func vcLineSame(a, b Line) bool {
	return a.Style == b.Style && a.Alignment == b.Alignment && bento.VcSame(a.Spans, b.Spans)
}

func vcTextSame(a, b Text) bool {
	return a.Style == b.Style && a.Alignment == b.Alignment && bento.VcSameBy(a.Lines, b.Lines, vcLineSame)
}

// VcLineSame and VcTextSame compare by content.
func VcLineSame(a, b Line) bool { return vcLineSame(a, b) }
func VcTextSame(a, b Text) bool { return vcTextSame(a, b) }

// VcTextCopy and VcLineCopy keep what a value is now.
func VcTextCopy(t Text) Text {
	t.Lines = vc.Snap(t.Lines)
	return t
}

func VcLineCopy(l Line) Line {
	l.Spans = vc.Snap(l.Spans)
	return l
}

//vc:prop C22
func spec_Line_setters(l Line, style bento.Style, al bento.Alignment) {
	w := l
	w.Style = style
	vc.Ensures("WithStyle changes the style only", vcLineSame(l.WithStyle(style), w))
	w = l
	w.Alignment = al
	vc.Ensures("WithAlignment changes the alignment only", vcLineSame(l.WithAlignment(al), w))
	w.Alignment = bento.AlignmentLeft
	vc.Ensures("Left", vcLineSame(l.Left(), w))
	w.Alignment = bento.AlignmentRight
	vc.Ensures("Right", vcLineSame(l.Right(), w))
	w.Alignment = bento.AlignmentCenter
	vc.Ensures("Center", vcLineSame(l.Center(), w))
}

//vc:prop C22
func spec_Line_WithSpans(l Line, ss []Span) {
	all := l.Spans[:cap(l.Spans)]
	old := vc.Snap(all)
	added := vc.Snap(ss)
	n := len(l.Spans)
	a := l.WithSpans(ss...)
	vc.Ensures("no existing line sees the addition", vc.Forall(0, len(old), func(i int) bool { return all[i] == old[i] }))
	vc.Ensures("the spans are added at the end", len(a.Spans) == n+len(ss) &&
		vc.Forall(0, n, func(i int) bool { return a.Spans[i] == old[i] }) &&
		vc.Forall(0, len(added), func(i int) bool { return a.Spans[n+i] == added[i] }))
	a.Spans = l.Spans
	vc.Ensures("nothing else changes", vcLineSame(a, l))
}

//vc:prop C22
func spec_Line_WithSpansStr(l Line, ss []string) {
	all := l.Spans[:cap(l.Spans)]
	old := vc.Snap(all)
	n := len(l.Spans)
	vc.Invariant(func(spans []Span, i int) bool {
		return len(spans) == n+i && vc.Forall(0, n, func(k int) bool { return spans[k] == old[k] }) &&
			vc.Forall(0, i, func(k int) bool { return spans[n+k] == NewSpan(ss[k]) })
	})
	vc.Invariant(func() bool { return vc.Forall(0, len(old), func(i int) bool { return all[i] == old[i] }) })
	a := l.WithSpansStr(ss...)
	vc.Ensures("no existing line sees the addition", vc.Forall(0, len(old), func(i int) bool { return all[i] == old[i] }))
	vc.Ensures("the spans are added at the end", len(a.Spans) == n+len(ss) &&
		vc.Forall(0, n, func(i int) bool { return a.Spans[i] == old[i] }) &&
		vc.Forall(0, len(ss), func(i int) bool { return a.Spans[n+i] == NewSpan(ss[i]) }))
	a.Spans = l.Spans
	vc.Ensures("nothing else changes", vcLineSame(a, l))
}

//vc:prop C22
func spec_Text_setters(t Text, style bento.Style, al bento.Alignment) {
	w := t
	w.Style = style
	vc.Ensures("WithStyle changes the style only", vcTextSame(t.WithStyle(style), w))
	w = t
	w.Alignment = al
	vc.Ensures("WithAlignment changes the alignment only", vcTextSame(t.WithAlignment(al), w))
	w.Alignment = bento.AlignmentLeft
	vc.Ensures("Left", vcTextSame(t.Left(), w))
	w.Alignment = bento.AlignmentRight
	vc.Ensures("Right", vcTextSame(t.Right(), w))
	w.Alignment = bento.AlignmentCenter
	vc.Ensures("Center", vcTextSame(t.Center(), w))
}

//vc:prop C22
func spec_Text_WithLines(t Text, ls []Line) {
	all := t.Lines[:cap(t.Lines)]
	old := vc.Snap(all)
	added := vc.Snap(ls)
	n := len(t.Lines)
	a := t.WithLines(ls...)
	vc.Ensures("no existing text sees the addition", vc.Forall(0, len(old), func(i int) bool { return vcLineSame(all[i], old[i]) }))
	vc.Ensures("the lines are added at the end", len(a.Lines) == n+len(ls) &&
		vc.Forall(0, n, func(i int) bool { return vcLineSame(a.Lines[i], old[i]) }) &&
		vc.Forall(0, len(added), func(i int) bool { return vcLineSame(a.Lines[n+i], added[i]) }))
	a.Lines = t.Lines
	vc.Ensures("nothing else changes", vcTextSame(a, t))
}

//vc:prop C22
func spec_AppendTextSpans(t Text, ss []Span, k, j int) {
	vc.Requires(0 <= k && k < len(t.Lines) && 0 <= j && j < cap(t.Lines[k].Spans))
	line := t.Lines[k]
	last := t.Lines[len(t.Lines)-1]
	spans := vc.Snap(last.Spans)
	span := line.Spans[:cap(line.Spans)][j]
	n := len(t.Lines)
	a := t
	AppendTextSpans(&a, ss...)
	vc.Ensures("another text does not see the addition", vcLineSame(t.Lines[k], line) && line.Spans[:cap(line.Spans)][j] == span)
	vc.Ensures("the spans end up at the end of the last line", len(a.Lines) == n && len(a.Lines[n-1].Spans) == len(spans)+len(ss) &&
		vc.Forall(0, len(spans), func(i int) bool { return a.Lines[n-1].Spans[i] == spans[i] }) &&
		vc.Forall(0, len(ss), func(i int) bool { return a.Lines[n-1].Spans[len(spans)+i] == ss[i] }))
	vc.Ensures("other lines stay", vc.Implies(k < n-1, vcLineSame(a.Lines[k], line)))
	x := a.Lines[n-1]
	x.Spans = last.Spans
	a.Lines = t.Lines
	vc.Ensures("nothing else changes", vcTextSame(a, t) && vcLineSame(x, last))
}

//vc:prop C13
//vc:use
//vc:target (Line).Print
func spec_Line_Print(l Line, buffer *bento.Buffer, x, y, maxWidth int, p bento.Position, g, d int) (int, int) {
	was := buffer.Area()
	vc.Requires(bento.VcBufOK(buffer) && bento.VcInside(was, p.X, p.Y) && was.Left() <= x && x <= was.Right() && was.Top() <= y && y < was.Bottom() && 0 <= maxWidth && maxWidth <= was.Width)
	old, size := bento.VcCell(buffer, p), bento.VcSize(buffer)
	bento.VcDraws(buffer)
	vc.InvariantIn("Print", func(at, left int) bool { return x <= at && 0 <= left && at+left == x+maxWidth })
	vc.InvariantIn("Print", func(at int) bool { return x <= at && at <= was.Right() })
	vc.Invariant(func() bool { return p.Y == y && x <= p.X && p.X < x+maxWidth || bento.VcCell(buffer, p) == old })
	rx, ry := l.Print(buffer, x, y, maxWidth)
	vc.Ensures("the buffer keeps its area", buffer.Area() == was && bento.VcSize(buffer) == size)
	vc.Ensures("nothing is printed outside of the room", p.Y == y && x <= p.X && p.X < x+maxWidth || bento.VcCell(buffer, p) == old)
	vc.Ensures("the returned position is after what was printed", ry == y && x <= rx && rx <= x+maxWidth && rx <= was.Right())
	return rx, ry
}
