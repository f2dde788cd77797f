package tabswidget

import (
	"github.com/metafates/bento"
	"github.com/metafates/bento/internal/vc"
	"github.com/metafates/bento/widget/blockwidget"
	"github.com/metafates/bento/widget/textwidget"
)

//vc:prop C13
func spec_Tabs_Render(w Tabs, buffer *bento.Buffer, place bento.VcPlace, p bento.Position, g, d int) {
	area := bento.Rect(place)
	vc.Requires(bento.VcPlaceOK(area) && bento.VcBufOK(buffer) && bento.VcInside(buffer.Area(), p.X, p.Y) && (w.block == nil || blockwidget.VcPad(*w.block)))
	old, was, size := bento.VcCell(buffer, p), buffer.Area(), bento.VcSize(buffer)
	bento.VcDraws(buffer)
	in := area.Intersection(was)
	if w.block != nil {
		in = w.block.Inner(in)
	}
	vc.InvariantIn("render", func(x int) bool { return in.X <= x && x <= in.X+in.Width })
	vc.Invariant(func() bool { return bento.VcInside(area, p.X, p.Y) || bento.VcCell(buffer, p) == old })
	w.Render(area, buffer)
	vc.Ensures("the buffer keeps its area", buffer.Area() == was && bento.VcSize(buffer) == size)
	vc.Ensures("a cell outside the area is unchanged", bento.VcInside(area, p.X, p.Y) || bento.VcCell(buffer, p) == old)
}

func vcTabsSame(a, b Tabs) bool {
	return blockwidget.VcBlockOpt(a.block, b.block) && bento.VcSameBy(a.titles, b.titles, textwidget.VcLineSame) && bento.VcOpt(a.selected, b.selected) && a.style == b.style && a.highlightStyle == b.highlightStyle &&
		a.divider == b.divider && textwidget.VcLineSame(a.paddingLeft, b.paddingLeft) && textwidget.VcLineSame(a.paddingRight, b.paddingRight)
}

func vcTabsCopy(t Tabs) Tabs {
	t.block, t.selected, t.titles = blockwidget.VcBlockOptCopy(t.block), bento.VcCopy(t.selected), vc.Snap(t.titles)
	t.paddingLeft, t.paddingRight = textwidget.VcLineCopy(t.paddingLeft), textwidget.VcLineCopy(t.paddingRight)
	return t
}

//vc:prop C22
func spec_Tabs_setters(t Tabs, style bento.Style, line textwidget.Line, span textwidget.Span, str string, lines []textwidget.Line) {
	old := vcTabsCopy(t)
	w := old
	w.style = style
	vc.Ensures("WithStyle", vcTabsSame(t.WithStyle(style), w))
	w = old
	w.paddingLeft = line
	vc.Ensures("WithPaddingLeft", vcTabsSame(t.WithPaddingLeft(line), w))
	w = old
	w.paddingRight = line
	vc.Ensures("WithPaddingRight", vcTabsSame(t.WithPaddingRight(line), w))
	w = old
	w.divider = span
	vc.Ensures("WithDivider", vcTabsSame(t.WithDivider(span), w))
	w = old
	w.divider = textwidget.NewSpan(str)
	vc.Ensures("WithDividerStr", vcTabsSame(t.WithDividerStr(str), w))
	w = old
	w.highlightStyle = style
	vc.Ensures("WithHighlightStyle", vcTabsSame(t.WithHighlightStyle(style), w))
	w = old
	w.selected = nil
	vc.Ensures("Unselect", vcTabsSame(t.Unselect(), w))
	w = old
	w.titles = lines
	vc.Ensures("WithTitles", vcTabsSame(t.WithTitles(lines...), w))
	vc.Ensures("the receiver keeps its meaning", vcTabsSame(t, old))
}

//vc:prop C22
func spec_Tabs_padding_str(t Tabs, str string) {
	w := vcTabsCopy(t)
	w.paddingLeft = textwidget.NewLineStr(str)
	vc.Ensures("WithPaddingLeftStr", vcTabsSame(t.WithPaddingLeftStr(str), w))
	w = t
	w.paddingRight = textwidget.NewLineStr(str)
	vc.Ensures("WithPaddingRightStr", vcTabsSame(t.WithPaddingRightStr(str), w))
}

//vc:prop C22
func spec_Tabs_options(t Tabs, i int, block blockwidget.Block) {
	old := vcTabsCopy(t)
	a := t.Select(i)
	vc.Ensures("Select selects", a.selected != nil && *a.selected == i)
	a.selected = old.selected
	vc.Ensures("Select changes the selection only", vcTabsSame(a, old))
	b := t.WithBlock(block)
	vc.Ensures("WithBlock sets the block", b.block != nil && blockwidget.VcBlockSame(*b.block, block))
	b.block = old.block
	vc.Ensures("WithBlock changes the block only", vcTabsSame(b, old))
	vc.Ensures("the receiver keeps its meaning", vcTabsSame(t, old))
}
