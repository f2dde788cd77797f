package popupwidget

import (
	"github.com/metafates/bento"
	"github.com/metafates/bento/internal/vc"
	"github.com/metafates/bento/widget/blockwidget"
)

//vc:prop C13
func spec_Popup_Render(w Popup, buffer *bento.Buffer, place bento.VcPlace, p bento.Position, g, d int) {
	area := bento.Rect(place)
	vc.Requires(bento.VcSmallOK(area) && bento.VcBufOK(buffer) && bento.VcInside(buffer.Area(), p.X, p.Y))
	vc.Requires(bento.VcPadOK(w.Padding) && w.Width != nil && w.Height != nil && (w.Block == nil || blockwidget.VcPad(*w.Block)))
	old, was, size := bento.VcCell(buffer, p), buffer.Area(), bento.VcSize(buffer)
	bento.VcDraws(buffer)
	vc.Invariant(func() bool { return bento.VcInside(area, p.X, p.Y) || bento.VcCell(buffer, p) == old })
	w.Render(area, buffer)
	vc.Ensures("the buffer keeps its area", buffer.Area() == was && bento.VcSize(buffer) == size)
	vc.Ensures("a cell outside the area is unchanged", bento.VcInside(area, p.X, p.Y) || bento.VcCell(buffer, p) == old)
}

func vcPopupSame(a, b Popup) bool {
	return blockwidget.VcBlockOpt(a.Block, b.Block) && a.Horizontal == b.Horizontal && a.Vertical == b.Vertical && a.Style == b.Style && a.Width == b.Width &&
		a.Height == b.Height && a.Padding == b.Padding
}

func vcPopupCopy(p Popup) Popup {
	p.Block = blockwidget.VcBlockOptCopy(p.Block)
	return p
}

//vc:prop C22
func spec_Popup_setters(p Popup, style bento.Style, c bento.Constraint, pad bento.Padding) {
	old := vcPopupCopy(p)
	w := old
	w.Style = style
	vc.Ensures("WithStyle", vcPopupSame(p.WithStyle(style), w))
	w = old
	w.Height = c
	vc.Ensures("WithHeight", vcPopupSame(p.WithHeight(c), w))
	w = old
	w.Width = c
	vc.Ensures("WithWidth", vcPopupSame(p.WithWidth(c), w))
	w = old
	w.Padding = pad
	vc.Ensures("WithPadding", vcPopupSame(p.WithPadding(pad), w))
	w = old
	w.Vertical = bento.FlexStart
	vc.Ensures("Top", vcPopupSame(p.Top(), w))
	w = old
	w.Vertical = bento.FlexCenter
	vc.Ensures("Middle", vcPopupSame(p.Middle(), w))
	w = old
	w.Vertical = bento.FlexEnd
	vc.Ensures("Bottom", vcPopupSame(p.Bottom(), w))
	w = old
	w.Horizontal = bento.FlexStart
	vc.Ensures("Left", vcPopupSame(p.Left(), w))
	w = old
	w.Horizontal = bento.FlexCenter
	vc.Ensures("Center", vcPopupSame(p.Center(), w))
	w = old
	w.Horizontal = bento.FlexEnd
	vc.Ensures("Right", vcPopupSame(p.Right(), w))
	vc.Ensures("the receiver keeps its meaning", vcPopupSame(p, old))
}

//vc:prop C22
func spec_Popup_WithBlock(p Popup, block blockwidget.Block) {
	old := vcPopupCopy(p)
	b := p.WithBlock(block)
	vc.Ensures("WithBlock sets the block", b.Block != nil && blockwidget.VcBlockSame(*b.Block, block))
	b.Block = old.Block
	vc.Ensures("WithBlock changes the block only", vcPopupSame(b, old))
	vc.Ensures("the receiver keeps its meaning", vcPopupSame(p, old))
}
