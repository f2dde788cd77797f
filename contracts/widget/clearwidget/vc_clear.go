package clearwidget

import (
	"github.com/metafates/bento"
	"github.com/metafates/bento/internal/vc"
)

//vc:target Clear.Render
//vc:prop C13
func spec_Clear_Render(w Clear, buffer *bento.Buffer, place bento.VcPlace, p bento.Position) {
	area := bento.Rect(place)
	vc.Requires(bento.VcRectOK(area) && bento.VcBufOK(buffer) && bento.VcInside(buffer.Area(), p.X, p.Y))
	old, was := bento.VcCell(buffer, p), buffer.Area()
	vc.InvariantIn("Render", func(x, y int) bool {
		return vc.Implies(bento.VcInside(area, p.X, p.Y) && (p.X < x || p.X == x && p.Y < y), bento.VcIsBlank(bento.VcCell(buffer, p))) &&
			vc.Implies(!(bento.VcInside(area, p.X, p.Y) && (p.X < x || p.X == x && p.Y < y)), bento.VcCell(buffer, p) == old)
	})
	vc.InvariantIn("Render", func(x int) bool {
		return vc.Implies(bento.VcInside(area, p.X, p.Y) && p.X < x, bento.VcIsBlank(bento.VcCell(buffer, p))) &&
			vc.Implies(!(bento.VcInside(area, p.X, p.Y) && p.X < x), bento.VcCell(buffer, p) == old)
	})
	w.Render(area, buffer)
	vc.Ensures("the buffer keeps its area", buffer.Area() == was && bento.VcBufOK(buffer))
	if bento.VcInside(area, p.X, p.Y) {
		vc.Ensures("every cell of the area is blank", bento.VcIsBlank(bento.VcCell(buffer, p)))
	} else {
		vc.Ensures("a cell outside the area is unchanged", bento.VcCell(buffer, p) == old)
	}
}
