package throbberwidget

import (
	"github.com/metafates/bento"
	"github.com/metafates/bento/internal/vc"
)

var _ = vc.Register(func(r *vc.R) Type { return Type(r.Intn(9)) })

var _ = vc.Register(func(r *vc.R) Set { return Type(r.Intn(9)).Set() })

//vc:prop C13
func spec_Throbber_Render(w Throbber, buffer *bento.Buffer, place bento.VcPlace, state State, p bento.Position) {
	area := bento.Rect(place)
	vc.Requires(bento.VcSmallOK(area) && bento.VcBufOK(buffer) && bento.VcInside(buffer.Area(), p.X, p.Y))
	vc.Requires(bento.VcPadOK(w.padding) && len(w.set) > 0 && state.frame >= 0)
	old, was, size := bento.VcCell(buffer, p), buffer.Area(), bento.VcSize(buffer)
	bento.VcDraws(buffer)
	vc.Invariant(func() bool { return bento.VcInside(area, p.X, p.Y) || bento.VcCell(buffer, p) == old })
	w.RenderStateful(area, buffer, state)
	vc.Ensures("the buffer keeps its area", buffer.Area() == was && bento.VcSize(buffer) == size)
	vc.Ensures("a cell outside the area is unchanged", bento.VcInside(area, p.X, p.Y) || bento.VcCell(buffer, p) == old)
}

//vc:prop C22
func spec_Throbber_setters(t Throbber, k Type) {
	w := t
	w.set = k.Set()
	a := t.WithType(k)
	vc.Ensures("WithType changes the frames only", a.style == w.style && a.vertical == w.vertical && a.horizontal == w.horizontal && a.padding == w.padding)
	vc.Ensures("WithType sets the frames", len(a.set) == len(w.set) && vc.Forall(0, len(w.set), func(i int) bool { return a.set[i] == w.set[i] }))
}
