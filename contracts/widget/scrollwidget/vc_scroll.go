package scrollwidget

import (
	"github.com/metafates/bento"
	"github.com/metafates/bento/internal/vc"
)

var _ = vc.Register(func(r *vc.R) Orientation { return Orientation(r.Intn(4)) })

var _ = vc.Register(func(r *vc.R) State {
	n := r.Intn(3 + 4*r.Size)
	s := NewState(n)
	s.SetPosition(vc.Pick(r, 0, n-1, r.Intn(n+3), r.Intn(n+3)))
	if r.Bool() {
		s.SetViewportContentLen(r.Intn(3 * r.Size))
	}
	return s
})

var _ = vc.Register(func(r *vc.R) Scroll {
	s := New(Orientation(r.Intn(4)))
	if r.Bool() {
		s.thumbStyle, s.trackStyle, s.beginStyle, s.endStyle = vc.Make[bento.Style](r), vc.Make[bento.Style](r), vc.Make[bento.Style](r), vc.Make[bento.Style](r)
	}
	return s
})

//vc:prop C13
func spec_Scroll_Render(w Scroll, buffer *bento.Buffer, place bento.VcPlace, state State, p bento.Position, g, d int) {
	area := bento.Rect(place)
	vc.Requires(bento.VcPlaceOK(area) && bento.VcBufOK(buffer) && bento.VcInside(buffer.Area(), p.X, p.Y))
	vc.Requires(state.contentLen >= 0 && state.position >= 0 && state.viewportContentLen >= 0)
	vc.Requires(vcThin(&w.thumbSymbol) && vcThin(w.trackSymbol) && vcThin(w.beginSymbol) && vcThin(w.endSymbol))
	old, was, size := bento.VcCell(buffer, p), buffer.Area(), bento.VcSize(buffer)
	bento.VcDraws(buffer)
	bar := vcBar(w.orientation, area.Intersection(was))
	vc.InvariantIn("FlatMap", func(areas []bento.Rect) bool {
		return vc.Forall(0, len(areas), func(i int) bool { return bento.VcInside(bar, areas[i].X, areas[i].Y) })
	})
	vc.Invariant(func() bool { return bento.VcInside(area, p.X, p.Y) || bento.VcCell(buffer, p) == old })
	w.RenderStateful(area, buffer, state)
	vc.Ensures("the buffer keeps its area", buffer.Area() == was && bento.VcSize(buffer) == size)
	vc.Ensures("a cell outside the area is unchanged", bento.VcInside(area, p.X, p.Y) || bento.VcCell(buffer, p) == old)
}

//vc:prop C20
//vc:aux
//vc:use
//vc:target (Scroll).partLens
func spec_Scroll_partLens(w Scroll, area bento.Rect, state State) (int, int, int) {
	vc.Requires(bento.VcPlaceOK(area) && area.Width > 0 && area.Height > 0)
	vc.Requires(state.contentLen > 0 && state.position >= 0 && state.viewportContentLen >= 0)
	start, thumb, end := w.partLens(area, state)
	vc.Ensures("no part has a negative length and there is a thumb", start >= 0 && thumb >= 1 && end >= 0)
	return start, thumb, end
}

//vc:prop C13
//vc:aux
//vc:use
//vc:target (Scroll).barSymbols
func spec_Scroll_barSymbols(w Scroll, area bento.Rect, state State) []*_Symbol {
	vc.Requires(bento.VcPlaceOK(area) && area.Width > 0 && area.Height > 0)
	vc.Requires(state.contentLen > 0 && state.position >= 0 && state.viewportContentLen >= 0)
	vc.Requires(vcThin(&w.thumbSymbol) && vcThin(w.trackSymbol) && vcThin(w.beginSymbol) && vcThin(w.endSymbol))
	vc.InvariantIn("Repeat", func(run []*_Symbol) bool {
		return vc.Forall(0, len(run), func(i int) bool { return run[i] == nil || vc.Width(run[i].Symbol) <= 1 })
	})
	run := w.barSymbols(area, state)
	vc.Ensures("no symbol is wider than a cell", vc.Forall(0, len(run), func(i int) bool { return run[i] == nil || vc.Width(run[i].Symbol) <= 1 }))
	return run
}

// vcThin reports a symbol no wider than a cell.
func vcThin(s *string) bool { return s == nil || vc.Width(*s) <= 1 }

// vcBar is the row or column of an area in which a scrollbar is drawn.
func vcBar(o Orientation, area bento.Rect) bento.Rect {
	switch o {
	case OrientationVerticalRight:
		area.X += area.Width - 1
		area.Width = 1
	case OrientationVerticalLeft:
		area.Width = 1
	case OrientationHorizontalBottom:
		area.Y += area.Height - 1
		area.Height = 1
	case OrientationHorizontalTop:
		area.Height = 1
	}
	return area
}

// vcRun is what a rendered scrollbar shows along its bar.
func vcRun(w Scroll, area bento.Rect, state State) []string {
	b := bento.NewBufferEmpty(area)
	w.RenderStateful(area, &b, state)
	bar := vcBar(w.orientation, area)
	var out []string
	for y := bar.Y; y < bar.Y+bar.Height; y++ {
		for x := bar.X; x < bar.X+bar.Width; x++ {
			out = append(out, bento.VcCell(&b, bento.Position{X: x, Y: y}).Symbol)
		}
	}
	return out
}

// vcThumb is where the thumb starts in a run of symbols and how long it is.
func vcThumb(run []string, thumb string) (start, n int, whole bool) {
	start = -1
	for i, s := range run {
		if s == thumb {
			if start < 0 {
				start = i
			}
			n++
		}
	}
	return start, n, start >= 0 && vc.Forall(start, start+n, func(i int) bool { return run[i] == thumb })
}

//vc:prop C20
//vc:bounded
func spec_Scroll_drawn(o Orientation, state State, area bento.Rect, p bento.Position) {
	vc.Requires(bento.VcRectOK(area) && !area.IsEmpty() && area.Width < 300 && area.Height < 300 && state.contentLen > 0 && bento.VcInside(area, p.X, p.Y))
	w := New(o)
	vc.Requires(state.position >= 0 && state.viewportContentLen >= 0)
	heads := 0
	if o.IsVertical() {
		heads = 1
	}
	bar := vcBar(o, area)
	track := bar.Width + bar.Height - 1 - 2*heads
	b := bento.NewBufferEmpty(area)
	w.RenderStateful(area, &b, state)
	vc.Ensures("the scrollbar is drawn on the side it names and nowhere else", bento.VcInside(bar, p.X, p.Y) || bento.VcIsBlank(bento.VcCell(&b, p)))
	run := vcRun(w, area, state)
	start, n, whole := vcThumb(run, w.thumbSymbol)
	if track <= 0 {
		vc.Ensures("without a track there is no scrollbar", n == 0)
		return
	}
	vc.Ensures("the thumb is at least one cell in one piece", n >= 1 && whole)
	vc.Ensures("the thumb stays within its track", start >= heads && start+n <= heads+track)
	for i := range run {
		if heads > 0 && i == 0 {
			vc.Ensures("arrow heads are at both ends", run[i] == *w.beginSymbol && run[len(run)-1] == *w.endSymbol)
		} else if i >= heads && i < heads+track && (i < start || i >= start+n) {
			vc.Ensures("the rest of the track shows the track", run[i] == *w.trackSymbol)
		}
	}
	last := state.contentLen - 1
	if state.position == 0 {
		vc.Ensures("the thumb touches the start at the first position", start == heads)
	}
	if state.position >= last {
		vc.Ensures("the thumb touches the end at the last position", start+n == heads+track)
	}
	next := state
	next.position++
	ns, nn, _ := vcThumb(vcRun(w, area, next), w.thumbSymbol)
	vc.Ensures("the thumb moves forward with the position", ns >= start && ns+nn >= start+n)
	in := w.Inner(area)
	vc.Ensures("what the scrollbar leaves of the area is all but its row or column", bento.VcInside(in, p.X, p.Y) == !bento.VcInside(bar, p.X, p.Y))
}

//vc:prop C20
func spec_State_moves(s State) {
	vc.Requires(0 <= s.contentLen && s.contentLen < 1<<40 && s.viewportContentLen < 1<<40)
	last := max(0, s.contentLen-1)
	vc.Requires(0 <= s.position && s.position <= last)
	old := s
	s.Next()
	vc.Ensures("Next moves one forward, up to the last item", s.position == min(old.position+1, last))
	t := old
	t.Prev()
	vc.Ensures("Prev moves one back, down to the first item", t.position == max(old.position-1, 0))
	f := old
	f.First()
	vc.Ensures("First moves to the first item", f.position == 0)
	l := old
	l.Last()
	vc.Ensures("Last moves to the last item", l.position == last)
	fw, bw := old, old
	fw.Scroll(DirectionForward)
	bw.Scroll(DirectionBackward)
	vc.Ensures("Scroll moves like Next and Prev", fw == s && bw == t)
	vc.Ensures("moving keeps the lengths", s.contentLen == old.contentLen && t.contentLen == old.contentLen && f.contentLen == old.contentLen && l.contentLen == old.contentLen && s.viewportContentLen == old.viewportContentLen && t.viewportContentLen == old.viewportContentLen && f.viewportContentLen == old.viewportContentLen && l.viewportContentLen == old.viewportContentLen)
	vc.Ensures("Position is the position", old.Position() == old.position)
}

//vc:prop C20
func spec_State_set(n, p, v int) {
	s := NewState(n)
	vc.Ensures("a new state is at the first position", s.position == 0 && s.contentLen == n)
	s.SetPosition(p)
	s.SetViewportContentLen(v)
	vc.Ensures("setters set what they name", s.position == p && s.viewportContentLen == v && s.contentLen == n)
}
