package bento

import "github.com/metafates/bento/internal/vc"

// What contracts of other packages say about rectangles and buffers.

func VcRectOK(r Rect) bool           { return vcRectOK(r) }
func VcPlaceOK(r Rect) bool         { return vcPlaceOK(r) }
func VcNearOK(r Rect) bool          { return vcNearOK(r) }
func VcBufOK(b *Buffer) bool         { return vcBufOK(b) }
func VcPadOK(p Padding) bool         { return vcPadOK(p) }
func VcInside(r Rect, x, y int) bool { return vcInside(r, x, y) }

// VcCell is the cell of a buffer at a position inside it.
func VcCell(b *Buffer, p Position) Cell { return b.content[vcIdx(b.area, p.X, p.Y)] }

func VcIsBlank(c Cell) bool { return vcIsBlank(c) }

// VcStyled is a cell after a style was applied to it.
func VcStyled(c Cell, s Style) Cell { return vcStyled(c, s) }

// VcSize is the number of cells of a buffer.
func VcSize(b *Buffer) int { return len(b.content) }

// VcDraws declares that only the cells of the buffer change.
func VcDraws(b *Buffer) { vc.Modifies(b.content) }

// VcPlace draws an area for a widget: mostly overlapping the buffer.
type VcPlace Rect

var _ = vc.Register(func(r *vc.R) VcPlace {
	b, ok := r.Memo["area"].(Rect)
	if !ok {
		b = vc.Make[Rect](r)
		r.Memo["area"] = b
	}
	if r.Intn(4) == 0 {
		return VcPlace(vc.Make[Rect](r))
	}
	if r.Intn(3) == 0 {
		return VcPlace(b)
	}
	dx, dy := r.Int(-2, 2), r.Int(-2, 2)
	return VcPlace(Rect{Position: Position{X: b.X + dx, Y: b.Y + dy}, Width: max(0, b.Width+r.Int(-3, 3)), Height: max(0, b.Height+r.Int(-3, 3))})
})

var _ = vc.Register(func(r *vc.R) Alignment { return Alignment(r.Intn(4)) })

var _ = vc.Register(func(r *vc.R) Flex { return Flex(r.Intn(6)) })

var _ = vc.Register(func(r *vc.R) Padding {
	if r.Bool() {
		return Padding{}
	}
	return Padding{Top: r.Intn(3), Right: r.Intn(3), Bottom: r.Intn(3), Left: r.Intn(3)}
})

// VcSame compares slices by content.
func VcSame[T comparable](a, b []T) bool {
	return len(a) == len(b) && vc.Forall(0, len(a), func(i int) bool { return a[i] == b[i] })
}

// VcSameBy compares slices element by element.
func VcSameBy[T any](a, b []T, eq func(x, y T) bool) bool {
	return len(a) == len(b) && vc.Forall(0, len(a), func(i int) bool { return eq(a[i], b[i]) })
}

// VcOpt compares optional values by content.
func VcOpt[T comparable](a, b *T) bool {
	return (a == nil) == (b == nil) && (a == nil || *a == *b)
}

// VcCopy keeps what is at p now.
func VcCopy[T any](p *T) *T {
	if p == nil {
		return nil
	}
	x := *p
	return &x
}
