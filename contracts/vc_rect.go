package bento

import "github.com/metafates/bento/internal/vc"

const vcBig = 1 << 30

func vcRectOK(r Rect) bool {
	return -vcBig <= r.X && r.X <= vcBig && -vcBig <= r.Y && r.Y <= vcBig &&
		0 <= r.Width && r.Width <= vcBig && 0 <= r.Height && r.Height <= vcBig
}

// vcPlaceOK: an area to draw in, which may lie outside the buffer.
func vcPlaceOK(r Rect) bool {
	return vcPosOK(r.Position) && 0 <= r.Width && r.Width <= vcBig && 0 <= r.Height && r.Height <= vcBig
}

// vcNearOK: an area whose corner lies in a buffer or on its border.
func vcNearOK(r Rect) bool {
	return -2*vcBig <= r.X && r.X <= 2*vcBig && -2*vcBig <= r.Y && r.Y <= 2*vcBig &&
		0 <= r.Width && r.Width <= vcBig && 0 <= r.Height && r.Height <= vcBig
}

func vcPosOK(p Position) bool {
	return -4*vcBig <= p.X && p.X <= 4*vcBig && -4*vcBig <= p.Y && p.Y <= 4*vcBig
}

func vcPadOK(p Padding) bool {
	return 0 <= p.Top && p.Top <= vcBig && 0 <= p.Right && p.Right <= vcBig &&
		0 <= p.Bottom && p.Bottom <= vcBig && 0 <= p.Left && p.Left <= vcBig
}

// inside is the meaning of "the rectangle contains the position".
func vcInside(r Rect, x, y int) bool {
	return x >= r.X && x < r.X+r.Width && y >= r.Y && y < r.Y+r.Height
}

//vc:target Rect.Contains
//vc:prop C01
//vc:opts overflow
func spec_Rect_Contains(r Rect, position Position) bool {
	vc.Requires(vcRectOK(r))
	res := r.Contains(position)
	vc.Ensures("contains exactly the positions of the rectangle", res == vcInside(r, position.X, position.Y))
	return res
}

//vc:target Rect.Intersection
//vc:prop C01
//vc:opts overflow
func spec_Rect_Intersection(r Rect, other Rect, p Position) Rect {
	vc.Requires(vcRectOK(r) && vcRectOK(other))
	res := r.Intersection(other)
	vc.Ensures("a position is in the intersection exactly when it is in both", vcInside(res, p.X, p.Y) == (vcInside(r, p.X, p.Y) && vcInside(other, p.X, p.Y)))
	vc.Ensures("the intersection has no negative size", res.Width >= 0 && res.Height >= 0)
	return res
}

//vc:target Rect.Inner
//vc:prop C01
//vc:opts overflow
func spec_Rect_Inner(r Rect, padding Padding, p Position) Rect {
	vc.Requires(vcRectOK(r) && vcPadOK(padding))
	res := r.Inner(padding)
	want := p.X-r.X >= padding.Left && r.X+r.Width-1-p.X >= padding.Right &&
		p.Y-r.Y >= padding.Top && r.Y+r.Height-1-p.Y >= padding.Bottom
	vc.Ensures("inner holds exactly the positions at the padding's distance from each side", vcInside(res, p.X, p.Y) == (vcInside(r, p.X, p.Y) && want))
	vc.Ensures("inner has no negative size", res.Width >= 0 && res.Height >= 0)
	vc.Ensures("inner is empty when the padding does not fit", vc.Implies(padding.Left+padding.Right > r.Width || padding.Top+padding.Bottom > r.Height, res.Width*1 == 0 || res.Height == 0))
	return res
}

//vc:target Rect.Rows
//vc:prop C01
//vc:use
//vc:opts overflow
func spec_Rect_Rows(r Rect) []Rect {
	vc.Requires(vcPlaceOK(r))
	vc.Invariant(func(rows []Rect, fwd int) bool { return len(rows) == fwd-r.Y })
	vc.Invariant(func(rows []Rect) bool {
		return vc.Forall(0, len(rows), func(i int) bool {
			return rows[i].X == r.X && rows[i].Y == r.Y+i && rows[i].Width == r.Width && rows[i].Height == 1
		})
	})
	res := r.Rows()
	vc.Ensures("one row per line", len(res) == r.Height)
	vc.Ensures("rows are one-cell-high strips in order", vc.Forall(0, len(res), func(i int) bool {
		return res[i].X == r.X && res[i].Y == r.Y+i && res[i].Width == r.Width && res[i].Height == 1
	}))
	return res
}

//vc:target Rect.Columns
//vc:prop C01
//vc:use
//vc:opts overflow
func spec_Rect_Columns(r Rect) []Rect {
	vc.Requires(vcPlaceOK(r))
	vc.Invariant(func(rows []Rect, fwd int) bool { return len(rows) == fwd-r.X })
	vc.Invariant(func(rows []Rect) bool {
		return vc.Forall(0, len(rows), func(i int) bool {
			return rows[i].X == r.X+i && rows[i].Y == r.Y && rows[i].Width == 1 && rows[i].Height == r.Height
		})
	})
	res := r.Columns()
	vc.Ensures("one column per cell of width", len(res) == r.Width)
	vc.Ensures("columns are one-cell-wide strips in order", vc.Forall(0, len(res), func(i int) bool {
		return res[i].X == r.X+i && res[i].Y == r.Y && res[i].Width == 1 && res[i].Height == r.Height
	}))
	return res
}

//vc:target Rect.IndentX
//vc:prop C01
//vc:opts overflow
func spec_Rect_IndentX(r Rect, offset int, p Position) Rect {
	vc.Requires(vcRectOK(r) && 0 <= offset && offset <= vcBig)
	res := r.IndentX(offset)
	vc.Ensures("indenting drops exactly the first columns", vcInside(res, p.X, p.Y) == (vcInside(r, p.X, p.Y) && p.X-r.X >= offset))
	return res
}

//vc:prop C01
//vc:opts overflow
func spec_Rect_edges(r Rect, x, y, w, h int) {
	vc.Requires(vcRectOK(r))
	vc.Ensures("left, right, top, bottom", r.Left() == r.X && r.Right() == r.X+r.Width && r.Top() == r.Y && r.Bottom() == r.Y+r.Height)
	vc.Ensures("a rectangle is empty exactly when it has no area", r.IsEmpty() == (r.Width == 0 || r.Height == 0))
	vc.Ensures("positioning keeps the size", r.Positioned(x, y) == Rect{Position: Position{X: x, Y: y}, Width: r.Width, Height: r.Height})
	vc.Ensures("width setter", r.WithWidth(w) == Rect{Position: r.Position, Width: w, Height: r.Height})
	vc.Ensures("height setter", r.WithHeight(h) == Rect{Position: r.Position, Width: r.Width, Height: h})
	vc.Ensures("new rectangle", NewRect(w, h) == Rect{Width: w, Height: h})
	vc.Ensures("new position", NewPosition(x, y) == Position{X: x, Y: y})
}

//vc:prop C01
func spec_Rect_Area(r Rect) {
	vc.Requires(0 <= r.Width && 0 <= r.Height)
	vc.Ensures("area is width times height", r.Area() == r.Width*r.Height)
}

//vc:prop C01
func spec_Padding_setters(p Padding, s int) {
	vc.Ensures("WithTop sets the top only", p.WithTop(s) == Padding{Top: s, Right: p.Right, Bottom: p.Bottom, Left: p.Left})
	vc.Ensures("WithRight sets the right only", p.WithRight(s) == Padding{Top: p.Top, Right: s, Bottom: p.Bottom, Left: p.Left})
	vc.Ensures("WithBottom sets the bottom only", p.WithBottom(s) == Padding{Top: p.Top, Right: p.Right, Bottom: s, Left: p.Left})
	vc.Ensures("WithLeft sets the left only", p.WithLeft(s) == Padding{Top: p.Top, Right: p.Right, Bottom: p.Bottom, Left: s})
}

//vc:prop C01
func spec_NewPadding(a, b, c, d int) {
	vc.Ensures("no sides", NewPadding() == Padding{})
	vc.Ensures("one side", NewPadding(a) == Padding{a, a, a, a})
	vc.Ensures("vertical and horizontal", NewPadding(a, b) == Padding{Top: a, Right: b, Bottom: a, Left: b})
	vc.Ensures("four sides", NewPadding(a, b, c, d) == Padding{Top: a, Right: b, Bottom: c, Left: d})
}
