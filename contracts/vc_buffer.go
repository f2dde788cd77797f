package bento

import (
	"github.com/metafates/bento/internal/vc"
	"github.com/muesli/termenv"
)

// vcBufOK: a buffer for an area has one cell per position of the area.
func vcBufOK(b *Buffer) bool {
	return vcRectOK(b.area) && len(b.content) == b.area.Width*b.area.Height
}

// vcIdx is the row-major index of a position.
func vcIdx(r Rect, x, y int) int { return (y-r.Y)*r.Width + (x - r.X) }

func vcIsBlank(c Cell) bool {
	return c.Symbol == " " && c.Fg == Color(ResetColor{}) && c.Bg == Color(ResetColor{}) && c.Modifier == 0 && !c.Skip
}

var _ = vc.Register(func(r *vc.R) Rect {
	return Rect{Position: Position{X: r.Int(-2, 4), Y: r.Int(-2, 4)}, Width: r.Int(0, 1+r.Size), Height: r.Int(0, 1+r.Size/2)}
})

var _ = vc.Register(func(r *vc.R) Position {
	if a, ok := r.Memo["area"].(Rect); ok && r.Intn(4) > 0 && a.Width > 0 && a.Height > 0 {
		return Position{X: r.Int(a.X, a.X+a.Width-1), Y: r.Int(a.Y, a.Y+a.Height-1)}
	}
	return Position{X: r.Int(-2, 5), Y: r.Int(-2, 3)}
})

var _ = vc.Register(func(r *vc.R) Color {
	return vc.Pick[Color](r, ResetColor{}, termenv.NoColor{}, termenv.ANSIRed, termenv.ANSIBrightBlue, termenv.ANSI256Color(r.Intn(256)), termenv.RGBColor("#0a0b0c"))
})

var _ = vc.Register(func(r *vc.R) StyleColor {
	if r.Bool() {
		return StyleColor{}
	}
	return StyleColor{color: vc.Make[Color](r)}
})

var _ = vc.Register(func(r *vc.R) Modifier { return Modifier(r.Intn(512)) & Modifier(r.Intn(512)) })

var _ = vc.Register(func(r *vc.R) Cell {
	if r.Bool() {
		return NewEmptyCell()
	}
	return Cell{Symbol: vc.Pick(r, " ", "a", "b", "界", "─", "é", "x"), Fg: vc.Make[Color](r), Bg: vc.Make[Color](r), Modifier: vc.Make[Modifier](r), Skip: r.Intn(12) == 0}
})

var _ = vc.Register(func(r *vc.R) Buffer {
	area, again := r.Memo["area"].(Rect)
	if !again || r.Intn(4) == 0 {
		area = vc.Make[Rect](r)
		r.Memo["area"] = area
	}
	b := NewBufferEmpty(area)
	for i := range b.content {
		if o, ok := r.Memo["cells"].([]Cell); ok && i < len(o) && r.Intn(3) > 0 {
			b.content[i] = o[i]
			continue
		}
		b.content[i] = vc.Make[Cell](r)
	}
	r.Memo["cells"] = append([]Cell{}, b.content...)
	return b
})

//vc:target NewBufferFilled
//vc:prop C02
//vc:use
func spec_NewBufferFilled(area Rect, cell Cell) Buffer {
	vc.Requires(vcRectOK(area))
	vc.Invariant(func(content []Cell, i int) bool { return len(content) == i && i <= area.Width*area.Height })
	vc.Invariant(func(content []Cell) bool {
		return vc.Forall(0, len(content), func(i int) bool { return content[i] == cell })
	})
	b := NewBufferFilled(area, cell)
	vc.Ensures("the buffer covers the area", b.area == area && b.Area() == area)
	vc.Ensures("one cell per position", len(b.content) == area.Width*area.Height)
	vc.Ensures("every cell is the given one", vc.Forall(0, len(b.content), func(i int) bool { return b.content[i] == cell }))
	vc.Ensures("the cells are the buffer's own", vc.Fresh(b.content))
	return b
}

//vc:target NewBufferEmpty
//vc:prop C02
//vc:use
func spec_NewBufferEmpty(area Rect) Buffer {
	vc.Requires(vcRectOK(area))
	vc.Invariant(func(content []Cell, i int) bool { return len(content) == i && i <= area.Width*area.Height })
	vc.Invariant(func(content []Cell) bool {
		return vc.Forall(0, len(content), func(i int) bool { return vcIsBlank(content[i]) })
	})
	b := NewBufferEmpty(area)
	vc.Ensures("the buffer covers the area", b.area == area && b.Area() == area)
	vc.Ensures("one cell per position", len(b.content) == area.Width*area.Height)
	vc.Ensures("every cell is blank", vc.Forall(0, len(b.content), func(i int) bool { return vcIsBlank(b.content[i]) }))
	vc.Ensures("the cells are the buffer's own", vc.Fresh(b.content))
	return b
}

//vc:target (*Buffer).CellAt
//vc:prop C02
func spec_Buffer_CellAt(b *Buffer, position Position) {
	vc.Requires(vcBufOK(b) && vcPosOK(position))
	inside := vcInside(b.area, position.X, position.Y)
	var c *Cell
	panicked := vc.Catch(func() { c = b.CellAt(position) })
	vc.Ensures("a position outside the area panics, one inside does not", panicked == !inside)
	if inside {
		vc.Ensures("the cell is the position's own, in row-major order", c == &b.content[vcIdx(b.area, position.X, position.Y)])
	}
}

//vc:prop C02
func spec_Buffer_positions(b *Buffer, p, q Position, i int) {
	vc.Requires(vcBufOK(b) && vcInside(b.area, p.X, p.Y) && vcInside(b.area, q.X, q.Y))
	vc.Ensures("a position addresses a cell of the buffer", 0 <= b.indexOf(p) && b.indexOf(p) < len(b.content))
	vc.Ensures("different positions address different cells", vc.Implies(p != q, b.CellAt(p) != b.CellAt(q)))
	vc.Ensures("the position is recovered from the index", b.PosOf(b.indexOf(p)) == p)
	if 0 <= i && i < len(b.content) {
		pos := b.PosOf(i)
		vc.Ensures("every cell is addressed by a position of the area", vcInside(b.area, pos.X, pos.Y))
		vc.Ensures("and by the one its index stands for", b.indexOf(pos) == i)
	}
}

//vc:target (*Buffer).Reset
//vc:prop C02
//vc:use
func spec_Buffer_Reset(b *Buffer) {
	n, area := len(b.content), b.area
	vc.Modifies(b.content)
	vc.Invariant(func(i int) bool {
		return vc.Forall(0, i+1, func(j int) bool { return j < len(b.content) && vcIsBlank(b.content[j]) })
	})
	b.Reset()
	vc.Ensures("size and area stay", len(b.content) == n && b.area == area)
	vc.Ensures("every cell is blank", vc.Forall(0, n, func(j int) bool { return vcIsBlank(b.content[j]) }))
}

//vc:target (*Buffer).Resize
//vc:prop C02
//vc:use
func spec_Buffer_Resize(b *Buffer, area Rect) {
	vc.Requires(vcRectOK(area))
	vc.Modifies(b)
	vc.Modifies(b.content)
	was, old := b.content, vc.Snap(b.content)
	vc.Invariant(func(i int) bool {
		return len(b.content) == len(old)+i
	})
	vc.Invariant(func() bool {
		return len(b.content) >= len(old) && vc.Forall(0, len(old), func(j int) bool { return b.content[j] == old[j] })
	})
	vc.Invariant(func() bool {
		return vc.Forall(len(old), len(b.content), func(j int) bool { return vcIsBlank(b.content[j]) })
	})
	b.Resize(area)
	vc.Ensures("the cells are the buffer's own", vc.SameArray(b.content, was) || vc.Fresh(b.content))
	vc.Ensures("the buffer covers the new area", b.area == area)
	vc.Ensures("one cell per position", len(b.content) == area.Width*area.Height)
	vc.Ensures("surviving cells keep their order", vc.Forall(0, min(len(old), len(b.content)), func(j int) bool { return b.content[j] == old[j] }))
	vc.Ensures("added cells are blank", vc.Forall(len(old), len(b.content), func(j int) bool { return vcIsBlank(b.content[j]) }))
}

// vcStyled is a cell after a style, written out from the meaning of a style.
func vcStyled(c Cell, s Style) Cell {
	if s.Foreground.color != nil {
		c.Fg = s.Foreground.color
	}
	if s.Background.color != nil {
		c.Bg = s.Background.color
	}
	c.Modifier = (c.Modifier | s.addModifier) &^ s.subModifier
	return c
}

//vc:target (*Cell).SetStyle
//vc:prop C04 C05
func spec_Cell_SetStyle(c *Cell, style Style) {
	old := *c
	r := c.SetStyle(style)
	vc.Ensures("returns the cell", r == c)
	vc.Ensures("sets the colours the style sets, adds and removes its modifiers, leaves the rest", *c == vcStyled(old, style))
}

// The position p is universally quantified: the contract speaks about every cell.
//
//vc:target (*Buffer).SetStyle
//vc:prop C04
//vc:use
func spec_Buffer_SetStyle(b *Buffer, area Rect, style Style, p Position) {
	vc.Requires(vcBufOK(b) && vcPlaceOK(area))
	vc.Requires(vcInside(b.area, p.X, p.Y))
	k := vcIdx(b.area, p.X, p.Y)
	vc.Assert("the position has a cell", 0 <= k && k < len(b.content))
	old := b.content[k]
	vc.Modifies(b.content)
	vc.Invariant(func(y int) bool {
		return b.content[k] == old || vcInside(area, p.X, p.Y) && p.Y <= y && b.content[k] == vcStyled(old, style)
	})
	vc.InvariantIn("SetStyle", func(y, x int) bool {
		return vc.Implies(vcInside(area, p.X, p.Y) && (p.Y < y || p.Y == y && p.X < x), b.content[k] == vcStyled(old, style)) &&
			vc.Implies(!(vcInside(area, p.X, p.Y) && (p.Y < y || p.Y == y && p.X < x)), b.content[k] == old)
	})
	vc.InvariantIn("SetStyle", func(y int) bool {
		return vc.Implies(vcInside(area, p.X, p.Y) && p.Y < y, b.content[k] == vcStyled(old, style)) &&
			vc.Implies(!(vcInside(area, p.X, p.Y) && p.Y < y), b.content[k] == old)
	})
	b.SetStyle(area, style)
	if vcInside(area, p.X, p.Y) {
		vc.Ensures("a cell in the region is styled", b.content[k] == vcStyled(old, style))
	} else {
		vc.Ensures("a cell outside the region is unchanged", b.content[k] == old)
	}
}

// The cell p, the grapheme g of the text and the offset d are universally quantified.
//
//vc:target (*Buffer).SetStringN
//vc:prop C03
//vc:use
func spec_Buffer_SetStringN(b *Buffer, x, y int, value string, maxWidth int, style Style, p Position, g, d int) (int, int) {
	vc.Requires(vcBufOK(b) && vcPosOK(Position{x, y}) && -(1<<30) <= maxWidth)
	vc.Requires(x >= b.area.Left() && b.area.Top() <= y && y < b.area.Bottom())
	vc.Requires(vcInside(b.area, p.X, p.Y))
	gs := vc.Graphemes(value)
	end := func(i int) int { return vc.Sum(i, func(j int) int { return vc.Width(gs[j]) }) }
	room := min(maxWidth, max(0, b.area.Right()-x))
	k := vcIdx(b.area, p.X, p.Y)
	vc.Assert("the position has a cell", 0 <= k && k < len(b.content))
	area := b.area
	cells := b.content
	old := vc.Snap(b.content)
	printed := 0 <= g && g < len(gs) && end(g+1) <= room && vc.Width(gs[g]) > 0
	at := 0
	if printed {
		at = vcIdx(b.area, x, y) + end(g)
		vc.Assert("its last column is inside the buffer", vcInside(b.area, x+end(g), y) && vcInside(b.area, x+end(g+1)-1, y))
		vc.Assert("its last cell exists", vcIdx(b.area, x+end(g+1)-1, y) < len(b.content) && 0 <= vcIdx(b.area, x+end(g), y))
		vc.Assert("a printed grapheme has its cells in the row", 0 <= end(g) && end(g)+vc.Width(gs[g]) == end(g+1) && x+end(g+1) <= b.area.Right() && 0 <= at && at+vc.Width(gs[g]) <= len(b.content))
	}
	vc.Modifies(b.content)
	vc.Invariant(func(c vc.Iter, col int) bool { return col == x+end(int(c)) })
	vc.Invariant(func(c vc.Iter, rem int) bool { return rem == room-end(int(c)) })
	vc.Invariant(func(c vc.Iter) bool { return c == 0 || end(int(c)) <= room })
	vc.Invariant(func(c vc.Iter, col int) bool { return x+end(int(c)-1) < col && col <= x+end(int(c)) })
	vc.Invariant(func() bool {
		return vc.Implies(p.Y != y || p.X < x || p.X-x >= room, cells[k] == old[k])
	})
	vc.Invariant(func(c vc.Iter) bool {
		return vc.Implies(p.Y != y || p.X >= x+end(int(c)), cells[k] == old[k])
	})
	vc.Invariant(func(col int) bool {
		return vc.Implies(p.Y == y && p.X >= col, cells[k] == old[k])
	})
	vc.Invariant(func(c vc.Iter) bool {
		return vc.Implies(printed && g >= int(c), end(int(c)) <= end(g) && cells[at] == old[at])
	})
	vc.Invariant(func(c vc.Iter) bool {
		return vc.Implies(printed && g < int(c), cells[at] == vcPrinted(old[at], gs[g], style))
	})
	vc.Invariant(func(c vc.Iter) bool {
		return vc.Implies(printed && g < int(c) && 0 < d && d < vc.Width(gs[g]), vcIsBlank(cells[at+d]))
	})
	vc.Invariant(func(c vc.Iter) bool {
		return vc.Implies(printed && g < int(c)-1 && 0 < d && d < vc.Width(gs[g]), vcIsBlank(cells[at+d]))
	})
	vc.Invariant(func(c vc.Iter, col int) bool {
		return vc.Implies(printed && g == int(c)-1 && 0 < d && d < vc.Width(gs[g]) && d < col-x-end(g), vcIsBlank(cells[at+d]))
	})
	rx, ry := b.SetStringN(x, y, value, maxWidth, style)
	vc.Ensures("area and size stay", b.area == area && len(b.content) == len(old))
	vc.Ensures("cells outside the row, left of the start or past the width stay", vc.Implies(p.Y != y || p.X < x || p.X >= x+room, b.content[k] == old[k]))
	vc.Ensures("cells past the returned column stay", vc.Implies(p.X >= rx, b.content[k] == old[k]))
	vc.Ensures("the returned row is the row", ry == y)
	vc.Ensures("the returned column is in the room", x <= rx && rx <= x+max(0, room))
	vc.Assert("all graphemes together are as wide as the text", end(len(gs)) == vc.Width(value))
	vc.Ensures("the returned column is no further than the text is wide", rx <= x+vc.Width(value))
	if printed {
		vc.Ensures("a grapheme that fits is printed whole at its column in the style", b.content[at] == vcPrinted(old[at], gs[g], style))
		if 0 < d && d < vc.Width(gs[g]) {
			vc.Ensures("the further cells of a wide grapheme are blank", vcIsBlank(b.content[at+d]))
		}
	}
	if 0 <= g && g < len(gs) {
		vc.Ensures("the returned column is past every grapheme that fits", vc.Implies(end(g+1) <= room, rx >= x+end(g+1)))
		vc.Ensures("the returned column is not past the first that does not", vc.Implies(end(g+1) > room, rx <= x+end(g)))
	}
	return rx, ry
}

// vcPrinted is a cell after a grapheme was printed on it.
func vcPrinted(c Cell, symbol string, s Style) Cell {
	c.Symbol = symbol
	return vcStyled(c, s)
}

//vc:target (*Buffer).SetString
//vc:prop C03
func spec_Buffer_SetString(b *Buffer, x, y int, value string, style Style, p Position, g, d int) {
	vc.Requires(vcBufOK(b) && vcPosOK(Position{x, y}))
	vc.Requires(x >= b.area.Left() && b.area.Top() <= y && y < b.area.Bottom())
	vc.Requires(vcInside(b.area, p.X, p.Y))
	gs := vc.Graphemes(value)
	end := func(i int) int { return vc.Sum(i, func(j int) int { return vc.Width(gs[j]) }) }
	room := max(0, b.area.Right()-x)
	k := vcIdx(b.area, p.X, p.Y)
	vc.Assert("the position has a cell", 0 <= k && k < len(b.content))
	area := b.area
	old := vc.Snap(b.content)
	printed := 0 <= g && g < len(gs) && end(g+1) <= room && vc.Width(gs[g]) > 0
	at := 0
	if printed {
		at = vcIdx(b.area, x, y) + end(g)
		vc.Assert("its last column is inside the buffer", vcInside(b.area, x+end(g), y) && vcInside(b.area, x+end(g+1)-1, y))
		vc.Assert("its last cell exists", vcIdx(b.area, x+end(g+1)-1, y) < len(b.content) && 0 <= vcIdx(b.area, x+end(g), y))
		vc.Assert("a printed grapheme has its cells in the row", 0 <= end(g) && end(g)+vc.Width(gs[g]) == end(g+1) && x+end(g+1) <= b.area.Right() && 0 <= at && at+vc.Width(gs[g]) <= len(b.content))
	}
	vc.Modifies(b.content)
	b.SetString(x, y, value, style)
	vc.Ensures("area and size stay", b.area == area && len(b.content) == len(old))
	vc.Ensures("cells outside the row, left of the start or past the width stay", vc.Implies(p.Y != y || p.X < x || p.X >= x+room, b.content[k] == old[k]))
	if printed {
		vc.Ensures("a grapheme that fits is printed whole at its column in the style", b.content[at] == vcPrinted(old[at], gs[g], style))
		if 0 < d && d < vc.Width(gs[g]) {
			vc.Ensures("the further cells of a wide grapheme are blank", vcIsBlank(b.content[at+d]))
		}
	}
}

func vcWidths(b *Buffer) bool {
	return vc.Forall(0, len(b.content), func(i int) bool { return vc.Width(b.content[i].Symbol) <= 2 })
}

// vcCovered: the cell lies behind the wide grapheme of the cell before it.
func vcCovered(b *Buffer, i int) bool { return i > 0 && vc.Width(b.content[i-1].Symbol) == 2 }

// The cell i and the entry j of the list are universally quantified.
//
//vc:target (*Buffer).Diff
//vc:prop C06
//vc:use
func spec_Buffer_Diff(b, other *Buffer, i, j int) []PositionedCell {
	vc.Requires(vcBufOK(b) && vcBufOK(other) && b.area == other.area && vcWidths(b) && vcWidths(other))
	prev, next := b.content, other.content
	area := b.area
	listed := func(u []PositionedCell, i int) bool {
		return vc.Exists(0, len(u), func(j int) bool { return vcAt(area, u[j].Position, i) })
	}
	same := vc.Forall(0, len(next), func(k int) bool { return prev[k] == next[k] && vc.Width(next[k].Symbol) <= 1 })
	vc.Invariant(func(k, toSkip int) bool { return vcCovered(other, k) == (toSkip > 0) })
	vc.Invariant(func(k, invalidated int) bool { return vc.Implies(vcCovered(b, k), invalidated > 0) })
	vc.Invariant(func(invalidated int) bool { return vc.Implies(same, invalidated == 0) })
	vc.Invariant(func(u []PositionedCell) bool { return vc.Implies(same, len(u) == 0) })
	idx := func(u PositionedCell) int { return vcIdx(area, u.Position.X, u.Position.Y) }
	vc.Invariant(func(u []PositionedCell, k int) bool {
		return vc.Implies(0 <= j && j < len(u), vcListed(b, other, u[j]) && idx(u[j]) < k)
	})
	vc.Invariant(func(u []PositionedCell, k int) bool { return vc.Implies(len(u) > 0, idx(u[len(u)-1]) < k) })
	vc.Invariant(func(u []PositionedCell) bool {
		return vc.Implies(0 <= j && j+1 < len(u), idx(u[j]) < idx(u[j+1]))
	})
	must := 0 <= i && i < len(next) && !next[i].Skip && !vcCovered(other, i) && (prev[i] != next[i] || vcCovered(b, i))
	vc.Invariant(func(u []PositionedCell, k int) bool { return vc.Implies(must && i < k, listed(u, i)) })
	r := b.Diff(other)
	if 0 <= j && j < len(r) {
		vc.Ensures("each listed cell is at its own position with the new content, not marked to be skipped nor covered", vcListed(b, other, r[j]))
		if j+1 < len(r) {
			vc.Ensures("the list is in row-major order", idx(r[j]) < idx(r[j+1]))
		}
	}
	vc.Ensures("a cell that differs or was covered is listed", vc.Implies(must, listed(r, i)))
	vc.Ensures("equal buffers of single-width symbols have no difference", vc.Implies(same, len(r) == 0))
	return r
}

// vcAt: the position is that of cell i.
func vcAt(area Rect, p Position, i int) bool {
	return area.Width > 0 && p.X == area.X+i%area.Width && p.Y == area.Y+i/area.Width
}

func vcListed(b, other *Buffer, u PositionedCell) bool {
	k := vcIdx(b.area, u.Position.X, u.Position.Y)
	return vcInside(b.area, u.Position.X, u.Position.Y) && 0 <= k && k < len(other.content) && u.Cell == other.content[k] && !other.content[k].Skip && !vcCovered(other, k)
}
