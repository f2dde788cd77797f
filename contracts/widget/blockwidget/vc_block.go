package blockwidget

import (
	"github.com/metafates/bento"
	"github.com/metafates/bento/internal/vc"
	"github.com/metafates/bento/widget/textwidget"
)

var _ = vc.Register(func(r *vc.R) TitlePosition { return TitlePosition(r.Intn(2)) })

var _ = vc.Register(func(r *vc.R) BorderType { return BorderType(r.Intn(4)) })

var _ = vc.Register(func(r *vc.R) Side { return Side(r.Intn(16)) })

var _ = vc.Register(func(r *vc.R) BorderSet { return BorderType(r.Intn(4)).Set() })

var _ = vc.Register(func(r *vc.R) Title {
	t := NewTitle(vc.Make[textwidget.Line](r))
	if r.Bool() {
		t = NewTitleStr(r.Str())
	}
	if r.Bool() {
		t = t.WithPosition(TitlePosition(r.Intn(2)))
	}
	if r.Bool() {
		t = t.WithAlignment(bento.Alignment(r.Intn(4)))
	}
	return t
})

var _ = vc.Register(func(r *vc.R) Block {
	b := New()
	if r.Bool() {
		b = b.WithStyle(vc.Make[bento.Style](r))
	}
	if r.Bool() {
		b = b.WithBorderSides(Side(r.Intn(16)))
	} else if r.Bool() {
		b = b.Bordered()
	}
	b = b.WithBorderType(BorderType(r.Intn(4)))
	if r.Bool() {
		b = b.WithBorderStyle(vc.Make[bento.Style](r)).WithTitlesStyle(vc.Make[bento.Style](r))
	}
	if r.Intn(3) == 0 {
		b = b.WithPadding(vc.Make[bento.Padding](r))
	}
	b = b.WithTitlesAlignment(bento.Alignment(r.Intn(4)))
	b = b.WithTitlePosition(TitlePosition(r.Intn(2)))
	if r.Bool() {
		b.titles = make([]Title, 0, r.Intn(4))
	}
	if r.Bool() {
		for i := r.Intn(4); i > 0; i-- {
			b = b.WithTitle(vc.Make[Title](r))
		}
	}
	return b
})

func vcTitlePos(b Block, t Title) TitlePosition {
	if t.Position != nil {
		return *t.Position
	}
	return b.titlesPosition
}

// vcTitled reports a title at that position.
func vcTitled(b Block, p TitlePosition) bool {
	return vc.Exists(0, len(b.titles), func(i int) bool { return vcTitlePos(b, b.titles[i]) == p })
}

func vcOne(b bool) int {
	if b {
		return 1
	}
	return 0
}

// VcPad reports padding no area is too small for.
func VcPad(b Block) bool {
	return bento.VcPadOK(b.padding)
}

// VcInner reports that a position belongs to what a block leaves free in an area.
func VcInner(b Block, area bento.Rect, x, y int) bool {
	left, right := vcOne(b.borders&SideLeft != 0), vcOne(b.borders&SideRight != 0)
	top := vcOne(b.borders&SideTop != 0 || vcTitled(b, TitlePositionTop))
	bottom := vcOne(b.borders&SideBottom != 0 || vcTitled(b, TitlePositionBottom))
	return area.X+left+b.padding.Left <= x && x < area.X+area.Width-right-b.padding.Right &&
		area.Y+top+b.padding.Top <= y && y < area.Y+area.Height-bottom-b.padding.Bottom
}

//vc:prop C23
//vc:target Block.Inner
func spec_Block_Inner(b Block, area bento.Rect, x, y int) {
	vc.Requires(bento.VcRectOK(area) && bento.VcPadOK(b.padding) && b.borders < 16)
	vc.InvariantIn("hasTitleAtPosition", func(i int) bool {
		return vc.Forall(0, min(i, len(b.titles)), func(j int) bool { return vcTitlePos(b, b.titles[j]) != TitlePositionTop })
	})
	vc.InvariantIn("hasTitleAtPosition", func(i int) bool {
		return vc.Forall(0, min(i, len(b.titles)), func(j int) bool { return vcTitlePos(b, b.titles[j]) != TitlePositionBottom })
	})
	in := b.Inner(area)
	vc.Ensures("sizes are not negative", in.Width >= 0 && in.Height >= 0)
	vc.Ensures("the inner area is what borders, titles and padding leave of the area", bento.VcInside(in, x, y) == VcInner(b, area, x, y))
	vc.Ensures("the inner area lies within the area", vc.Implies(bento.VcInside(in, x, y), bento.VcInside(area, x, y)))
}

//vc:prop C23
//vc:use
//vc:target (Block).Inner
func spec_Block_Inner_within(b Block, area bento.Rect) bento.Rect {
	vc.Requires(bento.VcPlaceOK(area) && bento.VcPadOK(b.padding))
	in := b.Inner(area)
	vc.Ensures("the inner area is empty or within the area", in.Width == 0 || in.Height == 0 || vcPart(in, area))
	vc.Ensures("sizes are not negative and no larger", 0 <= in.Width && in.Width <= area.Width && 0 <= in.Height && in.Height <= area.Height && bento.VcFarOK(in))
	vc.Ensures("the inner area of a screen is near it", vc.Implies(bento.VcSmallOK(area), bento.VcNearOK(in)))
	return in
}

//vc:prop C13
//vc:use
//vc:target (Block).Render
func spec_Block_Render(b Block, place bento.VcPlace, buffer *bento.Buffer, p bento.Position) {
	area := bento.Rect(place)
	vc.Requires(bento.VcPlaceOK(area) && bento.VcBufOK(buffer) && bento.VcInside(buffer.Area(), p.X, p.Y))
	old, was, size := bento.VcCell(buffer, p), buffer.Area(), bento.VcSize(buffer)
	bento.VcDraws(buffer)
	b.Render(area, buffer)
	vc.Ensures("the buffer keeps its area", buffer.Area() == was && bento.VcSize(buffer) == size)
	vc.Ensures("a cell outside the area is unchanged", bento.VcInside(area, p.X, p.Y) || bento.VcCell(buffer, p) == old)
}

//vc:prop C13
//vc:aux
//vc:use
//vc:target (Block).renderBorders
func spec_Block_renderBorders(b Block, place bento.VcPlace, buffer *bento.Buffer, p bento.Position) {
	area := bento.Rect(place)
	vc.Requires(bento.VcBufOK(buffer) && bento.VcInside(buffer.Area(), p.X, p.Y) && vcPart(area, buffer.Area()))
	old, was, size := bento.VcCell(buffer, p), buffer.Area(), bento.VcSize(buffer)
	bento.VcDraws(buffer)
	vc.Invariant(func() bool { return bento.VcInside(area, p.X, p.Y) || bento.VcCell(buffer, p) == old })
	b.renderBorders(area, buffer)
	vc.Ensures("the buffer keeps its area", buffer.Area() == was && bento.VcSize(buffer) == size)
	vc.Ensures("a cell outside the area is unchanged", bento.VcInside(area, p.X, p.Y) || bento.VcCell(buffer, p) == old)
}

//vc:prop C13
//vc:aux
//vc:use
//vc:target (Block).renderLeftTitles
func spec_Block_renderLeftTitles(b Block, position TitlePosition, place bento.VcPlace, buffer *bento.Buffer, p bento.Position) {
	area := bento.Rect(place)
	vc.Requires(bento.VcBufOK(buffer) && bento.VcInside(buffer.Area(), p.X, p.Y) && vcPart(area, buffer.Area()) && (position == TitlePositionTop || position == TitlePositionBottom))
	old, was, size := bento.VcCell(buffer, p), buffer.Area(), bento.VcSize(buffer)
	bento.VcDraws(buffer)
	x0, y0, w0 := vcStrip(b, area, position)
	vc.InvariantIn("renderLeftTitles", func(r bento.Rect) bool { return r.Y == y0 && r.Height == 1 && r.Width >= 0 })
	vc.InvariantIn("renderLeftTitles", func(r bento.Rect) bool { return r.X >= x0 && (r.Width == 0 || r.X+r.Width <= x0+w0) })
	vc.Invariant(func() bool { return bento.VcInside(area, p.X, p.Y) || bento.VcCell(buffer, p) == old })
	b.renderLeftTitles(position, area, buffer)
	vc.Ensures("the buffer keeps its area", buffer.Area() == was && bento.VcSize(buffer) == size)
	vc.Ensures("a cell outside the area is unchanged", bento.VcInside(area, p.X, p.Y) || bento.VcCell(buffer, p) == old)
}

//vc:prop C13
//vc:aux
//vc:use
//vc:target (Block).renderRightTitles
func spec_Block_renderRightTitles(b Block, position TitlePosition, place bento.VcPlace, buffer *bento.Buffer, p bento.Position) {
	area := bento.Rect(place)
	vc.Requires(bento.VcBufOK(buffer) && bento.VcInside(buffer.Area(), p.X, p.Y) && vcPart(area, buffer.Area()) && (position == TitlePositionTop || position == TitlePositionBottom))
	old, was, size := bento.VcCell(buffer, p), buffer.Area(), bento.VcSize(buffer)
	bento.VcDraws(buffer)
	x0, y0, w0 := vcStrip(b, area, position)
	vc.InvariantIn("renderRightTitles", func(r bento.Rect) bool { return r.Y == y0 && r.Height == 1 && r.Width >= 0 })
	vc.InvariantIn("renderRightTitles", func(r bento.Rect) bool { return r.X == x0 && r.Width <= w0 })
	vc.Invariant(func() bool { return bento.VcInside(area, p.X, p.Y) || bento.VcCell(buffer, p) == old })
	b.renderRightTitles(position, area, buffer)
	vc.Ensures("the buffer keeps its area", buffer.Area() == was && bento.VcSize(buffer) == size)
	vc.Ensures("a cell outside the area is unchanged", bento.VcInside(area, p.X, p.Y) || bento.VcCell(buffer, p) == old)
}

//vc:prop C13
//vc:aux
//vc:use
//vc:target (Block).renderCenterTitles
func spec_Block_renderCenterTitles(b Block, position TitlePosition, place bento.VcPlace, buffer *bento.Buffer, p bento.Position) {
	area := bento.Rect(place)
	vc.Requires(bento.VcBufOK(buffer) && bento.VcInside(buffer.Area(), p.X, p.Y) && vcPart(area, buffer.Area()) && (position == TitlePositionTop || position == TitlePositionBottom))
	old, was, size := bento.VcCell(buffer, p), buffer.Area(), bento.VcSize(buffer)
	bento.VcDraws(buffer)
	x0, y0, w0 := vcStrip(b, area, position)
	vc.InvariantIn("renderCenterTitles", func(r bento.Rect) bool { return r.Y == y0 && r.Height == 1 && r.Width >= 0 })
	vc.InvariantIn("renderCenterTitles", func(total, i int, ts []Title) bool { return total == vcTotal(ts, i) })
	vc.InvariantIn("renderCenterTitles", func(r bento.Rect, i int, ts []Title) bool {
		return r.X == x0+max(0, w0-max(0, vcTotal(ts, len(ts))-1))/2+vcTotal(ts, i)
	})
	vc.InvariantIn("renderCenterTitles", func(r bento.Rect, i int, ts []Title) bool { return r.Width == max(0, w0-vcTotal(ts, i)) })
	vc.InvariantIn("renderCenterTitles", func(i int, ts []Title) bool {
		return i < 0 || i >= len(ts) || vcTotal(ts, i+1) == vcTotal(ts, i)+textwidget.VcLineWidth(ts[i].Line)+1 && vcTotal(ts, i+1) <= vcTotal(ts, len(ts))
	})
	vc.Invariant(func() bool { return bento.VcInside(area, p.X, p.Y) || bento.VcCell(buffer, p) == old })
	b.renderCenterTitles(position, area, buffer)
	vc.Ensures("the buffer keeps its area", buffer.Area() == was && bento.VcSize(buffer) == size)
	vc.Ensures("a cell outside the area is unchanged", bento.VcInside(area, p.X, p.Y) || bento.VcCell(buffer, p) == old)
}

// vcPart reports an area inside another that is not empty.
func vcPart(a, b bento.Rect) bool {
	return a.X >= b.X && a.Y >= b.Y && a.Width > 0 && a.Height > 0 && a.X+a.Width <= b.X+b.Width && a.Y+a.Height <= b.Y+b.Height
}

// vcStrip is where the titles at a position go.
func vcStrip(b Block, area bento.Rect, position TitlePosition) (x, y, w int) {
	left, right := vcOne(b.borders&SideLeft != 0), vcOne(b.borders&SideRight != 0)
	y = area.Y
	if position == TitlePositionBottom {
		y += area.Height - 1
	}
	return area.X + left, y, max(0, area.Width-left-right)
}

// vcTotal is the number of columns the first titles take with a blank after each.
func vcTotal(ts []Title, n int) int {
	return vc.Sum(n, func(i int) int { return textwidget.VcLineWidth(ts[i].Line) + 1 })
}

//vc:prop C23
//vc:bounded
func spec_Block_drawn(b Block, buffer *bento.Buffer, place bento.VcPlace, p bento.Position) {
	vc.Requires(bento.VcBufOK(buffer) && bento.VcPadOK(b.padding))
	area := bento.Rect(place).Intersection(buffer.Area())
	vc.Requires(bento.VcRectOK(bento.Rect(place)) && bento.VcInside(area, p.X, p.Y) && bento.VcInside(buffer.Area(), p.X, p.Y))
	old := bento.VcCell(buffer, p)
	b.Render(bento.Rect(place), buffer)
	c := bento.VcCell(buffer, p)
	base := bento.VcStyled(old, b.style)
	if VcInner(b, area, p.X, p.Y) {
		vc.Ensures("inside the inner area only the base style is applied", c == base)
	}
	left, right := p.X == area.X, p.X == area.X+area.Width-1
	top, bottom := p.Y == area.Y, p.Y == area.Y+area.Height-1
	titled := top && vcTitled(b, TitlePositionTop) || bottom && vcTitled(b, TitlePositionBottom)
	l, r := left && b.borders&SideLeft != 0, right && b.borders&SideRight != 0
	t, u := top && b.borders&SideTop != 0, bottom && b.borders&SideBottom != 0
	if area.Width < 2 || area.Height < 2 {
		return
	}
	if titled && !l && !r {
		return
	}
	want := ""
	switch {
	case t && l:
		want = b.borderSet.TopLeft
	case t && r:
		want = b.borderSet.TopRight
	case u && l:
		want = b.borderSet.BottomLeft
	case u && r:
		want = b.borderSet.BottomRight
	case l:
		want = b.borderSet.VerticalLeft
	case r:
		want = b.borderSet.VerticalRight
	case t:
		want = b.borderSet.HorizontalTop
	case u:
		want = b.borderSet.HorizontalBottom
	}
	if want == "" {
		vc.Ensures("nothing but the base style outside of borders and titles", c == base)
		return
	}
	vc.Ensures("each bordered side shows its symbol", c.Symbol == want)
	vc.Ensures("borders have the border style over the base style", c == bento.VcStyled(vcSym(base, want), b.borderStyle))
}

func vcSym(c bento.Cell, s string) bento.Cell {
	c.Symbol = s
	return c
}

//vc:prop C23
//vc:bounded
func spec_Block_titles(b Block, buffer *bento.Buffer) {
	vc.Requires(bento.VcBufOK(buffer))
	area := buffer.Area()
	vc.Requires(!area.IsEmpty())
	want := bento.NewBufferEmpty(area)
	bare := b
	bare.titles = nil
	buffer.Reset()
	bare.Render(area, &want)
	b.Render(area, buffer)
	x, w := area.X, area.Width
	if b.borders&SideLeft != 0 {
		x, w = x+1, w-1
	}
	if b.borders&SideRight != 0 {
		w--
	}
	for _, pos := range []TitlePosition{TitlePositionTop, TitlePositionBottom} {
		y := area.Y
		if pos == TitlePositionBottom {
			y += area.Height - 1
		}
		pick := func(al bento.Alignment) (out []textwidget.Line, total int) {
			for _, t := range b.titles {
				a := t.Alignment
				if a == bento.AlignmentNone {
					a = b.titlesAlignment
				}
				if a == al && vcTitlePos(b, t) == pos {
					out = append(out, t.Line)
					total += t.Line.Width() + 1
				}
			}
			return out, max(0, total-1)
		}
		show := func(l textwidget.Line, at, width int) {
			if width > 0 {
				r := bento.Rect{Position: bento.Position{X: at, Y: y}, Width: width, Height: 1}
				want.SetStyle(r, b.titlesStyle)
				l.Render(r, &want)
			}
		}
		// titles at the right end with the last one outermost
		ts, _ := pick(bento.AlignmentRight)
		for i, room := len(ts)-1, w; i >= 0; i-- {
			n := min(room, ts[i].Width())
			show(ts[i], x+room-n, n)
			room -= ts[i].Width() + 1
		}
		ts, total := pick(bento.AlignmentCenter)
		from := x + max(0, w-total)/2
		for _, l := range ts {
			show(l, from, min(from+l.Width(), x+w)-from)
			from += l.Width() + 1
		}
		ts, _ = pick(bento.AlignmentLeft)
		from = x
		for _, l := range ts {
			show(l, from, min(from+l.Width(), x+w)-from)
			from += l.Width() + 1
		}
	}
	vc.Ensures("titles are shown between the borders on their side in their place", vcSame(&want, buffer))
}

func vcSame(a, b *bento.Buffer) bool {
	r := a.Area()
	for y := r.Y; y < r.Y+r.Height; y++ {
		for x := r.X; x < r.X+r.Width; x++ {
			p := bento.Position{X: x, Y: y}
			if bento.VcCell(a, p) != bento.VcCell(b, p) {
				return false
			}
		}
	}
	return true
}

func vcLineEq(a, b textwidget.Line) bool {
	if a.Style != b.Style || a.Alignment != b.Alignment || len(a.Spans) != len(b.Spans) {
		return false
	}
	for i := range a.Spans {
		if a.Spans[i] != b.Spans[i] {
			return false
		}
	}
	return true
}

func vcTitleEq(a, b Title) bool {
	if (a.Position == nil) != (b.Position == nil) || a.Position != nil && *a.Position != *b.Position {
		return false
	}
	return a.Alignment == b.Alignment && vcLineEq(a.Line, b.Line)
}

func vcTitlesEq(a, b []Title) bool {
	if len(a) != len(b) {
		return false
	}
	for i := range a {
		if !vcTitleEq(a[i], b[i]) {
			return false
		}
	}
	return true
}

func VcBlockEq(a, b Block) bool {
	return vcTitlesEq(a.titles, b.titles) && a.titlesStyle == b.titlesStyle && a.titlesAlignment == b.titlesAlignment &&
		a.titlesPosition == b.titlesPosition && a.borders == b.borders && a.borderStyle == b.borderStyle &&
		a.borderSet == b.borderSet && a.style == b.style && a.padding == b.padding
}

func vcAligned(t Title) Title {
	if t.Alignment != bento.AlignmentNone {
		t.Line.Alignment = t.Alignment
	}
	return t
}

//vc:prop C22
//vc:bounded
func spec_Block_builders(b Block, t1, t2 Title, style bento.Style, al bento.Alignment, pos TitlePosition, pad bento.Padding, bt BorderType, s1, s2 Side, str string) {
	old := b
	old.titles = vc.Snap(b.titles)
	a := b.WithTitle(t1)
	c := b.WithTitle(t2)
	d := a.WithTitle(t2)
	e := a.WithTitleStr(str)
	with := func(ts ...Title) Block {
		w := old
		w.titles = vc.Snap(old.titles)
		for _, t := range ts {
			w.titles = append(w.titles, vcAligned(t))
		}
		return w
	}
	vc.Ensures("adding a title to one copy is not seen by another", VcBlockEq(a, with(t1)) && VcBlockEq(c, with(t2)) && VcBlockEq(d, with(t1, t2)) && VcBlockEq(e, with(t1, NewTitleStr(str))))
	w := old
	w.titlesStyle = style
	vc.Ensures("WithTitlesStyle", VcBlockEq(b.WithTitlesStyle(style), w))
	w = old
	w.titlesAlignment = al
	vc.Ensures("WithTitlesAlignment", VcBlockEq(b.WithTitlesAlignment(al), w))
	w = old
	w.titlesPosition = pos
	vc.Ensures("WithTitlePosition", VcBlockEq(b.WithTitlePosition(pos), w))
	w = old
	w.style = style
	vc.Ensures("WithStyle", VcBlockEq(b.WithStyle(style), w))
	w = old
	w.borderStyle = style
	vc.Ensures("WithBorderStyle", VcBlockEq(b.WithBorderStyle(style), w))
	w = old
	w.padding = pad
	vc.Ensures("WithPadding", VcBlockEq(b.WithPadding(pad), w))
	w = old
	w.borderSet = bt.Set()
	vc.Ensures("WithBorderType", VcBlockEq(b.WithBorderType(bt), w))
	w.borderSet = BorderTypeRounded.Set()
	vc.Ensures("Rounded", VcBlockEq(b.Rounded(), w))
	w.borderSet = BorderTypeSharp.Set()
	vc.Ensures("Sharp", VcBlockEq(b.Sharp(), w))
	w.borderSet = BorderTypeThick.Set()
	vc.Ensures("Thick", VcBlockEq(b.Thick(), w))
	w.borderSet = BorderTypeDouble.Set()
	vc.Ensures("Double", VcBlockEq(b.Double(), w))
	w = old
	w.borders = SideAll
	vc.Ensures("Bordered", VcBlockEq(b.Bordered(), w))
	vc.Ensures("WithBorderSides()", VcBlockEq(b.WithBorderSides(), w))
	w.borders = s1 | s2
	vc.Ensures("WithBorderSides", VcBlockEq(b.WithBorderSides(s1, s2), w))
	vc.Ensures("the receiver is unchanged", VcBlockEq(b, old))
}

//vc:prop C22
func spec_Title_builders(t Title, al bento.Alignment, p1, p2 TitlePosition) {
	old := t
	if t.Position != nil {
		x := *t.Position
		old.Position = &x
	}
	a := t.WithPosition(p1)
	b := a.WithPosition(p2)
	w := old
	w.Position = &p1
	vc.Ensures("WithPosition changes the position only", vcTitleEq(a, w))
	w.Position = &p2
	vc.Ensures("WithPosition changes the position only", vcTitleEq(b, w))
	x, y := TitlePositionTop, TitlePositionBottom
	w.Position = &x
	vc.Ensures("Top", vcTitleEq(t.Top(), w))
	w.Position = &y
	vc.Ensures("Bottom", vcTitleEq(t.Bottom(), w))
	w = old
	w.Alignment = al
	vc.Ensures("WithAlignment changes the alignment only", vcTitleEq(t.WithAlignment(al), w))
	w.Alignment = bento.AlignmentLeft
	vc.Ensures("Left", vcTitleEq(t.Left(), w))
	w.Alignment = bento.AlignmentRight
	vc.Ensures("Right", vcTitleEq(t.Right(), w))
	w.Alignment = bento.AlignmentCenter
	vc.Ensures("Center", vcTitleEq(t.Center(), w))
	vc.Ensures("the receiver is unchanged", vcTitleEq(t, old))
}

func vcBlockSame(a, b Block) bool {
	return bento.VcSameBy(a.titles, b.titles, vcTitleSame) && a.titlesStyle == b.titlesStyle && a.titlesAlignment == b.titlesAlignment &&
		a.titlesPosition == b.titlesPosition && a.borders == b.borders && a.borderStyle == b.borderStyle &&
		a.borderSet == b.borderSet && a.style == b.style && a.padding == b.padding
}

// VcBlockSame is vcBlockSame for other packages.
func VcBlockSame(a, b Block) bool { return vcBlockSame(a, b) }

// VcBlockOpt compares optional blocks by content.
func VcBlockOpt(a, b *Block) bool {
	return (a == nil) == (b == nil) && (a == nil || vcBlockSame(*a, *b))
}

// VcBlockCopy keeps what a block is now.
func VcBlockCopy(b Block) Block {
	b.titles = vc.Snap(b.titles)
	return b
}

// VcBlockOptCopy keeps what an optional block is now.
func VcBlockOptCopy(b *Block) *Block {
	if b == nil {
		return nil
	}
	x := VcBlockCopy(*b)
	return &x
}

func vcTitleSame(a, b Title) bool {
	return bento.VcOpt(a.Position, b.Position) && a.Alignment == b.Alignment && textwidget.VcLineSame(a.Line, b.Line)
}

//vc:prop C22
func spec_Block_setters(b Block, style bento.Style, al bento.Alignment, pos TitlePosition, pad bento.Padding, bt BorderType, s1, s2 Side) {
	old := VcBlockCopy(b)
	w := old
	w.titlesStyle = style
	vc.Ensures("WithTitlesStyle", vcBlockSame(b.WithTitlesStyle(style), w))
	w = old
	w.titlesAlignment = al
	vc.Ensures("WithTitlesAlignment", vcBlockSame(b.WithTitlesAlignment(al), w))
	w = old
	w.titlesPosition = pos
	vc.Ensures("WithTitlePosition", vcBlockSame(b.WithTitlePosition(pos), w))
	w = old
	w.style = style
	vc.Ensures("WithStyle", vcBlockSame(b.WithStyle(style), w))
	w = old
	w.borderStyle = style
	vc.Ensures("WithBorderStyle", vcBlockSame(b.WithBorderStyle(style), w))
	w = old
	w.padding = pad
	vc.Ensures("WithPadding", vcBlockSame(b.WithPadding(pad), w))
	w = old
	w.borderSet = bt.Set()
	vc.Ensures("WithBorderType", vcBlockSame(b.WithBorderType(bt), w))
	w = old
	w.borderSet = BorderTypeRounded.Set()
	vc.Ensures("Rounded", vcBlockSame(b.Rounded(), w))
	w = old
	w.borderSet = BorderTypeSharp.Set()
	vc.Ensures("Sharp", vcBlockSame(b.Sharp(), w))
	w = old
	w.borderSet = BorderTypeThick.Set()
	vc.Ensures("Thick", vcBlockSame(b.Thick(), w))
	w = old
	w.borderSet = BorderTypeDouble.Set()
	vc.Ensures("Double", vcBlockSame(b.Double(), w))
	w = old
	w.borders = SideAll
	vc.Ensures("Bordered", vcBlockSame(b.Bordered(), w))
	w = old
	w.borders = SideAll
	vc.Ensures("WithBorderSides of none is all", vcBlockSame(b.WithBorderSides(), w))
	w = old
	w.borders = s1 | s2
	vc.Ensures("WithBorderSides", vcBlockSame(b.WithBorderSides(s1, s2), w))
	vc.Ensures("the receiver keeps its meaning", vcBlockSame(b, old))
}

//vc:prop C22
func spec_Block_WithTitle(b Block, t Title) {
	all := b.titles[:cap(b.titles)]
	old := vc.Snap(all)
	n := len(b.titles)
	a := b.WithTitle(t)
	vc.Ensures("no existing block sees the addition", vc.Forall(0, len(old), func(i int) bool { return vcTitleSame(all[i], old[i]) }))
	vc.Ensures("the title is added at the end", len(a.titles) == n+1 && vcTitleSame(a.titles[n], vcAligned(t)) &&
		vc.Forall(0, n, func(i int) bool { return vcTitleSame(a.titles[i], old[i]) }))
	a.titles = b.titles
	vc.Ensures("nothing else changes", vcBlockSame(a, b))
}

//vc:prop C22
func spec_Block_WithTitleStr(b Block, t string) {
	all := b.titles[:cap(b.titles)]
	old := vc.Snap(all)
	n := len(b.titles)
	a := b.WithTitleStr(t)
	vc.Ensures("no existing block sees the addition", vc.Forall(0, len(old), func(i int) bool { return vcTitleSame(all[i], old[i]) }))
	vc.Ensures("the title is added at the end", len(a.titles) == n+1 &&
		vc.Forall(0, n, func(i int) bool { return vcTitleSame(a.titles[i], old[i]) }))
	a.titles = b.titles
	vc.Ensures("nothing else changes", vcBlockSame(a, b))
}

//vc:prop C22
func spec_Title_setters(t Title, al bento.Alignment, p1 TitlePosition) {
	a := t.WithPosition(p1)
	vc.Ensures("WithPosition sets the position", a.Position != nil && *a.Position == p1)
	b, c := t.Top(), t.Bottom()
	vc.Ensures("Top", b.Position != nil && *b.Position == TitlePositionTop)
	vc.Ensures("Bottom", c.Position != nil && *c.Position == TitlePositionBottom)
	a.Position, b.Position, c.Position = t.Position, t.Position, t.Position
	vc.Ensures("nothing else changes", vcTitleSame(a, t) && vcTitleSame(b, t) && vcTitleSame(c, t))
	w := t
	w.Alignment = al
	vc.Ensures("WithAlignment changes the alignment only", vcTitleSame(t.WithAlignment(al), w))
	w.Alignment = bento.AlignmentLeft
	vc.Ensures("Left", vcTitleSame(t.Left(), w))
	w.Alignment = bento.AlignmentRight
	vc.Ensures("Right", vcTitleSame(t.Right(), w))
	w.Alignment = bento.AlignmentCenter
	vc.Ensures("Center", vcTitleSame(t.Center(), w))
}

func vcSetSame(a, b BorderSet) bool { return a == b }

//vc:prop C22
func spec_BorderSet_setters(s BorderSet, x string) {
	w := s
	w.TopLeft = x
	vc.Ensures("WithTopLeft", vcSetSame(s.WithTopLeft(x), w))
	w = s
	w.TopRight = x
	vc.Ensures("WithTopRight", vcSetSame(s.WithTopRight(x), w))
	w = s
	w.BottomLeft = x
	vc.Ensures("WithBottomLeft", vcSetSame(s.WithBottomLeft(x), w))
	w = s
	w.BottomRight = x
	vc.Ensures("WithBottomRight", vcSetSame(s.WithBottomRight(x), w))
	w = s
	w.VerticalLeft = x
	vc.Ensures("WithVerticalLeft", vcSetSame(s.WithVerticalLeft(x), w))
	w = s
	w.VerticalRight = x
	vc.Ensures("WithVerticalRight", vcSetSame(s.WithVerticalRight(x), w))
	w = s
	w.HorizontalTop = x
	vc.Ensures("WithHorizontalTop", vcSetSame(s.WithHorizontalTop(x), w))
	w = s
	w.HorizontalBottom = x
	vc.Ensures("WithHorizontalBottom", vcSetSame(s.WithHorizontalBottom(x), w))
}
