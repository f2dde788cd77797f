package listwidget

import (
	"math"

	"github.com/metafates/bento"
	"github.com/metafates/bento/internal/vc"
	"github.com/metafates/bento/widget/blockwidget"
	"github.com/metafates/bento/widget/textwidget"
)

var _ = vc.Register(func(r *vc.R) Direction { return Direction(r.Intn(2)) })

var _ = vc.Register(func(r *vc.R) HighlightSpacing { return HighlightSpacing(r.Intn(3)) })

var _ = vc.Register(func(r *vc.R) State {
	s := NewState()
	if r.Bool() {
		s.SetOffset(r.Intn(7) - r.Intn(2))
	}
	switch r.Intn(5) {
	case 0:
	case 1:
		s.SelectLast()
	default:
		s.Select(r.Intn(7))
	}
	return s
})

var _ = vc.Register(func(r *vc.R) List {
	var items []textwidget.Text
	for i := r.Intn(7); i > 0; i-- {
		items = append(items, vc.Make[textwidget.Text](r))
	}
	l := New(items...).WithDirection(Direction(r.Intn(2))).WithHighlightSpacing(HighlightSpacing(r.Intn(3))).WithRepeatHighlightSymbol(r.Bool())
	if r.Bool() {
		l = l.WithHighlightSymbol(r.Str())
	}
	if r.Bool() {
		l = l.WithScrollPadding(r.Intn(4))
	}
	if r.Intn(3) == 0 {
		l = l.WithBlock(vc.Make[blockwidget.Block](r))
	}
	if r.Bool() {
		l = l.WithStyle(vc.Make[bento.Style](r)).WithHighlightStyle(vc.Make[bento.Style](r))
	}
	return l
})

// vcUpTo is the height of the first items of a list.
func vcUpTo(l List, n int) int {
	return vc.Sum(n, func(i int) int { return max(0, len(l.items[i].Lines)) })
}

// vcFits says that an item is no taller than the room.
func vcFits(l List, i, room int) bool { return len(l.items[i].Lines) <= room }

//vc:prop C14
//vc:aux
//vc:use
//vc:target (List).applyScrollPaddingToSelectedIndex
func spec_List_applyScrollPadding(l List, selected, maxHeight, first, last int) int {
	n := len(l.items)
	vc.Requires(n > 0 && maxHeight > 0 && selected >= 0 && 0 <= first && first <= last && last <= n)
	sel := min(selected, n-1)
	vc.InvariantIn("applyScrollPaddingToSelectedIndex", func(height, padding, i int) bool { return height == vcUpTo(l, i)-vcUpTo(l, max(0, sel-padding)) })
	r := l.applyScrollPaddingToSelectedIndex(selected, maxHeight, first, last)
	vc.Ensures("the item to show exists", 0 <= r && r < n)
	vc.Ensures("it is beyond the window, or the selected item is in it", l.scrollPadding < 0 || r >= last && r >= sel || r < first && r <= sel || r == sel && first <= sel && sel < last)
	vc.Ensures("without scroll padding it is the selected item", l.scrollPadding != 0 || r == sel)
	vc.Ensures("it fits together with the selected item", l.scrollPadding < 0 || !vcFits(l, sel, maxHeight) || vcUpTo(l, max(r, sel)+1)-vcUpTo(l, min(r, sel)) <= maxHeight)
	return r
}

//vc:prop C14
//vc:aux
//vc:use
//vc:target (List).getItemsBounds
func spec_List_getItemsBounds(l List, selected *int, offset, maxHeight int) (int, int) {
	n := len(l.items)
	vc.Requires(n > 0 && maxHeight > 0 && (selected == nil || *selected >= 0))
	off := max(0, min(offset, n-1))
	sel := 0
	if selected != nil {
		sel = min(*selected, n-1)
	}
	shown := selected != nil && l.scrollPadding >= 0 && vcFits(l, sel, maxHeight)
	vc.Decreases(func(first, last int) int { return last - first })
	vc.InvariantIn("getItemsBounds", func(height, first, last int) bool { return height == vcUpTo(l, last)-vcUpTo(l, first) })
	vc.InvariantIn("getItemsBounds", func(height, last int) bool { return height == vcUpTo(l, last)-vcUpTo(l, off) })
	vc.InvariantIn("getItemsBounds", func(last, i int) bool { return last == off+i })
	vc.InvariantIn("getItemsBounds", func(first, last int) bool { return 0 <= first && first <= last && last <= n })
	vc.InvariantIn("getItemsBounds", func(height int) bool { return height <= maxHeight })
	vc.InvariantIn("getItemsBounds", func(first int) bool { return !shown || sel < off || first <= sel })
	vc.InvariantIn("getItemsBounds", func(last int) bool { return !shown || sel < last })
	// the next item would not fit
	vc.InvariantIn("getItemsBounds", func(last int) bool { return !shown || sel < last || vcUpTo(l, last+1)-vcUpTo(l, off) > maxHeight })
	vc.InvariantIn("getItemsBounds", func(last, index int) bool { return !shown || index <= sel || sel >= off || vcUpTo(l, last+1) < 0 })
	vc.InvariantIn("getItemsBounds", func(last, index int) bool { return last <= index+1 })
	there := shown && l.scrollPadding == 0 && off <= sel && vcUpTo(l, sel+1)-vcUpTo(l, off) <= maxHeight
	vc.InvariantIn("getItemsBounds", func(first int) bool { return !there || first == off })
	first, last := l.getItemsBounds(selected, offset, maxHeight)
	vc.Ensures("the window is a range of the items", 0 <= first && first <= last && last <= n)
	vc.Ensures("the items of the window fit", vcUpTo(l, last)-vcUpTo(l, first) <= maxHeight)
	vc.Ensures("the selected item is in the window", !shown || first <= sel && sel < last)
	vc.Ensures("the window stays when the selected item is shown already", !there || first == off)
	return first, last
}

func vcStateOK(s *State) bool { return s.selected == nil || *s.selected >= 0 }

//vc:prop C13
func spec_List_Render(w List, buffer *bento.Buffer, place bento.VcPlace, state *State, p bento.Position, g, d int) {
	area := bento.Rect(place)
	vc.Requires(bento.VcPlaceOK(area) && bento.VcBufOK(buffer) && bento.VcInside(buffer.Area(), p.X, p.Y) && (w.block == nil || blockwidget.VcPad(*w.block)) && vcStateOK(state) && vc.Width(w.highlightSymbol) <= 1<<20 && (w.direction == DirectionTopToBottom || w.direction == DirectionBottomToTop))
	old, was, size := bento.VcCell(buffer, p), buffer.Area(), bento.VcSize(buffer)
	bento.VcDraws(buffer)
	vc.Modifies(state)
	vc.InvariantIn("RenderStateful", func(height, index int) bool { return height == vcUpTo(w, state.offset+index)-vcUpTo(w, state.offset) })
	vc.InvariantIn("RenderStateful", func(index int) bool { return vcUpTo(w, state.offset+index) <= vcUpTo(w, state.offset+index+1) })
	vc.Invariant(func() bool { return bento.VcInside(area, p.X, p.Y) || bento.VcCell(buffer, p) == old })
	w.RenderStateful(area, buffer, state)
	vc.Ensures("the buffer keeps its area", buffer.Area() == was && bento.VcSize(buffer) == size)
	vc.Ensures("a cell outside the area is unchanged", bento.VcInside(area, p.X, p.Y) || bento.VcCell(buffer, p) == old)
}

// vcHeights are the heights of the items of a list.
type vcHeights []int

var _ = vc.Register(func(r *vc.R) vcHeights {
	var h vcHeights
	one := r.Intn(3) == 0
	for i := r.Intn(2 + r.Size); i > 0; i-- {
		if one {
			h = append(h, 1)
		} else {
			h = append(h, vc.Pick(r, 0, 1, 1, 1, 2, 2, 3, 4))
		}
	}
	return h
})

type vcPick struct {
	sel      bool
	selected int
	offset   int
	padding  int
	height   int
}

var _ = vc.Register(func(r *vc.R) vcPick {
	return vcPick{r.Intn(4) > 0, vc.Pick(r, r.Intn(4+r.Size), r.Intn(4+r.Size), math.MaxInt), r.Intn(3+r.Size) - r.Intn(2), vc.Pick(r, 0, 0, 1, 2, 3), r.Intn(3 + r.Size)}
})

//vc:prop C14
//vc:bounded
func spec_List_window(hs vcHeights, p vcPick, dir Direction) {
	vc.Requires(p.padding >= 0 && p.height >= 0 && p.selected >= 0 && len(hs) < 26)
	var items []textwidget.Text
	for i, h := range hs {
		t := textwidget.NewText()
		for k := 0; k < h; k++ {
			t = t.WithLines(textwidget.NewLineStr(string(rune('A' + i))))
		}
		items = append(items, t)
	}
	l := New(items...).WithScrollPadding(p.padding).WithDirection(dir)
	s := NewState()
	s.SetOffset(p.offset)
	if p.sel {
		s.Select(p.selected)
	}
	b := bento.NewBufferEmpty(bento.Rect{Width: 3, Height: p.height})
	l.RenderStateful(b.Area(), &b, &s)
	n := len(hs)
	if n == 0 {
		vc.Ensures("an empty list has no selection", s.selected == nil)
		return
	}
	vc.Ensures("a selection is kept within the items", (s.selected != nil) == p.sel && (!p.sel || *s.selected == min(p.selected, n-1)))
	if p.height == 0 {
		return
	}
	row := func(i int) string {
		y := i
		if dir == DirectionBottomToTop {
			y = p.height - 1 - i
		}
		return bento.VcCell(&b, bento.Position{X: 0, Y: y}).Symbol
	}
	vc.Ensures("the window starts at an existing item", 0 <= s.offset && s.offset <= n)
	at, k := 0, s.offset
	for ; k < n && at+hs[k] <= p.height && (hs[k] == 0 || row(at) != " "); k++ {
		for i := 0; i < hs[k]; i++ {
			vc.Ensures("items are shown one after the other from the stored offset", row(at+i) == string(rune('A'+k)))
		}
		at += hs[k]
	}
	for ; at < p.height; at++ {
		vc.Ensures("only whole items are shown", row(at) == " ")
	}
	was := max(0, min(p.offset, n-1))
	if !p.sel {
		vc.Ensures("without a selection the list stays at its offset", s.offset == was)
		return
	}
	sel := *s.selected
	if hs[sel] <= p.height {
		vc.Ensures("the selected item is shown whole", s.offset <= sel && sel < k)
	}
	end, used := was, 0
	for end < n && used+hs[end] <= p.height {
		used += hs[end]
		end++
	}
	if p.padding == 0 && was <= sel && sel < end {
		vc.Ensures("the list does not scroll when the selected item is shown already", s.offset == was)
	}
	around := 0
	for i := max(0, sel-p.padding); i <= min(n-1, sel+p.padding); i++ {
		around += hs[i]
	}
	if around <= p.height && vc.Forall(0, n, func(i int) bool { return hs[i] == 1 }) {
		vc.Ensures("the scroll padding is kept where it fits", s.offset <= max(0, sel-p.padding) && min(n-1, sel+p.padding) < k)
	}
}

//vc:prop C14
func spec_List_selection(w List, buffer *bento.Buffer, place bento.VcPlace, state *State, p bento.Position, g, d int) {
	area := bento.Rect(place)
	vc.Requires(bento.VcPlaceOK(area) && bento.VcBufOK(buffer) && bento.VcInside(buffer.Area(), p.X, p.Y) && (w.block == nil || blockwidget.VcPad(*w.block)) && vcStateOK(state) && vc.Width(w.highlightSymbol) <= 1<<20 && (w.direction == DirectionTopToBottom || w.direction == DirectionBottomToTop))
	n, was := len(w.items), state.selected != nil
	sel, off := 0, max(0, min(state.offset, n-1))
	if was {
		sel = min(*state.selected, n-1)
	}
	in := area.Intersection(buffer.Area())
	plain := w.block == nil && !in.IsEmpty() // otherwise the room depends on the block
	fits := n > 0 && plain && was && w.scrollPadding >= 0 && vcFits(w, sel, in.Height)
	there := fits && w.scrollPadding == 0 && off <= sel && vcUpTo(w, sel+1)-vcUpTo(w, off) <= in.Height
	vc.InvariantIn("RenderStateful", func(height, index int) bool { return height == vcUpTo(w, state.offset+index)-vcUpTo(w, state.offset) })
	vc.InvariantIn("RenderStateful", func(index int) bool { return vcUpTo(w, state.offset+index) <= vcUpTo(w, state.offset+index+1) })
	w.RenderStateful(area, buffer, state)
	if n == 0 {
		vc.Ensures("an empty list has no selection", state.selected == nil)
		return
	}
	vc.Ensures("a selection is kept within the items", (state.selected != nil) == was && (!was || *state.selected == sel && sel >= 0))
	vc.Ensures("the window starts at an existing item", !plain || 0 <= state.offset && state.offset <= n)
	vc.Ensures("the selected item is in the window whole", !fits || state.offset <= sel && vcUpTo(w, sel+1)-vcUpTo(w, state.offset) <= in.Height)
	vc.Ensures("the list does not scroll when the selected item is shown already", !there || state.offset == off)
}

//vc:prop C14
//vc:opts overflow
func spec_State_moves(s State, amount, index int, toOffset int) {
	vc.Requires(s.selected == nil || *s.selected >= 0)
	has := s.selected != nil
	at := 0
	if has {
		at = *s.selected
	}
	a := s
	a.Select(index)
	vc.Ensures("Select selects the item, not below the first", a.selected != nil && *a.selected == max(0, index))
	b := s
	b.SelectNext()
	if has && at < math.MaxInt {
		vc.Ensures("SelectNext moves one on", b.selected != nil && *b.selected == at+1)
	}
	vc.Ensures("SelectNext never leaves the range", b.selected != nil && *b.selected >= at && (has || *b.selected == 0))
	c := s
	c.SelectPrevious()
	if has {
		vc.Ensures("SelectPrevious moves one back, not below the first", c.selected != nil && *c.selected == max(0, at-1))
	} else {
		vc.Ensures("SelectPrevious selects the last without a selection", c.selected != nil && *c.selected == math.MaxInt)
	}
	d := s
	d.ScrollDownBy(amount)
	vc.Ensures("ScrollDownBy never leaves the range", d.selected != nil && *d.selected >= 0)
	if amount <= math.MaxInt-at {
		vc.Ensures("ScrollDownBy moves by the amount", *d.selected == max(0, at+amount))
	} else {
		vc.Ensures("ScrollDownBy stops at the greatest index", *d.selected == math.MaxInt)
	}
	e := s
	e.ScrollUpBy(amount)
	vc.Ensures("ScrollUpBy never leaves the range", e.selected != nil && *e.selected >= 0)
	if amount >= 0 || at <= math.MaxInt+amount {
		vc.Ensures("ScrollUpBy moves by the amount", *e.selected == max(0, at-amount))
	} else {
		vc.Ensures("ScrollUpBy stops at the greatest index", *e.selected == math.MaxInt)
	}
	f := s
	f.SelectFirst()
	vc.Ensures("SelectFirst selects the first", f.selected != nil && *f.selected == 0)
	g := s
	g.SelectLast()
	vc.Ensures("SelectLast selects the last", g.selected != nil && *g.selected == math.MaxInt)
	h := s
	h.Unselect()
	vc.Ensures("Unselect leaves no selection", h.selected == nil)
	i := s
	i.SetOffset(toOffset)
	vc.Ensures("SetOffset keeps the selection", i.selected == s.selected && i.offset == toOffset)
	vc.Ensures("moving the selection keeps the offset", a.offset == s.offset && b.offset == s.offset && c.offset == s.offset && d.offset == s.offset && e.offset == s.offset && f.offset == s.offset && g.offset == s.offset)
	vc.Ensures("other values of the state are not affected", !has || *s.selected == at)
}

// The keys move the selection as their functions do.
//
//vc:prop C14
func spec_State_keys(s State, which int) {
	vc.Requires(s.selected == nil || *s.selected >= 0)
	vc.Requires(0 <= which && which < 4)
	if which == 0 {
		vcListKey(s, bento.KeyMsg{Type: bento.KeyDown}, (*State).SelectNext)
	} else if which == 1 {
		vcListKey(s, bento.KeyMsg{Type: bento.KeyUp}, (*State).SelectPrevious)
	} else {
		at := 0
		if s.selected != nil {
			at = *s.selected
		}
		vc.Requires(at < 1<<40)
		msg := bento.KeyMsg{Type: bento.KeyCtrlU}
		if which == 2 {
			msg.Type = bento.KeyCtrlD
		}
		offset := s.offset
		_, ok := s.TryUpdate(msg)
		vc.Ensures("the key is understood", ok)
		vc.Ensures("page keys keep the offset and leave an item selected", s.offset == offset && s.selected != nil && *s.selected >= 0)
		vc.Ensures("page keys move in their direction", which == 2 && *s.selected > at || which != 2 && (*s.selected < at || at == 0 && *s.selected == 0))
	}
}

//vc:prop C14
//vc:bounded
func spec_State_rune_keys(s State, which int) {
	vc.Requires(s.selected == nil || *s.selected >= 0)
	vc.Requires(0 <= which && which < 4)
	moves := []func(*State){(*State).SelectNext, (*State).SelectPrevious, (*State).SelectFirst, (*State).SelectLast}
	vcListKey(s, bento.KeyMsg{Type: bento.KeyRunes, Runes: []rune("jkgG"[which : which+1])}, moves[which])
}

func vcListKey(s State, msg bento.KeyMsg, move func(*State)) {
	old := s
	if s.selected != nil {
		at := *s.selected
		old.selected = &at
	}
	move(&old)
	_, ok := s.TryUpdate(msg)
	vc.Ensures("the key is understood", ok)
	vc.Ensures("a key keeps the offset and leaves an item selected", s.offset == old.offset && s.selected != nil && *s.selected >= 0)
	vc.Ensures("the key selects what its function selects", *s.selected == *old.selected)
}

func vcListSame(a, b List) bool {
	return bento.VcSameBy(a.items, b.items, textwidget.VcTextSame) && blockwidget.VcBlockOpt(a.block, b.block) && a.style == b.style && a.direction == b.direction && a.highlightStyle == b.highlightStyle &&
		a.highlightSymbol == b.highlightSymbol && a.repeatHighlightSymbol == b.repeatHighlightSymbol && a.highlightSpacing == b.highlightSpacing &&
		a.scrollPadding == b.scrollPadding
}

func vcListCopy(l List) List {
	l.block, l.items = blockwidget.VcBlockOptCopy(l.block), vc.Snap(l.items)
	return l
}

//vc:prop C22
func spec_List_setters(l List, items []textwidget.Text, n int, d Direction, hs HighlightSpacing, repeat bool, style bento.Style, str string) {
	old := vcListCopy(l)
	w := old
	w.items = items
	vc.Ensures("WithItems", vcListSame(l.WithItems(items...), w))
	w = old
	w.scrollPadding = n
	vc.Ensures("WithScrollPadding", vcListSame(l.WithScrollPadding(n), w))
	w = old
	w.direction = d
	vc.Ensures("WithDirection", vcListSame(l.WithDirection(d), w))
	w = old
	w.highlightSpacing = hs
	vc.Ensures("WithHighlightSpacing", vcListSame(l.WithHighlightSpacing(hs), w))
	w = old
	w.repeatHighlightSymbol = repeat
	vc.Ensures("WithRepeatHighlightSymbol", vcListSame(l.WithRepeatHighlightSymbol(repeat), w))
	w = old
	w.highlightStyle = style
	vc.Ensures("WithHighlightStyle", vcListSame(l.WithHighlightStyle(style), w))
	w = old
	w.highlightSymbol = str
	vc.Ensures("WithHighlightSymbol", vcListSame(l.WithHighlightSymbol(str), w))
	w = old
	w.style = style
	vc.Ensures("WithStyle", vcListSame(l.WithStyle(style), w))
	vc.Ensures("the receiver keeps its meaning", vcListSame(l, old))
}

//vc:prop C22
func spec_List_WithBlock(l List, block blockwidget.Block) {
	old := vcListCopy(l)
	b := l.WithBlock(block)
	vc.Ensures("WithBlock sets the block", b.block != nil && blockwidget.VcBlockSame(*b.block, block))
	b.block = old.block
	vc.Ensures("WithBlock changes the block only", vcListSame(b, old))
	vc.Ensures("the receiver keeps its meaning", vcListSame(l, old))
}
