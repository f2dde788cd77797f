package inputwidget

import (
	"strings"
	"unicode"

	"github.com/metafates/bento"
	"github.com/metafates/bento/internal/grapheme"
	"github.com/metafates/bento/internal/vc"
	"github.com/metafates/bento/widget/blockwidget"
)

var _ = vc.Register(func(r *vc.R) grapheme.Graphemes { return grapheme.NewGraphemes(r.Str()) })

var _ = vc.Register(func(r *vc.R) State {
	s := NewState()
	var text []string
	cur := 0
	for _, o := range vc.List[vcOp](r, 12) {
		text, cur = vcDo(&s, o, text, cur)
	}
	s.offset = r.Intn(len(s.graphemes) + 3)
	return s
})

//vc:prop C13 C15
func spec_Input_Render(w Input, buffer *bento.Buffer, place bento.VcPlace, state *State, p bento.Position, g, d, j int) {
	area := bento.Rect(place)
	vc.Requires(bento.VcSmallOK(area) && bento.VcSmallOK(buffer.Area()) && bento.VcBufOK(buffer) && bento.VcInside(buffer.Area(), p.X, p.Y))
	vc.Requires(vcOK(state) && state.offset >= 0 && (w.block == nil || blockwidget.VcPad(*w.block)))
	gs := state.graphemes
	vc.Requires(vc.Forall(0, len(gs), func(i int) bool { return 0 <= gs[i].Width() && gs[i].Width() < 1000 }) && len(gs) < 1<<40)
	end := func(n int) int { return vc.Sum(n, func(j int) int { return max(0, gs[j].Width()) }) }
	vc.Decreases(func(firstVisibleIndex int) int { return len(gs) - firstVisibleIndex })
	cur, mark := state.cursor, state.showCursor
	vc.Requires(0 <= j && j < len(gs) || j == 0)
	var one grapheme.Grapheme
	if j < len(gs) {
		one = gs[j]
	}
	from := min(state.offset, max(0, len(gs)-1))
	vc.InvariantIn("getBounds", func(lastVisibleIndex, widthFromOffset int) bool {
		return from <= lastVisibleIndex && lastVisibleIndex <= len(gs) && widthFromOffset == end(lastVisibleIndex)-end(from)
	})
	vc.InvariantIn("getBounds", func(firstVisibleIndex, lastVisibleIndex, widthFromOffset int) bool {
		return 0 <= firstVisibleIndex && firstVisibleIndex <= lastVisibleIndex && lastVisibleIndex <= len(gs) && widthFromOffset == end(lastVisibleIndex)-end(firstVisibleIndex)
	})
	vc.InvariantIn("getBounds", func(firstVisibleIndex, lastVisibleIndex int) bool {
		return lastVisibleIndex > state.cursor-1 || firstVisibleIndex == lastVisibleIndex
	})
	old, was, size := bento.VcCell(buffer, p), buffer.Area(), bento.VcSize(buffer)
	bento.VcDraws(buffer)
	vc.Modifies(state)
	vc.Invariant(func() bool { return bento.VcInside(area, p.X, p.Y) || bento.VcCell(buffer, p) == old })
	w.RenderStateful(area, buffer, state)
	vc.Ensures("rendering changes neither the text nor the cursor", len(state.graphemes) == len(gs) && (j >= len(gs) || state.graphemes[j] == one) && state.cursor == cur && state.showCursor == mark)
	vc.Ensures("the part of the text shown starts at or before the cursor", 0 <= state.offset && state.offset <= cur)
	vc.Ensures("the buffer keeps its area", buffer.Area() == was && bento.VcSize(buffer) == size)
	vc.Ensures("a cell outside the area is unchanged", bento.VcInside(area, p.X, p.Y) || bento.VcCell(buffer, p) == old)
}

// vcOp is one user action on an input.
type vcOp struct {
	op  int
	str string
}

var _ = vc.Register(func(r *vc.R) vcOp {
	s := r.Str()
	if r.Bool() {
		s = vc.Pick(r, "a", "b ", " c", "ab cd", "  ", "\u00a0x", "\u200b", "e\u0301", "界 好", "👨‍👩‍👧")
	}
	return vcOp{vc.Pick(r, 0, 0, 0, 0, 1, 1, 2, 3, 4, 5, 5, 6, 6, 7, 8, 9, 10, 11, 12, 13, 14, 15, 16, 17), s}
})

func vcSpace(s string) bool {
	if s == "\u200b" {
		return true
	}
	for _, r := range s {
		if !unicode.IsSpace(r) {
			return false
		}
	}
	return s != "\u00a0"
}

func vcKey(s *State, t bento.KeyType, str string) {
	s.TryUpdate(bento.KeyMsg{Type: t, Runes: []rune(str)})
}

// vcDo performs an action on an input and on a sequence of characters with a cursor.
func vcDo(s *State, o vcOp, text []string, cur int) ([]string, int) {
	insert := func(str string) {
		gs := vc.Graphemes(str)
		var t []string
		t = append(t, text[:cur]...)
		t = append(t, gs...)
		text = append(t, text[cur:]...)
		cur += len(gs)
	}
	cut := func(n int) {
		var t []string
		t = append(t, text[:cur-n]...)
		text = append(t, text[cur:]...)
		cur -= n
	}
	word := func() int {
		n := 0
		for n < cur && vcSpace(text[cur-1-n]) {
			n++
		}
		for n < cur && !vcSpace(text[cur-1-n]) {
			n++
		}
		return n
	}
	switch o.op {
	case 0:
		s.Append(o.str)
		insert(o.str)
	case 1:
		s.MoveCursorLeft()
		cur = max(0, cur-1)
	case 2:
		s.MoveCursorRight()
		cur = min(len(text), cur+1)
	case 3:
		s.MoveCursorBegin()
		cur = 0
	case 4:
		s.MoveCursorEnd()
		cur = len(text)
	case 5:
		s.DeleteUnderCursor()
		cut(min(1, cur))
	case 6:
		s.DeleteWordUnderCursor()
		cut(word())
	case 7:
		s.DeleteLine()
		text, cur = nil, 0
	case 8:
		vcKey(s, bento.KeyLeft, "")
		cur = max(0, cur-1)
	case 9:
		vcKey(s, bento.KeyRight, "")
		cur = min(len(text), cur+1)
	case 10:
		vcKey(s, bento.KeyBackspace, "")
		cut(min(1, cur))
	case 11:
		vcKey(s, bento.KeyCtrlA, "")
		cur = 0
	case 12:
		vcKey(s, bento.KeyCtrlE, "")
		cur = len(text)
	case 13:
		vcKey(s, bento.KeyCtrlW, "")
		cut(word())
	case 14:
		vcKey(s, bento.KeyRunes, o.str)
		insert(o.str)
	case 15:
		vcKey(s, bento.KeySpace, " ")
		insert(" ")
	case 16:
		b := bento.NewBufferEmpty(bento.Rect{Width: len(o.str) % 6, Height: 1})
		New().RenderStateful(b.Area(), &b, s)
	case 17:
		s.ShowCursor(len(o.str)%2 == 0)
	}
	return text, cur
}

//vc:prop C15
//vc:bounded
func spec_State_edits(ops []vcOp) {
	s := NewState()
	var text []string
	cur := 0
	for _, o := range ops {
		text, cur = vcDo(&s, o, text, cur)
		vc.Ensures("the cursor is where the edits leave it", s.cursor == cur)
		vc.Ensures("the cursor is within the text", 0 <= s.cursor && s.cursor <= len(s.graphemes))
		vc.Ensures("the text is what the edits make it", s.String() == strings.Join(text, "") && len(s.graphemes) == len(text))
		for i := range text {
			vc.Ensures("each character is what the edits make it", s.graphemes[i].String() == text[i])
		}
	}
}

//vc:prop C15
//vc:bounded
func spec_Input_cursor_shown(s State, width int) {
	vc.Requires(width >= 3 && width < 1000)
	for _, g := range s.graphemes {
		vc.Requires(g.Width() > 0 && !strings.ContainsFunc(g.String(), unicode.IsControl))
	}
	s.ShowCursor(true)
	text, cur := s.String(), s.cursor
	b := bento.NewBufferEmpty(bento.Rect{Width: width, Height: 1})
	New().RenderStateful(b.Area(), &b, &s)
	vc.Ensures("rendering changes neither the text nor the cursor", s.String() == text && s.cursor == cur)
	vc.Ensures("the part of the text shown starts at or before the cursor", 0 <= s.offset && s.offset <= cur)
	x := 0
	for i := s.offset; i < cur; i++ {
		vc.Ensures("the text before the cursor is shown", x < width && bento.VcCell(&b, bento.Position{X: x}).Symbol == s.graphemes[i].String())
		x += s.graphemes[i].Width()
	}
	vc.Ensures("the cursor is shown", x < width && bento.VcCell(&b, bento.Position{X: x}).Modifier != 0)
	for i := 0; i < width; i++ {
		vc.Ensures("only the cursor is marked", i == x || bento.VcCell(&b, bento.Position{X: i}).Modifier == 0)
	}
}

func vcInputSame(a, b Input) bool {
	return blockwidget.VcBlockOpt(a.block, b.block) && a.style == b.style && a.alignment == b.alignment && bento.VcSame(a.placeholder, b.placeholder) &&
		a.placeholderStyle == b.placeholderStyle && a.cursorStyle == b.cursorStyle && a.vertical == b.vertical && a.prompt == b.prompt && a.promptStyle == b.promptStyle
}

func vcInputCopy(i Input) Input {
	i.block, i.placeholder = blockwidget.VcBlockOptCopy(i.block), vc.Snap(i.placeholder)
	return i
}

//vc:prop C22
func spec_Input_setters(i Input, str string, style bento.Style, flex bento.Flex, al bento.Alignment) {
	old := vcInputCopy(i)
	w := old
	w.prompt = str
	vc.Ensures("WithPrompt", vcInputSame(i.WithPrompt(str), w))
	w = old
	w.promptStyle = style
	vc.Ensures("WithPromptStyle", vcInputSame(i.WithPromptStyle(style), w))
	w = old
	w.placeholderStyle = style
	vc.Ensures("WithPlaceholderStyle", vcInputSame(i.WithPlaceholderStyle(style), w))
	w = old
	w.cursorStyle = style
	vc.Ensures("WithCursorStyle", vcInputSame(i.WithCursorStyle(style), w))
	w = old
	w.vertical = flex
	vc.Ensures("WithVertical", vcInputSame(i.WithVertical(flex), w))
	w = old
	w.alignment = al
	vc.Ensures("WithAlignment", vcInputSame(i.WithAlignment(al), w))
	w = old
	w.vertical = bento.FlexStart
	vc.Ensures("Top", vcInputSame(i.Top(), w))
	w = old
	w.vertical = bento.FlexCenter
	vc.Ensures("Middle", vcInputSame(i.Middle(), w))
	w = old
	w.vertical = bento.FlexEnd
	vc.Ensures("Bottom", vcInputSame(i.Bottom(), w))
	w = old
	w.alignment = bento.AlignmentLeft
	vc.Ensures("Left", vcInputSame(i.Left(), w))
	w = old
	w.alignment = bento.AlignmentCenter
	vc.Ensures("Center", vcInputSame(i.Center(), w))
	w = old
	w.alignment = bento.AlignmentRight
	vc.Ensures("Right", vcInputSame(i.Right(), w))
	vc.Ensures("the receiver keeps its meaning", vcInputSame(i, old))
}

//vc:prop C22
func spec_Input_options(i Input, block blockwidget.Block, str string) {
	old := vcInputCopy(i)
	b := i.WithBlock(block)
	vc.Ensures("WithBlock sets the block", b.block != nil && blockwidget.VcBlockSame(*b.block, block))
	b.block = old.block
	vc.Ensures("WithBlock changes the block only", vcInputSame(b, old))
	want := vc.Graphemes(str)
	vc.Invariant(func(gs grapheme.Graphemes, n vc.Iter) bool {
		return len(gs) == int(n) && vc.Forall(0, len(gs), func(k int) bool { return gs[k].String() == want[k] })
	})
	c := i.WithPlaceholder(str)
	vc.Ensures("WithPlaceholder sets the placeholder", len(c.placeholder) == len(want) && vc.Forall(0, len(want), func(k int) bool { return c.placeholder[k].String() == want[k] }))
	c.placeholder = old.placeholder
	vc.Ensures("WithPlaceholder changes the placeholder only", vcInputSame(c, old))
	vc.Ensures("the receiver keeps its meaning", vcInputSame(i, old))
}

// The edits, one at a time: an input is a sequence of characters with a cursor in or around it.

func vcOK(s *State) bool { return s != nil && 0 <= s.cursor && s.cursor <= len(s.graphemes) }

//vc:prop C15
func spec_State_moves(s *State) {
	vcMoves(s, s.MoveCursorLeft, s.MoveCursorRight, s.MoveCursorBegin, s.MoveCursorEnd)
}

// The keys do the same.
//
//vc:prop C15
func spec_State_move_keys(s *State) {
	vcMoves(s, vcPress(s, bento.KeyLeft, nil), vcPress(s, bento.KeyRight, nil), vcPress(s, bento.KeyCtrlA, nil), vcPress(s, bento.KeyCtrlE, nil))
}

func vcPress(s *State, t bento.KeyType, rs []rune) func() {
	return func() {
		_, ok := s.TryUpdate(bento.KeyMsg{Type: t, Runes: rs})
		vc.Ensures("the key is understood", ok)
	}
}

func vcMoves(s *State, left, right, begin, end func()) {
	vc.Requires(vcOK(s))
	n, cur := len(s.graphemes), s.cursor
	was := vc.Snap(s.graphemes)
	left()
	vc.Ensures("left moves the cursor before the character it was behind", s.cursor == max(0, cur-1))
	cur = s.cursor
	right()
	vc.Ensures("right moves the cursor behind the next character", s.cursor == min(n, cur+1))
	begin()
	vc.Ensures("begin moves the cursor before all characters", s.cursor == 0)
	end()
	vc.Ensures("end moves the cursor behind all characters", s.cursor == n)
	s.ShowCursor(n%2 == 0)
	vc.Ensures("moving keeps the text", len(s.graphemes) == n && vc.Forall(0, n, func(i int) bool { return s.graphemes[i] == was[i] }))
}

//vc:prop C15
func spec_State_DeleteUnderCursor(s *State) { vcDelete(s, s.DeleteUnderCursor) }

//vc:prop C15
func spec_State_delete_keys(s *State, del bool) {
	if del {
		vcDelete(s, vcPress(s, bento.KeyDelete, nil))
	} else {
		vcDelete(s, vcPress(s, bento.KeyBackspace, nil))
	}
}

func vcDelete(s *State, do func()) {
	vc.Requires(vcOK(s))
	n, cur := len(s.graphemes), s.cursor
	was := vc.Snap(s.graphemes)
	do()
	vc.Ensures("the character before the cursor is gone, if there is one", len(s.graphemes) == n-min(1, cur) && s.cursor == max(0, cur-1))
	vc.Ensures("the text before it stays", vc.Forall(0, s.cursor, func(i int) bool { return s.graphemes[i] == was[i] }))
	vc.Ensures("the text behind it moves up", vc.Forall(cur, n, func(i int) bool { return s.graphemes[i-min(1, cur)] == was[i] }))
}

//vc:prop C15
func spec_State_DeleteLine(s *State) {
	vc.Requires(vcOK(s))
	s.DeleteLine()
	vc.Ensures("nothing is left", len(s.graphemes) == 0 && s.cursor == 0)
}

//vc:prop C15
func spec_State_Append(s *State, str string) { vcAppend(s, str, func() { s.Append(str) }) }

//vc:prop C15
func spec_State_rune_key(s *State, rs []rune) { vcAppend(s, string(rs), vcPress(s, bento.KeyRunes, rs)) }

//vc:prop C15
func spec_State_space_key(s *State, rs []rune) { vcAppend(s, string(rs), vcPress(s, bento.KeySpace, rs)) }

func vcAppend(s *State, str string, do func()) {
	vc.Requires(vcOK(s))
	n, cur := len(s.graphemes), s.cursor
	was := vc.Snap(s.graphemes)
	gs := vc.Graphemes(str)
	vc.Invariant(func(k vc.Iter) bool { return len(s.graphemes) == n+int(k) && s.cursor == cur+int(k) })
	vc.Invariant(func(k vc.Iter) bool {
		return vc.Forall(0, cur, func(i int) bool { return s.graphemes[i] == was[i] })
	})
	vc.Invariant(func(k vc.Iter) bool {
		return vc.Forall(0, int(k), func(i int) bool { return s.graphemes[cur+i].String() == gs[i] })
	})
	vc.Invariant(func(k vc.Iter) bool {
		return vc.Forall(cur, n, func(i int) bool { return s.graphemes[i+int(k)] == was[i] })
	})
	do()
	vc.Ensures("the cursor is behind the characters inserted", len(s.graphemes) == n+len(gs) && s.cursor == cur+len(gs))
	vc.Ensures("the text before the cursor stays", vc.Forall(0, cur, func(i int) bool { return s.graphemes[i] == was[i] }))
	vc.Ensures("the characters are inserted at the cursor", vc.Forall(0, len(gs), func(i int) bool { return s.graphemes[cur+i].String() == gs[i] }))
	vc.Ensures("the text behind the cursor moves on", vc.Forall(cur, n, func(i int) bool { return s.graphemes[i+len(gs)] == was[i] }))
}

//vc:prop C15
//vc:noexec
func spec_State_DeleteWordUnderCursor(s *State, sp []bool, j int) {
	vcWord(s, sp, j, s.DeleteWordUnderCursor)
}

//vc:prop C15
//vc:noexec
func spec_State_word_key(s *State, sp []bool, j int) {
	vcWord(s, sp, j, vcPress(s, bento.KeyCtrlW, nil))
}

func vcWord(s *State, sp []bool, j int, do func()) {
	vc.Requires(vcOK(s))
	n, cur := len(s.graphemes), s.cursor
	was := vc.Snap(s.graphemes)
	vc.Requires(cur <= j && j <= n) // any character behind the cursor
	vc.Requires(vc.Forall(0, n, func(i int) bool { return was[i].String() != "" }))
	vc.Requires(len(sp) == n && vc.Forall(0, n, func(i int) bool { return sp[i] == grapheme.VcSpace(was[i].String()) })) // which characters are spaces
	space := func(i int) bool { return sp[i] }
	end := func() int { return cur - (n - len(s.graphemes)) } // where the stretch being deleted ends
	vc.Invariant(func() bool { return 0 <= s.cursor && s.cursor <= cur })
	vc.Invariant(func() bool { return s.cursor <= end() && end() <= cur })
	vc.Invariant(func() bool {
		return vc.Forall(s.cursor, cur-1, func(i int) bool { return !space(i) || space(i+1) })
	})
	vc.Invariant(func() bool { return vc.Forall(s.cursor, cur, func(i int) bool { return space(i) }) })
	vc.Invariant(func() bool {
		return vc.Forall(0, s.cursor, func(i int) bool { return s.graphemes[i] == was[i] })
	})
	vc.Invariant(func() bool { return vc.Forall(0, end(), func(i int) bool { return s.graphemes[i] == was[i] }) })
	vc.Invariant(func() bool {
		return j == n || s.graphemes[j-(n-len(s.graphemes))] == was[j]
	})
	vc.Invariant(func() bool { return s.cursor == end() || !space(s.cursor) })
	do()
	c := s.cursor
	vc.Ensures("what is deleted lies before the cursor", 0 <= c && c <= cur && len(s.graphemes) == n-(cur-c) && vc.Implies(cur > 0, c < cur))
	vc.Ensures("spaces are deleted only behind the word", vc.Forall(c, cur-1, func(i int) bool { return !space(i) || space(i+1) }))
	vc.Ensures("the whole word is deleted, and no other", c == 0 || space(c-1) && !space(c))
	vc.Ensures("the text before it stays", vc.Forall(0, c, func(i int) bool { return s.graphemes[i] == was[i] }))
	vc.Ensures("the text behind it moves up", j == n || s.graphemes[j-(cur-c)] == was[j])
}

//vc:prop C15
func spec_State_other_keys(s *State, key bento.KeyMsg) {
	vc.Requires(vcOK(s))
	switch key.Type {
	case bento.KeyLeft, bento.KeyRight, bento.KeyBackspace, bento.KeyDelete, bento.KeyCtrlA, bento.KeyCtrlE, bento.KeyCtrlW, bento.KeyRunes, bento.KeySpace:
		vc.Requires(false)
	}
	n, cur := len(s.graphemes), s.cursor
	was := vc.Snap(s.graphemes)
	s.TryUpdate(key)
	vc.Ensures("other keys change nothing", len(s.graphemes) == n && s.cursor == cur && vc.Forall(0, n, func(i int) bool { return s.graphemes[i] == was[i] }))
}
