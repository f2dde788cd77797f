package bento

import (
	"errors"
	"io"

	"github.com/metafates/bento/internal/vc"
)

var errVcBackend = errors.New("backend")

// vcBackend is a recording terminal backend; its failAt-th call fails.
type vcBackend struct {
	calls, failAt int

	drawn, shown, hidden, placed, flushed, erased int // number of the last such call, 0 for none
	draws, erases                                 int
	erasedFrom                                    int // first row erased
	erasedAll                                     bool
	cells                                         []PositionedCell
	cursor                                        Position
	size                                          Size

	raw, alt, paste bool
	invisible       bool
	rawDone         int
}

func (b *vcBackend) call() error {
	b.calls++
	if b.calls == b.failAt {
		return errVcBackend
	}
	return nil
}

func (b *vcBackend) Draw(cells []PositionedCell) error {
	err := b.call()
	b.drawn, b.cells = b.calls, cells
	b.draws++
	return err
}

func (b *vcBackend) HideCursor() error {
	err := b.call()
	b.hidden = b.calls
	if err == nil {
		b.invisible = true
	}
	return err
}

func (b *vcBackend) ShowCursor() error {
	err := b.call()
	b.shown = b.calls
	if err == nil {
		b.invisible = false
	}
	return err
}

func (b *vcBackend) GetCursorPosition() (Position, error) { return b.cursor, b.call() }

func (b *vcBackend) SetCursorPosition(position Position) error {
	err := b.call()
	b.placed, b.cursor = b.calls, position
	return err
}

func (b *vcBackend) GetSize() (Size, bool, error) {
	err := b.call()
	return b.size, err == nil, err
}

func (b *vcBackend) Flush() error {
	err := b.call()
	b.flushed = b.calls
	return err
}

func (b *vcBackend) erase() error {
	err := b.call()
	b.erased = b.calls
	b.erases++
	return err
}

func (b *vcBackend) ClearAll() error {
	b.erasedAll = true
	return b.erase()
}

func (b *vcBackend) ClearAfterCursor() error {
	if b.erases == 0 || b.cursor.Y < b.erasedFrom {
		b.erasedFrom = b.cursor.Y
	}
	return b.erase()
}

func (b *vcBackend) ClearBeforeCursor() error   { return b.call() }
func (b *vcBackend) ClearCurrentLine() error    { return b.call() }
func (b *vcBackend) ClearUntilNewLine() error   { return b.call() }
func (b *vcBackend) Input() io.Reader           { return nil }
func (b *vcBackend) Output() io.Writer          { return nil }
func (b *vcBackend) Read(p []byte) (int, error) { return 0, io.EOF }
func (b *vcBackend) set(f *bool, on bool) error {
	err := b.call()
	if err == nil {
		*f = on
	}
	return err
}
func (b *vcBackend) EnableRawMode() error         { return b.set(&b.raw, true) }
func (b *vcBackend) DisableRawMode() error        { return b.set(&b.raw, false) }
func (b *vcBackend) EnableAlternateScreen() error { return b.set(&b.alt, true) }
func (b *vcBackend) LeaveAlternateScreen() error  { return b.set(&b.alt, false) }
func (b *vcBackend) EnableBracketedPaste() error  { return b.set(&b.paste, true) }
func (b *vcBackend) DisableBracketedPaste() error { return b.set(&b.paste, false) }

// vcPaint is a widget that leaves the given cells in the buffer.
type vcPaint struct {
	cells  []Cell
	cursor *Position
}

func (w vcPaint) Render(area Rect, buffer *Buffer) {
	copy(buffer.content, w.cells)
}

// vcTermOK: the invariant of a terminal between frames.
func vcTermOK(t *Terminal) bool {
	if t.current != 0 && t.current != 1 {
		return false
	}
	a, b := &t.buffers[t.current], &t.buffers[1-t.current]
	return vcBufOK(a) && vcBufOK(b) && a.area == t.viewportArea && b.area == t.viewportArea &&
		vc.Forall(0, len(a.content), func(i int) bool { return vcIsBlank(a.content[i]) })
}

func vcTerminal(area Rect, screen []Cell, current, frames int, b *vcBackend) *Terminal {
	t := &Terminal{backend: b, viewport: ViewportFullscreen{}, viewportArea: area, current: current, frameCount: frames, lastKnownArea: area}
	t.buffers[current] = NewBufferEmpty(area)
	t.buffers[1-current] = Buffer{area: area, content: screen}
	return t
}

// Cells come in screenfuls: as many as the area of the input has positions.
type vcScreen []Cell

var _ = vc.Register(func(r *vc.R) vcScreen {
	area, ok := r.Memo["area"].(Rect)
	if !ok {
		area = vc.Make[Rect](r)
		r.Memo["area"] = area
	}
	b := vc.Make[Buffer](r)
	if b.area.Area() != area.Area() {
		b = NewBufferEmpty(area)
	}
	return b.content
})

// i and j are universally quantified: a cell of the screen and an entry of the backend's list.
//
//vc:prop C08
func spec_Terminal_Draw(screen, next vcScreen, area Rect, second, failAt int, frames int, i, j int) {
	current := second & 1
	vc.Requires(vcRectOK(area) && len(screen) == area.Width*area.Height && len(next) == len(screen) && frames >= 0 && frames < 1<<40)
	was := Buffer{area: area, content: vc.Snap(screen)}
	will := Buffer{area: area, content: vc.Snap(next)}
	vc.Requires(vcWidths(&was) && vcWidths(&will))
	b := &vcBackend{failAt: failAt}
	t := vcTerminal(area, screen, current, frames, b)
	_, err := t.Draw(vcPaint{cells: next})
	vc.Ensures("a failing backend call is an error", (err != nil) == (1 <= failAt && failAt <= b.calls))
	vc.Ensures("the area stays", t.viewportArea == area && t.current >= 0 && t.current <= 1)
	if err != nil {
		return
	}
	vc.Ensures("the terminal is ready for the next frame", vcTermOK(t))
	vc.Ensures("the backend draws once", b.draws == 1)
	if 0 <= j && j < len(b.cells) {
		vc.Ensures("the backend drew cells of the frame", vcListed(&was, &will, b.cells[j]))
		if j+1 < len(b.cells) {
			p, q := b.cells[j].Position, b.cells[j+1].Position
			vc.Ensures("in row-major order", vcIdx(area, p.X, p.Y) < vcIdx(area, q.X, q.Y))
		}
	}
	if 0 <= i && i < len(next) && !will.content[i].Skip && !vcCovered(&will, i) && (was.content[i] != will.content[i] || vcCovered(&was, i)) {
		vc.Ensures("the backend drew every cell that differs", vc.Exists(0, len(b.cells), func(k int) bool { return vcAt(area, b.cells[k].Position, i) }))
	}
	prev := t.PreviousBuffer()
	vc.Ensures("the other buffer holds the frame", vc.Forall(0, len(next), func(k int) bool { return prev.content[k] == will.content[k] }))
	vc.Ensures("the cursor is hidden after drawing", b.drawn > 0 && b.hidden > b.drawn && b.shown == 0 && b.invisible)
	vc.Ensures("then the backend is flushed", b.flushed > b.hidden)
	vc.Ensures("the terminal knows the cursor is hidden", t.hiddenCursor)
	vc.Ensures("one more frame", t.frameCount == frames+1)
}

//vc:prop C08
func spec_Terminal_Draw_again(screen, next vcScreen, area Rect, second int) {
	vc.Requires(vcRectOK(area) && len(screen) == area.Width*area.Height && len(next) == len(screen))
	vc.Requires(vcWidths(&Buffer{content: screen}) && vcWidths(&Buffer{content: next}))
	b := &vcBackend{}
	t := vcTerminal(area, screen, second&1, 0, b)
	again := vcPaint{cells: vc.Snap(screen)}
	c1, err1 := t.Draw(vcPaint{cells: next})
	c2, err2 := t.Draw(again)
	vc.Ensures("no failure", err1 == nil && err2 == nil)
	vc.Ensures("frames are counted", t.frameCount == 2 && c1.count == 0 && c2.count == 1)
	vc.Ensures("ready", vcTermOK(t))
}

//vc:prop C08
func spec_Terminal_Resize(screen vcScreen, area, to Rect, second, failAt int, fixed bool) {
	vc.Requires(vcRectOK(area) && vcRectOK(to) && len(screen) == area.Width*area.Height)
	b := &vcBackend{failAt: failAt}
	t := vcTerminal(area, screen, second&1, 3, b)
	if fixed {
		t.viewport = ViewportFixed(area)
	}
	vc.InvariantIn("Clear", func() bool { return b.calls >= 0 && !(1 <= b.failAt && b.failAt <= b.calls) })
	vc.InvariantIn("Clear", func(y int) bool { return b.erases >= 0 && (y <= to.Y || b.erases > 0 && b.erasedFrom <= to.Y) })
	err := t.Resize(to)
	vc.Ensures("a failing backend call is an error", (err != nil) == (1 <= failAt && failAt <= b.calls))
	if err == nil {
		vc.Ensures("the viewport has the new area", t.viewportArea == to)
		prev := t.PreviousBuffer()
		d := t.CurrentBuffer()
		vc.Ensures("both buffers have the new area", d.area == to && prev.area == to)
		vc.Ensures("the drawing buffer is blank", vc.Forall(0, len(d.content), func(i int) bool { return vcIsBlank(d.content[i]) }))
		vc.Ensures("the terminal is ready for the next frame", vcTermOK(t))
		vc.Ensures("the other buffer is blank", vc.Forall(0, len(prev.content), func(i int) bool { return vcIsBlank(prev.content[i]) }))
		if !fixed {
			vc.Ensures("the screen is cleared", b.erasedAll)
		} else {
			vc.Ensures("the rows of the viewport are cleared", to.Height <= 0 || b.erasedAll || b.erases > 0 && b.erasedFrom <= to.Y)
		}
		vc.Ensures("no frame was completed", t.frameCount == 3)
	}
}

//vc:prop C08
func spec_NewTerminal(size Size, failAt int) {
	vc.Requires(size.Width >= 0 && size.Height >= 0 && size.Width < 1<<15 && size.Height < 1<<15)
	b := &vcBackend{size: size, failAt: failAt}
	t, err := NewTerminal(b, ViewportFullscreen{})
	vc.Ensures("a failing backend call is an error", (err != nil) == (failAt == 1))
	if err == nil {
		vc.Ensures("a new terminal is ready", vcTermOK(t) && t.viewportArea == NewRect(size.Width, size.Height))
		vc.Ensures("and blank", vc.Forall(0, len(t.PreviousBuffer().content), func(i int) bool { return vcIsBlank(t.PreviousBuffer().content[i]) }))
		vc.Ensures("with no frame", t.frameCount == 0)
	}
}

//vc:prop C08
func spec_Terminal_cursor(screen vcScreen, area Rect, p Position, show bool) {
	vc.Requires(vcRectOK(area) && len(screen) == area.Width*area.Height)
	b := &vcBackend{}
	t := vcTerminal(area, screen, 0, 0, b)
	f := t.GetFrame()
	vc.Ensures("a frame shows the viewport", f.Area() == area && f.buffer == t.CurrentBuffer() && f.cursorPosition == nil)
	if show {
		vc.Ensures("show", t.ShowCursor() == nil && !t.hiddenCursor && !b.invisible && b.shown == 1)
	} else {
		vc.Ensures("hide", t.HideCursor() == nil && t.hiddenCursor && b.invisible && b.hidden == 1)
	}
	vc.Ensures("place", t.SetCursorPosition(p) == nil && t.lastKnownCursorPos == p && b.cursor == p && b.placed == 2)
}
