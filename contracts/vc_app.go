package bento

import (
	"context"
	"sync"
	"time"

	"github.com/metafates/bento/internal/vc"
)

// vcAppBackend records whether raw mode and the alternate screen were left
// after they were last entered; its failAt-th call fails.
type vcAppBackend struct {
	vcBackend
	failed   bool
	noSize   bool
	entered  int // calls that switch something on
	sizeless bool
}

func (b *vcAppBackend) did(err error) error {
	if err != nil {
		b.failed = true
	}
	return err
}

func (b *vcAppBackend) GetSize() (Size, bool, error) {
	if b.noSize {
		return Size{}, false, errVcBackend
	}
	return b.size, !b.sizeless, nil
}

func (b *vcAppBackend) Draw(cells []PositionedCell) error { return b.did(b.call()) }
func (b *vcAppBackend) HideCursor() error                 { return b.did(b.vcBackend.HideCursor()) }
func (b *vcAppBackend) ShowCursor() error                 { return b.did(b.vcBackend.ShowCursor()) }
func (b *vcAppBackend) Flush() error                      { return b.did(b.vcBackend.Flush()) }
func (b *vcAppBackend) ClearAll() error                   { return b.did(b.call()) }
func (b *vcAppBackend) ClearAfterCursor() error           { return b.did(b.call()) }
func (b *vcAppBackend) SetCursorPosition(p Position) error {
	return b.did(b.vcBackend.SetCursorPosition(p))
}
func (b *vcAppBackend) EnableBracketedPaste() error {
	return b.did(b.vcBackend.EnableBracketedPaste())
}
func (b *vcAppBackend) DisableBracketedPaste() error {
	b.paste = false
	return b.did(b.call())
}

func (b *vcAppBackend) EnableRawMode() error {
	b.entered++
	return b.did(b.vcBackend.EnableRawMode())
}

func (b *vcAppBackend) DisableRawMode() error {
	b.raw = false
	return b.did(b.call())
}

func (b *vcAppBackend) EnableAlternateScreen() error {
	b.entered++
	return b.did(b.vcBackend.EnableAlternateScreen())
}

func (b *vcAppBackend) LeaveAlternateScreen() error {
	b.alt = false
	return b.did(b.call())
}

// vcCtx is a context that ends when its cancel method is called.
type vcCtx struct {
	mu   sync.Mutex
	err  error
	done chan struct{}
}

func vcContext() *vcCtx { return &vcCtx{done: make(chan struct{})} }

func (c *vcCtx) cancel() {
	c.mu.Lock()
	if c.err == nil {
		c.err = context.Canceled
		close(c.done)
	}
	c.mu.Unlock()
}

func (c *vcCtx) Deadline() (time.Time, bool) { return time.Time{}, false }
func (c *vcCtx) Done() <-chan struct{}       { return c.done }
func (c *vcCtx) Value(key any) any           { return nil }
func (c *vcCtx) Err() error {
	c.mu.Lock()
	err := c.err
	c.mu.Unlock()
	return err
}

// vcModel is a model that does what its script says, one entry per update, and quits at its end.
type vcModel struct {
	script []int
	step   int
	cancel context.CancelFunc
	late   bool // the script has ended the app in a way that takes time

	renders  int
	renderAt int // the drawing that panics
	initDoes int

	panicked, cancelled, quit bool
}

type vcMsg int

func vcSay(n int) Cmd { return func() Msg { return vcMsg(n) } }

func (m *vcModel) Init() Cmd {
	if m.initDoes == 1 {
		m.panicked = true
		panic("init")
	}
	if m.initDoes == 2 {
		return Batch(nil, vcSay(0), vcSay(1))
	}
	return vcSay(0)
}

func (m *vcModel) Render(area Rect, buffer *Buffer) {
	m.renders++
	if m.renders == m.renderAt {
		m.panicked = true
		panic("render")
	}
}

func (m *vcModel) Update(msg Msg) (Model, Cmd) {
	i := m.step
	m.step++
	if m.late {
		return m, nil
	}
	if i >= len(m.script) {
		m.quit = true
		return m, Quit
	}
	switch m.script[i] {
	case 1:
		m.panicked = true
		panic("update")
	case 2:
		m.cancelled = true
		m.cancel()
		return m, vcSay(i)
	case 3:
		m.late = true
		return m, func() Msg { panic("command") }
	case 4:
		m.late = true
		return m, Sequence(vcSay(1), nil, func() Msg { panic("sequence") })
	case 5:
		m.late = true
		return m, Sequence(Batch(vcSay(1), func() Msg { panic("batch in a sequence") }))
	case 6:
		return m, func() Msg { return WindowSizeMsg{Width: i, Height: 1} }
	case 7:
		return m, Batch(vcSay(1), nil, vcSay(2))
	case 8:
		return m, Sequence(nil, vcSay(1), Batch(nil, vcSay(2), vcSay(3)), vcSay(4))
	case 9:
		m.late = true
		return m, Batch(vcSay(1), func() Msg { panic("batch") })
	}
	return m, vcSay(i)
}

func vcRunner(m Model, b TerminalBackend, ctx context.Context, cancel context.CancelFunc) *appRunner {
	t, err := NewTerminal(b, ViewportFullscreen{})
	vc.Requires(err == nil)
	return &appRunner{
		model: m, ctx: ctx, cancelCtx: cancel, terminal: t,
		readLoopDone: make(chan struct{}),
		cmds:         make(chan Cmd),
		msgs:         make(chan Msg),
		errs:         make(chan error),
		finished:     make(chan struct{}, 1),
	}
}

//vc:prop C18
//vc:bounded
//vc:opts noterm recover
func spec_Run(script []int, failAt, renderAt, initDoes int, sizeless bool) {
	ctx := vcContext()
	b := &vcAppBackend{sizeless: sizeless}
	b.size = Size{Width: 3, Height: 2}
	m := &vcModel{script: script, cancel: ctx.cancel, renderAt: renderAt, initDoes: initDoes}
	a := vcRunner(m, b, ctx, ctx.cancel)
	b.failAt = failAt
	vc.Rely(func(msg Msg) bool {
		s, ok := msg.(WindowSizeMsg)
		return !ok || 0 <= s.Width && s.Width < 1<<15 && 0 <= s.Height && s.Height < 1<<15
	})
	vc.InvariantIn("eventLoop", func() bool {
		t := a.terminal
		p, q := &t.buffers[0], &t.buffers[1]
		return 0 <= t.current && t.current <= 1 && vcBufOK(p) && vcBufOK(q) && p.area == t.viewportArea && q.area == t.viewportArea
	})
	_, err := a.Run()
	vc.Ensures("raw mode has been left", !b.raw)
	vc.Ensures("the alternate screen has been left", !b.alt)
	vc.Ensures("a failing backend call is reported", !b.failed || err != nil)
	vc.Ensures("a panic is reported", !m.panicked || err != nil)
	vc.Ensures("an interrupted application is reported", !m.cancelled || err != nil)
}

//vc:prop C18
//vc:bounded
func spec_Run_async(script []int, failAt int, noSize bool) {
	ctx, cancel := context.WithCancel(context.Background())
	b := &vcAppBackend{noSize: false}
	b.size = Size{Width: 3, Height: 2}
	m := &vcModel{script: script, cancel: cancel}
	a := vcRunner(m, b, ctx, cancel)
	b.failAt, b.noSize = failAt, noSize
	if noSize {
		m.late = true
	}
	_, err := a.Run()
	vc.Ensures("raw mode has been left", !b.raw)
	vc.Ensures("the alternate screen has been left", !b.alt)
	vc.Ensures("a panicking command is reported", !m.late || err != nil)
	vc.Ensures("a script that ends well is no error", err == nil || m.late || b.failed || m.panicked || m.cancelled)
}

// vcTree is a tree of commands: a leaf says its number, a node batches or sequences its children.
type vcTree struct {
	sequence bool
	children []*vcTree // nil: no command
	leaf     int
}

var _ = vc.Register(func(r *vc.R) *vcTree {
	n := 0
	budget := 12
	var make func(depth int) *vcTree
	make = func(depth int) *vcTree {
		budget--
		if depth == 0 || budget <= 0 || r.Intn(3) == 0 {
			n++
			return &vcTree{leaf: n}
		}
		t := &vcTree{sequence: r.Bool()}
		for k := r.Intn(4); k > 0; k-- {
			if r.Intn(5) == 0 {
				t.children = append(t.children, nil)
			} else {
				t.children = append(t.children, make(depth-1))
			}
		}
		return t
	}
	return make(3)
})

func (t *vcTree) cmd() Cmd {
	if t == nil {
		return nil
	}
	if t.leaf > 0 {
		return vcSay(t.leaf)
	}
	var l []Cmd
	for _, c := range t.children {
		l = append(l, c.cmd())
	}
	if t.sequence {
		return Sequence(l...)
	}
	return Batch(l...)
}

func (t *vcTree) leaves() []int {
	if t == nil {
		return nil
	}
	if t.leaf > 0 {
		return []int{t.leaf}
	}
	var l []int
	for _, c := range t.children {
		l = append(l, c.leaves()...)
	}
	return l
}

func vcDistinct(l []int) bool {
	seen := map[int]bool{}
	for _, v := range l {
		if v <= 0 || seen[v] {
			return false
		}
		seen[v] = true
	}
	return true
}

// ordered: the messages of a sequence arrive in order: those of its leaves and of the
// batches directly in it (sequences inside are started in order only).
func (t *vcTree) ordered(at map[int]int) bool {
	if t == nil || t.leaf > 0 {
		return true
	}
	last := -1
	for _, c := range t.children {
		if !c.ordered(at) {
			return false
		}
		if !t.sequence || c == nil {
			continue
		}
		if c.leaf > 0 {
			if at[c.leaf] < last {
				return false
			}
			last = at[c.leaf]
		} else if !c.sequence {
			next := last
			for _, d := range c.children {
				if d != nil && d.leaf > 0 {
					if at[d.leaf] < last {
						return false
					}
					if at[d.leaf] > next {
						next = at[d.leaf]
					}
				}
			}
			last = next
		}
	}
	return true
}

// vcCollector is a model that starts the tree and collects the numbers it hears until it has heard them all.
type vcCollector struct {
	tree  *vcTree
	heard []int
	want  int
	init  bool
}

func (m *vcCollector) Init() Cmd {
	if m.init {
		return m.tree.cmd()
	}
	return vcSay(0)
}

func (m *vcCollector) Render(area Rect, buffer *Buffer) {}

func (m *vcCollector) Update(msg Msg) (Model, Cmd) {
	v, ok := msg.(vcMsg)
	if !ok {
		return m, nil
	}
	if v == 0 {
		return m, m.tree.cmd()
	}
	m.heard = append(m.heard, int(v))
	if len(m.heard) == m.want {
		return m, Quit
	}
	return m, nil
}

//vc:prop C19
//vc:bounded
func spec_Run_delivers(tree *vcTree, atInit bool) {
	leaves := tree.leaves()
	vc.Requires(len(leaves) > 0 && vcDistinct(leaves))
	ctx, cancel := context.WithCancel(context.Background())
	b := &vcAppBackend{}
	b.size = Size{Width: 3, Height: 2}
	m := &vcCollector{tree: tree, want: len(leaves), init: atInit}
	a := vcRunner(m, b, ctx, cancel)
	_, err := a.Run()
	vc.Ensures("the application ends", err == nil)
	at := map[int]int{}
	for i, v := range m.heard {
		_, twice := at[v]
		vc.Ensures("a message is delivered once", !twice)
		at[v] = i
	}
	for _, v := range leaves {
		_, ok := at[v]
		vc.Ensures("every message is delivered", ok)
	}
	vc.Ensures("a sequence delivers its messages in order", tree.ordered(at))
}

var _ = vc.Register(func(r *vc.R) Cmd {
	if r.Intn(3) == 0 {
		return nil
	}
	return vcSay(r.Small())
})

func vcGiven(cmds []Cmd, n int) int {
	return vc.Sum(n, func(i int) int {
		if cmds[i] != nil {
			return 1
		}
		return 0
	})
}

//vc:prop C19
//vc:target Batch
func spec_Batch(cmds []Cmd, k int) {
	all := vc.Snap(cmds)
	vc.Requires(0 <= k && k < len(cmds) && all[k] != nil)
	vc.Invariant(func(i int, validCmds []Cmd) bool {
		return len(validCmds) == vcGiven(all, i) && vc.Implies(k < i, vcGiven(all, k) >= 0)
	})
	vc.Invariant(func(i int, validCmds []Cmd) bool {
		return vc.Implies(k < i, vcGiven(all, k) < len(validCmds) && vc.SameFn[Cmd](validCmds[vcGiven(all, k)], all[k]))
	})
	n, at := vcGiven(all, len(cmds)), vcGiven(all, k)
	got := Batch(cmds...)
	vc.Ensures("a batch of commands is a command", got != nil)
	if n == 1 {
		vc.Ensures("a single command is run as it is", vc.SameFn[Cmd](got, all[k]))
	} else {
		b, ok := got().(BatchMsg)
		vc.Ensures("several commands are run as a batch", ok && len(b) == n)
		vc.Ensures("every command of a batch is run, in order", 0 <= at && at < n && vc.SameFn[Cmd](b[at], all[k]))
	}
}

//vc:prop C19
func spec_Batch_nothing(cmds []Cmd) {
	vc.Requires(vc.Forall(0, len(cmds), func(i int) bool { return cmds[i] == nil }))
	vc.Invariant(func(i int, validCmds []Cmd) bool { return len(validCmds) == 0 })
	vc.Ensures("a batch of no commands is no command", Batch(cmds...) == nil)
}

//vc:prop C19
//vc:target Sequence
func spec_Sequence(cmds []Cmd, k int) {
	vc.Requires(0 <= k && k < len(cmds))
	s := vc.Snap(cmds)
	got := Sequence(cmds...)
	vc.Ensures("a sequence is a command", got != nil)
	m, ok := got().(sequenceMsg)
	vc.Ensures("it keeps all commands", ok && len(m) == len(s) && vc.SameFn[Cmd](m[k], s[k]))
}
