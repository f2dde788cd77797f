package bento

import (
	"bufio"

	"github.com/metafates/bento/internal/ansi"
	"github.com/metafates/bento/internal/vc"
	"github.com/muesli/termenv"
)

// vcTerm is a terminal: it interprets what is written to it (ECMA-48 SGR, CUP, DECSET).
type vcTerm struct {
	pending string

	x, y   int
	mods   Modifier
	fg, bg string

	prints  int // clusters printed so far
	watch   int // the printed cluster to remember
	sx, sy  int
	smods   Modifier
	sfg     string
	sbg     string
	ssymbol string

	hidden, alt, paste bool
	erased             int // last erase sequence: 1 all, 2 after the cursor, 3 before, 4 line, 5 end of line
	moves              int
	bad                bool
}

func vcNewTerm() *vcTerm { return &vcTerm{fg: "39", bg: "49"} }

func (t *vcTerm) Write(p []byte) (int, error) {
	toks, rest := vc.Tokens(t.pending + string(p))
	t.pending = rest
	for _, k := range toks {
		t.token(k)
	}
	return len(p), nil
}

func (t *vcTerm) token(k vc.Tok) {
	switch k.Seq {
	case "":
		if t.prints == t.watch {
			t.sx, t.sy, t.smods, t.sfg, t.sbg, t.ssymbol = t.x, t.y, t.mods, t.fg, t.bg, k.Text
		}
		t.prints++
		t.x += vc.Width(k.Text)
	case "m":
		if len(k.Args) == 0 {
			t.sgr("0")
		}
		for _, u := range k.Args {
			t.sgr(u)
		}
	case "H":
		t.x, t.y = max(1, k.B)-1, max(1, k.A)-1
		t.moves++
	case "J":
		switch k.A {
		case 0:
			t.erased = 2
		case 1:
			t.erased = 3
		case 2:
			t.erased = 1
		default:
			t.bad = true
		}
	case "K":
		switch k.A {
		case 0:
			t.erased = 5
		case 2:
			t.erased = 4
		default:
			t.bad = true
		}
	case "?h", "?l":
		on := k.Seq == "?h"
		switch k.A {
		case 25:
			t.hidden = !on
		case 1049:
			t.alt = on
		case 2004:
			t.paste = on
		default:
			t.bad = true
		}
	default:
		t.bad = true
	}
}

func (t *vcTerm) sgr(u string) {
	switch u {
	case "0", "":
		t.mods, t.fg, t.bg = 0, "39", "49"
	case "1":
		t.mods |= ModifierBold
	case "2":
		t.mods |= ModifierDim
	case "3":
		t.mods |= ModifierItalic
	case "4":
		t.mods |= ModifierUnderlined
	case "5":
		t.mods |= ModifierSlowBlink
	case "6":
		t.mods |= ModifierRapidBlink
	case "7":
		t.mods |= ModifierReversed
	case "8":
		t.mods |= ModifierHidden
	case "9":
		t.mods |= ModifierCrossedOut
	case "22":
		t.mods &^= ModifierBold | ModifierDim
	case "23":
		t.mods &^= ModifierItalic
	case "24":
		t.mods &^= ModifierUnderlined
	case "25":
		t.mods &^= ModifierSlowBlink | ModifierRapidBlink
	case "27":
		t.mods &^= ModifierReversed
	case "28":
		t.mods &^= ModifierHidden
	case "29":
		t.mods &^= ModifierCrossedOut
	default:
		if vcIsFg(u) {
			t.fg = u
		} else if vcIsBg(u) {
			t.bg = u
		} else {
			t.bad = true
		}
	}
}

func vcDigit(c byte) bool { return c >= '0' && c <= '7' }

// vcIsFg: an SGR parameter that selects a foreground colour.
func vcIsFg(u string) bool {
	if len(u) == 2 {
		return u == "39" || (u[0] == '3' || u[0] == '9') && vcDigit(u[1])
	}
	return len(u) > 3 && u[0] == '3' && u[1] == '8' && u[2] == ';'
}

// vcIsBg: an SGR parameter that selects a background colour.
func vcIsBg(u string) bool {
	if len(u) == 2 {
		return u == "49" || u[0] == '4' && vcDigit(u[1])
	}
	if len(u) == 3 {
		return u[0] == '1' && u[1] == '0' && vcDigit(u[2])
	}
	return len(u) > 3 && u[0] == '4' && u[1] == '8' && u[2] == ';'
}

// vcSeq is the SGR parameter that shows a colour under a colour profile, the default colour
// when the profile has none for it.
func vcSeq(p termenv.Profile, c Color, bg bool) string {
	none := "39"
	if bg {
		none = "49"
	}
	if c == nil {
		return none
	}
	k := p.Convert(c)
	if k == nil {
		return none
	}
	s := k.Sequence(bg)
	if s == "" {
		return none
	}
	return s
}

// vcColorOK: the terminal can show the colour, or it has none and stays with the default.
func vcColorOK(p termenv.Profile, c Color) bool {
	fg, bg := vcSeq(p, c, false), vcSeq(p, c, true)
	return c != nil && vcIsFg(fg) && vcIsBg(bg) && vc.OneSGR(fg) && vc.OneSGR(bg) && vcBoth(p.Convert(c))
}

// vcBoth: a colour has a sequence for both grounds or for none.
func vcBoth(k Color) bool {
	return k == nil || (k.Sequence(false) == "") == (k.Sequence(true) == "")
}

var _ = vc.Register(func(r *vc.R) termenv.Profile { return termenv.Profile(r.Intn(4)) })

var _ = vc.Register(func(r *vc.R) []PositionedCell {
	var out []PositionedCell
	x, y := r.Intn(3), r.Intn(3)
	for k := r.Intn(r.Size + 3); k > 0; k-- {
		c := vc.Make[Cell](r)
		if len(out) > 0 && r.Bool() {
			// keep part of the last look
			l := out[len(out)-1].Cell
			if r.Bool() {
				c.Modifier = l.Modifier
			}
			if r.Bool() {
				c.Fg = l.Fg
			}
			if r.Bool() {
				c.Bg = l.Bg
			}
		}
		if r.Intn(10) == 0 {
			c.Fg = termenv.RGBColor("nonsense")
		}
		out = append(out, PositionedCell{Cell: c, Position: Position{X: x, Y: y}})
		x += vc.Width(c.Symbol)
		if r.Intn(3) == 0 {
			x += r.Intn(3)
		}
		if r.Intn(4) == 0 {
			x, y = r.Intn(5), y+r.Intn(2)
		}
	}
	return out
})

func vcBackendOn(profile termenv.Profile, t *vcTerm) *DefaultBackend {
	return &DefaultBackend{colorProfile: profile, output: t, outputBuf: bufio.NewWriter(t)}
}

//vc:prop C07
func spec_Backend_Draw(profile termenv.Profile, cells []PositionedCell, g int) {
	vc.Requires(0 <= profile && profile <= 3)
	vc.Requires(vc.Forall(0, len(cells), func(i int) bool {
		c := cells[i]
		return vc.Plain(c.Symbol) && c.Position.X >= 0 && c.Position.Y >= 0 && vcColorOK(profile, c.Fg) && vcColorOK(profile, c.Bg)
	}))
	vc.Requires(vc.Forall(1, len(cells), func(i int) bool {
		a, b := cells[i-1], cells[i]
		return b.Position.Y != a.Position.Y || b.Position.X < a.Position.X || b.Position.X >= a.Position.X+vc.Width(a.Symbol)
	}))
	t := vcNewTerm()
	t.watch = g
	d := vcBackendOn(profile, t)
	vc.InvariantIn("Draw", func() bool { return !t.bad && t.pending == "" && t.prints >= 0 && t.watch == g })
	vc.InvariantIn("Draw", func(m Modifier) bool { return t.mods == m&ModifierAll })
	vc.InvariantIn("Draw", func(c Color) bool { return t.fg == vcSeq(profile, c, false) })
	vc.InvariantIn("Draw", func(c Color) bool { return t.bg == vcSeq(profile, c, true) })
	vc.InvariantIn("Draw", func(i int) bool { return t.prints == i })
	vc.InvariantIn("Draw", func(i int) bool { return t.prints == i+1 })
	vc.InvariantIn("Draw", func(p *Position) bool { return (p == nil) == (t.prints == 0) })
	vc.InvariantIn("Draw", func(p *Position) bool {
		return p == nil || 0 < t.prints && t.prints <= len(cells) && *p == cells[t.prints-1].Position
	})
	vc.InvariantIn("Draw", func(p *Position) bool { return p == nil || t.y == p.Y })
	vc.InvariantIn("Draw", func(p *Position) bool {
		return p == nil || 0 < t.prints && t.prints <= len(cells) && t.x == p.X+vc.Width(cells[t.prints-1].Cell.Symbol)
	})
	seen := func() bool { return 0 <= g && g < t.prints && g < len(cells) }
	vc.InvariantIn("Draw", func() bool { return !seen() || t.ssymbol == cells[g].Symbol })
	vc.InvariantIn("Draw", func() bool { return !seen() || t.sx == cells[g].Position.X })
	vc.InvariantIn("Draw", func() bool { return !seen() || t.sy == cells[g].Position.Y })
	vc.InvariantIn("Draw", func() bool { return !seen() || t.smods == cells[g].Modifier&ModifierAll })
	vc.InvariantIn("Draw", func() bool { return !seen() || t.sfg == vcSeq(profile, cells[g].Fg, false) })
	vc.InvariantIn("Draw", func() bool { return !seen() || t.sbg == vcSeq(profile, cells[g].Bg, true) })
	err := d.Draw(cells)
	vc.Ensures("drawing does not fail", err == nil && d.Flush() == nil)
	vc.Ensures("every sequence is one the terminal knows", !t.bad && t.pending == "")
	vc.Ensures("every cell is printed once", t.prints == len(cells))
	vc.Ensures("attributes and colours are back to default", t.mods == 0 && t.fg == "39" && t.bg == "49")
	if 0 <= g && g < len(cells) {
		c := cells[g]
		vc.Ensures("the symbol is printed", t.ssymbol == c.Symbol)
		vc.Ensures("at its position", t.sx == c.Position.X && t.sy == c.Position.Y)
		vc.Ensures("with its modifiers", t.smods == c.Modifier&ModifierAll)
		vc.Ensures("with its foreground", t.sfg == vcSeq(profile, c.Fg, false))
		vc.Ensures("with its background", t.sbg == vcSeq(profile, c.Bg, true))
	}
}

var vcModifiers = [...]Modifier{ModifierBold, ModifierDim, ModifierItalic, ModifierUnderlined, ModifierSlowBlink, ModifierRapidBlink, ModifierReversed, ModifierHidden, ModifierCrossedOut}

//vc:prop C07
func spec_StyleModifierDiff_queue(from, to Modifier) {
	t := vcNewTerm()
	t.mods, t.fg, t.bg = from&ModifierAll, "31", "42"
	err := _StyleModifierDiff{From: from, To: to}.queue(t)
	vc.Ensures("no failure", err == nil)
	vc.Ensures("every sequence is one the terminal knows", !t.bad && t.pending == "")
	for _, m := range vcModifiers {
		vc.Ensures("the attribute is on exactly when it is wanted", t.mods.Contains(m) == to.Contains(m))
	}
	vc.Ensures("no other attributes", t.mods <= ModifierAll)
	vc.Ensures("nothing else changes", t.fg == "31" && t.bg == "42" && t.prints == 0 && t.moves == 0)
}

var _ = vc.Register(func(r *vc.R) ansi.Colors {
	c := ansi.Colors{Foreground: vc.Make[Color](r), Background: vc.Make[Color](r)}
	if r.Intn(3) == 0 {
		c.Foreground = nil
	}
	if r.Intn(3) == 0 {
		c.Background = nil
	}
	return c
})

func vcParam(c Color, bg bool) string {
	if c == nil {
		return ""
	}
	return c.Sequence(bg)
}

//vc:prop C07
func spec_SetColors(c ansi.Colors, mods Modifier) {
	fg, bg := vcParam(c.Foreground, false), vcParam(c.Background, true)
	vc.Requires((fg == "" || vcIsFg(fg) && vc.OneSGR(fg)) && (bg == "" || vcIsBg(bg) && vc.OneSGR(bg)))
	t := vcNewTerm()
	t.mods, t.fg, t.bg = mods, "31", "42"
	err := ansi.SetColors(c).WriteANSI(t)
	vc.Ensures("no failure", err == nil && t.pending == "" && !t.bad)
	vc.Ensures("attributes stay", t.mods == mods && t.prints == 0 && t.moves == 0)
	vc.Ensures("the foreground is selected, or stays when there is none", t.fg == fg || fg == "" && t.fg == "31")
	vc.Ensures("the background is selected, or stays when there is none", t.bg == bg || bg == "" && t.bg == "42")
}

//vc:prop C08 C18
func spec_Backend_switches(p Position, hidden, alt, paste bool) {
	vc.Requires(p.X >= 0 && p.Y >= 0)
	t := vcNewTerm()
	t.hidden, t.alt, t.paste = hidden, alt, paste
	d := vcBackendOn(termenv.TrueColor, t)
	vc.Ensures("show the cursor", d.ShowCursor() == nil && vcFlushed(d) && !t.hidden && t.alt == alt && t.paste == paste)
	vc.Ensures("hide the cursor", d.HideCursor() == nil && vcFlushed(d) && t.hidden && t.alt == alt && t.paste == paste)
	vc.Ensures("place the cursor", d.SetCursorPosition(p) == nil && vcFlushed(d) && t.x == p.X && t.y == p.Y && t.moves == 1)
	vc.Ensures("enter the alternate screen", d.EnableAlternateScreen() == nil && vcFlushed(d) && t.alt && t.paste == paste)
	vc.Ensures("leave the alternate screen", d.LeaveAlternateScreen() == nil && vcFlushed(d) && !t.alt && t.paste == paste)
	vc.Ensures("bracketed paste on", d.EnableBracketedPaste() == nil && vcFlushed(d) && t.paste)
	vc.Ensures("bracketed paste off", d.DisableBracketedPaste() == nil && vcFlushed(d) && !t.paste)
	vc.Ensures("erase everything", d.ClearAll() == nil && vcFlushed(d) && t.erased == 1)
	vc.Ensures("erase after the cursor", d.ClearAfterCursor() == nil && vcFlushed(d) && t.erased == 2)
	vc.Ensures("erase before the cursor", d.ClearBeforeCursor() == nil && vcFlushed(d) && t.erased == 3)
	vc.Ensures("erase the line", d.ClearCurrentLine() == nil && vcFlushed(d) && t.erased == 4)
	vc.Ensures("erase to the end of the line", d.ClearUntilNewLine() == nil && vcFlushed(d) && t.erased == 5)
	vc.Ensures("nothing is printed and no sequence is unknown", t.prints == 0 && !t.bad && t.pending == "")
}

// vcFlushed: nothing is held back from the terminal.
func vcFlushed(d *DefaultBackend) bool { return d.outputBuf.Buffered() == 0 }
