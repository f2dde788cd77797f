package bento

import (
	"fmt"

	"github.com/metafates/bento/internal/vc"
	"github.com/muesli/termenv"
)

//vc:target Style.Patched
//vc:prop C05
func spec_Style_Patched(s Style, patch Style, c Cell) {
	once, twice := c, c
	once.SetStyle(s.Patched(patch))
	twice.SetStyle(s).SetStyle(patch)
	vc.Ensures("styling with the patched style is styling twice", once == twice)
}

//vc:prop C05
func spec_Style_modifiers(s Style, m Modifier, c Cell) {
	plain, with, without := c, c, c
	plain.SetStyle(s)
	with.SetStyle(s.WithModifier(m))
	without.SetStyle(s.WithoutModifier(m))
	vc.Ensures("an added modifier is on", with.Modifier&m == m)
	vc.Ensures("a removed modifier is off", without.Modifier&m == 0)
	vc.Ensures("other modifiers are as before", with.Modifier&^m == plain.Modifier&^m && without.Modifier&^m == plain.Modifier&^m)
	vc.Ensures("symbols and colours are as before", with.Symbol == plain.Symbol && with.Fg == plain.Fg && with.Bg == plain.Bg && with.Skip == plain.Skip &&
		without.Symbol == plain.Symbol && without.Fg == plain.Fg && without.Bg == plain.Bg && without.Skip == plain.Skip)
	vc.Ensures("modifier containment", c.Modifier.Contains(m) == (c.Modifier&m == m))
}

//vc:prop C05
func spec_Style_colors(s Style, col Color, c Cell) {
	vc.Requires(col != nil)
	plain, fg, bg := c, c, c
	plain.SetStyle(s)
	fg.SetStyle(s.WithForeground(col))
	bg.SetStyle(s.WithBackground(col))
	vc.Ensures("the foreground is the named one", fg.Fg == col && fg.Bg == plain.Bg && fg.Modifier == plain.Modifier && fg.Symbol == plain.Symbol && fg.Skip == plain.Skip)
	vc.Ensures("the background is the named one", bg.Bg == col && bg.Fg == plain.Fg && bg.Modifier == plain.Modifier && bg.Symbol == plain.Symbol && bg.Skip == plain.Skip)
	st := c
	st.SetStyle(NewStyle())
	vc.Ensures("the empty style changes nothing", st == c)
}

func vcWithFg(s Style, c Color) Style { s.Foreground.color = c; return s }
func vcWithBg(s Style, c Color) Style { s.Background.color = c; return s }
func vcWithMod(s Style, m Modifier) Style {
	s.addModifier |= m
	s.subModifier &^= m
	return s
}

//vc:prop C05
func spec_Style_named_modifiers(s Style) {
	vc.Ensures("Reversed", s.Reversed() == vcWithMod(s, ModifierReversed))
	vc.Ensures("CrossedOut", s.CrossedOut() == vcWithMod(s, ModifierCrossedOut))
	vc.Ensures("Italic", s.Italic() == vcWithMod(s, ModifierItalic))
	vc.Ensures("Bold", s.Bold() == vcWithMod(s, ModifierBold))
	vc.Ensures("Underlined", s.Underlined() == vcWithMod(s, ModifierUnderlined))
	vc.Ensures("Dim", s.Dim() == vcWithMod(s, ModifierDim))
	vc.Ensures("the modifiers are distinct bits", ModifierBold == 1 && ModifierDim == 2 && ModifierItalic == 4 && ModifierUnderlined == 8 && ModifierSlowBlink == 16 &&
		ModifierRapidBlink == 32 && ModifierReversed == 64 && ModifierHidden == 128 && ModifierCrossedOut == 256 && ModifierAll == 511)
}

//vc:prop C05
func spec_Style_named_foregrounds(s Style) {
	vc.Ensures("Black", s.Black() == vcWithFg(s, termenv.ANSIBlack))
	vc.Ensures("Red", s.Red() == vcWithFg(s, termenv.ANSIRed))
	vc.Ensures("Green", s.Green() == vcWithFg(s, termenv.ANSIGreen))
	vc.Ensures("Yellow", s.Yellow() == vcWithFg(s, termenv.ANSIYellow))
	vc.Ensures("Blue", s.Blue() == vcWithFg(s, termenv.ANSIBlue))
	vc.Ensures("Magenta", s.Magenta() == vcWithFg(s, termenv.ANSIMagenta))
	vc.Ensures("Cyan", s.Cyan() == vcWithFg(s, termenv.ANSICyan))
	vc.Ensures("White", s.White() == vcWithFg(s, termenv.ANSIWhite))
	vc.Ensures("BrightBlack", s.BrightBlack() == vcWithFg(s, termenv.ANSIBrightBlack))
	vc.Ensures("BrightRed", s.BrightRed() == vcWithFg(s, termenv.ANSIBrightRed))
	vc.Ensures("BrightGreen", s.BrightGreen() == vcWithFg(s, termenv.ANSIBrightGreen))
	vc.Ensures("BrightYellow", s.BrightYellow() == vcWithFg(s, termenv.ANSIBrightYellow))
	vc.Ensures("BrightBlue", s.BrightBlue() == vcWithFg(s, termenv.ANSIBrightBlue))
	vc.Ensures("BrightMagenta", s.BrightMagenta() == vcWithFg(s, termenv.ANSIBrightMagenta))
	vc.Ensures("BrightCyan", s.BrightCyan() == vcWithFg(s, termenv.ANSIBrightCyan))
	vc.Ensures("BrightWhite", s.BrightWhite() == vcWithFg(s, termenv.ANSIBrightWhite))
}

//vc:prop C05
func spec_Style_named_backgrounds(s Style) {
	vc.Ensures("OnBlack", s.OnBlack() == vcWithBg(s, termenv.ANSIBlack))
	vc.Ensures("OnRed", s.OnRed() == vcWithBg(s, termenv.ANSIRed))
	vc.Ensures("OnGreen", s.OnGreen() == vcWithBg(s, termenv.ANSIGreen))
	vc.Ensures("OnYellow", s.OnYellow() == vcWithBg(s, termenv.ANSIYellow))
	vc.Ensures("OnBlue", s.OnBlue() == vcWithBg(s, termenv.ANSIBlue))
	vc.Ensures("OnMagenta", s.OnMagenta() == vcWithBg(s, termenv.ANSIMagenta))
	vc.Ensures("OnCyan", s.OnCyan() == vcWithBg(s, termenv.ANSICyan))
	vc.Ensures("OnWhite", s.OnWhite() == vcWithBg(s, termenv.ANSIWhite))
	vc.Ensures("OnBrightBlack", s.OnBrightBlack() == vcWithBg(s, termenv.ANSIBrightBlack))
	vc.Ensures("OnBrightRed", s.OnBrightRed() == vcWithBg(s, termenv.ANSIBrightRed))
	vc.Ensures("OnBrightGreen", s.OnBrightGreen() == vcWithBg(s, termenv.ANSIBrightGreen))
	vc.Ensures("OnBrightYellow", s.OnBrightYellow() == vcWithBg(s, termenv.ANSIBrightYellow))
	vc.Ensures("OnBrightBlue", s.OnBrightBlue() == vcWithBg(s, termenv.ANSIBrightBlue))
	vc.Ensures("OnBrightMagenta", s.OnBrightMagenta() == vcWithBg(s, termenv.ANSIBrightMagenta))
	vc.Ensures("OnBrightCyan", s.OnBrightCyan() == vcWithBg(s, termenv.ANSIBrightCyan))
	vc.Ensures("OnBrightWhite", s.OnBrightWhite() == vcWithBg(s, termenv.ANSIBrightWhite))
}

//vc:prop C05
func spec_Style_rgb(s Style, r, g, b uint8) {
	hex := termenv.RGBColor(fmt.Sprintf("#%02x%02x%02x", r, g, b))
	vc.Ensures("RGB foreground", s.RGB(r, g, b) == vcWithFg(s, hex))
	vc.Ensures("RGB background", s.OnRGB(r, g, b) == vcWithBg(s, hex))
}
