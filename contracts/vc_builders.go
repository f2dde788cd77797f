package bento

import (
	"strconv"

	"github.com/metafates/bento/internal/vc"
	"github.com/muesli/termenv"
)

func vcLayoutSame(a, b Layout) bool {
	return a.Direction == b.Direction && a.Padding == b.Padding && a.Flex == b.Flex && a.Spacing == b.Spacing && VcSame(a.Constraints, b.Constraints)
}

//vc:prop C22
func spec_Layout_setters(l Layout, d Direction, p Padding, f Flex, s Spacing) {
	w := l
	w.Direction = d
	vc.Ensures("WithDirection changes the direction only", vcLayoutSame(l.WithDirection(d), w))
	w.Direction = DirectionVertical
	vc.Ensures("Vertical", vcLayoutSame(l.Vertical(), w))
	w.Direction = DirectionHorizontal
	vc.Ensures("Horizontal", vcLayoutSame(l.Horizontal(), w))
	w = l
	w.Padding = p
	vc.Ensures("WithPadding changes the padding only", vcLayoutSame(l.WithPadding(p), w))
	w = l
	w.Flex = f
	vc.Ensures("WithFlex changes the flex only", vcLayoutSame(l.WithFlex(f), w))
	w = l
	w.Spacing = s
	vc.Ensures("WithSpacing changes the spacing only", vcLayoutSame(l.WithSpacing(s), w))
}

//vc:prop C22
func spec_Layout_WithConstraints(l Layout, cs []Constraint) {
	all := l.Constraints[:cap(l.Constraints)]
	old := vc.Snap(all)
	added := vc.Snap(cs)
	n := len(l.Constraints)
	a := l.WithConstraints(cs...)
	vc.Ensures("no existing value sees the addition", vc.Forall(0, len(old), func(i int) bool { return all[i] == old[i] }))
	vc.Ensures("the constraints are added at the end", len(a.Constraints) == n+len(cs) &&
		vc.Forall(0, n, func(i int) bool { return a.Constraints[i] == old[i] }) &&
		vc.Forall(0, len(added), func(i int) bool { return a.Constraints[n+i] == added[i] }))
	a.Constraints = l.Constraints
	vc.Ensures("nothing else changes", vcLayoutSame(a, l))
}

//vc:prop C22
func spec_Style_setters(s Style, m Modifier, c Color) {
	vc.Ensures("WithModifier", s.WithModifier(m) == vcWithMod(s, m))
	vc.Ensures("WithForeground", s.WithForeground(c) == vcWithFg(s, c))
	vc.Ensures("WithBackground", s.WithBackground(c) == vcWithBg(s, c))
	w := s
	w.addModifier &^= m
	w.subModifier |= m
	vc.Ensures("WithoutModifier", s.WithoutModifier(m) == w)
}

//vc:prop C22
func spec_Rect_setters(r Rect, x, y, w, h int) {
	vc.Ensures("WithWidth", r.WithWidth(w) == Rect{Position: r.Position, Width: w, Height: r.Height})
	vc.Ensures("WithHeight", r.WithHeight(h) == Rect{Position: r.Position, Width: r.Width, Height: h})
	vc.Ensures("Positioned", r.Positioned(x, y) == Rect{Position: Position{X: x, Y: y}, Width: r.Width, Height: r.Height})
}

//vc:prop C22
func spec_Style_shorthands(s Style) {
	vc.Ensures("Reversed", s.Reversed() == vcWithMod(s, ModifierReversed))
	vc.Ensures("CrossedOut", s.CrossedOut() == vcWithMod(s, ModifierCrossedOut))
	vc.Ensures("Italic", s.Italic() == vcWithMod(s, ModifierItalic))
	vc.Ensures("Bold", s.Bold() == vcWithMod(s, ModifierBold))
	vc.Ensures("Underlined", s.Underlined() == vcWithMod(s, ModifierUnderlined))
	vc.Ensures("Dim", s.Dim() == vcWithMod(s, ModifierDim))
	vc.Ensures("Black", s.Black() == vcWithFg(s, termenv.ANSIBlack))
	vc.Ensures("OnBlack", s.OnBlack() == vcWithBg(s, termenv.ANSIBlack))
	vc.Ensures("Red", s.Red() == vcWithFg(s, termenv.ANSIRed))
	vc.Ensures("OnRed", s.OnRed() == vcWithBg(s, termenv.ANSIRed))
	vc.Ensures("Green", s.Green() == vcWithFg(s, termenv.ANSIGreen))
	vc.Ensures("OnGreen", s.OnGreen() == vcWithBg(s, termenv.ANSIGreen))
	vc.Ensures("Yellow", s.Yellow() == vcWithFg(s, termenv.ANSIYellow))
	vc.Ensures("OnYellow", s.OnYellow() == vcWithBg(s, termenv.ANSIYellow))
	vc.Ensures("Blue", s.Blue() == vcWithFg(s, termenv.ANSIBlue))
	vc.Ensures("OnBlue", s.OnBlue() == vcWithBg(s, termenv.ANSIBlue))
	vc.Ensures("Magenta", s.Magenta() == vcWithFg(s, termenv.ANSIMagenta))
	vc.Ensures("OnMagenta", s.OnMagenta() == vcWithBg(s, termenv.ANSIMagenta))
	vc.Ensures("Cyan", s.Cyan() == vcWithFg(s, termenv.ANSICyan))
	vc.Ensures("OnCyan", s.OnCyan() == vcWithBg(s, termenv.ANSICyan))
	vc.Ensures("White", s.White() == vcWithFg(s, termenv.ANSIWhite))
	vc.Ensures("OnWhite", s.OnWhite() == vcWithBg(s, termenv.ANSIWhite))
	vc.Ensures("BrightBlack", s.BrightBlack() == vcWithFg(s, termenv.ANSIBrightBlack))
	vc.Ensures("OnBrightBlack", s.OnBrightBlack() == vcWithBg(s, termenv.ANSIBrightBlack))
	vc.Ensures("BrightRed", s.BrightRed() == vcWithFg(s, termenv.ANSIBrightRed))
	vc.Ensures("OnBrightRed", s.OnBrightRed() == vcWithBg(s, termenv.ANSIBrightRed))
	vc.Ensures("BrightGreen", s.BrightGreen() == vcWithFg(s, termenv.ANSIBrightGreen))
	vc.Ensures("OnBrightGreen", s.OnBrightGreen() == vcWithBg(s, termenv.ANSIBrightGreen))
	vc.Ensures("BrightYellow", s.BrightYellow() == vcWithFg(s, termenv.ANSIBrightYellow))
	vc.Ensures("OnBrightYellow", s.OnBrightYellow() == vcWithBg(s, termenv.ANSIBrightYellow))
	vc.Ensures("BrightBlue", s.BrightBlue() == vcWithFg(s, termenv.ANSIBrightBlue))
	vc.Ensures("OnBrightBlue", s.OnBrightBlue() == vcWithBg(s, termenv.ANSIBrightBlue))
	vc.Ensures("BrightMagenta", s.BrightMagenta() == vcWithFg(s, termenv.ANSIBrightMagenta))
	vc.Ensures("OnBrightMagenta", s.OnBrightMagenta() == vcWithBg(s, termenv.ANSIBrightMagenta))
	vc.Ensures("BrightCyan", s.BrightCyan() == vcWithFg(s, termenv.ANSIBrightCyan))
	vc.Ensures("OnBrightCyan", s.OnBrightCyan() == vcWithBg(s, termenv.ANSIBrightCyan))
	vc.Ensures("BrightWhite", s.BrightWhite() == vcWithFg(s, termenv.ANSIBrightWhite))
	vc.Ensures("OnBrightWhite", s.OnBrightWhite() == vcWithBg(s, termenv.ANSIBrightWhite))
}

//vc:prop C22
//vc:bounded
func spec_Style_RGB(s Style, r, g, b uint8) {
	hex := func(x uint8) string {
		h := strconv.FormatUint(uint64(x), 16)
		if len(h) < 2 {
			h = "0" + h
		}
		return h
	}
	c := termenv.RGBColor("#" + hex(r) + hex(g) + hex(b))
	vc.Ensures("RGB", s.RGB(r, g, b) == vcWithFg(s, c))
	vc.Ensures("OnRGB", s.OnRGB(r, g, b) == vcWithBg(s, c))
}

//vc:prop C11
func spec_Splitted_Unwrap(s Splitted) {
	vc.Requires(len(s) >= 4)
	a := s.Unwrap()
	b, c := s.Unwrap2()
	d, e, f := s.Unwrap3()
	g, h, i, j := s.Unwrap4()
	vc.Ensures("the rectangles in order", a == s[0] && b == s[0] && c == s[1] && d == s[0] && e == s[1] && f == s[2] && g == s[0] && h == s[1] && i == s[2] && j == s[3])
}
