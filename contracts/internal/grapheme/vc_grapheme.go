package grapheme

import (
	"unicode"

	"github.com/metafates/bento/internal/vc"
)

// VcSpace: a character that separates words.
func VcSpace(s string) bool {
	return s == "\u200b" || s != "\u00a0" && vc.EveryRune(s, func(r rune) bool { return unicode.IsSpace(r) })
}

//vc:prop C15 C16
//vc:use
//vc:target (Grapheme).IsWhitespace
func spec_IsWhitespace(g Grapheme) bool {
	vc.Invariant(func(n vc.Iter) bool {
		return vc.FirstRunes(g.symbol, int(n), func(r rune) bool { return unicode.IsSpace(r) })
	})
	b := g.IsWhitespace()
	vc.Ensures("white space is a zero-width space, or all space and not a no-break space", b == VcSpace(g.symbol))
	return b
}
