package vc

import (
	"strconv"
	"strings"

	"github.com/rivo/uniseg"
)

// Tok is one thing a terminal reads: a printed grapheme cluster (Text) or a control sequence
// introduced by ESC [ (Seq is its private marker and final byte, Args its parameters - for SGR one
// per attribute or colour selection - and A, B the first two as numbers).
type Tok struct {
	Text string
	Seq  string
	Args []string
	A, B int
}

// Tokens splits terminal output; rest is an unfinished control sequence at the end.
func Tokens(s string) (toks []Tok, rest string) {
	for len(s) > 0 {
		if s[0] != 0x1b {
			n := strings.IndexByte(s, 0x1b)
			if n < 0 {
				n = len(s)
			}
			g := uniseg.NewGraphemes(s[:n])
			for g.Next() {
				toks = append(toks, Tok{Text: g.Str()})
			}
			s = s[n:]
			continue
		}
		if len(s) < 2 {
			return toks, s
		}
		if s[1] != '[' {
			toks = append(toks, Tok{Seq: s[:2]})
			s = s[2:]
			continue
		}
		i := 2
		for i < len(s) && s[i] < 0x40 && s[i] >= 0x20 {
			i++
		}
		if i == len(s) {
			return toks, s
		}
		body, final := s[2:i], s[i:i+1]
		s = s[i+1:]
		t := Tok{}
		if len(body) > 0 && body[0] >= 0x3c && body[0] <= 0x3f {
			t.Seq, body = body[:1], body[1:]
		}
		t.Seq += final
		if body != "" {
			t.Args = strings.Split(body, ";")
			t.A, _ = strconv.Atoi(t.Args[0])
			if len(t.Args) > 1 {
				t.B, _ = strconv.Atoi(t.Args[1])
			}
		}
		if t.Seq == "m" {
			var units []string
			for k := 0; k < len(t.Args); k++ {
				n := 1
				if t.Args[k] == "38" || t.Args[k] == "48" {
					if k+1 < len(t.Args) && t.Args[k+1] == "5" {
						n = 3
					} else if k+1 < len(t.Args) && t.Args[k+1] == "2" {
						n = 5
					}
				}
				n = min(n, len(t.Args)-k)
				units = append(units, strings.Join(t.Args[k:k+n], ";"))
				k += n - 1
			}
			t.Args = units
		}
		toks = append(toks, t)
	}
	return toks, ""
}

// Plain reports that s is one visible grapheme cluster without control bytes.
func Plain(s string) bool {
	for i := 0; i < len(s); i++ {
		if s[i] < 0x20 || s[i] == 0x7f {
			return false
		}
	}
	return uniseg.GraphemeClusterCount(s) == 1 && uniseg.StringWidth(s) > 0
}

// OneSGR reports that u is the text of exactly one attribute or colour selection.
func OneSGR(u string) bool {
	toks, rest := Tokens("\x1b[" + u + "m")
	return u != "" && rest == "" && len(toks) == 1 && toks[0].Seq == "m" && len(toks[0].Args) == 1 && toks[0].Args[0] == u
}
