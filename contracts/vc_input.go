package bento

import (
	"context"
	"io"
	"strconv"
	"unicode/utf8"

	"github.com/metafates/bento/internal/vc"
)

// vcKeys are the documented key sequences (xterm, vt100, urxvt, linux console, powershell).
var vcKeys = []struct {
	seq string
	typ KeyType
	alt bool
}{
	{"\x1b[A", KeyUp, false},
	{"\x1b[B", KeyDown, false},
	{"\x1b[C", KeyRight, false},
	{"\x1b[D", KeyLeft, false},
	{"\x1b[1;2A", KeyShiftUp, false},
	{"\x1b[1;2B", KeyShiftDown, false},
	{"\x1b[1;2C", KeyShiftRight, false},
	{"\x1b[1;2D", KeyShiftLeft, false},
	{"\x1b[OA", KeyShiftUp, false},
	{"\x1b[OB", KeyShiftDown, false},
	{"\x1b[OC", KeyShiftRight, false},
	{"\x1b[OD", KeyShiftLeft, false},
	{"\x1b[a", KeyShiftUp, false},
	{"\x1b[b", KeyShiftDown, false},
	{"\x1b[c", KeyShiftRight, false},
	{"\x1b[d", KeyShiftLeft, false},
	{"\x1b[1;3A", KeyUp, true},
	{"\x1b[1;3B", KeyDown, true},
	{"\x1b[1;3C", KeyRight, true},
	{"\x1b[1;3D", KeyLeft, true},
	{"\x1b[1;4A", KeyShiftUp, true},
	{"\x1b[1;4B", KeyShiftDown, true},
	{"\x1b[1;4C", KeyShiftRight, true},
	{"\x1b[1;4D", KeyShiftLeft, true},
	{"\x1b[1;5A", KeyCtrlUp, false},
	{"\x1b[1;5B", KeyCtrlDown, false},
	{"\x1b[1;5C", KeyCtrlRight, false},
	{"\x1b[1;5D", KeyCtrlLeft, false},
	{"\x1b[Oa", KeyCtrlUp, true},
	{"\x1b[Ob", KeyCtrlDown, true},
	{"\x1b[Oc", KeyCtrlRight, true},
	{"\x1b[Od", KeyCtrlLeft, true},
	{"\x1b[1;6A", KeyCtrlShiftUp, false},
	{"\x1b[1;6B", KeyCtrlShiftDown, false},
	{"\x1b[1;6C", KeyCtrlShiftRight, false},
	{"\x1b[1;6D", KeyCtrlShiftLeft, false},
	{"\x1b[1;7A", KeyCtrlUp, true},
	{"\x1b[1;7B", KeyCtrlDown, true},
	{"\x1b[1;7C", KeyCtrlRight, true},
	{"\x1b[1;7D", KeyCtrlLeft, true},
	{"\x1b[1;8A", KeyCtrlShiftUp, true},
	{"\x1b[1;8B", KeyCtrlShiftDown, true},
	{"\x1b[1;8C", KeyCtrlShiftRight, true},
	{"\x1b[1;8D", KeyCtrlShiftLeft, true},
	{"\x1b[Z", KeyShiftTab, false},
	{"\x1b[2~", KeyInsert, false},
	{"\x1b[3;2~", KeyInsert, true},
	{"\x1b[3~", KeyDelete, false},
	{"\x1b[3;3~", KeyDelete, true},
	{"\x1b[5~", KeyPgUp, false},
	{"\x1b[5;3~", KeyPgUp, true},
	{"\x1b[5;5~", KeyCtrlPgUp, false},
	{"\x1b[5^", KeyCtrlPgUp, false},
	{"\x1b[5;7~", KeyCtrlPgUp, true},
	{"\x1b[6~", KeyPgDown, false},
	{"\x1b[6;3~", KeyPgDown, true},
	{"\x1b[6;5~", KeyCtrlPgDown, false},
	{"\x1b[6^", KeyCtrlPgDown, false},
	{"\x1b[6;7~", KeyCtrlPgDown, true},
	{"\x1b[1~", KeyHome, false},
	{"\x1b[H", KeyHome, false},
	{"\x1b[1;3H", KeyHome, true},
	{"\x1b[1;5H", KeyCtrlHome, false},
	{"\x1b[1;7H", KeyCtrlHome, true},
	{"\x1b[1;2H", KeyShiftHome, false},
	{"\x1b[1;4H", KeyShiftHome, true},
	{"\x1b[1;6H", KeyCtrlShiftHome, false},
	{"\x1b[1;8H", KeyCtrlShiftHome, true},
	{"\x1b[4~", KeyEnd, false},
	{"\x1b[F", KeyEnd, false},
	{"\x1b[1;3F", KeyEnd, true},
	{"\x1b[1;5F", KeyCtrlEnd, false},
	{"\x1b[1;7F", KeyCtrlEnd, true},
	{"\x1b[1;2F", KeyShiftEnd, false},
	{"\x1b[1;4F", KeyShiftEnd, true},
	{"\x1b[1;6F", KeyCtrlShiftEnd, false},
	{"\x1b[1;8F", KeyCtrlShiftEnd, true},
	{"\x1b[7~", KeyHome, false},
	{"\x1b[7^", KeyCtrlHome, false},
	{"\x1b[7$", KeyShiftHome, false},
	{"\x1b[7@", KeyCtrlShiftHome, false},
	{"\x1b[8~", KeyEnd, false},
	{"\x1b[8^", KeyCtrlEnd, false},
	{"\x1b[8$", KeyShiftEnd, false},
	{"\x1b[8@", KeyCtrlShiftEnd, false},
	{"\x1b[[A", KeyF1, false},
	{"\x1b[[B", KeyF2, false},
	{"\x1b[[C", KeyF3, false},
	{"\x1b[[D", KeyF4, false},
	{"\x1b[[E", KeyF5, false},
	{"\x1bOP", KeyF1, false},
	{"\x1bOQ", KeyF2, false},
	{"\x1bOR", KeyF3, false},
	{"\x1bOS", KeyF4, false},
	{"\x1b[1;3P", KeyF1, true},
	{"\x1b[1;3Q", KeyF2, true},
	{"\x1b[1;3R", KeyF3, true},
	{"\x1b[1;3S", KeyF4, true},
	{"\x1b[11~", KeyF1, false},
	{"\x1b[12~", KeyF2, false},
	{"\x1b[13~", KeyF3, false},
	{"\x1b[14~", KeyF4, false},
	{"\x1b[15~", KeyF5, false},
	{"\x1b[15;3~", KeyF5, true},
	{"\x1b[17~", KeyF6, false},
	{"\x1b[18~", KeyF7, false},
	{"\x1b[19~", KeyF8, false},
	{"\x1b[20~", KeyF9, false},
	{"\x1b[21~", KeyF10, false},
	{"\x1b[17;3~", KeyF6, true},
	{"\x1b[18;3~", KeyF7, true},
	{"\x1b[19;3~", KeyF8, true},
	{"\x1b[20;3~", KeyF9, true},
	{"\x1b[21;3~", KeyF10, true},
	{"\x1b[23~", KeyF11, false},
	{"\x1b[24~", KeyF12, false},
	{"\x1b[23;3~", KeyF11, true},
	{"\x1b[24;3~", KeyF12, true},
	{"\x1b[1;2P", KeyF13, false},
	{"\x1b[1;2Q", KeyF14, false},
	{"\x1b[25~", KeyF13, false},
	{"\x1b[26~", KeyF14, false},
	{"\x1b[25;3~", KeyF13, true},
	{"\x1b[26;3~", KeyF14, true},
	{"\x1b[1;2R", KeyF15, false},
	{"\x1b[1;2S", KeyF16, false},
	{"\x1b[28~", KeyF15, false},
	{"\x1b[29~", KeyF16, false},
	{"\x1b[28;3~", KeyF15, true},
	{"\x1b[29;3~", KeyF16, true},
	{"\x1b[15;2~", KeyF17, false},
	{"\x1b[17;2~", KeyF18, false},
	{"\x1b[18;2~", KeyF19, false},
	{"\x1b[19;2~", KeyF20, false},
	{"\x1b[31~", KeyF17, false},
	{"\x1b[32~", KeyF18, false},
	{"\x1b[33~", KeyF19, false},
	{"\x1b[34~", KeyF20, false},
	{"\x1bOA", KeyUp, false},
	{"\x1bOB", KeyDown, false},
	{"\x1bOC", KeyRight, false},
	{"\x1bOD", KeyLeft, false},
}

func vcIsKey(m Msg, typ KeyType, alt bool) bool {
	k, ok := m.(KeyMsg)
	return ok && k.Type == typ && k.Alt == alt && !k.Paste
}

// vcBytes is terminal input.
type vcBytes []byte

// vcText is printable text.
type vcText string

var _ = vc.Register(func(r *vc.R) vcBytes {
	var b []byte
	for k := 1 + r.Intn(r.Size+1); k > 0; k-- {
		switch r.Intn(12) {
		case 0, 1:
			b = append(b, vcKeys[r.Intn(len(vcKeys))].seq...)
		case 2:
			b = append(b, byte(r.Intn(256)))
		case 3:
			b = append(b, 0x1b)
		case 4:
			b = append(b, "\x1b["...)
		case 5:
			b = append(b, r.Str()...)
		case 6:
			b = append(b, vc.Pick(r, "\x1b[200~", "\x1b[201~", "\x1b[I", "\x1b[O", "\x1b[M", "\x1b[<", "\x1bO")...)
		case 7:
			b = append(b, "\x1b[<"+strconv.Itoa(r.Intn(300))+";"+strconv.Itoa(r.Intn(300))+";"+strconv.Itoa(r.Intn(300))+vc.Pick(r, "M", "m", "x", "")...)
		case 8:
			b = append(b, byte(r.Intn(32)))
		case 9:
			b = append(b, vc.Pick(r, "0", "1", ";", "~", "M", "m", "<", "[", "O", " ")...)
		case 10:
			s := vcKeys[r.Intn(len(vcKeys))].seq
			b = append(b, s[:r.Intn(len(s)+1)]...)
		default:
			b = append(b, byte(' '+r.Intn(95)))
		}
	}
	return b
})

var _ = vc.Register(func(r *vc.R) vcText {
	s := ""
	n := r.Intn(r.Size + 2)
	if r.Intn(12) == 0 {
		n = 100 + r.Intn(400)
	}
	for ; n > 0; n-- {
		switch r.Intn(8) {
		case 0:
			s += string(rune(0xa0 + r.Intn(0x2000)))
		case 1:
			s += vc.Pick(r, "界", "😀", "é", "\ufffd", "\u0301", "─")
		case 2:
			s += " "
		default:
			s += string(rune(' ' + r.Intn(95)))
		}
	}
	return vcText(s)
})

func vcPrintableText(s string) bool {
	for _, r := range s {
		if r < ' ' || r == 0x7f {
			return false
		}
	}
	return utf8.ValidString(s)
}

// vcOpenPaste: the input starts a bracketed paste that it does not end.
func vcOpenPaste(b []byte) bool {
	const start, end = "\x1b[200~", "\x1b[201~"
	s := string(b)
	if len(s) < len(start) || s[:len(start)] != start {
		return false
	}
	for i := len(start); i+len(end) <= len(s); i++ {
		if s[i:i+len(end)] == end {
			return false
		}
	}
	return true
}

//vc:prop C09
//vc:bounded
func spec_detectOneMsg(b vcBytes, more bool) {
	vc.Requires(len(b) > 0)
	was := string(b)
	w, msg := detectOneMsg(b, more)
	vc.Ensures("the input is left alone", string(b) == was)
	vc.Ensures("at most the bytes that are there", 0 <= w && w <= len(b))
	if vcOpenPaste(b) {
		vc.Ensures("an unfinished paste waits for its end", w == 0)
	} else if !more {
		vc.Ensures("at least one byte", w > 0)
	}
	if w > 0 {
		vc.Ensures("a message", msg != nil)
		if k, ok := msg.(KeyMsg); ok && k.Type == KeyRunes && !k.Paste {
			text := string(k.Runes)
			at := w - len(text)
			vc.Ensures("runes are the bytes consumed", len(k.Runes) > 0 && at >= 0 && string(b[at:w]) == text && (at == 0 && !k.Alt || at == 1 && k.Alt && b[0] == 0x1b))
			vc.Ensures("alt goes with one rune", !k.Alt || len(k.Runes) == 1)
			for _, r := range k.Runes {
				vc.Ensures("control bytes are keys of their own", r > 0x1f && r != 0x7f)
			}
		}
		if k, ok := msg.(unknownCSISequenceMsg); ok {
			vc.Ensures("an unknown sequence is reported as it is", string(k) == string(b[:w]))
		}
		if k, ok := msg.(unknownInputByteMsg); ok {
			vc.Ensures("an unknown byte is reported as it is", w == 1 && byte(k) == b[0])
		}
	}
}

//vc:prop C09
//vc:bounded
func spec_keys(n int, c byte, more bool) {
	k := vcKeys[n%len(vcKeys)*(1-2*b2i(n < 0))]
	w, msg := detectOneMsg([]byte(k.seq), more)
	vc.Ensures("a documented key sequence is that key", w == len(k.seq) && vcIsKey(msg, k.typ, k.alt))
	if !k.alt {
		w, msg = detectOneMsg([]byte("\x1b"+k.seq), more)
		vc.Ensures("an escape before it is alt", w == len(k.seq)+1 && vcIsKey(msg, k.typ, true))
	}
	c &= 31
	if c == 0x1b {
		w, msg = detectOneMsg([]byte{c}, false)
		vc.Ensures("a lone escape is the escape key", w == 1 && vcIsKey(msg, KeyEscape, false))
		c = 0x7f
	}
	w, msg = detectOneMsg([]byte{c}, more)
	vc.Ensures("a control byte is its control key", w == 1 && vcIsKey(msg, KeyType(c), false))
	w, msg = detectOneMsg([]byte{0x1b, c}, more)
	vc.Ensures("an escape before a control byte is alt", w == 2 && vcIsKey(msg, KeyType(c), true))
	w, msg = detectOneMsg([]byte(" "), more)
	vc.Ensures("the space key", w == 1 && vcIsKey(msg, KeySpace, false) && string(msg.(KeyMsg).Runes) == " ")
}

//vc:prop C09
//vc:bounded
func spec_all_keys() {
	for i, k := range vcKeys {
		spec_keys(i, byte(i), i%2 == 0)
		m := KeyMsg{Type: k.typ, Alt: k.alt}
		vc.Ensures("keys have a name", m.String() != "" && m.String() != "alt+")
	}
	vc.Ensures("as many keys as documented", len(sequences) == len(vcKeys))
}

func b2i(b bool) int {
	if b {
		return 1
	}
	return 0
}

//vc:prop C09
//vc:bounded
func spec_printable_text(s vcText, esc bool) {
	vc.Requires(len(s) > 0 && vcPrintableText(string(s)))
	b := []byte(s)
	got := ""
	for len(b) > 0 {
		w, msg := detectOneMsg(b, false)
		vc.Ensures("every step consumes bytes", 0 < w && w <= len(b))
		k, ok := msg.(KeyMsg)
		vc.Ensures("text is keys", ok && !k.Alt && !k.Paste && (k.Type == KeyRunes || k.Type == KeySpace))
		got += string(k.Runes)
		b = b[w:]
	}
	vc.Ensures("the keys spell the text", got == string(s))
}

// Text that ends at a control byte in the same chunk.
//
//vc:prop C09
//vc:bounded
func spec_text_before_control(s vcText, c byte, esc bool) {
	vc.Requires(len(s) > 0 && vcPrintableText(string(s)))
	c &= 31
	if c == 0x1b {
		c = 0x7f
	}
	b := append([]byte(s), c)
	if esc {
		b[len(s)] = 0x1b
		b = append(b, "[A"...)
	}
	got, at := "", 0
	for at < len(s) {
		w, msg := detectOneMsg(b[at:], false)
		k, ok := msg.(KeyMsg)
		vc.Ensures("the text is reported up to the control byte", ok && !k.Alt && !k.Paste && (k.Type == KeyRunes || k.Type == KeySpace) && w > 0 && w <= len(s)-at)
		got += string(k.Runes)
		at += w
	}
	vc.Ensures("the keys spell the text", got == string(s))
	w, msg := detectOneMsg(b[at:], false)
	if esc {
		vc.Ensures("then the key sequence", w == 3 && vcIsKey(msg, KeyUp, false))
	} else {
		vc.Ensures("then the control key", w == 1 && vcIsKey(msg, KeyType(c), false))
	}
}

//vc:prop C09
//vc:bounded
func spec_paste(s vcText, after vcBytes) {
	text := string(s)
	b := append([]byte("\x1b[200~"+text+"\x1b[201~"), after...)
	w, msg := detectOneMsg(b, false)
	k, ok := msg.(KeyMsg)
	vc.Ensures("a paste is one key message", ok && w == len(text)+12 && k.Type == KeyRunes && k.Paste && !k.Alt)
	vc.Ensures("with the pasted text", string(k.Runes) == text)
}

// vcReader delivers the bytes in full reads, like a terminal that has them all ready.
type vcReader struct{ b []byte }

func (r *vcReader) Read(p []byte) (int, error) {
	if len(r.b) == 0 {
		return 0, io.EOF
	}
	n := copy(p, r.b)
	r.b = r.b[n:]
	return n, nil
}

func vcReadAll(b []byte) (msgs []Msg, err error) {
	ch := make(chan Msg)
	done := make(chan error, 1)
	go func() { done <- readAnsiInputs(context.Background(), ch, &vcReader{b: append([]byte{}, b...)}) }()
	for {
		select {
		case m := <-ch:
			msgs = append(msgs, m)
		case err := <-done:
			return msgs, err
		}
	}
}

//vc:prop C09
//vc:bounded
//vc:maxsize 30
func spec_readAnsiInputs(s vcText) {
	vc.Requires(len(s) > 0 && len(s)%256 != 0 && vcPrintableText(string(s)))
	msgs, err := vcReadAll([]byte(s))
	vc.Ensures("the end of the input is reported", err != nil)
	got := ""
	for _, m := range msgs {
		k, ok := m.(KeyMsg)
		vc.Ensures("text is keys", ok && (k.Type == KeyRunes || k.Type == KeySpace))
		got += string(k.Runes)
	}
	vc.Ensures("the keys spell the text", got == string(s))
}

//vc:prop C09
//vc:bounded
//vc:maxsize 120
func spec_readAnsiInputs_keys(n, d int, t uint16) {
	var b []byte
	var want []int
	for i := 0; i < 40+d*d; i++ {
		k := (n*n + i*(1+d*d)*7 + int(t)) % len(vcKeys)
		b = append(b, vcKeys[k].seq...)
		want = append(want, k)
	}
	vc.Requires(len(b)%256 != 0)
	msgs, _ := vcReadAll(b)
	vc.Ensures("one message per key", len(msgs) == len(want))
	for i, k := range want {
		vc.Ensures("the keys in order", vcIsKey(msgs[i], vcKeys[k].typ, vcKeys[k].alt))
	}
}

// vcMouse is the event that a button code (of the SGR encoding) states.
func vcMouse(code int, release bool) MouseEvent {
	var m MouseEvent
	m.Shift, m.Alt, m.Ctrl = code&4 != 0, code&8 != 0, code&16 != 0
	low := MouseButton(code & 3)
	switch {
	case code&128 != 0:
		m.Button = MouseButtonBackward + low
	case code&64 != 0:
		m.Button = MouseButtonWheelUp + low
		return m
	case low == 3:
		m.Button, m.Action = MouseButtonNone, MouseActionRelease
	default:
		m.Button = MouseButtonLeft + low
	}
	if release {
		m.Action = MouseActionRelease
	}
	if code&32 != 0 {
		m.Action = MouseActionMotion
	}
	return m
}

//vc:prop C10
//vc:aux
//vc:target parseMouseButton
func spec_parseMouseButton(code uint8, sgr bool) {
	b := int(code)
	if !sgr {
		b += 32
	}
	m := parseMouseButton(b, sgr)
	want := vcMouse(int(code), false)
	vc.Ensures("the button", m.Button == want.Button)
	vc.Ensures("the action", m.Action == want.Action)
	vc.Ensures("the modifiers", m.Shift == want.Shift && m.Alt == want.Alt && m.Ctrl == want.Ctrl)
	vc.Ensures("a wheel event is a press", !m.IsWheel() || m.Action == MouseActionPress)
}

//vc:prop C10
//vc:aux
//vc:target parseX10MouseEvent
func spec_parseX10MouseEvent(buf []byte) {
	vc.Requires(len(buf) >= 6 && buf[3] >= 32)
	code, x, y := int(buf[3])-32, int(buf[4]), int(buf[5])
	m := parseX10MouseEvent(buf)
	want := vcMouse(code, false)
	vc.Ensures("the position", m.X == x-33 && m.Y == y-33)
	vc.Ensures("the button", m.Button == want.Button)
	vc.Ensures("the action", m.Action == want.Action)
	vc.Ensures("the modifiers", m.Shift == want.Shift && m.Alt == want.Alt && m.Ctrl == want.Ctrl)
}

//vc:prop C10
//vc:bounded
func spec_mouse_SGR(code uint8, x, y uint16, release bool, after vcBytes, more bool) {
	vc.Requires(x > 0 && y > 0)
	s := "\x1b[<" + strconv.Itoa(int(code)) + ";" + strconv.Itoa(int(x)) + ";" + strconv.Itoa(int(y))
	if release {
		s += "m"
	} else {
		s += "M"
	}
	w, msg := detectOneMsg(append([]byte(s), after...), more)
	m, ok := msg.(MouseMsg)
	vc.Ensures("a report is one mouse event", ok && w == len(s))
	want := vcMouse(int(code), release)
	want.X, want.Y = int(x)-1, int(y)-1
	vc.Ensures("the position", m.X == want.X && m.Y == want.Y)
	vc.Ensures("the button", m.Button == want.Button)
	vc.Ensures("the action", m.Action == want.Action)
	vc.Ensures("the modifiers", m.Shift == want.Shift && m.Alt == want.Alt && m.Ctrl == want.Ctrl)
	vc.Ensures("a wheel event is a press", !MouseEvent(m).IsWheel() || m.Action == MouseActionPress)
}

//vc:prop C10
//vc:bounded
func spec_mouse_X10(code, x, y uint8, after vcBytes, more bool) {
	vc.Requires(code >= 32 && x > 32 && y > 32)
	w, msg := detectOneMsg(append([]byte{0x1b, '[', 'M', code, x, y}, after...), more)
	m, ok := msg.(MouseMsg)
	vc.Ensures("a report is one mouse event", ok && w == 6)
	want := vcMouse(int(code)-32, false)
	want.X, want.Y = int(x)-33, int(y)-33
	vc.Ensures("the position", m.X == want.X && m.Y == want.Y)
	vc.Ensures("the button", m.Button == want.Button)
	vc.Ensures("the action", m.Action == want.Action)
	vc.Ensures("the modifiers", m.Shift == want.Shift && m.Alt == want.Alt && m.Ctrl == want.Ctrl)
	vc.Ensures("a wheel event is a press", !MouseEvent(m).IsWheel() || m.Action == MouseActionPress)
}

//vc:prop C10
func spec_mouse_IsWheel(m MouseEvent) {
	vc.Ensures("wheel buttons", m.IsWheel() == (m.Button >= MouseButtonWheelUp && m.Button <= MouseButtonWheelRight))
}
