From 13b5c7d4dcc367320f5234a4db0866ddc188d352 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:58:13 +0000
Subject: [PATCH 01/37] fix: Padding.WithLeft sets the left side, not the
 bottom

---
 padding.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/padding.go b/padding.go
index ba0906c..7a59a52 100644
--- a/padding.go
+++ b/padding.go
@@ -49,6 +49,6 @@ func (p Padding) WithBottom(s int) Padding {
 }
 
 func (p Padding) WithLeft(s int) Padding {
-	p.Bottom = s
+	p.Left = s
 	return p
 }
-- 
2.43.0


From aa62f1b3ec87c6e3a6bd8383fb1428315210dc50 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:11:39 +0000
Subject: [PATCH 02/37] fix: SetStringN skips zero-width graphemes and stops at
 one that does not fit

---
 buffer.go | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/buffer.go b/buffer.go
index 9c33822..4078a63 100644
--- a/buffer.go
+++ b/buffer.go
@@ -113,6 +113,14 @@ func (b *Buffer) SetStringN(x, y int, value string, maxWidth int, style Style) (
 		symbol := graphemes.Str()
 		width := graphemes.Width()
 
+		if width == 0 {
+			continue
+		}
+
+		if width > remainingWidth {
+			break
+		}
+
 		remainingWidth -= width
 
 		b.CellAt(Position{x, y}).SetSymbol(symbol).SetStyle(style)
-- 
2.43.0


From 8d9eb165966d06e63e0b6358bf8ae2127bf3b175 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:42:40 +0000
Subject: [PATCH 03/37] fix: SetColors writes the colors that are set and skips
 empty sequences

---
 internal/ansi/command.go | 28 ++++++++++++++++++++--------
 1 file changed, 20 insertions(+), 8 deletions(-)

diff --git a/internal/ansi/command.go b/internal/ansi/command.go
index 25d2aa8..5cf84a2 100644
--- a/internal/ansi/command.go
+++ b/internal/ansi/command.go
@@ -4,6 +4,7 @@ import (
 	"fmt"
 	"io"
 	"strconv"
+	"strings"
 
 	"github.com/muesli/termenv"
 )
@@ -60,16 +61,27 @@ var _ Command = (*SetColors)(nil)
 type SetColors Colors
 
 func (c SetColors) WriteANSI(w io.Writer) error {
-	switch {
-	case c.Foreground != nil && c.Background != nil:
-		return write(w, CSI+c.Foreground.Sequence(false)+";"+c.Background.Sequence(true)+"m")
-	case c.Foreground == nil && c.Background != nil:
-		return write(w, CSI+c.Foreground.Sequence(false)+"m")
-	case c.Foreground != nil && c.Background == nil:
-		return write(w, CSI+c.Background.Sequence(true)+"m")
-	default:
+	var params []string
+
+	// An empty sequence stands for no color at all. It must not end up between
+	// the parameters, where terminals would take it for a reset of all attributes.
+	if c.Foreground != nil {
+		if sequence := c.Foreground.Sequence(false); sequence != "" {
+			params = append(params, sequence)
+		}
+	}
+
+	if c.Background != nil {
+		if sequence := c.Background.Sequence(true); sequence != "" {
+			params = append(params, sequence)
+		}
+	}
+
+	if len(params) == 0 {
 		return nil
 	}
+
+	return write(w, CSI+strings.Join(params, ";")+"m")
 }
 
 var _ Command = (*Print)(nil)
-- 
2.43.0


From d3321f17b288582e6c4c51e6d9b578b7c84dfe36 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:42:41 +0000
Subject: [PATCH 04/37] fix: draw cells whose color the terminal cannot show in
 the default color

---
 terminal_backend.go | 15 +++++++++++++--
 1 file changed, 13 insertions(+), 2 deletions(-)

diff --git a/terminal_backend.go b/terminal_backend.go
index 42a61b4..4135598 100644
--- a/terminal_backend.go
+++ b/terminal_backend.go
@@ -171,8 +171,8 @@ func (d *DefaultBackend) Draw(cells []PositionedCell) error {
 
 		if cell.Fg != fg || cell.Bg != bg {
 			if err := d.queue(ansi.SetColors(ansi.Colors{
-				Foreground: d.colorProfile.Convert(cell.Fg),
-				Background: d.colorProfile.Convert(cell.Bg),
+				Foreground: d.convertColor(cell.Fg),
+				Background: d.convertColor(cell.Bg),
 			})); err != nil {
 				return fmt.Errorf("queue: %w", err)
 			}
@@ -199,6 +199,17 @@ func (d *DefaultBackend) Draw(cells []PositionedCell) error {
 	return nil
 }
 
+// convertColor returns the color to show under the color profile of the terminal.
+// It is the default color when the profile has none for it.
+func (d *DefaultBackend) convertColor(color Color) Color {
+	converted := d.colorProfile.Convert(color)
+	if converted == nil || converted.Sequence(false) == "" {
+		return ResetColor{}
+	}
+
+	return converted
+}
+
 // Flush implements TerminalBackend.
 func (d *DefaultBackend) Flush() error {
 	return d.outputBuf.Flush()
-- 
2.43.0


From c8eab5197c3e37dffaf0e6d94f568417e1c09eef Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:42:42 +0000
Subject: [PATCH 05/37] fix: turn the hidden and blink attributes on and off

---
 terminal_backend.go | 16 ++++++++++++++++
 1 file changed, 16 insertions(+)

diff --git a/terminal_backend.go b/terminal_backend.go
index 4135598..c37e0fa 100644
--- a/terminal_backend.go
+++ b/terminal_backend.go
@@ -347,6 +347,18 @@ func (d _StyleModifierDiff) queue(w io.Writer) error {
 
 	if removed.Contains(ModifierSlowBlink) || removed.Contains(ModifierRapidBlink) {
 		cmds = append(cmds, ansi.SetAttribute(ansi.AttrNoBlink))
+
+		if d.To.Contains(ModifierSlowBlink) {
+			cmds = append(cmds, ansi.SetAttribute(ansi.AttrSlowBlink))
+		}
+
+		if d.To.Contains(ModifierRapidBlink) {
+			cmds = append(cmds, ansi.SetAttribute(ansi.AttrRapidBlink))
+		}
+	}
+
+	if removed.Contains(ModifierHidden) {
+		cmds = append(cmds, ansi.SetAttribute(ansi.AttrNoHidden))
 	}
 
 	added := bit.Difference(d.To, d.From)
@@ -383,6 +395,10 @@ func (d _StyleModifierDiff) queue(w io.Writer) error {
 		cmds = append(cmds, ansi.SetAttribute(ansi.AttrRapidBlink))
 	}
 
+	if added.Contains(ModifierHidden) {
+		cmds = append(cmds, ansi.SetAttribute(ansi.AttrHidden))
+	}
+
 	if err := queue(w, cmds...); err != nil {
 		return fmt.Errorf("queue: %w", err)
 	}
-- 
2.43.0


From 6a95f0a2d6e3931af5528a3279363cd88c3854e4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:46:57 +0000
Subject: [PATCH 06/37] fix: accept an encoded replacement character in typed
 and pasted text

---
 input.go | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/input.go b/input.go
index 4490cb3..79af71d 100644
--- a/input.go
+++ b/input.go
@@ -673,7 +673,7 @@ func detectOneMsg(b []byte, canHaveMoreData bool) (w int, msg Msg) {
 	for rw := 0; i < len(b); i += rw {
 		var r rune
 		r, rw = utf8.DecodeRune(b[i:])
-		if r == utf8.RuneError || r <= rune(keyUS) || r == rune(keyDEL) || r == ' ' {
+		if r == utf8.RuneError && rw <= 1 || r <= rune(keyUS) || r == rune(keyDEL) || r == ' ' {
 			// Rune errors are handled below; control characters and spaces will
 			// be handled by detectSequence in the next call to detectOneMsg.
 			break
@@ -763,7 +763,7 @@ func detectBracketedPaste(input []byte) (hasBp bool, width int, msg Msg) {
 	k := Key{Type: KeyRunes, Paste: true}
 	for len(paste) > 0 {
 		r, w := utf8.DecodeRune(paste)
-		if r != utf8.RuneError {
+		if r != utf8.RuneError || w > 1 {
 			k.Runes = append(k.Runes, r)
 		}
 		paste = paste[w:]
-- 
2.43.0


From 9c7a6b433591fa21c7e5cfc2da799f91857d0adf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:46:58 +0000
Subject: [PATCH 07/37] fix: wait for the rest of a rune that is split across
 reads

---
 input.go | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/input.go b/input.go
index 79af71d..a56131f 100644
--- a/input.go
+++ b/input.go
@@ -685,6 +685,10 @@ func detectOneMsg(b []byte, canHaveMoreData bool) (w int, msg Msg) {
 			break
 		}
 	}
+	if canHaveMoreData && len(runes) == 0 && !utf8.FullRune(b[i:]) {
+		// The bytes of a rune are split across reads. Wait for the rest of it.
+		return 0, nil
+	}
 	if i >= len(b) && canHaveMoreData {
 		// We have encountered the end of the input buffer. Alas, we can't
 		// be sure whether the data in the remainder of the buffer is
-- 
2.43.0


From 0a8e18f031f63816a4dcf569bcc7338c3db88dc9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:46:59 +0000
Subject: [PATCH 08/37] fix: wait for the rest of an escape sequence that is
 split across reads

---
 input.go | 31 +++++++++++++++++++++++++++++++
 1 file changed, 31 insertions(+)

diff --git a/input.go b/input.go
index a56131f..d6e721d 100644
--- a/input.go
+++ b/input.go
@@ -609,6 +609,7 @@ loop:
 }
 
 var (
+	partialCSIRe  = regexp.MustCompile(`^\x1b\[[\x30-\x3f]*[\x20-\x2f]*$`)
 	unknownCSIRe  = regexp.MustCompile(`^\x1b\[[\x30-\x3f]*[\x20-\x2f]*[\x40-\x7e]`)
 	mouseSGRRegex = regexp.MustCompile(`(\d+);(\d+);(\d+)([Mm])`)
 )
@@ -617,6 +618,12 @@ func detectOneMsg(b []byte, canHaveMoreData bool) (w int, msg Msg) {
 	// Detect mouse events.
 	// X10 mouse events have a length of 6 bytes
 	const mouseEventX10Len = 6
+
+	if canHaveMoreData && isPartialSequence(b, mouseEventX10Len) {
+		// The sequence is split across reads. Wait for the rest of it.
+		return 0, nil
+	}
+
 	if len(b) >= mouseEventX10Len && b[0] == '\x1b' && b[1] == '[' {
 		switch b[2] {
 		case 'M':
@@ -720,6 +727,30 @@ func detectOneMsg(b []byte, canHaveMoreData bool) (w int, msg Msg) {
 	return 1, unknownInputByteMsg(b[0])
 }
 
+// isPartialSequence reports whether the input ends before the escape sequence
+// it starts with is complete.
+func isPartialSequence(input []byte, mouseEventX10Len int) bool {
+	if partialCSIRe.Match(input) {
+		return true
+	}
+
+	if bytes.HasPrefix(input, []byte("\x1b[M")) && len(input) < mouseEventX10Len {
+		return true
+	}
+
+	if len(input) >= seqLengths[0] {
+		return false
+	}
+
+	for seq := range extSequences {
+		if len(seq) > len(input) && strings.HasPrefix(seq, string(input)) {
+			return true
+		}
+	}
+
+	return false
+}
+
 // detectReportFocus detects a focus report sequence.
 // nolint: gomnd
 func detectReportFocus(input []byte) (hasRF bool, width int, msg Msg) {
-- 
2.43.0


From 45327a5dbef1eaeb27fb5282e3c13bee5ff07e70 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:49:39 +0000
Subject: [PATCH 09/37] fix: solver symbols must not collide: count them with
 64 bits

A layout with about 25 or more constraints created more than 255 solver
symbols; the 8-bit counter wrapped around, so that splitting panicked or
mixed up unknowns.
---
 internal/casso/casso.go  | 2 +-
 internal/casso/solver.go | 4 ++--
 2 files changed, 3 insertions(+), 3 deletions(-)

diff --git a/internal/casso/casso.go b/internal/casso/casso.go
index 1487d5b..c04cd62 100644
--- a/internal/casso/casso.go
+++ b/internal/casso/casso.go
@@ -182,7 +182,7 @@ const (
 )
 
 type _Symbol struct {
-	Value uint8
+	Value uint64
 	Type  SymbolType
 }
 
diff --git a/internal/casso/solver.go b/internal/casso/solver.go
index fd223d3..51614b4 100644
--- a/internal/casso/solver.go
+++ b/internal/casso/solver.go
@@ -24,7 +24,7 @@ type _EditInfo struct {
 type _VariableData struct {
 	constant float64
 	symbol   _Symbol
-	id       uint8
+	id       uint64
 }
 
 type Solver struct {
@@ -39,7 +39,7 @@ type Solver struct {
 	infeasibleRows     []_Symbol
 	objective          _Row
 	artificial         *_Row
-	idTick             uint8
+	idTick             uint64
 }
 
 func NewSolver() Solver {
-- 
2.43.0


From fd0d0a19bb38f0959d5cacbf9fe8baaf92d5cbc8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:49:56 +0000
Subject: [PATCH 10/37] fix: concurrent calls of NewVariable must not return
 the same variable

The counter was read and incremented in two steps, so that two goroutines
could read the same value.
---
 internal/casso/casso.go | 4 +---
 1 file changed, 1 insertion(+), 3 deletions(-)

diff --git a/internal/casso/casso.go b/internal/casso/casso.go
index c04cd62..1deb70e 100644
--- a/internal/casso/casso.go
+++ b/internal/casso/casso.go
@@ -28,9 +28,7 @@ var _variableID = atomic.Uint64{}
 type Variable uint64
 
 func NewVariable() Variable {
-	defer _variableID.Add(1)
-
-	return Variable(_variableID.Load())
+	return Variable(_variableID.Add(1) - 1)
 }
 
 type Term struct {
-- 
2.43.0


From b96448a1dfc929c6033a77e99e010ab120b21828 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:51:49 +0000
Subject: [PATCH 11/37] fix: subtracting from an expression must not disturb an
 earlier difference

Sub and SubVariable appended to the operand's slice of terms, so that two
results computed from the same expression could share memory.
---
 internal/casso/operators.go | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/internal/casso/operators.go b/internal/casso/operators.go
index b110b63..59ddb2d 100644
--- a/internal/casso/operators.go
+++ b/internal/casso/operators.go
@@ -14,14 +14,14 @@ func (e Expression) SubConstant(other float64) Expression {
 func (e Expression) Sub(other Expression) Expression {
 	other = other.Negate()
 
-	e.Terms = append(e.Terms, other.Terms...)
+	e.Terms = append(slices.Clip(e.Terms), other.Terms...)
 	e.Constant += other.Constant
 
 	return e
 }
 
 func (e Expression) SubVariable(other Variable) Expression {
-	e.Terms = append(e.Terms, NewTerm(other, -1.0))
+	e.Terms = append(slices.Clip(e.Terms), NewTerm(other, -1.0))
 
 	return e
 }
-- 
2.43.0


From e539234d772e28d0a525962591a3aeb3d15278f1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:04:34 +0000
Subject: [PATCH 12/37] fix: round halves in one direction when laying out

Halves were rounded away from zero, so that on negative coordinates a
one-cell segment from -0.5 to 0.5 became two cells wide and the gaps
between segments grew.
---
 layout.go | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/layout.go b/layout.go
index f6f1b9c..0a93a54 100644
--- a/layout.go
+++ b/layout.go
@@ -218,8 +218,8 @@ func changesToRects(
 		start := changes[e.Start]
 		end := changes[e.End]
 
-		startRounded := int(math.Round(math.Round(start) / _floatPrecisionMultiplier))
-		endRounded := int(math.Round(math.Round(end) / _floatPrecisionMultiplier))
+		startRounded := int(math.Floor(math.Round(start)/_floatPrecisionMultiplier + 0.5))
+		endRounded := int(math.Floor(math.Round(end)/_floatPrecisionMultiplier + 0.5))
 
 		size := max(0, endRounded-startRounded)
 
-- 
2.43.0


From 49ee16e2111ccae1be09bf2c8dc03faefafd1967 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:13:23 +0000
Subject: [PATCH 13/37] fix: clear and fill only the cells that exist

Rendering them into an area that sticks out of the buffer panicked.
---
 widget/clearwidget/clear.go | 2 ++
 widget/fillwidget/fill.go   | 2 ++
 2 files changed, 4 insertions(+)

diff --git a/widget/clearwidget/clear.go b/widget/clearwidget/clear.go
index aba3f79..ffee83b 100644
--- a/widget/clearwidget/clear.go
+++ b/widget/clearwidget/clear.go
@@ -13,6 +13,8 @@ func New() Clear {
 }
 
 func (Clear) Render(area bento.Rect, buffer *bento.Buffer) {
+	area = area.Intersection(buffer.Area())
+
 	for x := area.Left(); x < area.Right(); x++ {
 		for y := area.Top(); y < area.Bottom(); y++ {
 			buffer.CellAt(bento.NewPosition(x, y)).Reset()
diff --git a/widget/fillwidget/fill.go b/widget/fillwidget/fill.go
index 81a0bf3..0d2fbb6 100644
--- a/widget/fillwidget/fill.go
+++ b/widget/fillwidget/fill.go
@@ -22,6 +22,8 @@ func (f Fill) WithStyle(style bento.Style) Fill {
 }
 
 func (f Fill) Render(area bento.Rect, buffer *bento.Buffer) {
+	area = area.Intersection(buffer.Area())
+
 	for x := area.Left(); x < area.Right(); x++ {
 		for y := area.Top(); y < area.Bottom(); y++ {
 			pos := bento.NewPosition(x, y)
-- 
2.43.0


From 26521858d410209531bbf8c5cf7e5ff6ff749343 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:13:25 +0000
Subject: [PATCH 14/37] fix: adding to a copy of a line, text, layout or block
 must not change another

WithSpans, WithSpansStr, WithLines, WithLinesStr, WithConstraints and
WithTitle appended in place, so that two values built from the same one
could overwrite each other's additions.
---
 layout.go                   | 3 ++-
 widget/blockwidget/block.go | 2 +-
 widget/textwidget/line.go   | 4 ++--
 widget/textwidget/text.go   | 6 ++++--
 4 files changed, 9 insertions(+), 6 deletions(-)

diff --git a/layout.go b/layout.go
index 0a93a54..a4324c4 100644
--- a/layout.go
+++ b/layout.go
@@ -3,6 +3,7 @@ package bento
 import (
 	"fmt"
 	"math"
+	"slices"
 
 	"github.com/metafates/bento/internal/casso"
 )
@@ -99,7 +100,7 @@ func (l Layout) WithSpacing(spacing Spacing) Layout {
 }
 
 func (l Layout) WithConstraints(constraints ...Constraint) Layout {
-	l.Constraints = append(l.Constraints, constraints...)
+	l.Constraints = append(slices.Clip(l.Constraints), constraints...)
 	return l
 }
 
diff --git a/widget/blockwidget/block.go b/widget/blockwidget/block.go
index 773d471..c87120f 100644
--- a/widget/blockwidget/block.go
+++ b/widget/blockwidget/block.go
@@ -72,7 +72,7 @@ func (b Block) WithTitle(title Title) Block {
 		title.Line = title.Line.WithAlignment(title.Alignment)
 	}
 
-	b.titles = append(b.titles, title)
+	b.titles = append(slices.Clip(b.titles), title)
 	return b
 }
 
diff --git a/widget/textwidget/line.go b/widget/textwidget/line.go
index e926608..08c7e86 100644
--- a/widget/textwidget/line.go
+++ b/widget/textwidget/line.go
@@ -133,12 +133,12 @@ func (l Line) String() string {
 }
 
 func (l Line) WithSpans(spans ...Span) Line {
-	l.Spans = append(l.Spans, spans...)
+	l.Spans = append(slices.Clip(l.Spans), spans...)
 	return l
 }
 
 func (l Line) WithSpansStr(spans ...string) Line {
-	l.Spans = slices.Grow(l.Spans, len(spans))
+	l.Spans = slices.Grow(slices.Clip(l.Spans), len(spans))
 
 	for _, s := range spans {
 		l.Spans = append(l.Spans, NewSpan(s))
diff --git a/widget/textwidget/text.go b/widget/textwidget/text.go
index ebd552b..56072ac 100644
--- a/widget/textwidget/text.go
+++ b/widget/textwidget/text.go
@@ -1,6 +1,8 @@
 package textwidget
 
 import (
+	"slices"
+
 	"github.com/metafates/bento"
 )
 
@@ -27,12 +29,12 @@ func NewText(lines ...Line) Text {
 }
 
 func (t Text) WithLines(lines ...Line) Text {
-	t.Lines = append(t.Lines, lines...)
+	t.Lines = append(slices.Clip(t.Lines), lines...)
 	return t
 }
 
 func (t Text) WithLinesStr(lines ...string) Text {
-	t.Lines = append(t.Lines, NewLinesStr(lines...)...)
+	t.Lines = append(slices.Clip(t.Lines), NewLinesStr(lines...)...)
 	return t
 }
 
-- 
2.43.0


From 4cd719586239b20fc45c44552c36c967f3b6ce9c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:13:26 +0000
Subject: [PATCH 15/37] fix: a zero-width grapheme must not hide the rest of a
 truncated span

Cutting off the start of a span gave up at the first zero-width grapheme
and showed nothing of the span.
---
 widget/textwidget/span.go | 6 +-----
 1 file changed, 1 insertion(+), 5 deletions(-)

diff --git a/widget/textwidget/span.go b/widget/textwidget/span.go
index 7c6848f..e022b76 100644
--- a/widget/textwidget/span.go
+++ b/widget/textwidget/span.go
@@ -179,13 +179,9 @@ func unicodeTruncateStart(s string, maxWidth int) (string, int) {
 		return s, currentWidth
 	}
 
-	for {
+	for s != "" {
 		_, rest, width, newState := uniseg.FirstGraphemeClusterInString(s, state)
 
-		if width == 0 {
-			break
-		}
-
 		currentWidth -= width
 
 		if currentWidth <= maxWidth {
-- 
2.43.0


From 82d5ba4ed81e54c5d5f45dbdede9d786611d630e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:22:33 +0000
Subject: [PATCH 16/37] fix: draw only the part of a block that lies in the
 buffer

---
 widget/blockwidget/block.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/widget/blockwidget/block.go b/widget/blockwidget/block.go
index c87120f..7980179 100644
--- a/widget/blockwidget/block.go
+++ b/widget/blockwidget/block.go
@@ -165,7 +165,7 @@ func (b Block) hasTitleAtPosition(position TitlePosition) bool {
 }
 
 func (b Block) Render(area bento.Rect, buffer *bento.Buffer) {
-	area = area.Intersection(area)
+	area = area.Intersection(buffer.Area())
 	if area.IsEmpty() {
 		return
 	}
-- 
2.43.0


From 0a43b6cd4d245302228f24af9545146e7df61fb1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:22:34 +0000
Subject: [PATCH 17/37] fix: right-aligned block titles stay in place at
 negative coordinates

---
 widget/blockwidget/block.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/widget/blockwidget/block.go b/widget/blockwidget/block.go
index 7980179..fe98f15 100644
--- a/widget/blockwidget/block.go
+++ b/widget/blockwidget/block.go
@@ -322,7 +322,7 @@ func (b Block) renderRightTitles(position TitlePosition, area bento.Rect, buffer
 		titleWidth := t.Line.Width()
 		titleArea := bento.Rect{
 			Position: bento.Position{
-				X: max(0, max(titlesArea.Left(), titlesArea.Right()-titleWidth)),
+				X: max(titlesArea.Left(), titlesArea.Right()-titleWidth),
 				Y: titlesArea.Y,
 			},
 			Width:  min(titlesArea.Width, titleWidth),
-- 
2.43.0


From 563d4cdc76a8242eb38adff1275f449ef035445d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:25:45 +0000
Subject: [PATCH 18/37] fix: draw only the part of a widget that lies in the
 buffer

---
 widget/gaugewidget/gauge.go         | 2 ++
 widget/inputwidget/input.go         | 2 ++
 widget/listwidget/list.go           | 2 ++
 widget/paragraphwidget/paragraph.go | 2 ++
 widget/scrollwidget/scroll.go       | 2 ++
 widget/tabswidget/tabs.go           | 2 ++
 6 files changed, 12 insertions(+)

diff --git a/widget/gaugewidget/gauge.go b/widget/gaugewidget/gauge.go
index 4916537..5ab5095 100644
--- a/widget/gaugewidget/gauge.go
+++ b/widget/gaugewidget/gauge.go
@@ -103,6 +103,8 @@ func (g Gauge) WithUnicode(unicode bool) Gauge {
 }
 
 func (g Gauge) Render(area bento.Rect, buffer *bento.Buffer) {
+	area = area.Intersection(buffer.Area())
+
 	buffer.SetStyle(area, g.style)
 
 	if g.block != nil {
diff --git a/widget/inputwidget/input.go b/widget/inputwidget/input.go
index bf9410b..5c88a52 100644
--- a/widget/inputwidget/input.go
+++ b/widget/inputwidget/input.go
@@ -102,6 +102,8 @@ func (i Input) WithAlignment(alignment bento.Alignment) Input {
 }
 
 func (i Input) RenderStateful(area bento.Rect, buffer *bento.Buffer, state *State) {
+	area = area.Intersection(buffer.Area())
+
 	buffer.SetStyle(area, i.style)
 
 	if i.block != nil {
diff --git a/widget/listwidget/list.go b/widget/listwidget/list.go
index cb53940..effb972 100644
--- a/widget/listwidget/list.go
+++ b/widget/listwidget/list.go
@@ -80,6 +80,8 @@ func (l List) WithScrollPadding(padding int) List {
 }
 
 func (l List) RenderStateful(area bento.Rect, buffer *bento.Buffer, state *State) {
+	area = area.Intersection(buffer.Area())
+
 	buffer.SetStyle(area, l.style)
 
 	listArea := area
diff --git a/widget/paragraphwidget/paragraph.go b/widget/paragraphwidget/paragraph.go
index 7427a82..dcc2236 100644
--- a/widget/paragraphwidget/paragraph.go
+++ b/widget/paragraphwidget/paragraph.go
@@ -83,6 +83,8 @@ func (p Paragraph) Wrapped() Paragraph {
 }
 
 func (p Paragraph) Render(area bento.Rect, buffer *bento.Buffer) {
+	area = area.Intersection(buffer.Area())
+
 	buffer.SetStyle(area, p.Style)
 
 	if p.Block != nil {
diff --git a/widget/scrollwidget/scroll.go b/widget/scrollwidget/scroll.go
index a521405..9231e2f 100644
--- a/widget/scrollwidget/scroll.go
+++ b/widget/scrollwidget/scroll.go
@@ -73,6 +73,8 @@ func (s Scroll) Inner(area bento.Rect) bento.Rect {
 }
 
 func (s Scroll) RenderStateful(area bento.Rect, buffer *bento.Buffer, state State) {
+	area = area.Intersection(buffer.Area())
+
 	if state.contentLen == 0 || s.trackLenExcludingArrowHeads(area) == 0 {
 		return
 	}
diff --git a/widget/tabswidget/tabs.go b/widget/tabswidget/tabs.go
index 4959a46..974c759 100644
--- a/widget/tabswidget/tabs.go
+++ b/widget/tabswidget/tabs.go
@@ -91,6 +91,8 @@ func (t Tabs) Unselect() Tabs {
 }
 
 func (t Tabs) Render(area bento.Rect, buffer *bento.Buffer) {
+	area = area.Intersection(buffer.Area())
+
 	buffer.SetStyle(area, t.style)
 
 	if t.block != nil {
-- 
2.43.0


From 484b2a68fb4a99729e2de29316dc4448a90fc7dd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:25:47 +0000
Subject: [PATCH 19/37] fix: WithRatio refuses a ratio outside 0 to 1, as
 documented

---
 widget/gaugewidget/gauge.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/widget/gaugewidget/gauge.go b/widget/gaugewidget/gauge.go
index 5ab5095..5d0e065 100644
--- a/widget/gaugewidget/gauge.go
+++ b/widget/gaugewidget/gauge.go
@@ -41,7 +41,7 @@ func New() Gauge {
 //
 // See [Gauge.WithPercent] to set from a percentage.
 func (g Gauge) WithRatio(ratio float64) Gauge {
-	if ratio < 0 && ratio > 1 {
+	if !(ratio >= 0 && ratio <= 1) {
 		panic("ratio should be between 0 and 1 inclusively")
 	}
 
-- 
2.43.0


From df8aa42b14213a3ca0579e867463da486a20a858 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:25:48 +0000
Subject: [PATCH 20/37] fix: draw a horizontal scrollbar on the side it names

---
 widget/scrollwidget/scroll.go | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/widget/scrollwidget/scroll.go b/widget/scrollwidget/scroll.go
index 9231e2f..fe43513 100644
--- a/widget/scrollwidget/scroll.go
+++ b/widget/scrollwidget/scroll.go
@@ -267,7 +267,7 @@ func (s Scroll) scrollbarArea(area bento.Rect) (bento.Rect, bool) {
 			return bento.Rect{}, false
 		}
 
-		return rows[0], true
+		return rows[len(rows)-1], true
 
 	case OrientationHorizontalTop:
 		rows := area.Rows()
@@ -275,7 +275,7 @@ func (s Scroll) scrollbarArea(area bento.Rect) (bento.Rect, bool) {
 			return bento.Rect{}, false
 		}
 
-		return rows[len(rows)-1], true
+		return rows[0], true
 
 	default:
 		return bento.Rect{}, false
-- 
2.43.0


From 195471bba772525f3dea4c03c9d6f0f941443629 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:25:49 +0000
Subject: [PATCH 21/37] fix: a scrollbar without arrow heads uses their cells
 for the track

---
 widget/scrollwidget/scroll.go | 10 ++++++++--
 1 file changed, 8 insertions(+), 2 deletions(-)

diff --git a/widget/scrollwidget/scroll.go b/widget/scrollwidget/scroll.go
index fe43513..651d910 100644
--- a/widget/scrollwidget/scroll.go
+++ b/widget/scrollwidget/scroll.go
@@ -144,8 +144,12 @@ func (s Scroll) barSymbols(area bento.Rect, state State) []*_Symbol {
 		}
 	}
 
+	var symbols []*_Symbol
+
 	// <
-	symbols := []*_Symbol{begin}
+	if begin != nil && begin.Symbol != "" {
+		symbols = append(symbols, begin)
+	}
 
 	// <═══
 	symbols = append(symbols, sliceutil.Repeat(track, trackStartLen)...)
@@ -157,7 +161,9 @@ func (s Scroll) barSymbols(area bento.Rect, state State) []*_Symbol {
 	symbols = append(symbols, sliceutil.Repeat(track, trackEndLen)...)
 
 	// <═══█████═══════>
-	symbols = append(symbols, end)
+	if end != nil && end.Symbol != "" {
+		symbols = append(symbols, end)
+	}
 
 	return symbols
 }
-- 
2.43.0


From d64587e92a32f036b88fbdfc5d36403b9426ab4b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:29:16 +0000
Subject: [PATCH 22/37] fix: wrapped lines must not hold blanks left over from
 earlier words and lines

---
 internal/reflow/wrapper.go | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/internal/reflow/wrapper.go b/internal/reflow/wrapper.go
index b406f41..2d771a6 100644
--- a/internal/reflow/wrapper.go
+++ b/internal/reflow/wrapper.go
@@ -52,9 +52,9 @@ func (ww *WordWrapper) processInput(lineSymbols []textwidget.StyledGrapheme) {
 		nonWhitespacePrevious bool
 	)
 
-	clear(ww.pendingWord)
+	ww.pendingWord = ww.pendingWord[:0]
 	ww.pendingWhitespace.Clear()
-	clear(pendingLine)
+	pendingLine = pendingLine[:0]
 
 	for _, g := range lineSymbols {
 		isWhitespace := g.IsWhitespace()
@@ -78,7 +78,7 @@ func (ww *WordWrapper) processInput(lineSymbols []textwidget.StyledGrapheme) {
 			}
 
 			pendingLine = append(pendingLine, ww.pendingWord...)
-			clear(ww.pendingWord)
+			ww.pendingWord = ww.pendingWord[:0]
 
 			lineWidth += wordWidth
 
@@ -94,7 +94,7 @@ func (ww *WordWrapper) processInput(lineSymbols []textwidget.StyledGrapheme) {
 			remainingWidth := max(0, ww.maxLineWidth-lineWidth)
 
 			ww.wrappedLines.PushBack(slices.Clone(pendingLine))
-			clear(pendingLine)
+			pendingLine = pendingLine[:0]
 
 			lineWidth = 0
 
@@ -142,7 +142,7 @@ func (ww *WordWrapper) processInput(lineSymbols []textwidget.StyledGrapheme) {
 	}
 
 	pendingLine = append(pendingLine, ww.pendingWord...)
-	clear(ww.pendingWord)
+	ww.pendingWord = ww.pendingWord[:0]
 
 	if len(pendingLine) > 0 {
 		ww.wrappedLines.PushBack(pendingLine)
-- 
2.43.0


From 275533cf796b1bb4346b4dd451d66045dbd0c346 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:29:17 +0000
Subject: [PATCH 23/37] fix: wrapped lines with wide graphemes stay within the
 width

---
 internal/reflow/wrapper.go | 9 ++++++++-
 1 file changed, 8 insertions(+), 1 deletion(-)

diff --git a/internal/reflow/wrapper.go b/internal/reflow/wrapper.go
index 2d771a6..2c75daa 100644
--- a/internal/reflow/wrapper.go
+++ b/internal/reflow/wrapper.go
@@ -88,7 +88,7 @@ func (ww *WordWrapper) processInput(lineSymbols []textwidget.StyledGrapheme) {
 		}
 
 		lineFull := lineWidth >= ww.maxLineWidth
-		pendingWordOverflow := symbolWidth > 0 && lineWidth+whitespaceWidth+wordWidth >= ww.maxLineWidth
+		pendingWordOverflow := symbolWidth > 0 && lineWidth+whitespaceWidth+wordWidth+symbolWidth > ww.maxLineWidth
 
 		if lineFull || pendingWordOverflow {
 			remainingWidth := max(0, ww.maxLineWidth-lineWidth)
@@ -116,6 +116,13 @@ func (ww *WordWrapper) processInput(lineSymbols []textwidget.StyledGrapheme) {
 				ww.pendingWhitespace.PopFront()
 			}
 
+			// after zero-width white space the word may fill a line on its own
+			if wordWidth+symbolWidth > ww.maxLineWidth {
+				ww.wrappedLines.PushBack(slices.Clone(ww.pendingWord))
+				ww.pendingWord = ww.pendingWord[:0]
+				wordWidth = 0
+			}
+
 			if isWhitespace && ww.pendingWhitespace.IsEmpty() {
 				continue
 			}
-- 
2.43.0


From 67786d162681c39e2749efeeca7dd337cbce0aee Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:29:49 +0000
Subject: [PATCH 24/37] fix: an unwrapped paragraph shows each line of its text
 on its own row

---
 internal/reflow/truncator.go | 11 +++++------
 1 file changed, 5 insertions(+), 6 deletions(-)

diff --git a/internal/reflow/truncator.go b/internal/reflow/truncator.go
index e891787..9287296 100644
--- a/internal/reflow/truncator.go
+++ b/internal/reflow/truncator.go
@@ -35,7 +35,7 @@ func (lt *LineTruncator) NextLine() (WrappedLine, bool) {
 		return WrappedLine{}, false
 	}
 
-	clear(lt.currentLine)
+	lt.currentLine = lt.currentLine[:0]
 
 	var currentLineWidth int
 
@@ -43,9 +43,10 @@ func (lt *LineTruncator) NextLine() (WrappedLine, bool) {
 	horizontalOffset := lt.horizontalOffset
 	currentAlignment := bento.AlignmentLeft
 
-	var lastIndex int
-	for i, line := range lt.inputLines {
-		lastIndex = i
+	if len(lt.inputLines) > 0 {
+		line := lt.inputLines[0]
+		lt.inputLines = lt.inputLines[1:]
+
 		currentLine := line.Graphemes
 		currentAlignment = line.Alignment
 		alignment := line.Alignment
@@ -83,8 +84,6 @@ func (lt *LineTruncator) NextLine() (WrappedLine, bool) {
 		}
 	}
 
-	lt.inputLines = lt.inputLines[min(len(lt.inputLines), lastIndex+1):]
-
 	if linesExhausted {
 		return WrappedLine{}, false
 	}
-- 
2.43.0


From 8738afae7dc953f6a71a4716067bcb7991ed84c9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:29:50 +0000
Subject: [PATCH 25/37] fix: a paragraph without alignment is shown at the left

---
 widget/paragraphwidget/paragraph.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/widget/paragraphwidget/paragraph.go b/widget/paragraphwidget/paragraph.go
index dcc2236..0572a5a 100644
--- a/widget/paragraphwidget/paragraph.go
+++ b/widget/paragraphwidget/paragraph.go
@@ -180,7 +180,7 @@ func getLineOffset(lineWidth, textAreaWidth int, alignment bento.Alignment) int
 	switch alignment {
 	case bento.AlignmentCenter:
 		return max(0, textAreaWidth/2-lineWidth/2)
-	case bento.AlignmentLeft:
+	case bento.AlignmentLeft, bento.AlignmentNone:
 		return 0
 	case bento.AlignmentRight:
 		return max(0, textAreaWidth-lineWidth)
-- 
2.43.0


From 57b0c0954d9810b0f1bc2172a466013ec28c4c56 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:30:08 +0000
Subject: [PATCH 26/37] fix: a negative vertical scroll of a paragraph must not
 draw above or below its area

---
 widget/paragraphwidget/paragraph.go | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/widget/paragraphwidget/paragraph.go b/widget/paragraphwidget/paragraph.go
index 0572a5a..86c023b 100644
--- a/widget/paragraphwidget/paragraph.go
+++ b/widget/paragraphwidget/paragraph.go
@@ -133,6 +133,8 @@ func (p Paragraph) render(textArea bento.Rect, buffer *bento.Buffer) {
 }
 
 func (p Paragraph) renderText(composer reflow.LineComposer, area bento.Rect, buffer *bento.Buffer) {
+	scroll := max(0, p.Scroll.Y)
+
 	var y int
 
 	for {
@@ -141,7 +143,7 @@ func (p Paragraph) renderText(composer reflow.LineComposer, area bento.Rect, buf
 			break
 		}
 
-		if y >= p.Scroll.Y {
+		if y >= scroll {
 			x := getLineOffset(currentLine.Width, area.Width, currentLine.Alignment)
 
 			for _, grapheme := range currentLine.Line {
@@ -159,7 +161,7 @@ func (p Paragraph) renderText(composer reflow.LineComposer, area bento.Rect, buf
 				buffer.
 					CellAt(bento.Position{
 						X: area.Left() + x,
-						Y: area.Top() + y - p.Scroll.Y,
+						Y: area.Top() + y - scroll,
 					}).
 					SetSymbol(symbol).
 					SetStyle(grapheme.Style)
@@ -170,7 +172,7 @@ func (p Paragraph) renderText(composer reflow.LineComposer, area bento.Rect, buf
 
 		y++
 
-		if y >= area.Height+p.Scroll.Y {
+		if y >= area.Height+scroll {
 			break
 		}
 	}
-- 
2.43.0


From e5f88f807854c8e0bc1bb555ba688780db8a93b9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:30:43 +0000
Subject: [PATCH 27/37] fix: rendering a list leaves no selection outside of
 its items

---
 widget/listwidget/list.go | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/widget/listwidget/list.go b/widget/listwidget/list.go
index effb972..cd3e0b5 100644
--- a/widget/listwidget/list.go
+++ b/widget/listwidget/list.go
@@ -90,7 +90,8 @@ func (l List) RenderStateful(area bento.Rect, buffer *bento.Buffer, state *State
 		listArea = l.block.Inner(area)
 	}
 
-	if listArea.IsEmpty() || len(l.items) == 0 {
+	if len(l.items) == 0 {
+		state.Unselect()
 		return
 	}
 
@@ -98,6 +99,10 @@ func (l List) RenderStateful(area bento.Rect, buffer *bento.Buffer, state *State
 		state.Select(max(0, len(l.items)-1))
 	}
 
+	if listArea.IsEmpty() {
+		return
+	}
+
 	listHeight := listArea.Height
 
 	firstVisibleIndex, lastVisibleIndex := l.getItemsBounds(state.selected, state.offset, listHeight)
-- 
2.43.0


From 68938460e2f9762c04ea7a5716966a3620a9572b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:30:44 +0000
Subject: [PATCH 28/37] fix: a negative list offset is the start of the list

---
 widget/listwidget/list.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/widget/listwidget/list.go b/widget/listwidget/list.go
index cd3e0b5..cdda62d 100644
--- a/widget/listwidget/list.go
+++ b/widget/listwidget/list.go
@@ -228,7 +228,7 @@ func (l List) WithBlock(block blockwidget.Block) List {
 
 // getItemsBounds given an offset, calculates which items can fit in a given area
 func (l List) getItemsBounds(selected *int, offset, maxHeight int) (int, int) {
-	offset = min(offset, max(0, len(l.items)-1))
+	offset = max(0, min(offset, len(l.items)-1))
 
 	// NOTE: visible here implies visible in the given area
 	firstVisibleIndex := offset
-- 
2.43.0


From 0bbc46b5751eeed2a53be99262639edb035096ee Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:30:45 +0000
Subject: [PATCH 29/37] fix: moving the list selection past the last index
 stays there

---
 widget/listwidget/state.go | 18 ++++++++++++++++--
 1 file changed, 16 insertions(+), 2 deletions(-)

diff --git a/widget/listwidget/state.go b/widget/listwidget/state.go
index 4e8464c..59c1224 100644
--- a/widget/listwidget/state.go
+++ b/widget/listwidget/state.go
@@ -77,7 +77,7 @@ func (s *State) SelectNext() {
 	var next int
 
 	if s.selected != nil {
-		next = *s.selected + 1
+		next = addSaturating(*s.selected, 1)
 	}
 
 	s.Select(next)
@@ -108,7 +108,7 @@ func (s *State) ScrollDownBy(amount int) {
 		selected = *s.selected
 	}
 
-	s.Select(selected + amount)
+	s.Select(addSaturating(selected, amount))
 }
 
 func (s *State) ScrollUpBy(amount int) {
@@ -118,9 +118,23 @@ func (s *State) ScrollUpBy(amount int) {
 		selected = *s.selected
 	}
 
+	if amount < 0 && selected > math.MaxInt+amount {
+		s.SelectLast()
+		return
+	}
+
 	s.Select(selected - amount)
 }
 
+// addSaturating adds to a non-negative index, stopping at the greatest one
+func addSaturating(index, amount int) int {
+	if amount > 0 && index > math.MaxInt-amount {
+		return math.MaxInt
+	}
+
+	return index + amount
+}
+
 func (s *State) Unselect() {
 	s.selected = nil
 	s.offset = 0
-- 
2.43.0


From 94dbdca3c10e21d920e0e5cec51a3a92b1af29e5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:32:43 +0000
Subject: [PATCH 30/37] fix: deleting the first word of an input leaves nothing
 behind

---
 widget/inputwidget/state.go | 16 +++-------------
 1 file changed, 3 insertions(+), 13 deletions(-)

diff --git a/widget/inputwidget/state.go b/widget/inputwidget/state.go
index beb4d38..1ceea0a 100644
--- a/widget/inputwidget/state.go
+++ b/widget/inputwidget/state.go
@@ -86,23 +86,13 @@ func (s *State) DeleteWordUnderCursor() {
 }
 
 func (s *State) deleteWhile(cond func(g grapheme.Grapheme) bool) {
-	before, under, after := s.splitAtCursor()
+	end := s.cursor
 
-	current := under
-
-	for cond(current) {
-		if len(before) == 0 {
-			current = grapheme.Grapheme{}
-			break
-		}
+	for s.cursor > 0 && cond(s.underCursor()) {
 		s.MoveCursorLeft()
-
-		current = before[len(before)-1]
-		before = before[:len(before)-1]
 	}
 
-	s.graphemes = append(before, current)
-	s.graphemes = append(s.graphemes, after...)
+	s.graphemes = slices.Delete(s.graphemes, s.cursor, end)
 }
 
 func (s *State) DeleteUnderCursor() {
-- 
2.43.0


From e1e1692a7ada0db354de8ef562f004e94229cf11 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:33:22 +0000
Subject: [PATCH 31/37] fix: an input shows the part of its text around the
 cursor for any width, cursor and offset

---
 widget/inputwidget/state.go | 14 +++-----------
 1 file changed, 3 insertions(+), 11 deletions(-)

diff --git a/widget/inputwidget/state.go b/widget/inputwidget/state.go
index 1ceea0a..0edb5b9 100644
--- a/widget/inputwidget/state.go
+++ b/widget/inputwidget/state.go
@@ -211,6 +211,8 @@ func (s *State) getBounds(maxWidth int) (int, int) {
 		return 0, 0
 	}
 
+	maxWidth = max(0, maxWidth)
+
 	offset := min(s.offset, max(0, len(s.graphemes)-1))
 
 	firstVisibleIndex := offset
@@ -228,10 +230,7 @@ func (s *State) getBounds(maxWidth int) (int, int) {
 		lastVisibleIndex++
 	}
 
-	indexToDisplay := offset
-	if s.cursor != 0 {
-		indexToDisplay = min(s.cursor-1, lastVisibleIndex)
-	}
+	indexToDisplay := max(0, s.cursor-1)
 
 	for indexToDisplay >= lastVisibleIndex {
 		widthFromOffset += s.graphemes[lastVisibleIndex].Width()
@@ -257,12 +256,5 @@ func (s *State) getBounds(maxWidth int) (int, int) {
 		}
 	}
 
-	if s.cursor-firstVisibleIndex >= lastVisibleIndex {
-		diff := s.cursor - lastVisibleIndex
-
-		firstVisibleIndex += diff
-		lastVisibleIndex += diff
-	}
-
 	return firstVisibleIndex, lastVisibleIndex
 }
-- 
2.43.0


From 81c4aed274174d54fbc19391697aada5457ed48f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:35:12 +0000
Subject: [PATCH 32/37] fix: adding spans to a copy of a text must not change
 another text

---
 widget/textwidget/text.go | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/widget/textwidget/text.go b/widget/textwidget/text.go
index 56072ac..364ecef 100644
--- a/widget/textwidget/text.go
+++ b/widget/textwidget/text.go
@@ -90,8 +90,11 @@ func (t Text) String() string {
 
 func AppendTextSpans(text *Text, spans ...Span) {
 	if len(text.Lines) > 0 {
-		last := len(text.Lines) - 1
-		text.Lines[last].Spans = append(text.Lines[last].Spans, spans...)
+		// other texts may share these lines
+		text.Lines = slices.Clone(text.Lines)
+
+		last := &text.Lines[len(text.Lines)-1]
+		last.Spans = append(slices.Clip(last.Spans), spans...)
 	} else {
 		text.Lines = append(text.Lines, NewLine(spans...))
 	}
-- 
2.43.0


From 7f47f400ec559048457ab4506c47ae930324a32d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:42:09 +0000
Subject: [PATCH 33/37] fix: lines of any length can be made from a string

---
 widget/textwidget/line.go | 12 ++++++++++--
 1 file changed, 10 insertions(+), 2 deletions(-)

diff --git a/widget/textwidget/line.go b/widget/textwidget/line.go
index 08c7e86..645817f 100644
--- a/widget/textwidget/line.go
+++ b/widget/textwidget/line.go
@@ -24,7 +24,7 @@ func NewLinesStr(s ...string) Lines {
 	if joined == "" {
 		lines = []Line{NewLineStr("")}
 	} else {
-		scanner := bufio.NewScanner(strings.NewReader(joined))
+		scanner := newLineScanner(joined)
 
 		for scanner.Scan() {
 			line := NewLineStr(scanner.Text())
@@ -36,6 +36,14 @@ func NewLinesStr(s ...string) Lines {
 	return Lines(lines)
 }
 
+// newLineScanner scans lines of any length
+func newLineScanner(s string) *bufio.Scanner {
+	scanner := bufio.NewScanner(strings.NewReader(s))
+	scanner.Buffer(nil, len(s)+1)
+
+	return scanner
+}
+
 func (l Lines) String() string {
 	var b strings.Builder
 
@@ -107,7 +115,7 @@ func NewLine(spans ...Span) Line {
 }
 
 func NewLineStr(s string) Line {
-	lines := bufio.NewScanner(strings.NewReader(s))
+	lines := newLineScanner(s)
 
 	var spans []Span
 
-- 
2.43.0


From 8308cac98a2dac5b281ee97b5696dd60011c0f8a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:01:10 +0000
Subject: [PATCH 34/37] fix: restore the terminal on every way out of the
 application

---
 app.go | 69 ++++++++++++++++++++++++++++++++++++++++------------------
 tty.go | 11 ++++++----
 2 files changed, 55 insertions(+), 25 deletions(-)

diff --git a/app.go b/app.go
index 93a426b..307bbfd 100644
--- a/app.go
+++ b/app.go
@@ -194,7 +194,16 @@ func (a *appRunner) Run() (model Model, err error) {
 		}
 	}()
 
-	defer a.recoverFromPanic()
+	// Whatever ends the app, leave the terminal as it was.
+	defer func() {
+		if r := recover(); r != nil {
+			err = panicError(r)
+		}
+
+		if shutdownErr := a.shutdown(); shutdownErr != nil {
+			err = errors.Join(err, fmt.Errorf("shutdown: %w", shutdownErr))
+		}
+	}()
 
 	err = a.init()
 	if err != nil {
@@ -202,7 +211,10 @@ func (a *appRunner) Run() (model Model, err error) {
 	}
 
 	a.initModel()
-	a.draw(a.model)
+
+	if err := a.draw(a.model); err != nil {
+		return a.model, err
+	}
 
 	err = a.initCancelReader()
 	if err != nil {
@@ -225,13 +237,7 @@ func (a *appRunner) Run() (model Model, err error) {
 		return model, err
 	}
 
-	a.draw(model)
-
-	if err := a.shutdown(); err != nil {
-		return model, fmt.Errorf("shutdown: %w", err)
-	}
-
-	return model, nil
+	return model, a.draw(model)
 }
 
 func (a *appRunner) Send(msg Msg) {
@@ -344,20 +350,37 @@ func (a *appRunner) eventLoop(model Model) (Model, error) {
 
 			var cmd Cmd
 			model, cmd = model.Update(msg) // run update
-			a.cmds <- cmd
-			a.draw(model)
+			a.sendCmd(cmd)
+
+			if err := a.draw(model); err != nil {
+				return model, err
+			}
 		}
 	}
 }
 
+// sendCmd passes the command to the goroutine that runs commands.
+func (a *appRunner) sendCmd(cmd Cmd) {
+	select {
+	case <-a.ctx.Done():
+	case a.cmds <- cmd:
+	}
+}
+
+// recoverFromPanic ends the app with an error when the goroutine that defers it panics.
 func (a *appRunner) recoverFromPanic() {
 	if r := recover(); r != nil {
-		a.shutdown()
-		fmt.Printf("Caught panic:\n\n%s\n\nRestoring terminal...\n\n", r)
-		debug.PrintStack()
+		select {
+		case <-a.ctx.Done():
+		case a.errs <- panicError(r):
+		}
 	}
 }
 
+func panicError(r any) error {
+	return fmt.Errorf("%w: caught panic: %v\n\n%s", ErrKilled, r, debug.Stack())
+}
+
 func (a *appRunner) shutdown() error {
 	a.cancelCtx()
 
@@ -366,11 +389,12 @@ func (a *appRunner) shutdown() error {
 	return a.restore()
 }
 
-func (a *appRunner) draw(widget Widget) {
-	_, err := a.terminal.Draw(widget)
-	if err != nil {
-		a.errs <- err
+func (a *appRunner) draw(widget Widget) error {
+	if _, err := a.terminal.Draw(widget); err != nil {
+		return fmt.Errorf("draw: %w", err)
 	}
+
+	return nil
 }
 
 func (a *appRunner) init() error {
@@ -386,15 +410,18 @@ func (a *appRunner) init() error {
 }
 
 func (a *appRunner) restore() error {
+	// a failing step must not keep the others from restoring what they can
+	var errs []error
+
 	if err := a.restoreTerminal(); err != nil {
-		return fmt.Errorf("restore terminal: %w", err)
+		errs = append(errs, fmt.Errorf("restore terminal: %w", err))
 	}
 
 	if err := a.terminal.LeaveAlternateScreen(); err != nil {
-		return fmt.Errorf("leave alt screen buffer: %w", err)
+		errs = append(errs, fmt.Errorf("leave alt screen buffer: %w", err))
 	}
 
-	return nil
+	return errors.Join(errs...)
 }
 
 // channelHandlers manages the series of channels returned by various processes.
diff --git a/tty.go b/tty.go
index b6c168a..f44b9e5 100644
--- a/tty.go
+++ b/tty.go
@@ -24,12 +24,15 @@ func (a *appRunner) initTerminal() error {
 // restoreTerminal restores the terminal to the state prior to running the
 // Bento app.
 func (a *appRunner) restoreTerminal() error {
+	// a failing step must not keep the others from restoring what they can
+	var errs []error
+
 	if err := a.terminal.DisableBracketedPaste(); err != nil {
-		return fmt.Errorf("disable bracketed paste: %w", err)
+		errs = append(errs, fmt.Errorf("disable bracketed paste: %w", err))
 	}
 
 	if err := a.terminal.ShowCursor(); err != nil {
-		return fmt.Errorf("show cursor: %w", err)
+		errs = append(errs, fmt.Errorf("show cursor: %w", err))
 	}
 	// a.disableMouse()
 
@@ -44,10 +47,10 @@ func (a *appRunner) restoreTerminal() error {
 	// time.Sleep(time.Millisecond * 10) //nolint:gomnd
 	// }
 	if err := a.terminal.DisableRawMode(); err != nil {
-		return fmt.Errorf("disable raw mode: %w", err)
+		errs = append(errs, fmt.Errorf("disable raw mode: %w", err))
 	}
 
-	return nil
+	return errors.Join(errs...)
 }
 
 func (a *appRunner) initCancelReader() error {
-- 
2.43.0


From 6bdeb2505cfa061520a9a03dbe8bc153f1c1bee3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:01:12 +0000
Subject: [PATCH 35/37] fix: report an unknown terminal size

---
 tty.go | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/tty.go b/tty.go
index f44b9e5..8f47f50 100644
--- a/tty.go
+++ b/tty.go
@@ -94,10 +94,6 @@ func (a *appRunner) waitForReadLoop() {
 // via a WindowSizeMsg.
 func (a *appRunner) checkResize() {
 	size, ok, err := a.terminal.Size()
-	if !ok {
-		return
-	}
-
 	if err != nil {
 		select {
 		case <-a.ctx.Done():
@@ -107,5 +103,9 @@ func (a *appRunner) checkResize() {
 		return
 	}
 
+	if !ok {
+		return
+	}
+
 	a.Send(WindowSizeMsg(size))
 }
-- 
2.43.0


From caed54293df398aef654d189ffe535122b3f7bb7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:01:13 +0000
Subject: [PATCH 36/37] fix: run the commands of a batch

---
 app.go | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/app.go b/app.go
index 307bbfd..6a50f43 100644
--- a/app.go
+++ b/app.go
@@ -320,6 +320,10 @@ func (a *appRunner) eventLoop(model Model) (Model, error) {
 				if err := a.terminal.Resize(NewRect(msg.Width, msg.Height)); err != nil {
 					return model, fmt.Errorf("resize: %w", err)
 				}
+			case BatchMsg:
+				for _, cmd := range msg {
+					a.sendCmd(cmd)
+				}
 			case sequenceMsg:
 				go func() {
 					// Execute commands one at a time, in order.
-- 
2.43.0


From 7f5fb2008f179a837cd4c2d65286f408748db62f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:01:15 +0000
Subject: [PATCH 37/37] fix: a panic of a sequenced command ends the app like
 that of any other command

---
 app.go | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/app.go b/app.go
index 6a50f43..cae65c0 100644
--- a/app.go
+++ b/app.go
@@ -326,6 +326,8 @@ func (a *appRunner) eventLoop(model Model) (Model, error) {
 				}
 			case sequenceMsg:
 				go func() {
+					defer a.recoverFromPanic()
+
 					// Execute commands one at a time, in order.
 					for _, cmd := range msg {
 						if cmd == nil {
@@ -336,8 +338,14 @@ func (a *appRunner) eventLoop(model Model) (Model, error) {
 						if batchMsg, ok := msg.(BatchMsg); ok {
 							g, _ := errgroup.WithContext(a.ctx)
 							for _, cmd := range batchMsg {
+								if cmd == nil {
+									continue
+								}
+
 								cmd := cmd
 								g.Go(func() error {
+									defer a.recoverFromPanic()
+
 									a.Send(cmd())
 									return nil
 								})
-- 
2.43.0

