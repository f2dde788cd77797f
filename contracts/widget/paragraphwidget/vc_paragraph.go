package paragraphwidget

import (
	"github.com/metafates/bento"
	"github.com/metafates/bento/internal/reflow"
	"github.com/metafates/bento/internal/vc"
	"github.com/metafates/bento/widget/blockwidget"
	"github.com/metafates/bento/widget/textwidget"
)

//vc:prop C13
//vc:bounded
func spec_Paragraph_Render(w Paragraph, buffer *bento.Buffer, place bento.VcPlace, p bento.Position) {
	area := bento.Rect(place)
	vc.Requires(bento.VcRectOK(area) && bento.VcBufOK(buffer) && bento.VcInside(buffer.Area(), p.X, p.Y))
	old, was := bento.VcCell(buffer, p), buffer.Area()
	w.Render(area, buffer)
	vc.Ensures("the buffer keeps its area", buffer.Area() == was && bento.VcBufOK(buffer))
	vc.Ensures("a cell outside the area is unchanged", bento.VcInside(area, p.X, p.Y) || bento.VcCell(buffer, p) == old)
}

// vcLines is what a paragraph shows in an area of that width.
func vcLines(w Paragraph, width, limit int) (out []reflow.WrappedLine) {
	var in []reflow.InputLine
	for _, l := range w.Text.Lines {
		al := l.Alignment
		if al == bento.AlignmentNone {
			al = w.Alignment
		}
		in = append(in, reflow.InputLine{Graphemes: l.StyledGraphemes(w.Text.Style), Alignment: al})
	}
	var c reflow.LineComposer
	if w.Wrap != nil {
		x := reflow.NewWordWrapper(in, width, w.Wrap.Trim)
		c = &x
	} else {
		x := reflow.NewLineTruncator(in, width)
		x.SetHorizontalOffset(w.Scroll.X)
		c = &x
	}
	for len(out) < limit {
		l, ok := c.NextLine()
		if !ok {
			break
		}
		l.Line = vc.Snap(l.Line)
		out = append(out, l)
	}
	return out
}

//vc:prop C17
//vc:bounded
func spec_Paragraph_rows(w Paragraph, buffer *bento.Buffer, place bento.VcPlace) {
	vc.Requires(bento.VcBufOK(buffer) && w.Scroll.X >= 0 && w.Scroll.Y >= 0)
	area := bento.Rect(place).Intersection(buffer.Area())
	vc.Requires(bento.VcRectOK(bento.Rect(place)) && !area.IsEmpty())
	w.Block = nil
	lines := vcLines(w, area.Width, w.Scroll.Y+area.Height)
	blank := bento.NewBufferEmpty(buffer.Area())
	*buffer = blank
	w.Render(bento.Rect(place), buffer)
	for y := 0; y < area.Height; y++ {
		row := make([]string, area.Width)
		for i := range row {
			row[i] = " "
		}
		if k := y + w.Scroll.Y; k < len(lines) {
			x := 0
			switch lines[k].Alignment {
			case bento.AlignmentCenter:
				x = max(0, area.Width/2-lines[k].Width/2)
			case bento.AlignmentRight:
				x = max(0, area.Width-lines[k].Width)
			}
			for _, g := range lines[k].Line {
				if g.Width() > 0 {
					row[x] = g.String()
					x += g.Width()
				}
			}
		}
		for x, s := range row {
			vc.Ensures("each row shows its line of the text, aligned", bento.VcCell(buffer, bento.Position{X: area.X + x, Y: area.Y + y}).Symbol == s)
		}
	}
}

func vcParagraphSame(a, b Paragraph) bool {
	return blockwidget.VcBlockOpt(a.Block, b.Block) && a.Style == b.Style && bento.VcOpt(a.Wrap, b.Wrap) && a.Scroll == b.Scroll && a.Alignment == b.Alignment &&
		textwidget.VcTextSame(a.Text, b.Text)
}

func vcParagraphCopy(p Paragraph) Paragraph {
	p.Block, p.Wrap, p.Text = blockwidget.VcBlockOptCopy(p.Block), bento.VcCopy(p.Wrap), textwidget.VcTextCopy(p.Text)
	return p
}

//vc:prop C22
func spec_Paragraph_setters(p Paragraph, style bento.Style, v, h int) {
	old := vcParagraphCopy(p)
	w := old
	w.Style = style
	vc.Ensures("WithStyle", vcParagraphSame(p.WithStyle(style), w))
	w = old
	w.Scroll = bento.Position{X: h, Y: v}
	vc.Ensures("WithScroll", vcParagraphSame(p.WithScroll(v, h), w))
	w = old
	w.Alignment = bento.AlignmentLeft
	vc.Ensures("Left", vcParagraphSame(p.Left(), w))
	w = old
	w.Alignment = bento.AlignmentCenter
	vc.Ensures("Center", vcParagraphSame(p.Center(), w))
	w = old
	w.Alignment = bento.AlignmentRight
	vc.Ensures("Right", vcParagraphSame(p.Right(), w))
	vc.Ensures("the receiver keeps its meaning", vcParagraphSame(p, old))
}

//vc:prop C22
func spec_Paragraph_options(p Paragraph, block blockwidget.Block, wrap Wrap, trim bool) {
	old := vcParagraphCopy(p)
	b := p.WithBlock(block)
	vc.Ensures("WithBlock sets the block", b.Block != nil && blockwidget.VcBlockSame(*b.Block, block))
	b.Block = old.Block
	vc.Ensures("WithBlock changes the block only", vcParagraphSame(b, old))
	c, d := p.WithWrap(wrap), p.Wrapped()
	vc.Ensures("WithWrap sets the wrapping", c.Wrap != nil && *c.Wrap == wrap && d.Wrap != nil && !d.Wrap.Trim)
	c.Wrap, d.Wrap = p.Wrap, p.Wrap
	vc.Ensures("WithWrap changes the wrapping only", vcParagraphSame(c, old) && vcParagraphSame(d, old))
	wrap.Trim = trim
	vc.Ensures("WithTrim", NewWrap().WithTrim(trim).Trim == trim && wrap.WithTrim(trim) == wrap)
	vc.Ensures("the receiver keeps its meaning", vcParagraphSame(p, old))
}
