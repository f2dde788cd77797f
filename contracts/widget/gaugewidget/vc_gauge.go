package gaugewidget

import (
	"github.com/metafates/bento"
	"github.com/metafates/bento/internal/vc"
	"github.com/metafates/bento/widget/blockwidget"
	"github.com/metafates/bento/widget/textwidget"
)

var _ = vc.Register(func(r *vc.R) Gauge {
	g := New()
	if r.Bool() {
		g = g.WithPercent(r.Intn(101))
	} else {
		g = g.WithRatio(vc.Pick(r, 0, 1, 0.5, 0.25, 1.0/3, 0.999, 0.9999999999999999, r.Float64(), r.Float64()))
	}
	if r.Intn(3) == 0 {
		g = g.WithLabel(vc.Make[textwidget.Span](r))
	}
	if r.Intn(3) == 0 {
		b := vc.Make[blockwidget.Block](r)
		g.block = &b
	}
	return g.WithUnicode(r.Bool()).WithStyle(vc.Make[bento.Style](r)).WithGaugeStyle(vc.Make[bento.Style](r))
})

//vc:prop C13
func spec_Gauge_Render(w Gauge, buffer *bento.Buffer, place bento.VcPlace, p bento.Position, g, d int) {
	area := bento.Rect(place)
	vc.Requires(bento.VcPlaceOK(area) && bento.VcBufOK(buffer) && bento.VcInside(buffer.Area(), p.X, p.Y))
	vc.Requires(0 <= w.ratio && w.ratio <= 1 && (w.block == nil || blockwidget.VcPad(*w.block)))
	old, was, size := bento.VcCell(buffer, p), buffer.Area(), bento.VcSize(buffer)
	bento.VcDraws(buffer)
	vc.Invariant(func() bool { return bento.VcInside(area, p.X, p.Y) || bento.VcCell(buffer, p) == old })
	w.Render(area, buffer)
	vc.Ensures("the buffer keeps its area", buffer.Area() == was && bento.VcSize(buffer) == size)
	vc.Ensures("a cell outside the area is unchanged", bento.VcInside(area, p.X, p.Y) || bento.VcCell(buffer, p) == old)
}

func vcGaugeCopy(g Gauge) Gauge {
	g.block, g.label = blockwidget.VcBlockOptCopy(g.block), bento.VcCopy(g.label)
	return g
}

func vcGaugeSame(a, b Gauge) bool {
	ok := blockwidget.VcBlockOpt(a.block, b.block) && bento.VcOpt(a.label, b.label)
	a.block, a.label = b.block, b.label
	return ok && a == b
}

//vc:prop C22
func spec_Gauge_setters(g Gauge, ratio float64, percent int, label textwidget.Span, str string, style bento.Style, unicode bool) {
	old := vcGaugeCopy(g)
	w := old
	if 0 <= ratio && ratio <= 1 {
		w.ratio = ratio
		vc.Ensures("WithRatio changes the ratio only", vcGaugeSame(g.WithRatio(ratio), w))
	}
	if 0 <= percent && percent <= 100 {
		w.ratio = float64(percent) / 100
		vc.Ensures("WithPercent changes the ratio only", vcGaugeSame(g.WithPercent(percent), w))
	}
	w = old
	w.style = style
	vc.Ensures("WithStyle changes the style only", vcGaugeSame(g.WithStyle(style), w))
	w = old
	w.gaugeStyle = style
	vc.Ensures("WithGaugeStyle changes the bar's style only", vcGaugeSame(g.WithGaugeStyle(style), w))
	w = old
	w.useUnicode = unicode
	vc.Ensures("WithUnicode changes that only", vcGaugeSame(g.WithUnicode(unicode), w))
	a, b := g.WithLabel(label), g.WithLabelStr(str)
	vc.Ensures("WithLabel sets the label", *a.label == label && *b.label == textwidget.NewSpan(str))
	a.label, b.label = old.label, old.label
	vc.Ensures("WithLabel changes the label only", vcGaugeSame(a, old) && vcGaugeSame(b, old))
	vc.Ensures("the receiver keeps its meaning", vcGaugeSame(g, old))
}

//vc:prop C13
//vc:opts panics
func spec_Gauge_WithRatio(g Gauge, ratio float64) {
	bad := vc.Catch(func() { g.WithRatio(ratio) })
	vc.Ensures("a ratio outside 0 to 1 is refused, others are accepted", bad == !(ratio >= 0 && ratio <= 1))
}

//vc:prop C13
//vc:opts panics
func spec_Gauge_WithPercent(g Gauge, percent int) {
	bad := vc.Catch(func() { g.WithPercent(percent) })
	vc.Ensures("a percentage outside 0 to 100 is refused, others are accepted", bad == (percent < 0 || percent > 100))
}
