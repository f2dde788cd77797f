package bento

import "github.com/metafates/bento/internal/vc"

var _ = vc.Register(func(r *vc.R) Constraint {
	n := r.Intn(3 + r.Size*2)
	switch r.Intn(7) {
	case 0:
		return ConstraintMin(n)
	case 1:
		return ConstraintMax(n)
	case 2:
		return ConstraintPercentage(r.Intn(110))
	case 3:
		return ConstraintRatio{r.Intn(5), 1 + r.Intn(5)}
	case 4:
		return ConstraintFill(r.Intn(4))
	}
	return ConstraintLen(n)
})

var _ = vc.Register(func(r *vc.R) Layout {
	l := Layout{Direction: vc.Pick(r, DirectionVertical, DirectionHorizontal), Flex: Flex(r.Intn(6))}
	n := r.Intn(4 + r.Size/3)
	if r.Intn(300) == 0 {
		n = 20 + r.Intn(20)
		if l.Flex == FlexSpaceAround || l.Flex == FlexSpaceBetween {
			n = 12
		}
	}
	one := r.Intn(4) == 0
	for i := 0; i < n; i++ {
		if one {
			l.Constraints = append(l.Constraints, ConstraintLen(r.Intn(4)))
		} else {
			l.Constraints = append(l.Constraints, vc.Make[Constraint](r))
		}
	}
	if r.Intn(3) == 0 {
		l.Padding = Padding{Top: r.Intn(4), Left: r.Intn(4), Right: r.Intn(4), Bottom: r.Intn(4)}
	}
	switch r.Intn(4) {
	case 0:
	case 1:
		l.Spacing = SpacingOverlap(r.Intn(3))
	default:
		l.Spacing = SpacingSpace(r.Intn(5))
	}
	return l
})

// vcSpan is the extent of a rectangle along a direction.
func vcSpan(r Rect, d Direction) (int, int) {
	if d == DirectionHorizontal {
		return r.X, r.X + r.Width
	}
	return r.Y, r.Y + r.Height
}

func vcAcross(r Rect, d Direction) (int, int) {
	if d == DirectionHorizontal {
		return r.Y, r.Y + r.Height
	}
	return r.X, r.X + r.Width
}

//vc:prop C11
//vc:bounded
//vc:maxsize 24
func spec_Layout_Split(l Layout, area Rect) {
	vc.Requires(area.Width >= 0 && area.Height >= 0 && area.Width < 4000 && area.Height < 4000 && area.X > -4000 && area.X < 4000 && area.Y > -4000 && area.Y < 4000)
	vc.Requires(l.Direction == DirectionVertical || l.Direction == DirectionHorizontal)
	vc.Requires(len(l.Constraints) <= 16 || l.Flex != FlexSpaceAround && l.Flex != FlexSpaceBetween)
	inner := area.Inner(l.Padding)
	segs, spacers := l.SplitWithSpacers(area)
	n := len(l.Constraints)
	vc.Ensures("one rectangle per constraint", len(segs) == n)
	vc.Ensures("one spacer around each", len(spacers) == n+1)
	lo, hi := vcSpan(inner, l.Direction)
	alo, ahi := vcAcross(inner, l.Direction)
	spacing := 0
	overlap := false
	switch s := l.Spacing.(type) {
	case SpacingSpace:
		spacing = int(s)
	case SpacingOverlap:
		overlap = s > 0
	}
	sized := 0 // what the fixed-size constraints ask for
	least := 0
	flexible := l.Flex != FlexLegacy && !(l.Flex == FlexSpaceBetween && n == 1) // a single one is stretched
	fixed := true
	for _, c := range l.Constraints {
		switch c := c.(type) {
		case ConstraintLen:
			sized += max(0, int(c))
		case ConstraintFill:
			flexible = true
		case ConstraintMin:
			least += max(0, int(c))
		default:
			fixed = false
		}
	}
	for i, s := range segs {
		a, b := vcAcross(s, l.Direction)
		vc.Ensures("each rectangle spans the area across", a == alo && b == ahi)
		x, y := vcSpan(s, l.Direction)
		vc.Ensures("no rectangle leaves the area", lo <= x && x <= y && y <= hi)
		if i > 0 && !overlap {
			_, p := vcSpan(segs[i-1], l.Direction)
			vc.Ensures("no two rectangles overlap, they are in order", p <= x)
			if spacing*(n-1) <= hi-lo {
				if l.Flex == FlexSpaceAround || l.Flex == FlexSpaceBetween {
					vc.Ensures("rectangles are at least the spacing apart", x-p >= spacing)
				} else {
					vc.Ensures("rectangles are the spacing apart", x-p == spacing)
				}
			}
		}
		if c, ok := l.Constraints[i].(ConstraintLen); ok && fixed && flexible && !overlap && c >= 0 && sized+least+spacing*(n-1) <= hi-lo {
			vc.Ensures("fixed sizes that fit are met", y-x == int(c))
		}
	}
}

// What the widgets that lay out their parts rely on.
//
//vc:prop C11 C13 C15
//vc:use
//vc:target (Layout).Split
//vc:bounded
//vc:maxsize 24
func spec_Split_inside(l Layout, area Rect) Splitted {
	vc.Requires(VcFarOK(area) && vcPadOK(l.Padding))
	vc.Requires(l.Direction == DirectionVertical || l.Direction == DirectionHorizontal)
	vc.Requires(len(l.Constraints) <= 4)
	vc.Requires(vc.Forall(0, len(l.Constraints), func(i int) bool { return l.Constraints[i] != nil }))
	r := l.Split(area)
	vc.Ensures("one rectangle per constraint", len(r) == len(l.Constraints))
	vc.Ensures("no rectangle leaves the area", vc.Forall(0, len(r), func(i int) bool {
		return VcFarOK(r[i]) && (!vcNearOK(area) || vcPlaceOK(r[i])) && (!area.IsEmpty() || r[i].IsEmpty()) && (!VcSmallOK(area) || VcSplitOK(r[i])) && (!VcSplitOK(area) || r[i].IsEmpty() || area.X <= r[i].X && area.Y <= r[i].Y && r[i].X+r[i].Width <= area.X+area.Width && r[i].Y+r[i].Height <= area.Y+area.Height)
	}))
	return r
}

// VcFarOK: an area whose corner may have been moved by borders and paddings.
func VcFarOK(r Rect) bool {
	return -8*vcBig <= r.X && r.X <= 8*vcBig && -8*vcBig <= r.Y && r.Y <= 8*vcBig && 0 <= r.Width && r.Width <= vcBig && 0 <= r.Height && r.Height <= vcBig
}

// VcSmallOK: an area of a screen, far below the numbers at which the layout solver loses exactness.
func VcSmallOK(area Rect) bool {
	return area.Width >= 0 && area.Height >= 0 && area.Width < 20000 && area.Height < 20000 && area.X > -20000 && area.X < 20000 && area.Y > -20000 && area.Y < 20000
}

// VcSplitOK: an area within the numbers the layout solver is exact for.
func VcSplitOK(area Rect) bool {
	return area.Width >= 0 && area.Height >= 0 && area.Width < 500000 && area.Height < 500000 && area.X > -500000 && area.X < 500000 && area.Y > -500000 && area.Y < 500000
}

// vcArea is an area to split, sometimes a big one.
type vcArea Rect

var _ = vc.Register(func(r *vc.R) vcArea {
	a := vc.Make[Rect](r)
	if r.Intn(3) == 0 {
		a.Width, a.Height = r.Intn(300), r.Intn(300)
	}
	return vcArea(a)
})

// vcLenFill is a layout of fixed sizes, shares of the area and fills.
type vcLenFill Layout

var _ = vc.Register(func(r *vc.R) vcLenFill {
	l := Layout{Direction: vc.Pick(r, DirectionVertical, DirectionHorizontal), Flex: Flex(r.Intn(6))}
	n := 1 + r.Intn(4+r.Size/4)
	big := 1
	if r.Intn(3) == 0 {
		big = 1 + r.Intn(30)
	}
	for i := 0; i < n; i++ {
		switch r.Intn(7) {
		case 0, 1:
			l.Constraints = append(l.Constraints, ConstraintLen(r.Intn(1+3*big)))
		case 2:
			l.Constraints = append(l.Constraints, ConstraintPercentage(r.Intn(60)))
		case 3:
			l.Constraints = append(l.Constraints, ConstraintRatio{r.Intn(3), 1 + r.Intn(5)})
		default:
			l.Constraints = append(l.Constraints, ConstraintFill(1+r.Intn(5*big)))
		}
	}
	l.Spacing = SpacingSpace(max(0, r.Intn(6)-3))
	return vcLenFill(l)
})

//vc:prop C11
//vc:bounded
func spec_Layout_Split_shares(lf vcLenFill, in vcArea) {
	area := Rect(in)
	l := Layout(lf)
	vc.Requires(area.Width >= 0 && area.Height >= 0 && area.Width < 4000 && area.Height < 4000 && area.X > -4000 && area.X < 4000 && area.Y > -4000 && area.Y < 4000)
	n := len(l.Constraints)
	vc.Requires(n <= 12)
	lo, hi := vcSpan(area, l.Direction)
	size := hi - lo
	spacing := int(l.Spacing.(SpacingSpace))
	taken := float64(spacing * (n - 1))
	weights := 0
	share := func(c Constraint) float64 {
		switch c := c.(type) {
		case ConstraintLen:
			return float64(c)
		case ConstraintPercentage:
			return float64(size) * float64(c) / 100
		case ConstraintRatio:
			return float64(size) * float64(c.Num) / float64(c.Den)
		}
		return 0
	}
	for _, c := range l.Constraints {
		taken += share(c)
		if f, ok := c.(ConstraintFill); ok {
			vc.Requires(f > 0)
			weights += int(f)
		}
	}
	free := float64(size) - taken
	vc.Requires(weights > 0 && free >= 0)
	for i, s := range l.Split(area) {
		a, b := vcSpan(s, l.Direction)
		got, want := float64(b-a), share(l.Constraints[i])
		if f, ok := l.Constraints[i].(ConstraintFill); ok {
			want = free * float64(f) / float64(weights)
			vc.Ensures("what is left is shared by weight", got > want-1.01 && got < want+1.01)
		} else {
			vc.Ensures("shares of the area that fit are met", got > want-1.01 && got < want+1.01)
		}
	}
}

// vcLimits is a layout of fixed sizes, limits and fills.
type vcLimits Layout

var _ = vc.Register(func(r *vc.R) vcLimits {
	l := Layout{Direction: vc.Pick(r, DirectionVertical, DirectionHorizontal), Flex: Flex(r.Intn(6))}
	n := 1 + r.Intn(4+r.Size/4)
	big := 1
	if r.Intn(3) == 0 {
		big = 1 + r.Intn(30)
	}
	for i := 0; i < n; i++ {
		switch r.Intn(5) {
		case 0:
			l.Constraints = append(l.Constraints, ConstraintLen(r.Intn(1+3*big)))
		case 1:
			l.Constraints = append(l.Constraints, ConstraintMin(r.Intn(1+4*big)))
		case 2:
			l.Constraints = append(l.Constraints, ConstraintMax(r.Intn(1+4*big)))
		default:
			l.Constraints = append(l.Constraints, ConstraintFill(1+r.Intn(3*big)))
		}
	}
	l.Spacing = SpacingSpace(max(0, r.Intn(6)-3))
	return vcLimits(l)
})

//vc:prop C11
//vc:bounded
func spec_Layout_Split_limits(ll vcLimits, in vcArea) {
	area := Rect(in)
	l := Layout(ll)
	vc.Requires(area.Width >= 0 && area.Height >= 0 && area.Width < 4000 && area.Height < 4000 && area.X > -4000 && area.X < 4000 && area.Y > -4000 && area.Y < 4000)
	n := len(l.Constraints)
	vc.Requires(n <= 12)
	lo, hi := vcSpan(area, l.Direction)
	taken, fills := int(l.Spacing.(SpacingSpace))*(n-1), 0
	for _, c := range l.Constraints {
		switch c := c.(type) {
		case ConstraintLen:
			taken += int(c)
		case ConstraintMin:
			taken += int(c)
		case ConstraintMax:
			taken += int(c)
		case ConstraintFill:
			fills++
		}
	}
	vc.Requires(fills > 0 && taken <= hi-lo)
	for i, s := range l.Split(area) {
		a, b := vcSpan(s, l.Direction)
		switch c := l.Constraints[i].(type) {
		case ConstraintLen:
			vc.Ensures("fixed sizes that fit are met", b-a == int(c))
		case ConstraintMin:
			vc.Ensures("minimums that fit are met", b-a >= int(c))
		case ConstraintMax:
			vc.Ensures("maximums are met", b-a <= int(c))
		}
	}
}

//vc:prop C11
//vc:bounded
//vc:known Layout.Split with more than 30 constraints and FlexSpaceBetween or FlexSpaceAround may never return or panic (rounding errors accumulate in the solver)
func spec_Layout_Split_many() {
	l := Layout{Direction: DirectionHorizontal, Flex: FlexSpaceBetween}
	for i := 0; i < 58; i++ {
		l.Constraints = append(l.Constraints, ConstraintLen(1))
	}
	segs := l.Split(Rect{Width: 200, Height: 1})
	vc.Ensures("one rectangle per constraint", len(segs) == 58)
}
