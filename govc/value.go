package main

import (
	"fmt"
	"go/types"

	"golang.org/x/tools/go/ssa"
)

type Val interface{}

type VStruct struct{ f []Val }
type VSlice struct {
	ref, off, ln, cp *Term
	h                *history
}
type Cell struct {
	id   int
	name string
	typ  types.Type
}
type PathElem struct {
	field int
	idx   *Term // array index (when non-nil)
}
type Loc struct {
	cell     *Cell
	elem     types.Type // type of the root object (cell type or heap element type)
	ref, idx *Term
	path     []PathElem
}
type PtrAlt struct {
	g   *Term
	loc *Loc // nil: nil pointer
}
type VPtr struct{ alts []PtrAlt }
type FnAlt struct {
	g      *Term
	fn     *ssa.Function
	bind   []Val
	opaque *Term // unknown function value
	isNil  bool
}
type VFunc struct{ alts []FnAlt }
type IfaceAlt struct {
	g      *Term
	typ    types.Type // nil with opaque nil: the nil interface
	val    Val
	opaque *Term
}
type VIface struct{ alts []IfaceAlt }

func (l *Loc) extend(p PathElem) *Loc {
	n := *l
	n.path = append(append([]PathElem{}, l.path...), p)
	return &n
}

func sameLoc(a, b *Loc) bool {
	if a == nil || b == nil {
		return a == b
	}
	if a.cell != b.cell || a.ref != b.ref || a.idx != b.idx || len(a.path) != len(b.path) {
		return false
	}
	for i := range a.path {
		if a.path[i] != b.path[i] {
			return false
		}
	}
	return true
}

// zero value of a type
func (e *Engine) zero(t types.Type) Val {
	if s, ok := basicSort(t); ok {
		switch t.Underlying().(type) {
		case *types.Interface:
			return &VIface{[]IfaceAlt{{g: e.tt.True()}}}
		case *types.Signature:
			return &VFunc{[]FnAlt{{g: e.tt.True(), isNil: true}}}
		}
		return e.zeroLeaf(s)
	}
	switch u := under(t).(type) {
	case *types.Struct:
		v := &VStruct{}
		for i := 0; i < u.NumFields(); i++ {
			v.f = append(v.f, e.zero(u.Field(i).Type()))
		}
		return v
	case *types.Tuple:
		v := &VStruct{}
		for i := 0; i < u.Len(); i++ {
			v.f = append(v.f, e.zero(u.At(i).Type()))
		}
		return v
	case *types.Array:
		v := &VStruct{}
		if u.Len() > 64 {
			unsup("array of %d elements", u.Len())
		}
		for i := int64(0); i < u.Len(); i++ {
			v.f = append(v.f, e.zero(u.Elem()))
		}
		return v
	case *types.Slice:
		z := e.tt.Int(0)
		return &VSlice{ref: z, off: z, ln: z, cp: z}
	case *types.Pointer:
		return &VPtr{[]PtrAlt{{e.tt.True(), nil}}}
	}
	unsup("zero of %s", t)
	return nil
}

func (e *Engine) zeroLeaf(s Sort) *Term {
	switch {
	case s == SBool:
		return e.tt.False()
	case s == SInt:
		return e.tt.Int(0)
	case s == SReal:
		return e.tt.Real(ratInt(0))
	case s == SStr:
		return e.tt.StrLit("")
	case s == SIface:
		return e.nilIface()
	case s.isBV():
		return e.tt.BV(s.bvWidth(), 0)
	}
	panic("zeroLeaf " + s)
}

// fromLeaves builds a value of type t from flattened terms; returns the rest.
func (e *Engine) fromLeaves(t types.Type, ls []*Term) (Val, []*Term) {
	if _, ok := basicSort(t); ok {
		switch t.Underlying().(type) {
		case *types.Interface:
			return e.ifaceFromTerm(ls[0]), ls[1:]
		case *types.Signature:
			return e.fnFromTerm(ls[0]), ls[1:]
		}
		return ls[0], ls[1:]
	}
	switch u := under(t).(type) {
	case *types.Struct:
		v := &VStruct{}
		for i := 0; i < u.NumFields(); i++ {
			var x Val
			x, ls = e.fromLeaves(u.Field(i).Type(), ls)
			v.f = append(v.f, x)
		}
		return v, ls
	case *types.Tuple:
		v := &VStruct{}
		for i := 0; i < u.Len(); i++ {
			var x Val
			x, ls = e.fromLeaves(u.At(i).Type(), ls)
			v.f = append(v.f, x)
		}
		return v, ls
	case *types.Array:
		v := &VStruct{}
		for i := int64(0); i < u.Len(); i++ {
			var x Val
			x, ls = e.fromLeaves(u.Elem(), ls)
			v.f = append(v.f, x)
		}
		return v, ls
	case *types.Slice:
		return &VSlice{ref: ls[0], off: ls[1], ln: ls[2], cp: ls[3]}, ls[4:]
	case *types.Pointer:
		return e.ptrFromTerms(u.Elem(), ls[0], ls[1]), ls[2:]
	}
	unsup("fromLeaves %s", t)
	return nil, nil
}

func (e *Engine) ptrFromTerms(elem types.Type, ref, idx *Term) Val {
	isNil := e.tt.Eq(ref, e.tt.Int(0))
	var alts []PtrAlt
	if !isNil.isFalse() {
		alts = append(alts, PtrAlt{isNil, nil})
	}
	if !isNil.isTrue() {
		alts = append(alts, PtrAlt{e.tt.Not(isNil), &Loc{elem: elem, ref: ref, idx: idx}})
	}
	return &VPtr{alts}
}

func (e *Engine) ifaceFromTerm(x *Term) *VIface {
	if x.op == "box:nil" {
		return &VIface{[]IfaceAlt{{g: e.tt.True()}}}
	}
	for _, b := range e.tt.ifc.order {
		if x.op == fmt.Sprintf("box:%d", b.id) {
			v, _ := e.fromLeaves(b.typ, x.args)
			return &VIface{[]IfaceAlt{{g: e.tt.True(), typ: b.typ, val: v}}}
		}
	}
	if x.op == "ite" {
		var alts []IfaceAlt
		for i, c := range []*Term{x.args[0], e.tt.Not(x.args[0])} {
			for _, a := range e.ifaceFromTerm(x.args[i+1]).alts {
				if a.g = e.tt.And(c, a.g); !a.g.isFalse() {
					alts = append(alts, a)
				}
			}
		}
		if len(alts) <= 8 {
			return &VIface{alts}
		}
	}
	return &VIface{[]IfaceAlt{{g: e.tt.True(), opaque: x}}}
}

func (e *Engine) fnFromTerm(x *Term) *VFunc {
	if x.isNum() {
		if f, ok := e.fnReg[x.name]; ok {
			return f
		}
		if x.name == "0" {
			return &VFunc{[]FnAlt{{g: e.tt.True(), isNil: true}}}
		}
	}
	return &VFunc{[]FnAlt{{g: e.tt.True(), opaque: x}}}
}

// toLeaves flattens a value. Needs the state because local cells may have to move to the heap.
func (e *Engine) toLeaves(st *State, t types.Type, v Val) []*Term {
	if _, ok := basicSort(t); ok {
		switch x := v.(type) {
		case *VIface:
			return []*Term{e.ifaceTerm(st, x)}
		case *VFunc:
			return []*Term{e.fnTerm(st, x)}
		case *Term:
			return []*Term{x}
		}
		panic(fmt.Sprintf("toLeaves %s: %T", t, v))
	}
	switch u := under(t).(type) {
	case *types.Struct:
		var r []*Term
		for i := 0; i < u.NumFields(); i++ {
			r = append(r, e.toLeaves(st, u.Field(i).Type(), v.(*VStruct).f[i])...)
		}
		return r
	case *types.Tuple:
		var r []*Term
		for i := 0; i < u.Len(); i++ {
			r = append(r, e.toLeaves(st, u.At(i).Type(), v.(*VStruct).f[i])...)
		}
		return r
	case *types.Array:
		var r []*Term
		for i := int64(0); i < u.Len(); i++ {
			r = append(r, e.toLeaves(st, u.Elem(), v.(*VStruct).f[i])...)
		}
		return r
	case *types.Slice:
		s := v.(*VSlice)
		return []*Term{s.ref, s.off, s.ln, s.cp}
	case *types.Pointer:
		p := v.(*VPtr)
		ref, idx := e.tt.Int(0), e.tt.Int(0)
		for i := len(p.alts) - 1; i >= 0; i-- {
			a := p.alts[i]
			var r, x *Term
			if a.loc == nil {
				r, x = e.tt.Int(0), e.tt.Int(0)
			} else {
				l := a.loc
				if l.cell != nil {
					l = e.promote(st, l)
				}
				if len(l.path) != 0 {
					unsup("storing an interior pointer into memory (%s)", t)
				}
				r, x = l.ref, l.idx
			}
			if i == len(p.alts)-1 {
				ref, idx = r, x
			} else {
				ref, idx = e.tt.Ite(a.g, r, ref), e.tt.Ite(a.g, x, idx)
			}
		}
		return []*Term{ref, idx}
	}
	unsup("toLeaves %s", t)
	return nil
}

func (e *Engine) ifaceTerm(st *State, v *VIface) *Term {
	var r *Term
	for i := len(v.alts) - 1; i >= 0; i-- {
		a := v.alts[i]
		var x *Term
		switch {
		case a.opaque != nil:
			x = a.opaque
		case a.typ == nil:
			x = e.nilIface()
		default:
			x = e.boxTerm(a.typ, e.toLeaves(st, a.typ, a.val))
		}
		if r == nil {
			r = x
		} else {
			r = e.tt.Ite(a.g, x, r)
		}
	}
	if r == nil {
		return e.nilIface()
	}
	return r
}

func (e *Engine) fnTerm(st *State, v *VFunc) *Term {
	var r *Term
	for i := len(v.alts) - 1; i >= 0; i-- {
		a := v.alts[i]
		var x *Term
		switch {
		case a.opaque != nil:
			x = a.opaque
		case a.isNil:
			x = e.tt.Int(0)
		default:
			e.fnCount++
			x = e.tt.Int(int64(1000000 + e.fnCount))
			e.fnReg[x.name] = &VFunc{[]FnAlt{{g: e.tt.True(), fn: a.fn, bind: a.bind}}}
		}
		if r == nil {
			r = x
		} else {
			r = e.tt.Ite(a.g, x, r)
		}
	}
	return r
}

// promote moves a local cell to the heap (reference object) and returns the heap location.
func (e *Engine) promote(st *State, l *Loc) *Loc {
	if f, ok := st.fwd[l.cell]; ok {
		return &Loc{elem: l.cell.typ, ref: f, idx: e.tt.Int(0), path: l.path}
	}
	ref := e.cellRef(st, l.cell)
	v, ok := st.cells[l.cell]
	if !ok && e.globalOf[l.cell] != nil {
		v, ok = e.globalInit(st, l.cell), true
	}
	if !ok {
		panic("promote: unknown cell " + l.cell.name)
	}
	delete(st.cells, l.cell)
	st.fwd[l.cell] = ref
	nl := &Loc{elem: l.cell.typ, ref: ref, idx: e.tt.Int(0)}
	e.storeLoc(st, nl, v)
	nl.path = l.path
	return nl
}

// cellRef: the (unique) heap reference a promoted cell gets.
func (e *Engine) cellRef(st *State, c *Cell) *Term {
	if r, ok := e.cellRefs[c]; ok {
		return r
	}
	r := e.alloc(st)
	e.cellRefs[c] = r
	return r
}

// alloc returns a new heap reference.
func (e *Engine) alloc(st *State) *Term {
	r := e.tt.sym("alloc", SInt)
	if e.initMode {
		e.bg(e.tt.And(e.tt.Lt(e.tt.Int(0), r), e.tt.Lt(r, e.next0())))
		if e.lastInit != nil {
			e.bg(e.tt.Lt(e.lastInit, r))
		}
		e.lastInit = r
		var refs []*Term
		for _, in := range e.inputs {
			inputRefs(in.val, &refs)
		}
		for _, x := range refs {
			e.bg(e.tt.Not(e.tt.Eq(x, r)))
		}
		return r
	}
	if len(e.boundStack) > 0 {
		// inside a quantifier body: allocations are temporary and never compared
		return r
	}
	e.rawAssume(e.tt.Le(st.next, r))
	if e.lastAlloc != nil {
		e.rawAssume(e.tt.Lt(e.lastAlloc, r))
	}
	e.lastAlloc = r
	st.next = e.tt.Add(r, e.tt.Int(1))
	return r
}

// ---- merging

func (e *Engine) mergeVal(c *Term, a, b Val) Val {
	if a == b {
		return a
	}
	if a == nil {
		return b
	}
	if b == nil {
		return a
	}
	if c.isTrue() {
		return a
	}
	if c.isFalse() {
		return b
	}
	switch x := a.(type) {
	case *Term:
		y, ok := b.(*Term)
		if !ok {
			panic(fmt.Sprintf("merge %T %T", a, b))
		}
		return e.tt.Ite(c, x, y)
	case *VStruct:
		y := b.(*VStruct)
		r := &VStruct{f: make([]Val, len(x.f))}
		same := true
		for i := range x.f {
			r.f[i] = e.mergeVal(c, x.f[i], y.f[i])
			same = same && r.f[i] == x.f[i]
		}
		if same {
			return x
		}
		return r
	case *VSlice:
		y := b.(*VSlice)
		return &VSlice{ref: e.tt.Ite(c, x.ref, y.ref), off: e.tt.Ite(c, x.off, y.off), ln: e.tt.Ite(c, x.ln, y.ln), cp: e.tt.Ite(c, x.cp, y.cp), h: e.histMerge(c, x, y)}
	case *VPtr:
		y := b.(*VPtr)
		var alts []PtrAlt
		add := func(g *Term, l *Loc) {
			if g.isFalse() {
				return
			}
			for i := range alts {
				if sameLoc(alts[i].loc, l) {
					alts[i].g = e.tt.Or(alts[i].g, g)
					return
				}
			}
			alts = append(alts, PtrAlt{g, l})
		}
		for _, p := range x.alts {
			add(e.tt.And(c, p.g), p.loc)
		}
		for _, p := range y.alts {
			add(e.tt.And(e.tt.Not(c), p.g), p.loc)
		}
		if len(alts) == 1 {
			alts[0].g = e.tt.True()
		}
		// join heap alternatives into one with symbolic ref when there are many
		return e.compactPtr(&VPtr{alts})
	case *VFunc:
		y := b.(*VFunc)
		var alts []FnAlt
		for _, p := range x.alts {
			p.g = e.tt.And(c, p.g)
			if !p.g.isFalse() {
				alts = append(alts, p)
			}
		}
		for _, p := range y.alts {
			p.g = e.tt.And(e.tt.Not(c), p.g)
			if !p.g.isFalse() {
				alts = append(alts, p)
			}
		}
		return &VFunc{alts}
	case *VIface:
		y := b.(*VIface)
		var alts []IfaceAlt
		for _, p := range x.alts {
			p.g = e.tt.And(c, p.g)
			if !p.g.isFalse() {
				alts = append(alts, p)
			}
		}
		for _, p := range y.alts {
			p.g = e.tt.And(e.tt.Not(c), p.g)
			if p.g.isFalse() {
				continue
			}
			// merge alternatives of the same shape
			done := false
			for i := range alts {
				q := alts[i]
				if q.opaque == nil && p.opaque == nil && ((q.typ == nil && p.typ == nil) || (q.typ != nil && p.typ != nil && types.Identical(q.typ, p.typ))) {
					if q.typ != nil {
						alts[i].val = e.mergeVal(c, q.val, p.val)
					}
					alts[i].g = e.tt.Or(q.g, p.g)
					done = true
					break
				}
				if q.opaque != nil && q.opaque == p.opaque {
					alts[i].g = e.tt.Or(q.g, p.g)
					done = true
					break
				}
			}
			if !done {
				alts = append(alts, p)
			}
		}
		if len(alts) == 1 {
			alts[0].g = e.tt.True()
		}
		return &VIface{alts}
	case *VMapIter:
		return x
	}
	panic(fmt.Sprintf("mergeVal %T", a))
}

func (e *Engine) compactPtr(p *VPtr) *VPtr {
	// merge heap locations with empty/equal paths and equal element types
	var out []PtrAlt
	for _, a := range p.alts {
		if a.loc != nil && a.loc.cell == nil {
			done := false
			for i := range out {
				o := out[i]
				if o.loc != nil && o.loc.cell == nil && types.Identical(o.loc.elem, a.loc.elem) && samePath(o.loc.path, a.loc.path) {
					nl := *o.loc
					nl.ref = e.tt.Ite(a.g, a.loc.ref, o.loc.ref)
					nl.idx = e.tt.Ite(a.g, a.loc.idx, o.loc.idx)
					out[i] = PtrAlt{e.tt.Or(o.g, a.g), &nl}
					done = true
					break
				}
			}
			if done {
				continue
			}
		}
		out = append(out, a)
	}
	if len(out) == 1 {
		out[0].g = e.tt.True()
	}
	return &VPtr{out}
}

func samePath(a, b []PathElem) bool {
	if len(a) != len(b) {
		return false
	}
	for i := range a {
		if a[i] != b[i] {
			return false
		}
	}
	return true
}

type VMapIter struct{ id int }

// equality of two values of type t
func (e *Engine) eqVal(st *State, t types.Type, a, b Val) *Term {
	if a == b {
		return e.tt.True()
	}
	switch u := under(t).(type) {
	case *types.Struct:
		var cs []*Term
		for i := 0; i < u.NumFields(); i++ {
			cs = append(cs, e.eqVal(st, u.Field(i).Type(), a.(*VStruct).f[i], b.(*VStruct).f[i]))
		}
		return e.tt.And(cs...)
	case *types.Array:
		var cs []*Term
		for i := int64(0); i < u.Len(); i++ {
			cs = append(cs, e.eqVal(st, u.Elem(), a.(*VStruct).f[i], b.(*VStruct).f[i]))
		}
		return e.tt.And(cs...)
	case *types.Slice: // comparison with nil only
		x, y := a.(*VSlice), b.(*VSlice)
		return e.tt.Eq(x.ref, y.ref)
	case *types.Pointer:
		x, y := a.(*VPtr), b.(*VPtr)
		r := e.tt.False()
		for _, p := range x.alts {
			for _, q := range y.alts {
				g := e.tt.And(p.g, q.g)
				r = e.tt.Or(r, e.tt.And(g, e.eqLoc(st, p.loc, q.loc)))
			}
		}
		return r
	case *types.Interface:
		x, y := a.(*VIface), b.(*VIface)
		r := e.tt.False()
		for _, p := range x.alts {
			for _, q := range y.alts {
				g := e.tt.And(p.g, q.g)
				if g.isFalse() {
					continue
				}
				var c *Term
				if p.opaque == nil && q.opaque == nil {
					switch {
					case p.typ == nil || q.typ == nil:
						c = e.tt.Bool(p.typ == nil && q.typ == nil)
					case !types.Identical(p.typ, q.typ):
						c = e.tt.False()
					default:
						if _, isF := p.typ.Underlying().(*types.Signature); isF {
							c = e.tt.False()
						} else {
							c = e.eqVal(st, p.typ, p.val, q.val)
						}
					}
				} else {
					c = e.tt.Eq(e.ifaceTerm(st, &VIface{[]IfaceAlt{{g: e.tt.True(), typ: p.typ, val: p.val, opaque: p.opaque}}}),
						e.ifaceTerm(st, &VIface{[]IfaceAlt{{g: e.tt.True(), typ: q.typ, val: q.val, opaque: q.opaque}}}))
				}
				r = e.tt.Or(r, e.tt.And(g, c))
			}
		}
		return r
	case *types.Signature:
		x, y := a.(*VFunc), b.(*VFunc)
		r := e.tt.False()
		for _, p := range x.alts {
			for _, q := range y.alts {
				g := e.tt.And(p.g, q.g)
				var c *Term
				switch {
				case p.isNil && q.isNil:
					c = e.tt.True()
				case p.isNil && q.opaque != nil:
					c = e.tt.Eq(q.opaque, e.tt.Int(0))
				case q.isNil && p.opaque != nil:
					c = e.tt.Eq(p.opaque, e.tt.Int(0))
				case p.isNil || q.isNil:
					c = e.tt.False()
				case p.opaque != nil && q.opaque != nil:
					c = e.tt.Eq(p.opaque, q.opaque)
				default:
					unsup("function comparison")
				}
				r = e.tt.Or(r, e.tt.And(g, c))
			}
		}
		return r
	}
	x, ok1 := a.(*Term)
	y, ok2 := b.(*Term)
	if !ok1 || !ok2 {
		panic(fmt.Sprintf("eqVal %s %T %T", t, a, b))
	}
	return e.eqTerm(x, y)
}

func (e *Engine) eqTerm(x, y *Term) *Term {
	if x.sort == SStr {
		return e.strEq(x, y)
	}
	return e.tt.Eq(x, y)
}

func (e *Engine) eqLoc(st *State, p, q *Loc) *Term {
	if p == nil || q == nil {
		return e.tt.Bool(p == q)
	}
	if p.cell != nil {
		if f, ok := st.fwd[p.cell]; ok {
			p = &Loc{elem: p.cell.typ, ref: f, idx: e.tt.Int(0), path: p.path}
		}
	}
	if q.cell != nil {
		if f, ok := st.fwd[q.cell]; ok {
			q = &Loc{elem: q.cell.typ, ref: f, idx: e.tt.Int(0), path: q.path}
		}
	}
	if (p.cell != nil) != (q.cell != nil) {
		return e.tt.False()
	}
	if len(p.path) != len(q.path) {
		return e.tt.False()
	}
	c := e.tt.True()
	if p.cell != nil {
		if p.cell != q.cell {
			return e.tt.False()
		}
	} else {
		if !types.Identical(p.elem, q.elem) {
			return e.tt.False()
		}
		c = e.tt.And(e.tt.Eq(p.ref, q.ref), e.tt.Eq(p.idx, q.idx))
	}
	for i := range p.path {
		x, y := p.path[i], q.path[i]
		if x.idx != nil && y.idx != nil {
			c = e.tt.And(c, e.tt.Eq(x.idx, y.idx))
		} else if x.idx != nil || y.idx != nil || x.field != y.field {
			return e.tt.False()
		}
	}
	return c
}
