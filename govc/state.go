package main

import (
	"go/types"
	"math/big"
)

func ratInt(i int64) *big.Rat { return big.NewRat(i, 1) }

type mapHeap struct {
	dom  *Term   // Array Int (Array K Bool)
	vals []*Term // per value leaf: Array Int (Array K V)
	size *Term   // Array Int Int
}

type State struct {
	pc    []*Term
	cells map[*Cell]Val
	heap  map[string][]*Term
	maps  map[string]*mapHeap
	next  *Term
	fwd   map[*Cell]*Term
	ghost map[string]*Term
}

func (s *State) clone() *State {
	n := &State{pc: s.pc[:len(s.pc):len(s.pc)], next: s.next,
		cells: make(map[*Cell]Val, len(s.cells)), heap: make(map[string][]*Term, len(s.heap)),
		maps: make(map[string]*mapHeap, len(s.maps)), fwd: make(map[*Cell]*Term, len(s.fwd)), ghost: make(map[string]*Term, len(s.ghost))}
	for k, v := range s.cells {
		n.cells[k] = v
	}
	for k, v := range s.heap {
		n.heap[k] = v
	}
	for k, v := range s.maps {
		n.maps[k] = v
	}
	for k, v := range s.fwd {
		n.fwd[k] = v
	}
	for k, v := range s.ghost {
		n.ghost[k] = v
	}
	return n
}

func (e *Engine) newState() *State {
	return &State{cells: map[*Cell]Val{}, heap: map[string][]*Term{}, maps: map[string]*mapHeap{}, fwd: map[*Cell]*Term{}, ghost: map[string]*Term{}, next: e.next0()}
}

func (e *Engine) next0() *Term { return e.tt.gsym("next0", SInt) }

func (s *State) assumePC(e *Engine, c *Term) {
	if c.isTrue() {
		return
	}
	for _, p := range s.pc {
		if p == c {
			return
		}
	}
	s.pc = append(s.pc[:len(s.pc):len(s.pc)], c)
}

func (e *Engine) pcTerm(s *State) *Term { return e.tt.And(s.pc...) }

func (s *State) dead(e *Engine) bool {
	return e.pcTerm(s).isFalse()
}

// heapOf returns the leaf arrays of the heap of element type t.
func (e *Engine) heapOf(s *State, t types.Type) []*Term {
	k := typeKey(t)
	if h, ok := s.heap[k]; ok {
		return h
	}
	return e.heap0(t)
}

func (e *Engine) heap0(t types.Type) []*Term {
	k := typeKey(t)
	if h, ok := e.heap0s[k]; ok {
		return h
	}
	var h []*Term
	for i, l := range e.leaves(t) {
		h = append(h, e.tt.gsym("H0_"+sanitize(shortType(t))+"_"+itoa(len(e.heap0s))+"_"+itoa(i), arrSort(SInt, arrSort(SInt, l))))
	}
	e.heap0s[k] = h
	e.heapTypes[k] = t
	return h
}

func (e *Engine) mapOf(s *State, t types.Type) *mapHeap {
	k := typeKey(t)
	if h, ok := s.maps[k]; ok {
		return h
	}
	if h, ok := e.map0s[k]; ok {
		return h
	}
	m := t.Underlying().(*types.Map)
	ks := e.keySort(m.Key())
	n := itoa(len(e.map0s))
	h := &mapHeap{dom: e.tt.gsym("M0dom_"+n, arrSort(SInt, arrSort(ks, SBool))), size: e.tt.gsym("M0size_"+n, arrSort(SInt, SInt))}
	for i, l := range e.leaves(m.Elem()) {
		h.vals = append(h.vals, e.tt.gsym("M0val_"+n+"_"+itoa(i), arrSort(SInt, arrSort(ks, l))))
	}
	e.map0s[k] = h
	e.mapTypes[k] = t
	return h
}

type edge struct {
	st   *State
	phis []Val
	pred int
}

// mergeStates merges two states; c selects a. Returns the merged state.
func (e *Engine) mergeStates(a, b *State) (*State, *Term) {
	n := 0
	for n < len(a.pc) && n < len(b.pc) && a.pc[n] == b.pc[n] {
		n++
	}
	ra, rb := e.tt.And(a.pc[n:]...), e.tt.And(b.pc[n:]...)
	if ra.isFalse() {
		return b, e.tt.False()
	}
	if rb.isFalse() {
		return a, e.tt.True()
	}
	pc := a.pc[:n:n]
	d := e.tt.Or(ra, rb)
	if !d.isTrue() {
		pc = append(pc, d)
	}
	c := ra
	// prefer a small discriminating condition
	if len(a.pc) > n && len(b.pc) > n && e.tt.Not(a.pc[n]) == b.pc[n] {
		c = a.pc[n]
	}
	r := &State{pc: pc, cells: map[*Cell]Val{}, heap: map[string][]*Term{}, maps: map[string]*mapHeap{}, fwd: map[*Cell]*Term{}, ghost: map[string]*Term{}}
	// align promotions
	align := func(x, y *State) {
		for c := range x.fwd {
			if _, ok := y.fwd[c]; !ok {
				if _, ok := y.cells[c]; ok {
					e.promote(y, &Loc{cell: c})
				}
			}
		}
	}
	align(a, b)
	align(b, a)
	for k := range a.cells {
		if _, ok := b.cells[k]; !ok && e.globalOf[k] != nil {
			b.cells[k] = e.globalInit(b, k)
		}
	}
	for k := range b.cells {
		if _, ok := a.cells[k]; !ok && e.globalOf[k] != nil {
			a.cells[k] = e.globalInit(a, k)
		}
	}
	for k, v := range a.cells {
		if w, ok := b.cells[k]; ok {
			r.cells[k] = e.mergeVal(c, v, w)
		} else if k.name == "defer" {
			r.cells[k] = e.tt.And(c, v.(*Term))
		} else {
			r.cells[k] = v
		}
	}
	for k, v := range b.cells {
		if _, ok := a.cells[k]; !ok {
			if k.name == "defer" {
				v = e.tt.And(e.tt.Not(c), v.(*Term))
			}
			r.cells[k] = v
		}
	}
	for k, v := range a.fwd {
		r.fwd[k] = v
	}
	for k, v := range b.fwd {
		r.fwd[k] = v
	}
	for k := range union(a.heap, b.heap) {
		x, y := a.heap[k], b.heap[k]
		if x == nil {
			x = e.heap0s[k]
		}
		if y == nil {
			y = e.heap0s[k]
		}
		m := make([]*Term, len(x))
		for i := range x {
			m[i] = e.tt.Ite(c, x[i], y[i])
		}
		r.heap[k] = m
	}
	for k := range union(a.maps, b.maps) {
		x, y := a.maps[k], b.maps[k]
		if x == nil {
			x = e.map0s[k]
		}
		if y == nil {
			y = e.map0s[k]
		}
		m := &mapHeap{dom: e.tt.Ite(c, x.dom, y.dom), size: e.tt.Ite(c, x.size, y.size)}
		for i := range x.vals {
			m.vals = append(m.vals, e.tt.Ite(c, x.vals[i], y.vals[i]))
		}
		r.maps[k] = m
	}
	for k := range union(a.ghost, b.ghost) {
		x, y := a.ghost[k], b.ghost[k]
		switch {
		case x == nil:
			r.ghost[k] = y
		case y == nil:
			r.ghost[k] = x
		default:
			r.ghost[k] = e.tt.Ite(c, x, y)
		}
	}
	r.next = e.mergeNext(c, a.next, b.next)
	return r, c
}

func (e *Engine) mergeNext(c, a, b *Term) *Term {
	if a == b {
		return a
	}
	if e.lastAlloc != nil { // a later watermark bounds both
		n := e.tt.sym("next", SInt)
		e.rawAssume(e.tt.And(e.tt.Le(a, n), e.tt.Le(b, n), e.tt.Lt(e.lastAlloc, n)))
		return n
	}
	return e.tt.Ite(c, a, b)
}

func union[V any](a, b map[string]V) map[string]bool {
	r := map[string]bool{}
	for k := range a {
		r[k] = true
	}
	for k := range b {
		r[k] = true
	}
	return r
}

// mergeEdges folds edges into one state and merged phi values.
func (e *Engine) mergeEdges(es []edge) (*State, []Val) {
	var live []edge
	for _, x := range es {
		if !x.st.dead(e) {
			live = append(live, x)
		}
	}
	if len(live) == 0 {
		return nil, nil
	}
	cur := e.mergeTree(live)
	return cur.st.clone(), cur.phis
}

// mergeTree merges edges along the decisions their path conditions record, so that a complete set
// of outcomes of a decision leaves no trace in the merged path condition.
func (e *Engine) mergeTree(es []edge) edge {
	if len(es) == 1 {
		return es[0]
	}
	n := 0
	for {
		same := true
		for _, x := range es {
			if n >= len(x.st.pc) || x.st.pc[n] != es[0].st.pc[n] {
				same = false
				break
			}
		}
		if !same {
			break
		}
		n++
	}
	var groups [][]edge
	var keys []*Term
	for _, x := range es {
		var k *Term
		if n < len(x.st.pc) {
			k = x.st.pc[n]
		}
		found := false
		for i := range keys {
			if keys[i] == k {
				groups[i] = append(groups[i], x)
				found = true
			}
		}
		if !found {
			keys = append(keys, k)
			groups = append(groups, []edge{x})
		}
	}
	if len(groups) == len(es) && len(es) > 2 {
		// pair a condition with its negation first
		for i := range keys {
			for j := i + 1; j < len(keys); j++ {
				if keys[i] != nil && keys[j] != nil && e.tt.Not(keys[i]) == keys[j] {
					m := e.merge2(es[i], es[j])
					rest := []edge{m}
					for k, x := range es {
						if k != i && k != j {
							rest = append(rest, x)
						}
					}
					return e.mergeTree(rest)
				}
			}
		}
	}
	if len(groups) == 1 {
		// cannot happen: the common prefix is maximal unless all conditions are exhausted
		cur := es[0]
		for _, x := range es[1:] {
			cur = e.merge2(cur, x)
		}
		return cur
	}
	var ms []edge
	for _, g := range groups {
		ms = append(ms, e.mergeTree(g))
	}
	if len(ms) < len(es) {
		return e.mergeTree(ms)
	}
	cur := ms[0]
	for _, x := range ms[1:] {
		cur = e.merge2(cur, x)
	}
	return cur
}

func (e *Engine) merge2(x, y edge) edge {
	st, c := e.mergeStates(x.st, y.st)
	ph := make([]Val, len(x.phis))
	for i := range ph {
		ph[i] = e.mergeVal(c, x.phis[i], y.phis[i])
	}
	return edge{st: st, phis: ph}
}

// ---- memory access

func (e *Engine) loadLoc(st *State, l *Loc, t types.Type) Val {
	if l.cell != nil {
		if f, ok := st.fwd[l.cell]; ok {
			l = &Loc{elem: l.cell.typ, ref: f, idx: e.tt.Int(0), path: l.path}
		}
	}
	if l.cell != nil {
		v, ok := st.cells[l.cell]
		if !ok && e.globalOf[l.cell] != nil {
			v, ok = e.globalInit(st, l.cell), true
		}
		if !ok {
			// the cell belongs to a path that is infeasible here
			return e.havocVal(t, "dead", nil)
		}
		return e.getPath(v, l.path)
	}
	if n, off, lt, ok := e.leafRange(l.elem, l.path); ok {
		h := e.heapOf(st, l.elem)
		ls := make([]*Term, n)
		for i := 0; i < n; i++ {
			ls[i] = e.tt.Select(e.rowOf(l.elem, h, off+i, l.ref), l.idx)
		}
		v, _ := e.fromLeaves(lt, ls)
		if len(e.boundStack) == 0 {
			e.assumeTypeInv(st, lt, v)
		}
		return v
	}
	// symbolic array index inside a heap object
	v, _ := e.fromLeaves(l.elem, e.readHeap(st, l.elem, l.ref, l.idx))
	return e.getPath(v, l.path)
}

func (e *Engine) readHeap(st *State, t types.Type, ref, idx *Term) []*Term {
	h := e.heapOf(st, t)
	ls := make([]*Term, len(h))
	for i := range h {
		ls[i] = e.tt.Select(e.rowOf(t, h, i, ref), idx)
	}
	return ls
}

// rowOf is leaf i of the row of ref; a snapshot never changes.
func (e *Engine) rowOf(t types.Type, h []*Term, i int, ref *Term) *Term {
	if rows, ok := e.snaps[ref]; ok {
		if r, ok := rows[typeKey(t)]; ok {
			return r[i]
		}
	}
	return e.tt.Select(h[i], ref)
}

// snapshot remembers that the row of ref never changes again.
func (e *Engine) snapshot(st *State, t types.Type, ref *Term) {
	h := e.heapOf(st, t)
	rows := make([]*Term, len(h))
	for i := range h {
		rows[i] = e.tt.Select(h[i], ref)
	}
	if e.snaps == nil {
		e.snaps = map[*Term]map[string][]*Term{}
	}
	e.snaps[ref] = map[string][]*Term{typeKey(t): rows}
}

// leafRange: number and offset of leaves selected by a concrete path, and the type reached.
func (e *Engine) leafRange(t types.Type, path []PathElem) (n, off int, lt types.Type, ok bool) {
	lt = t
	for _, p := range path {
		switch u := under(lt).(type) {
		case *types.Struct:
			for i := 0; i < p.field; i++ {
				off += len(e.leaves(u.Field(i).Type()))
			}
			lt = u.Field(p.field).Type()
		case *types.Array:
			if p.idx == nil || !p.idx.isNum() {
				return 0, 0, nil, false
			}
			off += int(p.idx.big().Int64()) * len(e.leaves(u.Elem()))
			lt = u.Elem()
		default:
			unsup("path through %s", lt)
		}
	}
	return len(e.leaves(lt)), off, lt, true
}

func (e *Engine) getPath(v Val, path []PathElem) Val {
	for _, p := range path {
		s := v.(*VStruct)
		if p.idx != nil {
			if p.idx.isNum() {
				i := p.idx.big().Int64()
				if i < 0 || int(i) >= len(s.f) {
					i = 0
				}
				v = s.f[i]
				continue
			}
			r := s.f[len(s.f)-1]
			for i := len(s.f) - 2; i >= 0; i-- {
				r = e.mergeVal(e.tt.Eq(p.idx, e.tt.Int(int64(i))), s.f[i], r)
			}
			v = r
			continue
		}
		v = s.f[p.field]
	}
	return v
}

func (e *Engine) setPath(v Val, path []PathElem, x Val) Val {
	if len(path) == 0 {
		return x
	}
	s := v.(*VStruct)
	p := path[0]
	n := &VStruct{f: append([]Val{}, s.f...)}
	if p.idx != nil {
		for i := range s.f {
			c := e.tt.Eq(p.idx, e.tt.Int(int64(i)))
			if c.isFalse() {
				continue
			}
			n.f[i] = e.mergeVal(c, e.setPath(s.f[i], path[1:], x), s.f[i])
		}
		return n
	}
	n.f[p.field] = e.setPath(s.f[p.field], path[1:], x)
	return n
}

func (e *Engine) storeLoc(st *State, l *Loc, v Val) {
	if l.cell != nil {
		if f, ok := st.fwd[l.cell]; ok {
			l = &Loc{elem: l.cell.typ, ref: f, idx: e.tt.Int(0), path: l.path}
		}
	}
	if l.cell != nil {
		old, ok := st.cells[l.cell]
		if !ok && e.globalOf[l.cell] != nil {
			old, ok = e.globalInit(st, l.cell), true
		}
		if !ok {
			return
		}
		st.cells[l.cell] = e.setPath(old, l.path, v)
		return
	}
	if n, off, lt, ok := e.leafRange(l.elem, l.path); ok {
		ls := e.toLeaves(st, lt, v)
		e.writeHeap(st, l.elem, l.ref, l.idx, off, ls[:n])
		return
	}
	old, _ := e.fromLeaves(l.elem, e.readHeap(st, l.elem, l.ref, l.idx))
	nv := e.setPath(old, l.path, v)
	e.writeHeap(st, l.elem, l.ref, l.idx, 0, e.toLeaves(st, l.elem, nv))
}

func (e *Engine) writeHeap(st *State, t types.Type, ref, idx *Term, off int, ls []*Term) {
	h := append([]*Term{}, e.heapOf(st, t)...)
	for i, x := range ls {
		h[off+i] = e.tt.Store(h[off+i], ref, e.tt.Store(e.tt.Select(h[off+i], ref), idx, x))
	}
	st.heap[typeKey(t)] = h
	e.logWrite(t, ref)
}

func (e *Engine) logWrite(t types.Type, ref *Term) {
	e.histWrite(typeKey(t), ref)
	e.logWriteFresh(t, ref)
}

// logWriteFresh records a write that keeps the histories of the array.
func (e *Engine) logWriteFresh(t types.Type, ref *Term) {
	if _, ok := e.snaps[ref]; ok {
		unsup("write to a snapshot")
	}
	if e.writeLog != nil {
		e.writeLog = append(e.writeLog, heapWrite{typeKey(t), ref})
	}
}

type heapWrite struct {
	key string
	ref *Term
}

// load through a pointer value
func (e *Engine) load(st *State, p *VPtr, t types.Type) Val {
	var r Val
	for i := len(p.alts) - 1; i >= 0; i-- {
		a := p.alts[i]
		if a.loc == nil {
			continue
		}
		v := e.loadLoc(st, a.loc, t)
		if r == nil {
			r = v
		} else {
			r = e.mergeVal(a.g, v, r)
		}
	}
	if r == nil {
		return e.havocVal(t, "nilload", nil)
	}
	return r
}

func (e *Engine) store(st *State, p *VPtr, t types.Type, v Val) {
	n := 0
	for _, a := range p.alts {
		if a.loc != nil {
			n++
		}
	}
	for _, a := range p.alts {
		if a.loc == nil {
			continue
		}
		if n == 1 {
			e.storeLoc(st, a.loc, v)
			return
		}
		old := e.loadLoc(st, a.loc, t)
		e.storeLoc(st, a.loc, e.mergeVal(a.g, v, old))
	}
}

// fresh value of a type with type invariants assumed (st may be nil: no assumptions)
func (e *Engine) havocVal(t types.Type, hint string, st *State) Val {
	ls := make([]*Term, 0)
	for i, s := range e.leaves(t) {
		ls = append(ls, e.fresh(hint+"_"+itoa(i), s))
	}
	v, _ := e.fromLeaves(t, ls)
	if st != nil {
		e.assumeTypeInv(st, t, v)
	}
	return v
}

func (e *Engine) fresh(hint string, s Sort) *Term {
	if len(e.boundStack) > 0 {
		e.tt.symSeq++
		return e.tt.App("sk_"+sanitize(hint)+"_"+itoa(e.tt.symSeq), s, e.boundStack...)
	}
	return e.tt.sym(hint, s)
}

// assumeTypeInv assumes what the Go type system guarantees of a value.
func (e *Engine) assumeTypeInv(st *State, t types.Type, v Val) {
	c := e.typeInv(st, t, v)
	if !c.isTrue() {
		e.assume(st, c)
	}
}

func (e *Engine) typeInv(st *State, t types.Type, v Val) *Term {
	tt := e.tt
	if isBuilder(t) {
		return tt.True()
	}
	switch u := under(t).(type) {
	case *types.Struct:
		var cs []*Term
		for i := 0; i < u.NumFields(); i++ {
			cs = append(cs, e.typeInv(st, u.Field(i).Type(), v.(*VStruct).f[i]))
		}
		return tt.And(cs...)
	case *types.Tuple:
		var cs []*Term
		for i := 0; i < u.Len(); i++ {
			cs = append(cs, e.typeInv(st, u.At(i).Type(), v.(*VStruct).f[i]))
		}
		return tt.And(cs...)
	case *types.Array:
		var cs []*Term
		for i := int64(0); i < u.Len(); i++ {
			cs = append(cs, e.typeInv(st, u.Elem(), v.(*VStruct).f[i]))
		}
		return tt.And(cs...)
	case *types.Slice:
		s := v.(*VSlice)
		z := tt.Int(0)
		return tt.And(tt.Le(z, s.off), tt.Le(z, s.ln), tt.Le(s.ln, s.cp), tt.Le(z, s.ref), tt.Lt(s.ref, st.next), tt.Le(s.cp, tt.Int(1<<62)),
			tt.Implies(tt.Eq(s.ref, z), tt.Eq(s.cp, z)))
	case *types.Pointer:
		p := v.(*VPtr)
		var cs []*Term
		for _, a := range p.alts {
			if a.loc != nil && a.loc.cell == nil && !a.loc.ref.isNum() {
				cs = append(cs, tt.And(tt.Le(tt.Int(0), a.loc.ref), tt.Lt(a.loc.ref, st.next)))
			}
		}
		return tt.And(cs...)
	case *types.Map, *types.Chan:
		x := v.(*Term)
		return tt.And(tt.Le(tt.Int(0), x), tt.Lt(x, st.next))
	case *types.Basic:
		x, ok := v.(*Term)
		if !ok || x.sort != SInt {
			return tt.True()
		}
		if lo, hi, _, _, ok := intRange(t); ok {
			return tt.And(tt.Le(tt.Big(lo), x), tt.Le(x, tt.Big(hi)))
		}
	}
	return tt.True()
}
