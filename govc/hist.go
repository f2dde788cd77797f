package main

import (
	"go/token"
	"go/types"
	"os"

	"golang.org/x/tools/go/ssa"
)

// A history lists the elements of a slice whose length is symbolic because some elements are present
// only under a condition: the elements present, in order, are those whose guard is true. It is kept as
// long as nothing but appends writes the arrays it lives in.

type histItem struct {
	g *Term
	v Val
}

type histParent struct {
	h *history
	g *Term
}

type history struct {
	items   []histItem
	refs    []*Term // the arrays
	key     string  // the element type
	parents []histParent
	exts    []*Term // path conditions under which something was appended
}

const maxHist = 64

// histOf is the valid history of a slice, or nil.
func (e *Engine) histOf(s *VSlice) *history {
	h := s.h
	if h == nil {
		if s.ln.isNum() && s.ln.big().Sign() == 0 && s.ref.isNum() {
			return &history{}
		}
		return nil
	}
	if h.key != "" && e.histAll[h.key] {
		return nil
	}
	for _, r := range h.refs {
		if e.histDead[r] {
			return nil
		}
	}
	return h
}

// histWrite ends the histories that live in the array.
func (e *Engine) histWrite(key string, ref *Term) {
	if ref.op == "ite" {
		e.histWrite(key, ref.args[1])
		e.histWrite(key, ref.args[2])
		return
	}
	if ref.isNum() {
		return
	}
	if ref.op == "const" {
		if len(ref.name) > 6 && ref.name[:6] == "alloc!" {
			e.histDead[ref] = true
			return
		}
		if ref.seq <= e.entrySeq {
			return // an array that exists when the contract starts
		}
	}
	e.histAll[key] = true
}

func (e *Engine) histExtend(h *history, pc *Term) {
	for _, x := range h.exts {
		if !e.exclusive(x, pc) {
			// two appends to the same slice: the later overwrites what the earlier added
			if os.Getenv("GOVC_DBG") != "" {
				println("two appends", pp(x, 6), "AND", pp(pc, 6))
			}
			for _, r := range h.refs {
				e.histDead[r] = true
			}
		}
	}
	h.exts = append(h.exts, pc)
	for _, p := range h.parents {
		if p.g == nil {
			e.histExtend(p.h, pc)
		} else {
			e.histExtend(p.h, e.tt.And(pc, p.g))
		}
	}
}

// histAppend is the history of append(s, t...), whose result lives in ref.
func (e *Engine) histAppend(st *State, et types.Type, s, t *VSlice, ref *Term) *history {
	h, k := e.histOf(s), e.histOf(t)
	if h == nil {
		e.histWrite(typeKey(et), ref)
		return nil
	}
	e.histExtend(h, e.pcTerm(st))
	if h = e.histOf(&VSlice{ref: s.ref, ln: s.ln, h: h}); h == nil || k == nil || len(h.items)+len(k.items) > maxHist {
		return nil
	}
	// appending to the result appends to s only when nothing was added
	none := e.tt.True()
	for _, it := range k.items {
		none = e.tt.And(none, e.tt.Not(it.g))
	}
	n := &history{key: typeKey(et)}
	if !none.isFalse() {
		n.parents = []histParent{{h, none}}
	}
	n.items = append(append(n.items, h.items...), k.items...)
	refs := append([]*Term{}, h.refs...)
	var add func(r *Term) bool
	add = func(r *Term) bool {
		if r.op == "ite" {
			return add(r.args[1]) && add(r.args[2])
		}
		for _, x := range refs {
			if x == r {
				return true
			}
		}
		if r.isNum() {
			return true
		}
		if r.op != "const" || len(r.name) < 6 || r.name[:6] != "alloc!" {
			return false
		}
		refs = append(refs, r)
		return true
	}
	if !add(ref) {
		return nil
	}
	n.refs = refs
	return n
}

// histMerge is the history of (if c then x else y).
func (e *Engine) histMerge(c *Term, x, y *VSlice) *history {
	if x.h == y.h && x.h != nil {
		return x.h
	}
	h, k := e.histOf(x), e.histOf(y)
	if h == nil || k == nil || h.key != "" && k.key != "" && h.key != k.key {
		if os.Getenv("GOVC_DBG") != "" {
			println("merge lost", x.h != nil, y.h != nil, h != nil, k != nil)
		}
		return nil
	}
	n := &history{key: h.key, parents: []histParent{{h, c}, {k, e.tt.Not(c)}}}
	if n.key == "" {
		n.key = k.key
	}
	p := 0
	for p < len(h.items) && p < len(k.items) && h.items[p].g == k.items[p].g && sameVal(h.items[p].v, k.items[p].v) {
		n.items = append(n.items, h.items[p])
		p++
	}
	for _, it := range h.items[p:] {
		if g := e.tt.And(c, it.g); !g.isFalse() {
			n.items = append(n.items, histItem{g, it.v})
		}
	}
	for _, it := range k.items[p:] {
		if g := e.tt.And(e.tt.Not(c), it.g); !g.isFalse() {
			n.items = append(n.items, histItem{g, it.v})
		}
	}
	if len(n.items) > maxHist {
		return nil
	}
	for _, r := range append(append([]*Term{}, h.refs...), k.refs...) {
		dup := false
		for _, q := range n.refs {
			dup = dup || q == r
		}
		if !dup {
			n.refs = append(n.refs, r)
		}
	}
	return n
}

// histNew is the history of a fresh array with known elements.
func (e *Engine) histNew(et types.Type, ref *Term, vs []Val) *history {
	h := &history{key: typeKey(et), refs: []*Term{ref}}
	for _, v := range vs {
		h.items = append(h.items, histItem{e.tt.True(), v})
	}
	return h
}

// unrollHist runs a range loop over a slice with a history, element by element.
func (e *Engine) unrollHist(act *Act, l *Loop, phis []*ssa.Phi, st0 *State, entry []Val, pend map[*ssa.BasicBlock][]edge) bool {
	tt := e.tt
	iff, ok := l.head.Instrs[len(l.head.Instrs)-1].(*ssa.If)
	if !ok || !l.blocks[l.head.Succs[0]] || l.blocks[l.head.Succs[1]] {
		return false
	}
	cmp, ok := iff.Cond.(*ssa.BinOp)
	if !ok || cmp.Op != token.LSS {
		return false
	}
	call, ok := cmp.Y.(*ssa.Call)
	if !ok {
		return false
	}
	b, ok := call.Call.Value.(*ssa.Builtin)
	if !ok || b.Name() != "len" || l.blocks[call.Block()] {
		return false
	}
	x := call.Call.Args[0]
	if _, ok := x.Type().Underlying().(*types.Slice); !ok {
		return false
	}
	if in, ok := x.(ssa.Instruction); ok && l.blocks[in.Block()] {
		return false
	}
	s, ok := e.operand(act, x).(*VSlice)
	if !ok {
		return false
	}
	h := e.histOf(s)
	if h == nil {
		return false
	}
	// the index is the only integer the loop counts with
	inc, ok := cmp.X.(*ssa.BinOp)
	if !ok || inc.Op != token.ADD {
		return false
	}
	phi, ok := inc.X.(*ssa.Phi)
	if !ok || phi.Block() != l.head || phi.Comment != "rangeindex" {
		return false
	}
	forced := map[ssa.Instruction]bool{}
	var loads []ssa.Value
	for _, blk := range l.order {
		for _, in := range blk.Instrs {
			a, ok := in.(*ssa.IndexAddr)
			if !ok || a.X != x {
				continue
			}
			if a.Index != ssa.Value(inc) {
				return false
			}
			forced[a] = true
			for _, r := range *a.Referrers() {
				switch r := r.(type) {
				case *ssa.UnOp:
					loads = append(loads, r)
				case *ssa.DebugRef:
				default:
					return false
				}
			}
		}
	}
	if act.forced == nil {
		act.forced = map[ssa.Value]Val{}
	}
	defer func() {
		for _, v := range loads {
			delete(act.forced, v)
		}
		for in := range forced {
			delete(act.forced, in.(ssa.Value))
		}
		delete(act.forced, iff.Cond)
	}()
	for in := range forced {
		act.forced[in.(ssa.Value)] = &VPtr{}
	}
	saved := act.region
	var exits []loopExit
	run := func(st *State, hv []Val) []edge {
		for i, p := range phis {
			act.env[p] = hv[i]
		}
		r := &region{parent: saved, head: l.head, loop: l, outer: map[*ssa.BasicBlock][]edge{}}
		act.region = r
		e.runRegion(act, l.order, map[*ssa.BasicBlock][]edge{l.head: {{st: st, phis: hv}}})
		act.region = saved
		exits = append(exits, e.exitsOf(act, l, r)...)
		return r.backs
	}
	st, hv := st0.clone(), entry
	for _, it := range h.items {
		var next []edge
		if !it.g.isTrue() {
			skip := st.clone()
			skip.pc = append(skip.pc[:len(skip.pc):len(skip.pc)], tt.Not(it.g))
			next = append(next, edge{st: skip, phis: hv})
		}
		in := st.clone()
		if !it.g.isTrue() {
			in.pc = append(in.pc[:len(in.pc):len(in.pc)], it.g)
		}
		for _, v := range loads {
			act.forced[v] = it.v
		}
		act.forced[iff.Cond] = tt.True()
		next = append(next, run(in, hv)...)
		var nv []Val
		if st, nv = e.mergeEdges(next); st == nil {
			break
		}
		hv = nv
	}
	if st != nil {
		act.forced[iff.Cond] = tt.False()
		run(st, hv)
	}
	e.leaveLoop(saved, exits, pend)
	return true
}

// decide specialises the guards to a known condition.
func (h *history) decide(c *Term, truth bool) *history {
	n := &history{key: h.key, refs: h.refs, parents: []histParent{{h, nil}}}
	changed := false
	for _, it := range h.items {
		g := decideVal(it.g, c, truth).(*Term)
		v := decideVal(it.v, c, truth)
		changed = changed || g != it.g
		if g.isFalse() || it.g == c && !truth {
			changed = true
			continue
		}
		n.items = append(n.items, histItem{g, v})
	}
	if !changed {
		return h
	}
	return n
}

// exclusive: the conditions contradict each other, by unit propagation.
func (e *Engine) exclusive(conds ...*Term) bool {
	tt := e.tt
	facts := map[*Term]bool{}
	var open []*Term
	var add func(x *Term) bool // false on a contradiction
	add = func(x *Term) bool {
		switch x.op {
		case "true":
			return true
		case "false":
			return false
		case "and":
			for _, y := range x.args {
				if !add(y) {
					return false
				}
			}
			return true
		case "or":
			open = append(open, x)
		case "not":
			switch y := x.args[0]; y.op {
			case "or":
				for _, z := range y.args {
					if !add(tt.Not(z)) {
						return false
					}
				}
			case "and":
				var ns []*Term
				for _, z := range y.args {
					ns = append(ns, tt.Not(z))
				}
				open = append(open, tt.Or(ns...))
			}
		}
		facts[x] = true
		return !facts[tt.Not(x)]
	}
	for _, c := range conds {
		if !add(c) {
			return true
		}
	}
	for changed := true; changed; {
		changed = false
		todo := open
		open = nil
		for _, o := range todo {
			if o.op != "or" {
				if !facts[o] {
					changed = true
					if !add(o) {
						return true
					}
				}
				continue
			}
			var left []*Term
			sat := false
			for _, d := range o.args {
				if facts[d] {
					sat = true
				}
				if facts[tt.Not(d)] {
					continue
				}
				if d.op == "and" {
					dead := false
					for _, x := range d.args {
						dead = dead || facts[tt.Not(x)]
					}
					if dead {
						continue
					}
				}
				left = append(left, d)
			}
			switch {
			case sat:
			case len(left) == 0:
				return true
			case len(left) == 1:
				changed = true
				if !add(left[0]) {
					return true
				}
			default:
				open = append(open, o)
			}
		}
	}
	return false
}
