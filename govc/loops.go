package main

import (
	"fmt"
	"go/constant"
	"go/token"
	"go/types"
	"math/big"
	"sort"
	"strings"

	"golang.org/x/tools/go/ssa"
)

type Loop struct {
	head   *ssa.BasicBlock
	blocks map[*ssa.BasicBlock]bool
	order  []*ssa.BasicBlock
	fixed  map[ssa.Value]*Term // integer values computed in the body that do not change between iterations
}

type loopInfo struct {
	rpo   []*ssa.BasicBlock
	heads map[*ssa.BasicBlock]*Loop
}

func (e *Engine) loopsOf(fn *ssa.Function) *loopInfo {
	if l, ok := e.loopCache[fn]; ok {
		return l
	}
	li := &loopInfo{heads: map[*ssa.BasicBlock]*Loop{}}
	seen := map[*ssa.BasicBlock]bool{}
	var post []*ssa.BasicBlock
	var dfs func(b *ssa.BasicBlock)
	dfs = func(b *ssa.BasicBlock) {
		seen[b] = true
		for _, s := range b.Succs {
			if !seen[s] {
				dfs(s)
			}
		}
		post = append(post, b)
	}
	dfs(fn.Blocks[0])
	for i := len(post) - 1; i >= 0; i-- {
		li.rpo = append(li.rpo, post[i])
	}
	for _, b := range li.rpo {
		for _, s := range b.Succs {
			if s.Dominates(b) {
				l := li.heads[s]
				if l == nil {
					l = &Loop{head: s, blocks: map[*ssa.BasicBlock]bool{s: true}}
					li.heads[s] = l
				}
				var up func(x *ssa.BasicBlock)
				up = func(x *ssa.BasicBlock) {
					if l.blocks[x] {
						return
					}
					l.blocks[x] = true
					for _, p := range x.Preds {
						if seen[p] {
							up(p)
						}
					}
				}
				up(b)
			}
		}
	}
	for _, l := range li.heads {
		for _, b := range li.rpo {
			if l.blocks[b] {
				l.order = append(l.order, b)
			}
		}
	}
	e.loopCache[fn] = li
	return li
}

type modSet struct {
	cells map[*Cell]bool
	heaps map[string]map[*Term]bool // written rows whose reference is fixed during the loop
	wild  map[string]bool           // heaps written at references computed in the loop
	maps  map[string]bool
	ghost map[string]bool
	phis  map[int]bool              // interface, function and pointer phis the body changes
	parts map[*Cell]map[string]bool // the fields and elements of a cell the body changes
}

func newModSet() *modSet {
	return &modSet{map[*Cell]bool{}, map[string]map[*Term]bool{}, map[string]bool{}, map[string]bool{}, map[string]bool{}, map[int]bool{}, map[*Cell]map[string]bool{}}
}

func (m *modSet) size() int {
	n := len(m.phis) + len(m.cells) + len(m.wild) + len(m.maps) + len(m.ghost) + len(m.heaps)
	for _, r := range m.heaps {
		n += len(r)
	}
	for _, r := range m.parts {
		n += len(r)
	}
	return n
}

func (e *Engine) runLoop(act *Act, l *Loop, es []edge, pend map[*ssa.BasicBlock][]edge) {
	tt := e.tt
	st0, entry := e.mergeEdges(es)
	if st0 == nil {
		return
	}
	phis := e.phiCount(l.head)
	if e.unrollHist(act, l, phis, st0, entry, pend) || e.unroll(act, l, phis, st0, entry, pend) {
		return
	}
	startSeq := tt.symSeq
	if r := e.rangeOf(l); r != nil {
		saved := e.curRange
		e.curRange = r
		defer func() { e.curRange = saved }()
	}

	saveEnv := func() map[ssa.Value]Val {
		m := make(map[ssa.Value]Val, len(act.env))
		for k, v := range act.env {
			m[k] = v
		}
		return m
	}

	// --- discover what the body modifies
	mods := newModSet()
	env0 := saveEnv()
	nd := len(act.defers)
	wasDry := e.dry
	for iter := 0; ; iter++ {
		if iter > 12 {
			unsup("loop modification analysis does not converge in %s", act.fn)
		}
		e.dry = true
		savedAssumes := len(e.assumes)
		savedRets := act.rets
		savedLog := e.writeLog
		savedObls := len(e.obls)
		savedCatch := make([]int, len(e.catch))
		for i, f := range e.catch {
			savedCatch[i] = len(f.states)
		}
		e.assumeEpoch++
		e.writeLog = []heapWrite{}
		bodySeq := tt.symSeq
		st1 := st0.clone()
		hv := e.havocLoop(st1, st0, mods, phis, entry, false)
		backs := e.runBody(act, l, st1.clone(), hv, nil, true)
		before := mods.size()
		var early []*Cell
		// what the trial run put on the heap gets its references anew
		for c, r := range e.cellRefs {
			if r.seq > bodySeq {
				delete(e.cellRefs, c)
			}
		}
		for _, b := range backs {
			for i, p := range phis {
				if steadyPhi(p) && !sameVal(b.phis[i], entry[i]) {
					mods.phis[i] = true
				}
			}
			for c, v := range b.st.cells {
				if w, ok := st1.cells[c]; ok && !sameVal(v, w) {
					mods.cells[c] = true
					if mods.parts[c] == nil {
						mods.parts[c] = map[string]bool{}
					}
					diffParts(c.typ, v, w, "", mods.parts[c])
				}
			}
			for c := range b.st.fwd {
				if _, ok := st1.fwd[c]; !ok {
					if _, ok := st0.cells[c]; ok {
						early = append(early, c)
					}
				}
			}
			for k, m := range b.st.maps {
				o := st1.maps[k]
				if o == nil {
					o = e.map0s[k]
				}
				if m.dom != o.dom || m.size != o.size || !sameTerms(m.vals, o.vals) {
					mods.maps[k] = true
				}
			}
			for k, g := range b.st.ghost {
				if st1.ghost[k] != g {
					mods.ghost[k] = true
				}
			}
		}
		for _, w := range e.writeLog {
			if mods.heaps[w.key] == nil {
				mods.heaps[w.key] = map[*Term]bool{}
			}
			if w.ref.seq <= startSeq {
				mods.heaps[w.key][w.ref] = true
			} else if w.ref.op == "const" && w.ref.seq > bodySeq && len(w.ref.name) > 6 && w.ref.name[:6] == "alloc!" {
				// allocated inside the iteration
			} else {
				// components of conditional references that are fixed
				wild := false
				var split func(x *Term)
				split = func(x *Term) {
					if x.op == "ite" {
						split(x.args[1])
						split(x.args[2])
						return
					}
					if x.seq <= startSeq {
						mods.heaps[w.key][x] = true
					} else if x.op == "const" && x.seq > bodySeq && len(x.name) > 6 && x.name[:6] == "alloc!" {
					} else {
						wild = true
					}
				}
				split(w.ref)
				if wild {
					mods.wild[w.key] = true
				}
			}
		}
		log := e.writeLog
		e.writeLog = savedLog
		_ = log
		e.assumes = e.assumes[:savedAssumes]
		e.assumeEpoch++
		e.obls = e.obls[:savedObls]
		// put on the heap inside: put there before the loop
		sort.Slice(early, func(i, j int) bool { return early[i].id < early[j].id })
		for _, c := range early {
			e.promote(st0, &Loc{cell: c})
		}
		act.rets = savedRets
		act.defers = act.defers[:nd]
		for i, f := range e.catch {
			f.states = f.states[:savedCatch[i]]
		}
		l.fixed = map[ssa.Value]*Term{}
		for _, b := range l.order {
			for _, in := range b.Instrs {
				if v, ok := in.(ssa.Value); ok {
					if t, ok := act.env[v].(*Term); ok && t.sort == SInt && t.seq <= startSeq {
						l.fixed[v] = t
					}
				}
			}
		}
		act.env = env0
		env0 = saveEnv()
		e.dry = wasDry
		if mods.size() == before {
			break
		}
	}

	// --- the real pass
	if e.writeLog != nil {
		// propagate to an enclosing loop's analysis
		for k, rows := range mods.heaps {
			for r := range rows {
				e.writeLog = append(e.writeLog, heapWrite{k, r})
			}
		}
		for k := range mods.wild {
			e.writeLog = append(e.writeLog, heapWrite{k, tt.sym("wild", SInt)})
		}
	}
	st1 := st0.clone()
	for i, p := range phis {
		act.env[p] = entry[i]
	}
	hv := e.havocLoop(st1, st0, mods, phis, entry, true)

	name := fmt.Sprintf("%s loop at block %d", act.fn.RelString(nil), l.head.Index)
	var cands []*loopCand
	if !e.dry {
		cands = e.makeCands(act, l, phis, st0, entry, st1, hv, mods)
	}
	for _, c := range cands {
		init := c.eval(st0, entry)
		if init == nil {
			continue
		}
		e.invObl(st0, act, c, "inv-init", name, init)
	}
	for i, p := range phis {
		act.env[p] = hv[i]
	}
	for _, c := range cands {
		t := c.eval(st1, hv)
		if t == nil {
			c.c.alive = false
			continue
		}
		e.rawAssume(tt.Implies(tt.And(c.c.lit, e.pcTerm(st1)), t))
	}
	var measHead []*Term
	var meas []*Measure
	var mfs []func(*State, []Val) *Term
	if !e.dry && e.opts.term && !act.isSpec && len(e.boundStack) == 0 && e.pure == 0 {
		mfs = e.measures(act, l, phis, hv, st1)
		for i, f := range mfs {
			m := &Measure{loop: name, id: i, alive: true}
			meas = append(meas, m)
			measHead = append(measHead, f(st1, hv))
			m.desc = measHead[i].String()
		}
		if len(mfs) == 0 {
			e.check(st1, act, "termination", "no ranking function known for "+name, l.head.Instrs[0].Pos(), tt.False())
		} else {
			e.measGroups = append(e.measGroups, meas)
		}
	}
	st1.pc = st1.pc[:len(st1.pc):len(st1.pc)]
	backs := e.runBody(act, l, st1.clone(), hv, pend, false)
	for _, b := range backs {
		for i, p := range phis {
			act.env[p] = b.phis[i]
		}
		for _, c := range cands {
			if !c.c.alive {
				continue
			}
			t := c.eval(b.st, b.phis)
			if t == nil {
				c.c.alive = false
				continue
			}
			e.invObl(b.st, act, c, "inv-pres", name, t)
		}
		for i, f := range mfs {
			after := f(b.st, b.phis)
			goal := tt.And(tt.Le(tt.Int(0), measHead[i]), tt.Lt(after, measHead[i]))
			o := &Obl{id: len(e.obls), kind: "termination", desc: name + " decreases " + meas[i].desc, goal: tt.Implies(e.pcTerm(b.st), goal), prefix: len(e.assumes), fn: fnName(act), meas: meas[i]}
			e.obls = append(e.obls, o)
			meas[i].obls = append(meas[i].obls, o)
		}
	}
	for i, p := range phis {
		act.env[p] = hv[i]
	}
}

// unroll runs a loop whose trip count is a small constant iteration by iteration.
func (e *Engine) unroll(act *Act, l *Loop, phis []*ssa.Phi, st0 *State, entry []Val, pend map[*ssa.BasicBlock][]edge) bool {
	const most = 8
	iff, ok := l.head.Instrs[len(l.head.Instrs)-1].(*ssa.If)
	if !ok || act.isSpec {
		return false
	}
	cmp, ok := iff.Cond.(*ssa.BinOp)
	if !ok || cmp.Op != token.LSS || !l.blocks[l.head.Succs[0]] || l.blocks[l.head.Succs[1]] {
		return false
	}
	num := func(v ssa.Value) (*big.Int, bool) {
		if c, ok := v.(*ssa.Const); ok {
			if c.Value == nil || c.Value.Kind() != constant.Int {
				return nil, false
			}
			return big.NewInt(c.Int64()), true
		}
		for i, p := range phis {
			if p == v {
				t, ok := entry[i].(*Term)
				if !ok || !t.isNum() {
					return nil, false
				}
				return t.big(), true
			}
		}
		if in, ok := v.(ssa.Instruction); ok && l.blocks[in.Block()] {
			return nil, false
		}
		t, ok := act.env[v].(*Term)
		if !ok || !t.isNum() {
			return nil, false
		}
		return t.big(), true
	}
	hi, ok := num(cmp.Y)
	if !ok {
		return false
	}
	x := cmp.X
	off := big.NewInt(0)
	if a, ok := x.(*ssa.BinOp); ok && a.Op == token.ADD && l.blocks[a.Block()] {
		d, ok := num(a.Y)
		if _, c := a.Y.(*ssa.Const); !ok || !c {
			return false
		}
		off, x = d, a.X
	}
	if p, ok := x.(*ssa.Phi); !ok || p.Block() != l.head {
		return false
	}
	lo, ok := num(x)
	if !ok {
		return false
	}
	n := new(big.Int).Sub(hi, new(big.Int).Add(lo, off))
	if n.Cmp(big.NewInt(most)) > 0 {
		return false
	}
	savedAssumes, savedObls, savedRets, savedDefers := len(e.assumes), len(e.obls), act.rets, len(act.defers)
	env0 := make(map[ssa.Value]Val, len(act.env))
	for k, v := range act.env {
		env0[k] = v
	}
	st, hv := st0.clone(), entry
	var exits []loopExit
	for iter := 0; ; iter++ {
		for i, p := range phis {
			act.env[p] = hv[i]
		}
		saved := act.region
		r := &region{parent: saved, head: l.head, loop: l, outer: map[*ssa.BasicBlock][]edge{}}
		act.region = r
		e.runRegion(act, l.order, map[*ssa.BasicBlock][]edge{l.head: {{st: st, phis: hv}}})
		act.region = saved
		c, ok := act.env[iff.Cond].(*Term)
		exits = append(exits, e.exitsOf(act, l, r)...)
		if ok && (c.isFalse() || len(r.backs) == 0) {
			e.leaveLoop(saved, exits, pend)
			return true
		}
		if ok && c.isTrue() && iter <= most {
			if st2, hv2 := e.mergeEdges(r.backs); st2 != nil {
				st, hv = st2, hv2
				continue
			}
		}
		// not that simple after all
		e.assumes = e.assumes[:savedAssumes]
		e.assumeEpoch++
		e.obls = e.obls[:savedObls]
		act.rets = savedRets
		act.defers = act.defers[:savedDefers]
		act.env = env0
		return false
	}
}

// loopExit: edges that leave an unrolled loop for a block.
type loopExit struct {
	b  *ssa.BasicBlock
	es []edge
}

// exitsOf collects the edges that leave the loop in one iteration. What the loop computes and later
// blocks use travels with the edge, because it differs between iterations.
func (e *Engine) exitsOf(act *Act, l *Loop, r *region) []loopExit {
	if act.live == nil {
		act.live = map[ssa.Value]*Cell{}
	}
	var out []ssa.Value
	for _, b := range l.order {
		for _, in := range b.Instrs {
			v, ok := in.(ssa.Value)
			if !ok || v.Referrers() == nil {
				continue
			}
			for _, u := range *v.Referrers() {
				if !l.blocks[u.Block()] {
					out = append(out, v)
					break
				}
			}
		}
	}
	var xs []loopExit
	for _, b := range act.fn.Blocks {
		es := r.outer[b]
		if len(es) == 0 {
			continue
		}
		var ns []edge
		for _, x := range es {
			x.st = x.st.clone()
			for _, v := range out {
				if val, ok := act.env[v]; ok {
					c := act.live[v]
					if c == nil {
						e.cellCount++
						c = &Cell{id: e.cellCount, name: "live", typ: v.Type()}
						act.live[v] = c
						act.liveOrder = append(act.liveOrder, v)
						if act.liveLoop == nil {
							act.liveLoop = map[ssa.Value]*Loop{}
						}
						act.liveLoop[v] = l
					}
					x.st.cells[c] = val
				}
			}
			ns = append(ns, x)
		}
		xs = append(xs, loopExit{b, ns})
	}
	return xs
}

func (e *Engine) leaveLoop(saved *region, exits []loopExit, pend map[*ssa.BasicBlock][]edge) {
	for _, x := range exits {
		b, es := x.b, x.es
		if saved != nil && b == saved.head {
			saved.backs = append(saved.backs, es...)
		} else if saved != nil && !saved.loop.blocks[b] {
			saved.outer[b] = append(saved.outer[b], es...)
		} else {
			pend[b] = append(pend[b], es...)
		}
	}
}

func sameTerms(a, b []*Term) bool {
	for i := range a {
		if a[i] != b[i] {
			return false
		}
	}
	return true
}

func (e *Engine) runBody(act *Act, l *Loop, st *State, hv []Val, pend map[*ssa.BasicBlock][]edge, discard bool) []edge {
	saved := act.region
	r := &region{parent: saved, head: l.head, loop: l, outer: map[*ssa.BasicBlock][]edge{}}
	act.region = r
	inner := map[*ssa.BasicBlock][]edge{l.head: {{st: st, phis: hv}}}
	e.runRegion(act, l.order, inner)
	act.region = saved
	if discard {
		return r.backs
	}
	for b, es := range r.outer {
		if saved != nil && b == saved.head {
			saved.backs = append(saved.backs, es...)
			continue
		}
		if saved != nil && !saved.loop.blocks[b] {
			saved.outer[b] = append(saved.outer[b], es...)
			continue
		}
		pend[b] = append(pend[b], es...)
	}
	return r.backs
}

func sameVal(a, b Val) bool {
	if a == b {
		return true
	}
	switch x := a.(type) {
	case *Term:
		return false
	case *VStruct:
		y, ok := b.(*VStruct)
		if !ok || len(x.f) != len(y.f) {
			return false
		}
		for i := range x.f {
			if !sameVal(x.f[i], y.f[i]) {
				return false
			}
		}
		return true
	case *VSlice:
		y, ok := b.(*VSlice)
		return ok && x.ref == y.ref && x.off == y.off && x.ln == y.ln && x.cp == y.cp
	case *VPtr:
		y, ok := b.(*VPtr)
		if !ok || len(x.alts) != len(y.alts) {
			return false
		}
		for i := range x.alts {
			if x.alts[i].g != y.alts[i].g || !sameLoc(x.alts[i].loc, y.alts[i].loc) {
				return false
			}
		}
		return true
	case *VIface:
		y, ok := b.(*VIface)
		if !ok || len(x.alts) != len(y.alts) {
			return false
		}
		for i := range x.alts {
			p, q := x.alts[i], y.alts[i]
			if p.g != q.g || p.opaque != q.opaque || (p.typ == nil) != (q.typ == nil) {
				return false
			}
			if p.typ != nil && (!types.Identical(p.typ, q.typ) || !sameVal(p.val, q.val)) {
				return false
			}
		}
		return true
	case *VFunc:
		y, ok := b.(*VFunc)
		if !ok || len(x.alts) != len(y.alts) {
			return false
		}
		for i := range x.alts {
			p, q := x.alts[i], y.alts[i]
			if p.g != q.g || p.fn != q.fn || p.opaque != q.opaque || len(p.bind) != len(q.bind) {
				return false
			}
			for j := range p.bind {
				if !sameVal(p.bind[j], q.bind[j]) {
					return false
				}
			}
		}
		return true
	}
	return false
}

// havocLoop replaces everything the loop may change by fresh symbols in st1 and returns phi values.
func (e *Engine) havocLoop(st1, st0 *State, mods *modSet, phis []*ssa.Phi, entry []Val, real bool) []Val {
	tt := e.tt
	nx := tt.sym("next", SInt)
	e.rawAssume(tt.Le(st0.next, nx))
	if e.lastAlloc != nil {
		e.rawAssume(tt.Lt(e.lastAlloc, nx))
	}
	st1.next = nx
	for c := range mods.cells {
		if _, ok := st1.cells[c]; ok {
			st1.cells[c] = e.havocParts(st1, c.typ, "h_"+c.name, st0.cells[c], "", mods.parts[c])
		}
	}
	keys := map[string]bool{}
	for k := range mods.heaps {
		if !strings.HasPrefix(k, "map ") {
			keys[k] = true
		}
	}
	for k := range mods.wild {
		if !strings.HasPrefix(k, "map ") {
			keys[k] = true
		}
	}
	for _, k := range sortedKeys(keys) {
		t := e.heapTypes[k]
		old := e.heapOf(st0, t)
		h := make([]*Term, len(old))
		for i := range old {
			a := tt.sym("Hl", old[i].sort)
			h[i] = a
			if !mods.wild[k] {
				// rows that exist at loop entry and are not written keep their contents
				r := tt.bound("r", SInt)
				cs := []*Term{tt.Lt(r, st0.next)}
				for _, w := range sortedTerms(mods.heaps[k]) {
					cs = append(cs, tt.Not(tt.Eq(r, w)))
				}
				body := tt.Implies(tt.And(cs...), tt.Eq(tt.mk("select", "", a.sort.elem(), a, r), tt.Select(old[i], r)))
				q := tt.Quant("forall", []*Term{r}, body, [][]*Term{{tt.mk("select", "", a.sort.elem(), a, r)}})
				e.rawAssume(q)
			}
			if _, ok := t.Underlying().(*types.Pointer); ok && i == 0 {
				// stored pointers point to what is allocated
				r, x := tt.bound("r", SInt), tt.bound("x", SInt)
				at := tt.mk("select", "", SInt, tt.mk("select", "", a.sort.elem(), a, r), x)
				e.rawAssume(tt.Quant("forall", []*Term{r, x}, tt.Lt(at, nx), [][]*Term{{at}}))
			}
		}
		st1.heap[k] = h
	}
	for k := range mods.maps {
		o := st0.maps[k]
		if o == nil {
			o = e.map0s[k]
		}
		if refs := mods.heaps["map "+k]; !mods.wild["map "+k] {
			// only the maps written in the loop change
			n := &mapHeap{dom: o.dom, size: o.size, vals: append([]*Term{}, o.vals...)}
			for _, w := range sortedTerms(refs) {
				n.dom = tt.Store(n.dom, w, tt.sym("Md", o.dom.sort.elem()))
				n.size = tt.Store(n.size, w, tt.sym("Ms", SInt))
				for i, v := range n.vals {
					n.vals[i] = tt.Store(v, w, tt.sym("Mv", v.sort.elem()))
				}
			}
			st1.maps[k] = n
			continue
		}
		n := &mapHeap{dom: tt.sym("Md", o.dom.sort), size: tt.sym("Ms", o.size.sort)}
		for _, v := range o.vals {
			n.vals = append(n.vals, tt.sym("Mv", v.sort))
		}
		st1.maps[k] = n
	}
	for k := range mods.ghost {
		if o := st0.ghost[k]; o != nil {
			st1.ghost[k] = tt.sym("g_"+k, o.sort)
		}
	}
	hv := make([]Val, len(phis))
	for i, p := range phis {
		nm := p.Comment
		if nm == "" {
			nm = "phi"
		}
		if steadyPhi(p) && !mods.phis[i] {
			hv[i] = entry[i]
			continue
		}
		hv[i] = e.havocLike(st1, p.Type(), nm, entry[i])
	}
	return hv
}

// steadyPhi: the values of such a loop variable are compared to see whether the loop changes it.
func steadyPhi(p *ssa.Phi) bool {
	switch p.Type().Underlying().(type) {
	case *types.Interface, *types.Signature, *types.Pointer:
		return true
	}
	return false
}

// partTypes lists the types of the fields or elements of a value that is tracked part by part.
func partTypes(t types.Type, v Val) []types.Type {
	s, ok := v.(*VStruct)
	if !ok || isIter(t) || isBuilder(t) {
		return nil
	}
	var r []types.Type
	switch u := t.Underlying().(type) {
	case *types.Struct:
		for i := 0; i < u.NumFields(); i++ {
			r = append(r, u.Field(i).Type())
		}
	case *types.Array:
		for range s.f {
			r = append(r, u.Elem())
		}
	}
	if len(r) != len(s.f) {
		return nil
	}
	return r
}

// diffParts records where two values of a type differ.
func diffParts(t types.Type, v, w Val, path string, m map[string]bool) {
	if sameVal(v, w) {
		return
	}
	ts := partTypes(t, v)
	y, ok := w.(*VStruct)
	if ts == nil || !ok || len(y.f) != len(ts) {
		m[path] = true
		return
	}
	for i, p := range ts {
		diffParts(p, v.(*VStruct).f[i], y.f[i], fmt.Sprintf("%s.%d", path, i), m)
	}
}

// havocParts replaces the given parts of a value.
func (e *Engine) havocParts(st *State, t types.Type, hint string, old Val, path string, m map[string]bool) Val {
	if m[path] {
		return e.havocLike(st, t, hint, old)
	}
	ts := partTypes(t, old)
	if ts == nil {
		return old
	}
	n := &VStruct{}
	for i, p := range ts {
		h := fmt.Sprintf("%s_%d", hint, i)
		if u, ok := t.Underlying().(*types.Struct); ok {
			h = hint + "_" + u.Field(i).Name()
		}
		n.f = append(n.f, e.havocParts(st, p, h, old.(*VStruct).f[i], fmt.Sprintf("%s.%d", path, i), m))
	}
	return n
}

// havocLike makes a fresh value; pointers to local cells cannot be havocked symbolically.
func (e *Engine) havocLike(st *State, t types.Type, hint string, old Val) Val {
	switch u := t.Underlying().(type) {
	case *types.Pointer:
		if p, ok := old.(*VPtr); ok {
			for _, a := range p.alts {
				if a.loc != nil && a.loc.cell != nil {
					_ = u
				}
			}
		}
	case *types.Struct:
		if s, ok := old.(*VStruct); ok && isScanner(t) {
			// only the position changes
			n := &VStruct{append([]Val{}, s.f...)}
			at, _ := iterField(t)
			n.f[at] = e.havocVal(types.Typ[types.Int], hint+"_pos", st)
			return n
		}
		if s, ok := old.(*VStruct); ok && !isBuilder(t) {
			n := &VStruct{}
			for i := 0; i < u.NumFields(); i++ {
				n.f = append(n.f, e.havocLike(st, u.Field(i).Type(), hint+"_"+u.Field(i).Name(), s.f[i]))
			}
			return n
		}
	}
	return e.havocVal(t, hint, st)
}

func sortedKeys[V any](m map[string]V) []string {
	var r []string
	for k := range m {
		r = append(r, k)
	}
	sort.Strings(r)
	return r
}

func sortedTerms(m map[*Term]bool) []*Term {
	var r []*Term
	for k := range m {
		r = append(r, k)
	}
	sort.Slice(r, func(i, j int) bool { return r[i].id < r[j].id })
	return r
}

// ---- invariant candidates

type loopCand struct {
	c    *Cand
	eval func(st *State, phis []Val) *Term
}

func (e *Engine) newCand(desc string, user bool) *Cand {
	e.candCount++
	c := &Cand{id: e.candCount, desc: desc, alive: true, user: user}
	c.lit = e.tt.gsym(fmt.Sprintf("hc_%d", c.id), SBool)
	e.cands = append(e.cands, c)
	return c
}

func (e *Engine) invObl(st *State, act *Act, c *loopCand, kind, name string, t *Term) {
	if t.isTrue() {
		return
	}
	g := e.tt.Implies(e.pcTerm(st), t)
	if g.isTrue() {
		return
	}
	o := &Obl{id: len(e.obls), kind: kind, desc: name + ": " + c.c.desc, goal: g, prefix: len(e.assumes), fn: fnName(act), cand: c.c}
	e.obls = append(e.obls, o)
}

// metavariable bindings available at a loop head
type metaVar struct {
	key  string
	name string
	typ  types.Type
	get  func(st *State, phis []Val) Val
}

func (e *Engine) loopVars(act *Act, l *Loop, phis []*ssa.Phi, st *State) []metaVar {
	var r []metaVar
	for i, p := range phis {
		i, p := i, p
		nm := p.Comment
		r = append(r, metaVar{fmt.Sprint("p", i), nm, p.Type(), func(_ *State, ph []Val) Val { return ph[i] }})
		if isIntType(p.Type()) && (nm == "rangeindex" || nm == "") {
			r = append(r, metaVar{fmt.Sprint("p+", i), nm + "+1", p.Type(), func(_ *State, ph []Val) Val { return e.tt.Add(ph[i].(*Term), e.tt.Int(1)) }})
		}
	}
	// enclosing activations: phis of loops in progress and cells
	for a := act; a != nil; a = a.caller {
		if a.isSpec {
			break
		}
		for reg := a.region; reg != nil; reg = reg.parent {
			if a == act && reg.head == l.head {
				continue
			}
			for _, p := range e.phiCount(reg.head) {
				v := a.env[p]
				if v == nil {
					continue
				}
				nm := p.Comment
				r = append(r, metaVar{fmt.Sprintf("o%p", p), nm, p.Type(), func(_ *State, _ []Val) Val { return v }})
				if isIntType(p.Type()) && (nm == "rangeindex" || nm == "") {
					r = append(r, metaVar{fmt.Sprintf("o+%p", p), nm + "+1", p.Type(), func(_ *State, _ []Val) Val { return e.tt.Add(v.(*Term), e.tt.Int(1)) }})
				}
				if a != act {
					continue
				}
				// what the variable of the outer loop becomes, where this is known already
				for _, o := range p.Edges {
					in, ok := o.(ssa.Instruction)
					if !ok || l.blocks[in.Block()] || !reg.head.Dominates(in.Block()) || o == ssa.Value(p) || !in.Block().Dominates(l.head) {
						continue
					}
					if _, isPhi := o.(*ssa.Phi); isPhi {
						continue
					}
					if w := a.env[o]; w != nil {
						r = append(r, metaVar{fmt.Sprintf("b%p", p), nm + "'", p.Type(), func(_ *State, _ []Val) Val { return w }})
						break
					}
				}
			}
		}
	}
	// slices the loop reads that are computed before it
	seen := map[ssa.Value]bool{}
	for _, b := range l.order {
		for _, in := range b.Instrs {
			for _, op := range in.Operands(nil) {
				o := *op
				if o == nil || seen[o] {
					continue
				}
				seen[o] = true
				v, ok := act.env[o].(*VSlice)
				if in, ok2 := o.(ssa.Instruction); !ok || !ok2 || l.blocks[in.Block()] {
					continue
				}
				r = append(r, metaVar{fmt.Sprintf("s%p", o), o.Name(), o.Type(), func(_ *State, _ []Val) Val { return v }})
			}
		}
	}
	// slices the functions around the loop still need
	for a := act.caller; a != nil && !a.isSpec; a = a.caller {
		for _, b := range a.fn.Blocks {
			for _, in := range b.Instrs {
				o, ok := in.(ssa.Value)
				if !ok || o.Referrers() == nil {
					continue
				}
				v, ok := a.env[o].(*VSlice)
				if !ok {
					continue
				}
				for _, u := range *o.Referrers() {
					if w, ok := u.(ssa.Value); ok && a.env[w] == nil {
						r = append(r, metaVar{fmt.Sprintf("s%p", o), o.Name(), o.Type(), func(_ *State, _ []Val) Val { return v }})
						break
					}
				}
			}
		}
	}
	// local variables kept in memory
	live := map[*Cell]bool{}
	for a := act; a != nil && !a.isSpec; a = a.caller {
		for _, b := range a.fn.Blocks {
			for _, in := range b.Instrs {
				if al, ok := in.(*ssa.Alloc); ok {
					if p, ok := a.env[al].(*VPtr); ok {
						for _, x := range p.alts {
							if x.loc != nil && x.loc.cell != nil {
								live[x.loc.cell] = true
							}
						}
					}
				}
			}
		}
		for _, fv := range a.fn.FreeVars {
			if p, ok := a.env[fv].(*VPtr); ok {
				for _, x := range p.alts {
					if x.loc != nil && x.loc.cell != nil {
						live[x.loc.cell] = true
					}
				}
			}
		}
	}
	var cells []*Cell
	for c := range st.cells {
		if c.name == "range" {
			for _, rs := range e.ranges {
				if b, ok := rs.typ.Underlying().(*types.Basic); ok && rs.cell == c && b.Info()&types.IsString != 0 {
					if it := e.iterType(); it != nil {
						r = append(r, metaVar{fmt.Sprint("c", c.id, ".consumed"), c.name + ".consumed", it, func(s *State, _ []Val) Val {
							if v, ok := s.cells[c].(*Term); ok {
								return e.runeIdx(rs.x, v)
							}
							return nil
						}})
					}
				}
			}
		}
		if !live[c] && c.name != "graphemes" && c.name != "scanner" && c.name != "deque" && e.globalOf[c] == nil {
			continue
		}
		if c.name != "" && c.name != "defer" && c.name != "varargs" && c.name != "slicelit" && c.name != "new" && c.name != "makeslice" {
			cells = append(cells, c)
		}
	}
	sort.Slice(cells, func(i, j int) bool { return cells[i].id < cells[j].id })
	for _, c := range cells {
		c := c
		if e.specCells[c] {
			continue
		}
		r = append(r, metaVar{fmt.Sprint("c", c.id), c.name, c.typ, func(s *State, _ []Val) Val {
			if v, ok := s.cells[c]; ok {
				return v
			}
			return nil
		}})
		if at, ok := iterField(c.typ); ok {
			if it := e.iterType(); it != nil {
				r = append(r, metaVar{fmt.Sprint("c", c.id, ".consumed"), c.name + ".consumed", it, func(s *State, _ []Val) Val {
					if v, ok := s.cells[c].(*VStruct); ok {
						return v.f[at]
					}
					return nil
				}})
			}
		}
		// one level of struct fields
		if u, ok := c.typ.Underlying().(*types.Struct); ok && !isIter(c.typ) {
			for i := 0; i < u.NumFields(); i++ {
				i := i
				r = append(r, metaVar{fmt.Sprint("c", c.id, ".", i), c.name + "." + u.Field(i).Name(), u.Field(i).Type(), func(s *State, _ []Val) Val {
					if v, ok := s.cells[c]; ok {
						return v.(*VStruct).f[i]
					}
					return nil
				}})
			}
		}
	}
	return r
}

func isIntType(t types.Type) bool {
	b, ok := t.Underlying().(*types.Basic)
	return ok && b.Info()&types.IsInteger != 0
}

func (e *Engine) makeCands(act *Act, l *Loop, phis []*ssa.Phi, st0 *State, entry []Val, st1 *State, hv []Val, mods *modSet) []*loopCand {
	if act.isSpec || len(e.boundStack) > 0 {
		return nil
	}
	tt := e.tt
	var out []*loopCand
	add := func(desc string, user bool, f func(st *State, ph []Val) *Term) {
		out = append(out, &loopCand{e.newCand(desc, user), f})
	}
	// phi bounds against entry values and against loop conditions
	for i, p := range phis {
		i := i
		if isIntType(p.Type()) {
			x0, ok := entry[i].(*Term)
			if !ok || x0.sort != SInt {
				continue
			}
			add(fmt.Sprintf("%s >= entry", p.Comment), false, func(_ *State, ph []Val) *Term { return tt.Le(x0, ph[i].(*Term)) })
			add(fmt.Sprintf("%s <= entry", p.Comment), false, func(_ *State, ph []Val) *Term { return tt.Le(ph[i].(*Term), x0) })
			if !x0.isNum() || x0.big().Sign() < 0 {
				add(fmt.Sprintf("%s >= 0", p.Comment), false, func(_ *State, ph []Val) *Term { return tt.Le(tt.Int(0), ph[i].(*Term)) })
			}
		}
		if _, ok := p.Type().Underlying().(*types.Slice); ok {
			s0 := entry[i].(*VSlice)
			n0 := st0.next
			add(fmt.Sprintf("%s is its entry slice or freshly allocated", p.Comment), false, func(_ *State, ph []Val) *Term {
				s := ph[i].(*VSlice)
				return tt.Or(tt.Eq(s.ref, s0.ref), tt.Le(n0, s.ref))
			})
			add(fmt.Sprintf("%s.off = entry", p.Comment), false, func(_ *State, ph []Val) *Term { return tt.Eq(ph[i].(*VSlice).off, s0.off) })
			add(fmt.Sprintf("%s.ref != 0 or entry", p.Comment), false, func(_ *State, ph []Val) *Term {
				return tt.Implies(tt.Lt(tt.Int(0), ph[i].(*VSlice).ln), tt.Lt(tt.Int(0), ph[i].(*VSlice).ref))
			})
			add(fmt.Sprintf("len(%s) grows from entry", p.Comment), false, func(_ *State, ph []Val) *Term { return tt.Le(s0.ln, ph[i].(*VSlice).ln) })
			// length tracks an integer phi
			for j, q := range phis {
				j := j
				if isIntType(q.Type()) {
					y0, ok := entry[j].(*Term)
					if !ok || y0.sort != SInt {
						continue
					}
					add(fmt.Sprintf("len(%s) tracks %s", p.Comment, q.Comment), false, func(_ *State, ph []Val) *Term {
						return tt.Eq(tt.Sub(ph[i].(*VSlice).ln, s0.ln), tt.Sub(ph[j].(*Term), y0))
					})
				}
			}
		}
	}
	// linear relations between integer phis: same step / opposite step
	for i := range phis {
		for j := i + 1; j < len(phis); j++ {
			i, j := i, j
			x0, ok1 := entry[i].(*Term)
			y0, ok2 := entry[j].(*Term)
			if !ok1 || !ok2 || x0.sort != SInt || y0.sort != SInt {
				continue
			}
			add(fmt.Sprintf("%s - %s constant", phis[i].Comment, phis[j].Comment), false, func(_ *State, ph []Val) *Term {
				return tt.Eq(tt.Sub(ph[i].(*Term), ph[j].(*Term)), tt.Sub(x0, y0))
			})
			add(fmt.Sprintf("%s + %s constant", phis[i].Comment, phis[j].Comment), false, func(_ *State, ph []Val) *Term {
				return tt.Eq(tt.Add(ph[i].(*Term), ph[j].(*Term)), tt.Add(x0, y0))
			})
		}
	}
	// bounds from the loop condition: p < N with N fixed during the loop
	for _, b := range e.headConds(act, l, phis) {
		b := b
		add(b.desc, false, func(_ *State, ph []Val) *Term { return b.f(ph, entry) })
	}
	// cells of slice type that the loop modifies
	for c := range mods.cells {
		c := c
		if sl, ok := c.typ.Underlying().(*types.Slice); ok {
			_ = sl
			s0, ok := st0.cells[c].(*VSlice)
			if !ok {
				continue
			}
			n0 := st0.next
			add(fmt.Sprintf("%s is its entry slice or freshly allocated", c.name), false, func(s *State, _ []Val) *Term {
				v, ok := s.cells[c].(*VSlice)
				if !ok {
					return nil
				}
				return tt.Or(tt.Eq(v.ref, s0.ref), tt.Le(n0, v.ref))
			})
			add(fmt.Sprintf("%s.off = entry", c.name), false, func(s *State, _ []Val) *Term {
				v, ok := s.cells[c].(*VSlice)
				if !ok {
					return nil
				}
				return tt.Eq(v.off, s0.off)
			})
		}
		if isIntType(c.typ) {
			if x0, ok := st0.cells[c].(*Term); ok && x0.sort == SInt {
				add(fmt.Sprintf("%s >= entry", c.name), false, func(s *State, _ []Val) *Term {
					v, ok := s.cells[c].(*Term)
					if !ok {
						return nil
					}
					return tt.Le(x0, v)
				})
			}
		}
		if at, ok := iterField(c.typ); ok {
			add(c.name+" has consumed between none and all items", false, func(s *State, _ []Val) *Term {
				v, ok := s.cells[c].(*VStruct)
				if !ok {
					return nil
				}
				return tt.And(tt.Le(tt.Int(0), v.f[at].(*Term)), tt.Le(v.f[at].(*Term), e.iterTotal(s, c.typ, v)))
			})
		}
		// struct cells: fields unchanged
		if u, ok := c.typ.Underlying().(*types.Struct); ok {
			v0, ok := st0.cells[c].(*VStruct)
			if !ok {
				continue
			}
			for fi := 0; fi < u.NumFields(); fi++ {
				fi := fi
				ft := u.Field(fi).Type()
				add(fmt.Sprintf("%s.%s unchanged", c.name, u.Field(fi).Name()), false, func(s *State, _ []Val) *Term {
					v, ok := s.cells[c].(*VStruct)
					if !ok {
						return nil
					}
					return e.sameValue(s, ft, v0.f[fi], v.f[fi])
				})
				if _, ok := ft.Underlying().(*types.Slice); ok {
					s0 := v0.f[fi].(*VSlice)
					n0 := st0.next
					add(fmt.Sprintf("%s.%s entry slice or fresh", c.name, u.Field(fi).Name()), false, func(s *State, _ []Val) *Term {
						v, ok := s.cells[c].(*VStruct)
						if !ok {
							return nil
						}
						x := v.f[fi].(*VSlice)
						return tt.Or(tt.Eq(x.ref, s0.ref), tt.Le(n0, x.ref))
					})
					add(fmt.Sprintf("%s.%s off", c.name, u.Field(fi).Name()), false, func(s *State, _ []Val) *Term {
						v, ok := s.cells[c].(*VStruct)
						if !ok {
							return nil
						}
						return tt.Eq(v.f[fi].(*VSlice).off, s0.off)
					})
				}
			}
		}
	}
	// frame of wildly written heaps
	for _, k := range sortedKeys(mods.wild) {
		if strings.HasPrefix(k, "map ") {
			continue
		}
		t := e.heapTypes[k]
		old := e.heapOf(st0, t)
		excl := map[*Term]bool{}
		for w := range mods.heaps[k] {
			excl[w] = true
		}
		for i := range phis {
			if s, ok := entry[i].(*VSlice); ok {
				excl[s.ref] = true
			}
		}
		for c := range mods.cells {
			collectRefs(st0.cells[c], excl)
		}
		for i := range old {
			i := i
			k := k
			o := old[i]
			n0 := st0.next
			ex := sortedTerms(excl)
			add(fmt.Sprintf("frame of heap %s leaf %d", shortType(t), i), false, func(s *State, _ []Val) *Term {
				h := e.heapOf(s, e.heapTypes[k])[i]
				if h == o {
					return tt.True()
				}
				r := tt.bound("r", SInt)
				cs := []*Term{tt.Lt(r, n0)}
				for _, w := range ex {
					cs = append(cs, tt.Not(tt.Eq(r, w)))
				}
				lhs := tt.Select(h, r)
				return tt.Quant("forall", []*Term{r}, tt.Implies(tt.And(cs...), tt.Eq(lhs, tt.Select(o, r))), e.patsFor([]*Term{r}, lhs))
			})
		}
	}
	// before the first iteration ends nothing is written
	for i, p := range phis {
		i, p := i, p
		if p.Comment != "rangeindex" {
			continue
		}
		for j, q := range phis {
			if j == i || !isIntType(q.Type()) {
				continue
			}
			j := j
			if x0, ok := entry[j].(*Term); !ok || x0.sort != SInt {
				continue
			}
			add(fmt.Sprintf("%s at its start at first", q.Comment), false, func(_ *State, ph []Val) *Term {
				return tt.Implies(tt.Eq(ph[i].(*Term), entry[i].(*Term)), tt.Eq(ph[j].(*Term), entry[j].(*Term)))
			})
		}
		for _, k := range sortedKeys(mods.heaps) {
			if strings.HasPrefix(k, "map ") {
				continue
			}
			k := k
			if n, ok := e.heapTypes[k].(*types.Named); !ok || n.Obj().Pkg() == nil || n.Obj().Pkg().Name() == "vc" || !isStruct(n) {
				continue
			}
			old := e.heapOf(st0, e.heapTypes[k])
			for j := range old {
				j, o := j, old[j]
				refs := map[*Term]bool{}
				for w := range mods.heaps[k] {
					refs[w] = true
				}
				for c := range mods.cells {
					collectRefs(st0.cells[c], refs)
				}
				for _, w := range sortedTerms(refs) {
					w := w
					add(fmt.Sprintf("row of %s unwritten at first, leaf %d", shortType(e.heapTypes[k]), j), false, func(s *State, ph []Val) *Term {
						h := e.heapOf(s, e.heapTypes[k])[j]
						return tt.Implies(tt.Eq(ph[i].(*Term), entry[i].(*Term)), tt.Eq(tt.Select(h, w), tt.Select(o, w)))
					})
				}
			}
		}
	}
	e.mapCands(l, add)
	// contract-supplied templates
	for _, tmpl := range e.templates {
		if tmpl.only != "" && tmpl.only != plainName(act.fn) {
			continue
		}
		out = append(out, e.instantiate(tmpl, act, l, phis, st0, st1)...)
	}
	return out
}

func collectRefs(v Val, m map[*Term]bool) {
	switch x := v.(type) {
	case *VSlice:
		m[x.ref] = true
	case *VStruct:
		for _, f := range x.f {
			collectRefs(f, m)
		}
	case *VPtr:
		for _, a := range x.alts {
			if a.loc != nil && a.loc.cell == nil {
				m[a.loc.ref] = true
			}
		}
	}
}

// sameValue is representation equality (slices by header).
func (e *Engine) sameValue(st *State, t types.Type, a, b Val) *Term {
	switch x := a.(type) {
	case *VSlice:
		y := b.(*VSlice)
		return e.tt.And(e.tt.Eq(x.ref, y.ref), e.tt.Eq(x.off, y.off), e.tt.Eq(x.ln, y.ln), e.tt.Eq(x.cp, y.cp))
	case *VStruct:
		y := b.(*VStruct)
		var cs []*Term
		switch u := t.Underlying().(type) {
		case *types.Struct:
			for i := range x.f {
				cs = append(cs, e.sameValue(st, u.Field(i).Type(), x.f[i], y.f[i]))
			}
		case *types.Array:
			for i := range x.f {
				cs = append(cs, e.sameValue(st, u.Elem(), x.f[i], y.f[i]))
			}
		case *types.Tuple:
			for i := range x.f {
				cs = append(cs, e.sameValue(st, u.At(i).Type(), x.f[i], y.f[i]))
			}
		}
		return e.tt.And(cs...)
	case *VFunc:
		if sameVal(a, b) {
			return e.tt.True()
		}
		return e.tt.Eq(e.fnTerm(st, x), e.fnTerm(st, b.(*VFunc)))
	}
	return e.eqVal(st, t, a, b)
}

type boundCand struct {
	desc string
	f    func(ph []Val, entry []Val) *Term
}

// headConds finds conditions "x < N" deciding loop exit where x is affine in a phi and N is loop-fixed.
func (e *Engine) headConds(act *Act, l *Loop, phis []*ssa.Phi) []boundCand {
	tt := e.tt
	var out []boundCand
	for _, b := range l.order {
		iff, ok := b.Instrs[len(b.Instrs)-1].(*ssa.If)
		if !ok {
			continue
		}
		if l.blocks[b.Succs[0]] && l.blocks[b.Succs[1]] {
			continue
		}
		cmp, ok := iff.Cond.(*ssa.BinOp)
		if !ok || !isIntType(cmp.X.Type()) {
			continue
		}
		x, y := cmp.X, cmp.Y
		o := cmp.Op
		if o == token.GTR || o == token.GEQ {
			x, y = y, x
			if o == token.GTR {
				o = token.LSS
			} else {
				o = token.LEQ
			}
		}
		if o != token.LSS && o != token.LEQ && o != token.NEQ {
			continue
		}
		// x side phi-affine, y side fixed before the loop
		for k := 0; k < 2; k++ {
			pi, c, ok := affine(x, phis)
			n, ok2 := e.fixedVal(act, y, l)
			if ok && ok2 {
				up := k == 0
				add := int64(0)
				if o == token.LEQ {
					add = 1
				}
				if up {
					out = append(out, boundCand{fmt.Sprintf("%s <= bound", phis[pi].Comment), func(ph, entry []Val) *Term {
						lhs := tt.Add(ph[pi].(*Term), tt.Int(c))
						e0 := tt.Add(entry[pi].(*Term), tt.Int(c))
						lim := tt.Add(n, tt.Int(add))
						// the tested value may be one below the incremented one
						return tt.Or(tt.Le(lhs, lim), tt.Le(lhs, e0))
					}})
					out = append(out, boundCand{fmt.Sprintf("%s < bound", phis[pi].Comment), func(ph, entry []Val) *Term {
						lhs := tt.Add(ph[pi].(*Term), tt.Int(c))
						e0 := tt.Add(entry[pi].(*Term), tt.Int(c))
						lim := tt.Add(n, tt.Int(add))
						return tt.Or(tt.Lt(lhs, lim), tt.Le(lhs, e0))
					}})
					out = append(out, boundCand{fmt.Sprintf("%s < bound exact", phis[pi].Comment), func(ph, entry []Val) *Term {
						return tt.Lt(ph[pi].(*Term), n)
					}})
				} else {
					out = append(out, boundCand{fmt.Sprintf("%s >= bound", phis[pi].Comment), func(ph, entry []Val) *Term {
						lhs := tt.Add(ph[pi].(*Term), tt.Int(c))
						e0 := tt.Add(entry[pi].(*Term), tt.Int(c))
						lim := tt.Sub(n, tt.Int(add))
						return tt.Or(tt.Le(lim, lhs), tt.Le(e0, lhs))
					}})
				}
			}
			x, y = y, x
		}
	}
	return out
}

func affine(v ssa.Value, phis []*ssa.Phi) (int, int64, bool) {
	for i, p := range phis {
		if v == p {
			return i, 0, true
		}
	}
	if b, ok := v.(*ssa.BinOp); ok && (b.Op == token.ADD || b.Op == token.SUB) {
		if c, ok := b.Y.(*ssa.Const); ok && c.Value != nil {
			i, k, ok := affine(b.X, phis)
			if ok {
				if b.Op == token.ADD {
					return i, k + c.Int64(), true
				}
				return i, k - c.Int64(), true
			}
		}
	}
	return 0, 0, false
}

// fixedVal: a value computed before the loop (or a constant, or len of a value computed before the loop).
func (e *Engine) fixedVal(act *Act, v ssa.Value, l *Loop) (*Term, bool) {
	if c, ok := v.(*ssa.Const); ok {
		t, ok := e.constVal(c).(*Term)
		return t, ok && t.sort == SInt
	}
	if in, ok := v.(ssa.Instruction); ok && l.blocks[in.Block()] {
		if call, ok := v.(*ssa.Call); ok {
			if b, ok := call.Call.Value.(*ssa.Builtin); ok && b.Name() == "len" {
				a := call.Call.Args[0]
				if ai, ok := a.(ssa.Instruction); ok && l.blocks[ai.Block()] {
					return nil, false
				}
				if s, ok := act.env[a].(*VSlice); ok {
					return s.ln, true
				}
			}
		}
		if p, ok := v.(*ssa.Phi); ok && p.Block() == l.head {
			return nil, false
		}
		t, ok := l.fixed[v]
		return t, ok
	}
	t, ok := act.env[v].(*Term)
	if !ok || t.sort != SInt {
		return nil, false
	}
	return t, true
}

// memVar reads an integer variable in memory (a field of an object fixed outside the loop) in any state.
func (e *Engine) memVar(act *Act, v ssa.Value, l *Loop) func(*State) *Term {
	ld, ok := v.(*ssa.UnOp)
	if !ok || ld.Op != token.MUL {
		return nil
	}
	var path []PathElem
	base := ld.X
	for {
		f, ok := base.(*ssa.FieldAddr)
		if !ok {
			break
		}
		path = append([]PathElem{{field: f.Field}}, path...)
		base = f.X
	}
	if in, ok := base.(ssa.Instruction); ok && l.blocks[in.Block()] {
		return nil
	}
	p, ok := act.env[base].(*VPtr)
	if !ok {
		return nil
	}
	q := &VPtr{}
	for _, a := range p.alts {
		if a.loc != nil {
			loc := a.loc
			for _, x := range path {
				loc = loc.extend(x)
			}
			q.alts = append(q.alts, PtrAlt{a.g, loc})
		}
	}
	if len(q.alts) == 0 {
		return nil
	}
	return func(s *State) *Term {
		if t, ok := e.load(s, q, ld.Type()).(*Term); ok {
			return t
		}
		return e.tt.Int(0)
	}
}

// measures proposes ranking functions.
func (e *Engine) measures(act *Act, l *Loop, phis []*ssa.Phi, hv []Val, st *State) []func(*State, []Val) *Term {
	tt := e.tt
	var out []func(*State, []Val) *Term
	for _, b := range l.order {
		iff, ok := b.Instrs[len(b.Instrs)-1].(*ssa.If)
		if !ok || (l.blocks[b.Succs[0]] && l.blocks[b.Succs[1]]) {
			continue
		}
		if cmp, ok := iff.Cond.(*ssa.BinOp); ok && isIntType(cmp.X.Type()) {
			x, y := cmp.X, cmp.Y
			for k := 0; k < 2; k++ {
				pi, _, ok := affine(x, phis)
				n, ok2 := e.fixedVal(act, y, l)
				if ok && ok2 {
					if k == 0 && (cmp.Op == token.LSS || cmp.Op == token.LEQ || cmp.Op == token.NEQ) || k == 1 && (cmp.Op == token.GTR || cmp.Op == token.GEQ) {
						out = append(out, func(_ *State, ph []Val) *Term { return tt.Add(tt.Sub(n, ph[pi].(*Term)), tt.Int(1)) })
					}
					out = append(out, func(_ *State, ph []Val) *Term { return tt.Add(tt.Sub(ph[pi].(*Term), n), tt.Int(1)) })
				}
				x, y = y, x
			}
			// a variable in memory moves towards a bound
			for _, xy := range [][2]ssa.Value{{cmp.X, cmp.Y}, {cmp.Y, cmp.X}} {
				if mem := e.memVar(act, xy[0], l); mem != nil {
					out = append(out, func(s *State, _ []Val) *Term { return mem(s) })
					if n, ok := e.fixedVal(act, xy[1], l); ok {
						out = append(out, func(s *State, _ []Val) *Term { return tt.Sub(n, mem(s)) }, func(s *State, _ []Val) *Term { return tt.Sub(mem(s), n) })
					}
				}
			}
			// both sides move
			pi, _, ok1 := affine(cmp.X, phis)
			pj, _, ok2 := affine(cmp.Y, phis)
			if ok1 && ok2 {
				out = append(out, func(_ *State, ph []Val) *Term { return tt.Add(tt.Sub(ph[pj].(*Term), ph[pi].(*Term)), tt.Int(1)) })
			}
		}
	}
	for _, c := range sortedCells(st) {
		c := c
		if at, ok := iterField(c.typ); ok {
			out = append(out, func(s *State, _ []Val) *Term {
				v, ok := s.cells[c].(*VStruct)
				if !ok {
					return tt.Int(0)
				}
				return tt.Sub(e.iterTotal(s, c.typ, v), v.f[at].(*Term))
			})
		}
	}
	for i, p := range phis {
		i := i
		if isIntType(p.Type()) && hv[i].(*Term).sort == SInt {
			out = append(out, func(_ *State, ph []Val) *Term { return ph[i].(*Term) })
		}
		if _, ok := p.Type().Underlying().(*types.Slice); ok {
			out = append(out, func(_ *State, ph []Val) *Term { return ph[i].(*VSlice).ln })
		}
		if b, ok := p.Type().Underlying().(*types.Basic); ok && b.Kind() == types.String {
			out = append(out, func(_ *State, ph []Val) *Term { return e.strLen(ph[i].(*Term)) })
		}
	}
	for _, b := range l.order {
		for _, in := range b.Instrs {
			if nx, ok := in.(*ssa.Next); ok {
				if f := e.rangeMeasure(act, nx); f != nil {
					out = append(out, f)
				}
			}
		}
	}
	for _, m := range e.userMeasures {
		out = append(out, e.instMeasure(m, act, l, phis, st)...)
	}
	return out
}

func sortedCells(st *State) []*Cell {
	var cells []*Cell
	for c := range st.cells {
		cells = append(cells, c)
	}
	sort.Slice(cells, func(i, j int) bool { return cells[i].id < cells[j].id })
	return cells
}

func isGraphemes(t types.Type) bool {
	n, ok := types.Unalias(t).(*types.Named)
	return ok && n.Obj().Name() == "Graphemes" && n.Obj().Pkg() != nil && n.Obj().Pkg().Path() == "github.com/rivo/uniseg"
}

func isScanner(t types.Type) bool {
	n, ok := types.Unalias(t).(*types.Named)
	return ok && n.Obj().Name() == "Scanner" && n.Obj().Pkg() != nil && n.Obj().Pkg().Path() == "bufio"
}

func isIter(t types.Type) bool { return isGraphemes(t) || isScanner(t) }

// iterField is the field of an iterator's representation that counts the items delivered so far.
func iterField(t types.Type) (int, bool) {
	switch {
	case isGraphemes(t):
		return 3, true
	case isScanner(t):
		return 5, true
	}
	return 0, false
}

// iterTotal is the number of items an iterator will have delivered at the end.
func (e *Engine) iterTotal(st *State, t types.Type, v *VStruct) *Term {
	if isGraphemes(t) {
		return e.gcount(v.f[0].(*Term))
	}
	return e.lineCount(e.scanned(st, v))
}

// scanned is the string that a scanner reads.
func (e *Engine) scanned(st *State, v *VStruct) *Term {
	i, ok := v.f[0].(*VIface)
	if !ok || len(i.alts) != 1 || i.alts[0].typ == nil || i.alts[0].typ.String() != "*strings.Reader" {
		unsup("bufio.Scanner over something other than strings.NewReader")
	}
	p := i.alts[0].typ
	return e.load(st, e.ptr(i.alts[0].val), ptrTo(p)).(*VStruct).f[0].(*Term)
}

// iterType is vc.Iter, the type of the ghost position of a grapheme iterator in templates.
func (e *Engine) iterType() types.Type {
	for _, p := range e.prog.AllPackages() {
		if strings.HasSuffix(p.Pkg.Path(), "/internal/vc") {
			if o := p.Pkg.Scope().Lookup("Iter"); o != nil {
				return o.Type()
			}
		}
	}
	return nil
}

func isStruct(t types.Type) bool {
	_, ok := t.Underlying().(*types.Struct)
	return ok
}

// plainName is the name of a function without its type arguments.
func plainName(fn *ssa.Function) string {
	if o := fn.Origin(); o != nil {
		return o.Name()
	}
	return fn.Name()
}
