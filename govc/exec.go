package main

import (
	"fmt"
	"go/constant"
	"go/token"
	"go/types"
	"math/big"
	"strconv"
	"strings"

	"golang.org/x/tools/go/ssa"
)

func itoa(i int) string { return strconv.Itoa(i) }

type Obl struct {
	id      int
	kind    string
	fn      string // function in which it arises
	desc    string
	pos     token.Position
	goal    *Term // pc => goal
	prefix  int   // number of assumptions available
	cand    *Cand // Houdini candidate this belongs to (or nil)
	meas    *Measure
	triv    bool
	status  string // proved / failed / unknown
	solver  string
	ms      int64
	model   string
	detail  string
	inHead  bool
	caught  bool
	control *Term // measure selection literal
}

type Cand struct {
	id    int
	lit   *Term
	desc  string
	alive bool
	user  bool
}

type Measure struct {
	loop  string
	id    int
	desc  string
	obls  []*Obl
	alive bool
}

type catchFrame struct {
	states []edge // panicking states; phis[0] = panic value
	only   bool   // explicit panics only
}

type Act struct {
	fn     *ssa.Function
	env    map[ssa.Value]Val
	caller *Act
	depth  int
	isSpec bool
	rets   []edge
	loops  *loopInfo
	// defers
	defers    []*deferRec
	recovered bool
	region    *region
	bind      []Val
	forced    map[ssa.Value]Val   // values fixed while a loop is run element by element
	live      map[ssa.Value]*Cell // values of unrolled loops that later blocks use
	liveOrder []ssa.Value
	liveLoop  map[ssa.Value]*Loop
}

type deferRec struct {
	flag *Cell
	call *ssa.Defer
	args []Val
	fnv  Val
}

type region struct {
	head  *ssa.BasicBlock
	loop  *Loop
	backs []edge
	outer map[*ssa.BasicBlock][]edge

	parent *region
}

func (e *Engine) assume(st *State, c *Term) {
	e.rawAssume(e.tt.Implies(e.pcTerm(st), c))
}

func (e *Engine) rawAssume(c *Term) {
	if c.isTrue() || c.hasBnd {
		return
	}
	if e.initMode {
		e.bg(c)
		return
	}
	if e.assumedSet[c] == e.assumeEpoch {
		return
	}
	e.assumedSet[c] = e.assumeEpoch
	if c.op == "and" {
		for _, a := range c.args {
			e.rawAssume(a)
		}
		return
	}
	e.assumes = append(e.assumes, c)
}

// check emits an obligation that goal holds in st (or records a panic for an enclosing Catch).
func (e *Engine) check(st *State, act *Act, kind, desc string, pos token.Pos, goal *Term) {
	if goal.isTrue() {
		if !e.dry && !e.quiet(act, kind) {
			e.trivial++
		}
		return
	}
	if e.pcTerm(st).isFalse() {
		return
	}
	if e.quiet(act, kind) {
		return
	}
	if kind != "ensures" && kind != "overflow" && kind != "frame" && kind != "requires" && len(e.catch) > 0 && !e.catch[len(e.catch)-1].only && !strings.HasPrefix(kind, "inv") {
		ps := st.clone()
		ps.assumePC(e, e.tt.Not(goal))
		if !ps.dead(e) {
			f := e.catch[len(e.catch)-1]
			f.states = append(f.states, edge{st: ps, phis: []Val{&VIface{[]IfaceAlt{{g: e.tt.True(), opaque: e.fresh("panicval", SIface)}}}}})
		}
		st.assumePC(e, goal)
		return
	}
	g := e.tt.Implies(e.pcTerm(st), goal)
	if g.isTrue() {
		return
	}
	if !e.dry {
		o := &Obl{id: len(e.obls), kind: kind, desc: desc, goal: g, prefix: len(e.assumes), fn: fnName(act), pos: e.prog.Fset.Position(pos)}
		e.obls = append(e.obls, o)
	}
	e.rawAssume(g)
}

func fnName(act *Act) string {
	if act == nil {
		return ""
	}
	return act.fn.RelString(nil)
}

func (e *Engine) quiet(act *Act, kind string) bool {
	if len(e.boundStack) > 0 || e.pure > 0 {
		return true
	}
	switch kind {
	case "ensures", "requires", "frame", "inv-init", "inv-pres":
		return false
	}
	if kind == "overflow" && !e.opts.overflow {
		return true
	}
	return act != nil && act.isSpec
}

// ---- calling

func (e *Engine) callFunc(caller *Act, fn *ssa.Function, args, bind []Val, st *State, site ssa.Instruction) (Val, *State) {
	if st.dead(e) {
		return e.deadResult(fn.Signature), st
	}
	if r, s, ok := e.intrinsic(caller, fn, args, bind, st, site); ok {
		return r, s
	}
	if r, s, ok := e.useContract(caller, fn, args, st, site); ok {
		return r, s
	}
	if len(fn.Blocks) == 0 {
		if fn.Synthetic == "" && fn.Pkg != nil {
			// load body if it belongs to the verified packages, else it is external
		}
		return e.external(caller, fn, args, st, site)
	}
	depth := 0
	if caller != nil {
		depth = caller.depth + 1
		n := 0
		for a := caller; a != nil; a = a.caller {
			if a.fn == fn {
				n++
			}
		}
		if n > 2 {
			unsup("recursion in %s", fn)
		}
	}
	if depth > 60 {
		unsup("call depth at %s", fn)
	}
	e.reach[fn] = true
	done := false
	defer func() {
		if !done && len(e.lastFns) < 5 {
			e.lastFns = append(e.lastFns, fn.String())
		}
	}()
	act := &Act{fn: fn, env: map[ssa.Value]Val{}, caller: caller, depth: depth, isSpec: e.isSpecFn(fn), bind: bind}
	for i, p := range fn.Params {
		act.env[p] = args[i]
	}
	for i, p := range fn.FreeVars {
		act.env[p] = bind[i]
	}
	act.loops = e.loopsOf(fn)
	// a deferred recover needs panicking paths
	hasRecover := fn.Recover != nil && !act.isSpec && e.opts.panics
	if hasRecover {
		e.catch = append(e.catch, &catchFrame{only: e.opts.recovers})
	}
	pend := map[*ssa.BasicBlock][]edge{fn.Blocks[0]: {{st: st.clone()}}}
	e.runRegion(act, act.loops.rpo, pend)
	if hasRecover {
		fr := e.catch[len(e.catch)-1]
		e.catch = e.catch[:len(e.catch)-1]
		e.runRecover(act, fr)
	}
	rst, rv := e.mergeEdges(act.rets)
	if rst == nil {
		ds := st.clone()
		ds.pc = []*Term{e.tt.False()}
		done = true
		return e.deadResult(fn.Signature), ds
	}
	done = true
	return e.packResults(fn.Signature, rv), rst
}

func (e *Engine) packResults(sig *types.Signature, rv []Val) Val {
	switch sig.Results().Len() {
	case 0:
		return nil
	case 1:
		return rv[0]
	}
	return &VStruct{rv}
}

func (e *Engine) deadResult(sig *types.Signature) Val {
	switch sig.Results().Len() {
	case 0:
		return nil
	case 1:
		return e.zero(sig.Results().At(0).Type())
	}
	return e.zero(sig.Results())
}

// callValue calls a function value (possibly several alternatives).
func (e *Engine) callValue(act *Act, fv *VFunc, sig *types.Signature, args []Val, st *State, site ssa.Instruction) (Val, *State) {
	var outs []edge
	for _, a := range fv.alts {
		s := st.clone()
		s.assumePC(e, a.g)
		if s.dead(e) {
			continue
		}
		if a.isNil {
			e.check(s, act, "nil-call", "call of a nil function", site.Pos(), e.tt.False())
			continue
		}
		var r Val
		var s2 *State
		if a.opaque != nil {
			isNil := e.tt.Eq(a.opaque, e.tt.Int(0))
			e.check(s, act, "nil-call", "call of a nil function", site.Pos(), e.tt.Not(isNil))
			s.assumePC(e, e.tt.Not(isNil))
			r, s2 = e.callOpaque(act, a.opaque, sig, args, s, site)
		} else {
			r, s2 = e.callFunc(act, a.fn, args, a.bind, s, site)
		}
		outs = append(outs, edge{st: s2, phis: []Val{r}})
	}
	m, v := e.mergeEdges(outs)
	if m == nil {
		ds := st.clone()
		ds.pc = []*Term{e.tt.False()}
		return e.deadResult(sig), ds
	}
	return v[0], m
}

// callOpaque: an unknown function: any result of its type, no effect on known memory.
func (e *Engine) callOpaque(act *Act, f *Term, sig *types.Signature, args []Val, st *State, site ssa.Instruction) (Val, *State) {
	e.note("calls to function values of unknown origin return an arbitrary value and leave the verified memory alone")
	if sig.Results().Len() == 0 {
		return nil, st
	}
	var t types.Type = sig.Results()
	if sig.Results().Len() == 1 {
		t = sig.Results().At(0).Type()
	}
	return e.havocVal(t, "fnres", st), st
}

func (e *Engine) invoke(act *Act, recv Val, method *types.Func, args []Val, st *State, site ssa.Instruction) (Val, *State) {
	iv, ok := recv.(*VIface)
	if !ok {
		unsup("invoke on %T", recv)
	}
	sig := method.Type().(*types.Signature)
	var outs []edge
	for _, a := range iv.alts {
		s := st.clone()
		s.assumePC(e, a.g)
		if s.dead(e) {
			continue
		}
		if a.opaque != nil {
			isNil := e.tt.Eq(a.opaque, e.nilIface())
			e.check(s, act, "nil-invoke", "method call on a nil interface", site.Pos(), e.tt.Not(isNil))
			s.assumePC(e, e.tt.Not(isNil))
			if s.dead(e) {
				continue
			}
			r, s2 := e.invokeOpaque(act, a.opaque, method, args, s, site)
			outs = append(outs, edge{st: s2, phis: []Val{r}})
			continue
		}
		if a.typ == nil {
			e.check(s, act, "nil-invoke", "method call on a nil interface", site.Pos(), e.tt.False())
			continue
		}
		fn := e.prog.LookupMethod(a.typ, method.Pkg(), method.Name())
		if fn == nil {
			unsup("no method %s on %s", method.Name(), a.typ)
		}
		r, s2 := e.callFunc(act, fn, append([]Val{a.val}, args...), nil, s, site)
		outs = append(outs, edge{st: s2, phis: []Val{r}})
	}
	m, v := e.mergeEdges(outs)
	if m == nil {
		ds := st.clone()
		ds.pc = []*Term{e.tt.False()}
		return e.deadResult(sig), ds
	}
	return v[0], m
}

// ---- blocks

func (e *Engine) runRegion(act *Act, order []*ssa.BasicBlock, pend map[*ssa.BasicBlock][]edge) {
	for _, b := range order {
		es := pend[b]
		if len(es) == 0 {
			continue
		}
		delete(pend, b)
		if l := act.loops.heads[b]; l != nil && (act.region == nil || act.region.head != b) {
			e.runLoop(act, l, es, pend)
			continue
		}
		st, phis := e.mergeEdges(es)
		if st == nil {
			continue
		}
		e.runBlock(act, b, st, phis, pend)
	}
}

func (e *Engine) phiCount(b *ssa.BasicBlock) []*ssa.Phi {
	var r []*ssa.Phi
	for _, i := range b.Instrs {
		if p, ok := i.(*ssa.Phi); ok {
			r = append(r, p)
		} else {
			break
		}
	}
	return r
}

func (e *Engine) goEdge(act *Act, from, to *ssa.BasicBlock, st *State, pend map[*ssa.BasicBlock][]edge, which int) {
	if st.dead(e) {
		return
	}
	// predecessor index (the which-th occurrence of from among to.Preds)
	idx := -1
	n := 0
	for i, p := range to.Preds {
		if p == from {
			if n == 0 || which == 1 {
				idx = i
			}
			n++
		}
	}
	ed := edge{st: st, pred: idx}
	for _, p := range e.phiCount(to) {
		ed.phis = append(ed.phis, e.operand(act, p.Edges[idx]))
	}
	if r := act.region; r != nil {
		if to == r.head {
			r.backs = append(r.backs, ed)
			return
		}
		if !r.loop.blocks[to] {
			r.outer[to] = append(r.outer[to], ed)
			return
		}
	}
	pend[to] = append(pend[to], ed)
}

func (e *Engine) runBlock(act *Act, b *ssa.BasicBlock, st *State, phis []Val, pend map[*ssa.BasicBlock][]edge) {
	e.steps++
	if e.steps > 400000 {
		unsup("symbolic execution too large")
	}
	for i, p := range e.phiCount(b) {
		act.env[p] = phis[i]
	}
	for _, v := range act.liveOrder {
		if x, ok := st.cells[act.live[v]]; ok && !act.liveLoop[v].blocks[b] {
			act.env[v] = x
		}
	}
	for _, in := range b.Instrs {
		if v, ok := in.(ssa.Value); ok && act.forced != nil {
			if x, ok := act.forced[v]; ok {
				act.env[v] = x
				continue
			}
		}
		switch in := in.(type) {
		case *ssa.Phi:
		case *ssa.Jump:
			e.goEdge(act, b, b.Succs[0], st, pend, 0)
			return
		case *ssa.If:
			c := e.operand(act, in.Cond).(*Term)
			t, f := st.clone(), st
			t.assumePC(e, c)
			f.assumePC(e, e.tt.Not(c))
			e.decideCells(t, c, true)
			e.decideCells(f, c, false)
			same := 0
			if b.Succs[0] == b.Succs[1] {
				same = 1
			}
			e.goEdge(act, b, b.Succs[0], t, pend, 0)
			e.goEdge(act, b, b.Succs[1], f, pend, same)
			return
		case *ssa.Return:
			var rv []Val
			for _, r := range in.Results {
				rv = append(rv, e.operand(act, r))
			}
			act.rets = append(act.rets, edge{st: st, phis: rv})
			return
		case *ssa.Panic:
			v := e.operand(act, in.X)
			if act.isSpec && e.quiet(act, "panic") {
				return
			}
			if len(e.catch) > 0 && len(e.boundStack) == 0 && e.pure == 0 {
				f := e.catch[len(e.catch)-1]
				f.states = append(f.states, edge{st: st, phis: []Val{v}})
				return
			}
			e.check(st, act, "panic", "explicit panic is unreachable", in.Pos(), e.tt.False())
			return
		default:
			st = e.instr(act, in, st)
			if st.dead(e) {
				return
			}
		}
	}
}

func (e *Engine) operand(act *Act, v ssa.Value) Val {
	switch v := v.(type) {
	case *ssa.Const:
		return e.constVal(v)
	case *ssa.Function:
		return &VFunc{[]FnAlt{{g: e.tt.True(), fn: v}}}
	case *ssa.Global:
		return e.globalPtr(v)
	case *ssa.Builtin:
		return v
	}
	x, ok := act.env[v]
	if !ok {
		panic(fmt.Sprintf("no value for %s = %s in %s", v.Name(), v, act.fn))
	}
	return x
}

func (e *Engine) constVal(c *ssa.Const) Val {
	t := c.Type()
	if c.Value == nil {
		return e.zero(t)
	}
	s, ok := basicSort(t)
	if !ok {
		unsup("constant of type %s", t)
	}
	switch {
	case s == SBool:
		return e.tt.Bool(constant.BoolVal(c.Value))
	case s == SInt:
		v := constant.ToInt(c.Value)
		b, _ := new(big.Int).SetString(v.ExactString(), 10)
		return e.tt.Big(b)
	case s.isBV():
		u, _ := constant.Uint64Val(constant.ToInt(c.Value))
		return e.tt.BV(s.bvWidth(), u)
	case s == SReal:
		r, ok := new(big.Rat).SetString(constant.ToFloat(c.Value).ExactString())
		if !ok {
			unsup("float constant %s", c)
		}
		return e.tt.Real(r)
	case s == SStr:
		return e.tt.StrLit(constant.StringVal(c.Value))
	}
	if _, isI := t.Underlying().(*types.Interface); isI {
		unsup("interface constant %s", c)
	}
	unsup("constant %s", c)
	return nil
}

func (e *Engine) ptr(v Val) *VPtr {
	p, ok := v.(*VPtr)
	if !ok {
		panic(fmt.Sprintf("pointer expected, got %T", v))
	}
	return p
}

// nonNil emits the nil check and restricts the state.
func (e *Engine) nonNil(act *Act, st *State, p *VPtr, pos token.Pos) {
	isNil := e.tt.False()
	for _, a := range p.alts {
		if a.loc == nil {
			isNil = e.tt.Or(isNil, a.g)
		}
	}
	e.check(st, act, "nil-deref", "pointer is not nil", pos, e.tt.Not(isNil))
}

func (e *Engine) newCell(st *State, name string, t types.Type, v Val) *VPtr {
	e.cellCount++
	c := &Cell{id: e.cellCount, name: name, typ: t}
	st.cells[c] = v
	return &VPtr{[]PtrAlt{{e.tt.True(), &Loc{cell: c, elem: t}}}}
}

func (e *Engine) instr(act *Act, in ssa.Instruction, st *State) *State {
	tt := e.tt
	set := func(v ssa.Value, x Val) { act.env[v] = x }
	op := func(v ssa.Value) Val { return e.operand(act, v) }
	switch in := in.(type) {
	case *ssa.DebugRef:
	case *ssa.Alloc:
		t := in.Type().(*types.Pointer).Elem()
		if a, ok := t.Underlying().(*types.Array); ok && a.Len() > 64 {
			set(in, e.allocBigArray(st, t, a))
			break
		}
		np := e.newCell(st, in.Comment, t, e.zero(t))
		if act.isSpec {
			e.specCells[np.alts[0].loc.cell] = true
		}
		set(in, np)
	case *ssa.UnOp:
		return e.unop(act, in, st)
	case *ssa.BinOp:
		set(in, e.binop(act, st, in.Op, op(in.X), op(in.Y), in.X.Type(), in.Y.Type(), in.Type(), in.Pos()))
	case *ssa.Store:
		p := e.ptr(op(in.Addr))
		e.nonNil(act, st, p, in.Pos())
		if e.shared != nil {
			e.plainAccess(act, st, p, in.Val.Type(), in.Pos())
		}
		e.store(st, p, in.Val.Type(), op(in.Val))
	case *ssa.FieldAddr:
		p := e.ptr(op(in.X))
		e.nonNil(act, st, p, in.Pos())
		r := &VPtr{}
		for _, a := range p.alts {
			if a.loc == nil {
				continue
			}
			r.alts = append(r.alts, PtrAlt{a.g, a.loc.extend(PathElem{field: in.Field})})
		}
		if len(r.alts) == 1 {
			r.alts[0].g = tt.True()
		}
		set(in, r)
	case *ssa.Field:
		set(in, op(in.X).(*VStruct).f[in.Field])
	case *ssa.IndexAddr:
		i := e.idxTerm(op(in.Index))
		switch u := in.X.Type().Underlying().(type) {
		case *types.Slice:
			s := op(in.X).(*VSlice)
			e.check(st, act, "index", "slice index in range", in.Pos(), tt.And(tt.Le(tt.Int(0), i), tt.Lt(i, s.ln)))
			set(in, &VPtr{[]PtrAlt{{tt.True(), &Loc{elem: u.Elem(), ref: s.ref, idx: tt.Add(s.off, i)}}}})
		case *types.Pointer:
			arr := u.Elem().Underlying().(*types.Array)
			p := e.ptr(op(in.X))
			e.nonNil(act, st, p, in.Pos())
			e.check(st, act, "index", "array index in range", in.Pos(), tt.And(tt.Le(tt.Int(0), i), tt.Lt(i, tt.Int(arr.Len()))))
			r := &VPtr{}
			for _, a := range p.alts {
				if a.loc == nil {
					continue
				}
				if arr.Len() > 64 {
					// big arrays live in the heap of their element type
					r.alts = append(r.alts, PtrAlt{a.g, &Loc{elem: arr.Elem(), ref: a.loc.ref, idx: i}})
					continue
				}
				r.alts = append(r.alts, PtrAlt{a.g, a.loc.extend(PathElem{idx: i})})
			}
			set(in, r)
		default:
			unsup("IndexAddr on %s", in.X.Type())
		}
	case *ssa.Index:
		i := e.idxTerm(op(in.Index))
		switch u := in.X.Type().Underlying().(type) {
		case *types.Array:
			e.check(st, act, "index", "array index in range", in.Pos(), tt.And(tt.Le(tt.Int(0), i), tt.Lt(i, tt.Int(u.Len()))))
			set(in, e.getPath(op(in.X), []PathElem{{idx: i}}))
		case *types.Basic: // string
			x := op(in.X).(*Term)
			e.check(st, act, "index", "string index in range", in.Pos(), tt.And(tt.Le(tt.Int(0), i), tt.Lt(i, e.strLen(x))))
			set(in, e.strAt(x, i))
		default:
			unsup("Index on %s", in.X.Type())
		}
	case *ssa.Lookup:
		return e.lookup(act, in, st)
	case *ssa.Slice:
		e.slice(act, in, st)
	case *ssa.MakeSlice:
		n := e.idxTerm(op(in.Len))
		c := e.idxTerm(op(in.Cap))
		e.check(st, act, "makeslice", "make length/capacity valid", in.Pos(), tt.And(tt.Le(tt.Int(0), n), tt.Le(n, c)))
		et := in.Type().Underlying().(*types.Slice).Elem()
		ref := e.alloc(st)
		h := append([]*Term{}, e.heapOf(st, et)...)
		for k, s := range e.leaves(et) {
			h[k] = tt.Store(h[k], ref, tt.ConstArr(arrSort(SInt, s), e.zeroLeaf(s)))
		}
		st.heap[typeKey(et)] = h
		e.logWrite(et, ref)
		set(in, &VSlice{ref: ref, off: tt.Int(0), ln: n, cp: c})
	case *ssa.MakeInterface:
		set(in, &VIface{[]IfaceAlt{{g: tt.True(), typ: in.X.Type(), val: op(in.X)}}})
	case *ssa.ChangeInterface:
		set(in, op(in.X))
	case *ssa.ChangeType:
		set(in, e.convert(act, st, op(in.X), in.X.Type(), in.Type()))
	case *ssa.Convert:
		set(in, e.convert(act, st, op(in.X), in.X.Type(), in.Type()))
	case *ssa.MultiConvert:
		set(in, e.convert(act, st, op(in.X), in.X.Type(), in.Type()))
	case *ssa.TypeAssert:
		e.typeAssert(act, in, st)
	case *ssa.Extract:
		set(in, op(in.Tuple).(*VStruct).f[in.Index])
	case *ssa.MakeClosure:
		var b []Val
		for _, x := range in.Bindings {
			b = append(b, op(x))
		}
		set(in, &VFunc{[]FnAlt{{g: tt.True(), fn: in.Fn.(*ssa.Function), bind: b}}})
	case *ssa.MakeMap:
		ref := e.alloc(st)
		mh := *e.mapOf(st, in.Type())
		k, _ := mh.dom.sort.elem().kv()
		mh.dom = tt.Store(mh.dom, ref, tt.ConstArr(arrSort(k, SBool), tt.False()))
		mh.size = tt.Store(mh.size, ref, tt.Int(0))
		e.logMap(in.Type(), ref)
		st.maps[typeKey(in.Type())] = &mh
		set(in, ref)
	case *ssa.MapUpdate:
		m := op(in.Map).(*Term)
		e.check(st, act, "nil-map", "assignment to a non-nil map", in.Pos(), tt.Not(tt.Eq(m, tt.Int(0))))
		mt := in.Map.Type().Underlying().(*types.Map)
		k := e.mapKey(st, mt.Key(), op(in.Key))
		e.logMap(in.Map.Type(), m)
		vl := e.toLeaves(st, mt.Elem(), op(in.Value))
		mh := *e.mapOf(st, in.Map.Type())
		mh.vals = append([]*Term{}, mh.vals...)
		dom := tt.Select(mh.dom, m)
		had := tt.Select(dom, k)
		mh.size = tt.Store(mh.size, m, tt.Ite(had, tt.Select(mh.size, m), tt.Add(tt.Select(mh.size, m), tt.Int(1))))
		mh.dom = tt.Store(mh.dom, m, tt.Store(dom, k, tt.True()))
		for i := range mh.vals {
			mh.vals[i] = tt.Store(mh.vals[i], m, tt.Store(tt.Select(mh.vals[i], m), k, vl[i]))
		}
		st.maps[typeKey(in.Map.Type())] = &mh
	case *ssa.MakeChan:
		set(in, e.alloc(st))
	case *ssa.Call:
		r, s := e.call(act, &in.Call, in, st)
		if in.Type() != nil {
			if tup, ok := in.Type().(*types.Tuple); !ok || tup.Len() > 0 {
				if r == nil {
					r = e.zero(in.Type())
				}
				set(in, r)
			}
		}
		return s
	case *ssa.Defer:
		d := &deferRec{call: in}
		e.cellCount++
		d.flag = &Cell{id: e.cellCount, name: "defer", typ: types.Typ[types.Bool]}
		if !in.Call.IsInvoke() {
			if _, ok := in.Call.Value.(*ssa.Builtin); !ok {
				d.fnv = op(in.Call.Value)
			}
		} else {
			d.fnv = op(in.Call.Value)
		}
		for _, a := range in.Call.Args {
			d.args = append(d.args, op(a))
		}
		st.cells[d.flag] = tt.True()
		act.defers = append(act.defers, d)
	case *ssa.RunDefers:
		return e.runDefers(act, st, in)
	case *ssa.Go:
		return e.goStmt(act, in, st)
	case *ssa.Range:
		e.rangeStart(act, in, st)
	case *ssa.Next:
		return e.rangeNext(act, in, st)
	case *ssa.Send:
		return e.sendStmt(act, in, st)
	case *ssa.Select:
		return e.selectStmt(act, in, st)
	case *ssa.SliceToArrayPointer:
		unsup("slice to array pointer")
	default:
		unsup("instruction %T", in)
	}
	return st
}

func (e *Engine) idxTerm(v Val) *Term {
	x := v.(*Term)
	if x.sort.isBV() {
		return e.tt.mk("bv2nat", "", SInt, x)
	}
	return x
}

func (e *Engine) runDefers(act *Act, st *State, in ssa.Instruction) *State {
	for i := len(act.defers) - 1; i >= 0; i-- {
		d := act.defers[i]
		fl, ok := st.cells[d.flag]
		if !ok {
			continue
		}
		f := fl.(*Term)
		on, off := st.clone(), st.clone()
		on.assumePC(e, f)
		off.assumePC(e, e.tt.Not(f))
		// flags default to false on paths that never reached the defer
		on.cells[d.flag] = e.tt.False()
		var outs []edge
		if !on.dead(e) {
			on = e.callDeferred(act, d, on, in)
			outs = append(outs, edge{st: on})
		}
		if !off.dead(e) {
			outs = append(outs, edge{st: off})
		}
		m, _ := e.mergeEdges(outs)
		if m == nil {
			st.pc = []*Term{e.tt.False()}
			return st
		}
		st = m
	}
	return st
}

func (e *Engine) callDeferred(act *Act, d *deferRec, st *State, in ssa.Instruction) *State {
	c := &d.call.Call
	if c.IsInvoke() {
		_, s := e.invoke(act, d.fnv, c.Method, d.args, st, in)
		return s
	}
	if b, ok := c.Value.(*ssa.Builtin); ok {
		_, s := e.builtin(act, b, c, d.args, nil, st, in)
		return s
	}
	_, s := e.callValue(act, d.fnv.(*VFunc), c.Signature(), d.args, st, in)
	return s
}

// runRecover: panicking states run the deferred calls; recovered ones return normally.
func (e *Engine) runRecover(act *Act, fr *catchFrame) {
	for _, ed := range fr.states {
		for _, d := range act.defers {
			if _, ok := ed.st.cells[d.flag]; !ok {
				ed.st.cells[d.flag] = e.tt.False()
			}
		}
	}
	merged, mv := e.mergeEdges(fr.states)
	if merged == nil {
		return
	}
	for _, ed := range []edge{{st: merged, phis: mv}} {
		st := ed.st
		e.cellCount++
		pan := &Cell{id: e.cellCount, name: "panicking", typ: types.Typ[types.Bool]}
		st.cells[pan] = e.tt.True()
		e.panicStack = append(e.panicStack, panicRec{pan, ed.phis[0], act})
		st = e.runDefers(act, st, act.fn.Blocks[0].Instrs[0])
		e.panicStack = e.panicStack[:len(e.panicStack)-1]
		still := st.cells[pan].(*Term)
		un := st.clone()
		un.assumePC(e, still)
		if !un.dead(e) {
			if len(e.catch) > 0 {
				f := e.catch[len(e.catch)-1]
				f.states = append(f.states, edge{st: un, phis: ed.phis})
			} else {
				e.check(un, act, "panic", "panic is recovered", act.fn.Pos(), e.tt.False())
			}
		}
		rec := st.clone()
		rec.assumePC(e, e.tt.Not(still))
		if rec.dead(e) {
			continue
		}
		pend := map[*ssa.BasicBlock][]edge{}
		e.runBlock(act, act.fn.Recover, rec, nil, pend)
	}
}

type panicRec struct {
	flag *Cell
	val  Val
	act  *Act
}

func (e *Engine) call(act *Act, c *ssa.CallCommon, in ssa.Instruction, st *State) (Val, *State) {
	var args []Val
	for _, a := range c.Args {
		args = append(args, e.operand(act, a))
	}
	if c.IsInvoke() {
		return e.invoke(act, e.operand(act, c.Value), c.Method, args, st, in)
	}
	switch f := c.Value.(type) {
	case *ssa.Builtin:
		var rt types.Type
		if v, ok := in.(ssa.Value); ok {
			rt = v.Type()
		}
		return e.builtin(act, f, c, args, rt, st, in)
	case *ssa.Function:
		return e.callFunc(act, f, args, nil, st, in)
	}
	return e.callValue(act, e.operand(act, c.Value).(*VFunc), c.Signature(), args, st, in)
}

func (e *Engine) unop(act *Act, in *ssa.UnOp, st *State) *State {
	x := e.operand(act, in.X)
	tt := e.tt
	switch in.Op {
	case token.MUL:
		p := e.ptr(x)
		e.nonNil(act, st, p, in.Pos())
		if e.shared != nil {
			e.plainAccess(act, st, p, in.Type(), in.Pos())
		}
		act.env[in] = e.load(st, p, in.Type())
	case token.NOT:
		act.env[in] = tt.Not(x.(*Term))
	case token.SUB:
		t := x.(*Term)
		if t.sort == SReal {
			act.env[in] = tt.Neg(t)
			return st
		}
		act.env[in] = e.arith(act, st, token.SUB, tt.Int(0), t, in.Type(), in.Pos())
	case token.XOR:
		t := x.(*Term)
		if t.sort.isBV() {
			act.env[in] = tt.Op("bvnot", t.sort, t)
		} else {
			_, hi, _, signed, ok := intRange(in.Type())
			if !ok {
				unsup("^ on %s", in.Type())
			}
			if signed {
				act.env[in] = tt.Sub(tt.Int(-1), t)
			} else {
				act.env[in] = tt.Sub(tt.Big(hi), t)
			}
		}
	case token.ARROW:
		return e.recvStmt(act, in, st)
	default:
		unsup("unary %s", in.Op)
	}
	return st
}

func (e *Engine) arith(act *Act, st *State, op token.Token, x, y *Term, t types.Type, pos token.Pos) *Term {
	tt := e.tt
	var r *Term
	switch op {
	case token.ADD:
		r = tt.Add(x, y)
	case token.SUB:
		r = tt.Sub(x, y)
	case token.MUL:
		r = tt.Mul(x, y)
	}
	lo, hi, bits, _, ok := intRange(t)
	if !ok {
		return r
	}
	if r.isNum() && r.big().Cmp(lo) >= 0 && r.big().Cmp(hi) <= 0 {
		return r
	}
	if bits == 64 && !e.opts.wrap {
		if e.opts.overflow {
			e.check(st, act, "overflow", "no overflow in "+op.String(), pos, tt.And(tt.Le(tt.Big(lo), r), tt.Le(r, tt.Big(hi))))
		} else {
			e.note("64-bit machine arithmetic is treated as mathematical integers where a contract does not bound it")
		}
		return r
	}
	mod := new(big.Int).Lsh(big.NewInt(1), uint(bits))
	if op == token.MUL {
		w := tt.Mod(r, tt.Big(mod))
		if lo.Sign() < 0 {
			return tt.Ite(tt.Le(w, tt.Big(hi)), w, tt.Sub(w, tt.Big(mod)))
		}
		return w
	}
	return tt.Ite(tt.Lt(tt.Big(hi), r), tt.Sub(r, tt.Big(mod)), tt.Ite(tt.Lt(r, tt.Big(lo)), tt.Add(r, tt.Big(mod)), r))
}

func (e *Engine) binop(act *Act, st *State, op token.Token, xv, yv Val, xt, yt, rt types.Type, pos token.Pos) Val {
	tt := e.tt
	switch op {
	case token.EQL, token.NEQ:
		var r *Term
		// nil comparisons
		if _, isSl := xt.Underlying().(*types.Slice); isSl {
			r = tt.Eq(xv.(*VSlice).ref, yv.(*VSlice).ref)
		} else if types.IsInterface(xt) && !types.IsInterface(yt) {
			r = e.eqVal(st, xt, xv, &VIface{[]IfaceAlt{{g: tt.True(), typ: yt, val: yv}}})
		} else if !types.IsInterface(xt) && types.IsInterface(yt) {
			r = e.eqVal(st, yt, &VIface{[]IfaceAlt{{g: tt.True(), typ: xt, val: xv}}}, yv)
		} else {
			r = e.eqVal(st, xt, xv, yv)
		}
		if op == token.NEQ {
			return tt.Not(r)
		}
		return r
	}
	x, y := xv.(*Term), yv.(*Term)
	if x.sort == SStr {
		switch op {
		case token.ADD:
			return e.strConcat(x, y)
		case token.LSS, token.LEQ, token.GTR, token.GEQ:
			return e.strCmp(op, x, y)
		}
		unsup("string op %s", op)
	}
	if x.sort == SReal {
		switch op {
		case token.ADD:
			return tt.Add(x, y)
		case token.SUB:
			return tt.Sub(x, y)
		case token.MUL:
			return tt.Mul(x, y)
		case token.QUO:
			e.check(st, act, "fdiv", "float divisor not zero", pos, tt.Not(tt.Eq(y, tt.Real(ratInt(0)))))
			if (y.op == "real" || y.op == "num") && y.rat().Sign() != 0 {
				return tt.Mul(tt.Real(new(big.Rat).Inv(y.rat())), x)
			}
			return tt.mk("/", "", SReal, x, y)
		case token.LSS:
			return tt.Lt(x, y)
		case token.LEQ:
			return tt.Le(x, y)
		case token.GTR:
			return tt.Lt(y, x)
		case token.GEQ:
			return tt.Le(y, x)
		}
		unsup("float op %s", op)
	}
	if x.sort == SBool {
		switch op {
		case token.AND, token.LAND:
			return tt.And(x, y)
		case token.OR, token.LOR:
			return tt.Or(x, y)
		}
		unsup("bool op %s", op)
	}
	if x.sort.isBV() {
		return e.bvBinop(op, x, y)
	}
	switch op {
	case token.ADD, token.SUB, token.MUL:
		return e.arith(act, st, op, x, y, rt, pos)
	case token.QUO, token.REM:
		e.check(st, act, "div", "divisor not zero", pos, tt.Not(tt.Eq(y, tt.Int(0))))
		return e.divmod(op, x, y)
	case token.LSS:
		return tt.Lt(x, y)
	case token.LEQ:
		return tt.Le(x, y)
	case token.GTR:
		return tt.Lt(y, x)
	case token.GEQ:
		return tt.Le(y, x)
	case token.AND, token.OR, token.XOR, token.AND_NOT:
		return e.intBits(op, x, y)
	case token.SHL:
		if y.sort.isBV() {
			y = e.idxTerm(y)
		}
		if y.isNum() {
			k := new(big.Int).Lsh(big.NewInt(1), uint(y.big().Int64()))
			return e.arith(act, st, token.MUL, x, tt.Big(k), rt, pos)
		}
		unsup("shift by a variable")
	case token.SHR:
		if y.sort.isBV() {
			y = e.idxTerm(y)
		}
		if y.isNum() {
			k := new(big.Int).Lsh(big.NewInt(1), uint(y.big().Int64()))
			return tt.Div(x, tt.Big(k))
		}
		unsup("shift by a variable")
	}
	unsup("operator %s", op)
	return nil
}

func (e *Engine) divmod(op token.Token, x, y *Term) *Term {
	tt := e.tt
	if y.isNum() && y.big().Sign() > 0 {
		z := tt.Int(0)
		neg := tt.Lt(x, z)
		if op == token.QUO {
			return tt.Ite(neg, tt.Neg(tt.Div(tt.Neg(x), y)), tt.Div(x, y))
		}
		return tt.Ite(neg, tt.Neg(tt.Mod(tt.Neg(x), y)), tt.Mod(x, y))
	}
	z := tt.Int(0)
	xn, yn := tt.Lt(x, z), tt.Lt(y, z)
	ax, ay := tt.Ite(xn, tt.Neg(x), x), tt.Ite(yn, tt.Neg(y), y)
	// keep the common non-negative case syntactically simple
	q := tt.Ite(yn, tt.Div(ax, ay), tt.Div(ax, ay))
	r := tt.Mod(ax, ay)
	both := tt.And(tt.Not(xn), tt.Not(yn))
	if op == token.QUO {
		return tt.Ite(both, tt.Div(x, y), tt.Ite(tt.Eq(xn, yn), q, tt.Neg(q)))
	}
	return tt.Ite(both, tt.Mod(x, y), tt.Ite(xn, tt.Neg(r), r))
}

func (e *Engine) bvBinop(op token.Token, x, y *Term) Val {
	tt := e.tt
	if y.sort != x.sort {
		n := x.sort.bvWidth()
		if y.sort == SInt {
			if !y.isNum() {
				unsup("bit-vector shift by variable")
			}
			y = tt.BV(n, y.big().Uint64())
		} else if y.sort.bvWidth() < n {
			y = tt.mk(fmt.Sprintf("zext:%d", n-y.sort.bvWidth()), "", x.sort, y)
		} else {
			unsup("bv widths")
		}
	}
	m := map[token.Token]string{token.AND: "bvand", token.OR: "bvor", token.XOR: "bvxor", token.ADD: "bvadd", token.SUB: "bvsub", token.MUL: "bvmul", token.SHL: "bvshl", token.SHR: "bvlshr", token.QUO: "bvudiv", token.REM: "bvurem"}
	if o, ok := m[op]; ok {
		return tt.Op(o, x.sort, x, y)
	}
	switch op {
	case token.AND_NOT:
		return tt.Op("bvand", x.sort, x, tt.Op("bvnot", x.sort, y))
	case token.LSS:
		return tt.Op("bvult", SBool, x, y)
	case token.LEQ:
		return tt.Op("bvule", SBool, x, y)
	case token.GTR:
		return tt.Op("bvult", SBool, y, x)
	case token.GEQ:
		return tt.Op("bvule", SBool, y, x)
	}
	unsup("bv op %s", op)
	return nil
}

// intBits: bit operations on mathematical integers with a literal mask (two's complement).
func (e *Engine) intBits(op token.Token, x, y *Term) *Term {
	tt := e.tt
	if x.isNum() && y.isNum() {
		a, b := x.big(), y.big()
		r := new(big.Int)
		switch op {
		case token.AND:
			r.And(a, b)
		case token.OR:
			r.Or(a, b)
		case token.XOR:
			r.Xor(a, b)
		case token.AND_NOT:
			r.AndNot(a, b)
		}
		return tt.Big(r)
	}
	if x.isNum() && op != token.AND_NOT {
		x, y = y, x
	}
	if !y.isNum() || y.big().Sign() < 0 {
		unsup("bit operation on two variables")
	}
	m := y.big()
	and := tt.Int(0)
	for i := 0; i < m.BitLen(); {
		if m.Bit(i) == 0 {
			i++
			continue
		}
		j := i
		for j < m.BitLen() && m.Bit(j) == 1 {
			j++
		}
		lo := new(big.Int).Lsh(big.NewInt(1), uint(i))
		w := new(big.Int).Lsh(big.NewInt(1), uint(j-i))
		and = tt.Add(and, tt.Mul(tt.Big(lo), tt.Mod(tt.Div(x, tt.Big(lo)), tt.Big(w))))
		i = j
	}
	switch op {
	case token.AND:
		return and
	case token.OR:
		return tt.Sub(tt.Add(x, y), and)
	case token.XOR:
		return tt.Sub(tt.Add(x, y), tt.Add(and, and))
	case token.AND_NOT:
		return tt.Sub(x, and)
	}
	unsup("bit op %s", op)
	return nil
}

func (e *Engine) typeAssert(act *Act, in *ssa.TypeAssert, st *State) {
	tt := e.tt
	v := e.operand(act, in.X).(*VIface)
	t := in.AssertedType
	if types.IsInterface(t) {
		ok := tt.False()
		r := &VIface{}
		it := t.Underlying().(*types.Interface)
		for _, a := range v.alts {
			var c *Term
			switch {
			case a.opaque != nil:
				notNil := tt.Not(tt.Eq(a.opaque, e.nilIface()))
				if it.NumMethods() == 0 || types.Implements(in.X.Type(), it) {
					c = notNil
				} else {
					c = tt.And(notNil, tt.App("impl_"+sanitize(typeKey(t)), SBool, a.opaque))
				}
			case a.typ == nil:
				c = tt.False()
			default:
				c = tt.Bool(types.Implements(a.typ, it))
			}
			g := tt.And(a.g, c)
			ok = tt.Or(ok, g)
			if !g.isFalse() {
				b := a
				b.g = g
				r.alts = append(r.alts, b)
			}
		}
		if !ok.isTrue() {
			r.alts = append(r.alts, IfaceAlt{g: tt.Not(ok)})
		}
		if in.CommaOk {
			act.env[in] = &VStruct{[]Val{r, ok}}
			return
		}
		e.check(st, act, "type-assert", "type assertion succeeds", in.Pos(), ok)
		act.env[in] = r
		return
	}
	ok := tt.False()
	var val Val
	for _, a := range v.alts {
		var c *Term
		var x Val
		switch {
		case a.opaque != nil:
			c = e.isBox(t, a.opaque)
			if !c.isFalse() {
				x, _ = e.fromLeaves(t, e.unbox(t, a.opaque))
				if len(e.boundStack) == 0 {
					s2 := st.clone()
					s2.assumePC(e, tt.And(a.g, c))
					e.assumeTypeInv(s2, t, x)
				}
			}
		case a.typ == nil:
			c = tt.False()
		default:
			c = tt.Bool(types.Identical(a.typ, t))
			x = a.val
		}
		g := tt.And(a.g, c)
		if g.isFalse() {
			continue
		}
		ok = tt.Or(ok, g)
		if val == nil {
			val = x
		} else {
			val = e.mergeVal(g, x, val)
		}
	}
	if val == nil {
		val = e.zero(t)
	} else if in.CommaOk && !ok.isTrue() {
		val = e.mergeVal(ok, val, e.zero(t))
	}
	if in.CommaOk {
		act.env[in] = &VStruct{[]Val{val, ok}}
		return
	}
	e.check(st, act, "type-assert", "type assertion succeeds", in.Pos(), ok)
	act.env[in] = val
}

func (e *Engine) slice(act *Act, in *ssa.Slice, st *State) {
	tt := e.tt
	get := func(v ssa.Value, d *Term) *Term {
		if v == nil {
			return d
		}
		return e.idxTerm(e.operand(act, v))
	}
	z := tt.Int(0)
	switch u := in.X.Type().Underlying().(type) {
	case *types.Slice:
		s := e.operand(act, in.X).(*VSlice)
		lo := get(in.Low, z)
		hi := get(in.High, s.ln)
		mx := get(in.Max, s.cp)
		e.check(st, act, "slice", "slice bounds in range", in.Pos(), tt.And(tt.Le(z, lo), tt.Le(lo, hi), tt.Le(hi, mx), tt.Le(mx, s.cp)))
		act.env[in] = &VSlice{ref: s.ref, off: tt.Add(s.off, lo), ln: tt.Sub(hi, lo), cp: tt.Sub(mx, lo)}
	case *types.Basic:
		s := e.operand(act, in.X).(*Term)
		lo := get(in.Low, z)
		hi := get(in.High, e.strLen(s))
		e.check(st, act, "slice", "string bounds in range", in.Pos(), tt.And(tt.Le(z, lo), tt.Le(lo, hi), tt.Le(hi, e.strLen(s))))
		act.env[in] = e.strSub(s, lo, hi)
	case *types.Pointer:
		arr := u.Elem().Underlying().(*types.Array)
		p := e.ptr(e.operand(act, in.X))
		e.nonNil(act, st, p, in.Pos())
		n := tt.Int(arr.Len())
		lo := get(in.Low, z)
		hi := get(in.High, n)
		mx := get(in.Max, n)
		e.check(st, act, "slice", "array bounds in range", in.Pos(), tt.And(tt.Le(z, lo), tt.Le(lo, hi), tt.Le(hi, mx), tt.Le(mx, n)))
		if arr.Len() > 64 {
			l := p.alts[0].loc
			act.env[in] = &VSlice{ref: l.ref, off: lo, ln: tt.Sub(hi, lo), cp: tt.Sub(mx, lo)}
			return
		}
		if len(p.alts) != 1 || p.alts[0].loc == nil || p.alts[0].loc.cell == nil || len(p.alts[0].loc.path) != 0 {
			unsup("slicing an array in memory")
		}
		// composite literals and variadic arguments: the array cell becomes a heap row
		c := p.alts[0].loc.cell
		ref, ok := e.arrRefs[c]
		if !ok {
			ref = e.alloc(st)
			e.arrRefs[c] = ref
		}
		v, have := st.cells[c]
		if !have {
			unsup("array cell used after slicing")
		}
		vs := append([]Val{}, v.(*VStruct).f...)
		h := append([]*Term{}, e.heapOf(st, arr.Elem())...)
		rows := make([]*Term, len(h))
		for k, s := range e.leaves(arr.Elem()) {
			rows[k] = tt.ConstArr(arrSort(SInt, s), e.zeroLeaf(s))
		}
		for i, x := range v.(*VStruct).f {
			for k, l := range e.toLeaves(st, arr.Elem(), x) {
				rows[k] = tt.Store(rows[k], tt.Int(int64(i)), l)
			}
		}
		h = append([]*Term{}, e.heapOf(st, arr.Elem())...) // promotions may have written
		for k := range h {
			h[k] = tt.Store(h[k], ref, rows[k])
		}
		st.heap[typeKey(arr.Elem())] = h
		_, again := e.histDead[ref]
		if !ok {
			e.logWriteFresh(arr.Elem(), ref)
		} else {
			e.logWrite(arr.Elem(), ref)
		}
		r := &VSlice{ref: ref, off: lo, ln: tt.Sub(hi, lo), cp: tt.Sub(mx, lo)}
		if !ok && !again && r.ln == n && len(vs) <= maxHist {
			r.h = e.histNew(arr.Elem(), ref, vs)
		}
		act.env[in] = r
	default:
		unsup("slice of %s", in.X.Type())
	}
}

func (e *Engine) allocBigArray(st *State, t types.Type, a *types.Array) Val {
	ref := e.alloc(st)
	h := append([]*Term{}, e.heapOf(st, a.Elem())...)
	for k, s := range e.leaves(a.Elem()) {
		h[k] = e.tt.Store(h[k], ref, e.tt.ConstArr(arrSort(SInt, s), e.zeroLeaf(s)))
	}
	st.heap[typeKey(a.Elem())] = h
	e.logWrite(a.Elem(), ref)
	return &VPtr{[]PtrAlt{{e.tt.True(), &Loc{elem: t, ref: ref, idx: e.tt.Int(0)}}}}
}

func (e *Engine) convert(act *Act, st *State, v Val, from, to types.Type) Val {
	tt := e.tt
	fs, fok := basicSort(from)
	ts, tok := basicSort(to)
	if !fok || !tok {
		// []byte/[]rune <-> string
		if fok && fs == SStr {
			if sl, ok := to.Underlying().(*types.Slice); ok {
				return e.strToSlice(st, v.(*Term), sl)
			}
		}
		if tok && ts == SStr {
			if sl, ok := from.Underlying().(*types.Slice); ok {
				return e.sliceToStr(st, v.(*VSlice), sl)
			}
		}
		return v // struct/slice/pointer conversions keep the representation
	}
	switch {
	case fs == ts:
		if fs == SInt {
			if _, isI := from.Underlying().(*types.Basic); isI {
				if _, isT := to.Underlying().(*types.Basic); isT {
					return e.intConv(v.(*Term), from, to)
				}
			}
		}
		return v
	case fs == SInt && ts == SStr:
		return tt.App("rune2str", SStr, v.(*Term))
	case fs == SInt && ts == SReal:
		x := v.(*Term)
		if x.isNum() {
			return tt.Real(x.rat())
		}
		return tt.mk("to_real", "", SReal, x)
	case fs == SReal && ts == SInt:
		x := v.(*Term)
		z := tt.Real(ratInt(0))
		fl := func(a *Term) *Term { return e.floor(a) }
		e.note("float64 arithmetic is treated as exact real arithmetic")
		return tt.Ite(tt.Lt(x, z), tt.Neg(fl(tt.Neg(x))), fl(x))
	case fs.isBV() && ts == SInt:
		x := v.(*Term)
		if x.op == "bv" {
			return e.intConv(tt.Big(new(big.Int).SetUint64(x.bvVal())), types.Typ[types.Uint64], to)
		}
		return e.intConv(tt.mk("bv2nat", "", SInt, x), from, to)
	case fs == SInt && ts.isBV():
		x := v.(*Term)
		if x.isNum() {
			m := new(big.Int).And(x.big(), new(big.Int).SetUint64(^uint64(0)))
			return tt.BV(ts.bvWidth(), m.Uint64())
		}
		return tt.mk(fmt.Sprintf("int2bv:%d", ts.bvWidth()), "", ts, x)
	case fs.isBV() && ts.isBV():
		x := v.(*Term)
		a, b := fs.bvWidth(), ts.bvWidth()
		if x.op == "bv" {
			return tt.BV(b, x.bvVal())
		}
		if a < b {
			return tt.mk(fmt.Sprintf("zext:%d", b-a), "", ts, x)
		}
		return tt.mk(fmt.Sprintf("extract:%d", b-1), "", ts, x)
	case fs.isBV() && ts == SStr:
		return tt.App("rune2str", SStr, tt.mk("bv2nat", "", SInt, v.(*Term)))
	}
	unsup("conversion %s to %s", from, to)
	return nil
}

func (e *Engine) floor(a *Term) *Term {
	if a.op == "to_real" {
		return a.args[0]
	}
	if a.op == "real" || a.op == "num" {
		r := a.rat()
		q, m := new(big.Int), new(big.Int)
		q.DivMod(r.Num(), r.Denom(), m)
		return e.tt.Big(q)
	}
	return e.tt.mk("to_int", "", SInt, a)
}

func (e *Engine) intConv(x *Term, from, to types.Type) *Term {
	flo, fhi, _, _, ok1 := intRange(from)
	lo, hi, bits, signed, ok2 := intRange(to)
	if !ok1 || !ok2 {
		return x
	}
	if flo.Cmp(lo) >= 0 && fhi.Cmp(hi) <= 0 {
		return x
	}
	tt := e.tt
	mod := new(big.Int).Lsh(big.NewInt(1), uint(bits))
	if x.isNum() && x.big().Cmp(lo) >= 0 && x.big().Cmp(hi) <= 0 {
		return x
	}
	w := tt.Mod(x, tt.Big(mod))
	in := tt.And(tt.Le(tt.Big(lo), x), tt.Le(x, tt.Big(hi)))
	if signed {
		return tt.Ite(in, x, tt.Ite(tt.Le(w, tt.Big(hi)), w, tt.Sub(w, tt.Big(mod))))
	}
	return tt.Ite(in, x, w)
}

// floorReal is the floor of a real, as a real.
func (e *Engine) floorReal(x *Term) *Term { return e.tt.toReal(e.floor(x)) }

func (tt *TermTable) toReal(x *Term) *Term {
	if x.isNum() {
		return tt.Real(new(big.Rat).SetInt(x.big()))
	}
	return tt.mk("to_real", "", SReal, x)
}

// decideCells resolves conditional values of local variables once a branch has decided their condition.
func (e *Engine) decideCells(st *State, c *Term, truth bool) {
	if c.op == "not" {
		c, truth = c.args[0], !truth
	}
	if c.op == "true" || c.op == "false" {
		return
	}
	for cell, v := range st.cells {
		if n := decideVal(v, c, truth); n != v {
			st.cells[cell] = n
		}
	}
}

func decideVal(v Val, c *Term, truth bool) Val {
	switch x := v.(type) {
	case *Term:
		if x.op == "ite" && x.args[0] == c {
			if truth {
				return x.args[1]
			}
			return x.args[2]
		}
		if x.op == "ite" && x.args[0].op == "not" && x.args[0].args[0] == c {
			if truth {
				return x.args[2]
			}
			return x.args[1]
		}
	case *VStruct:
		var n *VStruct
		for i, f := range x.f {
			if g := decideVal(f, c, truth); g != f {
				if n == nil {
					n = &VStruct{append([]Val{}, x.f...)}
				}
				n.f[i] = g
			}
		}
		if n != nil {
			return n
		}
	case *VSlice:
		g := func(t *Term) *Term { return decideVal(t, c, truth).(*Term) }
		n := VSlice{ref: g(x.ref), off: g(x.off), ln: g(x.ln), cp: g(x.cp)}
		if x.h != nil {
			n.h = x.h.decide(c, truth)
		}
		if !sameVal(&n, x) || n.h != x.h {
			return &n
		}
	}
	return v
}
