package main

import (
	"fmt"
	"go/token"
	"go/types"
	"os"
	"sort"
	"strings"

	"golang.org/x/tools/go/ssa"
)

type Opts struct {
	overflow   bool // emit no-overflow obligations for 64-bit arithmetic
	wrap       bool // model 64-bit arithmetic as wrapping
	term       bool // emit termination obligations
	panics     bool // follow panics into deferred recover
	concurrent bool // package-level integers are shared with other goroutines
	recovers   bool // follow explicit panics into deferred recover, failing operations stay obligations
	safety     bool // emit index/nil/... obligations (default)
}

type Engine struct {
	lastFns []string // for error messages
	tt      *TermTable
	prog    *ssa.Program
	w       *World

	leafCache map[string][]Sort
	fnReg     map[string]*VFunc
	fnCount   int
	cellRefs  map[*Cell]*Term
	arrRefs   map[*Cell]*Term
	lastAlloc *Term

	boundStack []*Term
	heap0s     map[string][]*Term
	heapTypes  map[string]types.Type
	map0s      map[string]*mapHeap
	keyTypes   []*keyType
	mapArgs    []mapArg
	curRange   *rangeState // the iteration whose invariant is being evaluated
	mapTypes   map[string]types.Type
	globals    map[*ssa.Global]*Cell
	shared     *shared
	globalOf   map[*Cell]*ssa.Global
	global0    map[*Cell]Val

	assumes     []*Term
	assumedSet  map[*Term]int
	assumeEpoch int
	axioms      []*Term
	sums        map[string]bool
	sumPos      map[string]bool

	obls    []*Obl
	trivial int
	dry     bool
	pure    int
	opts    Opts

	catch      []*catchFrame
	panicStack []panicRec

	cellCount int
	candCount int
	cands     []*Cand
	steps     int
	reach     map[*ssa.Function]bool
	used      map[string]bool // contracts used at call sites
	writeLog  []heapWrite
	relies    []*template
	snaps     map[*Term]map[string][]*Term // rows of snapshots
	notes     map[string]bool

	templates    []*template
	userMeasures []*template
	measGroups   [][]*Measure
	loopCache    map[*ssa.Function]*loopInfo
	ranges       map[*ssa.Range]*rangeState
	specFiles    map[string]bool
	specCells    map[*Cell]bool

	hasRequires bool
	requires    []*Term
	useMode     *useMode

	target    *ssa.Function // function whose body is being verified
	spec      *SpecFn
	mods      []modTarget // declared frame of the verified function
	hasMods   bool
	histDead  map[*Term]bool // arrays whose histories have ended
	strEqs    map[[2]*Term]*Term
	strLens   map[*Term]*Term
	strRows   map[*Term]*Term // array contents that are the bytes of a string
	histAll   map[string]bool // element types whose histories have ended
	entrySeq  int
	entryNext *Term // allocations when the contract starts

	inputs []inputVal // for replay
	cell0  map[*Cell]Val

	initMode   bool
	lastInit   *Term
	background []*Term
}

type inputVal struct {
	name string
	typ  types.Type
	val  Val
}

type modTarget struct {
	cell *Cell
	elem types.Type
	ref  *Term
	all  bool
	ptr  *VPtr // at a call site: the pointer and its element type
	typ  types.Type
}

func newEngine(w *World) *Engine {
	e := &Engine{tt: newTable(), prog: w.prog, w: w,
		leafCache: map[string][]Sort{}, fnReg: map[string]*VFunc{}, cellRefs: map[*Cell]*Term{}, arrRefs: map[*Cell]*Term{},
		heap0s: map[string][]*Term{}, heapTypes: map[string]types.Type{}, map0s: map[string]*mapHeap{}, mapTypes: map[string]types.Type{},
		globals: map[*ssa.Global]*Cell{}, globalOf: map[*Cell]*ssa.Global{}, global0: map[*Cell]Val{},
		assumedSet: map[*Term]int{}, assumeEpoch: 1, sums: map[string]bool{}, sumPos: map[string]bool{}, reach: map[*ssa.Function]bool{}, used: map[string]bool{}, histDead: map[*Term]bool{}, strRows: map[*Term]*Term{}, strEqs: map[[2]*Term]*Term{}, strLens: map[*Term]*Term{}, histAll: map[string]bool{},
		notes: map[string]bool{}, loopCache: map[*ssa.Function]*loopInfo{}, ranges: map[*ssa.Range]*rangeState{},
		specFiles: w.specFiles, specCells: map[*Cell]bool{}}
	return e
}

// ---- verifying one spec function

// symArg makes the symbolic value of a parameter.
func (e *Engine) symArg(st *State, name string, t types.Type) Val {
	switch u := t.Underlying().(type) {
	case *types.Pointer:
		if _, isStruct := u.Elem().Underlying().(*types.Struct); isStruct || true {
			v := e.symArg(st, name, u.Elem())
			p := e.newCell(st, name, u.Elem(), v)
			return p
		}
	case *types.Slice:
		v := e.havocVal(t, name, st).(*VSlice)
		return &VSlice{ref: v.ref, off: e.tt.Int(0), ln: v.ln, cp: v.cp}
	case *types.Struct:
		r := &VStruct{}
		for i := 0; i < u.NumFields(); i++ {
			f := u.Field(i)
			if _, ok := f.Type().Underlying().(*types.Pointer); ok {
				r.f = append(r.f, e.havocVal(f.Type(), name+"_"+f.Name(), st))
				continue
			}
			r.f = append(r.f, e.symArg(st, name+"_"+f.Name(), f.Type()))
		}
		return r
	case *types.Map:
		m := e.havocVal(t, name, st).(*Term)
		for _, o := range e.mapArgs {
			if types.Identical(o.t, t) {
				e.note("assumed: distinct map arguments of a contract are distinct maps")
				e.rawAssume(e.tt.Or(e.tt.Not(e.tt.Eq(m, o.ref)), e.tt.Eq(m, e.tt.Int(0))))
			}
		}
		e.mapArgs = append(e.mapArgs, mapArg{t, m})
		return m
	}
	return e.havocVal(t, name, st)
}

type mapArg struct {
	t   types.Type
	ref *Term
}

func (e *Engine) runSpec(sp *SpecFn) (err error) {
	defer func() {
		if r := recover(); r != nil {
			if u, ok := r.(Unsupported); ok {
				err = u
				return
			}
			if os.Getenv("GOVC_PANIC") != "" {
				panic(r)
			}
			err = fmt.Errorf("internal: %v in %v", r, e.lastFns)
		}
	}()
	e.spec = sp
	e.target = sp.target
	e.opts = sp.opts
	st := e.newState()
	if e.opts.concurrent {
		e.shared = &shared{}
		st.ghost["locked"] = e.tt.Int(0)
	}
	e.rawAssume(e.tt.Lt(e.tt.Int(0), e.next0()))
	var args []Val
	for _, p := range sp.fn.Params {
		v := e.symArg(st, p.Name(), p.Type())
		args = append(args, v)
		e.inputs = append(e.inputs, inputVal{p.Name(), p.Type(), v})
	}
	init := st.clone()
	e.cell0 = init.cells
	e.entryNext = init.next
	e.entrySeq = e.tt.symSeq
	_, end := e.callFunc(nil, sp.fn, args, nil, st, nil)
	if (e.hasMods || sp.use) && !end.dead(e) {
		e.frameObls(init, end)
	}
	return nil
}

func (e *Engine) frameObls(init, end *State) {
	tt := e.tt
	// parameter cells
	for c, v := range init.cells {
		declared := false
		for _, m := range e.mods {
			if m.cell == c {
				declared = true
			}
		}
		if declared {
			continue
		}
		var w Val
		if f, ok := end.fwd[c]; ok {
			w = e.loadLoc(end, &Loc{elem: c.typ, ref: f, idx: tt.Int(0)}, c.typ)
		} else if x, ok := end.cells[c]; ok {
			w = x
		} else {
			continue
		}
		e.check(end, nil, "frame", "object "+c.name+" is not modified", e.spec.fn.Pos(), e.sameValue(end, c.typ, v, w))
	}
	for _, k := range sortedHeapKeys(end.heap) {
		t := e.heapTypes[k]
		h0 := e.heapOf(init, t)
		h1 := end.heap[k]
		for i := range h0 {
			if h0[i] == h1[i] {
				continue
			}
			r := tt.bound("r", SInt)
			// nothing lives at the nil reference
			cs := []*Term{tt.Lt(r, e.next0()), tt.Not(tt.Eq(r, tt.Int(0)))}
			for _, m := range e.mods {
				if m.cell == nil && types.Identical(m.elem, t) {
					cs = append(cs, tt.Not(tt.Eq(r, m.ref)))
				}
			}
			lhs := tt.Select(h1[i], r)
			q := tt.Quant("forall", []*Term{r}, tt.Implies(tt.And(cs...), tt.Eq(lhs, tt.Select(h0[i], r))), nil)
			e.check(end, nil, "frame", fmt.Sprintf("memory of type %s outside the declared frame is not modified (leaf %d)", shortType(t), i), e.spec.fn.Pos(), q)
		}
	}
}

func sortedHeapKeys(m map[string][]*Term) []string {
	var r []string
	for k := range m {
		r = append(r, k)
	}
	sort.Strings(r)
	return r
}

// ---- contracts at call sites

type useMode struct {
	spec   *SpecFn
	name   string
	caller *Act
	pos    token.Pos
	mods   []modTarget
	res    Val
	act    *Act // activation of the spec function
	prev   *useMode
	next   *Term // allocations at the call
}

func (u *useMode) active(a *Act) bool {
	for ; a != nil; a = a.caller {
		if a == u.act {
			return true
		}
		if !a.isSpec {
			return false
		}
	}
	return false
}

func (e *Engine) useContract(caller *Act, fn *ssa.Function, args []Val, st *State, site ssa.Instruction) (Val, *State, bool) {
	// the call of the target inside its own contract
	if u := e.useMode; u != nil && caller == u.act && fn == u.spec.target {
		return e.applyModifies(u, fn, st), st, true
	}
	if caller == nil || len(e.boundStack) > 0 {
		return nil, nil, false
	}
	sp := e.w.use[fn]
	if sp == nil || fn == e.target || e.spec.noUse[sp.name] {
		return nil, nil, false
	}
	if caller.isSpec && caller.fn == sp.fn {
		return nil, nil, false
	}
	if len(sp.fn.Params) < len(args) || e.pure > 0 {
		return nil, nil, false
	}
	// further parameters of the contract are universally quantified: they are instantiated with the
	// parameter of the contract under proof that has the same name and type, else with any value
	for _, p := range sp.fn.Params[len(args):] {
		var g Val
		for _, in := range e.inputs {
			if in.name == p.Name() && types.Identical(in.typ, p.Type()) {
				g = in.val
			}
		}
		if g == nil {
			g = e.havocVal(p.Type(), p.Name(), st)
		}
		args = append(args[:len(args):len(args)], g)
	}
	e.used[sp.name] = true
	u := &useMode{spec: sp, name: fn.RelString(nil), caller: caller, prev: e.useMode}
	if site != nil {
		u.pos = site.Pos()
	}
	e.useMode = u
	u.next = st.next
	act := &Act{fn: sp.fn, env: map[ssa.Value]Val{}, caller: caller, depth: caller.depth + 1, isSpec: true}
	u.act = act
	for i, p := range sp.fn.Params {
		act.env[p] = args[i]
	}
	act.loops = e.loopsOf(sp.fn)
	u.res = nil
	pend := map[*ssa.BasicBlock][]edge{sp.fn.Blocks[0]: {{st: st.clone()}}}
	e.runRegion(act, act.loops.rpo, pend)
	e.useMode = u.prev
	rst, _ := e.mergeEdges(act.rets)
	if rst == nil {
		ds := st.clone()
		ds.pc = []*Term{e.tt.False()}
		return e.deadResult(fn.Signature), ds, true
	}
	if u.res == nil && fn.Signature.Results().Len() > 0 {
		unsup("contract %s does not call its target on this path", sp.name)
	}
	return u.res, rst, true
}

func (e *Engine) applyModifies(u *useMode, fn *ssa.Function, st *State) Val {
	tt := e.tt
	nx := tt.sym("next", SInt)
	e.rawAssume(tt.Le(st.next, nx))
	if e.lastAlloc != nil {
		e.rawAssume(tt.Lt(e.lastAlloc, nx))
	}
	st.next = nx
	for _, m := range u.mods {
		if m.ptr != nil {
			e.store(st, m.ptr, m.typ, e.havocLike(st, m.typ, "m", e.load(st, m.ptr, m.typ)))
			continue
		}
		if m.cell != nil {
			if _, ok := st.cells[m.cell]; ok {
				st.cells[m.cell] = e.havocLike(st, m.cell.typ, "m_"+m.cell.name, st.cells[m.cell])
			}
			continue
		}
		h := append([]*Term{}, e.heapOf(st, m.elem)...)
		for i := range h {
			h[i] = tt.Store(h[i], m.ref, e.fresh("mrow", h[i].sort.elem()))
		}
		st.heap[typeKey(m.elem)] = h
		e.logWrite(m.elem, m.ref)
	}
	u.res = e.anyResult(fn.Signature, st)
	return u.res
}

// addModifies records a declared frame component.
func (e *Engine) addModifies(caller *Act, st *State, v Val) {
	iv, ok := v.(*VIface)
	if !ok || len(iv.alts) != 1 || iv.alts[0].val == nil {
		unsup("Modifies argument")
	}
	var ms []modTarget
	switch x := iv.alts[0].val.(type) {
	case *VPtr:
		if e.useMode != nil && e.useMode.active(caller) {
			et := iv.alts[0].typ.Underlying().(*types.Pointer).Elem()
			e.useMode.mods = append(e.useMode.mods, modTarget{ptr: x, typ: et})
			return
		}
		for _, a := range x.alts {
			if a.loc == nil {
				continue
			}
			l := a.loc
			if l.cell != nil {
				if f, ok := st.fwd[l.cell]; ok {
					ms = append(ms, modTarget{elem: l.cell.typ, ref: f}, modTarget{cell: l.cell})
				} else {
					ms = append(ms, modTarget{cell: l.cell})
				}
				continue
			}
			ms = append(ms, modTarget{elem: l.elem, ref: l.ref})
		}
	case *VSlice:
		et := iv.alts[0].typ.Underlying().(*types.Slice).Elem()
		ms = append(ms, modTarget{elem: et, ref: x.ref})
	default:
		unsup("Modifies argument %T", x)
	}
	if e.useMode != nil && e.useMode.active(caller) {
		e.useMode.mods = append(e.useMode.mods, ms...)
		return
	}
	e.hasMods = true
	e.mods = append(e.mods, ms...)
}

// ---- interface methods of unknown implementations

func (e *Engine) invokeOpaque(act *Act, recv *Term, method *types.Func, args []Val, st *State, site ssa.Instruction) (Val, *State) {
	sig := method.Type().(*types.Signature)
	if pureMethods[method.FullName()] {
		e.note("assumed: " + method.FullName() + " is a function of its receiver and arguments")
		ts := []*Term{recv}
		for _, a := range args {
			t, ok := a.(*Term)
			if !ok {
				unsup("arguments of %s", method.FullName())
			}
			ts = append(ts, t)
		}
		s, _ := basicSort(sig.Results().At(0).Type())
		return e.tt.App("m_"+method.Name(), s, ts...), st
	}
	e.note("a method call on an interface value of unknown implementation (" + method.FullName() + ") returns an arbitrary value of its type, does not panic and leaves the verified memory alone")
	return e.anyResult(sig, st), st
}

// ---- invariant templates

func (e *Engine) instantiate(t *template, act *Act, l *Loop, phis []*ssa.Phi, st0, st1 *State) []*loopCand {
	if callsVisited(t.fn) && e.curRange == nil {
		return nil
	}
	vars := e.loopVars(act, l, phis, st0)
	params := t.fn.Params
	var out []*loopCand
	binding := make([]metaVar, len(params))
	count := 0
	// variables named alike are tried alone first; a retry of the contract tries all of them
	alike := make([]bool, len(params))
	named := func(v metaVar, p *ssa.Parameter) bool {
		return strings.Contains(strings.ToLower(v.name), strings.ToLower(p.Name()))
	}
	for i, p := range params {
		if patience > 1 || len(p.Name()) < 4 {
			continue
		}
		for _, v := range vars {
			if types.Identical(v.typ, p.Type()) && named(v, p) {
				alike[i] = true
			}
		}
	}
	var rec func(i int)
	rec = func(i int) {
		if count >= 240 {
			return
		}
		if i == len(params) {
			count++
			b := append([]metaVar{}, binding...)
			var names []string
			for _, x := range b {
				names = append(names, x.name)
			}
			desc := fmt.Sprintf("template %s(%s)", t.fn.Name(), strings.Join(names, ","))
			out = append(out, &loopCand{e.newCand(desc, true), func(st *State, ph []Val) *Term {
				var args []Val
				for _, x := range b {
					v := x.get(st, ph)
					if v == nil {
						return nil
					}
					args = append(args, v)
				}
				r := e.evalPure(t.fn, args, t.bind, st)
				x, _ := r.(*Term)
				return x
			}})
			return
		}
		seen := map[string]bool{}
		for _, v := range vars {
			if !types.Identical(v.typ, params[i].Type()) || alike[i] && !named(v, params[i]) {
				continue
			}
			// distinct metavariables
			dup := false
			for j := 0; j < i; j++ {
				if binding[j].key == v.key {
					dup = true
				}
			}
			if dup || seen[v.key] {
				continue
			}
			seen[v.key] = true
			binding[i] = v
			rec(i + 1)
		}
	}
	rec(0)
	return out
}

func (e *Engine) instMeasure(t *template, act *Act, l *Loop, phis []*ssa.Phi, st *State) []func(*State, []Val) *Term {
	vars := e.loopVars(act, l, phis, st)
	params := t.fn.Params
	var out []func(*State, []Val) *Term
	binding := make([]metaVar, len(params))
	var rec func(i int)
	rec = func(i int) {
		if len(out) > 60 {
			return
		}
		if i == len(params) {
			b := append([]metaVar{}, binding...)
			out = append(out, func(st *State, ph []Val) *Term {
				var args []Val
				for _, x := range b {
					v := x.get(st, ph)
					if v == nil {
						return e.tt.Int(0)
					}
					args = append(args, v)
				}
				return e.evalPure(t.fn, args, t.bind, st).(*Term)
			})
			return
		}
		for _, v := range vars {
			if types.Identical(v.typ, params[i].Type()) {
				binding[i] = v
				rec(i + 1)
			}
		}
	}
	rec(0)
	return out
}

// ---- globals

func (e *Engine) globalInit(st *State, c *Cell) Val {
	if v, ok := e.global0[c]; ok {
		return v
	}
	g := e.globalOf[c]
	v := e.globalValue(st, g)
	e.global0[c] = v
	return v
}

// globalValue evaluates the initialiser of a package variable that is never reassigned; otherwise any value.
func (e *Engine) globalValue(st *State, g *ssa.Global) Val {
	t := g.Type().(*types.Pointer).Elem()
	if e.w.constGlobal(g) {
		if v, ok := e.evalInit(st, g); ok {
			return v
		}
	}
	var ls []*Term
	for i, s := range e.leaves(t) {
		ls = append(ls, e.tt.gsym("G_"+sanitize(g.RelString(nil))+"_"+itoa(i), s))
	}
	v, _ := e.fromLeaves(t, ls)
	s0 := &State{next: e.next0()}
	e.bg(e.typeInv(s0, t, v))
	if types.Identical(t, types.Universe.Lookup("error").Type()) {
		e.bg(e.tt.Not(e.tt.Eq(ls[0], e.nilIface())))
		e.note("package-level error values are not nil")
	}
	return v
}

func (e *Engine) bg(c *Term) {
	if c.isTrue() {
		return
	}
	for _, x := range e.background {
		if x == c {
			return
		}
	}
	e.background = append(e.background, c)
}

func inputRefs(v Val, out *[]*Term) {
	switch x := v.(type) {
	case *VSlice:
		*out = append(*out, x.ref)
	case *VStruct:
		for _, f := range x.f {
			inputRefs(f, out)
		}
	}
}

// evalInit symbolically executes the part of the package initialiser that computes g. The memory it
// allocates exists before the verified function starts and is not shared with its arguments.
func (e *Engine) evalInit(st *State, g *ssa.Global) (val Val, ok bool) {
	if g.Pkg == nil || g.Pkg.Func("init") == nil || len(g.Pkg.Func("init").Blocks) == 0 {
		return nil, false
	}
	fn := g.Pkg.Func("init")
	// backward slice
	in := map[ssa.Value]bool{g: true}
	var root func(v ssa.Value) ssa.Value
	root = func(v ssa.Value) ssa.Value {
		switch x := v.(type) {
		case *ssa.FieldAddr:
			return root(x.X)
		case *ssa.IndexAddr:
			return root(x.X)
		}
		return v
	}
	use := map[ssa.Instruction]bool{}
	for ch := true; ch; {
		ch = false
		for _, b := range fn.Blocks {
			for _, i := range b.Instrs {
				if use[i] {
					continue
				}
				take := false
				switch x := i.(type) {
				case *ssa.Store:
					take = in[root(x.Addr)]
				case *ssa.MapUpdate:
					take = in[x.Map]
				default:
					if v, isV := i.(ssa.Value); isV && in[v] {
						take = true
					}
				}
				if take {
					use[i] = true
					ch = true
					for _, op := range i.Operands(nil) {
						if *op != nil {
							if _, isG := (*op).(*ssa.Global); isG {
								continue
							}
							in[*op] = true
							in[root(*op)] = true
						}
					}
				}
			}
		}
	}
	sv := *e
	e.initMode, e.boundStack, e.writeLog, e.catch, e.dry = true, nil, nil, nil, true
	e.pure = 1
	s := &State{cells: map[*Cell]Val{}, heap: map[string][]*Term{}, maps: map[string]*mapHeap{}, fwd: map[*Cell]*Term{}, ghost: map[string]*Term{}, next: e.next0()}
	c := e.globals[g]
	s.cells[c] = e.zero(c.typ)
	defer func() {
		e.initMode, e.boundStack, e.writeLog, e.catch, e.dry, e.pure = sv.initMode, sv.boundStack, sv.writeLog, sv.catch, sv.dry, sv.pure
		if r := recover(); r != nil {
			if u, isU := r.(Unsupported); isU {
				e.note("initial value of " + g.RelString(nil) + " not evaluated: " + u.msg)
				val, ok = nil, false
				return
			}
			panic(r)
		}
	}()
	act := &Act{fn: fn, env: map[ssa.Value]Val{}, isSpec: true}
	act.loops = &loopInfo{heads: map[*ssa.BasicBlock]*Loop{}}
	for _, b := range fn.Blocks {
		for _, i := range b.Instrs {
			if use[i] {
				switch i.(type) {
				case *ssa.Phi, *ssa.If, *ssa.Jump:
					unsup("conditional initialiser")
				}
				s = e.instr(act, i, s)
			}
		}
	}
	v, have := s.cells[c]
	if !have {
		return nil, false
	}
	// memory allocated by the initialiser, as facts about the initial heap
	for k, h := range s.heap {
		h0 := e.heap0(e.heapTypes[k])
		for i := range h {
			for _, r := range storeRefs(h[i]) {
				e.bg(e.tt.Eq(e.tt.Select(h0[i], r), e.tt.Select(h[i], r)))
			}
		}
	}
	for k, m := range s.maps {
		m0 := e.map0s[k]
		for _, r := range storeRefs(m.dom) {
			e.bg(e.tt.Eq(e.tt.Select(m0.dom, r), e.tt.Select(m.dom, r)))
			e.bg(e.tt.Eq(e.tt.Select(m0.size, r), e.tt.Select(m.size, r)))
			for i := range m.vals {
				e.bg(e.tt.Eq(e.tt.Select(m0.vals[i], r), e.tt.Select(m.vals[i], r)))
			}
		}
	}
	return v, true
}

func storeRefs(x *Term) []*Term {
	var r []*Term
	for x.op == "store" {
		r = append(r, x.args[1])
		x = x.args[0]
	}
	return r
}
