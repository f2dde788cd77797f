package main

import (
	"fmt"
	"go/token"
	"go/types"
	"math/big"
	"strings"

	"golang.org/x/tools/go/ssa"
)

const vcPath = "github.com/metafates/bento/internal/vc"

type template struct {
	fv   *VFunc
	fn   *ssa.Function
	bind []Val
	only string
}

func (e *Engine) note(s string) { e.notes[s] = true }

func (e *Engine) isSpecFn(fn *ssa.Function) bool {
	f := fn
	for f.Parent() != nil {
		f = f.Parent()
	}
	if f.Origin() != nil {
		f = f.Origin()
	}
	p := f.Pos()
	if !p.IsValid() {
		return false
	}
	return e.specFiles[e.prog.Fset.Position(p).Filename]
}

func unwrapFn(v Val) (*ssa.Function, []Val) {
	switch x := v.(type) {
	case *VFunc:
		if len(x.alts) == 1 && x.alts[0].fn != nil {
			return x.alts[0].fn, x.alts[0].bind
		}
	case *VIface:
		if len(x.alts) == 1 && x.alts[0].val != nil {
			return unwrapFn(x.alts[0].val)
		}
	}
	unsup("contract argument is not a literal function")
	return nil, nil
}

func litStr(v Val) string {
	t, ok := v.(*Term)
	if !ok || t.op != "strlit" {
		unsup("contract argument is not a literal string")
	}
	return t.name
}

// evalPure runs a function without obligations and returns its result.
func (e *Engine) evalPure(fn *ssa.Function, args, bind []Val, st *State) Val {
	e.pure++
	savedLog := e.writeLog
	e.writeLog = nil
	s := st.clone()
	act := &Act{fn: fn, isSpec: true}
	r, _ := e.callFunc(act, fn, args, bind, s, nil)
	e.writeLog = savedLog
	e.pure--
	return r
}

func (e *Engine) quantify(kind string, lo, hi *Term, fn *ssa.Function, bind []Val, st *State) *Term {
	tt := e.tt
	v := tt.bound("q", SInt)
	e.boundStack = append(e.boundStack, v)
	s := st.clone()
	body := e.evalPure(fn, []Val{v}, bind, s).(*Term)
	e.boundStack = e.boundStack[:len(e.boundStack)-1]
	rng := tt.And(tt.Le(lo, v), tt.Lt(v, hi))
	return e.mkQuant(kind, v, rng, body)
}

// mkQuant builds the quantifier, normalising array index offsets so that patterns are usable.
func (e *Engine) mkQuant(kind string, v, rng, body *Term) *Term {
	tt := e.tt
	var full *Term
	if kind == "forall" {
		full = tt.Implies(rng, body)
	} else {
		full = tt.And(rng, body)
	}
	if !containsFree(full, v) {
		if kind == "forall" {
			return full
		}
		return full
	}
	// collect offsets at which arrays are read
	offs := map[int]*Term{}
	var order []*Term
	seen := map[*Term]bool{}
	var walk func(x *Term)
	walk = func(x *Term) {
		if seen[x] || !containsFree(x, v) {
			return
		}
		seen[x] = true
		if x.op == "select" && containsFree(x.args[1], v) {
			d := tt.Sub(x.args[1], v)
			if !containsFree(d, v) {
				if offs[d.id] == nil {
					offs[d.id] = d
					order = append(order, d)
				}
			}
		}
		for _, a := range x.args {
			walk(a)
		}
	}
	walk(full)
	if len(order) == 0 {
		return tt.Quant(kind, []*Term{v}, full, e.patsFor([]*Term{v}, full))
	}
	var outs []*Term
	for _, d := range order {
		if d.hasBnd {
			continue
		}
		w := v
		f := full
		if !(d.isNum() && d.name == "0") {
			w = tt.bound("q", SInt)
			f = tt.Subst(full, map[*Term]*Term{v: tt.Sub(w, d)})
		}
		outs = append(outs, tt.Quant(kind, []*Term{w}, f, e.patsFor([]*Term{w}, f)))
	}
	if len(outs) == 0 {
		return tt.Quant(kind, []*Term{v}, full, e.patsFor([]*Term{v}, full))
	}
	if kind == "exists" {
		return outs[0]
	}
	return tt.And(outs...) // equivalent copies with different triggers
}

// patsFor collects single-term patterns: array reads and uninterpreted applications indexed by the variable itself.
func (e *Engine) patsFor(vars []*Term, body *Term) [][]*Term {
	if len(vars) != 1 {
		return nil
	}
	v := vars[0]
	var pats [][]*Term
	seen := map[*Term]bool{}
	var walk func(x *Term)
	walk = func(x *Term) {
		if seen[x] || !containsFree(x, v) {
			return
		}
		seen[x] = true
		if x.op == "forall" || x.op == "exists" {
			return
		}
		ok := false
		if x.op == "select" && x.args[1] == v && !containsFree(x.args[0], v) && len(x.free) == 1 && noIte(x.args[0]) {
			ok = true
		}
		if strings.HasPrefix(x.op, "app:") && x.op != "app:mul" && len(x.free) == 1 {
			for _, a := range x.args {
				if a == v {
					ok = true
				}
			}
			for _, a := range x.args {
				if a != v && (containsFree(a, v) || !noIte(a)) {
					ok = false
				}
			}
		}
		if ok {
			pats = append(pats, []*Term{x})
		}
		for _, a := range x.args {
			walk(a)
		}
	}
	walk(body)
	if len(pats) > 6 {
		pats = pats[:6]
	}
	return pats
}

func noIte(x *Term) bool {
	if x.op == "forall" || x.op == "exists" || x.op == "and" || x.op == "or" || x.op == "not" || x.op == "=>" || x.op == "=" || x.op == "<=" || x.op == "<" {
		return false
	}
	if x.op == "ite" {
		return false
	}
	for _, a := range x.args {
		if !noIte(a) {
			return false
		}
	}
	return true
}

func (e *Engine) vcCall(caller *Act, fn *ssa.Function, args, bind []Val, st *State, site ssa.Instruction) (Val, *State, bool) {
	tt := e.tt
	name := fn.Name()
	if fn.Origin() != nil {
		name = fn.Origin().Name()
	}
	pos := token.NoPos
	if site != nil {
		pos = site.Pos()
	}
	switch name {
	case "Requires":
		c := args[0].(*Term)
		if e.useMode != nil && e.useMode.active(caller) {
			e.check(st, e.useMode.caller, "requires", "precondition of "+e.useMode.name, e.useMode.pos, c)
			return nil, st, true
		}
		e.hasRequires = true
		e.rawAssume(tt.Implies(e.pcTerm(st), c))
		e.requires = append(e.requires, tt.Implies(e.pcTerm(st), c))
		return nil, st, true
	case "Ensures":
		c := args[1].(*Term)
		if e.useMode != nil && e.useMode.active(caller) {
			e.assume(st, c)
			return nil, st, true
		}
		e.check(st, caller, "ensures", litStr(args[0]), pos, c)
		return nil, st, true
	case "Assert":
		c := args[1].(*Term)
		if e.useMode != nil && e.useMode.active(caller) {
			return nil, st, true
		}
		e.check(st, caller, "ensures", litStr(args[0]), pos, c)
		return nil, st, true
	case "Induct":
		if e.useMode != nil && e.useMode.active(caller) {
			return nil, st, true
		}
		n := args[1].(*Term)
		f, b := unwrapFn(args[2])
		at := func(i *Term) *Term { return e.evalPure(f, []Val{i}, b, st).(*Term) }
		e.check(st, caller, "ensures", litStr(args[0])+" (at 0)", pos, at(tt.Int(0)))
		i := e.fresh("ind", SInt)
		e.check(st, caller, "ensures", litStr(args[0])+" (step)", pos, tt.Implies(tt.And(tt.Le(tt.Int(0), i), tt.Lt(i, n), at(i)), at(tt.Add(i, tt.Int(1)))))
		e.assume(st, tt.Implies(tt.Le(tt.Int(0), n), at(n)))
		return nil, st, true
	case "Implies":
		return tt.Implies(args[0].(*Term), args[1].(*Term)), st, true
	case "Snap":
		s := args[0].(*VSlice)
		et := fn.Signature.Params().At(0).Type().Underlying().(*types.Slice).Elem()
		ref := e.alloc(st)
		h := append([]*Term{}, e.heapOf(st, et)...)
		for i := range h {
			h[i] = tt.Store(h[i], ref, tt.Select(h[i], s.ref))
		}
		st.heap[typeKey(et)] = h
		e.logWrite(et, ref)
		e.snapshot(st, et, ref)
		return &VSlice{ref: ref, off: s.off, ln: s.ln, cp: s.ln}, st, true
	case "Forall", "Exists":
		f, b := unwrapFn(args[2])
		k := "forall"
		if name == "Exists" {
			k = "exists"
		}
		return e.quantify(k, args[0].(*Term), args[1].(*Term), f, b, st), st, true
	case "Sum", "Total":
		f, b := unwrapFn(args[1])
		return e.sum(args[0].(*Term), f, b, st), st, true
	case "Invariant", "InvariantIn", "Decreases":
		i := 0
		only := ""
		if name == "InvariantIn" {
			i = 1
			only = litStr(args[0])
		}
		if e.useMode != nil && e.useMode.active(caller) {
			return nil, st, true
		}
		f, b := unwrapFn(args[i])
		t := &template{fn: f, bind: b, only: only}
		if name == "Decreases" {
			e.userMeasures = append(e.userMeasures, t)
		} else {
			e.templates = append(e.templates, t)
		}
		return nil, st, true
	case "Rely":
		if e.useMode != nil && e.useMode.active(caller) {
			return nil, st, true
		}
		f, b := unwrapFn(args[0])
		e.relies = append(e.relies, &template{fn: f, bind: b})
		e.note("what goroutines and channels deliver satisfies " + f.RelString(nil))
		return nil, st, true
	case "Modifies":
		e.addModifies(caller, st, args[0])
		return nil, st, true
	case "Fresh":
		n := e.entryNext
		if u := e.useMode; u != nil && u.active(caller) {
			n = u.next
		}
		x := args[0].(*VSlice)
		return tt.Or(tt.Eq(x.ref, tt.Int(0)), tt.Le(n, x.ref)), st, true
	case "SameArray":
		x, y := args[0].(*VSlice), args[1].(*VSlice)
		return tt.Eq(x.ref, y.ref), st, true
	case "Catch":
		f, b := unwrapFn(args[0])
		e.catch = append(e.catch, &catchFrame{})
		_, s2 := e.callFunc(caller, f, nil, b, st.clone(), site)
		fr := e.catch[len(e.catch)-1]
		e.catch = e.catch[:len(e.catch)-1]
		var outs []edge
		if !s2.dead(e) {
			outs = append(outs, edge{st: s2, phis: []Val{tt.False()}})
		}
		for _, p := range fr.states {
			outs = append(outs, edge{st: p.st, phis: []Val{tt.True()}})
		}
		m, v := e.mergeEdges(outs)
		if m == nil {
			st.pc = []*Term{tt.False()}
			return tt.False(), st, true
		}
		return v[0], m, true
	case "Visited":
		return e.visited(st, fn.Signature.Params().At(0).Type(), args[0]), st, true
	case "Tokens":
		return e.tokens(caller, fn, st, args[0].(*Term), site), st, true
	case "Plain":
		return e.plain(args[0].(*Term)), st, true
	case "OneSGR":
		return e.sgrUnit(args[0].(*Term)), st, true
	case "Graphemes":
		s := args[0].(*Term)
		return e.graphemeSlice(st, s), st, true
	case "Lines":
		s := args[0].(*Term)
		return e.stringSlice(st, e.lineCount(s), e.lineRow(s)), st, true
	case "SameFn":
		x, y := args[0].(*VFunc), args[1].(*VFunc)
		r := tt.False()
		for _, p := range x.alts {
			for _, q := range y.alts {
				var c *Term
				px, qx := p.opaque, q.opaque
				if p.isNil {
					px = tt.Int(0)
				}
				if q.isNil {
					qx = tt.Int(0)
				}
				switch {
				case px != nil && qx != nil:
					c = tt.Eq(px, qx)
				case px == nil && qx == nil && p.fn != q.fn:
					c = tt.False()
				case px == nil && qx == nil && sameVal(&VFunc{[]FnAlt{{g: tt.True(), fn: p.fn, bind: p.bind}}}, &VFunc{[]FnAlt{{g: tt.True(), fn: q.fn, bind: q.bind}}}):
					c = tt.True()
				default:
					c = e.fresh("samefn", SBool)
				}
				r = tt.Or(r, tt.And(p.g, q.g, c))
			}
		}
		return r, st, true
	case "EveryRune":
		row, n := e.runesOf(args[0].(*Term))
		f, b := unwrapFn(args[1])
		v := tt.bound("q", SInt)
		e.boundStack = append(e.boundStack, v)
		body := e.evalPure(f, []Val{tt.Select(row, v)}, b, st.clone()).(*Term)
		e.boundStack = e.boundStack[:len(e.boundStack)-1]
		return e.mkQuant("forall", v, tt.And(tt.Le(tt.Int(0), v), tt.Lt(v, n)), body), st, true
	case "FirstRunes":
		row, _ := e.runesOf(args[0].(*Term))
		f, b := unwrapFn(args[2])
		v := tt.bound("q", SInt)
		e.boundStack = append(e.boundStack, v)
		body := e.evalPure(f, []Val{tt.Select(row, v)}, b, st.clone()).(*Term)
		e.boundStack = e.boundStack[:len(e.boundStack)-1]
		return e.mkQuant("forall", v, tt.And(tt.Le(tt.Int(0), v), tt.Lt(v, args[1].(*Term))), body), st, true
	case "Claims":
		return e.claims(caller, st, args[0].(*Term), site), st, true
	case "Width":
		return e.strWidth(args[0].(*Term)), st, true
	}
	return nil, st, false
}

// sum builds the sum function of a body.
func (e *Engine) sum(n *Term, fn *ssa.Function, bind []Val, st *State) *Term {
	tt := e.tt
	v := tt.mk("bound", fmt.Sprintf("sumidx%d", len(e.boundStack)), SInt)
	e.boundStack = append(e.boundStack, v)
	body := e.evalPure(fn, []Val{v}, bind, st.clone()).(*Term)
	e.boundStack = e.boundStack[:len(e.boundStack)-1]
	return e.sumOf(n, v, body)
}

// factor makes choices between elements of arrays elements of chosen arrays.
func (e *Engine) factor(x, v *Term) *Term {
	tt := e.tt
	memo := map[*Term]*Term{}
	var rec func(x *Term) *Term
	rec = func(x *Term) *Term {
		if len(x.args) == 0 || x.op == "forall" || x.op == "exists" {
			return x
		}
		if r, ok := memo[x]; ok {
			return r
		}
		args := make([]*Term, len(x.args))
		ch := false
		for i, a := range x.args {
			args[i] = rec(a)
			ch = ch || args[i] != a
		}
		r := x
		if x.op == "ite" && args[1].op == "select" && args[2].op == "select" && args[1].args[1] == args[2].args[1] && len(args[0].free) == 0 &&
			len(args[1].args[0].free) == 0 && len(args[2].args[0].free) == 0 {
			r = tt.mk("select", "", x.sort, tt.Ite(args[0], args[1].args[0], args[2].args[0]), args[1].args[1])
		} else if ch {
			r = tt.rebuild(x, args, nil)
		}
		memo[x] = r
		return r
	}
	return rec(x)
}

// nonNeg reports that a term is plainly not negative.
func (e *Engine) nonNeg(x *Term) bool {
	switch {
	case x.op == "num":
		return x.big().Sign() >= 0
	case x.op == "app:swidth" || x.op == "app:slen" || x.op == "app:gcount":
		return true
	case strings.HasPrefix(x.op, "app:sum_"):
		return e.sumPos[strings.TrimPrefix(x.op, "app:")]
	case x.op == "+":
		for _, a := range x.args {
			if !e.nonNeg(a) {
				return false
			}
		}
		return true
	case x.op == "ite":
		a, b := e.nonNeg(x.args[1]), e.nonNeg(x.args[2])
		if c := x.args[0]; (a || b) && (c.op == "<=" || c.op == "<") && c.args[0] == x.args[2] && c.args[1] == x.args[1] {
			return true // the greater one
		}
		return a && b
	}
	return false
}

func (e *Engine) sumOf(n, v, body *Term) *Term {
	tt := e.tt
	// what does not depend on the index is an argument, so that equal arrays have equal sums
	var given, params []*Term
	if !growSum(body, v) {
		body = e.factor(body, v)
		m := map[*Term]*Term{}
		seen := map[*Term]bool{}
		var find func(x *Term)
		find = func(x *Term) {
			if seen[x] {
				return
			}
			seen[x] = true
			has := false
			for _, f := range x.free {
				has = has || f == v
			}
			if has {
				if x.op != "forall" && x.op != "exists" {
					for _, a := range x.args {
						find(a)
					}
				}
				return
			}
			if x.op == "num" || x.op == "real" || x.op == "strlit" || x.op == "true" || x.op == "false" {
				return
			}
			m[x] = tt.mk("bound", fmt.Sprintf("g%d_%s", len(given), x.sort), x.sort)
			given = append(given, x)
		}
		find(body)
		for _, x := range given {
			params = append(params, m[x])
		}
		body = tt.Subst(body, m)
	}
	idx := tt.mk("bound", "sumidx", SInt)
	body = tt.Subst(body, map[*Term]*Term{v: idx})
	v = idx
	// outer bound variables left inside quantifiers are arguments too
	for _, f := range body.free {
		known := f == v
		for _, p := range params {
			known = known || f == p
		}
		if !known {
			params = append(params, f)
			given = append(given, f)
		}
	}
	extra := params
	name := fmt.Sprintf("sum_%d", body.id)
	z, so := tt.Int(0), body.sort
	nil0 := z
	if so == SReal {
		nil0 = tt.Real(new(big.Rat))
	}
	if n.isNum() && n.big().Sign() <= 0 {
		return nil0
	}
	if _, ok := e.sums[name]; !ok {
		e.sums[name] = true
		x := tt.bound("n", SInt)
		one := tt.Int(1)
		var vars []*Term
		vars = append(vars, x)
		vars = append(vars, extra...)
		ap := func(f string, i *Term) *Term { return tt.App(f, so, append([]*Term{i}, extra...)...) }
		full := ap(name, x)
		lim := ap(name+"_l", x)
		e.axioms = append(e.axioms, tt.Quant("forall", vars, tt.Eq(full, lim), [][]*Term{{full}}))
		e.axioms = append(e.axioms, tt.Quant("forall", vars, tt.Implies(tt.Le(x, z), tt.Eq(full, nil0)), [][]*Term{{full}}))
		if so == SReal {
			e.axioms = append(e.axioms, tt.Quant("forall", vars, tt.Implies(tt.Le(x, z), tt.Eq(lim, nil0)), [][]*Term{{lim}}))
		}
		prev := tt.Sub(x, one)
		at := tt.Subst(body, map[*Term]*Term{v: prev})
		e.axioms = append(e.axioms, tt.Quant("forall", vars, tt.Implies(tt.Lt(z, x), tt.Eq(full, tt.Add(ap(name+"_l", prev), at))), [][]*Term{{full}}))
		if e.nonNeg(body) {
			e.sumPos[name] = true
			// sums of non-negative terms are monotone; the widths of the clusters of a string add up to its width
			e.axioms = append(e.axioms, tt.Quant("forall", vars, tt.Le(z, full), [][]*Term{{full}}))
			y := tt.bound("m", SInt)
			fy := ap(name, y)
			e.axioms = append(e.axioms, tt.Quant("forall", append([]*Term{y}, vars...), tt.Implies(tt.Le(x, y), tt.Le(full, fy)), [][]*Term{{full, fy}}))
		}
		if growSum(body, v) {
			s := body.args[0].args[0].args[0]
			e.axioms = append(e.axioms, tt.Eq(tt.App(name, SInt, e.gcount(s)), e.strWidth(s)))
		}
	}
	// a sum of a few terms is spelled out
	if n.isNum() && n.big().IsInt64() && n.big().Int64() <= 8 {
		m := map[*Term]*Term{}
		for i, g := range given {
			m[params[i]] = g
		}
		total := nil0
		for i := int64(0); i < n.big().Int64(); i++ {
			m[v] = tt.Int(i)
			total = tt.Add(total, tt.Subst(body, m))
		}
		return total
	}
	return tt.App(name, so, append([]*Term{n}, given...)...)
}

// growSum recognises the widths of the clusters of a string.
func growSum(body, v *Term) bool {
	if body.op != "app:swidth" {
		return false
	}
	a := body.args[0]
	return a.op == "select" && a.args[1] == v && a.args[0].op == "app:grow" && len(a.args[0].free) == 0
}

func (e *Engine) builtin(act *Act, b *ssa.Builtin, c *ssa.CallCommon, args []Val, rt types.Type, st *State, in ssa.Instruction) (Val, *State) {
	tt := e.tt
	switch b.Name() {
	case "len":
		switch x := args[0].(type) {
		case *VSlice:
			return x.ln, st
		case *Term:
			switch u := c.Args[0].Type().Underlying().(type) {
			case *types.Map:
				_ = u
				mh := e.mapOf(st, c.Args[0].Type())
				n := tt.Select(mh.size, x)
				e.assume(st, tt.Le(tt.Int(0), n))
				return tt.Ite(tt.Eq(x, tt.Int(0)), tt.Int(0), n), st
			case *types.Chan:
				return e.fresh("chanlen", SInt), st
			}
			return e.strLen(x), st
		case *VStruct:
			return tt.Int(int64(len(x.f))), st
		case *VPtr:
			a := c.Args[0].Type().Underlying().(*types.Pointer).Elem().Underlying().(*types.Array)
			return tt.Int(a.Len()), st
		}
	case "cap":
		switch x := args[0].(type) {
		case *VSlice:
			return x.cp, st
		}
	case "append":
		s := args[0].(*VSlice)
		et := c.Args[0].Type().Underlying().(*types.Slice).Elem()
		if y, ok := args[1].(*Term); ok { // append([]byte, string...)
			t := e.strToSlice(st, y, types.NewSlice(et))
			return e.appendSlice(st, et, s, t.(*VSlice)), st
		}
		return e.appendSlice(st, et, s, args[1].(*VSlice)), st
	case "copy":
		d := args[0].(*VSlice)
		et := c.Args[0].Type().Underlying().(*types.Slice).Elem()
		var s *VSlice
		if y, ok := args[1].(*Term); ok {
			s = e.strToSlice(st, y, types.NewSlice(et)).(*VSlice)
		} else {
			s = args[1].(*VSlice)
		}
		n := tt.Ite(tt.Le(d.ln, s.ln), d.ln, s.ln)
		e.rowUpdate(st, et, d.ref, func(i *Term) *Term {
			return tt.And(tt.Le(d.off, i), tt.Lt(i, tt.Add(d.off, n)))
		}, s.ref, func(i *Term) *Term { return tt.Add(s.off, tt.Sub(i, d.off)) })
		return n, st
	case "min", "max":
		r := args[0].(*Term)
		for _, y := range args[1:] {
			y := y.(*Term)
			if r.sort.isBV() || r.sort == SStr {
				unsup("min/max on %s", r.sort)
			}
			if b.Name() == "min" {
				r = tt.Ite(tt.Le(r, y), r, y)
			} else {
				r = tt.Ite(tt.Le(y, r), r, y)
			}
		}
		return r, st
	case "clear":
		switch x := args[0].(type) {
		case *VSlice:
			et := c.Args[0].Type().Underlying().(*types.Slice).Elem()
			e.rowFill(st, et, x)
			return nil, st
		case *Term:
			mt := c.Args[0].Type()
			mh := *e.mapOf(st, mt)
			k, _ := mh.dom.sort.elem().kv()
			mh.dom = tt.Store(mh.dom, x, tt.ConstArr(arrSort(k, SBool), tt.False()))
			mh.size = tt.Store(mh.size, x, tt.Int(0))
			e.logMap(mt, x)
			st.maps[typeKey(mt)] = &mh
			return nil, st
		}
	case "delete":
		m := args[0].(*Term)
		mt := c.Args[0].Type().Underlying().(*types.Map)
		k := e.mapKey(st, mt.Key(), args[1])
		e.logMap(c.Args[0].Type(), m)
		mh := *e.mapOf(st, c.Args[0].Type())
		dom := tt.Select(mh.dom, m)
		mh.size = tt.Store(mh.size, m, tt.Ite(tt.Select(dom, k), tt.Sub(tt.Select(mh.size, m), tt.Int(1)), tt.Select(mh.size, m)))
		mh.dom = tt.Store(mh.dom, m, tt.Store(dom, k, tt.False()))
		st.maps[typeKey(c.Args[0].Type())] = &mh
		return nil, st
	case "print", "println", "close":
		return nil, st
	case "recover":
		if n := len(e.panicStack); n > 0 {
			p := e.panicStack[n-1]
			if f, ok := st.cells[p.flag].(*Term); ok {
				v := e.mergeVal(f, p.val, e.zero(types.Universe.Lookup("any").Type()))
				st.cells[p.flag] = tt.False()
				return v, st
			}
		}
		return e.zero(types.Universe.Lookup("any").Type()), st
	case "ssa:wrapnilchk":
		p := e.ptr(args[0])
		e.nonNil(act, st, p, in.Pos())
		return args[0], st
	case "String", "Slice", "SliceData", "StringData":
		unsup("unsafe.%s", b.Name())
	}
	unsup("builtin %s", b.Name())
	return nil, st
}

// appendSlice models append. Growth keeps the offset and copies the whole old row; elements beyond the
// length are never observable through the result.
func (e *Engine) appendSlice(st *State, et types.Type, s, t *VSlice) *VSlice {
	tt := e.tt
	if t.ln.isNum() && t.ln.big().Sign() == 0 {
		return s
	}
	nl := tt.Add(s.ln, t.ln)
	fits := tt.Le(nl, s.cp)
	if s.cp == s.ln && t.ln.isNum() {
		fits = tt.False()
	}
	var na, ncap *Term
	if fits.isTrue() {
		na, ncap = s.ref, s.cp
	} else {
		na = e.alloc(st)
		ncap = e.fresh("cap", SInt)
		e.rawAssume(tt.And(tt.Le(nl, ncap), tt.Le(ncap, tt.Int(1<<62))))
		if len(e.boundStack) == 0 {
			e.assume(st, tt.Le(nl, tt.Int(1<<62)))
		}
	}
	ref := tt.Ite(fits, s.ref, na)
	h := append([]*Term{}, e.heapOf(st, et)...)
	if t.ln.isNum() && t.ln.big().Int64() <= 64 {
		n := t.ln.big().Int64()
		for k := range h {
			row := tt.Select(h[k], s.ref)
			src := tt.Select(h[k], t.ref)
			for j := int64(0); j < n; j++ {
				row = tt.Store(row, tt.Add(tt.Add(s.off, s.ln), tt.Int(j)), tt.Select(src, tt.Add(t.off, tt.Int(j))))
			}
			h[k] = tt.Store(h[k], ref, row)
		}
	} else {
		base := tt.Add(s.off, s.ln)
		for k := range h {
			row := e.defRow(h[k].sort.elem(), func(i *Term) *Term {
				return tt.Ite(tt.And(tt.Le(base, i), tt.Lt(i, tt.Add(base, t.ln))),
					tt.Select(tt.Select(h[k], t.ref), tt.Add(t.off, tt.Sub(i, base))),
					tt.Select(tt.Select(h[k], s.ref), i))
			}, tt.Add(t.off, tt.Neg(base)))
			// nothing appended: memory unchanged
			h[k] = tt.Ite(tt.Eq(t.ln, tt.Int(0)), h[k], tt.Store(h[k], ref, row))
		}
		ref = tt.Ite(tt.Eq(t.ln, tt.Int(0)), s.ref, ref)
		fits = tt.Or(fits, tt.Eq(t.ln, tt.Int(0)))
	}
	st.heap[typeKey(et)] = h
	hist := e.histAppend(st, et, s, t, ref)
	e.logWriteFresh(et, ref)
	return &VSlice{h: hist, ref: ref, off: s.off, ln: nl, cp: tt.Ite(fits, s.cp, ncap)}
}

// defRow introduces a row defined pointwise. shift: also usable from reads of the source at i+shift.
func (e *Engine) defRow(s Sort, f func(i *Term) *Term, shift *Term) *Term {
	tt := e.tt
	row := e.fresh("row", s)
	i := tt.bound("i", SInt)
	body := tt.Eq(tt.Select(row, i), f(i))
	pats := [][]*Term{{tt.Select(row, i)}}
	q := tt.Quant("forall", []*Term{i}, body, pats)
	if !q.hasBnd {
		e.rawAssume(q)
	}
	return row
}

// rowUpdate: row[i] = in(i) ? H[sref][map(i)] : row[i]
func (e *Engine) rowUpdate(st *State, et types.Type, ref *Term, in func(i *Term) *Term, sref *Term, mp func(i *Term) *Term) {
	tt := e.tt
	h := append([]*Term{}, e.heapOf(st, et)...)
	for k := range h {
		old := tt.Select(h[k], ref)
		src := tt.Select(h[k], sref)
		row := e.defRow(h[k].sort.elem(), func(i *Term) *Term {
			return tt.Ite(in(i), tt.Select(src, mp(i)), tt.Select(old, i))
		}, nil)
		h[k] = tt.Store(h[k], ref, row)
	}
	st.heap[typeKey(et)] = h
	e.logWrite(et, ref)
}

func (e *Engine) rowFill(st *State, et types.Type, s *VSlice) {
	tt := e.tt
	h := append([]*Term{}, e.heapOf(st, et)...)
	lv := e.leaves(et)
	for k := range h {
		old := tt.Select(h[k], s.ref)
		row := e.defRow(h[k].sort.elem(), func(i *Term) *Term {
			return tt.Ite(tt.And(tt.Le(s.off, i), tt.Lt(i, tt.Add(s.off, s.ln))), e.zeroLeaf(lv[k]), tt.Select(old, i))
		}, nil)
		h[k] = tt.Store(h[k], s.ref, row)
	}
	st.heap[typeKey(et)] = h
	e.logWrite(et, s.ref)
}

func (e *Engine) lookup(act *Act, in *ssa.Lookup, st *State) *State {
	tt := e.tt
	if _, ok := in.X.Type().Underlying().(*types.Basic); ok {
		x := e.operand(act, in.X).(*Term)
		i := e.idxTerm(e.operand(act, in.Index))
		e.check(st, act, "index", "string index in range", in.Pos(), tt.And(tt.Le(tt.Int(0), i), tt.Lt(i, e.strLen(x))))
		act.env[in] = e.strAt(x, i)
		return st
	}
	m := e.operand(act, in.X).(*Term)
	mt := in.X.Type().Underlying().(*types.Map)
	k := e.mapKey(st, mt.Key(), e.operand(act, in.Index))
	mh := e.mapOf(st, in.X.Type())
	ok := tt.And(tt.Not(tt.Eq(m, tt.Int(0))), tt.Select(tt.Select(mh.dom, m), k))
	var ls []*Term
	for i := range mh.vals {
		ls = append(ls, tt.Select(tt.Select(mh.vals[i], m), k))
	}
	v, _ := e.fromLeaves(mt.Elem(), ls)
	if len(e.boundStack) == 0 {
		s2 := st.clone()
		s2.assumePC(e, ok)
		e.assumeTypeInv(s2, mt.Elem(), v)
	}
	v = e.mergeVal(ok, v, e.zero(mt.Elem()))
	if in.CommaOk {
		act.env[in] = &VStruct{[]Val{v, ok}}
	} else {
		act.env[in] = v
	}
	return st
}

func (e *Engine) globalPtr(g *ssa.Global) Val {
	t := g.Type().(*types.Pointer).Elem()
	c, ok := e.globals[g]
	if !ok {
		e.cellCount++
		c = &Cell{id: e.cellCount, name: "", typ: t}
		e.globals[g] = c
		e.globalOf[c] = g
	}
	return &VPtr{[]PtrAlt{{e.tt.True(), &Loc{cell: c, elem: t}}}}
}

// ---- intrinsics for library functions

func fullName(fn *ssa.Function) string {
	f := fn
	if f.Origin() != nil {
		f = f.Origin()
	}
	if f.Signature.Recv() != nil {
		return f.RelString(nil)
	}
	if f.Pkg != nil {
		return f.Pkg.Pkg.Path() + "." + f.Name()
	}
	return f.RelString(nil)
}

func (e *Engine) intrinsic(caller *Act, fn *ssa.Function, args, bind []Val, st *State, site ssa.Instruction) (Val, *State, bool) {
	name := fullName(fn)
	if strings.HasPrefix(name, vcPath+".") {
		return e.vcCall(caller, fn, args, bind, st, site)
	}
	if h, ok := intrinsics[name]; ok {
		v, s := h(e, caller, fn, args, st, site)
		return v, s, true
	}
	return nil, st, false
}

type intrinFn func(e *Engine, caller *Act, fn *ssa.Function, args []Val, st *State, site ssa.Instruction) (Val, *State)

var intrinsics = map[string]intrinFn{}

func (e *Engine) external(caller *Act, fn *ssa.Function, args []Val, st *State, site ssa.Instruction) (Val, *State) {
	name := fullName(fn)
	if externalPure[name] {
		e.note("assumed: " + name + " has no effect on verified memory, does not panic, and returns any value of its type")
		return e.anyResult(fn.Signature, st), st
	}
	unsup("external function %s", name)
	return nil, st
}

func (e *Engine) anyResult(sig *types.Signature, st *State) Val {
	switch sig.Results().Len() {
	case 0:
		return nil
	case 1:
		return e.havocVal(sig.Results().At(0).Type(), "ext", st)
	}
	return e.havocVal(sig.Results(), "ext", st)
}

var externalPure = map[string]bool{}
