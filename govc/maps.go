package main

import (
	"fmt"
	"go/types"
	"strings"

	"golang.org/x/tools/go/ssa"
)

// Maps. A key that is made of several parts is a value of a datatype with one constructor; its parts
// are selected by the accessors. An iteration keeps, as ghost state, the set of keys it has produced
// and whether the set of keys in the map has stayed the same since it began.

type keyType struct {
	name  string
	sorts []Sort
}

func (e *Engine) keySort(t types.Type) Sort {
	kl := e.leaves(t)
	if len(kl) == 1 {
		return kl[0]
	}
	for _, k := range e.keyTypes {
		if fmt.Sprint(k.sorts) == fmt.Sprint(kl) {
			return Sort(k.name)
		}
	}
	k := &keyType{name: "Key" + itoa(len(e.keyTypes)), sorts: kl}
	e.keyTypes = append(e.keyTypes, k)
	return Sort(k.name)
}

// mapKey is a key as a single term.
func (e *Engine) mapKey(st *State, t types.Type, v Val) *Term {
	ls := e.toLeaves(st, t, v)
	if len(ls) == 1 {
		return ls[0]
	}
	s := e.keySort(t)
	if x := ls[0]; strings.HasPrefix(x.op, "app:get") && len(x.args) == 1 && x.args[0].sort == s {
		same := true
		for i, l := range ls {
			same = same && l == e.keyPart(x.args[0], i, l.sort)
		}
		if same {
			return x.args[0]
		}
	}
	return e.tt.App("mk"+string(s), s, ls...)
}

func (e *Engine) keyPart(k *Term, i int, s Sort) *Term {
	if k.op == "app:mk"+string(k.sort) {
		return k.args[i]
	}
	if k.op == "ite" {
		return e.tt.Ite(k.args[0], e.keyPart(k.args[1], i, s), e.keyPart(k.args[2], i, s))
	}
	return e.tt.App(fmt.Sprintf("get%s_%d", k.sort, i), s, k)
}

func (e *Engine) declareKeys(p *printer) {
	for _, k := range e.keyTypes {
		fmt.Fprintf(p.out, "(declare-datatypes ((%s 0)) (((mk%s", k.name, k.name)
		p.decl["f:mk"+k.name] = true
		for i, s := range k.sorts {
			fmt.Fprintf(p.out, " (get%s_%d %s)", k.name, i, s)
			p.decl[fmt.Sprintf("f:get%s_%d", k.name, i)] = true
		}
		p.out.WriteString("))))\n")
	}
}

// ---- iteration

type rangeState struct {
	cell  *Cell // iteration position (strings: byte index; maps: number of keys produced)
	x     *Term
	typ   types.Type
	id    string
	start *Term // the set of keys when the iteration began
}

func (e *Engine) rangeStart(act *Act, in *ssa.Range, st *State) {
	x := e.operand(act, in.X).(*Term)
	e.cellCount++
	c := &Cell{id: e.cellCount, name: "range", typ: types.Typ[types.Int]}
	st.cells[c] = e.tt.Int(0)
	r := &rangeState{cell: c, x: x, typ: in.X.Type(), id: itoa(c.id)}
	if m, ok := in.X.Type().Underlying().(*types.Map); ok {
		r.start = e.tt.Select(e.mapOf(st, in.X.Type()).dom, x)
		st.ghost["seen"+r.id] = e.tt.ConstArr(arrSort(e.keySort(m.Key()), SBool), e.tt.False())
		st.ghost["steady"+r.id] = e.tt.True()
	}
	e.ranges[in] = r
	act.env[in] = &VMapIter{c.id}
}

func (e *Engine) mapNext(act *Act, in *ssa.Next, st *State, r *rangeState) {
	tt := e.tt
	tup := in.Type().(*types.Tuple)
	pos := st.cells[r.cell].(*Term)
	mt := r.typ.Underlying().(*types.Map)
	mh := e.mapOf(st, r.typ)
	dom := tt.Select(mh.dom, r.x)
	seen, steady := st.ghost["seen"+r.id], st.ghost["steady"+r.id]
	steady = tt.And(steady, tt.Eq(dom, r.start))
	more := e.fresh("more", SBool)
	kv := e.havocVal(mt.Key(), "key", st)
	k := e.mapKey(st, mt.Key(), kv)
	some := tt.Not(tt.Eq(r.x, tt.Int(0)))
	e.assume(st, tt.Implies(more, tt.And(some, tt.Select(dom, k), tt.Not(tt.Select(seen, k)))))
	// at the end every key that was there all the time has been produced
	q := tt.bound("k", k.sort)
	e.assume(st, tt.Implies(tt.And(tt.Not(more), some, steady),
		tt.Quant("forall", []*Term{q}, tt.Implies(tt.Select(dom, q), tt.Select(seen, q)), [][]*Term{{tt.mk("select", "", SBool, dom, q)}, {tt.mk("select", "", SBool, seen, q)}})))
	st.ghost["seen"+r.id] = tt.Ite(more, tt.Store(seen, k, tt.True()), seen)
	st.ghost["steady"+r.id] = steady
	var ls []*Term
	for i := range mh.vals {
		ls = append(ls, tt.Select(tt.Select(mh.vals[i], r.x), k))
	}
	v, _ := e.fromLeaves(mt.Elem(), ls)
	e.note("map iteration order is arbitrary; a range over a map is assumed to end (maps are finite)")
	st.cells[r.cell] = tt.Add(pos, tt.Int(1))
	res := []Val{more, kv, v}
	for i := 1; i < 3; i++ {
		if tup.At(i).Type() == types.Typ[types.Invalid] {
			res[i] = nil
		}
	}
	act.env[in] = &VStruct{res}
}

// rangeOf is the iteration a loop carries out, if it is one over a map.
func (e *Engine) rangeOf(l *Loop) *rangeState {
	for _, in := range l.head.Instrs {
		if nx, ok := in.(*ssa.Next); ok && !nx.IsString {
			if rg, ok := nx.Iter.(*ssa.Range); ok {
				return e.ranges[rg]
			}
		}
	}
	return nil
}

// visited is vc.Visited in an invariant of a loop over a map.
func (e *Engine) visited(st *State, t types.Type, v Val) *Term {
	r := e.curRange
	if r == nil {
		unsup("vc.Visited outside an invariant of a range over a map")
	}
	mt := r.typ.Underlying().(*types.Map)
	if !types.Identical(mt.Key(), t) {
		unsup("vc.Visited of another key type")
	}
	seen := st.ghost["seen"+r.id]
	if seen == nil {
		unsup("vc.Visited before the iteration")
	}
	return e.tt.Select(seen, e.mapKey(st, t, v))
}

// mapCands are the invariants tried for every iteration over a map.
func (e *Engine) mapCands(l *Loop, add func(string, bool, func(*State, []Val) *Term)) {
	r := e.rangeOf(l)
	if r == nil || r.start == nil {
		return
	}
	tt := e.tt
	add("the keys of the map stay the same", false, func(s *State, _ []Val) *Term {
		return tt.Eq(tt.Select(e.mapOf(s, r.typ).dom, r.x), r.start)
	})
	add("the keys of the map have stayed the same", false, func(s *State, _ []Val) *Term {
		return s.ghost["steady"+r.id]
	})
	add("only keys of the map are visited", false, func(s *State, _ []Val) *Term {
		mt := r.typ.Underlying().(*types.Map)
		q := tt.bound("k", e.keySort(mt.Key()))
		seen := s.ghost["seen"+r.id]
		if seen == nil {
			return nil
		}
		return tt.Quant("forall", []*Term{q}, tt.Implies(tt.Select(seen, q), tt.Select(r.start, q)), e.patsFor([]*Term{q}, tt.Select(seen, q)))
	})
}

// logMap records that a map is written.
func (e *Engine) logMap(t types.Type, ref *Term) {
	if e.writeLog != nil {
		e.writeLog = append(e.writeLog, heapWrite{"map " + typeKey(t), ref})
	}
}

// callsVisited: the template is about an iteration over a map.
func callsVisited(fn *ssa.Function) bool {
	for _, b := range fn.Blocks {
		for _, in := range b.Instrs {
			if c, ok := in.(*ssa.Call); ok {
				if f := c.Call.StaticCallee(); f != nil && (f.Name() == "Visited" || f.Origin() != nil && f.Origin().Name() == "Visited") {
					return true
				}
			}
		}
	}
	return false
}

func init() {
	intrinsics["maps.Clone"] = func(e *Engine, caller *Act, fn *ssa.Function, a []Val, st *State, site ssa.Instruction) (Val, *State) {
		e.lib("maps.Clone (nil for nil, else a new map with the same entries)")
		tt := e.tt
		m := a[0].(*Term)
		t := fn.Signature.Params().At(0).Type()
		ref := e.alloc(st)
		mh := *e.mapOf(st, t)
		mh.dom = tt.Store(mh.dom, ref, tt.Select(mh.dom, m))
		mh.size = tt.Store(mh.size, ref, tt.Select(mh.size, m))
		mh.vals = append([]*Term{}, mh.vals...)
		for i := range mh.vals {
			mh.vals[i] = tt.Store(mh.vals[i], ref, tt.Select(mh.vals[i], m))
		}
		e.logMap(t, ref)
		st.maps[typeKey(t)] = &mh
		return tt.Ite(tt.Eq(m, tt.Int(0)), tt.Int(0), ref), st
	}
}
