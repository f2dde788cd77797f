package main

import (
	"go/token"
	"go/types"
	"math/big"
	"strings"

	"golang.org/x/tools/go/ssa"
)

// Shared counters (rely and guarantee). Under the option concurrent, a package-level integer is shared with
// other goroutines. Every access to it is an indivisible step (an atomic operation, or a critical section of
// a package-level mutex). Before each step the others may have changed the counter in any way that does not
// decrease it (rely); every step is shown not to decrease it (guarantee). Each own step moves the counter from
// pre to post: vc.Claims(id) says that id is in [pre, post) of an own step. Steps are totally ordered and the
// counter never decreases, so the intervals of different steps are disjoint.

type shStep struct {
	guard, pre, post *Term
}

type shared struct {
	cell  *Cell
	path  string
	typ   types.Type
	steps []shStep
	lock  *Cell
}

const sharedNote = "shared counter: atomic operations and critical sections of one package-level mutex are indivisible and totally ordered; other goroutines change the counter only through the verified functions (checked: no other function of the module writes it) and below 2^64 steps"

// sharedLoc: the location is (part of) a package-level variable other goroutines may write.
func (e *Engine) sharedLoc(p *VPtr) *Loc {
	var r *Loc
	for _, a := range p.alts {
		if a.loc == nil || a.loc.cell == nil {
			continue
		}
		if g := e.globalOf[a.loc.cell]; g != nil && !e.w.constGlobal(g) {
			if len(p.alts) > 1 {
				unsup("choice of shared variables")
			}
			r = a.loc
		}
	}
	return r
}

func pathKey(p []PathElem) string {
	s := ""
	for _, x := range p {
		if x.idx != nil {
			unsup("shared arrays")
		}
		s += "." + itoa(x.field)
	}
	return s
}

func (e *Engine) theCounter(l *Loc, t types.Type) *shared {
	b, ok := t.Underlying().(*types.Basic)
	if !ok || b.Info()&types.IsInteger == 0 {
		unsup("shared variable of type %s", t)
	}
	if e.shared.cell == nil {
		e.shared.cell, e.shared.path, e.shared.typ = l.cell, pathKey(l.path), t
	}
	if e.shared.cell != l.cell || e.shared.path != pathKey(l.path) {
		unsup("several shared variables")
	}
	return e.shared
}

// interfere: the others' steps.
func (e *Engine) interfere(st *State, l *Loc, t types.Type) *Term {
	cur := e.loadLoc(st, l, t).(*Term)
	v := e.fresh("others", SInt)
	e.assume(st, e.tt.Le(cur, v))
	e.storeLoc(st, l, v)
	return v
}

// stepped records an own step.
func (e *Engine) stepped(act *Act, st *State, s *shared, pre, post *Term, site ssa.Instruction) {
	e.check(st, act, "guarantee", "the shared counter never decreases", site.Pos(), e.tt.Le(pre, post))
	if !e.dry {
		s.steps = append(s.steps, shStep{e.pcTerm(st), pre, post})
	}
}

// atomicOp runs an indivisible operation on the integer at p: f maps its value to the new value and the result.
func (e *Engine) atomicOp(act *Act, st *State, p *VPtr, t types.Type, site ssa.Instruction, f func(cur *Term) (*Term, Val)) Val {
	if e.shared != nil {
		if l := e.sharedLoc(p); l != nil {
			e.note(sharedNote)
			s := e.theCounter(l, t)
			pre := e.interfere(st, l, t)
			post, r := f(pre)
			e.storeLoc(st, l, post)
			e.stepped(act, st, s, pre, post, site)
			return r
		}
	}
	cur := e.load(st, p, t).(*Term)
	post, r := f(cur)
	e.store(st, p, t, post)
	return r
}

// plainAccess is called before an ordinary load or store under the option concurrent.
func (e *Engine) plainAccess(act *Act, st *State, p *VPtr, t types.Type, pos token.Pos) {
	if act.isSpec || e.pure > 0 || e.initMode {
		return
	}
	l := e.sharedLoc(p)
	if l == nil {
		return
	}
	e.note(sharedNote)
	s := e.theCounter(l, t)
	lk := st.ghost["locked"]
	if lk.isNum() && lk.big().Sign() == 0 {
		e.check(st, act, "race", "a shared variable is accessed atomically or under its mutex", pos, e.tt.False())
		return
	}
	if !lk.isNum() {
		unsup("mutex held on some paths only")
	}
	if lk.big().Int64() == 1 { // first access of the section
		pre := e.interfere(st, l, t)
		st.ghost["locked"] = e.tt.Int(2)
		st.ghost["lockpre"] = pre
	}
	_ = s
}

func (e *Engine) mutex(act *Act, st *State, p *VPtr, lock bool, site ssa.Instruction) {
	l := e.sharedLoc(p)
	if l == nil || len(l.path) != 0 {
		return // not shared: protects nothing
	}
	s := e.shared
	if s.lock == nil {
		s.lock = l.cell
	}
	if s.lock != l.cell {
		unsup("several mutexes")
	}
	lk := st.ghost["locked"]
	if !lk.isNum() {
		unsup("mutex held on some paths only")
	}
	if lock {
		if lk.big().Sign() != 0 {
			unsup("nested locking")
		}
		st.ghost["locked"] = e.tt.Int(1)
		return
	}
	if lk.big().Int64() == 2 {
		post := e.loadLoc(st, &Loc{cell: s.cell, elem: s.cell.typ, path: s.pathElems()}, s.typ).(*Term)
		e.stepped(act, st, s, st.ghost["lockpre"], post, site)
	}
	st.ghost["locked"] = e.tt.Int(0)
}

func (s *shared) pathElems() (r []PathElem) {
	for _, x := range strings.Split(s.path, ".") {
		if x != "" {
			n := 0
			for _, c := range x {
				n = n*10 + int(c-'0')
			}
			r = append(r, PathElem{field: n})
		}
	}
	return
}

// claims: id belongs to a step of the verified call alone.
func (e *Engine) claims(act *Act, st *State, id *Term, site ssa.Instruction) *Term {
	tt := e.tt
	if e.shared == nil {
		return tt.True()
	}
	r := tt.False()
	for _, s := range e.shared.steps {
		r = tt.Or(r, tt.And(s.guard, tt.Le(s.pre, id), tt.Lt(id, s.post)))
	}
	if e.shared.cell != nil {
		for _, fn := range e.w.writers(e.globalOf[e.shared.cell]) {
			if !e.reach[fn] {
				e.check(st, act, "guarantee", "the shared counter is written by the verified function only, not by "+fn.RelString(nil), site.Pos(), tt.False())
			}
		}
	}
	return r
}

// writers lists the functions of the module that may write a package-level variable.
func (w *World) writers(g *ssa.Global) []*ssa.Function {
	w.constGlobal(g)
	return w.globWriters[g]
}

func init() {
	for _, t := range []types.BasicKind{types.Int32, types.Int64, types.Uint32, types.Uint64, types.Uintptr} {
		typ := types.Typ[t]
		n := typ.Name()
		n = strings.ToUpper(n[:1]) + n[1:]
		reg := func(op string, f func(e *Engine, act *Act, st *State, cur *Term, args []Val, site ssa.Instruction) (*Term, Val)) {
			intrinsics["sync/atomic."+op+n] = func(e *Engine, caller *Act, fn *ssa.Function, args []Val, st *State, site ssa.Instruction) (Val, *State) {
				e.lib("sync/atomic (indivisible operations)")
				p := e.ptr(args[0])
				r := e.atomicOp(caller, st, p, typ, site, func(cur *Term) (*Term, Val) { return f(e, caller, st, cur, args, site) })
				return r, st
			}
		}
		reg("Add", func(e *Engine, act *Act, st *State, cur *Term, a []Val, site ssa.Instruction) (*Term, Val) {
			d := a[1].(*Term)
			if _, _, _, signed, _ := intRange(typ); !signed && d.isNum() && d.big().BitLen() == 64 {
				d = e.tt.Big(new(big.Int).Sub(d.big(), new(big.Int).Lsh(big.NewInt(1), 64)))
			}
			r := e.arith(act, st, token.ADD, cur, d, typ, site.Pos())
			return r, r
		})
		reg("Load", func(e *Engine, act *Act, st *State, cur *Term, a []Val, site ssa.Instruction) (*Term, Val) {
			return cur, cur
		})
		reg("Store", func(e *Engine, act *Act, st *State, cur *Term, a []Val, site ssa.Instruction) (*Term, Val) {
			return a[1].(*Term), nil
		})
		reg("Swap", func(e *Engine, act *Act, st *State, cur *Term, a []Val, site ssa.Instruction) (*Term, Val) {
			return a[1].(*Term), cur
		})
		reg("CompareAndSwap", func(e *Engine, act *Act, st *State, cur *Term, a []Val, site ssa.Instruction) (*Term, Val) {
			ok := e.tt.Eq(cur, a[1].(*Term))
			return e.tt.Ite(ok, a[2].(*Term), cur), ok
		})
	}
	for _, n := range []string{"(*sync.Mutex).Lock", "(*sync.Mutex).Unlock", "(*sync.RWMutex).Lock", "(*sync.RWMutex).Unlock"} {
		lock := strings.HasSuffix(n, ".Lock")
		intrinsics[n] = func(e *Engine, caller *Act, fn *ssa.Function, args []Val, st *State, site ssa.Instruction) (Val, *State) {
			if e.shared != nil {
				e.mutex(caller, st, e.ptr(args[0]), lock, site)
			} else {
				e.note(concNote)
			}
			return nil, st
		}
	}
}
