package main

import (
	"go/types"

	"golang.org/x/tools/go/ssa"
)

// Concurrency. A goroutine's body is not interleaved: the verified function is assumed not to share
// memory with the goroutines it starts, except through channels. What a channel delivers is arbitrary,
// a select may take any of its cases, and operations that block for ever are not followed.

const concNote = "goroutines started by a verified function communicate with it through channels only; what a channel delivers is arbitrary, a select takes any case"

func (e *Engine) goStmt(act *Act, in *ssa.Go, st *State) *State {
	e.note(concNote)
	return st
}

func (e *Engine) sendStmt(act *Act, in *ssa.Send, st *State) *State {
	e.note(concNote)
	return st
}

func (e *Engine) recvStmt(act *Act, in *ssa.UnOp, st *State) *State {
	e.note(concNote)
	v := e.havocVal(in.Type(), "recv", st)
	if in.CommaOk {
		e.relied(st, in.Type().(*types.Tuple).At(0).Type(), v.(*VStruct).f[0])
	} else {
		e.relied(st, in.Type(), v)
	}
	act.env[in] = v
	return st
}

func (e *Engine) selectStmt(act *Act, in *ssa.Select, st *State) *State {
	e.note(concNote)
	tt := e.tt
	tup := in.Type().(*types.Tuple)
	v := e.havocVal(tup, "select", st).(*VStruct)
	idx := v.f[0].(*Term)
	lo := tt.Int(0)
	if !in.Blocking {
		lo = tt.Int(-1)
	}
	e.assume(st, tt.And(tt.Le(lo, idx), tt.Lt(idx, tt.Int(int64(len(in.States))))))
	for i := 2; i < tup.Len(); i++ {
		e.relied(st, tup.At(i).Type(), v.f[i])
	}
	act.env[in] = v
	return st
}

// relied assumes what the contract relies on about received values.
func (e *Engine) relied(st *State, t types.Type, v Val) {
	for _, r := range e.relies {
		if types.Identical(r.fn.Params[0].Type(), t) {
			if x, ok := e.evalPure(r.fn, []Val{v}, r.bind, st).(*Term); ok {
				e.assume(st, x)
			}
		}
	}
}

func init() {
	nop := func(e *Engine, caller *Act, fn *ssa.Function, args []Val, st *State, site ssa.Instruction) (Val, *State) {
		e.note(concNote)
		return nil, st
	}
	for _, n := range []string{"(*sync.RWMutex).RLock", "(*sync.RWMutex).RUnlock", "(*sync.WaitGroup).Add", "(*sync.WaitGroup).Done", "(*sync.WaitGroup).Wait"} {
		intrinsics[n] = nop
	}
	intrinsics["runtime/debug.Stack"] = func(e *Engine, caller *Act, fn *ssa.Function, args []Val, st *State, site ssa.Instruction) (Val, *State) {
		return e.anyResult(fn.Signature, st), st
	}
	intrinsics["github.com/muesli/cancelreader.NewReader"] = func(e *Engine, caller *Act, fn *ssa.Function, args []Val, st *State, site ssa.Instruction) (Val, *State) {
		e.lib("cancelreader.NewReader (any reader or error; leaves the terminal alone)")
		return e.anyResult(fn.Signature, st), st
	}
	intrinsics["errors.Join"] = pure1(func(e *Engine, st *State, a []Val) Val {
		e.lib("errors.Join (nil exactly when every argument is nil)")
		tt := e.tt
		s := a[0].(*VSlice)
		r := asErr(e, st, "joined").(*VIface)
		et := types.Universe.Lookup("error").Type()
		at := func(i *Term) *Term {
			return tt.Eq(e.readHeap(st, et, s.ref, tt.Add(s.off, i))[0], e.nilIface())
		}
		var all *Term
		if s.ln.isNum() && s.ln.big().Int64() <= 8 {
			var cs []*Term
			for i := int64(0); i < s.ln.big().Int64(); i++ {
				cs = append(cs, at(tt.Int(i)))
			}
			all = tt.And(cs...)
		} else {
			v := tt.bound("j", SInt)
			all = e.mkQuant("forall", v, tt.And(tt.Le(tt.Int(0), v), tt.Lt(v, s.ln)), at(v))
		}
		return e.mergeVal(all, &VIface{[]IfaceAlt{{g: tt.True(), opaque: e.nilIface()}}}, r)
	})
}
