package main

import (
	"fmt"
	"go/types"
	"math/big"
	"strings"

	"golang.org/x/tools/go/ssa"
)

// Assumed contracts of library functions. Each is recorded as an assumption of the proofs that use it.

func ptrElem(v ssa.Value) types.Type { return v.Type().Underlying().(*types.Pointer).Elem() }

func (e *Engine) lib(name string) {
	e.note("assumed contract of the library function " + name)
}

func pure1(f func(e *Engine, st *State, args []Val) Val) intrinFn {
	return func(e *Engine, caller *Act, fn *ssa.Function, args []Val, st *State, site ssa.Instruction) (Val, *State) {
		return f(e, st, args), st
	}
}

// ifaceArgs reads a variadic ...any argument of known length.
func (e *Engine) ifaceArgs(st *State, v Val) ([]*Term, bool) {
	s := v.(*VSlice)
	if !s.ln.isNum() {
		return nil, false
	}
	anyT := types.Universe.Lookup("any").Type()
	var r []*Term
	for i := int64(0); i < s.ln.big().Int64(); i++ {
		x := e.loadLoc(st, &Loc{elem: anyT, ref: s.ref, idx: e.tt.Add(s.off, e.tt.Int(i))}, anyT)
		r = append(r, e.toLeaves(st, anyT, x)[0])
	}
	return r, true
}

// sprintf: verbs %d, %s, %v and %c over values of known type build concatenations; anything else is an
// uninterpreted function of its arguments.
func (e *Engine) sprintf(st *State, f *Term, vs Val) *Term {
	tt := e.tt
	args, ok := e.ifaceArgs(st, vs)
	if !ok {
		return e.fresh("sprintf", SStr)
	}
	if f.op == "strlit" {
		out := tt.StrLit("")
		k, good := 0, true
		s := f.name
		for i := 0; i < len(s) && good; i++ {
			if s[i] != '%' {
				j := i
				for j < len(s) && s[j] != '%' {
					j++
				}
				out = e.strConcat(out, tt.StrLit(s[i:j]))
				i = j - 1
				continue
			}
			i++
			if i >= len(s) || k >= len(args) && s[i] != '%' {
				good = false
				break
			}
			switch s[i] {
			case '%':
				out = e.strConcat(out, tt.StrLit("%"))
			case 'd', 's', 'v':
				x := e.ifaceFromTerm(args[k])
				k++
				if len(x.alts) == 1 && x.alts[0].val != nil {
					if t, ok := x.alts[0].val.(*Term); ok && e.plainFormat(x.alts[0].typ) {
						if t.sort == SStr && s[i] != 'd' {
							out = e.strConcat(out, t)
							continue
						}
						if t.sort == SInt && s[i] != 's' || t.sort.isBV() && s[i] != 's' {
							if t.sort.isBV() {
								t = e.idxTerm(t)
							}
							out = e.strConcat(out, e.itoa(t))
							continue
						}
					}
				}
				good = false
			default:
				good = false
			}
		}
		if good && k == len(args) {
			return out
		}
	}
	return tt.App(fmt.Sprintf("sprintf%d", len(args)), SStr, append([]*Term{f}, args...)...)
}

// plainFormat: the value is formatted by its kind, not by a method.
func (e *Engine) plainFormat(t types.Type) bool {
	if _, ok := t.Underlying().(*types.Basic); !ok {
		return false
	}
	n, ok := types.Unalias(t).(*types.Named)
	if !ok {
		return true
	}
	ms := types.NewMethodSet(n)
	for i := 0; i < ms.Len(); i++ {
		switch ms.At(i).Obj().Name() {
		case "String", "Error", "Format", "GoString":
			return false
		}
	}
	return true
}

func (e *Engine) itoa(t *Term) *Term {
	if t.isNum() {
		return e.tt.StrLit(t.name)
	}
	return e.tt.App("itoa", SStr, t)
}

// mutable library objects reached through a pointer
func (e *Engine) ghostStr(st *State, p Val, t types.Type) *Term {
	return e.load(st, e.ptr(p), t).(*Term)
}

func (e *Engine) isSpace(r *Term) *Term {
	tt := e.tt
	if r.isNum() {
		switch r.big().Int64() {
		case 9, 10, 11, 12, 13, 32, 0x85, 0xA0, 0x1680, 0x2028, 0x2029, 0x202f, 0x205f, 0x3000:
			return tt.True()
		}
		v := r.big().Int64()
		return tt.Bool(v >= 0x2000 && v <= 0x200a)
	}
	in := func(lo, hi int64) *Term { return tt.And(tt.Le(tt.Int(lo), r), tt.Le(r, tt.Int(hi))) }
	return tt.Or(in(9, 13), in(32, 32), in(0x85, 0x85), in(0xa0, 0xa0), in(0x1680, 0x1680), in(0x2000, 0x200a), in(0x2028, 0x2029), in(0x202f, 0x202f), in(0x205f, 0x205f), in(0x3000, 0x3000))
}

func asErr(e *Engine, st *State, hint string) Val {
	x := e.fresh(hint, SIface)
	e.rawAssume(e.tt.Not(e.tt.Eq(x, e.nilIface())))
	return e.ifaceFromTerm(x)
}

func (e *Engine) dequeOf(st *State, p Val, fn *ssa.Function) (*VPtr, types.Type, types.Type, *VSlice) {
	pt := e.ptr(p)
	dt := fn.Signature.Recv().Type().Underlying().(*types.Pointer).Elem()
	et := under(dt).(*types.Slice).Elem()
	return pt, dt, et, e.load(st, pt, dt).(*VSlice)
}

// copySeq makes a fresh sequence holding the elements of s (with room for more when grow is set).
func (e *Engine) copySeq(st *State, et types.Type, s *VSlice) *VSlice {
	tt := e.tt
	ref := e.alloc(st)
	h := append([]*Term{}, e.heapOf(st, et)...)
	for i := range h {
		h[i] = tt.Store(h[i], ref, tt.Select(h[i], s.ref))
	}
	st.heap[typeKey(et)] = h
	e.logWrite(et, ref)
	return &VSlice{ref: ref, off: s.off, ln: s.ln, cp: s.ln}
}

func init() {
	in := intrinsics
	S := func(v Val) *Term { return v.(*Term) }

	// --- strings and formatting
	in["fmt.Sprintf"] = pure1(func(e *Engine, st *State, a []Val) Val { return e.sprintf(st, S(a[0]), a[1]) })
	in["fmt.Errorf"] = pure1(func(e *Engine, st *State, a []Val) Val {
		e.lib("fmt.Errorf (returns a non-nil error)")
		return asErr(e, st, "errorf")
	})
	in["errors.New"] = pure1(func(e *Engine, st *State, a []Val) Val {
		e.lib("errors.New (returns a non-nil error)")
		return asErr(e, st, "errnew")
	})
	in["errors.Is"] = pure1(func(e *Engine, st *State, a []Val) Val {
		e.lib("errors.Is (an arbitrary boolean, true for identical errors, false for nil against a package error)")
		x, y := e.ifaceTerm(st, a[0].(*VIface)), e.ifaceTerm(st, a[1].(*VIface))
		r := e.tt.App("errorsIs", SBool, x, y)
		e.rawAssume(e.tt.And(e.tt.Implies(e.tt.Eq(x, y), r), e.tt.Implies(e.tt.And(e.tt.Eq(x, e.nilIface()), e.tt.Not(e.tt.Eq(x, y))), e.tt.Not(r))))
		return r
	})
	in["strconv.Itoa"] = pure1(func(e *Engine, st *State, a []Val) Val { return e.itoa(S(a[0])) })
	in["strings.Repeat"] = pure1(func(e *Engine, st *State, a []Val) Val {
		e.lib("strings.Repeat (panics exactly on a negative count; the length and display width are multiplied)")
		s, n := S(a[0]), S(a[1])
		if n.isNum() && n.big().Sign() == 0 {
			return e.tt.StrLit("")
		}
		r := e.tt.App("srepeat", SStr, s, n)
		e.rawAssume(e.tt.Implies(e.tt.Le(e.tt.Int(0), n), e.tt.Eq(e.strLen(r), e.tt.Mul(n, e.strLen(s)))))
		return r
	})
	in["strings.Join"] = pure1(func(e *Engine, st *State, a []Val) Val {
		v := a[0].(*VSlice)
		if v.ln.isNum() && v.ln.big().Int64() <= 16 {
			r := e.tt.StrLit("")
			for i := int64(0); i < v.ln.big().Int64(); i++ {
				if i > 0 {
					r = e.strConcat(r, S(a[1]))
				}
				r = e.strConcat(r, e.tt.Select(e.tt.Select(e.heapOf(st, types.Typ[types.String])[0], v.ref), e.tt.Add(v.off, e.tt.Int(i))))
			}
			return r
		}
		if h := e.histOf(v); h != nil && len(h.items) <= 6 {
			tt := e.tt
			r, some := tt.StrLit(""), tt.False()
			for _, it := range h.items {
				x := it.v.(*Term)
				r = tt.Ite(it.g, tt.Ite(some, e.strConcat(r, e.strConcat(S(a[1]), x)), x), r)
				some = tt.Or(some, it.g)
			}
			return r
		}
		return e.fresh("sjoin", SStr)
	})
	bt := func(fn *ssa.Function) types.Type {
		return fn.Signature.Recv().Type().Underlying().(*types.Pointer).Elem()
	}
	wr := func(f func(e *Engine, a []Val) *Term) intrinFn {
		return func(e *Engine, caller *Act, fn *ssa.Function, a []Val, st *State, site ssa.Instruction) (Val, *State) {
			p := e.ptr(a[0])
			old := e.load(st, p, bt(fn)).(*Term)
			s := f(e, a)
			e.store(st, p, bt(fn), e.strConcat(old, s))
			switch fn.Signature.Results().Len() {
			case 0:
				return nil, st
			case 1:
				return e.zero(fn.Signature.Results().At(0).Type()), st
			}
			return &VStruct{[]Val{e.strLen(s), e.zero(types.Universe.Lookup("error").Type())}}, st
		}
	}
	in["(*strings.Builder).WriteString"] = wr(func(e *Engine, a []Val) *Term { return S(a[1]) })
	in["(*strings.Builder).WriteByte"] = wr(func(e *Engine, a []Val) *Term { return e.tt.App("byte2str", SStr, S(a[1])) })
	in["(*strings.Builder).WriteRune"] = wr(func(e *Engine, a []Val) *Term { return e.tt.App("rune2str", SStr, S(a[1])) })
	in["(*strings.Builder).Grow"] = func(e *Engine, caller *Act, fn *ssa.Function, a []Val, st *State, site ssa.Instruction) (Val, *State) {
		return nil, st
	}
	in["(*strings.Builder).Reset"] = func(e *Engine, caller *Act, fn *ssa.Function, a []Val, st *State, site ssa.Instruction) (Val, *State) {
		e.store(st, e.ptr(a[0]), bt(fn), e.tt.StrLit(""))
		return nil, st
	}
	in["(*strings.Builder).String"] = func(e *Engine, caller *Act, fn *ssa.Function, a []Val, st *State, site ssa.Instruction) (Val, *State) {
		return e.load(st, e.ptr(a[0]), bt(fn)), st
	}
	in["(*strings.Builder).Len"] = func(e *Engine, caller *Act, fn *ssa.Function, a []Val, st *State, site ssa.Instruction) (Val, *State) {
		return e.strLen(e.load(st, e.ptr(a[0]), bt(fn)).(*Term)), st
	}

	// --- unicode
	in["unicode.IsSpace"] = pure1(func(e *Engine, st *State, a []Val) Val { return e.isSpace(S(a[0])) })
	in["unicode.IsControl"] = pure1(func(e *Engine, st *State, a []Val) Val {
		r := S(a[0])
		return e.tt.Or(e.tt.And(e.tt.Le(e.tt.Int(0), r), e.tt.Lt(r, e.tt.Int(32))), e.tt.And(e.tt.Le(e.tt.Int(0x7f), r), e.tt.Lt(r, e.tt.Int(0xa0))))
	})
	in["unicode/utf8.DecodeRune"] = pure1(func(e *Engine, st *State, a []Val) Val {
		e.lib("utf8.DecodeRune (size 0 exactly for no bytes, 1 to 4 otherwise and within the bytes; ASCII bytes decode to themselves; size 1 above ASCII gives RuneError)")
		tt := e.tt
		s := a[0].(*VSlice)
		row := tt.Select(e.heapOf(st, types.Typ[types.Uint8])[0], s.ref)
		r := tt.App("decoderune", SInt, row, s.off, s.ln)
		n := tt.App("decodesize", SInt, row, s.off, s.ln)
		b0 := tt.Select(row, s.off)
		z := tt.Int(0)
		e.rawAssume(tt.And(
			tt.Implies(tt.Le(s.ln, z), tt.And(tt.Eq(n, z), tt.Eq(r, tt.Int(0xfffd)))),
			tt.Implies(tt.Lt(z, s.ln), tt.And(tt.Le(tt.Int(1), n), tt.Le(n, tt.Int(4)), tt.Le(n, s.ln))),
			tt.Implies(tt.And(tt.Lt(z, s.ln), tt.Lt(b0, tt.Int(0x80)), tt.Le(z, b0)), tt.And(tt.Eq(n, tt.Int(1)), tt.Eq(r, b0))),
			tt.Implies(tt.And(tt.Lt(z, s.ln), tt.Le(tt.Int(0x80), b0)), tt.And(tt.Le(tt.Int(0x80), r), tt.Implies(tt.Eq(n, tt.Int(1)), tt.Eq(r, tt.Int(0xfffd))))),
			tt.Le(z, r), tt.Le(r, tt.Int(0x10ffff))))
		return &VStruct{[]Val{r, n}}
	})

	// --- grapheme clusters
	in["github.com/rivo/uniseg.StringWidth"] = pure1(func(e *Engine, st *State, a []Val) Val { return e.strWidth(S(a[0])) })
	in["github.com/rivo/uniseg.GraphemeClusterCount"] = pure1(func(e *Engine, st *State, a []Val) Val { return e.gcount(S(a[0])) })
	in["github.com/rivo/uniseg.FirstGraphemeClusterInString"] = func(e *Engine, caller *Act, fn *ssa.Function, a []Val, st *State, site ssa.Instruction) (Val, *State) {
		e.note("assumed: uniseg.FirstGraphemeClusterInString cuts off the first of the clusters of the string; the state handed to it is the one it returned for the rest")
		tt := e.tt
		s := S(a[0])
		z, none := tt.Int(0), tt.StrLit("")
		some := tt.Lt(z, e.strLen(s))
		first, rest := tt.Select(e.growRow(s), z), tt.App("gtail", SStr, s)
		i := tt.bound("i", SInt)
		at := tt.Select(e.growRow(rest), i)
		e.rawAssume(tt.Implies(some, tt.And(
			tt.Eq(e.gcount(rest), tt.Sub(e.gcount(s), tt.Int(1))),
			tt.Eq(e.strWidth(s), tt.Add(e.strWidth(first), e.strWidth(rest))),
			tt.Eq(e.strLen(s), tt.Add(e.strLen(first), e.strLen(rest))),
			tt.Lt(z, e.strLen(first)),
			tt.Quant("forall", []*Term{i}, tt.Implies(tt.And(tt.Le(z, i), tt.Lt(i, e.gcount(rest))), tt.Eq(at, tt.Select(e.growRow(s), tt.Add(i, tt.Int(1))))), [][]*Term{{at}}))))
		return &VStruct{[]Val{tt.Ite(some, first, none), tt.Ite(some, rest, none), tt.Ite(some, e.strWidth(first), z), e.fresh("gstate", SInt)}}, st
	}
	in["github.com/rivo/uniseg.NewGraphemes"] = func(e *Engine, caller *Act, fn *ssa.Function, a []Val, st *State, site ssa.Instruction) (Val, *State) {
		e.note("assumed: uniseg splits a string into gcount(s) clusters, each non-empty, its own single cluster, and with the display width StringWidth gives it; the iterator visits them in order")
		t := ptrTo(fn.Signature.Results().At(0).Type())
		v := e.zero(t).(*VStruct)
		v.f[0] = a[0]
		return e.newCell(st, "graphemes", t, v), st
	}
	gt := func(fn *ssa.Function) types.Type { return bt(fn) }
	// representation: original, _, current cluster, number of clusters consumed
	in["(*github.com/rivo/uniseg.Graphemes).Next"] = func(e *Engine, caller *Act, fn *ssa.Function, a []Val, st *State, site ssa.Instruction) (Val, *State) {
		tt := e.tt
		p := e.ptr(a[0])
		v := e.load(st, p, gt(fn)).(*VStruct)
		s, k := v.f[0].(*Term), v.f[3].(*Term)
		n := e.gcount(s)
		ok := tt.Lt(k, n)
		w := &VStruct{append([]Val{}, v.f...)}
		w.f[2] = tt.Ite(ok, tt.Select(e.growRow(s), k), tt.StrLit(""))
		w.f[3] = tt.Ite(ok, tt.Add(k, tt.Int(1)), k)
		e.store(st, p, gt(fn), w)
		return ok, st
	}
	in["(*github.com/rivo/uniseg.Graphemes).Str"] = func(e *Engine, caller *Act, fn *ssa.Function, a []Val, st *State, site ssa.Instruction) (Val, *State) {
		return e.load(st, e.ptr(a[0]), gt(fn)).(*VStruct).f[2], st
	}
	in["(*github.com/rivo/uniseg.Graphemes).Width"] = func(e *Engine, caller *Act, fn *ssa.Function, a []Val, st *State, site ssa.Instruction) (Val, *State) {
		return e.strWidth(e.load(st, e.ptr(a[0]), gt(fn)).(*VStruct).f[2].(*Term)), st
	}
	in["(*github.com/rivo/uniseg.Graphemes).Reset"] = func(e *Engine, caller *Act, fn *ssa.Function, a []Val, st *State, site ssa.Instruction) (Val, *State) {
		p := e.ptr(a[0])
		v := e.load(st, p, gt(fn)).(*VStruct)
		w := e.zero(gt(fn)).(*VStruct)
		w.f[0] = v.f[0]
		e.store(st, p, gt(fn), w)
		return nil, st
	}

	// --- deque: the sequence it holds
	dq := "github.com/edwingeng/deque/v2."
	in[dq+"NewDeque"] = func(e *Engine, caller *Act, fn *ssa.Function, a []Val, st *State, site ssa.Instruction) (Val, *State) {
		e.note("assumed: deque.Deque is a sequence with push and pop at its ends, not shared with the slices put in or dumped from it")
		t := ptrTo(fn.Signature.Results().At(0).Type())
		return e.newCell(st, "deque", t, e.zero(t)), st
	}
	meth := func(name string, f func(e *Engine, st *State, a []Val, p *VPtr, dt, et types.Type, s *VSlice, act *Act, site ssa.Instruction) Val) {
		in["(*"+dq+"Deque[T])."+name] = func(e *Engine, caller *Act, fn *ssa.Function, a []Val, st *State, site ssa.Instruction) (Val, *State) {
			p, dt, et, s := e.dequeOf(st, a[0], fn)
			return f(e, st, a, p, dt, et, s, caller, site), st
		}
	}
	meth("PushBack", func(e *Engine, st *State, a []Val, p *VPtr, dt, et types.Type, s *VSlice, act *Act, site ssa.Instruction) Val {
		tt := e.tt
		ref := e.alloc(st)
		ls := e.toLeaves(st, et, a[1])
		h := append([]*Term{}, e.heapOf(st, et)...)
		for i := range h {
			h[i] = tt.Store(h[i], ref, tt.Store(tt.Select(h[i], s.ref), tt.Add(s.off, s.ln), ls[i]))
		}
		st.heap[typeKey(et)] = h
		e.logWrite(et, ref)
		n := tt.Add(s.ln, tt.Int(1))
		e.store(st, p, dt, &VSlice{ref: ref, off: s.off, ln: n, cp: n})
		return nil
	})
	popFront := func(e *Engine, st *State, p *VPtr, dt, et types.Type, s *VSlice, try bool) (Val, *Term) {
		tt := e.tt
		ok := tt.Lt(tt.Int(0), s.ln)
		v := e.loadLoc(st, &Loc{elem: et, ref: s.ref, idx: s.off}, et)
		one := tt.Ite(ok, tt.Int(1), tt.Int(0))
		e.store(st, p, dt, &VSlice{ref: s.ref, off: tt.Add(s.off, one), ln: tt.Sub(s.ln, one), cp: tt.Sub(s.cp, one)})
		return v, ok
	}
	meth("TryPopFront", func(e *Engine, st *State, a []Val, p *VPtr, dt, et types.Type, s *VSlice, act *Act, site ssa.Instruction) Val {
		v, ok := popFront(e, st, p, dt, et, s, true)
		return &VStruct{[]Val{e.mergeVal(ok, v, e.zero(et)), ok}}
	})
	meth("PopFront", func(e *Engine, st *State, a []Val, p *VPtr, dt, et types.Type, s *VSlice, act *Act, site ssa.Instruction) Val {
		e.check(st, act, "panic", "PopFront of a non-empty deque", site.Pos(), e.tt.Lt(e.tt.Int(0), s.ln))
		v, _ := popFront(e, st, p, dt, et, s, false)
		return v
	})
	meth("Front", func(e *Engine, st *State, a []Val, p *VPtr, dt, et types.Type, s *VSlice, act *Act, site ssa.Instruction) Val {
		ok := e.tt.Lt(e.tt.Int(0), s.ln)
		v := e.loadLoc(st, &Loc{elem: et, ref: s.ref, idx: s.off}, et)
		return &VStruct{[]Val{e.mergeVal(ok, v, e.zero(et)), ok}}
	})
	meth("Back", func(e *Engine, st *State, a []Val, p *VPtr, dt, et types.Type, s *VSlice, act *Act, site ssa.Instruction) Val {
		ok := e.tt.Lt(e.tt.Int(0), s.ln)
		v := e.loadLoc(st, &Loc{elem: et, ref: s.ref, idx: e.tt.Sub(e.tt.Add(s.off, s.ln), e.tt.Int(1))}, et)
		return &VStruct{[]Val{e.mergeVal(ok, v, e.zero(et)), ok}}
	})
	meth("IsEmpty", func(e *Engine, st *State, a []Val, p *VPtr, dt, et types.Type, s *VSlice, act *Act, site ssa.Instruction) Val {
		return e.tt.Eq(s.ln, e.tt.Int(0))
	})
	meth("Len", func(e *Engine, st *State, a []Val, p *VPtr, dt, et types.Type, s *VSlice, act *Act, site ssa.Instruction) Val {
		return s.ln
	})
	meth("Clear", func(e *Engine, st *State, a []Val, p *VPtr, dt, et types.Type, s *VSlice, act *Act, site ssa.Instruction) Val {
		e.store(st, p, dt, e.zero(dt))
		return nil
	})
	meth("Dump", func(e *Engine, st *State, a []Val, p *VPtr, dt, et types.Type, s *VSlice, act *Act, site ssa.Instruction) Val {
		return e.copySeq(st, et, s)
	})

	// --- lines of a string
	in["bufio.NewScanner"] = func(e *Engine, caller *Act, fn *ssa.Function, a []Val, st *State, site ssa.Instruction) (Val, *State) {
		e.note("assumed: a bufio.Scanner over strings.NewReader(s) delivers the lines of s in order, up to 64 KiB each unless a larger buffer is given")
		t := ptrTo(fn.Signature.Results().At(0).Type())
		v := e.zero(t).(*VStruct)
		v.f[0] = a[0]
		e.scanned(st, v)
		return e.newCell(st, "scanner", t, v), st
	}
	in["(*bufio.Scanner).Buffer"] = func(e *Engine, caller *Act, fn *ssa.Function, a []Val, st *State, site ssa.Instruction) (Val, *State) {
		return nil, st
	}
	in["(*bufio.Scanner).Scan"] = func(e *Engine, caller *Act, fn *ssa.Function, a []Val, st *State, site ssa.Instruction) (Val, *State) {
		tt := e.tt
		p := e.ptr(a[0])
		v := e.load(st, p, gt(fn)).(*VStruct)
		k := v.f[5].(*Term)
		ok := tt.Lt(k, e.lineCount(e.scanned(st, v)))
		w := &VStruct{append([]Val{}, v.f...)}
		w.f[5] = tt.Ite(ok, tt.Add(k, tt.Int(1)), k)
		e.store(st, p, gt(fn), w)
		return ok, st
	}
	in["(*bufio.Scanner).Text"] = func(e *Engine, caller *Act, fn *ssa.Function, a []Val, st *State, site ssa.Instruction) (Val, *State) {
		v := e.load(st, e.ptr(a[0]), gt(fn)).(*VStruct)
		return e.tt.Select(e.lineRow(e.scanned(st, v)), e.tt.Sub(v.f[5].(*Term), e.tt.Int(1))), st
	}

	// --- slices
	in["slices.Insert"] = func(e *Engine, caller *Act, fn *ssa.Function, a []Val, st *State, site ssa.Instruction) (Val, *State) {
		e.lib("slices.Insert (panics when the index is out of range; the result holds prefix, inserted values, suffix)")
		tt := e.tt
		s, i, v := a[0].(*VSlice), S(a[1]), a[2].(*VSlice)
		et := fn.Signature.Params().At(0).Type().Underlying().(*types.Slice).Elem()
		e.check(st, caller, "slice", "slices.Insert index in range", site.Pos(), tt.And(tt.Le(tt.Int(0), i), tt.Le(i, s.ln)))
		// the old backing array may be overwritten too: its row becomes arbitrary beyond the index
		ref := e.alloc(st)
		fits := e.fresh("fits", SBool)
		n := tt.Add(s.ln, v.ln)
		e.assume(st, tt.Implies(fits, tt.Le(n, s.cp)))
		h := append([]*Term{}, e.heapOf(st, et)...)
		for k := range h {
			old, ins := tt.Select(h[k], s.ref), tt.Select(h[k], v.ref)
			row := e.defRow(h[k].sort.elem(), func(j *Term) *Term {
				at := tt.Add(s.off, i)
				return tt.Ite(tt.Lt(j, at), tt.Select(old, j), tt.Ite(tt.Lt(j, tt.Add(at, v.ln)), tt.Select(ins, tt.Add(v.off, tt.Sub(j, at))), tt.Select(old, tt.Sub(j, v.ln))))
			}, nil)
			h2 := tt.Store(h[k], ref, row)
			junk := e.fresh("inserted", h[k].sort.elem())
			q := tt.bound("i", SInt)
			e.rawAssume(tt.Quant("forall", []*Term{q}, tt.Implies(tt.Or(tt.Lt(q, tt.Add(s.off, i)), tt.Not(fits)), tt.Eq(tt.Select(junk, q), tt.Select(old, q))), [][]*Term{{tt.Select(junk, q)}}))
			h[k] = tt.Ite(tt.And(fits, tt.Lt(tt.Int(0), v.ln)), tt.Store(h2, s.ref, junk), h2)
		}
		st.heap[typeKey(et)] = h
		e.logWrite(et, ref)
		e.logWrite(et, s.ref)
		e.note("the result of slices.Insert is represented by memory of its own")
		return &VSlice{ref: ref, off: s.off, ln: n, cp: n}, st
	}
	in["slices.Delete"] = func(e *Engine, caller *Act, fn *ssa.Function, a []Val, st *State, site ssa.Instruction) (Val, *State) {
		e.lib("slices.Delete (panics when the range is invalid; moves the rest up within the array and zeroes the end)")
		tt := e.tt
		s, i, j := a[0].(*VSlice), S(a[1]), S(a[2])
		et := fn.Signature.Params().At(0).Type().Underlying().(*types.Slice).Elem()
		e.check(st, caller, "slice", "slices.Delete range valid", site.Pos(), tt.And(tt.Le(tt.Int(0), i), tt.Le(i, j), tt.Le(j, s.ln)))
		d := tt.Sub(j, i)
		n := tt.Sub(s.ln, d)
		z := e.toLeaves(st, et, e.zero(et))
		h := append([]*Term{}, e.heapOf(st, et)...)
		for k := range h {
			old := tt.Select(h[k], s.ref)
			row := e.defRow(h[k].sort.elem(), func(q *Term) *Term {
				return tt.Ite(tt.And(tt.Le(tt.Add(s.off, i), q), tt.Lt(q, tt.Add(s.off, n))), tt.Select(old, tt.Add(q, d)),
					tt.Ite(tt.And(tt.Le(tt.Add(s.off, n), q), tt.Lt(q, tt.Add(s.off, s.ln))), z[k], tt.Select(old, q)))
			}, nil)
			h[k] = tt.Store(h[k], s.ref, row)
		}
		st.heap[typeKey(et)] = h
		e.logWrite(et, s.ref)
		return &VSlice{ref: s.ref, off: s.off, ln: n, cp: s.cp}, st
	}
	in["slices.Grow"] = func(e *Engine, caller *Act, fn *ssa.Function, a []Val, st *State, site ssa.Instruction) (Val, *State) {
		e.lib("slices.Grow (same elements; keeps the memory when the capacity suffices, else moves to memory of its own)")
		tt := e.tt
		s, n := a[0].(*VSlice), S(a[1])
		et := fn.Signature.Params().At(0).Type().Underlying().(*types.Slice).Elem()
		e.check(st, caller, "slice", "slices.Grow with a non-negative count", site.Pos(), tt.Le(tt.Int(0), n))
		fits := tt.Le(tt.Add(s.ln, n), s.cp)
		na := e.alloc(st)
		ncap := e.fresh("cap", SInt)
		e.rawAssume(tt.And(tt.Le(tt.Add(s.ln, n), ncap), tt.Le(ncap, tt.Int(1<<62))))
		h := append([]*Term{}, e.heapOf(st, et)...)
		for k := range h {
			h[k] = tt.Store(h[k], na, tt.Select(h[k], s.ref))
		}
		st.heap[typeKey(et)] = h
		e.logWrite(et, na)
		return &VSlice{ref: tt.Ite(fits, s.ref, na), off: s.off, ln: s.ln, cp: tt.Ite(fits, s.cp, ncap)}, st
	}
	in["slices.Reverse"] = func(e *Engine, caller *Act, fn *ssa.Function, a []Val, st *State, site ssa.Instruction) (Val, *State) {
		e.lib("slices.Reverse")
		tt := e.tt
		s := a[0].(*VSlice)
		et := fn.Signature.Params().At(0).Type().Underlying().(*types.Slice).Elem()
		h := append([]*Term{}, e.heapOf(st, et)...)
		for k := range h {
			old := tt.Select(h[k], s.ref)
			row := e.defRow(h[k].sort.elem(), func(j *Term) *Term {
				return tt.Ite(tt.And(tt.Le(s.off, j), tt.Lt(j, tt.Add(s.off, s.ln))), tt.Select(old, tt.Sub(tt.Add(tt.Add(s.off, s.off), tt.Sub(s.ln, tt.Int(1))), j)), tt.Select(old, j))
			}, nil)
			h[k] = tt.Store(h[k], s.ref, row)
		}
		st.heap[typeKey(et)] = h
		e.logWrite(et, s.ref)
		return nil, st
	}

	// --- math over exact reals
	in["math.Floor"] = pure1(func(e *Engine, st *State, a []Val) Val { return e.floorReal(S(a[0])) })
	in["math.Round"] = pure1(func(e *Engine, st *State, a []Val) Val {
		tt := e.tt
		x := S(a[0])
		half := tt.Real(big.NewRat(1, 2))
		return tt.Ite(tt.Le(tt.Real(ratInt(0)), x), e.floorReal(tt.Add(x, half)), tt.Neg(e.floorReal(tt.Add(tt.Neg(x), half))))
	})
	in["math.Abs"] = pure1(func(e *Engine, st *State, a []Val) Val {
		return e.tt.Ite(e.tt.Le(e.tt.Real(ratInt(0)), S(a[0])), S(a[0]), e.tt.Neg(S(a[0])))
	})
	in["math.Mod"] = pure1(func(e *Engine, st *State, a []Val) Val {
		// x - y*trunc(x/y) for a positive literal y
		tt := e.tt
		x, y := S(a[0]), S(a[1])
		if !(y.op == "real" || y.op == "num") || y.rat().Sign() <= 0 {
			unsup("math.Mod with a computed divisor")
		}
		m := func(x *Term) *Term {
			q := e.floorReal(tt.Mul(tt.Real(new(big.Rat).Inv(y.rat())), x))
			return tt.Sub(x, tt.Mul(y, q))
		}
		return tt.Ite(tt.Le(tt.Real(ratInt(0)), x), m(x), tt.Neg(m(tt.Neg(x))))
	})
	in["math.Min"] = pure1(func(e *Engine, st *State, a []Val) Val { return e.tt.Ite(e.tt.Le(S(a[0]), S(a[1])), S(a[0]), S(a[1])) })
	in["math.Max"] = pure1(func(e *Engine, st *State, a []Val) Val { return e.tt.Ite(e.tt.Le(S(a[1]), S(a[0])), S(a[0]), S(a[1])) })
	_ = strings.Contains
}

func ptrTo(t types.Type) types.Type { return t.Underlying().(*types.Pointer).Elem() }
