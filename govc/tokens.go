package main

import (
	"go/types"
	"strconv"
	"strings"

	"golang.org/x/tools/go/ssa"
)

// Terminal output: buffered writers, formatted writing, and the control sequences in what is written.

// listVal is a fresh slice of the elements whose guard holds, in order.
func (e *Engine) listVal(st *State, et types.Type, items []histItem) *VSlice {
	tt := e.tt
	ref := e.alloc(st)
	h := append([]*Term{}, e.heapOf(st, et)...)
	n := tt.Int(0)
	exact := true
	for _, it := range items {
		exact = exact && it.g.isTrue()
		n = tt.Add(n, tt.Ite(it.g, tt.Int(1), tt.Int(0)))
	}
	hist := &history{key: typeKey(et), refs: []*Term{ref}, items: items}
	lv := e.leaves(et)
	var rows []*Term
	for k := range h {
		if exact {
			rows = append(rows, tt.ConstArr(h[k].sort.elem(), e.zeroLeaf(lv[k])))
		} else {
			rows = append(rows, e.fresh("list", h[k].sort.elem()))
		}
	}
	if exact {
		for i, it := range items {
			for k, x := range e.toLeaves(st, et, it.v) {
				rows[k] = tt.Store(rows[k], tt.Int(int64(i)), x)
			}
		}
		h = append([]*Term{}, e.heapOf(st, et)...)
	}
	for k := range h {
		h[k] = tt.Store(h[k], ref, rows[k])
	}
	st.heap[typeKey(et)] = h
	e.logWriteFresh(et, ref)
	return &VSlice{ref: ref, off: tt.Int(0), ln: n, cp: n, h: hist}
}

type strAlt struct {
	g      *Term
	pieces []*Term
}

// strAlts lists what a string may be, as concatenations without conditionals.
func (e *Engine) strAlts(s *Term) []strAlt {
	tt := e.tt
	switch s.op {
	case "ite":
		var r []strAlt
		for i, c := range []*Term{s.args[0], tt.Not(s.args[0])} {
			for _, a := range e.strAlts(s.args[i+1]) {
				if g := tt.And(c, a.g); !g.isFalse() {
					r = append(r, strAlt{g, a.pieces})
				}
			}
		}
		if len(r) > 64 {
			unsup("output with many alternatives")
		}
		return r
	case "app:concat":
		var r []strAlt
		tail := e.strAlts(s.args[1])
		for _, a := range e.strAlts(s.args[0]) {
			for _, b := range tail {
				if g := tt.And(a.g, b.g); !g.isFalse() {
					r = append(r, strAlt{g, append(append([]*Term{}, a.pieces...), b.pieces...)})
				}
			}
		}
		if len(r) > 64 {
			unsup("output with many alternatives")
		}
		return r
	case "strlit":
		if s.name == "" {
			return []strAlt{{tt.True(), nil}}
		}
	}
	return []strAlt{{tt.True(), []*Term{s}}}
}

// litPlain: vc.Plain of a literal of known clusters.
func litPlain(s string) bool {
	n, ok := asciiWidth(s)
	return ok && n == 1
}

func (e *Engine) plain(s *Term) *Term {
	tt := e.tt
	switch s.op {
	case "strlit":
		if _, ok := asciiWidth(s.name); ok {
			return tt.Bool(litPlain(s.name))
		}
	case "ite":
		return tt.Ite(s.args[0], e.plain(s.args[1]), e.plain(s.args[2]))
	}
	p := tt.App("plain", SBool, s)
	e.rawAssume(tt.Implies(p, tt.And(tt.Le(tt.Int(1), e.strWidth(s)), tt.Eq(e.gcount(s), tt.Int(1)), tt.Lt(tt.Int(0), e.strLen(s)))))
	return p
}

// sgrUnit: s is the text of exactly one attribute or colour selection.
func (e *Engine) sgrUnit(s *Term) *Term {
	tt := e.tt
	switch s.op {
	case "strlit":
		if s.name == "38" || s.name == "48" || s.name == "" {
			return tt.False()
		}
		for _, c := range s.name {
			if c < '0' || c > '9' {
				return tt.App("sgrunit", SBool, s)
			}
		}
		return tt.True()
	case "ite":
		return tt.Ite(s.args[0], e.sgrUnit(s.args[1]), e.sgrUnit(s.args[2]))
	}
	return tt.App("sgrunit", SBool, s)
}

// tokens is the executable vc.Tokens on a string of known structure.
func (e *Engine) tokens(act *Act, fn *ssa.Function, st *State, s *Term, site ssa.Instruction) Val {
	tt := e.tt
	tokT := fn.Signature.Results().At(0).Type().Underlying().(*types.Slice).Elem()
	strT := types.Typ[types.String]
	var items []histItem
	rest := tt.StrLit("")
	for _, alt := range e.strAlts(s) {
		ast := st.clone()
		ast.assumePC(e, alt.g)
		if ast.dead(e) {
			continue
		}
		emit := func(text *Term, seq string, params []*Term) {
			a, b := tt.Int(0), tt.Int(0)
			num := func(x *Term) *Term {
				if x.op == "strlit" {
					n, err := strconv.Atoi(x.name)
					if err != nil {
						n = 0
					}
					return tt.Int(int64(n))
				}
				if x.op == "app:itoa" {
					return x.args[0]
				}
				return e.fresh("param", SInt)
			}
			if len(params) > 0 {
				a = num(params[0])
			}
			if len(params) > 1 {
				b = num(params[1])
			}
			if seq == "m" {
				var units []*Term
				for k := 0; k < len(params); k++ {
					p := params[k]
					if p.op == "strlit" && (p.name == "38" || p.name == "48") {
						n := 1
						if k+1 < len(params) {
							if params[k+1].op != "strlit" {
								unsup("colour parameters of unknown shape")
							}
							switch params[k+1].name {
							case "5":
								n = 3
							case "2":
								n = 5
							}
						}
						n = min(n, len(params)-k)
						u := p
						for _, q := range params[k+1 : k+n] {
							u = e.strConcat(u, e.strConcat(tt.StrLit(";"), q))
						}
						units = append(units, u)
						k += n - 1
						continue
					}
					if p.op != "strlit" && p.op != "app:itoa" {
						e.check(ast, act, "ensures", "a parameter written to the terminal selects one attribute or colour", site.Pos(), e.sgrUnit(p))
					}
					units = append(units, p)
				}
				params = units
			}
			var args []histItem
			for _, p := range params {
				args = append(args, histItem{tt.True(), p})
			}
			z := e.zero(types.NewSlice(strT)).(*VSlice)
			if len(args) > 0 {
				z = e.listVal(st, strT, args)
			}
			items = append(items, histItem{alt.g, &VStruct{[]Val{text, tt.StrLit(seq), z, a, b}}})
		}
		empty := tt.StrLit("")
		ps := alt.pieces
		// merge literals
		var norm []*Term
		for _, p := range ps {
			if n := len(norm); n > 0 && p.op == "strlit" && norm[n-1].op == "strlit" {
				norm[n-1] = tt.StrLit(norm[n-1].name + p.name)
				continue
			}
			norm = append(norm, p)
		}
		i, off := 0, 0 // position
		lastText := false
		unfinished := func(from, at int) {
			r := empty
			for k := len(norm) - 1; k >= from; k-- {
				p := norm[k]
				if k == from && p.op == "strlit" {
					p = tt.StrLit(p.name[at:])
				}
				r = e.strConcat(p, r)
			}
			rest = tt.Ite(alt.g, r, rest)
		}
	scan:
		for i < len(norm) {
			p := norm[i]
			if p.op != "strlit" {
				if lastText {
					unsup("text of unknown clusters next to other text")
				}
				e.check(ast, act, "ensures", "what is written as text is one visible grapheme cluster", site.Pos(), e.plain(p))
				emit(p, "", nil)
				lastText = true
				i++
				continue
			}
			l := p.name
			if off >= len(l) {
				i, off = i+1, 0
				continue
			}
			if l[off] != 0x1b {
				k := strings.IndexByte(l[off:], 0x1b)
				if k < 0 {
					k = len(l) - off
				}
				txt := l[off : off+k]
				if _, ok := asciiWidth(txt); !ok || lastText {
					unsup("text of unknown clusters written to the terminal")
				}
				for _, r := range txt {
					emit(tt.StrLit(string(r)), "", nil)
				}
				off += k
				lastText = off == len(l)
				continue
			}
			lastText = false
			si, so := i, off
			off++
			if off >= len(l) {
				if i+1 < len(norm) {
					unsup("an escape before unknown text")
				}
				unfinished(si, so)
				break scan
			}
			if l[off] != '[' {
				emit(empty, l[so:off+1], nil)
				off++
				continue
			}
			off++
			var params []*Term
			cur := empty
			marker, first, body := "", true, false
			for {
				if i >= len(norm) {
					unfinished(si, so)
					break scan
				}
				if norm[i].op != "strlit" {
					cur = e.strConcat(cur, norm[i])
					body = true
					i, off = i+1, 0
					first = false
					continue
				}
				l = norm[i].name
				if off >= len(l) {
					i, off = i+1, 0
					continue
				}
				c := l[off]
				if c >= 0x40 || c < 0x20 {
					off++
					if body {
						params = append(params, cur)
					}
					emit(empty, marker+string(c), params)
					break
				}
				off++
				if first && c >= 0x3c && c <= 0x3f {
					marker = string(c)
					first = false
					continue
				}
				first = false
				body = true
				if c == ';' {
					params = append(params, cur)
					cur = empty
					continue
				}
				cur = e.strConcat(cur, tt.StrLit(string(c)))
			}
		}
	}
	return &VStruct{[]Val{e.listVal(st, tokT, items), rest}}
}

// method of the interface type of a parameter
func ifaceMethod(t types.Type, name string) *types.Func {
	i := t.Underlying().(*types.Interface)
	for k := 0; k < i.NumMethods(); k++ {
		if i.Method(k).Name() == name {
			return i.Method(k)
		}
	}
	return nil
}

func (e *Engine) writeTo(act *Act, w Val, wt types.Type, s *Term, st *State, site ssa.Instruction) (Val, *State) {
	m := ifaceMethod(wt, "Write")
	bs := e.strToSlice(st, s, types.NewSlice(types.Typ[types.Uint8]))
	return e.invoke(act, w, m, []Val{bs}, st, site)
}

func init() {
	in := intrinsics
	in["fmt.Fprint"] = func(e *Engine, act *Act, fn *ssa.Function, a []Val, st *State, site ssa.Instruction) (Val, *State) {
		e.lib("fmt.Fprint of strings (one Write of their concatenation)")
		args, ok := e.ifaceArgs(st, a[1])
		if !ok {
			unsup("fmt.Fprint of an unknown number of values")
		}
		s := e.tt.StrLit("")
		for _, x := range args {
			iv := e.ifaceFromTerm(x)
			t, ok := iv.alts[0].val.(*Term)
			if len(iv.alts) != 1 || !ok || t.sort != SStr || !e.plainFormat(iv.alts[0].typ) {
				unsup("fmt.Fprint of a value that is not a string")
			}
			s = e.strConcat(s, t)
		}
		return e.writeTo(act, a[0], fn.Signature.Params().At(0).Type(), s, st, site)
	}
	in["fmt.Fprintf"] = func(e *Engine, act *Act, fn *ssa.Function, a []Val, st *State, site ssa.Instruction) (Val, *State) {
		e.lib("fmt.Fprintf (one Write of the formatted text)")
		return e.writeTo(act, a[0], fn.Signature.Params().At(0).Type(), e.sprintf(st, a[1].(*Term), a[2]), st, site)
	}
	in["io.WriteString"] = func(e *Engine, act *Act, fn *ssa.Function, a []Val, st *State, site ssa.Instruction) (Val, *State) {
		e.lib("io.WriteString (one Write of the string)")
		return e.writeTo(act, a[0], fn.Signature.Params().At(0).Type(), a[1].(*Term), st, site)
	}

	// bufio.Writer {err, buf, n, wr}: what is written is handed on at once; n is 0 exactly when
	// everything has been flushed.
	const bw = "assumed: a bufio.Writer hands on what is written to it, in order, at the latest when it is flushed"
	bt := func(fn *ssa.Function) types.Type { return ptrTo(fn.Signature.Recv().Type()) }
	in["bufio.NewWriter"] = func(e *Engine, act *Act, fn *ssa.Function, a []Val, st *State, site ssa.Instruction) (Val, *State) {
		e.note(bw)
		t := ptrTo(fn.Signature.Results().At(0).Type())
		v := e.zero(t).(*VStruct)
		v.f[3] = a[0]
		return e.newCell(st, "bufwriter", t, v), st
	}
	bwrite := func(arg func(e *Engine, st *State, v Val) Val) intrinFn {
		return func(e *Engine, act *Act, fn *ssa.Function, a []Val, st *State, site ssa.Instruction) (Val, *State) {
			e.note(bw)
			p := e.ptr(a[0])
			v := e.load(st, p, bt(fn)).(*VStruct)
			w := &VStruct{append([]Val{}, v.f...)}
			w.f[2] = e.tt.Int(1)
			e.store(st, p, bt(fn), w)
			wt := bt(fn).Underlying().(*types.Struct).Field(3).Type()
			return e.invoke(act, v.f[3], ifaceMethod(wt, "Write"), []Val{arg(e, st, a[1])}, st, site)
		}
	}
	in["(*bufio.Writer).Write"] = bwrite(func(e *Engine, st *State, v Val) Val { return v })
	in["(*bufio.Writer).WriteString"] = bwrite(func(e *Engine, st *State, v Val) Val {
		return e.strToSlice(st, v.(*Term), types.NewSlice(types.Typ[types.Uint8]))
	})
	in["(*bufio.Writer).Flush"] = func(e *Engine, act *Act, fn *ssa.Function, a []Val, st *State, site ssa.Instruction) (Val, *State) {
		e.note(bw)
		p := e.ptr(a[0])
		v := e.load(st, p, bt(fn)).(*VStruct)
		w := &VStruct{append([]Val{}, v.f...)}
		w.f[2] = e.tt.Int(0)
		e.store(st, p, bt(fn), w)
		return v.f[0], st
	}
	in["(*bufio.Writer).Buffered"] = func(e *Engine, act *Act, fn *ssa.Function, a []Val, st *State, site ssa.Instruction) (Val, *State) {
		return e.load(st, e.ptr(a[0]), bt(fn)).(*VStruct).f[2], st
	}

	// colours
	in["(github.com/muesli/termenv.Profile).Convert"] = func(e *Engine, act *Act, fn *ssa.Function, a []Val, st *State, site ssa.Instruction) (Val, *State) {
		e.lib("termenv.Profile.Convert (a function of the profile and the colour; colours that are not termenv's own are kept, except that the Ascii profile has no colours)")
		tt := e.tt
		ct := fn.Signature.Params().At(0).Type()
		pkg := fn.Pkg.Pkg
		noColor := pkg.Scope().Lookup("NoColor").Type()
		none := Val(&VIface{[]IfaceAlt{{g: tt.True(), typ: noColor, val: e.zero(noColor)}}})
		p := e.idxTerm(a[0])
		ascii := tt.Eq(p, tt.Int(3))
		var r Val
		for _, alt := range a[1].(*VIface).alts {
			var x Val
			own := func() bool {
				n, ok := types.Unalias(alt.typ).(*types.Named)
				return ok && n.Obj().Pkg() != nil && n.Obj().Pkg() == pkg
			}
			switch {
			case alt.opaque != nil:
				x = e.ifaceFromTerm(tt.App("convert", SIface, p, alt.opaque))
			case alt.typ == nil:
				x = e.zero(ct)
			case own():
				x = e.ifaceFromTerm(tt.App("convert", SIface, p, e.ifaceTerm(st, &VIface{[]IfaceAlt{alt}})))
			default:
				x = &VIface{[]IfaceAlt{{g: tt.True(), typ: alt.typ, val: alt.val}}}
			}
			if r == nil {
				r = x
			} else {
				r = e.mergeVal(alt.g, x, r)
			}
		}
		return e.mergeVal(ascii, none, r), st
	}
}

// pureMethods: interface methods that are functions of the receiver and the arguments.
var pureMethods = map[string]bool{
	"(github.com/muesli/termenv.Color).Sequence":                true,
	"(github.com/metafates/bento/internal/ansi.Color).Sequence": true,
}
