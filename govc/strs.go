package main

import (
	"go/token"
	"go/types"
	"strings"
	"unicode/utf8"

	"golang.org/x/tools/go/ssa"
)

func (e *Engine) strLen(x *Term) *Term {
	tt := e.tt
	if x.op == "strlit" {
		return tt.Int(int64(len(x.name)))
	}
	if x.op == "ite" {
		if r := e.strLens[x]; r != nil {
			return r
		}
		r := tt.Ite(x.args[0], e.strLen(x.args[1]), e.strLen(x.args[2]))
		e.strLens[x] = r
		return r
	}
	if x.op == "app:concat" {
		return tt.Add(e.strLen(x.args[0]), e.strLen(x.args[1]))
	}
	if x.op == "app:substr" {
		return tt.Sub(x.args[2], x.args[1])
	}
	if x.op == "app:mkstr" {
		return x.args[2]
	}
	return tt.App("slen", SInt, x)
}

func (e *Engine) strAt(x, i *Term) *Term {
	tt := e.tt
	if x.op == "strlit" && i.isNum() {
		k := i.big().Int64()
		if k >= 0 && int(k) < len(x.name) {
			return tt.Int(int64(x.name[k]))
		}
	}
	if x.op == "app:mkstr" {
		return tt.Select(x.args[0], tt.Add(x.args[1], i))
	}
	if x.op == "app:substr" {
		return e.strAt(x.args[0], tt.Add(x.args[1], i))
	}
	return tt.App("sat", SInt, x, i)
}

func (e *Engine) strSub(x, lo, hi *Term) *Term {
	tt := e.tt
	if lo.isNum() && lo.name == "0" && hi == e.strLen(x) {
		return x
	}
	if x.op == "strlit" && lo.isNum() && hi.isNum() {
		a, b := lo.big().Int64(), hi.big().Int64()
		if 0 <= a && a <= b && int(b) <= len(x.name) {
			return tt.StrLit(x.name[a:b])
		}
	}
	if x.op == "app:mkstr" {
		return tt.App("mkstr", SStr, x.args[0], tt.Add(x.args[1], lo), tt.Sub(hi, lo))
	}
	if x.op == "app:substr" {
		return tt.App("substr", SStr, x.args[0], tt.Add(x.args[1], lo), tt.Add(x.args[1], hi))
	}
	return tt.App("substr", SStr, x, lo, hi)
}

func (e *Engine) strConcat(x, y *Term) *Term {
	tt := e.tt
	if x.op == "strlit" && y.op == "strlit" {
		return tt.StrLit(x.name + y.name)
	}
	if x.op == "strlit" && x.name == "" {
		return y
	}
	if y.op == "strlit" && y.name == "" {
		return x
	}
	// right-nested normal form
	if x.op == "app:concat" {
		return e.strConcat(x.args[0], e.strConcat(x.args[1], y))
	}
	if x.op == "strlit" && y.op == "app:concat" && y.args[0].op == "strlit" {
		return e.strConcat(tt.StrLit(x.name+y.args[0].name), y.args[1])
	}
	return tt.App("concat", SStr, x, y)
}

func (e *Engine) strCmp(op token.Token, x, y *Term) *Term {
	lt := func(a, b *Term) *Term { return e.tt.App("strlt", SBool, a, b) }
	switch op {
	case token.LSS:
		return lt(x, y)
	case token.GTR:
		return lt(y, x)
	case token.LEQ:
		return e.tt.Not(lt(y, x))
	}
	return e.tt.Not(lt(x, y))
}

// strEq expands comparisons of byte-built strings against literals.
func (e *Engine) strEq(x, y *Term) *Term {
	if x == y {
		return e.tt.True()
	}
	k := [2]*Term{x, y}
	if r := e.strEqs[k]; r != nil {
		return r
	}
	r := e.strEq1(x, y)
	e.strEqs[k] = r
	return r
}

func (e *Engine) strEq1(x, y *Term) *Term {
	tt := e.tt
	if x.op == "strlit" {
		x, y = y, x
	}
	if y.op == "strlit" {
		switch x.op {
		case "app:mkstr", "app:substr":
			cs := []*Term{tt.Eq(e.strLen(x), tt.Int(int64(len(y.name))))}
			for i := 0; i < len(y.name); i++ {
				cs = append(cs, tt.Eq(e.strAt(x, tt.Int(int64(i))), tt.Int(int64(y.name[i]))))
			}
			return tt.And(cs...)
		case "ite":
			return tt.Ite(x.args[0], e.strEq(x.args[1], y), e.strEq(x.args[2], y))
		case "app:concat":
			if y.name == "" {
				return tt.And(e.strEq(x.args[0], y), e.strEq(x.args[1], y))
			}
			if h := x.args[0]; h.op == "strlit" {
				if len(h.name) <= len(y.name) && y.name[:len(h.name)] == h.name {
					return e.strEq(x.args[1], tt.StrLit(y.name[len(h.name):]))
				}
				return tt.False()
			}
		}
		if y.name == "" && x.op != "strlit" {
			return tt.Eq(e.strLen(x), tt.Int(0))
		}
	}
	if x.op == "app:concat" && y.op == "app:concat" && x.args[0] == y.args[0] {
		return e.strEq(x.args[1], y.args[1])
	}
	return tt.Eq(x, y)
}

func (e *Engine) strWidth(x *Term) *Term {
	if x.op == "strlit" {
		if w, ok := asciiWidth(x.name); ok {
			return e.tt.Int(int64(w))
		}
	}
	if x.op == "ite" {
		return e.tt.Ite(x.args[0], e.strWidth(x.args[1]), e.strWidth(x.args[2]))
	}
	e.note("assumed: uniseg.StringWidth is a non-negative function of the string, is 1 for printable ASCII and the box/block glyphs used as literals, and sums over graphemes")
	w := e.tt.App("swidth", SInt, x)
	if !w.hasBnd {
		e.rawAssume(e.tt.Le(e.tt.Int(0), w))
	}
	return w
}

// asciiWidth is exact for printable ASCII and the box drawing / block element glyphs.
func asciiWidth(s string) (int, bool) {
	n := 0
	for _, r := range s {
		switch {
		case r >= 32 && r < 127, r >= 0x2500 && r <= 0x259f:
			n++
		default:
			return 0, false
		}
	}
	return n, true
}

// runesOf is the sequence of the runes of a string.
func (e *Engine) runesOf(x *Term) (row, n *Term) {
	tt := e.tt
	if x.op == "strlit" {
		row = tt.ConstArr(arrSort(SInt, SInt), tt.Int(0))
		i := 0
		for _, c := range x.name {
			row = tt.Store(row, tt.Int(int64(i)), tt.Int(int64(c)))
			i++
		}
		return row, tt.Int(int64(i))
	}
	n = tt.App("rcount", SInt, x)
	if !n.hasBnd {
		e.rawAssume(tt.And(tt.Le(tt.Int(0), n), tt.Le(n, e.strLen(x))))
	}
	return tt.App("srunes", arrSort(SInt, SInt), x), n
}

// runeIdx is the number of the rune that starts at a byte position.
func (e *Engine) runeIdx(x, pos *Term) *Term {
	if pos.isNum() && pos.big().Sign() == 0 {
		return e.tt.Int(0)
	}
	return e.tt.App("runeidx", SInt, x, pos)
}

func (e *Engine) gcount(s *Term) *Term {
	if s.op == "strlit" {
		if n, ok := asciiWidth(s.name); ok {
			return e.tt.Int(int64(n))
		}
	}
	n := e.tt.App("gcount", SInt, s)
	if !n.hasBnd {
		e.rawAssume(e.tt.And(e.tt.Le(e.tt.Int(0), n), e.tt.Le(n, e.strLen(s))))
	}
	return n
}

func (e *Engine) growRow(s *Term) *Term {
	tt := e.tt
	if s.op == "strlit" {
		if _, ok := asciiWidth(s.name); ok {
			r := tt.ConstArr(arrSort(SInt, SStr), tt.StrLit(""))
			i := 0
			for _, c := range s.name {
				r = tt.Store(r, tt.Int(int64(i)), tt.StrLit(string(c)))
				i++
			}
			return r
		}
	}
	return tt.App("grow", arrSort(SInt, SStr), s)
}

// lineCount is the number of lines of s.
func (e *Engine) lineCount(s *Term) *Term {
	if s.op == "strlit" {
		return e.tt.Int(int64(len(linesOf(s.name))))
	}
	n := e.tt.App("lcount", SInt, s)
	if !n.hasBnd {
		e.rawAssume(e.tt.And(e.tt.Le(e.tt.Int(0), n), e.tt.Le(n, e.strLen(s)), e.tt.Eq(e.tt.Eq(n, e.tt.Int(0)), e.tt.Eq(s, e.tt.StrLit("")))))
	}
	return n
}

func linesOf(s string) []string {
	if s == "" {
		return nil
	}
	r := strings.Split(strings.TrimSuffix(s, "\n"), "\n")
	for i := range r {
		r[i] = strings.TrimSuffix(r[i], "\r")
	}
	return r
}

func (e *Engine) lineRow(s *Term) *Term {
	tt := e.tt
	if s.op == "strlit" {
		r := tt.ConstArr(arrSort(SInt, SStr), tt.StrLit(""))
		for i, l := range linesOf(s.name) {
			r = tt.Store(r, tt.Int(int64(i)), tt.StrLit(l))
		}
		return r
	}
	return tt.App("lrow", arrSort(SInt, SStr), s)
}

func (e *Engine) graphemeSlice(st *State, s *Term) Val {
	return e.stringSlice(st, e.gcount(s), e.growRow(s))
}

// stringSlice is a ghost slice of n strings.
func (e *Engine) stringSlice(st *State, n, row *Term) Val {
	tt := e.tt
	et := types.Typ[types.String]
	ref := e.alloc(st)
	h := append([]*Term{}, e.heapOf(st, et)...)
	h[0] = tt.Store(h[0], ref, row)
	st.heap[typeKey(et)] = h
	e.logWrite(et, ref)
	e.snapshot(st, et, ref)
	return &VSlice{ref: ref, off: tt.Int(0), ln: n, cp: n}
}

func (e *Engine) strToSlice(st *State, x *Term, sl *types.Slice) Val {
	tt := e.tt
	et := sl.Elem()
	b := et.Underlying().(*types.Basic)
	ref := e.alloc(st)
	h := append([]*Term{}, e.heapOf(st, et)...)
	var n *Term
	if b.Kind() == types.Uint8 {
		n = e.strLen(x)
		if x.op == "strlit" {
			r := tt.ConstArr(arrSort(SInt, SInt), tt.Int(0))
			for i := 0; i < len(x.name); i++ {
				r = tt.Store(r, tt.Int(int64(i)), tt.Int(int64(x.name[i])))
			}
			h[0] = tt.Store(h[0], ref, r)
			e.strRows[r] = x
		} else {
			r := tt.App("sbytes", arrSort(SInt, SInt), x)
			h[0] = tt.Store(h[0], ref, r)
			e.strRows[r] = x
		}
	} else { // runes
		if x.op == "strlit" {
			r := tt.ConstArr(arrSort(SInt, SInt), tt.Int(0))
			i := 0
			for _, c := range x.name {
				r = tt.Store(r, tt.Int(int64(i)), tt.Int(int64(c)))
				i++
			}
			n = tt.Int(int64(utf8.RuneCountInString(x.name)))
			h[0] = tt.Store(h[0], ref, r)
		} else {
			n = tt.App("rcount", SInt, x)
			if !n.hasBnd {
				e.rawAssume(tt.And(tt.Le(tt.Int(0), n), tt.Le(n, e.strLen(x))))
			}
			h[0] = tt.Store(h[0], ref, tt.App("srunes", arrSort(SInt, SInt), x))
		}
	}
	st.heap[typeKey(et)] = h
	e.logWrite(et, ref)
	return &VSlice{ref: ref, off: tt.Int(0), ln: n, cp: n}
}

func (e *Engine) sliceToStr(st *State, s *VSlice, sl *types.Slice) Val {
	tt := e.tt
	b := sl.Elem().Underlying().(*types.Basic)
	row := tt.Select(e.heapOf(st, sl.Elem())[0], s.ref)
	if b.Kind() == types.Uint8 {
		if x := e.strRows[row]; x != nil && s.off.isNum() && s.off.big().Sign() == 0 && s.ln == e.strLen(x) {
			return x
		}
		return tt.App("mkstr", SStr, row, s.off, s.ln)
	}
	return tt.App("mkrunestr", SStr, row, s.off, s.ln)
}

// ---- range over strings and maps

func (e *Engine) rangeNext(act *Act, in *ssa.Next, st *State) *State {
	tt := e.tt
	r := e.ranges[in.Iter.(*ssa.Range)]
	pos, ok := st.cells[r.cell].(*Term)
	if !ok {
		unsup("range state")
	}
	if in.IsString {
		e.assume(st, tt.And(tt.Le(tt.Int(0), pos), tt.Le(pos, e.strLen(r.x))))
		more := tt.Lt(pos, e.strLen(r.x))
		ru := tt.App("runeat", SInt, r.x, pos)
		w := tt.App("runelen", SInt, r.x, pos)
		e.rawAssume(tt.And(tt.Le(tt.Int(1), w), tt.Le(w, tt.Int(4)), tt.Le(tt.Int(0), ru), tt.Le(ru, tt.Int(0x10ffff))))
		e.assume(st, tt.Implies(more, tt.Le(tt.Add(pos, w), e.strLen(r.x))))
		// the position is the start of the rune with this number (a fact about the positions a range visits)
		row, cnt := e.runesOf(r.x)
		k, k1 := e.runeIdx(r.x, pos), e.runeIdx(r.x, tt.Add(pos, w))
		e.assume(st, tt.Implies(more, tt.And(tt.Le(tt.Int(0), k), tt.Lt(k, cnt), tt.Eq(k1, tt.Add(k, tt.Int(1))), tt.Eq(tt.Select(row, k), ru))))
		e.assume(st, tt.Implies(tt.Not(more), tt.Eq(k, cnt)))
		st.cells[r.cell] = tt.Ite(more, tt.Add(pos, w), pos)
		act.env[in] = &VStruct{[]Val{more, pos, ru}}
		return st
	}
	e.mapNext(act, in, st, r)
	return st
}

func (e *Engine) rangeMeasure(act *Act, in *ssa.Next) func(*State, []Val) *Term {
	r := e.ranges[in.Iter.(*ssa.Range)]
	if r == nil {
		return nil
	}
	tt := e.tt
	if in.IsString {
		return func(st *State, _ []Val) *Term {
			p, ok := st.cells[r.cell].(*Term)
			if !ok {
				return tt.Int(0)
			}
			return tt.Sub(e.strLen(r.x), p)
		}
	}
	bound := tt.sym("mapsize", SInt)
	return func(st *State, _ []Val) *Term {
		p, ok := st.cells[r.cell].(*Term)
		if !ok {
			return tt.Int(0)
		}
		// finiteness of the map: the number of iterations is bounded by an unknown constant
		d := tt.Sub(bound, p)
		e.rawAssume(tt.Le(tt.Int(0), d))
		return d
	}
}
