package main

// Hash-consed SMT terms with light simplification.

import (
	"fmt"
	"math/big"
	"sort"
	"strconv"
	"strings"
)

type Sort string

const (
	SBool  Sort = "Bool"
	SInt   Sort = "Int"
	SReal  Sort = "Real"
	SStr   Sort = "Str"
	SIface Sort = "Iface"
)

func bvSort(n int) Sort         { return Sort(fmt.Sprintf("(_ BitVec %d)", n)) }
func arrSort(k, v Sort) Sort    { return Sort(fmt.Sprintf("(Array %s %s)", k, v)) }
func (s Sort) isArr() bool      { return strings.HasPrefix(string(s), "(Array ") }
func (s Sort) isBV() bool       { return strings.HasPrefix(string(s), "(_ BitVec ") }
func (s Sort) elem() Sort       { _, v := s.kv(); return v }
func (s Sort) kv() (Sort, Sort) { return splitArr(string(s)) }
func splitArr(s string) (Sort, Sort) {
	s = strings.TrimSuffix(strings.TrimPrefix(s, "(Array "), ")")
	d := 0
	for i := 0; i < len(s); i++ {
		switch s[i] {
		case '(':
			d++
		case ')':
			d--
		case ' ':
			if d == 0 {
				return Sort(s[:i]), Sort(s[i+1:])
			}
		}
	}
	panic("bad array sort " + s)
}

type Term struct {
	id     int
	op     string // "const" (symbol), "num", "true","false", "bound", SMT operator, "app:<uf>", "forall", "exists"
	name   string // symbol name, numeral, bv literal
	args   []*Term
	sort   Sort
	pats   [][]*Term // quantifier patterns
	hasBnd bool      // contains bound variables free
	seq    int       // creation stamp of the newest symbol inside
	free   []*Term   // free bound vars (sorted by id)
}

type TermTable struct {
	m      map[string]*Term
	next   int
	symSeq int
	ufs    map[string]*UF
	ufOrd  []string
	syms   []*Term
	strs   map[string]*Term
	strOrd []string
	ifc    *IfaceReg
}

type UF struct {
	name string
	args []Sort
	ret  Sort
}

func newTable() *TermTable {
	t := &TermTable{m: map[string]*Term{}, ufs: map[string]*UF{}, strs: map[string]*Term{}}
	t.ifc = newIfaceReg(t)
	return t
}

func (t *TermTable) mk(op, name string, s Sort, args ...*Term) *Term {
	var b strings.Builder
	b.WriteString(op)
	b.WriteByte('|')
	b.WriteString(name)
	b.WriteByte('|')
	b.WriteString(string(s))
	for _, a := range args {
		b.WriteByte(',')
		b.WriteString(strconv.Itoa(a.id))
	}
	k := b.String()
	if x, ok := t.m[k]; ok {
		return x
	}
	x := &Term{id: t.next, op: op, name: name, args: args, sort: s}
	t.next++
	for _, a := range args {
		if a.seq > x.seq {
			x.seq = a.seq
		}
		x.free = unionTerms(x.free, a.free)
	}
	if op == "bound" {
		x.free = []*Term{x}
	}
	x.hasBnd = len(x.free) > 0
	t.m[k] = x
	return x
}

func unionTerms(a, b []*Term) []*Term {
	if len(b) == 0 {
		return a
	}
	if len(a) == 0 {
		return b
	}
	var r []*Term
	i, j := 0, 0
	for i < len(a) || j < len(b) {
		switch {
		case j >= len(b) || (i < len(a) && a[i].id < b[j].id):
			r = append(r, a[i])
			i++
		case i >= len(a) || b[j].id < a[i].id:
			r = append(r, b[j])
			j++
		default:
			r = append(r, a[i])
			i++
			j++
		}
	}
	return r
}

// fresh symbol
func (t *TermTable) sym(hint string, s Sort) *Term {
	t.symSeq++
	hint = sanitize(hint)
	x := t.mk("const", fmt.Sprintf("%s!%d", hint, t.symSeq), s)
	x.seq = t.symSeq
	t.syms = append(t.syms, x)
	return x
}

// named global symbol
func (t *TermTable) gsym(name string, s Sort) *Term {
	k := "const|" + name + "|" + string(s)
	if x, ok := t.m[k]; ok {
		return x
	}
	x := t.mk("const", name, s)
	t.syms = append(t.syms, x)
	return x
}

func (t *TermTable) bound(hint string, s Sort) *Term {
	t.symSeq++
	return t.mk("bound", fmt.Sprintf("%s?%d", sanitize(hint), t.symSeq), s)
}

func sanitize(s string) string {
	return strings.Map(func(r rune) rune {
		if r >= 'a' && r <= 'z' || r >= 'A' && r <= 'Z' || r >= '0' && r <= '9' || r == '_' || r == '.' {
			return r
		}
		return '_'
	}, s)
}

func (t *TermTable) True() *Term  { return t.mk("true", "", SBool) }
func (t *TermTable) False() *Term { return t.mk("false", "", SBool) }
func (t *TermTable) Bool(b bool) *Term {
	if b {
		return t.True()
	}
	return t.False()
}
func (t *TermTable) Int(i int64) *Term     { return t.mk("num", strconv.FormatInt(i, 10), SInt) }
func (t *TermTable) Big(i *big.Int) *Term  { return t.mk("num", i.String(), SInt) }
func (t *TermTable) Real(r *big.Rat) *Term { return t.mk("real", r.RatString(), SReal) }
func (t *TermTable) BV(n int, v uint64) *Term {
	if n < 64 {
		v &= (1 << uint(n)) - 1
	}
	return t.mk("bv", strconv.FormatUint(v, 10), bvSort(n))
}
func (s Sort) bvWidth() int {
	var n int
	fmt.Sscanf(string(s), "(_ BitVec %d)", &n)
	return n
}

func (x *Term) isTrue() bool  { return x.op == "true" }
func (x *Term) isFalse() bool { return x.op == "false" }
func (x *Term) isNum() bool   { return x.op == "num" }
func (x *Term) big() *big.Int {
	b, _ := new(big.Int).SetString(x.name, 10)
	return b
}
func (x *Term) rat() *big.Rat {
	b, _ := new(big.Rat).SetString(x.name)
	return b
}
func (x *Term) bvVal() uint64 { v, _ := strconv.ParseUint(x.name, 10, 64); return v }

func (t *TermTable) Not(a *Term) *Term {
	switch a.op {
	case "true":
		return t.False()
	case "false":
		return t.True()
	case "not":
		return a.args[0]
	}
	return t.mk("not", "", SBool, a)
}

func (t *TermTable) And(as ...*Term) *Term {
	var r []*Term
	seen := map[int]bool{}
	var add func(a *Term) bool
	add = func(a *Term) bool {
		switch a.op {
		case "true":
			return true
		case "false":
			return false
		case "and":
			for _, b := range a.args {
				if !add(b) {
					return false
				}
			}
			return true
		}
		if seen[a.id] {
			return true
		}
		if seen[t.Not(a).id] {
			return false
		}
		seen[a.id] = true
		r = append(r, a)
		return true
	}
	for _, a := range as {
		if !add(a) {
			return t.False()
		}
	}
	switch len(r) {
	case 0:
		return t.True()
	case 1:
		return r[0]
	}
	return t.mk("and", "", SBool, r...)
}

func (t *TermTable) Or(as ...*Term) *Term {
	var r []*Term
	seen := map[int]bool{}
	var add func(a *Term) bool // false => whole is true
	add = func(a *Term) bool {
		switch a.op {
		case "false":
			return true
		case "true":
			return false
		case "or":
			for _, b := range a.args {
				if !add(b) {
					return false
				}
			}
			return true
		}
		if seen[a.id] {
			return true
		}
		if seen[t.Not(a).id] {
			return false
		}
		seen[a.id] = true
		r = append(r, a)
		return true
	}
	for _, a := range as {
		if !add(a) {
			return t.True()
		}
	}
	switch len(r) {
	case 0:
		return t.False()
	case 1:
		return r[0]
	}
	return t.mk("or", "", SBool, r...)
}

func (t *TermTable) Implies(a, b *Term) *Term {
	if a.isTrue() {
		return b
	}
	if a.isFalse() || b.isTrue() {
		return t.True()
	}
	if b.isFalse() {
		return t.Not(a)
	}
	if a == b {
		return t.True()
	}
	return t.mk("=>", "", SBool, a, b)
}

func (t *TermTable) Ite(c, a, b *Term) *Term {
	if a == b {
		return a
	}
	if c.isTrue() {
		return a
	}
	if c.isFalse() {
		return b
	}
	if c.op == "not" {
		return t.Ite(c.args[0], b, a)
	}
	if a.sort == SBool {
		if a.isTrue() && b.isFalse() {
			return c
		}
		if a.isFalse() && b.isTrue() {
			return t.Not(c)
		}
		if a.isTrue() {
			return t.Or(c, b)
		}
		if a.isFalse() {
			return t.And(t.Not(c), b)
		}
		if b.isTrue() {
			return t.Or(t.Not(c), a)
		}
		if b.isFalse() {
			return t.And(c, a)
		}
	}
	if a.op == "ite" && a.args[0] == c {
		a = a.args[1]
	}
	if b.op == "ite" && b.args[0] == c {
		b = b.args[2]
	}
	if a == b {
		return a
	}
	if a.sort != b.sort {
		panic(fmt.Sprintf("ite sort mismatch %s vs %s: %s / %s", a.sort, b.sort, a, b))
	}
	return t.mk("ite", "", a.sort, c, a, b)
}

func (t *TermTable) Eq(a, b *Term) *Term {
	if a == b {
		return t.True()
	}
	if a.sort != b.sort {
		panic(fmt.Sprintf("eq sort mismatch %s vs %s: %s / %s", a.sort, b.sort, a, b))
	}
	if isLit(a) && isLit(b) {
		return t.False() // distinct literals of one sort are distinct terms
	}
	if a.sort == SBool {
		if a.isTrue() {
			return b
		}
		if b.isTrue() {
			return a
		}
		if a.isFalse() {
			return t.Not(b)
		}
		if b.isFalse() {
			return t.Not(a)
		}
	}
	if a.sort == SIface && strings.HasPrefix(a.op, "box:") && strings.HasPrefix(b.op, "box:") {
		if a.op != b.op {
			return t.False()
		}
		cs := []*Term{}
		for i := range a.args {
			cs = append(cs, t.Eq(a.args[i], b.args[i]))
		}
		return t.And(cs...)
	}
	if strings.HasPrefix(a.op, "app:mkKey") && a.op == b.op {
		cs := []*Term{}
		for i := range a.args {
			cs = append(cs, t.Eq(a.args[i], b.args[i]))
		}
		return t.And(cs...)
	}
	// ite with literal branches against a literal
	if isLit(b) && a.op == "ite" {
		if isLit(a.args[1]) || isLit(a.args[2]) {
			return t.Ite(a.args[0], t.Eq(a.args[1], b), t.Eq(a.args[2], b))
		}
	}
	if isLit(a) && b.op == "ite" {
		return t.Eq(b, a)
	}
	if a.sort == SInt {
		if d := t.Sub(a, b); d.isNum() {
			return t.Bool(d.big().Sign() == 0)
		}
	}
	if a.id > b.id {
		a, b = b, a
	}
	return t.mk("=", "", SBool, a, b)
}

func isLit(a *Term) bool {
	switch a.op {
	case "num", "real", "bv", "true", "false", "strlit":
		return true
	}
	return strings.HasPrefix(a.op, "box:") && len(a.args) == 0
}

// linear normal form: sum of coef*atom + const
type lin struct {
	c     *big.Rat
	atoms map[int]*big.Rat
	terms map[int]*Term
}

func (t *TermTable) toLin(a *Term, k *big.Rat, l *lin) {
	switch a.op {
	case "num", "real":
		l.c.Add(l.c, new(big.Rat).Mul(k, a.rat()))
	case "+":
		for _, x := range a.args {
			t.toLin(x, k, l)
		}
	case "*":
		if a.args[0].op == "num" || a.args[0].op == "real" {
			t.toLin(a.args[1], new(big.Rat).Mul(k, a.args[0].rat()), l)
			return
		}
		fallthrough
	default:
		if l.atoms[a.id] == nil {
			l.atoms[a.id] = new(big.Rat)
			l.terms[a.id] = a
		}
		l.atoms[a.id].Add(l.atoms[a.id], k)
	}
}

func (t *TermTable) fromLin(l *lin, s Sort) *Term {
	var ids []int
	for id, c := range l.atoms {
		if c.Sign() != 0 {
			ids = append(ids, id)
		}
	}
	sort.Ints(ids)
	lit := func(r *big.Rat) *Term {
		if s == SInt {
			return t.Big(r.Num())
		}
		return t.Real(r)
	}
	var as []*Term
	one := big.NewRat(1, 1)
	for _, id := range ids {
		c := l.atoms[id]
		if c.Cmp(one) == 0 {
			as = append(as, l.terms[id])
		} else {
			as = append(as, t.mk("*", "", s, lit(c), l.terms[id]))
		}
	}
	if l.c.Sign() != 0 || len(as) == 0 {
		as = append(as, lit(l.c))
	}
	if len(as) == 1 {
		return as[0]
	}
	return t.mk("+", "", s, as...)
}

func newLin() *lin {
	return &lin{new(big.Rat), map[int]*big.Rat{}, map[int]*Term{}}
}

func (t *TermTable) Add(a, b *Term) *Term {
	l := newLin()
	o := big.NewRat(1, 1)
	t.toLin(a, o, l)
	t.toLin(b, o, l)
	return t.fromLin(l, a.sort)
}
func (t *TermTable) Sub(a, b *Term) *Term {
	l := newLin()
	t.toLin(a, big.NewRat(1, 1), l)
	t.toLin(b, big.NewRat(-1, 1), l)
	return t.fromLin(l, a.sort)
}
func (t *TermTable) Neg(a *Term) *Term {
	l := newLin()
	t.toLin(a, big.NewRat(-1, 1), l)
	return t.fromLin(l, a.sort)
}

// Mul: linear when one side is a literal, else the uninterpreted product (axiomatised).
func (t *TermTable) Mul(a, b *Term) *Term {
	if b.op == "num" || b.op == "real" {
		a, b = b, a
	}
	if a.op == "num" || a.op == "real" {
		l := newLin()
		t.toLin(b, a.rat(), l)
		return t.fromLin(l, b.sort)
	}
	if a.id > b.id {
		a, b = b, a
	}
	if a.sort == SReal {
		return t.mk("*", "", SReal, a, b)
	}
	return t.App("mul", SInt, a, b)
}

// floor division / modulo (Euclidean for positive divisor)
func (t *TermTable) Div(a, b *Term) *Term {
	if b.isNum() && b.big().Sign() > 0 {
		if a.isNum() {
			q, m := new(big.Int), new(big.Int)
			q.DivMod(a.big(), b.big(), m)
			return t.Big(q)
		}
		if b.name == "1" {
			return a
		}
		return t.mk("div", "", SInt, a, b)
	}
	return t.App("idiv", SInt, a, b)
}
func (t *TermTable) Mod(a, b *Term) *Term {
	if b.isNum() && b.big().Sign() > 0 {
		if a.isNum() {
			q, m := new(big.Int), new(big.Int)
			q.DivMod(a.big(), b.big(), m)
			return t.Big(m)
		}
		if b.name == "1" {
			return t.Int(0)
		}
		return t.mk("mod", "", SInt, a, b)
	}
	return t.App("imod", SInt, a, b)
}

func (t *TermTable) Le(a, b *Term) *Term {
	if a.sort == SInt || a.sort == SReal {
		d := t.Sub(b, a)
		if d.op == "num" || d.op == "real" {
			return t.Bool(d.rat().Sign() >= 0)
		}
	}
	if a.sort == SInt {
		return t.mk("<=", "", SBool, a, b)
	}
	return t.mk("<=", "", SBool, a, b)
}
func (t *TermTable) Lt(a, b *Term) *Term {
	if a.sort == SReal {
		d := t.Sub(b, a)
		if d.op == "real" || d.op == "num" {
			return t.Bool(d.rat().Sign() > 0)
		}
		return t.mk("<", "", SBool, a, b)
	}
	return t.Not(t.Le(b, a))
}

func (t *TermTable) Select(a, i *Term) *Term {
	k, v := a.sort.kv()
	if k != i.sort {
		panic(fmt.Sprintf("select index sort %s on %s", i.sort, a.sort))
	}
	for a.op == "store" {
		j := a.args[1]
		if j == i {
			return a.args[2]
		}
		if t.distinct(i, j) {
			a = a.args[0]
			continue
		}
		break
	}
	if a.op == "constarr" {
		return a.args[0]
	}
	if a.op == "ite" {
		// push select inside when it simplifies at least one side
		x := t.Select(a.args[1], i)
		y := t.Select(a.args[2], i)
		return t.Ite(a.args[0], x, y)
	}
	return t.mk("select", "", v, a, i)
}

// refDistinct: allocation symbols are pairwise distinct and differ from entry refs: recorded via alloc stamps.
func (t *TermTable) distinct(a, b *Term) bool {
	if isLit(a) && isLit(b) {
		return a != b
	}
	if a.sort == SInt {
		d := t.Sub(a, b)
		if d.isNum() {
			return d.big().Sign() != 0
		}
		if a.op == "ite" && a.size() < 40 {
			return t.distinct(a.args[1], b) && t.distinct(a.args[2], b)
		}
		if b.op == "ite" && b.size() < 40 {
			return t.distinct(a, b.args[1]) && t.distinct(a, b.args[2])
		}
		aa, ab := a.op == "const" && strings.HasPrefix(a.name, "alloc!"), b.op == "const" && strings.HasPrefix(b.name, "alloc!")
		if aa && ab {
			return true
		}
		// an allocation differs from every reference term whose symbols were created before it;
		// a bound variable ranges over all references
		if aa && b.seq < a.seq && !b.hasBnd {
			return true
		}
		if ab && a.seq < b.seq && !a.hasBnd {
			return true
		}
	}
	return false
}

func (x *Term) size() int {
	n := 1
	for _, a := range x.args {
		n += a.size()
		if n > 100 {
			return n
		}
	}
	return n
}

func (t *TermTable) Store(a, i, v *Term) *Term {
	if a.op == "store" && a.args[1] == i {
		a = a.args[0]
	}
	if v.op == "select" && v.args[0] == a && v.args[1] == i {
		return a
	}
	_, ev := a.sort.kv()
	if ev != v.sort {
		panic(fmt.Sprintf("store value sort %s into %s", v.sort, a.sort))
	}
	return t.mk("store", "", a.sort, a, i, v)
}

func (t *TermTable) ConstArr(s Sort, v *Term) *Term { return t.mk("constarr", "", s, v) }

func (t *TermTable) App(f string, ret Sort, args ...*Term) *Term {
	if _, ok := t.ufs[f]; !ok {
		u := &UF{name: f, ret: ret}
		for _, a := range args {
			u.args = append(u.args, a.sort)
		}
		t.ufs[f] = u
		t.ufOrd = append(t.ufOrd, f)
	}
	return t.mk("app:"+f, "", ret, args...)
}

func (t *TermTable) StrLit(s string) *Term {
	x := t.mk("strlit", s, SStr)
	if _, ok := t.strs[s]; !ok {
		t.strs[s] = x
		t.strOrd = append(t.strOrd, s)
	}
	return x
}

// Op builds a raw operator application.
func (t *TermTable) Op(op string, s Sort, args ...*Term) *Term {
	if s.isBV() || (len(args) > 0 && args[0].sort.isBV()) {
		return t.bvop(op, s, args...)
	}
	return t.mk(op, "", s, args...)
}

func (t *TermTable) bvop(op string, s Sort, args ...*Term) *Term {
	allLit := true
	for _, a := range args {
		if a.op != "bv" {
			allLit = false
		}
	}
	if allLit && len(args) == 2 {
		a, b := args[0].bvVal(), args[1].bvVal()
		n := args[0].sort.bvWidth()
		switch op {
		case "bvand":
			return t.BV(n, a&b)
		case "bvor":
			return t.BV(n, a|b)
		case "bvxor":
			return t.BV(n, a^b)
		case "bvadd":
			return t.BV(n, a+b)
		case "bvult":
			return t.Bool(a < b)
		case "bvule":
			return t.Bool(a <= b)
		case "bvshl":
			if b < 64 {
				return t.BV(n, a<<b)
			}
		}
	}
	if allLit && len(args) == 1 && op == "bvnot" {
		return t.BV(args[0].sort.bvWidth(), ^args[0].bvVal())
	}
	if len(args) == 2 {
		for i := 0; i < 2; i++ {
			a, b := args[i], args[1-i]
			if a.op == "bv" && a.bvVal() == 0 {
				switch op {
				case "bvor", "bvxor", "bvadd":
					return b
				case "bvand":
					return a
				}
			}
		}
	}
	return t.mk(op, "", s, args...)
}

// Quantifiers. vars are "bound" terms.
func (t *TermTable) Quant(kind string, vars []*Term, body *Term, pats [][]*Term) *Term {
	if isLit(body) {
		return body
	}
	used := false
	for _, v := range vars {
		if containsFree(body, v) {
			used = true
		}
	}
	if !used {
		return body
	}
	args := append(append([]*Term{}, vars...), body)
	var pk strings.Builder
	for _, p := range pats {
		for _, x := range p {
			fmt.Fprintf(&pk, "%d,", x.id)
		}
		pk.WriteByte(';')
	}
	x := t.mk(kind, pk.String(), SBool, args...)
	x.pats = pats
	// remove own vars from free list
	var fr []*Term
	for _, f := range body.free {
		own := false
		for _, v := range vars {
			if v == f {
				own = true
			}
		}
		if !own {
			fr = append(fr, f)
		}
	}
	x.free = fr
	x.hasBnd = len(fr) > 0
	x.seq = body.seq
	return x
}

func containsFree(x, v *Term) bool {
	for _, f := range x.free {
		if f == v {
			return true
		}
	}
	return false
}

// Subst replaces terms (by identity) rebuilding through the simplifier.
func (t *TermTable) Subst(x *Term, m map[*Term]*Term) *Term {
	memo := map[*Term]*Term{}
	var rec func(x *Term) *Term
	rec = func(x *Term) *Term {
		if r, ok := m[x]; ok {
			return r
		}
		if len(x.args) == 0 {
			return x
		}
		if r, ok := memo[x]; ok {
			return r
		}
		args := make([]*Term, len(x.args))
		ch := false
		for i, a := range x.args {
			args[i] = rec(a)
			ch = ch || args[i] != a
		}
		r := x
		if ch {
			r = t.rebuild(x, args, rec)
		}
		memo[x] = r
		return r
	}
	return rec(x)
}

func (t *TermTable) rebuild(x *Term, a []*Term, rec func(*Term) *Term) *Term {
	switch x.op {
	case "not":
		return t.Not(a[0])
	case "and":
		return t.And(a...)
	case "or":
		return t.Or(a...)
	case "=>":
		return t.Implies(a[0], a[1])
	case "ite":
		return t.Ite(a[0], a[1], a[2])
	case "=":
		return t.Eq(a[0], a[1])
	case "<=":
		return t.Le(a[0], a[1])
	case "<":
		return t.Lt(a[0], a[1])
	case "+":
		r := a[0]
		for _, b := range a[1:] {
			r = t.Add(r, b)
		}
		return r
	case "*":
		return t.Mul(a[0], a[1])
	case "div":
		return t.Div(a[0], a[1])
	case "mod":
		return t.Mod(a[0], a[1])
	case "select":
		return t.Select(a[0], a[1])
	case "store":
		return t.Store(a[0], a[1], a[2])
	case "app:mul":
		return t.Mul(a[0], a[1])
	case "forall", "exists":
		n := len(a) - 1
		var pats [][]*Term
		for _, p := range x.pats {
			var q []*Term
			for _, y := range p {
				q = append(q, rec(y))
			}
			pats = append(pats, q)
		}
		return t.Quant(x.op, a[:n], a[n], pats)
	}
	if x.sort.isBV() || a[0].sort.isBV() {
		return t.bvop2(x, a)
	}
	return t.mk(x.op, x.name, x.sort, a...)
}

func (t *TermTable) bvop2(x *Term, a []*Term) *Term {
	if strings.HasPrefix(x.op, "bv") {
		return t.bvop(x.op, x.sort, a...)
	}
	return t.mk(x.op, x.name, x.sort, a...)
}

func (x *Term) String() string {
	s := pp(x, 8)
	return s
}

func pp(x *Term, d int) string {
	if d == 0 {
		return fmt.Sprintf("#%d", x.id)
	}
	switch x.op {
	case "const", "bound", "num", "bv", "real":
		return x.name
	case "strlit":
		return strconv.Quote(x.name)
	}
	if len(x.args) == 0 {
		return x.op
	}
	var b strings.Builder
	b.WriteString("(" + x.op)
	for _, a := range x.args {
		b.WriteByte(' ')
		b.WriteString(pp(a, d-1))
	}
	b.WriteByte(')')
	return b.String()
}
