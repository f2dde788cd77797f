package main

import (
	"fmt"
	"math/big"
	"strconv"
	"strings"
)

// SMT-LIB printing.

type printer struct {
	e       *Engine
	out     *strings.Builder
	defs    map[*Term]string // closed shared subterms already defined
	decl    map[string]bool
	ifcDone bool
	n       int
	refs    map[*Term]int
}

func (p *printer) symName(x *Term) string { return "|" + x.name + "|" }

func numLit(s string) string {
	if strings.HasPrefix(s, "-") {
		return "(- " + s[1:] + ")"
	}
	return s
}

func realLit(s string) string {
	r, _ := new(big.Rat).SetString(s)
	neg := r.Sign() < 0
	r.Abs(r)
	var t string
	if r.IsInt() {
		t = r.Num().String() + ".0"
	} else {
		t = "(/ " + r.Num().String() + ".0 " + r.Denom().String() + ".0)"
	}
	if neg {
		return "(- " + t + ")"
	}
	return t
}

// collect declares everything a term needs.
func (p *printer) declare(x *Term, seen map[*Term]bool) {
	if seen[x] {
		return
	}
	seen[x] = true
	for _, a := range x.args {
		p.declare(a, seen)
	}
	for _, ps := range x.pats {
		for _, y := range ps {
			p.declare(y, seen)
		}
	}
	switch {
	case x.op == "const":
		if !p.decl["c:"+x.name] {
			p.decl["c:"+x.name] = true
			fmt.Fprintf(p.out, "(declare-fun %s () %s)\n", p.symName(x), x.sort)
		}
	case x.op == "strlit":
		k := "s:" + x.name
		if !p.decl[k] {
			p.decl[k] = true
			fmt.Fprintf(p.out, "(declare-fun %s () Str)\n", strLitName(p.e, x))
		}
	case strings.HasPrefix(x.op, "app:"):
		f := x.op[4:]
		if !p.decl["f:"+f] {
			p.decl["f:"+f] = true
			u := p.e.tt.ufs[f]
			var as []string
			for _, s := range u.args {
				as = append(as, string(s))
			}
			fmt.Fprintf(p.out, "(declare-fun %s (%s) %s)\n", f, strings.Join(as, " "), u.ret)
		}
	}
}

func strLitName(e *Engine, x *Term) string { return "str" + strconv.Itoa(x.id) }

// countRefs counts uses of closed composite subterms.
func (p *printer) countRefs(x *Term) {
	p.refs[x]++
	if p.refs[x] > 1 {
		return
	}
	for _, a := range x.args {
		p.countRefs(a)
	}
	for _, ps := range x.pats {
		for _, y := range ps {
			p.countRefs(y)
		}
	}
}

// prepare emits define-funs for shared closed subterms (post-order).
func (p *printer) prepare(x *Term, seen map[*Term]bool) {
	if seen[x] || p.defs[x] != "" {
		return
	}
	seen[x] = true
	for _, a := range x.args {
		p.prepare(a, seen)
	}
	for _, ps := range x.pats {
		for _, y := range ps {
			p.prepare(y, seen)
		}
	}
	if len(x.args) == 0 || x.hasBnd || p.refs[x] < 2 {
		return
	}
	if x.op == "not" && len(x.args[0].args) == 0 {
		return
	}
	s := p.str(x)
	if len(s) < 24 {
		return
	}
	p.n++
	nm := fmt.Sprintf("$d%d", p.n)
	fmt.Fprintf(p.out, "(define-fun %s () %s %s)\n", nm, x.sort, s)
	p.defs[x] = nm
}

func (p *printer) str(x *Term) string {
	var b strings.Builder
	p.write(&b, x, nil)
	return b.String()
}

func (p *printer) write(b *strings.Builder, x *Term, lets map[*Term]string) {
	if nm, ok := p.defs[x]; ok {
		b.WriteString(nm)
		return
	}
	if lets != nil {
		if nm, ok := lets[x]; ok {
			b.WriteString(nm)
			return
		}
	}
	switch {
	case x.op == "const":
		b.WriteString(p.symName(x))
		return
	case x.op == "bound":
		b.WriteString("|" + x.name + "|")
		return
	case x.op == "num":
		b.WriteString(numLit(x.name))
		return
	case x.op == "real":
		b.WriteString(realLit(x.name))
		return
	case x.op == "bv":
		fmt.Fprintf(b, "(_ bv%s %d)", x.name, x.sort.bvWidth())
		return
	case x.op == "strlit":
		b.WriteString(strLitName(p.e, x))
		return
	case x.op == "true" || x.op == "false":
		b.WriteString(x.op)
		return
	case x.op == "box:nil":
		b.WriteString("ifnil")
		return
	case x.op == "constarr":
		fmt.Fprintf(b, "((as const %s) ", x.sort)
		p.write(b, x.args[0], lets)
		b.WriteString(")")
		return
	case x.op == "forall" || x.op == "exists":
		n := len(x.args) - 1
		b.WriteString("(" + x.op + " (")
		for _, v := range x.args[:n] {
			fmt.Fprintf(b, "(|%s| %s)", v.name, v.sort)
		}
		b.WriteString(") ")
		hasPat := false
		for _, ps := range x.pats {
			if len(ps) > 0 {
				hasPat = true
			}
		}
		if hasPat {
			b.WriteString("(! ")
		}
		p.writeLet(b, x.args[n])
		if hasPat {
			for _, ps := range x.pats {
				b.WriteString(" :pattern (")
				for i, y := range ps {
					if i > 0 {
						b.WriteString(" ")
					}
					p.write(b, y, nil)
				}
				b.WriteString(")")
			}
			b.WriteString(")")
		}
		b.WriteString(")")
		return
	}
	op := x.op
	switch {
	case strings.HasPrefix(op, "app:"):
		op = op[4:]
	case strings.HasPrefix(op, "box:"):
		op = "mk" + op[4:]
	case strings.HasPrefix(op, "isbox:"):
		op = "(_ is mk" + op[6:] + ")"
	case strings.HasPrefix(op, "unbox:"):
		op = "get" + strings.ReplaceAll(op[6:], ":", "_")
	case strings.HasPrefix(op, "zext:"):
		op = "(_ zero_extend " + op[5:] + ")"
	case strings.HasPrefix(op, "extract:"):
		op = "(_ extract " + op[8:] + " 0)"
	case strings.HasPrefix(op, "int2bv:"):
		op = "(_ int2bv " + op[7:] + ")"
	}
	if len(x.args) == 0 {
		b.WriteString(op)
		return
	}
	b.WriteString("(" + op)
	for _, a := range x.args {
		b.WriteByte(' ')
		p.write(b, a, lets)
	}
	b.WriteByte(')')
}

// writeLet prints an open term sharing repeated open subterms by nested lets.
func (p *printer) writeLet(b *strings.Builder, x *Term) {
	cnt := map[*Term]int{}
	var order []*Term
	var walk func(y *Term)
	walk = func(y *Term) {
		cnt[y]++
		if cnt[y] > 1 {
			return
		}
		if p.defs[y] != "" || y.op == "forall" || y.op == "exists" {
			return
		}
		for _, a := range y.args {
			walk(a)
		}
		if len(y.args) > 0 {
			order = append(order, y)
		}
	}
	walk(x)
	lets := map[*Term]string{}
	closes := 0
	for _, y := range order {
		if cnt[y] < 2 || y == x {
			continue
		}
		p.n++
		nm := fmt.Sprintf("?l%d", p.n)
		b.WriteString("(let ((" + nm + " ")
		p.write(b, y, lets)
		b.WriteString(")) ")
		lets[y] = nm
		closes++
	}
	p.write(b, x, lets)
	b.WriteString(strings.Repeat(")", closes))
}

// prelude: sorts and background theory of the used symbols.
func (e *Engine) prelude(p *printer) {
	o := p.out
	o.WriteString("(declare-sort Str 0)\n")
	// interface values
	o.WriteString("(declare-datatypes ((Iface 0)) ((")
	o.WriteString("(ifnil)")
	for _, bx := range e.tt.ifc.order {
		fmt.Fprintf(o, " (mk%d", bx.id)
		for k, s := range bx.sort {
			fmt.Fprintf(o, " (get%d_%d %s)", bx.id, k, s)
		}
		o.WriteString(")")
	}
	o.WriteString(" (mkother (otherid Int))")
	o.WriteString(")))\n")
	e.declareKeys(p)
}

func (e *Engine) hasUF(f string) bool { _, ok := e.tt.ufs[f]; return ok }

// backgroundAxioms: axioms of the uninterpreted symbols in use, as text (the symbols are declared here).
func (e *Engine) backgroundAxioms(p *printer) {
	o := p.out
	need := func(fs ...string) {
		sig := map[string]string{
			"plain": "(Str) Bool", "mul": "(Int Int) Int", "idiv": "(Int Int) Int", "imod": "(Int Int) Int",
			"slen": "(Str) Int", "sat": "(Str Int) Int", "concat": "(Str Str) Str", "substr": "(Str Int Int) Str",
			"gcount": "(Str) Int", "grow": "(Str) (Array Int Str)", "swidth": "(Str) Int", "sbytes": "(Str) (Array Int Int)",
			"mkstr": "((Array Int Int) Int Int) Str", "rcount": "(Str) Int", "srunes": "(Str) (Array Int Int)", "mkrunestr": "((Array Int Int) Int Int) Str",
			"rune2str": "(Int) Str",
		}
		for _, f := range fs {
			if !p.decl["f:"+f] {
				p.decl["f:"+f] = true
				o.WriteString("(declare-fun " + f + " " + sig[f] + ")\n")
			}
		}
	}
	if e.hasUF("mul") || e.hasUF("idiv") || e.hasUF("imod") {
		need("mul")
		o.WriteString(`(assert (forall ((a Int) (b Int)) (! (= (mul a b) (mul b a)) :pattern ((mul a b)))))
(assert (forall ((a Int) (b Int)) (! (=> (and (<= 0 a) (<= 0 b)) (<= 0 (mul a b))) :pattern ((mul a b)))))
(assert (forall ((a Int) (b Int)) (! (=> (or (= a 0) (= b 0)) (= 0 (mul a b))) :pattern ((mul a b)))))
(assert (forall ((a Int) (b Int)) (! (=> (= a 1) (= b (mul a b))) :pattern ((mul a b)))))
(assert (forall ((a Int) (b Int)) (! (=> (and (< 0 a) (< 0 b)) (and (<= a (mul a b)) (<= b (mul a b)))) :pattern ((mul a b)))))
(assert (forall ((a Int) (b Int) (c Int)) (! (=> (and (< a c) (<= 0 b)) (<= (+ (mul a b) b) (mul c b))) :pattern ((mul a b) (mul c b)))))
(assert (forall ((a Int) (b Int) (c Int)) (! (=> (= c (+ a 1)) (= (mul c b) (+ (mul a b) b))) :pattern ((mul a b) (mul c b)))))
`)
	}
	if e.hasUF("idiv") || e.hasUF("imod") {
		need("idiv", "imod")
		o.WriteString(`(assert (forall ((a Int) (b Int)) (! (=> (< 0 b) (and (= a (+ (mul (idiv a b) b) (imod a b))) (<= 0 (imod a b)) (< (imod a b) b))) :pattern ((idiv a b)))))
(assert (forall ((a Int) (b Int)) (! (=> (< 0 b) (and (= a (+ (mul (idiv a b) b) (imod a b))) (<= 0 (imod a b)) (< (imod a b) b))) :pattern ((imod a b)))))
(assert (forall ((a Int) (b Int)) (! (=> (and (< 0 b) (<= 0 a)) (and (<= 0 (idiv a b)) (<= (idiv a b) a))) :pattern ((idiv a b)))))
(assert (forall ((a Int) (b Int) (q Int)) (! (=> (and (< 0 b) (<= (mul q b) a) (< a (+ (mul q b) b))) (= q (idiv a b))) :pattern ((idiv a b) (mul q b)))))
`)
	}
	strs := false
	for _, f := range []string{"slen", "sat", "concat", "substr", "gcount", "grow", "swidth", "sbytes", "mkstr", "rcount", "srunes", "mkrunestr", "rune2str"} {
		if e.hasUF(f) {
			strs = true
		}
	}
	if !strs && len(e.tt.strOrd) == 0 {
		return
	}
	need("slen")
	o.WriteString("(assert (forall ((s Str)) (! (<= 0 (slen s)) :pattern ((slen s)))))\n")
	empty := e.tt.StrLit("")
	p.declare(empty, map[*Term]bool{})
	en := strLitName(e, empty)
	fmt.Fprintf(o, "(assert (forall ((s Str)) (! (=> (= 0 (slen s)) (= s %s)) :pattern ((slen s)))))\n", en)
	if e.hasUF("sat") || e.hasUF("sbytes") {
		need("sat")
		o.WriteString("(assert (forall ((s Str) (i Int)) (! (and (<= 0 (sat s i)) (< (sat s i) 256)) :pattern ((sat s i)))))\n")
	}
	if e.hasUF("sbytes") {
		need("sbytes", "sat")
		o.WriteString("(assert (forall ((s Str) (i Int)) (! (=> (and (<= 0 i) (< i (slen s))) (= (select (sbytes s) i) (sat s i))) :pattern ((select (sbytes s) i)))))\n")
	}
	if e.hasUF("concat") {
		o.WriteString("(declare-fun concat (Str Str) Str)\n")
		p.decl["f:concat"] = true
		o.WriteString("(assert (forall ((s Str) (t Str)) (! (= (slen (concat s t)) (+ (slen s) (slen t))) :pattern ((concat s t)))))\n")
		fmt.Fprintf(o, "(assert (forall ((s Str)) (! (= (concat s %s) s) :pattern ((concat s %s)))))\n", en, en)
		fmt.Fprintf(o, "(assert (forall ((s Str)) (! (= (concat %s s) s) :pattern ((concat %s s)))))\n", en, en)
		o.WriteString("(assert (forall ((s Str) (t Str) (u Str)) (! (= (concat (concat s t) u) (concat s (concat t u))) :pattern ((concat (concat s t) u)))))\n")
		if e.hasUF("sat") {
			o.WriteString("(assert (forall ((s Str) (t Str) (i Int)) (! (=> (and (<= 0 i) (< i (+ (slen s) (slen t)))) (= (sat (concat s t) i) (ite (< i (slen s)) (sat s i) (sat t (- i (slen s)))))) :pattern ((sat (concat s t) i)))))\n")
		}
	}
	if e.hasUF("substr") {
		need("substr")
		o.WriteString("(assert (forall ((s Str) (a Int) (b Int)) (! (=> (and (<= 0 a) (<= a b) (<= b (slen s))) (= (slen (substr s a b)) (- b a))) :pattern ((substr s a b)))))\n")
		o.WriteString("(assert (forall ((s Str) (a Int) (b Int)) (! (=> (and (= 0 a) (= b (slen s))) (= (substr s a b) s)) :pattern ((substr s a b)))))\n")
		if e.hasUF("sat") {
			o.WriteString("(assert (forall ((s Str) (a Int) (b Int) (i Int)) (! (=> (and (<= 0 a) (<= a b) (<= b (slen s)) (<= 0 i) (< i (- b a))) (= (sat (substr s a b) i) (sat s (+ a i)))) :pattern ((sat (substr s a b) i)))))\n")
		}
	}
	if e.hasUF("mkstr") {
		need("mkstr")
		o.WriteString("(assert (forall ((r (Array Int Int)) (a Int) (n Int)) (! (=> (<= 0 n) (= (slen (mkstr r a n)) n)) :pattern ((mkstr r a n)))))\n")
		if e.hasUF("sat") || e.hasUF("sbytes") {
			need("sat")
			o.WriteString("(assert (forall ((r (Array Int Int)) (a Int) (n Int) (i Int)) (! (=> (and (<= 0 i) (< i n) (<= 0 (select r (+ a i))) (< (select r (+ a i)) 256)) (= (sat (mkstr r a n) i) (select r (+ a i)))) :pattern ((sat (mkstr r a n) i)))))\n")
		}
		if e.hasUF("sbytes") {
			o.WriteString("(assert (forall ((s Str)) (! (= (mkstr (sbytes s) 0 (slen s)) s) :pattern ((sbytes s)))))\n")
		}
	}
	if e.hasUF("swidth") {
		need("swidth")
		o.WriteString("(assert (forall ((s Str)) (! (<= 0 (swidth s)) :pattern ((swidth s)))))\n")
		fmt.Fprintf(o, "(assert (= 0 (swidth %s)))\n", en)
	}
	if e.hasUF("gcount") || e.hasUF("grow") {
		need("gcount", "grow")
		o.WriteString("(assert (forall ((s Str)) (! (and (<= 0 (gcount s)) (<= (gcount s) (slen s))) :pattern ((gcount s)))))\n")
		o.WriteString("(assert (forall ((s Str) (i Int)) (! (=> (and (<= 0 i) (< i (gcount s))) (and (< 0 (slen (select (grow s) i))) (<= (slen (select (grow s) i)) (slen s)))) :pattern ((select (grow s) i)))))\n")
		fmt.Fprintf(o, "(assert (= 0 (gcount %s)))\n", en)
		o.WriteString("(assert (forall ((s Str)) (! (=> (< 0 (slen s)) (< 0 (gcount s))) :pattern ((gcount s)))))\n")
		o.WriteString("(assert (forall ((s Str) (i Int)) (! (=> (and (<= 0 i) (< i (gcount s))) (and (= 1 (gcount (select (grow s) i))) (= (select (grow (select (grow s) i)) 0) (select (grow s) i)))) :pattern ((gcount (select (grow s) i))))))\n")
	}
	if e.hasUF("plain") {
		need("plain", "swidth", "gcount", "slen")
		o.WriteString("(assert (forall ((s Str)) (! (=> (plain s) (and (<= 1 (swidth s)) (= 1 (gcount s)) (< 0 (slen s)))) :pattern ((plain s)))))\n")
	}
	// literals
	for _, s := range e.tt.strOrd {
		x := e.tt.strs[s]
		p.declare(x, map[*Term]bool{})
		fmt.Fprintf(o, "(assert (= (slen %s) %d))\n", strLitName(e, x), len(s))
		if e.hasUF("sat") && len(s) <= 64 {
			need("sat")
			for i := 0; i < len(s); i++ {
				fmt.Fprintf(o, "(assert (= (sat %s %d) %d))\n", strLitName(e, x), i, s[i])
			}
		}
		if w, ok := asciiWidth(s); ok && e.hasUF("swidth") {
			fmt.Fprintf(o, "(assert (= (swidth %s) %d))\n", strLitName(e, x), w)
		}
		if n, ok := asciiWidth(s); ok && e.hasUF("gcount") {
			fmt.Fprintf(o, "(assert (= (gcount %s) %d))\n", strLitName(e, x), n)
			if n == 1 {
				fmt.Fprintf(o, "(assert (= (select (grow %s) 0) %s))\n", strLitName(e, x), strLitName(e, x))
			}
		}
	}
	if len(e.tt.strOrd) > 1 {
		o.WriteString("(assert (distinct")
		for _, s := range e.tt.strOrd {
			o.WriteString(" " + strLitName(e, e.tt.strs[s]))
		}
		o.WriteString("))\n")
	}
}

// strIfDeclared prints a term unless it mentions something the script does not declare.
func (p *printer) strIfDeclared(x *Term) string {
	ok := true
	seen := map[*Term]bool{}
	var walk func(x *Term)
	walk = func(x *Term) {
		if seen[x] || !ok {
			return
		}
		seen[x] = true
		switch {
		case x.op == "const" && !p.decl["c:"+x.name], x.op == "strlit" && !p.decl["s:"+x.name], strings.HasPrefix(x.op, "app:") && !p.decl["f:"+x.op[4:]]:
			ok = false
		}
		for _, a := range x.args {
			walk(a)
		}
	}
	walk(x)
	if !ok {
		return ""
	}
	return p.str(x)
}
