package main

import (
	"fmt"
	"os"
	"os/exec"
	"strings"
	"sync/atomic"
	"time"
)

// Bit-vector goals. A goal about bits is tried on its own: every maximal subterm that is neither a
// Boolean connective nor a bit-vector operation becomes a free variable, and assumptions with
// quantifiers are left out. Both only weaken what is assumed, so an unsatisfiable answer stands.

type bvAbs struct {
	e    *Engine
	memo map[*Term]*Term
}

func (b *bvAbs) term(x *Term) *Term {
	if r, ok := b.memo[x]; ok {
		return r
	}
	r := b.rec(x)
	b.memo[x] = r
	return r
}

func (b *bvAbs) rec(x *Term) *Term {
	tt := b.e.tt
	logic := func(s Sort) bool { return s == SBool || s.isBV() }
	open := false
	switch x.op {
	case "const", "bv", "true", "false":
		return x
	case "not", "and", "or", "=>", "xor":
		open = true
	case "ite", "=":
		open = logic(x.args[len(x.args)-1].sort)
	default:
		open = strings.HasPrefix(x.op, "bv")
		for _, a := range x.args {
			open = open && a.sort.isBV()
		}
	}
	if !open {
		return tt.sym("abs", x.sort)
	}
	args := make([]*Term, len(x.args))
	ch := false
	for i, a := range x.args {
		args[i] = b.term(a)
		ch = ch || args[i] != a
	}
	if !ch {
		return x
	}
	return tt.rebuild(x, args, nil)
}

// aboutBits: what the goal concludes is a fact about bits.
func aboutBits(x *Term) bool {
	switch x.op {
	case "=>":
		return aboutBits(x.args[1])
	case "and", "or", "not":
		for _, a := range x.args {
			if aboutBits(a) {
				return true
			}
		}
		return false
	}
	return len(x.args) > 0 && x.args[0].sort.isBV()
}

// bvProve tries an obligation as a problem about bits, with the given invariants assumed. A candidate
// counterexample is put to the solver of the whole theory: when the conditions it chooses contradict
// the assumptions, the contradictory ones are excluded and the search goes on.
func (e *Engine) bvProve(prefix int, cands []*Cand, goal *Term, theory func() (*session, func(*Term) string), limit time.Duration) bool {
	if !aboutBits(goal) {
		return false
	}
	deadline := time.Now().Add(limit)
	b := &bvAbs{e: e, memo: map[*Term]*Term{}}
	for _, c := range cands {
		b.memo[c.lit] = e.tt.True()
	}
	var as, about []*Term
	for _, a := range e.assumes[:prefix] {
		if t := b.term(a); !t.isTrue() && a.op != "forall" {
			as = append(as, t)
			if aboutBits(a) {
				about = append(about, t)
			}
		}
	}
	g := b.term(goal)
	origin := map[*Term]*Term{}
	for x, y := range b.memo {
		if y.op == "const" && (y.sort == SBool || y.sort.isBV()) && !y.hasBnd {
			origin[y] = x
		}
	}
	var atoms, opaque []*Term
	seenA := map[*Term]bool{}
	var collect func(x *Term)
	collect = func(x *Term) {
		if seenA[x] {
			return
		}
		seenA[x] = true
		if x.op == "const" && origin[x] != nil {
			if x.sort == SBool {
				atoms = append(atoms, x)
			} else if origin[x] != x {
				opaque = append(opaque, x)
			}
		}
		for _, a := range x.args {
			collect(a)
		}
	}
	collect(g)
	for _, a := range about {
		collect(a)
	}
	var o strings.Builder
	p := &printer{e: e, out: &o, defs: map[*Term]string{}, decl: map[string]bool{}, refs: map[*Term]int{}}
	seen, ps := map[*Term]bool{}, map[*Term]bool{}
	all := append(append([]*Term{}, as...), g)
	for _, a := range all {
		p.declare(a, seen)
	}
	for _, a := range all {
		p.countRefs(a)
	}
	for _, a := range all {
		p.prepare(a, ps)
	}
	for _, a := range as {
		fmt.Fprintf(&o, "(assert %s)\n", p.str(a))
	}
	fmt.Fprintf(&o, "(assert (not %s))\n", p.str(g))
	sa, err := startZ3("z3", "-in")
	if err != nil {
		return false
	}
	defer sa.close()
	sa.send("(set-option :produce-models true)\n(set-option :timeout 1500)\n" + o.String())
	var sb *session
	defer func() {
		if sb != nil {
			sb.close()
		}
	}()
	var names []string
	for _, a := range atoms {
		names = append(names, p.str(a))
	}
	// which of the opaque values are equal is for the whole theory to say
	sources := map[int][2]*Term{}
	for i, x := range opaque {
		for _, y := range opaque[:i] {
			if x.sort == y.sort && len(opaque) <= 8 {
				sources[len(atoms)] = [2]*Term{origin[x], origin[y]}
				names = append(names, "(= "+p.str(x)+" "+p.str(y)+")")
				atoms = append(atoms, nil)
			}
		}
	}
	for n := 0; time.Now().Before(deadline) && n < 400; n++ {
		sa.send("(check-sat)\n")
		atomic.AddInt64(&solverCalls, 1)
		ans := sa.line()
		if os.Getenv("GOVC_BV") != "" {
			fmt.Fprintln(os.Stderr, "  bits:", n, ans, len(atoms))
		}
		if ans == "unknown" {
			// the incremental solver has no preprocessing
			c := exec.Command("z3", "-in", "-T:10")
			c.Stdin = strings.NewReader(o.String() + "(check-sat)\n")
			return strings.HasPrefix(strings.TrimSpace(string(bounded(c, 10*time.Second))), "unsat")
		}
		if ans != "sat" || len(atoms) == 0 {
			return ans == "unsat"
		}
		sa.send("(get-value (" + strings.Join(names, " ") + "))\n")
		vals := parseValues(sa.sexp())
		if len(vals) != len(atoms) {
			return false
		}
		if sb == nil {
			var str func(*Term) string
			sb, str = theory()
			if sb == nil {
				return false
			}
			for i, a := range atoms {
				var d string
				if a != nil {
					d = str(origin[a])
				} else {
					d = "(= " + str(sources[i][0]) + " " + str(sources[i][1]) + ")"
				}
				sb.send(fmt.Sprintf("(declare-fun bit$%d () Bool)\n(assert (= bit$%d %s))\n", i, i, d))
			}
		}
		var lits []string
		val := map[string]bool{}
		for i := range atoms {
			if vals[i] == nil {
				return false
			}
			l := fmt.Sprintf("bit$%d", i)
			val[l] = *vals[i] == 1
			if val[l] {
				lits = append(lits, l)
			} else {
				lits = append(lits, "(not "+l+")")
			}
		}
		sb.send("(check-sat-assuming (" + strings.Join(lits, " ") + "))\n")
		atomic.AddInt64(&solverCalls, 1)
		if ans = sb.line(); ans != "unsat" {
			if os.Getenv("GOVC_BV") != "" {
				fmt.Fprintln(os.Stderr, "  bits: theory says", ans, lits)
				for i, a := range atoms {
					if a != nil {
						fmt.Fprintln(os.Stderr, "    ", i, a.name, p2s(e, origin[a]))
					} else {
						fmt.Fprintln(os.Stderr, "    ", i, "eq", p2s(e, sources[i][0]), "AND", p2s(e, sources[i][1]))
					}
				}
				_ = os.WriteFile("/tmp/bvgoal.smt2", []byte(o.String()), 0o644)
			}
			return false
		}
		sb.send("(get-unsat-core)\n")
		var cl strings.Builder
		for _, f := range strings.Fields(strings.NewReplacer("(", " ", ")", " ").Replace(sb.sexp())) {
			var i int
			if k, _ := fmt.Sscanf(f, "bit$%d", &i); k == 1 {
				if val[f] {
					fmt.Fprintf(&cl, " (not %s)", names[i])
				} else {
					fmt.Fprintf(&cl, " %s", names[i])
				}
			}
		}
		if os.Getenv("GOVC_BV") != "" {
			fmt.Fprintln(os.Stderr, "  bits: exclude", cl.String())
		}
		sa.send("(assert (or false" + cl.String() + "))\n")
		o.WriteString("(assert (or false" + cl.String() + "))\n")
	}
	return false
}

func p2s(e *Engine, t *Term) string {
	p := &printer{e: e, out: &strings.Builder{}, defs: map[*Term]string{}, decl: map[string]bool{}, refs: map[*Term]int{}}
	r := p.str(t)
	if len(r) > 200 {
		r = r[:200]
	}
	return r
}
