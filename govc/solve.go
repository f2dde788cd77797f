package main

import (
	"bufio"
	"bytes"
	"fmt"
	"go/types"
	"io"
	"os"
	"os/exec"
	"path/filepath"
	"strings"
	"sync/atomic"
	"time"
)

type session struct {
	cmd    *exec.Cmd
	in     io.WriteCloser
	out    *bufio.Reader
	log    *strings.Builder
	dead   bool
	killed atomic.Bool   // by the watchdog
	limit  time.Duration // for one exchange; solvers do not always keep their own limits
}

// stopAt ends the work of the solvers: what is not decided by then is unknown.
var stopAt time.Time

func expired() bool { return !stopAt.IsZero() && time.Now().After(stopAt) }

// within shortens d so that it ends before stopAt.
func within(d time.Duration) time.Duration {
	if !stopAt.IsZero() {
		if u := time.Until(stopAt); u < d {
			d = max(u, time.Second)
		}
	}
	return d
}

// guard kills the solver when an exchange takes too long.
func (s *session) guard() *time.Timer {
	l := s.limit
	if l == 0 {
		l = time.Duration(patience) * 60 * time.Second
	}
	return time.AfterFunc(within(l), func() {
		s.killed.Store(true)
		s.cmd.Process.Kill()
	})
}

// bounded runs a solver on a script and kills it when it does not keep its limit.
func bounded(c *exec.Cmd, d time.Duration) []byte {
	var o bytes.Buffer
	c.Stdout = &o
	if c.Start() != nil {
		return nil
	}
	t := time.AfterFunc(within(d)+2*time.Second, func() { c.Process.Kill() })
	c.Wait()
	t.Stop()
	return o.Bytes()
}

func startZ3(bin string, args ...string) (*session, error) {
	c := exec.Command(bin, args...)
	in, err := c.StdinPipe()
	if err != nil {
		return nil, err
	}
	out, err := c.StdoutPipe()
	if err != nil {
		return nil, err
	}
	if err := c.Start(); err != nil {
		return nil, err
	}
	return &session{cmd: c, in: in, out: bufio.NewReaderSize(out, 1<<20)}, nil
}

func (s *session) send(t string) {
	if s.log != nil {
		s.log.WriteString(t)
	}
	if s.dead {
		return
	}
	defer s.guard().Stop()
	if _, err := io.WriteString(s.in, t); err != nil {
		s.dead = true
	}
}

// line reads one answer line.
func (s *session) line() string {
	defer s.guard().Stop()
	for {
		l, err := s.out.ReadString('\n')
		if err != nil {
			s.dead = true
			if s.killed.Load() {
				return "unknown"
			}
			return "error: " + err.Error()
		}
		l = strings.TrimSpace(l)
		if l == "" {
			continue
		}
		return l
	}
}

// sexp reads one balanced s-expression.
func (s *session) sexp() string {
	defer s.guard().Stop()
	var b strings.Builder
	d := 0
	for {
		l, err := s.out.ReadString('\n')
		if err != nil {
			s.dead = true
			return b.String()
		}
		b.WriteString(l)
		q := false
		for _, c := range l {
			switch c {
			case '|':
				q = !q
			case '(':
				if !q {
					d++
				}
			case ')':
				if !q {
					d--
				}
			}
		}
		if d <= 0 && strings.TrimSpace(b.String()) != "" {
			return b.String()
		}
	}
}

func (s *session) close() {
	s.in.Close()
	s.cmd.Process.Kill()
	s.cmd.Wait()
}

var solverCalls, solverMS int64

const z3opts = `(set-option :auto_config false)
(set-option :smt.mbqi false)
(set-option :smt.random_seed 1)
`

// base builds declarations, definitions and background; afterwards terms print without further set-up.
func (e *Engine) baseScript(goals []*Term) *printer {
	var o strings.Builder
	p := &printer{e: e, out: &o, defs: map[*Term]string{}, decl: map[string]bool{}, refs: map[*Term]int{}}
	e.prelude(p)
	e.backgroundAxioms(p)
	seen := map[*Term]bool{}
	var all []*Term
	all = append(all, e.axioms...)
	all = append(all, e.background...)
	all = append(all, e.assumes...)
	all = append(all, goals...)
	for _, a := range all {
		p.declare(a, seen)
	}
	for _, c := range e.cands {
		p.declare(c.lit, seen)
	}
	for _, a := range all {
		p.countRefs(a)
	}
	ps := map[*Term]bool{}
	for _, a := range all {
		p.prepare(a, ps)
	}
	for _, a := range e.axioms {
		fmt.Fprintf(&o, "(assert %s)\n", p.str(a))
	}
	for _, a := range e.background {
		fmt.Fprintf(&o, "(assert %s)\n", p.str(a))
	}
	return p
}

type Result struct {
	spec     *SpecFn
	err      error
	obls     []*Obl // non-candidate obligations
	proved   int
	failed   []*Obl
	trivial  int
	invs     int
	invDesc  []string
	solverMS int64
	notes    []string
	reach    []string
	used     []string
	byKind   map[string]int
	bySolver map[string]int
	vacuous  bool
	wall     time.Duration
	hints    []map[string]int64
	consts   []int
	smt      []string
	size     int
}

func (e *Engine) solve(res *Result, tlim time.Duration) {
	t0 := time.Now()
	var goals []*Term
	for _, o := range e.obls {
		goals = append(goals, o.goal)
	}
	p := e.baseScript(goals)
	base := z3opts + p.out.String()
	res.size = len(base)

	var asserted []string
	for _, a := range e.assumes {
		asserted = append(asserted, "(assert "+p.str(a)+")\n")
	}
	neg := make([]string, len(e.obls))
	for i, o := range e.obls {
		neg[i] = "(assert (not " + p.str(o.goal) + "))\n"
	}
	quick := 3000
	if q := os.Getenv("GOVC_QUICK"); q != "" {
		fmt.Sscan(q, &quick)
	}

	dump := func(name, s string) {
		if d := os.Getenv("GOVC_DUMP"); d != "" {
			os.MkdirAll(d, 0o755)
			os.WriteFile(filepath.Join(d, sanitize(e.spec.name)+"_"+name+".smt2"), []byte(s), 0o644)
		}
	}

	// --- Houdini
	core := map[*Obl]map[*Cand]bool{}
	var alive func() []*Cand
	alive = func() []*Cand {
		var r []*Cand
		for _, c := range e.cands {
			if c.alive {
				r = append(r, c)
			}
		}
		return r
	}
	lits := func(cs []*Cand) string {
		var b strings.Builder
		for _, c := range cs {
			b.WriteString(" " + p.symName(c.lit))
		}
		return b.String()
	}
	candOf := map[string]*Cand{}
	for _, c := range e.cands {
		candOf[c.lit.name] = c
	}
	deadline := time.Now().Add(tlim)
	candTO := patience * envInt("GOVC_CT", 4000)
	retry := time.Duration(patience) * 60 * time.Second
	theory := func(prefix int) func() (*session, func(*Term) string) {
		return func() (*session, func(*Term) string) {
			s, err := startZ3("z3", "-in")
			if err != nil {
				return nil, nil
			}
			s.send("(set-option :produce-unsat-cores true)\n" + base)
			s.send(fmt.Sprintf("(set-option :timeout %d)\n", candTO))
			for _, c := range alive() {
				s.send("(assert " + p.symName(c.lit) + ")\n")
			}
			s.send(strings.Join(asserted[:prefix], ""))
			return s, p.str
		}
	}
	round := 0
	for {
		round++
		var s *session
		done := 0
		killed := 0
		checked := 0
		for i, o := range e.obls {
			if o.cand == nil || !o.cand.alive {
				continue
			}
			if cs, ok := core[o]; ok {
				still := true
				for c := range cs {
					if !c.alive {
						still = false
					}
				}
				if still {
					continue
				}
			}
			if s == nil {
				var err error
				s, err = startZ3("z3", "-in")
				if err != nil {
					res.err = err
					return
				}
				s.send("(set-option :produce-unsat-cores true)\n" + base)
				s.send(fmt.Sprintf("(set-option :timeout %d)\n(set-option :rlimit %d)\n", candTO, patience*envInt("GOVC_RL", 2500000)))
			}
			for ; done < o.prefix; done++ {
				s.send(asserted[done])
			}
			if expired() {
				o.cand.alive = false
				killed++
				continue
			}
			checked++
			s.send("(push)\n" + neg[i] + "(check-sat-assuming (" + lits(alive()) + "))\n")
			ts := time.Now()
			ans := s.line()
			atomic.AddInt64(&solverCalls, 1)
			atomic.AddInt64(&solverMS, time.Since(ts).Milliseconds())
			if time.Now().After(deadline) {
				ans = "unknown"
			}
			if ans == "unknown" && strings.HasPrefix(o.cand.desc, "template ") && retry > 0 {
				tr := time.Now()
				cs := alive()
				if e.bvProve(o.prefix, cs, o.goal, theory(o.prefix), time.Duration(patience)*40*time.Second) {
					m := map[*Cand]bool{}
					for _, c := range cs {
						m[c] = true
					}
					core[o] = m
					ans = "retried"
				}
				retry -= time.Since(tr)
			}
			if ans == "unknown" && strings.HasPrefix(o.cand.desc, "template ") && retry > 0 {
				// a session that has grown incrementally may miss what a fresh one finds
				tr := time.Now()
				var all strings.Builder
				cs := alive()
				for _, c := range cs {
					all.WriteString("(assert " + p.symName(c.lit) + ")\n")
				}
				if oneShot(p.out.String()+strings.Join(asserted[:done], "")+all.String()+neg[i]+"(check-sat)\n", 2*int(patience)) {
					m := map[*Cand]bool{}
					for _, c := range cs {
						m[c] = true
					}
					core[o] = m
					ans = "retried"
				}
				retry -= time.Since(tr)
			}
			if ans == "retried" {
			} else if ans == "unsat" {
				s.send("(get-unsat-core)\n")
				c := s.sexp()
				m := map[*Cand]bool{}
				for _, f := range strings.Fields(strings.Trim(strings.TrimSpace(c), "()")) {
					if cd := candOf[strings.Trim(f, "|")]; cd != nil {
						m[cd] = true
					}
				}
				core[o] = m
			} else {
				if strings.Contains(ans, "error") {
					res.err = fmt.Errorf("solver: %s", ans)
					dump("err", base+strings.Join(asserted[:done], "")+neg[i])
					s.close()
					return
				}
				was := alive()
				o.cand.alive = false
				killed++
				if dc := os.Getenv("GOVC_DUMPC"); dc != "" && strings.Contains(o.desc, dc) {
					_ = os.WriteFile(fmt.Sprintf("/tmp/cand%d.smt2", o.id), []byte(base+strings.Join(asserted[:done], "")+neg[i]+"; "+o.kind+" "+o.desc+"\n(check-sat-assuming ("+lits(was)+"))\n(get-model)\n"), 0o644)
				}
				if os.Getenv("GOVC_HOUDINI") != "" {
					fmt.Fprintf(os.Stderr, "  houdini: drop %s [%s %s] (%s, %dms)\n", o.cand.desc, o.kind, o.desc, ans, time.Since(ts).Milliseconds())
				}
			}
			s.send("(pop)\n")
			if s.dead {
				s.close()
				s, done = nil, 0
			}
		}
		if s != nil {
			s.close()
		}
		if killed == 0 {
			break
		}
	}
	var hdr strings.Builder
	for _, c := range e.cands {
		if c.alive {
			fmt.Fprintf(&hdr, "(assert %s)\n", p.symName(c.lit))
		} else {
			fmt.Fprintf(&hdr, "(assert (not %s))\n", p.symName(c.lit))
		}
	}
	for _, c := range e.cands {
		if c.alive {
			res.invs++
			res.invDesc = append(res.invDesc, c.desc)
		}
	}

	// --- obligations
	var s *session
	done := 0
	try := func(i int, o *Obl) bool {
		if expired() {
			o.status = "unknown"
			return false
		}
		if s == nil || s.dead {
			var err error
			s, err = startZ3("z3", "-in")
			if err != nil {
				res.err = err
				return false
			}
			s.send(base + hdr.String())
			s.send(fmt.Sprintf("(set-option :timeout %d)\n", quick))
			done = 0
		}
		for ; done < o.prefix; done++ {
			s.send(asserted[done])
		}
		s.send("(push)\n" + neg[i] + "(check-sat)\n")
		ts := time.Now()
		ans := s.line()
		o.ms += time.Since(ts).Milliseconds()
		atomic.AddInt64(&solverCalls, 1)
		atomic.AddInt64(&solverMS, o.ms)
		s.send("(pop)\n")
		if strings.Contains(ans, "error") {
			res.err = fmt.Errorf("solver: %s", ans)
			dump("err", base+hdr.String()+strings.Join(asserted[:o.prefix], "")+neg[i])
			return false
		}
		if ans == "unsat" {
			o.status, o.solver = "proved", "z3-4.8.12"
			return true
		}
		o.status = ans
		return false
	}
	standalone := func(i int, o *Obl) bool {
		if expired() {
			return false
		}
		body := hdr.String() + strings.Join(asserted[:o.prefix], "") + neg[i] + "(check-sat)\n"
		decl := p.out.String()
		ts := time.Now()
		sec := e.spec.timeout
		if e.bvProve(o.prefix, alive(), o.goal, theory(o.prefix), time.Duration(sec)*time.Second) {
			o.ms += time.Since(ts).Milliseconds()
			o.status, o.solver = "proved", "z3-4.8.12(bits)"
			return true
		}
		who, ans := portfolio(decl+body, sec)
		o.ms += time.Since(ts).Milliseconds()
		atomic.AddInt64(&solverMS, time.Since(ts).Milliseconds())
		dump(fmt.Sprintf("obl%d", o.id), z3opts+decl+body)
		if ans == "unsat" {
			o.status, o.solver = "proved", who
			return true
		}
		return false
	}
	fails := 0
	for i, o := range e.obls {
		if o.cand != nil || o.meas != nil {
			continue
		}
		res.obls = append(res.obls, o)
		if !try(i, o) {
			if res.err != nil {
				break
			}
			if fails >= 4 || !standalone(i, o) {
				fails++
				if o.status != "sat" {
					o.status = "unknown"
				}
				res.failed = append(res.failed, o)
				continue
			}
		}
		res.proved++
	}
	if res.err == nil {
		for _, g := range e.measGroups {
			ok := false
			var best *Obl
			for _, m := range g {
				all := true
				for _, o := range m.obls {
					// the session may be past the prefix: extra assumptions come from later program points only
					if !tryAt(&s, try, o) {
						all = false
						best = o
						break
					}
				}
				if res.err != nil {
					break
				}
				if all {
					ok = true
					o := &Obl{kind: "termination", desc: g[0].loop + " terminates: " + m.desc, status: "proved", solver: "z3-4.8.12", fn: g[0].loop}
					res.obls = append(res.obls, o)
					res.proved++
					break
				}
			}
			if !ok && res.err == nil {
				o := &Obl{kind: "termination", desc: g[0].loop + " terminates", status: "unknown", fn: g[0].loop}
				if best != nil {
					o.prefix, o.goal = best.prefix, best.goal
				}
				res.obls = append(res.obls, o)
				res.failed = append(res.failed, o)
			}
		}
	}
	if s != nil {
		s.close()
	}
	if res.err == nil {
		for i, o := range res.failed {
			if i >= 3 {
				break
			}
			if h, out := e.modelHints(p, base+hdr.String()+strings.Join(asserted[:o.prefix], "")+"(assert (not "+p.str(o.goal)+"))\n"); true {
				if h != nil {
					res.hints = append(res.hints, h)
				}
				res.smt = append(res.smt, out)
			}
		}
	}
	// vacuity: the assumptions alone must not be contradictory
	if res.err == nil && e.hasRequires || len(e.assumes) > 0 {
		v, err := startZ3("z3", "-in")
		if err == nil {
			v.limit = 8 * time.Second
			v.send(base + hdr.String())
			v.send("(set-option :timeout 1500)\n")
			v.send(strings.Join(asserted, ""))
			v.send("(check-sat)\n")
			if v.line() == "unsat" {
				res.vacuous = true
			}
			v.close()
		}
	}
	res.trivial = e.trivial
	res.solverMS = time.Since(t0).Milliseconds()
}

// tryAt checks a measure obligation; a session that has advanced beyond its prefix is restarted.
func tryAt(s **session, try func(int, *Obl) bool, o *Obl) bool {
	if *s != nil {
		(*s).close()
		(*s).dead = true
	}
	return try(o.id, o)
}

// oneShot asks a fresh solver, with all terms relevant for matching, whether the script is unsatisfiable.
// patience scales the limits of the solver; contracts that fail are tried again with more of it.
var patience int64 = 1

func oneShot(script string, sec int) bool {
	c := exec.Command("z3", "-in", fmt.Sprintf("-T:%d", sec))
	c.Stdin = strings.NewReader(z3opts + "(set-option :smt.relevancy 0)\n" + script)
	out := bounded(c, time.Duration(sec)*time.Second)
	return strings.HasPrefix(strings.TrimSpace(string(out)), "unsat")
}

// portfolio runs the solvers on a complete script and returns the first definite answer.
func portfolio(script string, sec int) (string, string) {
	type ans struct{ who, a string }
	ch := make(chan ans, 5)
	run := func(who, pre string, bin string, args ...string) *exec.Cmd {
		c := exec.Command(bin, args...)
		c.Stdin = strings.NewReader(pre + script)
		go func() {
			a := strings.TrimSpace(string(bounded(c, time.Duration(sec)*time.Second)))
			if i := strings.IndexByte(a, '\n'); i >= 0 {
				a = a[:i]
			}
			ch <- ans{who, a}
		}()
		return c
	}
	t := fmt.Sprintf("-T:%d", sec)
	var cs []*exec.Cmd
	cs = append(cs, run("z3-4.8.12", z3opts, "z3", "-in", t))
	cs = append(cs, run("z3-4.8.12(relevancy 0)", z3opts+"(set-option :smt.relevancy 0)\n", "z3", "-in", t))
	cs = append(cs, run("z3-new", z3opts, "z3-new", "-in", t))
	cs = append(cs, run("z3-new(case-split)", z3opts+"(set-option :smt.case_split 3)\n", "z3-new", "-in", t))
	cs = append(cs, run("cvc5", "(set-logic ALL)\n", "cvc5", "--lang=smt2", fmt.Sprintf("--tlimit=%d", sec*1000)))
	who, res := "", "unknown"
	for range cs {
		a := <-ch
		if a.a == "unsat" {
			who, res = a.who, "unsat"
			break
		}
		if a.a == "sat" && a.who != "cvc5" {
			res = "sat"
		}
	}
	for _, c := range cs {
		if c.Process != nil {
			c.Process.Kill()
		}
	}
	return who, res
}

func verifySpec(w *World, sp *SpecFn, tlim time.Duration) *Result {
	t0 := time.Now()
	res := &Result{spec: sp, byKind: map[string]int{}, bySolver: map[string]int{}}
	e := newEngine(w)
	if err := e.runSpec(sp); err != nil {
		res.err = err
	}
	for f := range e.reach {
		if e.w.inModule(f) && !e.isSpecFn(f) {
			res.reach = append(res.reach, f.RelString(nil))
		}
	}
	res.consts = constsOf(e.reach)
	for u := range e.used {
		res.used = append(res.used, u)
	}
	for n := range e.notes {
		res.notes = append(res.notes, n)
	}
	if res.err == nil {
		e.solve(res, tlim)
	}
	for _, o := range res.obls {
		res.byKind[o.kind]++
		if o.status == "proved" {
			res.bySolver[o.solver]++
		}
	}
	res.wall = time.Since(t0)
	return res
}

// hintTerms names the scalar parts of the inputs.
func (e *Engine) hintTerms() (paths []string, terms []*Term) {
	st := &State{cells: map[*Cell]Val{}, heap: map[string][]*Term{}, maps: map[string]*mapHeap{}, fwd: map[*Cell]*Term{}, ghost: map[string]*Term{}, next: e.next0()}
	var walk func(path string, t types.Type, v Val, d int)
	walk = func(path string, t types.Type, v Val, d int) {
		if d > 5 || len(terms) > 400 {
			return
		}
		switch x := v.(type) {
		case *Term:
			if x.sort == SInt || x.sort == SBool {
				paths, terms = append(paths, path), append(terms, x)
			}
		case *VStruct:
			u, ok := t.Underlying().(*types.Struct)
			if !ok {
				return
			}
			for i := range x.f {
				walk(path+"."+u.Field(i).Name(), u.Field(i).Type(), x.f[i], d+1)
			}
		case *VSlice:
			paths, terms = append(paths, path+".len"), append(terms, x.ln)
			et := t.Underlying().(*types.Slice).Elem()
			for i := 0; i < 5; i++ {
				func() {
					defer func() { recover() }()
					walk(fmt.Sprintf("%s[%d]", path, i), et, e.loadLoc(st, &Loc{elem: et, ref: x.ref, idx: e.tt.Add(x.off, e.tt.Int(int64(i)))}, et), d+1)
				}()
			}
		case *VPtr:
			for _, a := range x.alts {
				if a.loc != nil && a.loc.cell != nil {
					if iv, ok := e.cell0[a.loc.cell]; ok {
						walk(path, a.loc.cell.typ, iv, d+1)
					}
				}
			}
		}
	}
	for i, in := range e.inputs {
		walk(itoa(i), in.typ, in.val, 0)
	}
	return
}

// modelHints asks for the values of the inputs in a (candidate) counterexample.
func (e *Engine) modelHints(p *printer, script string) (map[string]int64, string) {
	paths, terms := e.hintTerms()
	keep := 0
	var names []string
	for i, t := range terms {
		ok := true
		var s string
		func() {
			defer func() {
				if recover() != nil {
					ok = false
				}
			}()
			s = p.strIfDeclared(t)
		}()
		if !ok || s == "" {
			continue
		}
		paths[keep] = paths[i]
		names = append(names, s)
		keep++
	}
	s, err := startZ3("z3-new", "-in")
	if err != nil {
		return nil, ""
	}
	defer s.close()
	s.limit = 10 * time.Second
	s.send(strings.Replace(script, z3opts, "", 1) + "(set-option :timeout 4000)\n(check-sat)\n")
	ans := s.line()
	if ans == "unsat" || strings.Contains(ans, "error") || len(names) == 0 {
		return nil, "z3: " + ans
	}
	s.send("(get-value (" + strings.Join(names, " ") + "))\n")
	txt := s.sexp()
	if os.Getenv("GOVC_DBG") != "" {
		fmt.Fprintln(os.Stderr, "VALUES", len(names), txt)
	}
	if strings.HasPrefix(strings.TrimSpace(txt), "(error") {
		return nil, "z3: " + ans
	}
	vals := parseValues(txt)
	h := map[string]int64{}
	out := "z3: " + ans + "; inputs in the candidate counterexample:"
	for i, v := range vals {
		if i >= keep {
			break
		}
		if v == nil {
			continue
		}
		h[paths[i]] = *v
		out += fmt.Sprintf(" %s=%d", paths[i], *v)
	}
	return h, out
}

// parseValues reads ((expr value) ...) answers; unreadable values are nil.
func parseValues(txt string) []*int64 {
	var toks []string
	cur := ""
	q := false
	flush := func() {
		if cur != "" {
			toks = append(toks, cur)
			cur = ""
		}
	}
	for _, c := range txt {
		switch {
		case c == '|':
			q = !q
			cur += "|"
		case q:
			cur += string(c)
		case c == '(' || c == ')':
			flush()
			toks = append(toks, string(c))
		case c == ' ' || c == '\n' || c == '\t' || c == '\r':
			flush()
		default:
			cur += string(c)
		}
	}
	flush()
	pos := 0
	var skip func() (string, bool)
	skip = func() (string, bool) {
		if pos >= len(toks) {
			return "", false
		}
		t := toks[pos]
		pos++
		if t != "(" {
			return t, true
		}
		s := "("
		for pos < len(toks) && toks[pos] != ")" {
			x, _ := skip()
			s += x + " "
		}
		pos++
		return s + ")", true
	}
	var out []*int64
	if len(toks) == 0 || toks[0] != "(" {
		return nil
	}
	pos = 1
	for pos < len(toks) && toks[pos] == "(" {
		pos++
		skip()
		v, _ := skip()
		pos++
		var n int64
		switch {
		case v == "true":
			n = 1
		case v == "false":
			n = 0
		case strings.HasPrefix(v, "(- "):
			if _, err := fmt.Sscan(strings.Trim(v[3:], " )"), &n); err != nil {
				out = append(out, nil)
				continue
			}
			n = -n
		default:
			if _, err := fmt.Sscan(v, &n); err != nil {
				out = append(out, nil)
				continue
			}
		}
		out = append(out, &n)
	}
	return out
}
