package main

import (
	"bytes"
	"context"
	"encoding/json"
	"fmt"
	"os"
	"os/exec"
	"path/filepath"
	"sort"
	"strconv"
	"strings"
	"sync"
	"sync/atomic"
	"time"

	"golang.org/x/tools/go/ssa"
)

// ---- the check command: verify every contract of a property, replay what fails, write evidence

type checkRun struct {
	w      *World
	prop   string
	tier   string
	seed   int64
	verif  string
	start  time.Time
	res    map[*SpecFn]*Result
	off    map[*SpecFn]bool // call-site contracts not used because they are not established
	found  map[*SpecFn]*Found
	reason map[*SpecFn]string
	notes  []string
}

type Found struct {
	Name    string         `json:"name"`
	Kind    string         `json:"kind"`
	Oblig   string         `json:"obligation"`
	Input   string         `json:"input"`
	Iter    int            `json:"iter"`
	Tried   int            `json:"tried"`
	Skipped int            `json:"skipped"`
	Ensured map[string]int `json:"ensured"`
}

type Job struct {
	Name    string             `json:"name"`
	Runs    int                `json:"runs"`
	Millis  int                `json:"millis"`
	Hints   []map[string]int64 `json:"hints"`
	Consts  []int              `json:"consts"`
	MaxSize int                `json:"maxsize"`
	Only    int                `json:"only"`
}

func envInt(k string, d int64) int64 {
	if v, err := strconv.ParseInt(os.Getenv(k), 10, 64); err == nil {
		return v
	}
	return d
}

func cmdCheck(args []string) {
	tier, prop := args[0], args[1]
	verif, repo := "/verif", "/repo"
	if v := os.Getenv("GOVC_REPO"); v != "" {
		repo = v
	}
	if exe, err := os.Executable(); err == nil {
		verif = filepath.Dir(filepath.Dir(exe))
	}
	if v := os.Getenv("GOVC_VERIF"); v != "" {
		verif = v
	}
	c := &checkRun{prop: prop, tier: tier, seed: envInt("VERIF_SEED", 1), verif: verif, start: time.Now(),
		res: map[*SpecFn]*Result{}, off: map[*SpecFn]bool{}, found: map[*SpecFn]*Found{}, reason: map[*SpecFn]string{}}
	os.Exit(c.run(repo))
}

func (c *checkRun) run(repo string) int {
	w, err := loadWorld(repo, filepath.Join(c.verif, "contracts"))
	if err != nil {
		fmt.Fprintln(os.Stderr, "govc:", err)
		return 2
	}
	c.w = w
	if c.tier != "thorough" {
		stopAt = c.start.Add(9 * time.Minute)
	}
	for _, d := range w.dropped {
		fmt.Println("note: contract does not fit the current code and is left out:", d)
	}
	var own []*SpecFn
	for _, s := range w.specs {
		if contains(s.props, c.prop) {
			own = append(own, s)
		}
	}
	if len(own) == 0 {
		fmt.Fprintln(os.Stderr, "govc: no contract for", c.prop)
		return 2
	}
	isOwn := map[*SpecFn]bool{}
	for _, s := range own {
		isOwn[s] = true
	}
	// verify the property's contracts and, transitively, every callee contract they use
	c.closure(own)
	// a callee contract that is not established is inlined instead, and its users are verified again
	for round := 0; round < 5; round++ {
		again := map[*SpecFn]bool{}
		for _, s := range w.specs {
			r := c.res[s]
			if r == nil || c.ok(r) || !s.use || c.off[s] {
				continue
			}
			c.off[s] = true
			delete(w.use, s.target)
			for u, ur := range c.res {
				if contains(ur.used, s.name) {
					again[u] = true
				}
			}
		}
		if len(again) == 0 {
			break
		}
		var l []*SpecFn
		for s := range again {
			delete(c.res, s)
			l = append(l, s)
		}
		sort.Slice(l, func(i, j int) bool { return l[i].name < l[j].name })
		c.closure(l)
	}
	// executions: failing contracts (search for a failing input), bounded ones, and a cross-check of the rest
	quick := c.tier != "thorough"
	jobs := map[string][]Job{}
	spOf := map[string]*SpecFn{}
	var bounded, unsup, failing []*SpecFn
	for _, s := range own {
		j := Job{Name: s.name, Runs: 3000, Millis: 1500, MaxSize: s.maxSize, Only: -1}
		if !quick {
			j.Runs, j.Millis = 200000, 20000
		}
		r := c.res[s]
		switch {
		case s.bounded:
			bounded = append(bounded, s)
			j.Runs, j.Millis = 1000000, 20000
			if !quick {
				j.Millis = 120000
			}
		case r.err != nil:
			unsup = append(unsup, s)
			j.Runs, j.Millis = 1000000, 25000
		case !c.ok(r):
			if s.aux {
				continue // decided through the contracts that depend on it
			}
			failing = append(failing, s)
			j.Runs, j.Millis = 2000000, 25000
		default:
			if s.aux {
				continue
			}
		}
		if s.noExec {
			continue
		}
		if s.known != "" {
			j.Runs = 1
		}
		if r != nil {
			j.Hints = r.hints
			j.Consts = r.consts
		}
		jobs[s.pkgDir] = append(jobs[s.pkgDir], j)
		spOf[s.name] = s
	}
	var mu sync.Mutex
	var wg sync.WaitGroup
	for dir, js := range jobs {
		wg.Add(1)
		go func() {
			defer wg.Done()
			fs, err := w.execute(dir, js, c.seed)
			mu.Lock()
			defer mu.Unlock()
			if err != nil {
				c.notes = append(c.notes, "executions in "+dir+" not possible: "+err.Error())
				fmt.Println("note: executions in", dir, "not possible:", err)
			}
			for i := range fs {
				if s := spOf[fs[i].Name]; s != nil {
					c.found[s] = &fs[i]
				}
			}
		}()
	}
	wg.Wait()

	// report
	violations := 0
	os.MkdirAll(filepath.Join(c.verif, "evidence", "replay"), 0o755)
	for _, s := range own {
		r, f := c.res[s], c.found[s]
		hit := f != nil && f.Kind != "none"
		bad := r != nil && r.err == nil && !c.ok(r)
		if s.known != "" {
			if hit {
				fmt.Printf("KNOWN-FINDING: property=%s %s\n", c.prop, s.known)
			}
			continue
		}
		if s.aux && bad {
			fmt.Printf("note: auxiliary contract %s does not hold of the current code; its callers were verified against the body instead\n", s.name)
			continue
		}
		if !hit && !bad {
			continue
		}
		violations++
		path := filepath.Join(c.verif, "evidence", "replay", c.prop+"-"+sanitize(s.name)+".json")
		rep := map[string]any{"property": c.prop, "contract": s.name, "contract_file": s.file, "target": s.tgtName, "repo": w.repo, "seed": c.seed}
		if bad {
			var fo []string
			for _, o := range r.failed {
				fo = append(fo, fmt.Sprintf("[%s] %s, in %s at %s:%d: %s", o.kind, o.desc, o.fn, o.pos.Filename, o.pos.Line, o.status))
			}
			if r.vacuous {
				fo = append(fo, "the assumptions on the way to the postconditions are contradictory: nothing is shown")
			}
			rep["failed_obligations"] = fo
			rep["verifier_output"] = r.smt
			for _, x := range fo {
				fmt.Println("failed obligation:", s.name, x)
			}
		}
		if hit {
			j := Job{Name: s.name, Runs: f.Iter + 1, Millis: 600000, MaxSize: s.maxSize, Only: f.Iter}
			if r != nil {
				j.Hints, j.Consts = r.hints, r.consts
			}
			rep["failing_input"] = f.Input
			rep["failure"] = f.Kind + ": " + f.Oblig
			rep["job"] = j
			rep["replay_cmd"] = "bash /verif/check.sh replay " + path
			fmt.Printf("replayed against the code: %s fails (%s: %s) on input %s\n", s.name, f.Kind, f.Oblig, f.Input)
		}
		b, _ := json.MarshalIndent(rep, "", " ")
		os.WriteFile(path, b, 0o644)
		if hit {
			fmt.Printf("VIOLATION property=%s replay=%s\n", c.prop, path)
		} else {
			fmt.Printf("VIOLATION property=%s replay=%s no-failing-input-found\n", c.prop, path)
		}
	}
	for _, s := range unsup {
		fmt.Printf("note: %s is outside the verifier's reach on this code (%v): executed over bounded inputs only\n", s.name, c.res[s].err)
	}
	c.evidence(own, isOwn, bounded, unsup, violations)
	n, d := 0, 0
	for _, r := range c.res {
		n += len(r.obls) + r.trivial
		d += r.proved + r.trivial
	}
	fmt.Printf("%s %s: %d contracts, %d of %d obligations discharged, %d bounded, %d violations, %.1f s\n", c.prop, c.tier, len(c.res), d, n, len(bounded)+len(unsup), violations, time.Since(c.start).Seconds())
	if violations > 0 {
		return 1
	}
	return 0
}

func (c *checkRun) ok(r *Result) bool {
	return r.err == nil && len(r.failed) == 0 && !r.vacuous
}

func (c *checkRun) closure(todo []*SpecFn) {
	lim := 4 * time.Minute
	if c.tier == "thorough" {
		lim = 15 * time.Minute
	}
	for len(todo) > 0 {
		var l []*SpecFn
		for _, s := range todo {
			if c.res[s] == nil && !s.bounded {
				l = append(l, s)
			}
		}
		rs := runAll(c.w, l, 8, lim)
		// what is not proved is tried again, less hurried
		var l2 []*SpecFn
		var at []int
		for i, s := range l {
			if r := rs[i]; r.err == nil && len(r.failed) > 0 && time.Since(c.start) < 4*time.Minute {
				l2, at = append(l2, s), append(at, i)
			}
		}
		if len(l2) > 0 {
			// a contract that fails on an input needs no second try
			wrong := c.wrong(l2)
			k := 0
			for i, s := range l2 {
				if !wrong[s.name] {
					l2[k], at[k] = s, at[i]
					k++
				}
			}
			l2, at = l2[:k], at[:k]
		}
		if len(l2) > 0 {
			patience = 3
			for k, r := range runAll(c.w, l2, 3, lim/2) {
				if c.ok(r) {
					rs[at[k]] = r
				}
			}
			patience = 1
		}
		next := map[*SpecFn]bool{}
		for i, s := range l {
			c.res[s] = rs[i]
			for _, u := range rs[i].used {
				for _, x := range c.w.specs {
					if x.name == u && c.res[x] == nil {
						next[x] = true
					}
				}
			}
		}
		todo = nil
		for s := range next {
			if c.res[s] == nil {
				todo = append(todo, s)
			}
		}
		sort.Slice(todo, func(i, j int) bool { return todo[i].name < todo[j].name })
	}
}

// execute compiles the contracts of one package into a test binary and runs the jobs.
func (w *World) execute(dir string, jobs []Job, seed int64) ([]Found, error) {
	tmp, err := os.MkdirTemp("", "govc-")
	if err != nil {
		return nil, err
	}
	defer os.RemoveAll(tmp)
	rep := map[string]string{}
	n := 0
	for dst, b := range w.contents {
		n++
		p := filepath.Join(tmp, fmt.Sprintf("c%d.go", n))
		if err := os.WriteFile(p, b, 0o644); err != nil {
			return nil, err
		}
		rep[dst] = p
	}
	pdir := filepath.Join(w.repo, dir)
	old, _ := filepath.Glob(filepath.Join(pdir, "*_test.go"))
	for _, o := range old {
		rep[o] = ""
	}
	pkgName := ""
	var cases strings.Builder
	for _, s := range w.specs {
		if s.pkgDir == dir {
			pkgName = s.fn.Pkg.Pkg.Name()
			fmt.Fprintf(&cases, "\t\t{Name: %q, Fn: %s},\n", s.name, s.fnName)
		}
	}
	src := fmt.Sprintf("package %s\n\nimport (\n\t\"testing\"\n\n\t%q\n)\n\nfunc TestVCReplay(t *testing.T) {\n\tvc.Main([]vc.Case{\n%s\t})\n}\n", pkgName, w.modPath+"/internal/vc", cases.String())
	tp := filepath.Join(tmp, "zz.go")
	os.WriteFile(tp, []byte(src), 0o644)
	rep[filepath.Join(pdir, "zz_vc_replay_test.go")] = tp
	ov, _ := json.Marshal(map[string]any{"Replace": rep})
	ovp := filepath.Join(tmp, "overlay.json")
	os.WriteFile(ovp, ov, 0o644)
	bin := filepath.Join(tmp, "replay.test")
	cmd := exec.Command("go", "test", "-c", "-vet=off", "-overlay", ovp, "-o", bin, "./"+dir)
	cmd.Dir = w.repo
	cmd.Env = goEnv()
	if out, err := cmd.CombinedOutput(); err != nil {
		return nil, fmt.Errorf("%v: %s", err, out)
	}
	// the jobs are spread over several processes
	par := 6
	if len(jobs) < par {
		par = len(jobs)
	}
	groups := make([][]Job, par)
	for i, j := range jobs {
		groups[i%par] = append(groups[i%par], j)
	}
	var mu sync.Mutex
	var all []Found
	var wg sync.WaitGroup
	for g, js := range groups {
		wg.Add(1)
		go func() {
			defer wg.Done()
			for len(js) > 0 {
				cfg := filepath.Join(tmp, fmt.Sprintf("cfg%d.json", g))
				outp := filepath.Join(tmp, fmt.Sprintf("out%d.json", g))
				os.Remove(outp)
				b, _ := json.Marshal(map[string]any{"seed": seed, "jobs": js, "out": outp})
				os.WriteFile(cfg, b, 0o644)
				total := 60 * time.Second
				for _, j := range js {
					total += time.Duration(j.Millis) * time.Millisecond
				}
				ctx, cancel := context.WithTimeout(context.Background(), total)
				cmd := exec.CommandContext(ctx, "bash", "-c", "ulimit -v 24000000; exec "+bin+" -test.run TestVCReplay -test.timeout 0")
				cmd.Env = append(os.Environ(), "VC_CFG="+cfg, "GOMEMLIMIT=3000MiB", "GOMAXPROCS=2")
				cmd.Dir = tmp
				var eb bytes.Buffer
				cmd.Stdout, cmd.Stderr = &eb, &eb
				runErr := cmd.Run()
				cancel()
				var fs []Found
				if ob, err := os.ReadFile(outp); err == nil {
					json.Unmarshal(ob, &fs)
				}
				if len(fs) < len(js) && runErr != nil {
					// the job that did not report ended the process
					txt := eb.String()
					if len(txt) > 1500 {
						txt = txt[:1500]
					}
					f := Found{Name: js[len(fs)].Name, Kind: "crash", Oblig: txt, Iter: -1}
					if strings.Contains(txt, "out of memory") || ctx.Err() != nil {
						f.Kind = "none"
					}
					fs = append(fs, f)
				} else if len(fs) < len(js) && len(fs) == 0 {
					break
				}
				mu.Lock()
				all = append(all, fs...)
				mu.Unlock()
				js = js[len(fs):]
			}
		}()
	}
	wg.Wait()
	return all, nil
}

// cmdReplay runs one recorded failing input again.
func cmdReplay(args []string) {
	b, err := os.ReadFile(args[0])
	if err != nil {
		fmt.Fprintln(os.Stderr, err)
		os.Exit(2)
	}
	var rep struct {
		Property, Contract, Repo string
		Seed                     int64
		Job                      *Job
	}
	json.Unmarshal(b, &rep)
	if rep.Job == nil {
		fmt.Println("no failing input was found; the file lists the failed obligations and the verifier's output")
		os.Exit(0)
	}
	verif := "/verif"
	if exe, err := os.Executable(); err == nil {
		verif = filepath.Dir(filepath.Dir(exe))
	}
	w, err := loadWorld(rep.Repo, filepath.Join(verif, "contracts"))
	if err != nil {
		fmt.Fprintln(os.Stderr, err)
		os.Exit(2)
	}
	for _, s := range w.specs {
		if s.name == rep.Contract {
			fs, err := w.execute(s.pkgDir, []Job{*rep.Job}, rep.Seed)
			if err != nil {
				fmt.Fprintln(os.Stderr, err)
				os.Exit(2)
			}
			for _, f := range fs {
				fmt.Printf("%s: %s %s\ninput: %s\n", f.Name, f.Kind, f.Oblig, f.Input)
				if f.Kind != "none" {
					os.Exit(1)
				}
			}
		}
	}
}

// cmdExec: development command, executes contracts over generated inputs.
func cmdExec(args []string) {
	w, err := loadWorld(envOr("GOVC_REPO", "/repo"), "/verif/contracts")
	if err != nil {
		fmt.Fprintln(os.Stderr, err)
		os.Exit(2)
	}
	for _, d := range w.dropped {
		fmt.Println("DROPPED", d)
	}
	ms := int(envInt("MS", 2000))
	jobs := map[string][]Job{}
	for _, s := range w.specs {
		sel := len(args) == 0
		for _, a := range args {
			if strings.Contains(s.name, a) || contains(s.props, a) {
				sel = true
			}
		}
		if sel {
			jobs[s.pkgDir] = append(jobs[s.pkgDir], Job{Name: s.name, Runs: 10000000, Millis: ms, Only: -1, MaxSize: s.maxSize})
		}
	}
	for d, js := range jobs {
		fs, err := w.execute(d, js, envInt("VERIF_SEED", 1))
		if err != nil {
			fmt.Println(err)
		}
		for _, f := range fs {
			fmt.Printf("%-40s %s tried=%d skipped=%d ensured=%v\n", f.Name, f.Kind, f.Tried, f.Skipped, f.Ensured)
			if f.Kind != "none" {
				fmt.Printf("    %s\n    %s\n", f.Oblig, f.Input)
			}
		}
	}
}

func (c *checkRun) evidence(own []*SpecFn, isOwn map[*SpecFn]bool, bounded, unsup []*SpecFn, violations int) {
	obls, dis, invs, execs := 0, 0, 0, 0
	kinds, solvers := map[string]int{}, map[string]int{}
	reach, notes := map[string]bool{}, map[string]bool{}
	var contracts []map[string]any
	var specs []*SpecFn
	for s := range c.res {
		specs = append(specs, s)
	}
	sort.Slice(specs, func(i, j int) bool { return specs[i].name < specs[j].name })
	anyVac := false
	for _, s := range specs {
		r := c.res[s]
		obls += len(r.obls) + r.trivial
		dis += r.proved + r.trivial
		invs += r.invs
		for k, v := range r.byKind {
			kinds[k] += v
		}
		for k, v := range r.bySolver {
			solvers[k] += v
		}
		if r.trivial > 0 {
			solvers["govc term simplifier"] += r.trivial
		}
		for _, f := range r.reach {
			reach[f] = true
		}
		for _, n := range r.notes {
			notes[n] = true
		}
		for _, n := range s.notes {
			notes[s.name+": "+n] = true
		}
		if r.vacuous {
			anyVac = true
		}
		m := map[string]any{"contract": s.name, "target": s.tgtName, "obligations": len(r.obls) + r.trivial, "discharged": r.proved + r.trivial, "invariants": r.invs, "seconds": float64(r.wall.Milliseconds()) / 1000}
		if !isOwn[s] {
			m["role"] = "callee contract used by this property's proofs"
		}
		if r.err != nil {
			m["not_verified"] = r.err.Error()
		}
		if len(r.used) > 0 {
			m["uses"] = r.used
		}
		contracts = append(contracts, m)
	}
	var ex []map[string]any
	for _, s := range own {
		if f := c.found[s]; f != nil {
			execs += f.Tried
			ex = append(ex, map[string]any{"contract": s.name, "executions": f.Tried, "skipped_by_precondition": f.Skipped, "result": f.Kind})
		}
	}
	var bl []string
	for _, s := range bounded {
		t := s.name + " (target " + s.tgtName + "): executed over generated inputs within the time bound, not proved"
		if s.known != "" {
			t = s.name + ": known finding, executed only"
		}
		bl = append(bl, t)
	}
	for _, s := range unsup {
		bl = append(bl, s.name+": "+c.res[s].err.Error()+"; executed over generated inputs, not proved")
	}
	keys := func(m map[string]bool) []string {
		r := []string{}
		for k := range m {
			r = append(r, k)
		}
		sort.Strings(r)
		return r
	}
	assumptions := append(keys(notes), baseAssumptions...)
	ev := map[string]any{
		"property": c.prop, "tier": c.tier, "seed": c.seed, "level": "proof",
		"wall_s": time.Since(c.start).Seconds(), "violations": violations,
		"assumptions": assumptions,
		"coverage": map[string]any{
			"obligations": obls, "discharged": dis,
			"checker_cmd":              "bash /verif/check.sh " + c.tier + " " + c.prop,
			"trusted_base":             []string{"golang.org/x/tools/go/ssa v0.52.0 (Go source to SSA)", "govc (/verif/govc: symbolic execution of SSA and generation of obligations)", "z3 4.8.12, z3-new, cvc5 1.1.2 (any one of them answering unsat)", "the Go type checker"},
			"functions_under_contract": keys(reach),
			"contracts":                contracts,
			"obligations_by_kind":      kinds,
			"obligations_by_back_end":  solvers,
			"loop_invariants_inferred": invs,
			"solver_calls":             atomic.LoadInt64(&solverCalls),
			"solver_seconds":           float64(atomic.LoadInt64(&solverMS)) / 1000,
			"vacuous_contract":         anyVac,
			"bounded_not_proved":       bl,
			"executions_cross_check":   ex,
			"executions":               execs,
			"contracts_left_out":       c.w.dropped,
			"notes":                    c.notes,
		},
	}
	b, _ := json.MarshalIndent(ev, "", " ")
	os.MkdirAll(filepath.Join(c.verif, "evidence"), 0o755)
	if err := os.WriteFile(filepath.Join(c.verif, "evidence", c.prop+".json"), append(b, '\n'), 0o644); err != nil {
		fmt.Fprintln(os.Stderr, err)
	}
}

var baseAssumptions = []string{
	"slice and pointer arguments of a verified function do not partially overlap each other or package tables",
	"64-bit integer arithmetic is treated as mathematical unless the contract asks for overflow obligations or wrapping",
	"floating-point arithmetic is treated as exact real arithmetic",
	"memory allocation does not fail and the stack does not overflow",
}

// constsOf collects small integer constants of the functions, as seeds for the input search.
func constsOf(fs map[*ssa.Function]bool) []int {
	m := map[int]bool{}
	for f := range fs {
		for _, b := range f.Blocks {
			for _, i := range b.Instrs {
				for _, op := range i.Operands(nil) {
					if c, ok := (*op).(*ssa.Const); ok && c.Value != nil {
						if v, err := strconv.Atoi(c.Value.ExactString()); err == nil && v >= -3 && v <= 300 {
							m[v], m[v+1], m[v-1] = true, true, true
						}
					}
				}
			}
		}
	}
	var r []int
	for k := range m {
		r = append(r, k)
	}
	sort.Ints(r)
	if len(r) > 60 {
		r = r[:60]
	}
	return r
}

// wrong executes contracts briefly and tells which of them fail on an input.
func (c *checkRun) wrong(l []*SpecFn) map[string]bool {
	jobs := map[string][]Job{}
	for _, s := range l {
		if s.noExec || s.known != "" || !contains(s.props, c.prop) {
			continue
		}
		jobs[s.pkgDir] = append(jobs[s.pkgDir], Job{Name: s.name, Runs: 200000, Millis: 2000, MaxSize: s.maxSize, Only: -1})
	}
	bad := map[string]bool{}
	for dir, js := range jobs {
		fs, err := c.w.execute(dir, js, c.seed)
		if err != nil {
			continue
		}
		for _, f := range fs {
			if f.Kind != "none" {
				bad[f.Name] = true
			}
		}
	}
	return bad
}
