package main

import (
	"flag"
	"fmt"
	"os"
	"sort"
	"strconv"
	"strings"
	"sync"
	"time"

	"golang.org/x/tools/go/ssa"
)

func (w *World) inModule(f *ssa.Function) bool {
	g := f
	for g.Parent() != nil {
		g = g.Parent()
	}
	if g.Origin() != nil {
		g = g.Origin()
	}
	return g.Pkg != nil && strings.HasPrefix(g.Pkg.Pkg.Path(), w.modPath) && !strings.HasSuffix(g.Pkg.Pkg.Path(), "/internal/vc")
}

func main() {
	if len(os.Args) < 2 {
		fmt.Fprintln(os.Stderr, "usage: govc verify|check ...")
		os.Exit(2)
	}
	switch os.Args[1] {
	case "verify":
		cmdVerify(os.Args[2:])
	case "check":
		cmdCheck(os.Args[2:])
	case "replay":
		cmdReplay(os.Args[2:])
	case "exec":
		cmdExec(os.Args[2:])
	default:
		fmt.Fprintln(os.Stderr, "unknown command")
		os.Exit(2)
	}
}

// cmdVerify: development command, verifies the named contracts and prints every obligation that fails.
func cmdVerify(args []string) {
	fs := flag.NewFlagSet("verify", flag.ExitOnError)
	repo := fs.String("repo", envOr("GOVC_REPO", "/repo"), "")
	con := fs.String("contracts", "/verif/contracts", "")
	prop := fs.String("prop", "", "")
	verbose := fs.Bool("v", false, "")
	par := fs.Int("j", 8, "")
	fs.Parse(args)
	w, err := loadWorld(*repo, *con)
	if err != nil {
		fmt.Fprintln(os.Stderr, err)
		os.Exit(2)
	}
	for _, d := range w.dropped {
		fmt.Println("DROPPED", d)
	}
	var sel []*SpecFn
	for _, s := range w.specs {
		if *prop != "" && !contains(s.props, *prop) {
			continue
		}
		if fs.NArg() > 0 {
			ok := false
			for _, a := range fs.Args() {
				if strings.Contains(s.name, a) {
					ok = true
				}
			}
			if !ok {
				continue
			}
		}
		if s.bounded && os.Getenv("GOVC_ALL") == "" {
			continue
		}
		sel = append(sel, s)
	}
	tlim := 5 * time.Minute
	if n, err := strconv.Atoi(os.Getenv("GOVC_TLIM")); err == nil {
		tlim = time.Duration(n) * time.Second
	}
	rs := runAll(w, sel, *par, tlim)
	for _, r := range rs {
		printResult(r, *verbose)
	}
}

func contains(xs []string, x string) bool {
	for _, y := range xs {
		if x == y {
			return true
		}
	}
	return false
}

func runAll(w *World, sel []*SpecFn, par int, tlim time.Duration) []*Result {
	rs := make([]*Result, len(sel))
	sem := make(chan bool, par)
	var wg sync.WaitGroup
	for i, s := range sel {
		wg.Add(1)
		sem <- true
		go func() {
			defer wg.Done()
			rs[i] = verifySpec(w, s, tlim)
			<-sem
		}()
	}
	wg.Wait()
	return rs
}

func printResult(r *Result, verbose bool) {
	st := "OK  "
	if r.err != nil || len(r.failed) > 0 {
		st = "FAIL"
	}
	fmt.Printf("%s %-40s obls=%d proved=%d trivial=%d inv=%d wall=%.1fs size=%dk", st, r.spec.name, len(r.obls), r.proved, r.trivial, r.invs, r.wall.Seconds(), r.size/1024)
	if r.vacuous {
		fmt.Printf(" VACUOUS")
	}
	fmt.Println()
	if r.err != nil {
		fmt.Println("     error:", r.err)
	}
	for _, o := range r.failed {
		fmt.Printf("     %s [%s] %s  in %s at %s:%d (%d ms) #%d\n", o.status, o.kind, o.desc, o.fn, o.pos.Filename, o.pos.Line, o.ms, o.id)
	}
	if verbose {
		for _, o := range r.obls {
			if o.status == "proved" {
				fmt.Printf("     ok [%s] %s in %s:%d %s %dms\n", o.kind, o.desc, o.fn, o.pos.Line, o.solver, o.ms)
			}
		}
		sort.Strings(r.notes)
		for _, n := range r.notes {
			fmt.Println("     note:", n)
		}
		for _, n := range r.invDesc {
			fmt.Println("     inv:", n)
		}
		fmt.Println("     reach:", strings.Join(r.reach, " "))
		fmt.Println("     used:", strings.Join(r.used, " "))
	}
}

func envOr(k, d string) string {
	if v := os.Getenv(k); v != "" {
		return v
	}
	return d
}
