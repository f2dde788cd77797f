package main

import (
	"fmt"
	"go/ast"
	"go/parser"
	"go/token"
	"go/types"
	"os"
	"path/filepath"
	"regexp"
	"sort"
	"strings"

	"golang.org/x/tools/go/packages"
	"golang.org/x/tools/go/ssa"
	"golang.org/x/tools/go/ssa/ssautil"
)

type SpecFn struct {
	name    string // pkgdir/spec_X
	fnName  string
	pkgDir  string
	fn      *ssa.Function
	target  *ssa.Function
	tgtName string
	props   []string
	use     bool
	aux     bool
	bounded bool // not proved: executed over bounded inputs only
	opts    Opts
	noUse   map[string]bool
	notes   []string
	timeout int
	file    string
	decl    *ast.FuncDecl
	params  []string
	gens    map[string]string
	known   string // a known finding: executed, reported as such
	noExec  bool   // not executed (needs things executions cannot provide)
	maxSize int
}

type World struct {
	repo        string
	contracts   string
	fset        *token.FileSet
	pkgs        []*packages.Package
	prog        *ssa.Program
	specFiles   map[string]bool
	overlay     map[string]string // repo path -> contract path
	contents    map[string][]byte
	specs       []*SpecFn
	use         map[*ssa.Function]*SpecFn
	dropped     []string
	globStore   map[*ssa.Global]bool
	globWriters map[*ssa.Global][]*ssa.Function
	scanned     bool
	modPath     string
}

// writesThrough: the instruction may change what the address points to, or lets the address escape.
func writesThrough(in ssa.Instruction, addr ssa.Value) bool {
	switch x := in.(type) {
	case *ssa.UnOp:
		return false
	case *ssa.DebugRef:
		return false
	case *ssa.FieldAddr:
		for _, r := range *x.Referrers() {
			if writesThrough(r, x) {
				return true
			}
		}
		return false
	case *ssa.IndexAddr:
		for _, r := range *x.Referrers() {
			if writesThrough(r, x) {
				return true
			}
		}
		return false
	case ssa.CallInstruction:
		if f := x.Common().StaticCallee(); f != nil && f.Pkg != nil && f.Pkg.Pkg.Path() == "sync/atomic" && strings.HasPrefix(f.Name(), "Load") {
			return false
		}
		return true
	}
	return true
}

func (w *World) constGlobal(g *ssa.Global) bool {
	if !w.scanned {
		w.scanned = true
		w.globStore = map[*ssa.Global]bool{}
		w.globWriters = map[*ssa.Global][]*ssa.Function{}
		for fn := range ssautil.AllFunctions(w.prog) {
			if fn.Pkg == nil || !strings.HasPrefix(fn.Pkg.Pkg.Path(), w.modPath) || strings.HasPrefix(fn.Name(), "init") && fn.Synthetic != "" {
				continue
			}
			for _, b := range fn.Blocks {
				for _, in := range b.Instrs {
					for _, op := range in.Operands(nil) {
						if g, ok := (*op).(*ssa.Global); ok && writesThrough(in, g) {
							w.globStore[g] = true
							if !w.specFiles[w.prog.Fset.Position(fn.Pos()).Filename] {
								w.globWriters[g] = append(w.globWriters[g], fn)
							}
						}
					}
				}
			}
		}
	}
	return g.Pkg != nil && strings.HasPrefix(g.Pkg.Pkg.Path(), w.modPath) && !w.globStore[g]
}

// loadWorld type-checks /repo with the contract files overlaid and builds SSA.
// Contract functions that do not type-check against the current code are dropped and reported.
func loadWorld(repo, contracts string) (*World, error) {
	w := &World{repo: repo, contracts: contracts, specFiles: map[string]bool{}, overlay: map[string]string{}, contents: map[string][]byte{}, use: map[*ssa.Function]*SpecFn{}}
	mod, err := os.ReadFile(filepath.Join(repo, "go.mod"))
	if err != nil {
		return nil, err
	}
	w.modPath = regexp.MustCompile(`(?m)^module\s+(\S+)`).FindStringSubmatch(string(mod))[1]
	err = filepath.Walk(contracts, func(p string, fi os.FileInfo, err error) error {
		if err != nil || fi.IsDir() || !strings.HasSuffix(p, ".go") {
			return err
		}
		rel, _ := filepath.Rel(contracts, p)
		dst := filepath.Join(repo, rel)
		b, err := os.ReadFile(p)
		if err != nil {
			return err
		}
		w.overlay[dst] = p
		w.contents[dst] = b
		w.specFiles[dst] = true
		return nil
	})
	if err != nil {
		return nil, err
	}
	for try := 0; ; try++ {
		if try > 60 {
			return nil, fmt.Errorf("contracts do not type-check")
		}
		w.fset = token.NewFileSet()
		cfg := &packages.Config{Mode: packages.LoadAllSyntax, Dir: repo, Fset: w.fset, Overlay: w.contents, Env: goEnv()}
		pkgs, err := packages.Load(cfg, "./...")
		if err != nil {
			return nil, err
		}
		again := false
		var other []string
		for _, p := range pkgs {
			for _, e := range p.Errors {
				if w.dropAt(e) {
					again = true
				} else {
					other = append(other, e.Error())
				}
			}
		}
		if again {
			continue
		}
		if len(other) > 0 {
			return nil, fmt.Errorf("the code does not type-check: %s", strings.Join(other, "; "))
		}
		w.pkgs = pkgs
		break
	}
	prog, _ := ssautil.AllPackages(w.pkgs, ssa.InstantiateGenerics)
	w.prog = prog
	prog.Build()
	return w, w.collect()
}

func goEnv() []string {
	return append(os.Environ(), "GOFLAGS=-mod=readonly", "GOPROXY=off", "GOTOOLCHAIN=local", "GOWORK=off", "CGO_ENABLED=0")
}

// dropAt removes the contract declaration at an error position.
func (w *World) dropAt(e packages.Error) bool {
	parts := strings.Split(e.Pos, ":")
	if len(parts) < 2 || !w.specFiles[parts[0]] {
		return false
	}
	line := 0
	fmt.Sscan(parts[1], &line)
	src := w.contents[parts[0]]
	fs := token.NewFileSet()
	f, err := parser.ParseFile(fs, parts[0], src, parser.ParseComments)
	if err != nil {
		return false
	}
	for _, d := range f.Decls {
		a, b := fs.Position(d.Pos()), fs.Position(d.End())
		if line < a.Line || line > b.Line {
			continue
		}
		if fd, ok := d.(*ast.FuncDecl); ok {
			w.dropped = append(w.dropped, filepath.Base(parts[0])+":"+fd.Name.Name+": "+e.Msg)
			n := append([]byte{}, src[:a.Offset]...)
			for i := a.Offset; i < b.Offset; i++ {
				if src[i] == '\n' {
					n = append(n, '\n')
				} else {
					n = append(n, ' ')
				}
			}
			n = append(n, src[b.Offset:]...)
			w.contents[parts[0]] = n
			return true
		}
		if gd, ok := d.(*ast.GenDecl); ok && gd.Tok == token.IMPORT {
			for _, s := range gd.Specs {
				sp := s.(*ast.ImportSpec)
				sa, sb := fs.Position(sp.Pos()), fs.Position(sp.End())
				if sa.Line == line {
					n := append([]byte{}, src...)
					if sp.Name != nil {
						// already blank: the import itself fails
						for i := sa.Offset; i < sb.Offset; i++ {
							n[i] = ' '
						}
					} else {
						n = append(append(append([]byte{}, src[:sa.Offset]...), []byte("_ ")...), src[sa.Offset:]...)
					}
					w.contents[parts[0]] = n
					return true
				}
			}
		}
	}
	return false
}

func (w *World) collect() error {
	for _, p := range w.pkgs {
		for i, f := range p.Syntax {
			_ = i
			fname := w.fset.Position(f.Pos()).Filename
			if !w.specFiles[fname] || strings.HasSuffix(p.PkgPath, "/internal/vc") {
				continue
			}
			for _, d := range f.Decls {
				fd, ok := d.(*ast.FuncDecl)
				if !ok || fd.Doc == nil || !strings.HasPrefix(fd.Name.Name, "spec_") {
					continue
				}
				sp := &SpecFn{fnName: fd.Name.Name, file: fname, decl: fd, noUse: map[string]bool{}, gens: map[string]string{}, timeout: 20}
				sp.opts = Opts{safety: true, term: true}
				rel, _ := filepath.Rel(w.repo, filepath.Dir(fname))
				sp.pkgDir = rel
				sp.name = rel + "/" + strings.TrimPrefix(fd.Name.Name, "spec_")
				if rel == "." {
					sp.name = strings.TrimPrefix(fd.Name.Name, "spec_")
				}
				for _, c := range fd.Doc.List {
					t := strings.TrimPrefix(c.Text, "//vc:")
					if t == c.Text {
						continue
					}
					fs := strings.Fields(t)
					switch fs[0] {
					case "target":
						sp.tgtName = fs[1]
					case "prop":
						sp.props = append(sp.props, fs[1:]...)
					case "use":
						sp.use = true
					case "aux":
						sp.aux = true
					case "bounded":
						sp.bounded = true
					case "known":
						sp.known = strings.Join(fs[1:], " ")
						sp.bounded = true
					case "noexec":
						sp.noExec = true
					case "maxsize":
						fmt.Sscan(fs[1], &sp.maxSize)
					case "inline":
						for _, x := range fs[1:] {
							sp.noUse[x] = true
						}
					case "timeout":
						fmt.Sscan(fs[1], &sp.timeout)
					case "assume":
						sp.notes = append(sp.notes, strings.Join(fs[1:], " "))
					case "gen":
						sp.gens[fs[1]] = strings.Join(fs[2:], " ")
					case "opts":
						for _, o := range fs[1:] {
							switch o {
							case "overflow":
								sp.opts.overflow = true
							case "wrap":
								sp.opts.wrap = true
							case "noterm":
								sp.opts.term = false
							case "panics":
								sp.opts.panics = true
							case "recover":
								sp.opts.panics, sp.opts.recovers = true, true
							case "concurrent":
								sp.opts.concurrent = true
							case "nosafety":
								sp.opts.safety = false
							default:
								return fmt.Errorf("%s: unknown option %s", sp.name, o)
							}
						}
					default:
						return fmt.Errorf("%s: unknown directive %s", sp.name, fs[0])
					}
				}
				sp.fn = w.prog.Package(p.Types).Func(fd.Name.Name)
				if sp.tgtName != "" {
					sp.target = w.find(p.Types, sp.tgtName)
					if sp.target == nil {
						w.dropped = append(w.dropped, sp.name+": target "+sp.tgtName+" does not exist")
						continue
					}
				}
				w.specs = append(w.specs, sp)
				if sp.use && sp.target != nil {
					w.use[sp.target] = sp
				}
			}
		}
	}
	sort.Slice(w.specs, func(i, j int) bool { return w.specs[i].name < w.specs[j].name })
	return nil
}

// find resolves "F", "T.M" or "(*T).M" in a package.
func (w *World) find(p *types.Package, name string) *ssa.Function {
	pkg := w.prog.Package(p)
	if i := strings.LastIndex(name, "."); i >= 0 {
		tn := strings.Trim(name[:i], "()*")
		m := name[i+1:]
		tt := pkg.Type(tn)
		if tt == nil {
			return nil
		}
		for _, t := range []types.Type{tt.Type(), types.NewPointer(tt.Type())} {
			ms := w.prog.MethodSets.MethodSet(t)
			if s := ms.Lookup(p, m); s != nil {
				f := w.prog.FuncValue(s.Obj().(*types.Func))
				if f != nil {
					return f
				}
			}
		}
		return nil
	}
	return pkg.Func(name)
}
