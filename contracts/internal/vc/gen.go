package vc

import (
	"encoding/json"
	"fmt"
	"math/rand"
	"os"
	"reflect"
	"runtime/debug"
	"sort"
	"strings"
	"time"
	"unsafe"
)

// Replay: contracts are executed on the real code over generated inputs.

// R is the source of choices for generators.
type R struct {
	*rand.Rand
	Size   int
	Hints  map[string]int64
	Consts []int
	Memo   map[string]any // choices shared between the generators of one input
	path   string
	depth  int
}

var gens = map[reflect.Type]func(*R) reflect.Value{}

// Register sets the generator of a type.
func Register[T any](f func(r *R) T) bool {
	t := reflect.TypeOf((*T)(nil)).Elem()
	gens[t] = func(r *R) reflect.Value {
		v := reflect.New(t).Elem()
		x := reflect.ValueOf(f(r))
		if x.IsValid() {
			v.Set(x)
		}
		return v
	}
	return true
}

// Int in [lo, hi].
func (r *R) Int(lo, hi int) int {
	if hi <= lo {
		return lo
	}
	return lo + r.Intn(hi-lo+1)
}

func (r *R) Bool() bool { return r.Intn(2) == 0 }

// Small is a small number, sometimes negative.
func (r *R) Small() int {
	switch r.Intn(10) {
	case 0:
		return -r.Intn(r.Size + 2)
	case 1:
		if len(r.Consts) > 0 {
			return r.Consts[r.Intn(len(r.Consts))]
		}
	}
	return r.Intn(r.Size + 3)
}

var glyphs = []string{"a", "b", "c", " ", "x", "界", "好", "é", "😀", "👨‍👩‍👧", "\u0301", "\u200b", "─", "0", "9", "Z", "-", "\t", "\n", "e\u0301", "🇩🇪", "\u00a0"}

// Str is a string of grapheme clusters of mixed width.
func (r *R) Str() string {
	n := r.Intn(r.Size + 1)
	var b strings.Builder
	plain := r.Intn(3) == 0
	for i := 0; i < n; i++ {
		if plain {
			b.WriteByte(byte('a' + r.Intn(4)))
		} else {
			b.WriteString(glyphs[r.Intn(len(glyphs))])
		}
	}
	return b.String()
}

// Pick returns one of the values.
func Pick[T any](r *R, xs ...T) T { return xs[r.Intn(len(xs))] }

// Make generates a value of type T.
func Make[T any](r *R) T {
	t := reflect.TypeOf((*T)(nil)).Elem()
	return *(*T)(unsafe.Pointer(genVal(r, t).Addr().Pointer()))
}

// List generates up to n values.
func List[T any](r *R, n int) []T {
	var out []T
	for k := r.Intn(n + 1); k > 0; k-- {
		out = append(out, Make[T](r))
	}
	return out
}

func genVal(r *R, t reflect.Type) reflect.Value {
	v := reflect.New(t).Elem()
	fill(r, v)
	return v
}

func settable(v reflect.Value) reflect.Value {
	if v.CanSet() {
		return v
	}
	return reflect.NewAt(v.Type(), unsafe.Pointer(v.UnsafeAddr())).Elem()
}

func fill(r *R, v reflect.Value) {
	v = settable(v)
	t := v.Type()
	if g, ok := gens[t]; ok {
		v.Set(g(r))
		return
	}
	h, hinted := r.Hints[r.path]
	switch t.Kind() {
	case reflect.Bool:
		if hinted {
			v.SetBool(h != 0)
		} else {
			v.SetBool(r.Bool())
		}
	case reflect.Int, reflect.Int64:
		if hinted {
			v.SetInt(h)
		} else {
			v.SetInt(int64(r.Small()))
		}
	case reflect.Int32, reflect.Int16, reflect.Int8:
		if hinted {
			v.SetInt(h)
		} else if t.Kind() == reflect.Int32 {
			s := []rune(r.Str())
			if len(s) > 0 {
				v.SetInt(int64(s[0]))
			}
		} else {
			v.SetInt(int64(r.Small()))
		}
	case reflect.Uint, reflect.Uint64, reflect.Uint32, reflect.Uint16, reflect.Uint8, reflect.Uintptr:
		if hinted {
			v.SetUint(uint64(h))
		} else if r.Bool() {
			v.SetUint(uint64(r.Intn(6)))
		} else {
			v.SetUint(uint64(r.Int63()))
		}
	case reflect.Float64, reflect.Float32:
		v.SetFloat([]float64{0, 1, 0.5, 0.25, 2, -1, 0.75, 3, float64(r.Intn(20)) / 4, r.Float64()}[r.Intn(10)])
	case reflect.String:
		v.SetString(r.Str())
	case reflect.Slice:
		n := r.Intn(r.Size + 1)
		if k, ok := r.Hints[r.path+".len"]; ok && k >= 0 && k < 64 {
			n = int(k)
		}
		if n == 0 && r.Bool() {
			return
		}
		s := reflect.MakeSlice(t, n, n+r.Intn(3))
		p := r.path
		for i := 0; i < n; i++ {
			r.path = fmt.Sprintf("%s[%d]", p, i)
			fill(r, s.Index(i))
		}
		r.path = p
		v.Set(s)
	case reflect.Array:
		p := r.path
		for i := 0; i < t.Len(); i++ {
			r.path = fmt.Sprintf("%s[%d]", p, i)
			fill(r, v.Index(i))
		}
		r.path = p
	case reflect.Struct:
		p := r.path
		for i := 0; i < t.NumField(); i++ {
			r.path = p + "." + t.Field(i).Name
			fill(r, v.Field(i))
		}
		r.path = p
	case reflect.Pointer:
		r.depth++
		if r.depth < 4 && r.Intn(5) > 0 {
			x := reflect.New(t.Elem())
			fill(r, x.Elem())
			v.Set(x)
		}
		r.depth--
	case reflect.Map:
		m := reflect.MakeMap(t)
		for k := r.Intn(r.Size + 1); k > 0; k-- {
			a, b := reflect.New(t.Key()).Elem(), reflect.New(t.Elem()).Elem()
			fill(r, a)
			fill(r, b)
			m.SetMapIndex(a, b)
		}
		v.Set(m)
	case reflect.Interface:
		// left nil unless registered
	}
}

// Case is one contract to execute.
type Case struct {
	Name string
	Fn   any
}

type Job struct {
	Name    string             `json:"name"`
	Runs    int                `json:"runs"`
	Millis  int                `json:"millis"`
	Hints   []map[string]int64 `json:"hints"`
	Consts  []int              `json:"consts"`
	MaxSize int                `json:"maxsize"`
	Only    int                `json:"only"`
}

type Config struct {
	Seed int64  `json:"seed"`
	Jobs []Job  `json:"jobs"`
	Out  string `json:"out"`
}

type Found struct {
	Name    string         `json:"name"`
	Kind    string         `json:"kind"` // failure, panic, hang, none
	Oblig   string         `json:"obligation"`
	Input   string         `json:"input"`
	Iter    int            `json:"iter"`
	Tried   int            `json:"tried"`
	Skipped int            `json:"skipped"`
	Ensured map[string]int `json:"ensured"`
}

var ensured map[string]int

func inputs(seed int64, iter int, job *Job, ft reflect.Type) []reflect.Value {
	size := 1 + iter/60
	mx := job.MaxSize
	if mx == 0 {
		mx = 9
	}
	if size > mx {
		size = 1 + int((uint(iter)*2654435761)>>7)%mx
	}
	r := &R{Rand: rand.New(rand.NewSource(seed*1000003 + int64(iter))), Size: size, Consts: job.Consts, Memo: map[string]any{}}
	if iter < len(job.Hints)*8 {
		r.Hints = job.Hints[iter/8]
	}
	var in []reflect.Value
	for i := 0; i < ft.NumIn(); i++ {
		r.path = fmt.Sprintf("%d", i)
		t := ft.In(i)
		if t.Kind() == reflect.Pointer {
			x := reflect.New(t.Elem())
			fill(r, x.Elem())
			in = append(in, x)
			continue
		}
		in = append(in, genVal(r, t))
	}
	return in
}

func once(fn reflect.Value, in []reflect.Value) (kind, obl string) {
	defer func() {
		if r := recover(); r != nil {
			switch x := r.(type) {
			case Skip:
				kind = "skip"
			case Failure:
				kind, obl = "failure", x.Name
			default:
				st := string(debug.Stack())
				kind, obl = "panic", fmt.Sprint(r)+"\n"+trimStack(st)
			}
		}
	}()
	fn.Call(in)
	return "ok", ""
}

func trimStack(s string) string {
	var out []string
	for _, l := range strings.Split(s, "\n") {
		if strings.Contains(l, ".go:") && !strings.Contains(l, "/internal/vc/") && !strings.Contains(l, "/src/runtime/") && !strings.Contains(l, "/src/reflect/") {
			out = append(out, strings.TrimSpace(l))
		}
		if len(out) > 5 {
			break
		}
	}
	return strings.Join(out, "\n")
}

// Main runs the jobs of the configuration file named by VC_CFG.
func Main(cases []Case) {
	b, err := os.ReadFile(os.Getenv("VC_CFG"))
	if err != nil {
		panic(err)
	}
	var cfg Config
	if err := json.Unmarshal(b, &cfg); err != nil {
		panic(err)
	}
	var out []Found
	write := func() {
		j, _ := json.Marshal(out)
		os.WriteFile(cfg.Out, j, 0o644)
	}
	for _, job := range cfg.Jobs {
		job := job
		var c *Case
		for i := range cases {
			if cases[i].Name == job.Name {
				c = &cases[i]
			}
		}
		if c == nil {
			continue
		}
		fn := reflect.ValueOf(c.Fn)
		f := Found{Name: job.Name, Kind: "none", Ensured: map[string]int{}}
		ensured = f.Ensured
		start := time.Now()
		for it := 0; it < job.Runs; it++ {
			if job.Only >= 0 && it != job.Only {
				continue
			}
			if it%16 == 0 && time.Since(start) > time.Duration(job.Millis)*time.Millisecond {
				break
			}
			in := inputs(cfg.Seed, it, &job, fn.Type())
			type res struct{ k, o string }
			ch := make(chan res, 1)
			go func() {
				k, o := once(fn, in)
				ch <- res{k, o}
			}()
			var rs res
			select {
			case rs = <-ch:
			case <-time.After(10 * time.Second):
				rs = res{"hang", "no result after 10 s"}
			}
			if rs.k == "skip" {
				f.Skipped++
				continue
			}
			f.Tried++
			if rs.k != "ok" {
				f.Kind, f.Oblig, f.Iter = rs.k, rs.o, it
				f.Input = show(inputs(cfg.Seed, it, &job, fn.Type()))
				break
			}
		}
		out = append(out, f)
		write()
		if f.Kind == "hang" {
			os.Exit(0)
		}
	}
	write()
}

func show(in []reflect.Value) string {
	var b strings.Builder
	for i, v := range in {
		if i > 0 {
			b.WriteString(", ")
		}
		dump(&b, v, 0)
	}
	return b.String()
}

func dump(b *strings.Builder, v reflect.Value, d int) {
	if d > 9 {
		b.WriteString("...")
		return
	}
	switch v.Kind() {
	case reflect.Pointer:
		if v.IsNil() {
			b.WriteString("nil")
			return
		}
		b.WriteString("&")
		dump(b, v.Elem(), d+1)
	case reflect.Interface:
		if v.IsNil() {
			b.WriteString("nil")
			return
		}
		if x := v.Elem(); x.Kind() != reflect.Struct && x.Kind() != reflect.Pointer {
			b.WriteString(x.Type().String() + " ")
		}
		dump(b, v.Elem(), d+1)
	case reflect.Struct:
		b.WriteString(v.Type().String() + "{")
		for i := 0; i < v.NumField(); i++ {
			if i > 0 {
				b.WriteString(", ")
			}
			b.WriteString(v.Type().Field(i).Name + ": ")
			dump(b, v.Field(i), d+1)
		}
		b.WriteString("}")
	case reflect.Slice, reflect.Array:
		if v.Kind() == reflect.Slice && v.IsNil() {
			b.WriteString("nil")
			return
		}
		b.WriteString("[")
		for i := 0; i < v.Len(); i++ {
			if i > 0 {
				b.WriteString(", ")
			}
			if i > 60 {
				b.WriteString("...")
				break
			}
			dump(b, v.Index(i), d+1)
		}
		b.WriteString("]")
	case reflect.Map:
		b.WriteString("map[")
		var ks []string
		for _, k := range v.MapKeys() {
			var kb strings.Builder
			dump(&kb, k, d+1)
			kb.WriteString(": ")
			dump(&kb, v.MapIndex(k), d+1)
			ks = append(ks, kb.String())
		}
		sort.Strings(ks)
		b.WriteString(strings.Join(ks, ", ") + "]")
	case reflect.String:
		fmt.Fprintf(b, "%q", v.String())
	case reflect.Func:
		b.WriteString("func")
	case reflect.Bool:
		fmt.Fprint(b, v.Bool())
	case reflect.Int, reflect.Int8, reflect.Int16, reflect.Int32, reflect.Int64:
		fmt.Fprint(b, v.Int())
	case reflect.Uint, reflect.Uint8, reflect.Uint16, reflect.Uint32, reflect.Uint64, reflect.Uintptr:
		fmt.Fprint(b, v.Uint())
	case reflect.Float32, reflect.Float64:
		fmt.Fprint(b, v.Float())
	default:
		b.WriteString(v.Kind().String())
	}
}
