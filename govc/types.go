package main

// Go types to SMT leaves.

import (
	"regexp"
	"strings"
	"sync"

	"fmt"
	"go/types"
	"math/big"
)

type Unsupported struct{ msg string }

func (u Unsupported) Error() string { return "unsupported: " + u.msg }
func unsup(f string, a ...any)      { panic(Unsupported{fmt.Sprintf(f, a...)}) }

func isNamedUnsigned(t types.Type) (int, bool) {
	n, ok := types.Unalias(t).(*types.Named)
	if !ok {
		return 0, false
	}
	b, ok := n.Underlying().(*types.Basic)
	if !ok {
		return 0, false
	}
	switch b.Kind() {
	case types.Uint8:
		return 8, true
	case types.Uint16:
		return 16, true
	case types.Uint32:
		return 32, true
	}
	return 0, false
}

// under is the representation of a type: its underlying type, except for library containers that are
// represented by the sequence they hold.
func under(t types.Type) types.Type {
	if n, ok := types.Unalias(t).(*types.Named); ok && n.Obj().Pkg() != nil && n.Obj().Name() == "Deque" && n.Obj().Pkg().Path() == "github.com/edwingeng/deque/v2" && n.TypeArgs().Len() == 1 {
		return types.NewSlice(n.TypeArgs().At(0))
	}
	return t.Underlying()
}

func isBuilder(t types.Type) bool {
	n, ok := types.Unalias(t).(*types.Named)
	return ok && n.Obj().Pkg() != nil && (n.Obj().Pkg().Path() == "strings" && n.Obj().Name() == "Builder")
}

func basicSort(t types.Type) (Sort, bool) {
	if isBuilder(t) {
		return SStr, true
	}
	if n, ok := isNamedUnsigned(t); ok {
		return bvSort(n), true
	}
	switch u := t.Underlying().(type) {
	case *types.Basic:
		switch {
		case u.Info()&types.IsBoolean != 0:
			return SBool, true
		case u.Info()&types.IsInteger != 0:
			return SInt, true
		case u.Info()&types.IsFloat != 0:
			return SReal, true
		case u.Info()&types.IsString != 0:
			return SStr, true
		case u.Kind() == types.UnsafePointer:
			return SInt, true
		case u.Kind() == types.UntypedNil:
			return SInt, true
		}
	case *types.Map, *types.Chan, *types.Signature:
		return SInt, true
	case *types.Interface:
		return SIface, true
	}
	return "", false
}

// leaves lists the sorts of the flattened type.
func (e *Engine) leaves(t types.Type) []Sort {
	k := typeKey(t)
	if r, ok := e.leafCache[k]; ok {
		return r
	}
	var r []Sort
	if s, ok := basicSort(t); ok {
		r = []Sort{s}
	} else {
		switch u := under(t).(type) {
		case *types.Struct:
			for i := 0; i < u.NumFields(); i++ {
				r = append(r, e.leaves(u.Field(i).Type())...)
			}
		case *types.Tuple:
			for i := 0; i < u.Len(); i++ {
				r = append(r, e.leaves(u.At(i).Type())...)
			}
		case *types.Array:
			if u.Len() > 64 {
				unsup("array of %d elements", u.Len())
			}
			for i := int64(0); i < u.Len(); i++ {
				r = append(r, e.leaves(u.Elem())...)
			}
		case *types.Slice:
			r = []Sort{SInt, SInt, SInt, SInt}
		case *types.Pointer:
			r = []Sort{SInt, SInt}
		default:
			unsup("type %s", t)
		}
	}
	e.leafCache[k] = r
	return r
}

func typeKey(t types.Type) string {
	if k, ok := typeKeys.Load(t); ok {
		return k.(string)
	}
	k := types.TypeString(types.Unalias(t), func(p *types.Package) string { return p.Path() })
	k = aliasRE.ReplaceAllStringFunc(k, func(m string) string {
		return strings.NewReplacer("byte", "uint8", "rune", "int32").Replace(m)
	})
	typeKeys.Store(t, k)
	return k
}

var (
	typeKeys sync.Map
	aliasRE  = regexp.MustCompile(`(^|[^\w./])(byte|rune)\b`)
)

func shortType(t types.Type) string {
	return types.TypeString(t, func(p *types.Package) string { return p.Name() })
}

// integer range of a machine type; ok=false when unbounded/irrelevant.
func intRange(t types.Type) (lo, hi *big.Int, wrapBits int, signed, ok bool) {
	b, isB := t.Underlying().(*types.Basic)
	if !isB {
		return
	}
	var n int
	switch b.Kind() {
	case types.Int, types.Int64, types.UntypedInt:
		n, signed = 64, true
	case types.Int32, types.UntypedRune:
		n, signed = 32, true
	case types.Int16:
		n, signed = 16, true
	case types.Int8:
		n, signed = 8, true
	case types.Uint, types.Uint64, types.Uintptr:
		n = 64
	case types.Uint32:
		n = 32
	case types.Uint16:
		n = 16
	case types.Uint8:
		n = 8
	default:
		return
	}
	one := big.NewInt(1)
	if signed {
		hi = new(big.Int).Sub(new(big.Int).Lsh(one, uint(n-1)), one)
		lo = new(big.Int).Neg(new(big.Int).Lsh(one, uint(n-1)))
	} else {
		lo = big.NewInt(0)
		hi = new(big.Int).Sub(new(big.Int).Lsh(one, uint(n)), one)
	}
	return lo, hi, n, signed, true
}

// ---- interface registry

type IfaceReg struct {
	t     *TermTable
	boxes map[string]*Box
	order []*Box
}
type Box struct {
	id   int
	typ  types.Type
	sort []Sort
}

func newIfaceReg(t *TermTable) *IfaceReg {
	return &IfaceReg{t: t, boxes: map[string]*Box{}}
}

func (e *Engine) box(t types.Type) *Box {
	k := typeKey(t)
	r := e.tt.ifc
	if b, ok := r.boxes[k]; ok {
		return b
	}
	b := &Box{id: len(r.order), typ: t, sort: e.leaves(t)}
	r.boxes[k] = b
	r.order = append(r.order, b)
	return b
}

func (e *Engine) boxTerm(t types.Type, leaves []*Term) *Term {
	b := e.box(t)
	return e.tt.mk(fmt.Sprintf("box:%d", b.id), "", SIface, leaves...)
}
func (e *Engine) nilIface() *Term { return e.tt.mk("box:nil", "", SIface) }
func (e *Engine) isBox(t types.Type, x *Term) *Term {
	b := e.box(t)
	if strings.HasPrefix(x.op, "box:") {
		return e.tt.Bool(x.op == fmt.Sprintf("box:%d", b.id))
	}
	if x.op == "ite" {
		return e.tt.Ite(x.args[0], e.isBox(t, x.args[1]), e.isBox(t, x.args[2]))
	}
	return e.tt.mk(fmt.Sprintf("isbox:%d", b.id), "", SBool, x)
}
func (e *Engine) unbox(t types.Type, x *Term) []*Term {
	b := e.box(t)
	if x.op == fmt.Sprintf("box:%d", b.id) {
		return x.args
	}
	if x.op == "ite" {
		// choose a branch that certainly is not this box away
		l, r := x.args[1], x.args[2]
		if strings.HasPrefix(l.op, "box:") && l.op != fmt.Sprintf("box:%d", b.id) {
			return e.unbox(t, r)
		}
		if strings.HasPrefix(r.op, "box:") && r.op != fmt.Sprintf("box:%d", b.id) {
			return e.unbox(t, l)
		}
	}
	var out []*Term
	for i, s := range b.sort {
		out = append(out, e.tt.mk(fmt.Sprintf("unbox:%d:%d", b.id, i), "", s, x))
	}
	return out
}
