package main

// Canonical runtime types. One *RType exists per identical go/types type, so pointer equality is
// type identity, as in the Go runtime.

import (
	"fmt"
	"go/types"
	"reflect"
	"strings"
	"sync"

	"golang.org/x/tools/go/ssa"
	"golang.org/x/tools/go/types/typeutil"
)

type RField struct {
	Name     string
	Type     *RType
	Tag      string
	PkgPath  string
	Embedded bool
	Exported bool
	Offset   int64
}

type RType struct {
	T      types.Type
	id     int
	Kind   reflect.Kind
	W      uint8 // bits of a scalar; 0 for bool and non-scalars
	Signed bool
	once   sync.Once
	elem   *RType
	key    *RType
	n      int
	fields []RField
	in     []*RType
	out    []*RType
	zero   Value
	opaque bool // struct represented as a leaf (reflect.Value)
	mu     sync.Mutex
	meths  map[string]*Fn
	mset   *types.MethodSet
	str    string
	gen    *Gen // engine-owned data of synthesised types
}

type Gen struct{}

type Universe struct {
	mu      sync.Mutex
	tab     typeutil.Map
	n       int
	prog    *ssa.Program
	funcs   sync.Map // *ssa.Function -> *Fn
	nfn     int32
	sizes   types.Sizes
	fieldPk map[*types.Var]string
}

var U = &Universe{sizes: types.SizesFor("gc", "amd64")}

func RT(t types.Type) *RType {
	t = types.Unalias(t)
	U.mu.Lock()
	defer U.mu.Unlock()
	if r := U.tab.At(t); r != nil {
		return r.(*RType)
	}
	r := &RType{T: t, id: U.n}
	U.n++
	U.tab.Set(t, r)
	switch u := t.Underlying().(type) {
	case *types.Basic:
		switch u.Kind() {
		case types.Bool, types.UntypedBool:
			r.Kind = reflect.Bool
		case types.Int, types.UntypedInt:
			r.Kind, r.W, r.Signed = reflect.Int, 64, true
		case types.Int8:
			r.Kind, r.W, r.Signed = reflect.Int8, 8, true
		case types.Int16:
			r.Kind, r.W, r.Signed = reflect.Int16, 16, true
		case types.Int32, types.UntypedRune:
			r.Kind, r.W, r.Signed = reflect.Int32, 32, true
		case types.Int64:
			r.Kind, r.W, r.Signed = reflect.Int64, 64, true
		case types.Uint:
			r.Kind, r.W = reflect.Uint, 64
		case types.Uint8:
			r.Kind, r.W = reflect.Uint8, 8
		case types.Uint16:
			r.Kind, r.W = reflect.Uint16, 16
		case types.Uint32:
			r.Kind, r.W = reflect.Uint32, 32
		case types.Uint64:
			r.Kind, r.W = reflect.Uint64, 64
		case types.Uintptr:
			r.Kind, r.W = reflect.Uintptr, 64
		case types.Float32:
			r.Kind, r.W = reflect.Float32, 32
		case types.Float64, types.UntypedFloat:
			r.Kind, r.W = reflect.Float64, 64
		case types.Complex64:
			r.Kind = reflect.Complex64
		case types.Complex128:
			r.Kind = reflect.Complex128
		case types.String, types.UntypedString:
			r.Kind = reflect.String
		case types.UnsafePointer:
			r.Kind = reflect.UnsafePointer
		default:
			r.Kind = reflect.Invalid
		}
	case *types.Pointer:
		r.Kind = reflect.Pointer
	case *types.Slice:
		r.Kind = reflect.Slice
	case *types.Array:
		r.Kind = reflect.Array
		r.n = int(u.Len())
	case *types.Map:
		r.Kind = reflect.Map
	case *types.Chan:
		r.Kind = reflect.Chan
	case *types.Struct:
		r.Kind = reflect.Struct
		if named, ok := t.(*types.Named); ok && named.Obj().Pkg() != nil && named.Obj().Pkg().Path() == "reflect" && named.Obj().Name() == "Value" {
			r.opaque = true
		}
	case *types.Signature:
		r.Kind = reflect.Func
	case *types.Interface:
		r.Kind = reflect.Interface
	case *types.Tuple:
		r.Kind = reflect.Invalid
	}
	return r
}

func (r *RType) init() {
	r.once.Do(func() {
		switch u := r.T.Underlying().(type) {
		case *types.Pointer:
			r.elem = RT(u.Elem())
		case *types.Slice:
			r.elem = RT(u.Elem())
		case *types.Array:
			r.elem = RT(u.Elem())
		case *types.Chan:
			r.elem = RT(u.Elem())
		case *types.Map:
			r.elem = RT(u.Elem())
			r.key = RT(u.Key())
		case *types.Struct:
			var vars []*types.Var
			for i := 0; i < u.NumFields(); i++ {
				f := u.Field(i)
				vars = append(vars, f)
				rf := RField{Name: f.Name(), Type: RT(f.Type()), Tag: u.Tag(i), Embedded: f.Embedded(), Exported: f.Exported()}
				if !f.Exported() && f.Pkg() != nil {
					rf.PkgPath = f.Pkg().Path()
				}
				r.fields = append(r.fields, rf)
			}
			offs := U.sizes.Offsetsof(vars)
			for i := range r.fields {
				r.fields[i].Offset = offs[i]
			}
		case *types.Signature:
			for i := 0; i < u.Params().Len(); i++ {
				r.in = append(r.in, RT(u.Params().At(i).Type()))
			}
			for i := 0; i < u.Results().Len(); i++ {
				r.out = append(r.out, RT(u.Results().At(i).Type()))
			}
		}
		// zero value
		switch r.Kind {
		case reflect.Struct:
			if !r.opaque {
				a := &Agg{F: make([]Value, len(r.fields))}
				for i, f := range r.fields {
					a.F[i] = f.Type.Zero()
				}
				r.zero = Value{O: a}
			}
		case reflect.Array:
			if r.n > 1<<20 {
				break // built lazily
			}
			a := &Agg{F: make([]Value, r.n)}
			z := r.elem.Zero()
			for i := range a.F {
				a.F[i] = z
			}
			r.zero = Value{O: a}
		case reflect.Complex64, reflect.Complex128:
			r.zero = Value{O: &Agg{F: make([]Value, 2)}}
		}
	})
}

func (r *RType) Elem() *RType     { r.init(); return r.elem }
func (r *RType) Key() *RType      { r.init(); return r.key }
func (r *RType) Fields() []RField { r.init(); return r.fields }
func (r *RType) Zero() Value      { r.init(); return r.zero }
func (r *RType) isFloat() bool    { return r.Kind == reflect.Float32 || r.Kind == reflect.Float64 }
func (r *RType) isInt() bool      { return r.Kind >= reflect.Int && r.Kind <= reflect.Uintptr }
func (r *RType) PtrTo() *RType    { return RT(types.NewPointer(r.T)) }
func (r *RType) Size() int64      { return U.sizes.Sizeof(r.T) }

func (r *RType) Named() *types.Named {
	n, _ := types.Unalias(r.T).(*types.Named)
	return n
}

func (r *RType) Name() string {
	switch t := r.T.(type) {
	case *types.Named:
		return t.Obj().Name()
	case *types.Basic:
		return t.Name()
	}
	return ""
}

func (r *RType) PkgPath() string {
	if n := r.Named(); n != nil && n.Obj().Pkg() != nil {
		return n.Obj().Pkg().Path()
	}
	return ""
}

func (r *RType) String() string {
	if r == nil {
		return "<nil>"
	}
	r.mu.Lock()
	defer r.mu.Unlock()
	if r.str == "" {
		r.str = types.TypeString(r.T, func(p *types.Package) string { return p.Name() })
		r.str = strings.ReplaceAll(r.str, "struct{", "struct { ")
		if r.str == "any" {
			r.str = "interface {}"
		}
	}
	return r.str
}

// Method finds the concrete method implementing the given interface method.
func (r *RType) Method(m *types.Func) *Fn {
	name := m.Name()
	key := name
	if !m.Exported() && m.Pkg() != nil {
		key = m.Pkg().Path() + "." + name
	}
	r.mu.Lock()
	defer r.mu.Unlock()
	if f, ok := r.meths[key]; ok {
		return f
	}
	if r.meths == nil {
		r.meths = map[string]*Fn{}
	}
	if r.mset == nil {
		r.mset = U.prog.MethodSets.MethodSet(r.T)
	}
	var fn *Fn
	if sel := r.mset.Lookup(m.Pkg(), name); sel != nil {
		fn = FnOf(U.prog.MethodValue(sel))
	}
	r.meths[key] = fn
	return fn
}

func (r *RType) MethodSet() *types.MethodSet {
	r.mu.Lock()
	defer r.mu.Unlock()
	if r.mset == nil {
		r.mset = U.prog.MethodSets.MethodSet(r.T)
	}
	return r.mset
}

var implMu sync.Mutex
var implCache = map[[2]int]bool{}

// Implements reports whether r's method set covers interface type i.
func (r *RType) Implements(i *RType) bool {
	it, ok := i.T.Underlying().(*types.Interface)
	if !ok {
		return false
	}
	k := [2]int{r.id, i.id}
	implMu.Lock()
	v, ok := implCache[k]
	implMu.Unlock()
	if ok {
		return v
	}
	v = true
	ms := r.MethodSet()
	for j := 0; j < it.NumMethods(); j++ {
		m := it.Method(j)
		sel := ms.Lookup(m.Pkg(), m.Name())
		if sel == nil || !types.Identical(sel.Obj().Type().(*types.Signature), m.Type()) && !sameSig(sel.Type(), m.Type()) {
			v = false
			break
		}
	}
	implMu.Lock()
	implCache[k] = v
	implMu.Unlock()
	return v
}

func sameSig(a, b types.Type) bool {
	x, ok1 := a.(*types.Signature)
	y, ok2 := b.(*types.Signature)
	return ok1 && ok2 && types.Identical(x.Params(), y.Params()) && types.Identical(x.Results(), y.Results()) && x.Variadic() == y.Variadic()
}

// Comparable reports whether values of the type can be compared with ==.
func (r *RType) Comparable() bool {
	switch r.Kind {
	case reflect.Slice, reflect.Map, reflect.Func:
		return false
	case reflect.Array:
		return r.Elem().Comparable()
	case reflect.Struct:
		for _, f := range r.Fields() {
			if !f.Type.Comparable() {
				return false
			}
		}
	}
	return true
}

func (r *RType) assignableTo(to *RType) bool {
	if r == to {
		return true
	}
	if to.Kind == reflect.Interface {
		return r.Implements(to)
	}
	return types.AssignableTo(r.T, to.T)
}

var _ = fmt.Sprint
