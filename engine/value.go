package main

import (
	"fmt"
	"go/types"

	"golang.org/x/tools/go/ssa"
	"golang.org/x/tools/go/types/typeutil"
)

// Value is an interpreted Go value:
//
//	uint64          integer of any width, truncated to its width
//	bool            concrete bool
//	*Expr           symbolic integer (w>0) or bool (w==0)
//	float64         floats
//	string          concrete string
//	*SymStr         string with at least one symbolic byte
//	*Value          pointer
//	Struct, Array   aggregates
//	Slice           slice
//	*MapObj         map
//	*ChanObj        channel
//	Iface           interface
//	*Closure        func value (nil func: (*Closure)(nil))
//	Tuple           multiple results
//	*Native         opaque native object
type Value interface{}

type (
	Struct []Value
	Array  []Value
	Tuple  []Value
	Slice  []Value
	SymStr struct{ b []Value }
	Iface  struct {
		T *TInfo
		V Value
	}
	Closure struct {
		fn     *FnCode
		env    []Value
		native func(in *Interp, fr *Frame, args []Value) Value
		name   string
	}
	Native struct {
		v    interface{}
		kind string
	}
)

// TInfo is the canonical descriptor of a type.
type TInfo struct {
	T       types.Type
	U       types.Type // underlying
	id      int
	kind    tkind
	w       uint8
	signed  bool
	elem    *TInfo   // pointer, slice, array, chan, map value
	key     *TInfo   // map key
	fields  []*TInfo // struct
	n       int64    // array length
	methods map[string]*Closure
	size    int64
	impl    map[*TInfo]bool
}

type tkind uint8

const (
	kInvalid tkind = iota
	kBool
	kInt
	kFloat
	kComplex
	kString
	kPtr
	kSlice
	kMap
	kChan
	kFunc
	kStruct
	kArray
	kIface
	kTuple
	kUnsafe
)

type typeTab struct {
	byType map[types.Type]*TInfo
	canon  typeutil.Map
	n      int
	sizes  types.Sizes
}

func newTypeTab() *typeTab {
	return &typeTab{byType: map[types.Type]*TInfo{}, sizes: types.SizesFor("gc", "amd64")}
}

func (tt *typeTab) get(t types.Type) *TInfo {
	if ti, ok := tt.byType[t]; ok {
		return ti
	}
	if v := tt.canon.At(t); v != nil {
		ti := v.(*TInfo)
		tt.byType[t] = ti
		return ti
	}
	tt.n++
	ti := &TInfo{T: t, U: t.Underlying(), id: tt.n, impl: map[*TInfo]bool{}}
	tt.byType[t] = ti
	tt.canon.Set(t, ti)
	switch u := ti.U.(type) {
	case *types.Basic:
		switch {
		case u.Info()&types.IsBoolean != 0:
			ti.kind = kBool
		case u.Info()&types.IsInteger != 0:
			ti.kind = kInt
			ti.w, ti.signed = intInfo(u.Kind())
		case u.Info()&types.IsFloat != 0:
			ti.kind = kFloat
			ti.w = 64
			if u.Kind() == types.Float32 {
				ti.w = 32
			}
		case u.Info()&types.IsComplex != 0:
			ti.kind = kComplex
		case u.Info()&types.IsString != 0:
			ti.kind = kString
		case u.Kind() == types.UnsafePointer:
			ti.kind = kUnsafe
		case u.Kind() == types.UntypedNil:
			ti.kind = kUnsafe
		default:
			ti.kind = kInvalid
		}
	case *types.Pointer:
		ti.kind = kPtr
		ti.elem = tt.get(u.Elem())
	case *types.Slice:
		ti.kind = kSlice
		ti.elem = tt.get(u.Elem())
	case *types.Map:
		ti.kind = kMap
		ti.key = tt.get(u.Key())
		ti.elem = tt.get(u.Elem())
	case *types.Chan:
		ti.kind = kChan
		ti.elem = tt.get(u.Elem())
	case *types.Signature:
		ti.kind = kFunc
	case *types.Struct:
		ti.kind = kStruct
		for i := 0; i < u.NumFields(); i++ {
			ti.fields = append(ti.fields, tt.get(u.Field(i).Type()))
		}
	case *types.Array:
		ti.kind = kArray
		ti.elem = tt.get(u.Elem())
		ti.n = u.Len()
	case *types.Interface:
		ti.kind = kIface
	case *types.Tuple:
		ti.kind = kTuple
		for i := 0; i < u.Len(); i++ {
			ti.fields = append(ti.fields, tt.get(u.At(i).Type()))
		}
	}
	return ti
}

func intInfo(k types.BasicKind) (uint8, bool) {
	switch k {
	case types.Int, types.Int64, types.UntypedInt:
		return 64, true
	case types.Int8:
		return 8, true
	case types.Int16:
		return 16, true
	case types.Int32, types.UntypedRune:
		return 32, true
	case types.Uint, types.Uint64, types.Uintptr:
		return 64, false
	case types.Uint8:
		return 8, false
	case types.Uint16:
		return 16, false
	case types.Uint32:
		return 32, false
	}
	return 64, true
}

func (tt *typeTab) sizeof(ti *TInfo) int64 {
	if ti.size == 0 {
		ti.size = tt.sizes.Sizeof(ti.T) + 1
	}
	return ti.size - 1
}

// zero returns a fresh zero value of the type.
func zero(ti *TInfo) Value {
	switch ti.kind {
	case kBool:
		return false
	case kInt:
		return uint64(0)
	case kFloat:
		return float64(0)
	case kComplex:
		return complex128(0)
	case kString:
		return ""
	case kPtr:
		return (*Value)(nil)
	case kSlice:
		return Slice(nil)
	case kMap:
		return (*MapObj)(nil)
	case kChan:
		return (*ChanObj)(nil)
	case kFunc:
		return (*Closure)(nil)
	case kStruct:
		s := make(Struct, len(ti.fields))
		for i, f := range ti.fields {
			s[i] = zero(f)
		}
		return s
	case kArray:
		a := make(Array, ti.n)
		for i := range a {
			a[i] = zero(ti.elem)
		}
		return a
	case kIface:
		return Iface{}
	case kUnsafe:
		return (*Value)(nil)
	case kTuple:
		s := make(Tuple, len(ti.fields))
		for i, f := range ti.fields {
			s[i] = zero(f)
		}
		return s
	}
	panic(abort("unsupported", fmt.Sprintf("zero of %v", ti.T)))
}

// copyVal deep-copies aggregates, so that cells are not shared.
func copyVal(v Value) Value {
	switch v := v.(type) {
	case Struct:
		s := make(Struct, len(v))
		for i := range v {
			s[i] = copyVal(v[i])
		}
		return s
	case Array:
		s := make(Array, len(v))
		for i := range v {
			s[i] = copyVal(v[i])
		}
		return s
	}
	return v
}

// abort kinds: unsupported, steps, infeasible, unknown, violation, deadlock, killed
type pathAbort struct {
	kind string
	msg  string
}

func abort(kind, msg string) *pathAbort { return &pathAbort{kind, msg} }

// targetPanic is a Go panic of the interpreted program.
type targetPanic struct{ v Iface }

// MapObj is an insertion-ordered map.
type MapObj struct {
	ents  []*mapEnt
	idx   map[interface{}]*mapEnt
	sym   bool // some key is symbolic
	live  int
	epoch int
}

type mapEnt struct {
	k, v Value
	hk   interface{}
	dead bool
}

type ifaceKey struct {
	t *TInfo
	k interface{}
}

// hashKey returns a comparable Go key for a concrete value.
func hashKey(v Value) (interface{}, bool) {
	switch v := v.(type) {
	case uint64, bool, string, float64, *Value, *ChanObj, *MapObj, *Native, *Closure:
		return v, true
	case *Expr, *SymStr:
		return nil, false
	case Iface:
		if v.T == nil {
			return ifaceKey{}, true
		}
		switch v.V.(type) {
		case Slice, *MapObj, *Closure:
			return nil, false
		}
		k, ok := hashKey(v.V)
		return ifaceKey{v.T, k}, ok
	case Struct:
		return hashKeys([]Value(v))
	case Array:
		return hashKeys([]Value(v))
	}
	return nil, false
}

func hashKeys(vs []Value) (interface{}, bool) {
	s := ""
	for _, x := range vs {
		k, ok := hashKey(x)
		if !ok {
			return nil, false
		}
		s += fmt.Sprintf("%T:%v\x00", k, k)
	}
	return s, true
}

func newMap(epoch int) *MapObj {
	return &MapObj{idx: map[interface{}]*mapEnt{}, epoch: epoch}
}

func isNilFunc(v Value) bool {
	c, _ := v.(*Closure)
	return c == nil
}

func fnName(f *ssa.Function) string {
	if o := f.Origin(); o != nil {
		return o.String()
	}
	return f.String()
}
