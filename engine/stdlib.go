package main

import (
	"go/types"
	"math"
	"strconv"
)

// Models of library functions that are written with unsafe, assembly or
// reflection, so that code which uses them can be followed.

func (in *Interp) pkgType(pkg, name string) types.Type {
	p := in.prog.ImportedPackage(pkg)
	if p == nil || p.Type(name) == nil {
		in.unsupported("type %s.%s", pkg, name)
	}
	return p.Type(name).Type()
}

// deepEqual is reflect.DeepEqual.
func (in *Interp) deepEqual(ti *TInfo, a, b Value, depth int) Value {
	if depth > 40 {
		in.unsupported("deep comparison")
	}
	switch u := ti.U.(type) {
	case *types.Pointer:
		p, q := a, b
		if in.equal(p, q) == true {
			return true
		}
		x, ok1 := p.(*Value)
		y, ok2 := q.(*Value)
		if !ok1 || !ok2 {
			return false
		}
		if x == nil || y == nil {
			return x == nil && y == nil
		}
		return in.deepEqual(in.tt.get(u.Elem()), *x, *y, depth+1)
	case *types.Slice:
		x, y := a.(Slice), b.(Slice)
		if (x == nil) != (y == nil) || len(x) != len(y) {
			return false
		}
		var r Value = true
		for i := range x {
			r = in.and(r, in.deepEqual(ti.elem, x[i], y[i], depth+1))
			if r == false {
				return false
			}
		}
		return r
	case *types.Array:
		x, y := a.(Array), b.(Array)
		var r Value = true
		for i := range x {
			r = in.and(r, in.deepEqual(ti.elem, x[i], y[i], depth+1))
		}
		return r
	case *types.Struct:
		x, y := a.(Struct), b.(Struct)
		var r Value = true
		for i := range x {
			r = in.and(r, in.deepEqual(in.tt.get(u.Field(i).Type()), x[i], y[i], depth+1))
			if r == false {
				return false
			}
		}
		return r
	case *types.Map:
		x, y := a.(*MapObj), b.(*MapObj)
		if (x == nil) != (y == nil) {
			return false
		}
		if x == nil {
			return true
		}
		if x.live != y.live {
			return false
		}
		var r Value = true
		for _, e := range x.ents {
			if e.dead {
				continue
			}
			f := in.mapFind(y, ti.key, e.k)
			if f == nil {
				return false
			}
			r = in.and(r, in.deepEqual(ti.elem, e.v, f.v, depth+1))
		}
		return r
	case *types.Interface:
		x, y := a.(Iface), b.(Iface)
		if x.T != y.T {
			return false
		}
		if x.T == nil {
			return true
		}
		return in.deepEqual(x.T, x.V, y.V, depth+1)
	case *types.Signature:
		x, _ := a.(*Closure)
		y, _ := b.(*Closure)
		return x == nil && y == nil
	}
	return in.equal(a, b)
}

func stdlib(I map[string]intrinsic) {
	I["reflect.DeepEqual"] = func(in *Interp, fr *Frame, a []Value) Value {
		x, y := a[0].(Iface), a[1].(Iface)
		if x.T != y.T {
			return false
		}
		if x.T == nil {
			return true
		}
		return in.deepEqual(x.T, x.V, y.V, 0)
	}
	// reflect types: only what names and compares them
	rtype := func(pkg, name string) func(in *Interp, fr *Frame, a []Value) Value {
		return func(in *Interp, fr *Frame, a []Value) Value {
			i := a[0].(Iface)
			if i.T == nil {
				return Iface{}
			}
			t := in.pkgType(pkg, name)
			if pkg == "reflect" {
				t = types.NewPointer(t)
			}
			return Iface{in.tt.get(t), in.typeNative(i.T)}
		}
	}
	I["internal/reflectlite.TypeOf"] = rtype("internal/reflectlite", "rtype")
	I["reflect.TypeOf"] = rtype("reflect", "rtype")
	for _, p := range []string{"(internal/reflectlite.rtype).", "(*reflect.rtype)."} {
		ti := func(a []Value) *TInfo { return a[0].(*Native).v.(*TInfo) }
		I[p+"Comparable"] = func(in *Interp, fr *Frame, a []Value) Value { return types.Comparable(ti(a).T) }
		I[p+"String"] = func(in *Interp, fr *Frame, a []Value) Value { return typeText(ti(a).T) }
		I[p+"Name"] = func(in *Interp, fr *Frame, a []Value) Value {
			switch t := ti(a).T.(type) {
			case *types.Named:
				return t.Obj().Name()
			case *types.Basic:
				return t.Name()
			}
			return ""
		}
		I[p+"PkgPath"] = func(in *Interp, fr *Frame, a []Value) Value {
			if t, ok := ti(a).T.(*types.Named); ok && t.Obj().Pkg() != nil {
				return t.Obj().Pkg().Path()
			}
			return ""
		}
	}
	I["sort.SliceIsSorted"] = func(in *Interp, fr *Frame, a []Value) Value {
		s := a[0].(Iface).V.(Slice)
		less := a[1].(*Closure)
		for i := len(s) - 1; i > 0; i-- {
			if in.decideBool(in.callClosure(fr, less, []Value{uint64(i), uint64(i - 1)})) {
				return false
			}
		}
		return true
	}
	I["maps.clone"] = func(in *Interp, fr *Frame, a []Value) Value {
		i := a[0].(Iface)
		m := i.V.(*MapObj)
		n := newMap(in.epoch)
		for _, e := range m.ents {
			if !e.dead {
				in.mapSet(n, i.T.key, e.k, copyVal(e.v))
			}
		}
		return Iface{i.T, n}
	}
	I["internal/bytealg.MakeNoZero"] = func(in *Interp, fr *Frame, a []Value) Value {
		s := make(Slice, in.concInt(a[0]))
		for i := range s {
			s[i] = uint64(0)
		}
		return s
	}
	I["math.Float64bits"] = func(in *Interp, fr *Frame, a []Value) Value { return math.Float64bits(a[0].(float64)) }
	I["math.Float32bits"] = func(in *Interp, fr *Frame, a []Value) Value {
		return uint64(math.Float32bits(float32(a[0].(float64))))
	}
	I["math.Float64frombits"] = func(in *Interp, fr *Frame, a []Value) Value {
		if c, ok := a[0].(uint64); ok {
			return math.Float64frombits(c)
		}
		in.unsupported("float from symbolic bits")
		return nil
	}
	I["strconv.FormatFloat"] = func(in *Interp, fr *Frame, a []Value) Value {
		return strconv.FormatFloat(a[0].(float64), byte(a[1].(uint64)), int(int64(a[2].(uint64))), int(a[3].(uint64)))
	}
	I["(*errors.joinError).Error"] = func(in *Interp, fr *Frame, a []Value) Value {
		var r Value = ""
		for i, e := range (*in.deref(a[0])).(Struct)[0].(Slice) {
			if i > 0 {
				r = concat(r, "\n")
			}
			t, _ := in.callMethod(fr, e.(Iface), "Error")
			r = concat(r, t)
		}
		return r
	}
	// sync.Map, as one map guarded by the scheduler
	kt := func(in *Interp) *TInfo { return in.tt.get(types.NewInterfaceType(nil, nil)) }
	syncMap := func(in *Interp, p Value) *MapObj {
		in.preemptPoint()
		s := in.syncOf(p)
		if s.m == nil {
			s.m = newMap(in.epoch)
		}
		return s.m
	}
	I["(*sync.Map).Load"] = func(in *Interp, fr *Frame, a []Value) Value {
		if e := in.mapFind(syncMap(in, a[0]), kt(in), a[1]); e != nil {
			return Tuple{e.v, true}
		}
		return Tuple{Iface{}, false}
	}
	I["(*sync.Map).Store"] = func(in *Interp, fr *Frame, a []Value) Value {
		in.mapSet(syncMap(in, a[0]), kt(in), a[1], a[2])
		return nil
	}
	I["(*sync.Map).Swap"] = func(in *Interp, fr *Frame, a []Value) Value {
		m := syncMap(in, a[0])
		r := Tuple{Iface{}, false}
		if e := in.mapFind(m, kt(in), a[1]); e != nil {
			r = Tuple{e.v, true}
		}
		in.mapSet(m, kt(in), a[1], a[2])
		return r
	}
	I["(*sync.Map).LoadOrStore"] = func(in *Interp, fr *Frame, a []Value) Value {
		m := syncMap(in, a[0])
		if e := in.mapFind(m, kt(in), a[1]); e != nil {
			return Tuple{e.v, true}
		}
		in.mapSet(m, kt(in), a[1], a[2])
		return Tuple{a[2], false}
	}
	I["(*sync.Map).LoadAndDelete"] = func(in *Interp, fr *Frame, a []Value) Value {
		m := syncMap(in, a[0])
		r := Tuple{Iface{}, false}
		if e := in.mapFind(m, kt(in), a[1]); e != nil {
			r = Tuple{e.v, true}
		}
		in.mapDelete(m, kt(in), a[1])
		return r
	}
	I["(*sync.Map).Delete"] = func(in *Interp, fr *Frame, a []Value) Value {
		in.mapDelete(syncMap(in, a[0]), kt(in), a[1])
		return nil
	}
	I["(*sync.Map).Clear"] = func(in *Interp, fr *Frame, a []Value) Value {
		in.syncOf(a[0]).m = nil
		return nil
	}
	I["(*sync.Map).Range"] = func(in *Interp, fr *Frame, a []Value) Value {
		m := syncMap(in, a[0])
		for _, e := range append([]*mapEnt(nil), m.ents...) {
			if !e.dead && !in.decideBool(in.callClosure(fr, a[1].(*Closure), []Value{e.k, e.v})) {
				break
			}
		}
		return nil
	}
}

// typeNative gives one handle per type, so that handles compare like types.
func (in *Interp) typeNative(ti *TInfo) *Native {
	if in.typeNat == nil {
		in.typeNat = map[*TInfo]*Native{}
	}
	n := in.typeNat[ti]
	if n == nil {
		n = &Native{v: ti}
		in.typeNat[ti] = n
	}
	return n
}

func typeText(t types.Type) string {
	return types.TypeString(t, func(p *types.Package) string { return p.Name() })
}
