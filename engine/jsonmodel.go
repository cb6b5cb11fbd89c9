package main

import (
	ejson "encoding/json"
	"go/token"
	"go/types"
	"reflect"
	"sort"
	"strconv"
	"strings"
	"unicode/utf8"
)

// encoding/json and the file functions of package os. A document is kept as a
// tree whose leaves may be symbolic; the []byte that carries it through the
// program has one opaque element. Bytes that come from elsewhere are parsed.

type jnode struct {
	kind byte // n b i f s a o
	v    Value
	ti   *TInfo // integer leaf
	raw  string // number literal of parsed text
	arr  []*jnode
	keys []Value
}

type jerr struct{ msg string }

type jfield struct {
	name      string
	path      []int
	ti        *TInfo
	omitempty bool
}

func (in *Interp) jfields(ti *TInfo) []jfield {
	var out []jfield
	st := ti.U.(*types.Struct)
	for i := 0; i < st.NumFields(); i++ {
		f := st.Field(i)
		tag := reflect.StructTag(st.Tag(i)).Get("json")
		if tag == "-" {
			continue
		}
		name, opts, _ := strings.Cut(tag, ",")
		if f.Anonymous() && name == "" {
			sub := in.tt.get(f.Type())
			if sub.kind != kStruct {
				if f.Exported() {
					in.unsupported("json: embedded %v", f.Type())
				}
				continue
			}
			for _, g := range in.jfields(sub) {
				g.path = append([]int{i}, g.path...)
				out = append(out, g)
			}
			continue
		}
		if !f.Exported() {
			continue
		}
		if name == "" {
			name = f.Name()
		}
		fl := jfield{name: name, path: []int{i}, ti: in.tt.get(f.Type())}
		for _, o := range strings.Split(opts, ",") {
			switch o {
			case "omitempty":
				fl.omitempty = true
			case "":
			default:
				in.unsupported("json option %s", o)
			}
		}
		out = append(out, fl)
	}
	// the fields that share a name: the shallowest wins, several at one depth
	// hide each other
	var res []jfield
	for i, f := range out {
		ok := true
		for j, g := range out {
			if i != j && f.name == g.name && len(g.path) <= len(f.path) {
				ok = false
			}
		}
		if ok {
			res = append(res, f)
		}
	}
	return res
}

func (in *Interp) jcustom(ti *TInfo, names ...string) {
	for _, n := range names {
		if in.ld.lookupMethod(ti.T, nil, n) != nil {
			in.unsupported("json: %v has %s", ti.T, n)
		}
		if ti.kind != kPtr && ti.kind != kIface {
			if in.ld.lookupMethod(types.NewPointer(ti.T), nil, n) != nil {
				in.unsupported("json: *%v has %s", ti.T, n)
			}
		}
	}
}

func (in *Interp) jstr(v Value) Value {
	s, ok := v.(string)
	if ok {
		return strings.ToValidUTF8(s, "�")
	}
	for _, b := range strBytes(v) {
		switch b := b.(type) {
		case uint64:
			if b >= utf8.RuneSelf {
				in.unsupported("json: mixed symbolic and non-ASCII text")
			}
		default:
			if !in.decideBool(in.binop(token.LSS, in.tinfo(types.Typ[types.Uint8]), nil, b, uint64(utf8.RuneSelf))) {
				in.unsupported("json: symbolic non-ASCII text")
			}
		}
	}
	return v
}

func (in *Interp) jempty(ti *TInfo, v Value) bool {
	switch ti.kind {
	case kBool:
		return !in.decideBool(v)
	case kInt, kFloat:
		return in.decideBool(in.equal(v, zero(ti)))
	case kString:
		return strLen(v) == 0
	case kPtr:
		return v.(*Value) == nil
	case kIface:
		return v.(Iface).T == nil
	case kSlice:
		return len(v.(Slice)) == 0
	case kMap:
		m := v.(*MapObj)
		return m == nil || m.live == 0
	}
	return false
}

func (in *Interp) jencode(ti *TInfo, v Value, depth int) (*jnode, *jerr) {
	if depth > 60 {
		in.unsupported("json: nesting")
	}
	in.jcustom(ti, "MarshalJSON", "MarshalText")
	switch ti.kind {
	case kBool:
		return &jnode{kind: 'b', v: v}, nil
	case kInt:
		return &jnode{kind: 'i', v: v, ti: ti}, nil
	case kFloat:
		return &jnode{kind: 'f', v: v}, nil
	case kString:
		return &jnode{kind: 's', v: in.jstr(v)}, nil
	case kPtr:
		p, ok := v.(*Value)
		if !ok {
			in.unsupported("json: pointer %T", v)
		}
		if p == nil {
			return &jnode{kind: 'n'}, nil
		}
		return in.jencode(ti.elem, *p, depth+1)
	case kIface:
		i := v.(Iface)
		if i.T == nil {
			return &jnode{kind: 'n'}, nil
		}
		return in.jencode(i.T, i.V, depth+1)
	case kStruct:
		n := &jnode{kind: 'o'}
		for _, f := range in.jfields(ti) {
			x := v
			for _, i := range f.path {
				x = x.(Struct)[i]
			}
			if f.omitempty && in.jempty(f.ti, x) {
				continue
			}
			c, e := in.jencode(f.ti, x, depth+1)
			if e != nil {
				return nil, e
			}
			n.keys = append(n.keys, f.name)
			n.arr = append(n.arr, c)
		}
		return n, nil
	case kMap:
		m := v.(*MapObj)
		if m == nil {
			return &jnode{kind: 'n'}, nil
		}
		n := &jnode{kind: 'o'}
		type kv struct {
			k string
			n *jnode
		}
		var ents []kv
		in.jcustom(ti.key, "MarshalText")
		for _, e := range m.ents {
			if e.dead {
				continue
			}
			var k string
			switch {
			case ti.key.kind == kString:
				s, ok := e.k.(string)
				if !ok {
					in.unsupported("json: symbolic key")
				}
				k = s
			case ti.key.kind == kInt:
				u := in.concInt(e.k)
				if ti.key.signed {
					k = strconv.FormatInt(sext(u, ti.key.w), 10)
				} else {
					k = strconv.FormatUint(u, 10)
				}
			default:
				return nil, &jerr{"json: unsupported type: " + typeText(ti.T)}
			}
			c, er := in.jencode(ti.elem, e.v, depth+1)
			if er != nil {
				return nil, er
			}
			ents = append(ents, kv{k, c})
		}
		sort.SliceStable(ents, func(i, j int) bool { return ents[i].k < ents[j].k })
		for _, e := range ents {
			n.keys = append(n.keys, e.k)
			n.arr = append(n.arr, e.n)
		}
		return n, nil
	case kSlice, kArray:
		var xs []Value
		if ti.kind == kSlice {
			if v.(Slice) == nil {
				return &jnode{kind: 'n'}, nil
			}
			if ti.elem.kind == kInt && ti.elem.w == 8 && !ti.elem.signed {
				in.unsupported("json: []byte")
			}
			xs = v.(Slice)
		} else {
			xs = v.(Array)
		}
		n := &jnode{kind: 'a'}
		for _, x := range xs {
			c, e := in.jencode(ti.elem, x, depth+1)
			if e != nil {
				return nil, e
			}
			n.arr = append(n.arr, c)
		}
		return n, nil
	}
	return nil, &jerr{"json: unsupported type: " + typeText(ti.T)}
}

func (in *Interp) jdecode(ti *TInfo, cell *Value, n *jnode, first **jerr, depth int) {
	if depth > 60 {
		in.unsupported("json: nesting")
	}
	in.jcustom(ti, "UnmarshalJSON", "UnmarshalText")
	mismatch := func() {
		if *first == nil {
			*first = &jerr{"json: cannot unmarshal " + map[byte]string{'b': "bool", 'i': "number", 'f': "number", 's': "string", 'a': "array", 'o': "object"}[n.kind] +
				" into Go value of type " + typeText(ti.T)}
		}
	}
	if n.kind == 'n' {
		switch ti.kind {
		case kPtr, kIface, kMap, kSlice:
			in.store(cell, zero(ti))
		}
		return
	}
	switch ti.kind {
	case kPtr:
		p := (*cell).(*Value)
		if p == nil {
			p = new(Value)
			*p = zero(ti.elem)
			in.store(cell, p)
		}
		in.jdecode(ti.elem, p, n, first, depth+1)
	case kIface:
		if len(in.jmethods(ti)) > 0 {
			mismatch()
			return
		}
		in.store(cell, in.jany(n))
	case kBool:
		if n.kind != 'b' {
			mismatch()
			return
		}
		in.store(cell, n.v)
	case kString:
		if n.kind != 's' {
			mismatch()
			return
		}
		in.store(cell, n.v)
	case kFloat:
		switch n.kind {
		case 'f':
			in.store(cell, n.v)
		case 'i':
			in.store(cell, in.jfloat(n))
		default:
			mismatch()
		}
	case kInt:
		if n.raw != "" {
			var v uint64
			var err error
			if ti.signed {
				var x int64
				x, err = strconv.ParseInt(n.raw, 10, int(ti.w))
				v = uint64(x) & mask(ti.w)
			} else {
				v, err = strconv.ParseUint(n.raw, 10, int(ti.w))
			}
			if err != nil {
				mismatch()
				return
			}
			in.store(cell, v)
			return
		}
		if n.kind != 'i' {
			mismatch()
			return
		}
		v := in.convert(n.ti, ti, n.v)
		if n.ti.w != ti.w || n.ti.signed != ti.signed {
			ok := in.equal(in.convert(ti, n.ti, v), n.v)
			if n.ti.signed != ti.signed {
				s, sv := n.ti, n.v
				if ti.signed {
					s, sv = ti, v
				}
				ok = in.and(ok, in.not(in.binop(token.LSS, s, nil, sv, uint64(0))))
			}
			if !in.decideBool(ok) {
				mismatch()
				return
			}
		}
		in.store(cell, v)
	case kStruct:
		if n.kind != 'o' {
			mismatch()
			return
		}
		fs := in.jfields(ti)
		for i, k := range n.keys {
			ks, ok := k.(string)
			if !ok {
				in.unsupported("json: symbolic key")
			}
			var hit *jfield
			for j := range fs {
				if fs[j].name == ks {
					hit = &fs[j]
				}
			}
			for j := range fs {
				if hit == nil && strings.EqualFold(fs[j].name, ks) {
					hit = &fs[j]
				}
			}
			if hit == nil {
				continue
			}
			c := cell
			for _, x := range hit.path {
				c = &(*c).(Struct)[x]
			}
			in.jdecode(hit.ti, c, n.arr[i], first, depth+1)
		}
	case kMap:
		if n.kind != 'o' {
			mismatch()
			return
		}
		m := (*cell).(*MapObj)
		if m == nil {
			m = newMap(in.epoch)
			in.store(cell, m)
		}
		for i, k := range n.keys {
			ks, ok := k.(string)
			if !ok {
				in.unsupported("json: symbolic key")
			}
			var key Value = ks
			switch ti.key.kind {
			case kString:
			case kInt:
				in.jcustom(ti.key, "UnmarshalText")
				var u uint64
				var err error
				if ti.key.signed {
					var x int64
					x, err = strconv.ParseInt(ks, 10, int(ti.key.w))
					u = uint64(x) & mask(ti.key.w)
				} else {
					u, err = strconv.ParseUint(ks, 10, int(ti.key.w))
				}
				if err != nil {
					mismatch()
					continue
				}
				key = u
			default:
				mismatch()
				return
			}
			e := new(Value)
			*e = zero(ti.elem)
			in.jdecode(ti.elem, e, n.arr[i], first, depth+1)
			in.mapSet(m, ti.key, key, *e)
		}
	case kSlice:
		if n.kind != 'a' {
			mismatch()
			return
		}
		s := make(Slice, len(n.arr))
		for i := range s {
			s[i] = zero(ti.elem)
			in.jdecode(ti.elem, &s[i], n.arr[i], first, depth+1)
		}
		in.store(cell, s)
	default:
		if n.kind == 'a' && ti.kind == kArray {
			in.unsupported("json: array")
		}
		mismatch()
	}
}

func (in *Interp) jmethods(ti *TInfo) []*types.Func {
	var r []*types.Func
	u := ti.U.(*types.Interface)
	for i := 0; i < u.NumMethods(); i++ {
		r = append(r, u.Method(i))
	}
	return r
}

func (in *Interp) jfloat(n *jnode) Value {
	if n.raw != "" {
		f, _ := strconv.ParseFloat(n.raw, 64)
		return f
	}
	return in.convert(n.ti, in.tinfo(types.Typ[types.Float64]), n.v)
}

func (in *Interp) jany(n *jnode) Iface {
	anyT := types.NewInterfaceType(nil, nil)
	switch n.kind {
	case 'n':
		return Iface{}
	case 'b':
		return Iface{in.tinfo(types.Typ[types.Bool]), n.v}
	case 's':
		return Iface{in.tinfo(types.Typ[types.String]), n.v}
	case 'f':
		return Iface{in.tinfo(types.Typ[types.Float64]), n.v}
	case 'i':
		return Iface{in.tinfo(types.Typ[types.Float64]), in.jfloat(n)}
	case 'a':
		s := make(Slice, len(n.arr))
		for i := range s {
			s[i] = in.jany(n.arr[i])
		}
		return Iface{in.tinfo(types.NewSlice(anyT)), s}
	}
	m := newMap(in.epoch)
	ti := in.tinfo(types.NewMap(types.Typ[types.String], anyT))
	for i, k := range n.keys {
		in.mapSet(m, ti.key, k, in.jany(n.arr[i]))
	}
	return Iface{ti, m}
}

func jparse(d *ejson.Decoder) (*jnode, error) {
	t, err := d.Token()
	if err != nil {
		return nil, err
	}
	switch t := t.(type) {
	case nil:
		return &jnode{kind: 'n'}, nil
	case bool:
		return &jnode{kind: 'b', v: t}, nil
	case string:
		return &jnode{kind: 's', v: t}, nil
	case ejson.Number:
		if strings.ContainsAny(string(t), ".eE") {
			f, _ := t.Float64()
			return &jnode{kind: 'f', v: f, raw: string(t)}, nil
		}
		return &jnode{kind: 'i', raw: string(t)}, nil
	case ejson.Delim:
		n := &jnode{kind: 'a'}
		if t == '{' {
			n.kind = 'o'
		}
		for d.More() {
			if n.kind == 'o' {
				k, err := d.Token()
				if err != nil {
					return nil, err
				}
				n.keys = append(n.keys, k.(string))
			}
			c, err := jparse(d)
			if err != nil {
				return nil, err
			}
			n.arr = append(n.arr, c)
		}
		_, err := d.Token()
		return n, err
	}
	return nil, nil
}

// jdoc finds the document carried by the bytes.
func (in *Interp) jdoc(b Slice) (*jnode, *jerr) {
	var doc *jnode
	text := make([]byte, 0, len(b))
	for _, x := range b {
		switch x := x.(type) {
		case *Native:
			n, ok := x.v.(*jnode)
			if !ok || doc != nil {
				in.unsupported("json: bytes")
			}
			doc = n
		case uint64:
			text = append(text, byte(x))
		default:
			in.unsupported("json: symbolic bytes")
		}
	}
	if doc != nil {
		if len(strings.Trim(string(text), " \t\r\n")) > 0 {
			in.unsupported("json: text around a document")
		}
		return doc, nil
	}
	var x interface{}
	if err := ejson.Unmarshal(text, &x); err != nil {
		return nil, &jerr{err.Error()}
	}
	d := ejson.NewDecoder(strings.NewReader(string(text)))
	d.UseNumber()
	n, err := jparse(d)
	if err != nil {
		in.unsupported("json: %v", err)
	}
	return n, nil
}

func (in *Interp) notExist(op string, name Value) Iface {
	g := in.prog.ImportedPackage("internal/oserror").Var("ErrNotExist")
	p := new(Value)
	*p = Struct{op, name, *in.global(g)}
	return Iface{in.tt.get(types.NewPointer(in.pkgType("io/fs", "PathError"))), p}
}

func jsonlib(I map[string]intrinsic) {
	marshal := func(in *Interp, fr *Frame, a []Value) Value {
		v := a[0].(Iface)
		var n *jnode
		var e *jerr
		if v.T == nil {
			n = &jnode{kind: 'n'}
		} else {
			n, e = in.jencode(v.T, v.V, 0)
		}
		if e != nil {
			return Tuple{Slice(nil), in.mkError(e.msg)}
		}
		return Tuple{Slice{&Native{v: n, kind: "json"}}, Iface{}}
	}
	I["encoding/json.Marshal"] = marshal
	I["encoding/json.MarshalIndent"] = marshal
	I["(*encoding/json.Encoder).Encode"] = func(in *Interp, fr *Frame, a []Value) Value {
		r := marshal(in, fr, a[1:]).(Tuple)
		if e := r[1].(Iface); e.T != nil {
			return e
		}
		w := (*a[0].(*Value)).(Struct)[0].(Iface)
		doc := append(append(Slice{}, r[0].(Slice)...), strBytes("\n")...)
		o, ok := in.callMethod(fr, w, "Write", doc)
		if !ok {
			in.unsupported("json: no writer")
		}
		return o.(Tuple)[1]
	}
	I["encoding/json.Valid"] = func(in *Interp, fr *Frame, a []Value) Value {
		_, e := in.jdoc(a[0].(Slice))
		return e == nil
	}
	I["encoding/json.Unmarshal"] = func(in *Interp, fr *Frame, a []Value) Value {
		n, e := in.jdoc(a[0].(Slice))
		if e != nil {
			return in.mkError(e.msg)
		}
		v := a[1].(Iface)
		if v.T == nil || v.T.kind != kPtr || v.V.(*Value) == nil {
			return in.mkError("json: Unmarshal(invalid)")
		}
		var first *jerr
		in.jdecode(v.T.elem, v.V.(*Value), n, &first, 0)
		if first != nil {
			return in.mkError(first.msg)
		}
		return Iface{}
	}
	name := func(in *Interp, v Value) string {
		s, ok := v.(string)
		if !ok {
			in.unsupported("symbolic file name")
		}
		return s
	}
	I["os.ReadFile"] = func(in *Interp, fr *Frame, a []Value) Value {
		b, ok := in.files[name(in, a[0])]
		if !ok {
			return Tuple{Slice(nil), in.notExist("open", a[0])}
		}
		return Tuple{append(Slice{}, b.(Slice)...), Iface{}}
	}
	I["os.WriteFile"] = func(in *Interp, fr *Frame, a []Value) Value {
		if in.files == nil {
			in.files = map[string]Value{}
		}
		in.files[name(in, a[0])] = append(Slice{}, a[1].(Slice)...)
		return Iface{}
	}
	I["os.MkdirAll"] = func(in *Interp, fr *Frame, a []Value) Value { return Iface{} }
}
