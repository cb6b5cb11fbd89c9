package main

import (
	"fmt"
	"go/types"
	"path"
	"path/filepath"
	"reflect"
	"sort"
	"strconv"
	"strings"
	"time"
	"unicode"
	"unicode/utf8"
)

// intrinsics models functions by name instead of executing their bodies.
var intrinsics = map[string]intrinsic{}

const symPkg = "github.com/snivilised/agenor/internal/zverif/sym."

// reg registers a pure native function used when every argument is concrete;
// otherwise the function's own body is executed.
func reg(name string, f interface{}) {
	rv := reflect.ValueOf(f)
	rt := rv.Type()
	intrinsics[name] = func(in *Interp, fr *Frame, args []Value) Value {
		ins := make([]reflect.Value, len(args))
		for i, a := range args {
			v, ok := toNative(a, rt.In(i))
			if !ok {
				return notHandled
			}
			ins[i] = v
		}
		var outs []reflect.Value
		if rt.IsVariadic() {
			outs = rv.CallSlice(ins)
		} else {
			outs = rv.Call(ins)
		}
		switch len(outs) {
		case 0:
			return nil
		case 1:
			return in.fromNative(outs[0])
		}
		t := make(Tuple, len(outs))
		for i, o := range outs {
			t[i] = in.fromNative(o)
		}
		return t
	}
}

func toNative(v Value, t reflect.Type) (reflect.Value, bool) {
	switch t.Kind() {
	case reflect.String:
		s, ok := v.(string)
		return reflect.ValueOf(s).Convert(t), ok
	case reflect.Int, reflect.Int64, reflect.Int32, reflect.Int16, reflect.Int8:
		u, ok := v.(uint64)
		r := reflect.New(t).Elem()
		r.SetInt(sext(u, uint8(t.Bits())))
		return r, ok
	case reflect.Uint, reflect.Uint64, reflect.Uint32, reflect.Uint16, reflect.Uint8:
		u, ok := v.(uint64)
		r := reflect.New(t).Elem()
		r.SetUint(u)
		return r, ok
	case reflect.Bool:
		b, ok := v.(bool)
		return reflect.ValueOf(b), ok
	case reflect.Float64:
		b, ok := v.(float64)
		return reflect.ValueOf(b), ok
	case reflect.Slice:
		s, ok := v.(Slice)
		if !ok {
			return reflect.Value{}, false
		}
		if s == nil {
			return reflect.Zero(t), true
		}
		r := reflect.MakeSlice(t, len(s), len(s))
		for i, e := range s {
			x, ok := toNative(e, t.Elem())
			if !ok {
				return reflect.Value{}, false
			}
			r.Index(i).Set(x)
		}
		return r, true
	}
	return reflect.Value{}, false
}

var errType = reflect.TypeOf((*error)(nil)).Elem()

func (in *Interp) fromNative(r reflect.Value) Value {
	switch r.Kind() {
	case reflect.String:
		return r.String()
	case reflect.Int, reflect.Int64, reflect.Int32, reflect.Int16, reflect.Int8:
		return uint64(r.Int()) & mask(uint8(r.Type().Bits()))
	case reflect.Uint, reflect.Uint64, reflect.Uint32, reflect.Uint16, reflect.Uint8:
		return r.Uint()
	case reflect.Bool:
		return r.Bool()
	case reflect.Float64:
		return r.Float()
	case reflect.Slice:
		if r.IsNil() {
			return Slice(nil)
		}
		s := make(Slice, r.Len())
		for i := range s {
			s[i] = in.fromNative(r.Index(i))
		}
		return s
	case reflect.Interface:
		if r.Type() == errType {
			if r.IsNil() {
				return Iface{}
			}
			return in.mkError(r.Interface().(error).Error())
		}
	}
	in.unsupported("native result %v", r.Type())
	return nil
}

// mkError builds an *errors.errorString.
func (in *Interp) mkError(msg Value) Value {
	p := new(Value)
	*p = Struct{msg}
	return Iface{in.tt.get(types.NewPointer(in.ld.errorString)), p}
}

func (in *Interp) label(args []Value) string {
	s, ok := args[0].(string)
	if !ok {
		in.unsupported("symbolic label")
	}
	n := in.labelCnt[s]
	in.labelCnt[s] = n + 1
	if n == 0 {
		return s
	}
	return fmt.Sprintf("%s#%d", s, n)
}

// tick reads the symbolic clock, after up to 255 units of 8.192 us. The unit
// being a power of two, only few bits of the reading are symbolic.
const clockBase = 1 << 30

func (in *Interp) tick() Value {
	if in.clock == nil {
		in.clock = in.t.Const(clockBase, 64)
	}
	d := in.newVar(in.label([]Value{"clock"}), 8)
	in.clock = in.t.Bin(OAdd, in.clock, in.t.Bin(OShl, in.t.Resize(d, 64, false), in.t.Const(13, 64)))
	return fromExpr(in.clock)
}

func argInt(v Value) int64 { return int64(v.(uint64)) }

func init() {
	I := intrinsics
	// ---- harness interface
	I[symPkg+"Bool"] = func(in *Interp, fr *Frame, a []Value) Value { return in.newVar(in.label(a), 0) }
	I[symPkg+"Byte"] = func(in *Interp, fr *Frame, a []Value) Value { return in.newVar(in.label(a), 8) }
	I[symPkg+"Int"] = func(in *Interp, fr *Frame, a []Value) Value { return in.newVar(in.label(a), 64) }
	I[symPkg+"Uint"] = I[symPkg+"Int"]
	rng := func(in *Interp, a []Value) *Expr {
		lo, hi := argInt(a[1]), argInt(a[2])
		if hi < lo {
			panic(abort("infeasible", "empty range"))
		}
		if hi == lo {
			in.label(a)
			return in.t.Const(uint64(lo), 64)
		}
		w := uint8(8)
		if hi-lo > 255 {
			w = 32
		}
		v := in.newVar(in.label(a), w)
		in.assume(in.t.Bin(OUle, v, in.t.Const(uint64(hi-lo), w)))
		return in.t.Bin(OAdd, in.t.Resize(v, 64, false), in.t.Const(uint64(lo), 64))
	}
	I[symPkg+"Range"] = func(in *Interp, fr *Frame, a []Value) Value { return fromExpr(rng(in, a)) }
	I[symPkg+"Pick"] = func(in *Interp, fr *Frame, a []Value) Value {
		n := argInt(a[1])
		e := rng(in, []Value{a[0], uint64(0), uint64(n - 1)})
		return in.concretize(e)
	}
	I[symPkg+"Conc"] = func(in *Interp, fr *Frame, a []Value) Value { return in.concInt(a[0]) }
	I[symPkg+"ConcBool"] = func(in *Interp, fr *Frame, a []Value) Value { return in.decideBool(a[0]) }
	I[symPkg+"Str"] = func(in *Interp, fr *Frame, a []Value) Value {
		n := int(argInt(a[1]))
		set := a[2].(string)
		base := in.label(a)
		b := make([]Value, n)
		for i := range b {
			v := in.newVar(fmt.Sprintf("%s[%d]", base, i), 8)
			if set != "" {
				in.assume(in.inCharset(v, set))
			}
			b[i] = v
		}
		return mkStr(b)
	}
	I[symPkg+"Assume"] = func(in *Interp, fr *Frame, a []Value) Value {
		switch v := a[0].(type) {
		case bool:
			if !v {
				panic(abort("infeasible", "assumption"))
			}
		case *Expr:
			in.assume(v)
		}
		return nil
	}
	I[symPkg+"Assert"] = func(in *Interp, fr *Frame, a []Value) Value {
		tag, ok := a[1].(string)
		if !ok {
			in.unsupported("symbolic tag")
		}
		in.assertTag(a[0], tag, "")
		return nil
	}
	I[symPkg+"Observe"] = func(in *Interp, fr *Frame, a []Value) Value {
		in.obs = append(in.obs, obsRec{a[0].(string), append([]Value(nil), a[1].(Slice)...)})
		return nil
	}
	I[symPkg+"Scratch"] = func(in *Interp, fr *Frame, a []Value) Value { return "/scratch" }
	I[symPkg+"Pause"] = func(in *Interp, fr *Frame, a []Value) Value { in.yield(); return nil }
	I[symPkg+"Reach"] = func(in *Interp, fr *Frame, a []Value) Value {
		in.reached[a[0].(string)] = true
		return nil
	}
	I[symPkg+"Param"] = func(in *Interp, fr *Frame, a []Value) Value {
		if v, ok := in.params[a[0].(string)]; ok {
			return uint64(v)
		}
		return a[1]
	}
	I[symPkg+"Symbolic"] = func(in *Interp, fr *Frame, a []Value) Value { return true }
	I[symPkg+"And"] = func(in *Interp, fr *Frame, a []Value) Value {
		var r Value = true
		for _, x := range a[0].(Slice) {
			r = in.and(r, x)
		}
		return r
	}
	I[symPkg+"Or"] = func(in *Interp, fr *Frame, a []Value) Value {
		var r Value = false
		for _, x := range a[0].(Slice) {
			r = in.or(r, x)
		}
		return r
	}
	I[symPkg+"Implies"] = func(in *Interp, fr *Frame, a []Value) Value { return in.or(in.not(a[0]), a[1]) }
	I[symPkg+"Iff"] = func(in *Interp, fr *Frame, a []Value) Value { return in.equal(a[0], a[1]) }
	I[symPkg+"IteInt"] = func(in *Interp, fr *Frame, a []Value) Value {
		switch c := a[0].(type) {
		case bool:
			if c {
				return a[1]
			}
			return a[2]
		case *Expr:
			return fromExpr(in.t.Ite(c, in.toExpr(a[1], 64), in.toExpr(a[2], 64)))
		}
		return nil
	}
	I[symPkg+"LtStr"] = func(in *Interp, fr *Frame, a []Value) Value {
		return in.strLess(strBytes(a[0]), strBytes(a[1]), false)
	}

	// ---- errors
	I["errors.Is"] = func(in *Interp, fr *Frame, a []Value) Value {
		return in.errorsIs(fr, a[0].(Iface), a[1].(Iface))
	}
	I["github.com/pkg/errors.Is"] = I["errors.Is"]
	I["errors.As"] = func(in *Interp, fr *Frame, a []Value) Value {
		return in.errorsAs(fr, a[0].(Iface), a[1].(Iface))
	}
	I["github.com/pkg/errors.As"] = I["errors.As"]
	I["github.com/pkg/errors.callers"] = func(in *Interp, fr *Frame, a []Value) Value { return (*Value)(nil) }

	// ---- fmt
	I["fmt.Sprintf"] = func(in *Interp, fr *Frame, a []Value) Value {
		return in.sprintf(a[0], a[1].(Slice))
	}
	I["fmt.Errorf"] = func(in *Interp, fr *Frame, a []Value) Value {
		s := in.sprintf(a[0], a[1].(Slice))
		if f, ok := a[0].(string); ok && strings.Contains(f, "%w") {
			var wrapped Value
			n := 0
			for _, x := range a[1].(Slice) {
				if i, ok := x.(Iface); ok && i.T != nil && in.implements(i.T, in.tt.get(in.ld.errorIface)) {
					wrapped = i
					n++
				}
			}
			if n >= 1 {
				p := new(Value)
				*p = Struct{s, wrapped}
				return Iface{in.tt.get(types.NewPointer(in.ld.wrapError)), p}
			}
		}
		return in.mkError(s)
	}
	sprint := func(in *Interp, xs Slice, ln bool) Value {
		isStr := func(x Value) bool {
			i := x.(Iface)
			return i.T != nil && i.T.kind == kString
		}
		var r Value = ""
		for i, x := range xs {
			if i > 0 && (ln || !isStr(x) && !isStr(xs[i-1])) {
				r = concat(r, " ")
			}
			r = concat(r, in.fmtVal(x, 'v', false))
		}
		if ln {
			r = concat(r, "\n")
		}
		return r
	}
	write := func(in *Interp, fr *Frame, w Value, s Value) Value {
		i := w.(Iface)
		if i.T == nil {
			in.throwRuntime("invalid memory address or nil pointer dereference")
		}
		if typeText(i.T.T) == "*os.File" {
			return Tuple{uint64(strLen(s)), Iface{}}
		}
		b := strBytes(s)
		r, ok := in.callMethod(fr, i, "Write", Slice(append([]Value(nil), b...)))
		if !ok {
			in.unsupported("writer %s", i.T.T)
		}
		return r
	}
	I["fmt.Sprint"] = func(in *Interp, fr *Frame, a []Value) Value { return sprint(in, a[0].(Slice), false) }
	I["fmt.Sprintln"] = func(in *Interp, fr *Frame, a []Value) Value { return sprint(in, a[0].(Slice), true) }
	I["fmt.Fprint"] = func(in *Interp, fr *Frame, a []Value) Value {
		return write(in, fr, a[0], sprint(in, a[1].(Slice), false))
	}
	I["fmt.Fprintln"] = func(in *Interp, fr *Frame, a []Value) Value {
		return write(in, fr, a[0], sprint(in, a[1].(Slice), true))
	}
	I["fmt.Fprintf"] = func(in *Interp, fr *Frame, a []Value) Value {
		return write(in, fr, a[0], I["fmt.Sprintf"](in, fr, a[1:]))
	}
	for _, n := range []string{"fmt.Println", "fmt.Printf", "fmt.Print"} {
		I[n] = func(in *Interp, fr *Frame, a []Value) Value { return Tuple{uint64(0), Iface{}} }
	}

	// ---- logging and i18n
	for _, n := range []string{"Debug", "Info", "Warn", "Error", "DebugContext", "InfoContext", "WarnContext", "ErrorContext", "Log", "LogAttrs"} {
		I["(*log/slog.Logger)."+n] = func(in *Interp, fr *Frame, a []Value) Value {
			if p, ok := a[0].(*Value); ok && p == nil {
				in.throwRuntime("invalid memory address or nil pointer dereference")
			}
			return nil
		}
	}
	I["github.com/snivilised/li18ngo/internal/translate.Text"] = func(in *Interp, fr *Frame, a []Value) Value {
		i := a[0].(Iface)
		if i.T == nil {
			in.throwRuntime("invalid memory address or nil pointer dereference")
		}
		return in.i18n(fr, i)
	}

	// ---- time
	I["time.Now"] = func(in *Interp, fr *Frame, a []Value) Value {
		t := zero(in.tt.get(in.ld.timeTime)).(Struct)
		if in.params["clock"] != 0 {
			// a date with its nanoseconds, and a monotonic reading
			t[1] = in.tick()
			nsec := in.t.Bin(OSub, in.clock, in.t.Const(clockBase, 64))
			t[0] = fromExpr(in.t.Bin(OAdd, nsec, in.t.Const(1<<63|4446748800<<30, 64)))
			return t
		}
		if in.sch != nil {
			t[1] = uint64(in.sch.now) + 1
		}
		return t
	}
	I["time.runtimeNano"] = func(in *Interp, fr *Frame, a []Value) Value { return uint64(1) }
	I["(time.Time).Format"] = func(in *Interp, fr *Frame, a []Value) Value {
		layout, ok := a[1].(string)
		if in.params["clock"] == 0 || !ok {
			return notHandled
		}
		// what is left of a second does not show in the texts that are made
		return time.Unix(int64(4446748800)-2682374400, 0).UTC().Format(layout)
	}
	I["time.Since"] = func(in *Interp, fr *Frame, a []Value) Value {
		if in.params["clock"] != 0 {
			t := a[0].(Struct)
			if t[0] == uint64(0) {
				return uint64(1<<63 - 1)
			}
			if in.decideBool(fromExpr(in.t.Eq(in.t.Bin(OBAnd, in.toExpr(t[0], 64), in.t.Const(1<<63, 64)), in.t.Const(0, 64)))) {
// without a monotonic reading the dates are compared, which are
				// in the same second
				now := in.t.Bin(OSub, in.toExpr(in.tick(), 64), in.t.Const(clockBase, 64))
				return fromExpr(in.t.Bin(OSub, now, in.t.Bin(OBAnd, in.toExpr(t[0], 64), in.t.Const(1<<30-1, 64))))
			}
			return fromExpr(in.t.Bin(OSub, in.toExpr(in.tick(), 64), in.toExpr(t[1], 64)))
		}
		return uint64(0)
	}
	I["(time.Time).IsZero"] = func(in *Interp, fr *Frame, a []Value) Value {
		if in.params["clock"] != 0 {
			return a[0].(Struct)[0] == uint64(0)
		}
		return a[0].(Struct)[1] == uint64(0)
	}
	I["time.After"] = func(in *Interp, fr *Frame, a []Value) Value { return in.timerChan(a[0]) }
	I["time.Sleep"] = func(in *Interp, fr *Frame, a []Value) Value {
		if in.params["clock"] != 0 {
			in.tick()
			in.clock = in.t.Bin(OAdd, in.clock, in.toExpr(a[0], 64))
			return nil
		}
		c := in.timerChan(a[0])
		in.chanRecv(c, in.tt.get(in.ld.timeTime))
		return nil
	}
	I["time.NewTicker"] = func(in *Interp, fr *Frame, a []Value) Value {
		// tickers of the interpreted program never tick
		p := new(Value)
		*p = Struct{&ChanObj{cap: 1, epoch: in.epoch, timer: true}, true}
		return p
	}
	I["(*time.Ticker).Stop"] = func(in *Interp, fr *Frame, a []Value) Value { return nil }
	for _, m := range []string{"Printf", "Println", "Print"} {
		I["(*log.Logger)."+m] = func(in *Interp, fr *Frame, a []Value) Value { return nil }
		I["log."+m] = I["(*log.Logger)."+m]
	}
	const spin = "(*github.com/snivilised/pants/internal/third/ants/async.spinLock)."
	I[spin+"Lock"] = func(in *Interp, fr *Frame, a []Value) Value { return I["(*sync.Mutex).Lock"](in, fr, a) }
	I[spin+"Unlock"] = func(in *Interp, fr *Frame, a []Value) Value { return I["(*sync.Mutex).Unlock"](in, fr, a) }

	// ---- runtime, os
	I["runtime.NumCPU"] = func(in *Interp, fr *Frame, a []Value) Value { return uint64(4) }
	I["runtime.GOMAXPROCS"] = func(in *Interp, fr *Frame, a []Value) Value { return uint64(4) }
	I["runtime.Gosched"] = func(in *Interp, fr *Frame, a []Value) Value { in.preemptPoint(); return nil }
	I["runtime.KeepAlive"] = func(in *Interp, fr *Frame, a []Value) Value { return nil }
	I["runtime.SetFinalizer"] = func(in *Interp, fr *Frame, a []Value) Value { return nil }
	I["runtime.Stack"] = func(in *Interp, fr *Frame, a []Value) Value { return uint64(0) }
	I["runtime/debug.Stack"] = func(in *Interp, fr *Frame, a []Value) Value { return Slice{} }
	I["os.UserHomeDir"] = func(in *Interp, fr *Frame, a []Value) Value { return Tuple{"/home/user", Iface{}} }
	I["path/filepath.Abs"] = func(in *Interp, fr *Frame, a []Value) Value {
		s, ok := a[0].(string)
		if !ok {
			return notHandled
		}
		if !filepath.IsAbs(s) {
			s = filepath.Join("/cwd", s)
		}
		return Tuple{filepath.Clean(s), Iface{}}
	}
	I["os.Getenv"] = func(in *Interp, fr *Frame, a []Value) Value { return "" }
	I["os.LookupEnv"] = func(in *Interp, fr *Frame, a []Value) Value { return Tuple{"", false} }
	I["os.Getwd"] = func(in *Interp, fr *Frame, a []Value) Value { return Tuple{"/cwd", Iface{}} }
	I["internal/godebug.New"] = func(in *Interp, fr *Frame, a []Value) Value { return (*Value)(nil) }
	I["(*internal/godebug.Setting).Value"] = func(in *Interp, fr *Frame, a []Value) Value { return "" }

	// ---- pure natives
	reg("strings.Contains", strings.Contains)
	reg("strings.ContainsRune", strings.ContainsRune)
	reg("strings.ContainsAny", strings.ContainsAny)
	reg("strings.HasPrefix", strings.HasPrefix)
	reg("strings.HasSuffix", strings.HasSuffix)
	reg("strings.Index", strings.Index)
	reg("strings.IndexByte", strings.IndexByte)
	reg("strings.IndexRune", strings.IndexRune)
	reg("strings.IndexAny", strings.IndexAny)
	reg("strings.LastIndex", strings.LastIndex)
	reg("strings.LastIndexByte", strings.LastIndexByte)
	reg("strings.Split", strings.Split)
	reg("strings.SplitN", strings.SplitN)
	reg("strings.Fields", strings.Fields)
	reg("strings.Join", strings.Join)
	reg("strings.Repeat", strings.Repeat)
	reg("strings.Replace", strings.Replace)
	reg("strings.ReplaceAll", strings.ReplaceAll)
	reg("strings.Trim", strings.Trim)
	reg("strings.TrimSpace", strings.TrimSpace)
	reg("strings.TrimLeft", strings.TrimLeft)
	reg("strings.TrimRight", strings.TrimRight)
	reg("strings.TrimPrefix", strings.TrimPrefix)
	reg("strings.TrimSuffix", strings.TrimSuffix)
	reg("strings.EqualFold", strings.EqualFold)
	reg("strings.Count", strings.Count)
	reg("strings.Cut", strings.Cut)
	reg("strings.Title", strings.Title)
	reg("strconv.Itoa", strconv.Itoa)
	reg("strconv.Atoi", strconv.Atoi)
	reg("strconv.Quote", strconv.Quote)
	reg("strconv.FormatInt", strconv.FormatInt)
	reg("strconv.FormatUint", strconv.FormatUint)
	reg("strconv.FormatBool", strconv.FormatBool)
	reg("strconv.ParseInt", strconv.ParseInt)
	reg("strconv.ParseUint", strconv.ParseUint)
	reg("strconv.ParseBool", strconv.ParseBool)
	reg("path/filepath.Join", filepath.Join)
	reg("path/filepath.Clean", filepath.Clean)
	reg("path/filepath.Split", filepath.Split)
	reg("path/filepath.Base", filepath.Base)
	reg("path/filepath.Dir", filepath.Dir)
	reg("path/filepath.Ext", filepath.Ext)
	reg("path/filepath.IsAbs", filepath.IsAbs)
	reg("path/filepath.Match", filepath.Match)
	reg("path/filepath.Rel", filepath.Rel)
	reg("path/filepath.ToSlash", filepath.ToSlash)
	reg("path/filepath.FromSlash", filepath.FromSlash)
	reg("path.Join", path.Join)
	reg("path.Base", path.Base)
	reg("path.Dir", path.Dir)
	reg("path.Clean", path.Clean)
	reg("path.Match", path.Match)
	reg("unicode.ToLower", unicode.ToLower)
	reg("unicode.ToUpper", unicode.ToUpper)
	reg("unicode.IsUpper", unicode.IsUpper)
	reg("unicode.IsLower", unicode.IsLower)
	reg("unicode.IsSpace", unicode.IsSpace)
	reg("unicode.IsLetter", unicode.IsLetter)
	reg("unicode.IsDigit", unicode.IsDigit)
	reg("unicode/utf8.RuneCountInString", utf8.RuneCountInString)
	reg("unicode/utf8.ValidString", utf8.ValidString)
	reg("unicode/utf8.DecodeRuneInString", utf8.DecodeRuneInString)

	I["strings.ToLower"] = func(in *Interp, fr *Frame, a []Value) Value { return in.mapCase(a[0], true) }
	I["strings.ToUpper"] = func(in *Interp, fr *Frame, a []Value) Value { return in.mapCase(a[0], false) }
	I["strings.Clone"] = func(in *Interp, fr *Frame, a []Value) Value { return a[0] }
	I["internal/stringslite.Clone"] = I["strings.Clone"]
	I["strings.Compare"] = func(in *Interp, fr *Frame, a []Value) Value { return in.cmp3(strBytes(a[0]), strBytes(a[1])) }
	I["internal/bytealg.CompareString"] = I["strings.Compare"]
	I["internal/bytealg.IndexByteString"] = func(in *Interp, fr *Frame, a []Value) Value {
		return in.indexByte(strBytes(a[0]), a[1])
	}
	I["internal/bytealg.IndexByte"] = func(in *Interp, fr *Frame, a []Value) Value {
		return in.indexByte(a[0].(Slice), a[1])
	}
	I["internal/bytealg.LastIndexByteString"] = func(in *Interp, fr *Frame, a []Value) Value {
		b := strBytes(a[0])
		for i := len(b) - 1; i >= 0; i-- {
			if in.decideBool(in.byteEq(b[i], a[1])) {
				return uint64(i)
			}
		}
		return ^uint64(0)
	}
	I["internal/bytealg.CountString"] = func(in *Interp, fr *Frame, a []Value) Value {
		n := 0
		for _, x := range strBytes(a[0]) {
			if in.decideBool(in.byteEq(x, a[1])) {
				n++
			}
		}
		return uint64(n)
	}
	I["internal/bytealg.IndexString"] = func(in *Interp, fr *Frame, a []Value) Value {
		return in.indexStr(strBytes(a[0]), strBytes(a[1]))
	}
	I["strings.Index"] = wrapNative("strings.Index", func(in *Interp, fr *Frame, a []Value) Value {
		return in.indexStr(strBytes(a[0]), strBytes(a[1]))
	})
	I["internal/stringslite.Index"] = I["strings.Index"]
	I["strings.LastIndex"] = wrapNative("strings.LastIndex", func(in *Interp, fr *Frame, a []Value) Value {
		s, sub := strBytes(a[0]), strBytes(a[1])
		for i := len(s) - len(sub); i >= 0; i-- {
			if in.decideBool(in.strEq(mkStr(s[i:i+len(sub)]), mkStr(sub))) {
				return uint64(i)
			}
		}
		return ^uint64(0)
	})
	I["strings.HasPrefix"] = func(in *Interp, fr *Frame, a []Value) Value {
		s, p := strBytes(a[0]), strBytes(a[1])
		if len(p) > len(s) {
			return false
		}
		return in.strEq(mkStr(s[:len(p)]), a[1])
	}
	I["strings.HasSuffix"] = func(in *Interp, fr *Frame, a []Value) Value {
		s, p := strBytes(a[0]), strBytes(a[1])
		if len(p) > len(s) {
			return false
		}
		return in.strEq(mkStr(s[len(s)-len(p):]), a[1])
	}
	I["strings.Contains"] = func(in *Interp, fr *Frame, a []Value) Value {
		s, p := strBytes(a[0]), strBytes(a[1])
		var r Value = false
		for i := 0; i+len(p) <= len(s); i++ {
			r = in.or(r, in.strEq(mkStr(s[i:i+len(p)]), a[1]))
		}
		return r
	}
	I["path/filepath.Join"] = wrapNative("path/filepath.Join", func(in *Interp, fr *Frame, a []Value) Value {
		return in.joinSym(a[0].(Slice))
	})
	I["path.Join"] = I["path/filepath.Join"]
	I["path/filepath.Clean"] = wrapNative("path/filepath.Clean", func(in *Interp, fr *Frame, a []Value) Value {
		if in.cleanAlready(strBytes(a[0])) {
			return a[0]
		}
		return notHandled
	})

	// ---- strings.Builder
	B := func(n string, f func(in *Interp, buf *Value, a []Value) Value) {
		I["(*strings.Builder)."+n] = func(in *Interp, fr *Frame, a []Value) Value {
			s := (*in.deref(a[0])).(Struct)
			return f(in, &s[1], a[1:])
		}
	}
	appendTo := func(in *Interp, buf *Value, b []Value) {
		old := (*buf).(Slice)
		nb := make(Slice, 0, len(old)+len(b))
		nb = append(append(nb, old...), b...)
		in.write(buf, nb)
	}
	B("WriteString", func(in *Interp, buf *Value, a []Value) Value {
		appendTo(in, buf, strBytes(a[0]))
		return Tuple{uint64(strLen(a[0])), Iface{}}
	})
	B("WriteByte", func(in *Interp, buf *Value, a []Value) Value {
		appendTo(in, buf, a)
		return Iface{}
	})
	B("Write", func(in *Interp, buf *Value, a []Value) Value {
		appendTo(in, buf, a[0].(Slice))
		return Tuple{uint64(len(a[0].(Slice))), Iface{}}
	})
	B("WriteRune", func(in *Interp, buf *Value, a []Value) Value {
		s := in.convert(in.tt.get(types.NewSlice(types.Typ[types.Rune])), in.tt.get(types.Typ[types.String]), Slice{a[0]})
		appendTo(in, buf, strBytes(s))
		return Tuple{uint64(strLen(s)), Iface{}}
	})
	B("String", func(in *Interp, buf *Value, a []Value) Value {
		return mkStr(append([]Value(nil), (*buf).(Slice)...))
	})
	B("Len", func(in *Interp, buf *Value, a []Value) Value { return uint64(len((*buf).(Slice))) })
	B("Cap", func(in *Interp, buf *Value, a []Value) Value { return uint64(cap((*buf).(Slice))) })
	B("Grow", func(in *Interp, buf *Value, a []Value) Value { return nil })
	B("Reset", func(in *Interp, buf *Value, a []Value) Value { in.write(buf, Slice(nil)); return nil })

	// ---- sort
	I["sort.Slice"] = func(in *Interp, fr *Frame, a []Value) Value { return in.sortSlice(fr, a) }
	I["sort.SliceStable"] = I["sort.Slice"]
	I["sort.Strings"] = func(in *Interp, fr *Frame, a []Value) Value {
		s := a[0].(Slice)
		for i := 1; i < len(s); i++ {
			for j := i; j > 0; j-- {
				if !in.decideBool(in.strLess(strBytes(s[j]), strBytes(s[j-1]), false)) {
					break
				}
				x, y := s[j], s[j-1]
				in.write(&s[j], y)
				in.write(&s[j-1], x)
			}
		}
		return nil
	}

	// ---- sync/atomic
	atomics(I)
	stdlib(I)
	jsonlib(I)

	// ---- misc
	I["(*sync.Pool).Put"] = func(in *Interp, fr *Frame, a []Value) Value { return nil }
	I["(*sync.Pool).Get"] = func(in *Interp, fr *Frame, a []Value) Value {
		s := (*in.deref(a[0])).(Struct)
		if c, ok := s[len(s)-1].(*Closure); ok && c != nil {
			return in.callClosure(fr, c, nil)
		}
		return Iface{}
	}
}

func wrapNative(name string, sym intrinsic) intrinsic {
	n := intrinsics[name]
	return func(in *Interp, fr *Frame, a []Value) Value {
		if n != nil {
			if r := n(in, fr, a); r != notHandled {
				return r
			}
		}
		return sym(in, fr, a)
	}
}

// inCharset is the membership constraint for a set given as ranges "a-z" and
// single characters.
func (in *Interp) inCharset(v *Expr, set string) *Expr {
	r := in.t.False
	for i := 0; i < len(set); i++ {
		if i+2 < len(set) && set[i+1] == '-' {
			lo, hi := set[i], set[i+2]
			r = in.t.Or(r, in.t.And(in.t.Bin(OUle, in.t.Const(uint64(lo), 8), v), in.t.Bin(OUle, v, in.t.Const(uint64(hi), 8))))
			i += 2
			continue
		}
		r = in.t.Or(r, in.t.Eq(v, in.t.Const(uint64(set[i]), 8)))
	}
	return r
}

func (in *Interp) mapCase(v Value, lower bool) Value {
	if s, ok := v.(string); ok {
		if lower {
			return strings.ToLower(s)
		}
		return strings.ToUpper(s)
	}
	b := strBytes(v)
	out := make([]Value, len(b))
	lo, hi, d := uint64('A'), uint64('Z'), uint64(32)
	if !lower {
		lo, hi, d = 'a', 'z', ^uint64(31)
	}
	for i, x := range b {
		e := in.toExpr(x, 8)
		if e.op == OConst && e.k >= 0x80 || e.op != OConst && !in.decideBool(fromExpr(in.t.Bin(OUlt, e, in.t.Const(0x80, 8)))) {
			in.unsupported("case mapping of non-ASCII symbolic string")
		}
		c := in.t.And(in.t.Bin(OUle, in.t.Const(lo, 8), e), in.t.Bin(OUle, e, in.t.Const(hi, 8)))
		out[i] = fromExpr(in.t.Ite(c, in.t.Bin(OAdd, e, in.t.Const(d, 8)), e))
	}
	return mkStr(out)
}

func (in *Interp) cmp3(a, b []Value) Value {
	lt := in.strLess(a, b, false)
	gt := in.strLess(b, a, false)
	l, ok1 := lt.(bool)
	g, ok2 := gt.(bool)
	if ok1 && ok2 {
		switch {
		case l:
			return ^uint64(0)
		case g:
			return uint64(1)
		}
		return uint64(0)
	}
	m1, z, p1 := in.t.Const(^uint64(0), 64), in.t.Const(0, 64), in.t.Const(1, 64)
	return fromExpr(in.t.Ite(in.toExpr(lt, 0), m1, in.t.Ite(in.toExpr(gt, 0), p1, z)))
}

func (in *Interp) indexByte(b []Value, c Value) Value {
	for i, x := range b {
		if in.decideBool(in.byteEq(x, c)) {
			return uint64(i)
		}
	}
	return ^uint64(0)
}

func (in *Interp) indexStr(s, sub []Value) Value {
	for i := 0; i+len(sub) <= len(s); i++ {
		if in.decideBool(in.strEq(mkStr(s[i:i+len(sub)]), mkStr(sub))) {
			return uint64(i)
		}
	}
	return ^uint64(0)
}

// isPlain: provably neither '/' nor '.'.
func (in *Interp) isByte(x Value, c byte) bool { return in.decideBool(in.byteEq(x, uint64(c))) }

// cleanAlready decides that a path needs no lexical cleaning: no empty, "."
// or ".." element and no trailing slash.
func (in *Interp) cleanAlready(b []Value) bool {
	if len(b) == 0 {
		return false
	}
	start := 0
	if in.isByte(b[0], '/') {
		start = 1
		if len(b) == 1 {
			return true
		}
	}
	elem := []Value{}
	check := func() bool {
		if len(elem) == 0 {
			return false
		}
		if len(elem) <= 2 {
			all := true
			for _, c := range elem {
				if !in.isByte(c, '.') {
					all = false
					break
				}
			}
			if all {
				return false
			}
		}
		return true
	}
	for _, c := range b[start:] {
		if in.isByte(c, '/') {
			if !check() {
				return false
			}
			elem = elem[:0]
			continue
		}
		elem = append(elem, c)
	}
	return check()
}

func (in *Interp) joinSym(elems Slice) Value {
	var parts []Value
	for _, e := range elems {
		if strLen(e) > 0 {
			parts = append(parts, e)
		}
	}
	if len(parts) == 0 {
		return ""
	}
	r := parts[0]
	for _, p := range parts[1:] {
		// "/" + x must not double the separator
		if s, ok := r.(string); ok && strings.HasSuffix(s, "/") {
			r = concat(r, p)
			continue
		}
		r = concat(concat(r, "/"), p)
	}
	if s, ok := r.(string); ok {
		return filepath.Clean(s)
	}
	if in.cleanAlready(strBytes(r)) {
		return r
	}
	return notHandled
}

func (in *Interp) sortSlice(fr *Frame, a []Value) Value {
	s := a[0].(Iface).V.(Slice)
	less := a[1].(*Closure)
	for i := 1; i < len(s); i++ {
		for j := i; j > 0; j-- {
			r := in.callClosure(fr, less, []Value{uint64(j), uint64(j - 1)})
			if !in.decideBool(r) {
				break
			}
			x, y := copyVal(s[j]), copyVal(s[j-1])
			in.store(&s[j], y)
			in.store(&s[j-1], x)
		}
	}
	return nil
}

func (in *Interp) unwrapOne(fr *Frame, e Iface) (Iface, bool) {
	r, ok := in.callMethod(fr, e, "Unwrap")
	if !ok {
		return Iface{}, false
	}
	i, ok := r.(Iface)
	return i, ok
}

func (in *Interp) errorsIs(fr *Frame, err, target Iface) Value {
	if err.T == nil || target.T == nil {
		return err.T == nil && target.T == nil
	}
	cmp := types.Comparable(target.T.T)
	for depth := 0; depth < 50; depth++ {
		if cmp && err.T == target.T {
			if in.decideBool(in.equal(err, target)) {
				return true
			}
		}
		if r, ok := in.callMethod(fr, err, "Is", target); ok {
			if in.decideBool(r) {
				return true
			}
		}
		if r, ok := in.callMethod(fr, err, "Unwrap"); ok {
			switch u := r.(type) {
			case Iface:
				if u.T == nil {
					return false
				}
				err = u
				continue
			case Slice:
				for _, x := range u {
					if in.decideBool(in.errorsIs(fr, x.(Iface), target)) {
						return true
					}
				}
			}
		}
		return false
	}
	return false
}

func (in *Interp) errorsAs(fr *Frame, err, target Iface) Value {
	if err.T == nil {
		return false
	}
	pt := target.T
	if pt == nil || pt.kind != kPtr {
		in.throwRuntime("errors: target must be a non-nil pointer")
	}
	want := pt.elem
	cell := in.deref(target.V)
	for depth := 0; depth < 50; depth++ {
		if want.kind == kIface {
			if in.implements(err.T, want) {
				in.store(cell, err)
				return true
			}
		} else if err.T == want {
			in.store(cell, err.V)
			return true
		}
		if r, ok := in.callMethod(fr, err, "As", target); ok && in.decideBool(r) {
			return true
		}
		if r, ok := in.callMethod(fr, err, "Unwrap"); ok {
			switch u := r.(type) {
			case Iface:
				if u.T == nil {
					return false
				}
				err = u
				continue
			case Slice:
				for _, x := range u {
					if in.decideBool(in.errorsAs(fr, x.(Iface), target)) {
						return true
					}
				}
			}
		}
		return false
	}
	return false
}

func (in *Interp) timerChan(d Value) *ChanObj {
	if in.sch == nil {
		in.unsupported("timer during initialisation")
	}
	ns, ok := d.(uint64)
	if !ok {
		ns = in.concretize(d.(*Expr))
	}
	c := &ChanObj{cap: 1, epoch: in.epoch, timer: true}
	at := in.sch.now + int64(ns)
	in.sch.timers = append(in.sch.timers, &timer{at: at, ch: c, on: true, v: zero(in.tt.get(in.ld.timeTime))})
	return c
}

// ---------------------------------------------------------------- formatting

func (in *Interp) fmtVal(v Value, verb byte, plus bool) Value {
	i, ok := v.(Iface)
	if !ok {
		return in.fmtValue(Iface{}, verb, plus)
	}
	if i.T != nil && i.T.kind == kString {
		if m, ok := in.stringMethod(i, verb); ok {
			return m
		}
		switch s := i.V.(type) {
		case *SymStr:
			return s
		}
	}
	if i.T != nil {
		if m, ok := in.stringMethod(i, verb); ok {
			return m
		}
	}
	return in.fmtValue(i, verb, plus)
}

func (in *Interp) stringMethod(i Iface, verb byte) (Value, bool) {
	if verb != 'v' && verb != 's' && verb != 'q' {
		return nil, false
	}
	if in.implements(i.T, in.tt.get(in.ld.errorIface)) {
		if p, ok := i.V.(*Value); ok && p == nil {
			return "<nil>", true
		}
		if r, ok := in.callMethod(nil, i, "Error"); ok {
			return r, true
		}
	}
	if in.implements(i.T, in.tt.get(in.ld.stringerIface)) {
		if e, ok := i.V.(*Expr); ok {
			// the name of a symbolic enum value occurs in messages only
			return fmt.Sprintf("<sym%d>", e.id), true
		}
		if p, ok := i.V.(*Value); ok && p == nil {
			return "<nil>", true
		}
		if r, ok := in.callMethod(nil, i, "String"); ok {
			return r, true
		}
	}
	return nil, false
}

func (in *Interp) fmtValue(i Iface, verb byte, plus bool) string {
	if i.T == nil {
		return "<nil>"
	}
	if verb == 'T' {
		return i.T.T.String()
	}
	if m, ok := in.stringMethod(i, verb); ok {
		if s, ok := m.(string); ok {
			return s
		}
		return "<symbolic>"
	}
	switch v := i.V.(type) {
	case uint64:
		if verb == 'c' {
			return string(rune(v))
		}
		if verb == 'x' {
			return strconv.FormatUint(v, 16)
		}
		if i.T.signed {
			return strconv.FormatInt(sext(v, i.T.w), 10)
		}
		return strconv.FormatUint(v, 10)
	case bool:
		return strconv.FormatBool(v)
	case string:
		if verb == 'q' {
			return strconv.Quote(v)
		}
		return v
	case float64:
		return fmt.Sprint(v)
	case *Expr:
		if verb == 'd' || verb == 'v' {
			return fmt.Sprintf("<sym%d>", v.id)
		}
		return "<symbolic>"
	case *Value:
		if v == nil {
			return "<nil>"
		}
		return "0xptr"
	case Slice:
		s := "["
		for k, e := range v {
			if k > 0 {
				s += " "
			}
			if x, ok := e.(Iface); ok {
				s += in.fmtValue(x, verb, plus)
			} else {
				s += in.fmtValue(Iface{i.T.elem, e}, verb, plus)
			}
		}
		return s + "]"
	case Struct:
		s := "{"
		name := func(k int) string {
			if st, ok := i.T.U.(*types.Struct); ok && plus {
				return st.Field(k).Name() + ":"
			}
			return ""
		}
		for k, e := range v {
			if k > 0 {
				s += " "
			}
			if x, ok := e.(Iface); ok {
				s += name(k) + in.fmtValue(x, verb, plus)
			} else {
				s += name(k) + in.fmtValue(Iface{i.T.fields[k], e}, verb, plus)
			}
		}
		return s + "}"
	case *MapObj:
		var parts []string
		if v != nil {
			for _, e := range v.ents {
				if !e.dead {
					parts = append(parts, in.fmtAs(i.T.key, e.k, verb, plus)+":"+in.fmtAs(i.T.elem, e.v, verb, plus))
				}
			}
		}
		sort.Strings(parts)
		return "map[" + strings.Join(parts, " ") + "]"
	}
	return "<" + i.T.T.String() + ">"
}

func (in *Interp) fmtAs(t *TInfo, v Value, verb byte, plus bool) string {
	if x, ok := v.(Iface); ok {
		return in.fmtValue(x, verb, plus)
	}
	return in.fmtValue(Iface{t, v}, verb, plus)
}

func (in *Interp) sprintf(f Value, args Slice) Value {
	format, ok := f.(string)
	if !ok {
		in.unsupported("symbolic format")
	}
	var out Value = ""
	n := 0
	for i := 0; i < len(format); i++ {
		c := format[i]
		if c != '%' {
			j := i
			for j < len(format) && format[j] != '%' {
				j++
			}
			out = concat(out, format[i:j])
			i = j - 1
			continue
		}
		i++
		start := i
		for i < len(format) && strings.IndexByte("+-# 0123456789.", format[i]) >= 0 {
			i++
		}
		if i >= len(format) {
			break
		}
		flags := format[start:i]
		verb := format[i]
		if verb == '%' {
			out = concat(out, "%")
			continue
		}
		if n >= len(args) {
			out = concat(out, "%!"+string(verb)+"(MISSING)")
			continue
		}
		a := args[n]
		n++
		if verb == 'w' {
			verb = 'v'
		}
		if iv, ok := a.(Iface); ok && iv.T != nil && strings.IndexByte("bcdeEfFgGoOqUxXt", verb) >= 0 {
			var nat interface{}
			switch v := iv.V.(type) {
			case uint64:
				nat = v
				if iv.T.signed {
					nat = sext(v, iv.T.w)
				}
			case float64, bool:
				nat = v
			case string:
				if _, named := in.stringMethod(iv, verb); !named {
					nat = v
				}
			}
			if nat != nil {
				out = concat(out, fmt.Sprintf("%"+flags+string(verb), nat))
				continue
			}
		}
		s := in.fmtVal(a, verb, strings.Contains(flags, "+"))
		if cs, ok := s.(string); ok && flags != "" && strings.Trim(flags, "+#") != "" {
			w := strings.Trim(flags, "+#")
			if iv, ok := a.(Iface); ok && iv.T != nil && iv.T.kind == kInt {
				if u, ok := iv.V.(uint64); ok && (verb == 'd' || verb == 'v') {
					if iv.T.signed {
						cs = fmt.Sprintf("%"+w+"d", sext(u, iv.T.w))
					} else {
						cs = fmt.Sprintf("%"+w+"d", u)
					}
				}
			} else {
				cs = fmt.Sprintf("%"+w+"s", cs)
			}
			s = cs
		}
		out = concat(out, s)
	}
	return out
}

// i18n renders a message in the default language: the text of the message with
// its {{.Field}} placeholders filled in.
func (in *Interp) i18n(fr *Frame, data Iface) Value {
	m, ok := in.callMethod(fr, data, "Message")
	if !ok {
		in.unsupported("i18n: %s has no message", data.T.T)
	}
	p, _ := m.(*Value)
	if p == nil {
		return ""
	}
	f := in.ld.lookupMethod(data.T.T, nil, "Message")
	mt := f.Signature.Results().At(0).Type().Underlying().(*types.Pointer).Elem().Underlying().(*types.Struct)
	var text string
	for k := 0; k < mt.NumFields(); k++ {
		if mt.Field(k).Name() == "Other" {
			text, _ = (*p).(Struct)[k].(string)
		}
	}
	t, v := data.T.T.Underlying(), data.V
	if pt, ok := t.(*types.Pointer); ok {
		t = pt.Elem().Underlying()
		if q, ok := v.(*Value); ok && q != nil {
			v = *q
		}
	}
	st, _ := t.(*types.Struct)
	sv, _ := v.(Struct)
	var r Value = ""
	for {
		a := strings.Index(text, "{{.")
		if a < 0 {
			break
		}
		b := strings.Index(text[a:], "}}")
		if b < 0 {
			break
		}
		name := strings.TrimSpace(text[a+3 : a+b])
		r = concat(r, text[:a])
		text = text[a+b+2:]
		found := false
		if st != nil && sv != nil {
			for k := 0; k < st.NumFields(); k++ {
				if st.Field(k).Name() == name {
					fv := sv[k]
					ft := in.tt.get(st.Field(k).Type())
					if _, ok := fv.(Iface); !ok {
						fv = Iface{ft, fv}
					}
					r = concat(r, in.fmtVal(fv, 'v', false))
					found = true
				}
			}
		}
		if !found {
			// the message can not be rendered
			return ""
		}
	}
	return concat(r, text)
}
