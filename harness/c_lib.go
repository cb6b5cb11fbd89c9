package main

import (
	"bytes"
	"cmp"
	"container/heap"
	"container/list"
	"context"
	"errors"
	"fmt"
	"io"
	"io/fs"
	"iter"
	"maps"
	"math/bits"
	"path"
	"path/filepath"
	"reflect"
	"slices"
	"sort"
	"strconv"
	"strings"
	"sync"
	"sync/atomic"
	"time"
	"unicode"
	"unicode/utf8"

	"github.com/snivilised/agenor/internal/zverif/sym"
)

type hp []int

func (h hp) Len() int           { return len(h) }
func (h hp) Less(i, j int) bool { return h[i] < h[j] }
func (h hp) Swap(i, j int)      { h[i], h[j] = h[j], h[i] }
func (h *hp) Push(x any)        { *h = append(*h, x.(int)) }
func (h *hp) Pop() any          { o := *h; n := len(o); x := o[n-1]; *h = o[:n-1]; return x }

type lerr struct{ n int }

func (e *lerr) Error() string { return "lerr " + strconv.Itoa(e.n) }

func seq(n int) iter.Seq[int] {
	return func(y func(int) bool) {
		for i := range n {
			if !y(i) {
				return
			}
		}
	}
}

var libs = []func() any{
	0: func() any {
		a := []string{"b", "a"}
		sort.SliceStable(a, func(i, j int) bool { return a[i] < a[j] })
		return a
	},
	1: func() any {
		a := []string{"b", "a"}
		return sort.SliceIsSorted(a, func(i, j int) bool { return a[i] < a[j] })
	},
	2: func() any {
		a := sort.StringSlice{"b", "a"}
		sort.Sort(a)
		sort.Stable(a)
		sort.Sort(sort.Reverse(a))
		return a
	},
	3: func() any { a := []string{"b", "a"}; sort.Strings(a); return sort.SearchStrings(a, "b") },
	4: func() any {
		a := []string{"b", "a"}
		slices.SortFunc(a, strings.Compare)
		slices.SortStableFunc(a, cmp.Compare[string])
		i, ok := slices.BinarySearch(a, "b")
		return fmt.Sprint(a, i, ok)
	},
	5: func() any {
		a := []int{3, 1, 2}
		slices.Sort(a)
		slices.Reverse(a)
		return fmt.Sprint(slices.Contains(a, 2), slices.Index(a, 2), slices.IndexFunc(a, func(x int) bool { return x == 1 }), slices.Clone(a), slices.Concat(a, a), slices.Insert(a, 1, 9), slices.Delete(slices.Clone(a), 0, 1), slices.Max(a), slices.Equal(a, a))
	},
	6: func() any {
		m := map[string]int{"a": 1, "b": 2}
		k := slices.Sorted(maps.Keys(m))
		c := maps.Clone(m)
		maps.Copy(c, m)
		maps.DeleteFunc(c, func(k string, _ int) bool { return k == "a" })
		return fmt.Sprint(k, c, slices.Collect(maps.Values(c)))
	},
	7: func() any {
		var b strings.Builder
		b.WriteString("x")
		b.WriteByte('y')
		b.WriteRune('é')
		fmt.Fprintf(&b, "%d", 3)
		b.Grow(10)
		return b.String() + strconv.Itoa(b.Len())
	},
	8: func() any {
		return fmt.Sprint(strings.Fields(" a b "), strings.Split("a,b", ","), strings.SplitN("a,b,c", ",", 2), strings.TrimFunc("xxaxx", func(r rune) bool { return r == 'x' }), strings.Map(unicode.ToUpper, "abc"), strings.EqualFold("A", "a"), strings.Repeat("ab", 3), strings.ReplaceAll("aa", "a", "b"), strings.Count("aaa", "a"), strings.ContainsAny("abc", "xc"), strings.IndexByte("abc", 'c'), strings.LastIndexByte("abc", 'c'), strings.Title("ab"), strings.TrimRight("a//", "/"))
	},
	9: func() any { return strings.NewReplacer("a", "b", "c", "d").Replace("aacc") },
	10: func() any {
		r := strings.NewReader("hello")
		b, err := io.ReadAll(r)
		return fmt.Sprint(string(b), err)
	},
	11: func() any {
		var b bytes.Buffer
		b.WriteString("x")
		fmt.Fprint(&b, 1, "a")
		return b.String() + string(bytes.ToUpper([]byte("q")))
	},
	12: func() any {
		n, err := strconv.ParseInt("12x", 10, 64)
		q := strconv.Quote("a\n")
		f := strconv.FormatFloat(1.5, 'f', -1, 64)
		b, _ := strconv.ParseBool("true")
		return fmt.Sprint(n, err, q, f, b)
	},
	13: func() any {
		return fmt.Sprintf("%v %+v %#v %T %q %x %5d|%-5s|%05d %t %p %c %U %e", 1, struct{ A int }{1}, []string{"a"}, 1.5, "q", 255, 3, "ab", 7, true, nil, 'c', 'é', 1.5)
	},
	14: func() any {
		e := fmt.Errorf("w %w %v", &lerr{1}, 2)
		j := errors.Join(e, io.EOF)
		var l *lerr
		return fmt.Sprint(errors.As(j, &l), l.n, errors.Is(j, io.EOF), errors.Unwrap(e), j)
	},
	15: func() any {
		ctx, c := context.WithCancel(context.WithValue(context.Background(), "k", 1))
		c()
		return fmt.Sprint(ctx.Err(), ctx.Value("k"))
	},
	16: func() any {
		var o sync.Once
		n := 0
		o.Do(func() { n++ })
		o.Do(func() { n++ })
		f := sync.OnceValue(func() int { n++; return n })
		return f() + f()
	},
	17: func() any {
		var m sync.Mutex
		m.Lock()
		m.Unlock()
		var r sync.RWMutex
		r.RLock()
		r.RUnlock()
		r.Lock()
		r.Unlock()
		return m.TryLock()
	},
	18: func() any {
		var w sync.WaitGroup
		var n atomic.Int32
		for i := range 2 {
			w.Add(1)
			go func() { defer w.Done(); n.Add(int32(i)) }()
		}
		w.Wait()
		return n.Load()
	},
	19: func() any { p := sync.Pool{New: func() any { return 1 }}; x := p.Get(); p.Put(x); return x },
	20: func() any {
		var m sync.Map
		m.Store("a", 1)
		v, ok := m.Load("a")
		m.LoadOrStore("b", 2)
		m.Delete("b")
		n := 0
		m.Range(func(_, _ any) bool { n++; return true })
		return fmt.Sprint(v, ok, n)
	},
	21: func() any {
		var p atomic.Pointer[int]
		x := 1
		p.Store(&x)
		var v atomic.Value
		v.Store("a")
		var b atomic.Bool
		b.Store(true)
		var i int64
		atomic.AddInt64(&i, 2)
		return fmt.Sprint(*p.Load(), v.Load(), b.CompareAndSwap(true, false), i)
	},
	22: func() any { return utf8.RuneCountInString("é") + utf8.RuneLen('é') + bits.Len(5) },
	23: func() any {
		return fmt.Sprint(reflect.DeepEqual([]int{1}, []int{1}), reflect.TypeOf(1).String(), reflect.ValueOf(nil).IsValid())
	},
	24: func() any {
		r, err := filepath.Rel("/a", "/a/b")
		return fmt.Sprint(r, err, filepath.Base("/a/b"), filepath.Dir("/a/b"), filepath.Clean("/a/../b"), filepath.Ext("a.b"), filepath.IsAbs("/a"), path.Join("a", "b"), filepath.ToSlash("a"), filepath.VolumeName("/"))
	},
	25: func() any {
		l := list.New()
		l.PushBack(1)
		l.PushFront(2)
		s := 0
		for e := l.Front(); e != nil; e = e.Next() {
			s = s*10 + e.Value.(int)
		}
		return s
	},
	26: func() any { h := &hp{3, 1, 2}; heap.Init(h); heap.Push(h, 0); return heap.Pop(h) },
	27: func() any {
		s := 0
		for i := range seq(5) {
			if i == 3 {
				break
			}
			s += i
		}
		next, stop := iter.Pull(seq(3))
		defer stop()
		v, _ := next()
		return s + v
	},
	28: func() any { d := 2 * time.Second; return d.String() },
	29: func() any { t := time.Now(); _ = time.Since(t); return time.Unix(0, 0).UTC().Format(time.RFC3339) },
	30: func() any { fi, err := fs.Stat(nil2fs{}, "."); return fmt.Sprint(fi, err) },
	31: func() any {
		a := [3]int{1, 2, 3}
		b := a
		b[0] = 9
		type k struct{ a, b int }
		m := map[k]int{{1, 2}: 3}
		m2 := map[any]int{1: 2, "a": 3}
		return fmt.Sprint(a == b, m[k{1, 2}], m2["a"], len(a[1:]), cap(a[1:2:2]))
	},
	32: func() (r any) {
		defer func() { r = fmt.Sprint(recover()) }()
		var m map[string]int
		m["a"] = 1
		return 1
	},
	33: func() (r any) { defer func() { r = fmt.Sprint(recover()) }(); var a []int; i := 3; return a[i] },
	34: func() (r any) {
		defer func() { e := recover(); err, ok := e.(error); r = fmt.Sprint(ok, err) }()
		var p *lerr
		return p.n
	},
	35: func() any { m := map[string]int{"a": 1}; clear(m); return fmt.Sprint(len(m), min(1, 2), max(1.5, 2)) },
	36: func() any {
		c := make(chan int, 2)
		c <- 1
		close(c)
		x, ok := <-c
		y, ok2 := <-c
		select {
		case z := <-c:
			x += z
		default:
		}
		return fmt.Sprint(x, ok, y, ok2)
	},
	37: func() any {
		g := context.Background()
		ctx, cancel := context.WithTimeout(g, time.Hour)
		defer cancel()
		select {
		case <-ctx.Done():
			return 1
		default:
			return 0
		}
	},
	38: func() any { return fs.ValidPath("a/b") && fs.FileMode(0o755).IsRegular() && fs.ModeDir.IsDir() },
	39: func() any {
		return fmt.Sprint(fs.FileMode(0o755)|fs.ModeDir, errors.Is(&fs.PathError{Op: "open", Path: "a", Err: fs.ErrNotExist}, fs.ErrNotExist), &fs.PathError{Op: "open", Path: "a", Err: fs.ErrNotExist})
	},
	40: func() any {
		s := []int{1, 2, 3, 4}
		c := slices.Collect(slices.Chunk(s, 2))
		s2 := slices.DeleteFunc(slices.Clone(s), func(x int) bool { return x%2 == 0 })
		return fmt.Sprint(c, s2, slices.ContainsFunc(s, func(x int) bool { return x > 3 }), slices.Compact([]int{1, 1, 2}), slices.MinFunc(s, cmp.Compare[int]))
	},
	41: func() any {
		f := strings.FieldsFunc("a-b", func(r rune) bool { return r == '-' })
		p, s, ok := strings.Cut("a=b", "=")
		q, ok2 := strings.CutPrefix("abc", "a")
		return fmt.Sprint(f, p, s, ok, q, ok2, strings.ToTitle("a"), strings.IndexFunc("ab", unicode.IsUpper), strings.LastIndexAny("abc", "ab"))
	},
	42: func() any {
		s := ""
		for x := range strings.SplitSeq("a,b", ",") {
			s += x + ";"
		}
		for w := range strings.FieldsSeq("a b") {
			s += w
		}
		return s
	},
	43: func() any { return cmp.Or("", "b") },
	44: func() any {
		t := time.Date(2020, 1, 2, 3, 4, 5, 0, time.UTC)
		return t.Format("2006-01-02_15-04-05") + fmt.Sprint(t.Unix(), t.Add(time.Hour).After(t))
	},
	45: func() any {
		type T struct {
			A int
			B []string
			C map[string]int
			D *int
		}
		x := 1
		return fmt.Sprintf("%+v", T{1, []string{"a"}, map[string]int{"z": 1, "a": 2}, nil}) + fmt.Sprint(reflect.DeepEqual(T{D: &x}, T{D: &x}))
	},
}

type nil2fs struct{}

func (nil2fs) Open(string) (fs.File, error) { return nil, fs.ErrNotExist }

var _ = reg("H_Lib", H_Lib)

func H_Lib() {
	i := sym.Pick("i", len(libs))
	if o := sym.Param("only", -1); o >= 0 {
		sym.Assume(i == o)
	}
	sym.Observe("r"+strconv.Itoa(i), fmt.Sprint(libs[i]()))
	sym.Reach("end")
}
