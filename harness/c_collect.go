package main

import (
	"strconv"

	"github.com/snivilised/agenor/collections"
	"github.com/snivilised/agenor/internal/zverif/sym"
)

var (
	_ = reg("H_C24_stack", H_C24_stack)
	_ = reg("H_C24_iterator", H_C24_iterator)
	_ = reg("H_C24_set", H_C24_set)
	_ = reg("H_C24_strings", H_C24_strings)
)

// H_C24_stack: a stack is the sequence of what was pushed and not popped.
func H_C24_stack() {
	var (
		s    *collections.Stack[int]
		want []int
	)
	if sym.Pick("new", 2) == 0 {
		s = collections.NewStack[int]()
	} else {
		n := sym.Pick("with", sym.Param("size", 3)+1)
		with := make([]int, 0, n)
		for i := 0; i < n; i++ {
			with = append(with, sym.Int("with"+strconv.Itoa(i)))
		}
		want = append(want, with...)
		s = collections.NewStackWith(with)
	}
	check := func() {
		sym.Assert(s.Size() == uint(len(want)), "size")
		sym.Assert(s.IsEmpty() == (len(want) == 0), "empty")
		v, err := s.Current()
		if len(want) == 0 {
			sym.Assert(err == collections.ErrStackIsEmpty && v == 0, "current-empty")
		} else {
			sym.Assert(err == nil, "current")
			sym.Assert(v == want[len(want)-1], "current")
		}
		content := s.Content()
		sym.Assert(len(content) == len(want), "content")
		for i, w := range want {
			sym.Assert(content[i] == w, "content")
		}
	}
	check()
	for i := 0; i < sym.Param("steps", 4); i++ {
		l := strconv.Itoa(i)
		switch sym.Pick(l+".op", 3) {
		case 0:
			v := sym.Int(l + ".v")
			s.Push(v)
			want = append(want, v)
		case 1:
			v, err := s.Pop()
			if len(want) == 0 {
				sym.Assert(err == collections.ErrStackIsEmpty && v == 0, "pop-empty")
			} else {
				sym.Assert(err == nil, "pop")
				sym.Assert(v == want[len(want)-1], "pop")
				want = want[: len(want)-1 : len(want)-1]
			}
		case 2:
			var v int
			cause := catch(func() { v = s.MustPop() })
			if len(want) == 0 {
				err, ok := cause.(error)
				sym.Assert(ok && err == collections.ErrStackIsEmpty, "must-pop-empty")
			} else {
				sym.Assert(cause == nil, "must-pop")
				sym.Assert(v == want[len(want)-1], "must-pop")
				want = want[: len(want)-1 : len(want)-1]
			}
		}
		check()
	}
	sym.Reach("end")
}

func catch(f func()) (cause any) {
	defer func() { cause = recover() }()
	f()
	return nil
}

// H_C24_iterator: iterators go through the elements, either way.
func H_C24_iterator() {
	elements := func(l string) []int {
		n := sym.Pick(l+".len", sym.Param("size", 3)+1)
		es := make([]int, 0, n)
		for i := 0; i < n; i++ {
			es = append(es, sym.Int(l+strconv.Itoa(i)))
		}
		return es
	}
	zero := sym.Int("zero")
	of := elements("of")
	reverse := sym.Pick("reverse", 2) == 1
	var (
		it  collections.Iterator[int]
		run collections.RunnableIterator[int, int]
	)
	switch {
	case sym.Pick("runnable", 2) == 1:
		run = collections.ForwardRunIt[int, int](of, zero)
		if reverse {
			run = collections.ReverseRunIt[int, int](of, zero)
		}
		it = run
	case reverse:
		it = collections.ReverseIt(of, zero)
	default:
		it = collections.ForwardIt(of, zero)
	}
	// at is the number of elements before the current one, in order
	at := -1
	current := func() int {
		switch {
		case at < 0 || at >= len(of):
			return zero
		case reverse:
			return of[len(of)-1-at]
		}
		return of[at]
	}
	valid := func() { sym.Assert(it.Valid() == (at >= 0 && at < len(of)), "valid") }
	valid()
	for i := 0; i < sym.Param("steps", 4); i++ {
		l := strconv.Itoa(i)
		ops := 3
		if run != nil {
			ops = 4
		}
		switch sym.Pick(l+".op", ops) {
		case 0:
			got := it.Start()
			at = 0
			sym.Assert(got == current(), "start")
		case 1:
			// once it is over there is no next one
			got := it.Next()
			if at < len(of) {
				at++
			}
			sym.Assert(got == current(), "next")
		case 2:
			of = elements(l)
			it.Reset(of)
			at = -1
		case 3:
			limit := sym.Int(l + ".limit")
			calls, over := 0, false
			run.RunAll(func(v int) int {
				sym.Assert(!over, "run-over")
				at = calls
				sym.Assert(calls < len(of), "run-number")
				sym.Assert(v == current(), "run-each")
				calls++
				return v + 1
			}, func(v, r int) bool {
				sym.Assert(v == current(), "run-while")
				sym.Assert(r == v+1, "run-while")
				over = sym.ConcBool(v == limit)
				return !over
			})
			sym.Assert(over || calls == len(of), "run-all")
			if !over {
				at = len(of)
			}
		}
		valid()
	}
	sym.Reach("end")
}

// order is a positional set, as a list of what may be in it and what is.
type order[T collections.Orderable] struct {
	items  []T
	in     []bool
	anchor T
}

func (o *order[T]) find(v T) int {
	for i, item := range o.items {
		if sym.ConcBool(item == v) {
			return i
		}
	}
	return -1
}

func newOrder[T collections.Orderable](of []T, anchor T) *order[T] {
	o := &order[T]{anchor: anchor}
	for _, item := range of {
		if sym.ConcBool(item != anchor) && o.find(item) < 0 {
			o.items = append(o.items, item)
		}
	}
	o.items = append(o.items, anchor)
	o.in = make([]bool, len(o.items))
	o.in[len(o.items)-1] = true
	return o
}

func (o *order[T]) insert(v T) bool {
	i := o.find(v)
	if i < 0 || o.in[i] {
		return false
	}
	o.in[i] = true
	return true
}

func positional[T collections.Orderable](value func(string) T) {
	var of []T
	for i := 0; i < sym.Param("size", 3); i++ {
		of = append(of, value("of"+strconv.Itoa(i)))
	}
	anchor := value("anchor")
	given := append([]T(nil), of...)
	ps := collections.NewPositionalSet(of, anchor)
	o := newOrder(of, anchor)
	check := func() {
		var want []T
		for i, item := range o.items {
			if o.in[i] {
				want = append(want, item)
			}
		}
		items := ps.Items()
		sym.Assert(len(items) == len(want), "items")
		for i, item := range want {
			sym.Assert(items[i] == item, "items")
		}
		sym.Assert(ps.Count() == len(want), "count")
		sym.Assert(ps.Top() == want[0], "top")
	}
	check()
	for i := 0; i < sym.Param("steps", 3); i++ {
		l := strconv.Itoa(i)
		switch sym.Pick(l+".op", 5) {
		case 0:
			v := value(l + ".v")
			got := ps.Insert(v)
			sym.Assert(got == o.insert(v), "insert")
		case 1:
			var vs []T
			want := true
			n := sym.Pick(l+".n", 3)
			for k := 0; k < n; k++ {
				v := value(l + ".v" + strconv.Itoa(k))
				vs = append(vs, v)
				want = o.insert(v) && want
			}
			sym.Assert(ps.All(vs...) == want, "all")
		case 2:
			v := value(l + ".v")
			ps.Delete(v)
			if k := o.find(v); k >= 0 && k < len(o.items)-1 {
				o.in[k] = false
			}
		case 3:
			v := value(l + ".v")
			k := o.find(v)
			sym.Assert(ps.Contains(v) == (k >= 0 && o.in[k]), "contains")
		case 4:
			v := value(l + ".v")
			k := o.find(v)
			at, ok := ps.Position(v)
			sym.Assert(ok == (k >= 0), "position")
			if ok {
				sym.Assert(at == k, "position")
			}
		}
		// the items may be asked for at any time
		if sym.Pick(l+".look", 2) == 1 {
			check()
		}
	}
	check()
	for i, v := range given {
		sym.Assert(of[i] == v, "given-intact")
	}
	sym.Reach("end")
}

// H_C24_set: a positional set holds what was put in, in its order.
func H_C24_set() {
	positional(func(l string) int { return sym.Int(l) })
}

// H_C24_strings: also if it is of strings.
func H_C24_strings() {
	positional(func(l string) string { return sym.Str(l, 2, "ab") })
}
