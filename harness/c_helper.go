package main

import (
	"errors"
	"strconv"

	"github.com/snivilised/agenor/internal/third/lo"
	"github.com/snivilised/agenor/internal/zverif/sym"
)

var _ = reg("H_C24_helpers", H_C24_helpers)

// H_C24_helpers: the sequence helpers compute what they are named after.
func H_C24_helpers() {
	n := sym.Pick("len", sym.Param("size", 4)+1)
	var xs []int
	for i := 0; i < n; i++ {
		xs = append(xs, sym.Int(strconv.Itoa(i)))
	}
	before := append([]int(nil), xs...)
	is := func(got, want []int, tag string) {
		sym.Assert(len(got) == len(want), tag)
		for i, w := range want {
			sym.Assert(got[i] == w, tag)
		}
	}
	limit := sym.Int("limit")
	low := func(x int) bool { return sym.ConcBool(x < limit) }
	indices := 0
	seen := func(x, i int) {
		sym.Assert(i == indices && x == before[i], "in-order")
		indices++
	}
	switch sym.Pick("helper", 14) {
	case 0, 1:
		keep := sym.Pick("reject", 2) == 0
		var want []int
		for _, x := range xs {
			if low(x) == keep {
				want = append(want, x)
			}
		}
		pass := func(x, i int) bool { seen(x, i); return low(x) }
		if keep {
			is(lo.Filter(xs, pass), want, "filter")
		} else {
			is(lo.Reject(xs, pass), want, "reject")
		}
		sym.Assert(indices == n, "each-once")
	case 2:
		var want []int
		for _, x := range xs {
			want = append(want, x+limit)
		}
		is(lo.Map(xs, func(x, i int) int { seen(x, i); return x + limit }), want, "map")
		sym.Assert(indices == n, "each-once")
	case 3:
		failing := sym.Pick("failing", n+1)
		got, err := lo.MapE(xs, func(x, i int) (int, error) {
			seen(x, i)
			if i == failing {
				return 0, errClient
			}
			return x - limit, nil
		})
		sym.Assert((err == nil) == (failing == n) && (err == nil || errors.Is(err, errClient)), "map-error")
		for i := 0; i < failing; i++ {
			sym.Assert(got[i] == xs[i]-limit, "map-until-error")
		}
		if failing < n {
			sym.Assert(indices == failing+1, "stops-at-error")
		} else {
			sym.Assert(len(got) == n, "map-all")
		}
	case 4:
		want := limit
		for _, x := range xs {
			want = 3*want + x
		}
		sym.Assert(lo.Reduce(xs, func(agg, x, i int) int { seen(x, i); return 3*agg + x }, limit) == want, "reduce")
		sym.Assert(indices == n, "each-once")
	case 5:
		var want []int
		for _, x := range xs {
			fresh := true
			for _, w := range want {
				if sym.ConcBool(w == x) {
					fresh = false
				}
			}
			if fresh {
				want = append(want, x)
			}
		}
		is(lo.Uniq(xs), want, "uniq")
	case 6:
		groups := lo.GroupBy(xs, func(x int) bool { return low(x) })
		total := 0
		for key, group := range groups {
			var want []int
			for _, x := range xs {
				if low(x) == key {
					want = append(want, x)
				}
			}
			sym.Assert(len(want) > 0, "group-nonempty")
			is(group, want, "group")
			total += len(group)
		}
		sym.Assert(total == n, "groups-all")
	case 7:
		at := -1
		for i, x := range xs {
			if at < 0 && low(x) {
				at = i
			}
		}
		got, ok := lo.Find(xs, low)
		sym.Assert(ok == (at >= 0), "find")
		if at >= 0 {
			sym.Assert(got == xs[at], "find")
		} else {
			sym.Assert(got == 0, "find-none")
		}
	case 8:
		got, err := lo.Last(xs)
		sym.Assert((err == nil) == (n > 0), "last")
		if n > 0 {
			sym.Assert(got == xs[n-1], "last")
		} else {
			sym.Assert(got == 0, "last-none")
		}
	case 9:
		want := false
		for _, x := range xs {
			want = sym.Or(want, x == limit)
		}
		sym.Assert(lo.Contains(xs, limit) == want, "contains")
	case 10:
		want := true
		for _, x := range xs {
			want = sym.And(want, x < limit)
		}
		sym.Assert(lo.EveryBy(xs, low) == want, "every")
	case 11:
		want := 0
		for _, x := range xs {
			want += x
		}
		sym.Assert(lo.Sum(xs) == want, "sum")
	case 12:
		cond := sym.ConcBool(sym.Bool("cond"))
		a, b := sym.Int("a"), sym.Int("b")
		want := b
		if cond {
			want = a
		}
		sym.Assert(lo.Ternary(cond, a, b) == want, "ternary")
		called := 0
		got := lo.TernaryF(cond, func() int { called++; return a }, func() int { called += 2; return b })
		sym.Assert(got == want, "ternary-function")
		sym.Assert((called == 1) == cond && called < 3, "only-one")
	case 13:
		m := map[int]int{}
		for i, x := range xs {
			m[x] = i
		}
		keys, values := lo.Keys(m), lo.Values(m)
		sym.Assert(len(keys) == len(m) && len(values) == len(m), "keys")
		for i, k := range keys {
			_, ok := m[k]
			sym.Assert(ok, "keys")
			for _, other := range keys[:i] {
				sym.Assert(other != k, "keys-once")
			}
		}
		sum := 0
		for _, i := range m {
			sum += i
		}
		for _, v := range values {
			sum -= v
		}
		sym.Assert(sum == 0, "values")
	}
	is(xs, before, "given-intact")
	sym.Reach("end")
}
