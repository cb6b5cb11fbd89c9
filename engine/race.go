package main

import "fmt"

// Data races: with the parameter race=1, the accesses of each goroutine are
// ordered by vector clocks, which advance with the synchronisation the program
// does (starting goroutines, channels, locks, wait groups, once, atomics). Two
// accesses to a location, at least one of which writes, and neither ordered
// before the other, are a race on every path on which they occur, whatever the
// schedule that was explored. Locations are variables, fields, elements, and
// maps as a whole. Races between accesses that are both outside the repository's
// own code are not reported.

type vclock []uint32

func (a *vclock) join(b vclock) {
	for len(*a) < len(b) {
		*a = append(*a, 0)
	}
	for i, n := range b {
		if n > (*a)[i] {
			(*a)[i] = n
		}
	}
}

func (a vclock) at(g int) uint32 {
	if g < len(a) {
		return a[g]
	}
	return 0
}

type access struct {
	g  int
	c  uint32
	fc *FnCode
}

type shadow struct {
	w    access
	some bool // w is set
	r    []access
}

type racer struct {
	cells map[interface{}]*shadow
	sync  map[interface{}]vclock
}

// raceStart begins to follow accesses: those before the first goroutine is
// started are ordered before all others.
func (in *Interp) raceStart() {
	if in.race == nil && in.params["race"] != 0 {
		in.race = &racer{cells: map[interface{}]*shadow{}, sync: map[interface{}]vclock{}}
		g := in.sch.cur
		g.vc = nil
		g.tick()
	}
}

func (g *gor) tick() {
	for len(g.vc) <= g.id {
		g.vc = append(g.vc, 0)
	}
	g.vc[g.id]++
}

// raceSpawn orders what the current goroutine did before what the new one does.
func (in *Interp) raceSpawn(g *gor) {
	if in.race == nil {
		return
	}
	g.vc = nil
	g.vc.join(in.sch.cur.vc)
	g.tick()
	in.sch.cur.tick()
}

// raceAcquire orders what was released by key before what follows.
func (in *Interp) raceAcquire(key interface{}) {
	if in.race != nil {
		in.sch.cur.vc.join(in.race.sync[key])
	}
}

// raceRelease orders what the current goroutine did before what follows the
// acquisitions of key.
func (in *Interp) raceRelease(key interface{}) {
	if in.race != nil {
		vc := in.race.sync[key]
		vc.join(in.sch.cur.vc)
		in.race.sync[key] = vc
		in.sch.cur.tick()
	}
}

// raceNow is the clock of the current goroutine, which is released.
func (in *Interp) raceNow() vclock {
	if in.race == nil {
		return nil
	}
	vc := append(vclock(nil), in.sch.cur.vc...)
	in.sch.cur.tick()
	return vc
}

// raceMeet orders what both the current and the parked goroutine did before
// what either does next.
func (in *Interp) raceMeet(g *gor, back bool) {
	if in.race == nil {
		return
	}
	theirs := append(vclock(nil), g.vc...)
	g.vc.join(in.sch.cur.vc)
	in.sch.cur.tick()
	if back {
		in.sch.cur.vc.join(theirs)
		g.tick()
	}
}

func (in *Interp) raceJoin(vc vclock) {
	if in.race != nil {
		in.sch.cur.vc.join(vc)
	}
}

// raceCell follows an access to a cell and what it contains.
func (in *Interp) raceCell(fc *FnCode, p *Value, write bool) {
	switch v := (*p).(type) {
	case Struct:
		for i := range v {
			in.raceCell(fc, &v[i], write)
		}
	case Array:
		for i := range v {
			in.raceCell(fc, &v[i], write)
		}
	default:
		in.raceAccess(fc, p, write)
	}
}

func (in *Interp) raceAccess(fc *FnCode, key interface{}, write bool) {
	g := in.sch.cur
	s := in.race.cells[key]
	if s == nil {
		s = &shadow{}
		in.race.cells[key] = s
	}
	me := access{g.id, g.vc.at(g.id), fc}
	if s.some && s.w.g != g.id && s.w.c > g.vc.at(s.w.g) {
		in.raceReport(s.w, me, true, write)
	}
	if !write {
		for i := range s.r {
			if s.r[i].g == g.id {
				s.r[i] = me
				return
			}
		}
		s.r = append(s.r, me)
		return
	}
	for _, r := range s.r {
		if r.g != g.id && r.c > g.vc.at(r.g) {
			in.raceReport(r, me, false, true)
		}
	}
	s.w, s.some, s.r = me, true, s.r[:0]
}

func (in *Interp) raceReport(a, b access, aw, bw bool) {
	if !(a.fc.repo || b.fc.repo) {
		return
	}
	is := func(w bool) string {
		if w {
			return "writes"
		}
		return "reads"
	}
	msg := fmt.Sprintf("data race: %s %s what %s %s", a.fc.name, is(aw), b.fc.name, is(bw))
	in.viol = append(in.viol, pathViolation{"data-race", msg, "race"})
	panic(abort("violation", "data-race"))
}

func (in *Interp) raceMap(fr *Frame, m *MapObj, write bool) {
	if in.race != nil && m != nil && fr != nil {
		in.raceAccess(fr.fc, m, write)
	}
}

// raceAppend follows append(s, y...).
func (in *Interp) raceAppend(fr *Frame, s, y Slice) {
	if fr == nil {
		return
	}
	for i := range y {
		in.raceCell(fr.fc, &y[i], false)
	}
	if n := len(s) + len(y); n <= cap(s) {
		t := s[:n]
		for i := len(s); i < n; i++ {
			in.raceCell(fr.fc, &t[i], true)
		}
		return
	}
	for i := range s {
		in.raceCell(fr.fc, &s[i], false)
	}
}

// raceCopy follows copy(d, y).
func (in *Interp) raceCopy(fr *Frame, d, y Slice) {
	if fr == nil {
		return
	}
	for i := 0; i < len(d) && i < len(y); i++ {
		in.raceCell(fr.fc, &y[i], false)
		in.raceCell(fr.fc, &d[i], true)
	}
}

// raceAtomic orders atomic accesses to the same location.
func (in *Interp) raceAtomic(p *Value, write bool) {
	if in.race == nil {
		return
	}
	in.raceAcquire(p)
	if write {
		in.raceRelease(p)
	}
}
