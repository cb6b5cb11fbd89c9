package main

type syncState struct {
	locked  bool
	readers int
	count   int64
	done    bool
	doing   bool
	waitq   []*gor
	m       *MapObj
}

// readersOf is the clock of the readers of a lock.
type readersOf struct{ s *syncState }

func (in *Interp) syncOf(p Value) *syncState {
	c := in.deref(p)
	tab := in.syncTab
	if s, ok := in.initSync[c]; ok {
		return s
	}
	if !in.journal {
		tab = in.initSync
	}
	s, ok := tab[c]
	if !ok {
		s = &syncState{}
		tab[c] = s
	}
	return s
}

// waitUntil parks the goroutine until cond holds.
func (in *Interp) waitUntil(s *syncState, cond func() bool) {
	for !cond() {
		if in.sch == nil {
			in.unsupported("blocking during initialisation")
		}
		s.waitq = append(s.waitq, in.sch.cur)
		in.block()
	}
}

func (s *syncState) wake() {
	for _, g := range s.waitq {
		g.ready = true
	}
	s.waitq = nil
}

func atomics(I map[string]intrinsic) {
	lock := func(in *Interp, fr *Frame, a []Value) Value {
		in.preemptPoint()
		s := in.syncOf(a[0])
		in.waitUntil(s, func() bool { return !s.locked && s.readers == 0 })
		s.locked = true
		in.raceAcquire(s)
		in.raceAcquire(readersOf{s})
		return nil
	}
	unlock := func(in *Interp, fr *Frame, a []Value) Value {
		s := in.syncOf(a[0])
		if !s.locked {
			panic(abort("crash", "sync: unlock of unlocked mutex"))
		}
		in.raceRelease(s)
		s.locked = false
		s.wake()
		return nil
	}
	I["(*sync.Mutex).Lock"] = lock
	I["(*sync.Mutex).Unlock"] = unlock
	I["(*sync.Mutex).TryLock"] = func(in *Interp, fr *Frame, a []Value) Value {
		s := in.syncOf(a[0])
		if s.locked {
			return false
		}
		s.locked = true
		in.raceAcquire(s)
		in.raceAcquire(readersOf{s})
		return true
	}
	I["(*sync.RWMutex).TryLock"] = func(in *Interp, fr *Frame, a []Value) Value {
		s := in.syncOf(a[0])
		if s.locked || s.readers > 0 {
			return false
		}
		s.locked = true
		in.raceAcquire(s)
		in.raceAcquire(readersOf{s})
		return true
	}
	I["(*sync.RWMutex).TryRLock"] = func(in *Interp, fr *Frame, a []Value) Value {
		s := in.syncOf(a[0])
		if s.locked {
			return false
		}
		s.readers++
		in.raceAcquire(s)
		return true
	}
	I["(*sync.RWMutex).Lock"] = lock
	I["(*sync.RWMutex).Unlock"] = unlock
	I["(*sync.RWMutex).RLock"] = func(in *Interp, fr *Frame, a []Value) Value {
		in.preemptPoint()
		s := in.syncOf(a[0])
		in.waitUntil(s, func() bool { return !s.locked })
		s.readers++
		in.raceAcquire(s)
		return nil
	}
	I["(*sync.RWMutex).RUnlock"] = func(in *Interp, fr *Frame, a []Value) Value {
		s := in.syncOf(a[0])
		s.readers--
		in.raceRelease(readersOf{s})
		s.wake()
		return nil
	}
	I["(*sync.WaitGroup).Add"] = func(in *Interp, fr *Frame, a []Value) Value {
		in.preemptPoint()
		s := in.syncOf(a[0])
		d := int64(in.concInt(a[1]))
		s.count += d
		if d < 0 {
			in.raceRelease(s)
		}
		if s.count < 0 {
			in.throw(Iface{in.tt.get(in.ld.runtimeError), "sync: negative WaitGroup counter"})
		}
		if s.count == 0 {
			s.wake()
		}
		return nil
	}
	I["(*sync.WaitGroup).Done"] = func(in *Interp, fr *Frame, a []Value) Value {
		return I["(*sync.WaitGroup).Add"](in, fr, []Value{a[0], ^uint64(0)})
	}
	I["(*sync.WaitGroup).Wait"] = func(in *Interp, fr *Frame, a []Value) Value {
		in.preemptPoint()
		s := in.syncOf(a[0])
		in.waitUntil(s, func() bool { return s.count == 0 })
		in.raceAcquire(s)
		return nil
	}
	I["(*sync.Once).Do"] = func(in *Interp, fr *Frame, a []Value) Value {
		s := in.syncOf(a[0])
		if s.done {
			in.raceAcquire(s)
			return nil
		}
		if s.doing {
			in.waitUntil(s, func() bool { return s.done })
			in.raceAcquire(s)
			return nil
		}
		s.doing = true
		func() {
			defer func() {
				s.done = true
				in.raceRelease(s)
				s.doing = false
				s.wake()
			}()
			in.callClosure(fr, a[1].(*Closure), nil)
		}()
		return nil
	}
	I["(*sync.Once).doSlow"] = I["(*sync.Once).Do"]
	// sync.Cond: field L is the locker
	condLocker := func(in *Interp, p Value) Iface {
		s := (*in.deref(p)).(Struct)
		for _, f := range s {
			if i, ok := f.(Iface); ok {
				return i
			}
		}
		in.unsupported("sync.Cond layout")
		return Iface{}
	}
	I["(*sync.Cond).Wait"] = func(in *Interp, fr *Frame, a []Value) Value {
		l := condLocker(in, a[0])
		s := in.syncOf(a[0])
		s.waitq = append(s.waitq, in.sch.cur)
		g := in.sch.cur
		_ = g
		saved := in.sch.preempt
		in.sch.preempt = 0 // Unlock+park is atomic
		in.callMethod(fr, l, "Unlock")
		in.sch.preempt = saved
		in.block()
		in.callMethod(fr, l, "Lock")
		return nil
	}
	I["(*sync.Cond).Signal"] = func(in *Interp, fr *Frame, a []Value) Value {
		in.preemptPoint()
		s := in.syncOf(a[0])
		if len(s.waitq) > 0 {
			s.waitq[0].ready = true
			s.waitq = append([]*gor(nil), s.waitq[1:]...)
		}
		return nil
	}
	I["(*sync.Cond).Broadcast"] = func(in *Interp, fr *Frame, a []Value) Value {
		in.preemptPoint()
		in.syncOf(a[0]).wake()
		return nil
	}
	for _, t := range []struct {
		n string
		w uint8
	}{{"Int32", 32}, {"Int64", 64}, {"Uint32", 32}, {"Uint64", 64}, {"Uintptr", 64}} {
		w := t.w
		I["sync/atomic.Load"+t.n] = func(in *Interp, fr *Frame, a []Value) Value {
			in.preemptPoint()
			in.raceAtomic(in.deref(a[0]), false)
			return *in.deref(a[0])
		}
		I["sync/atomic.Store"+t.n] = func(in *Interp, fr *Frame, a []Value) Value {
			in.preemptPoint()
			in.raceAtomic(in.deref(a[0]), true)
			in.write(in.deref(a[0]), a[1])
			return nil
		}
		I["sync/atomic.Add"+t.n] = func(in *Interp, fr *Frame, a []Value) Value {
			in.preemptPoint()
			in.raceAtomic(in.deref(a[0]), true)
			p := in.deref(a[0])
			v := fromExpr(in.t.Bin(OAdd, in.toExpr(*p, w), in.toExpr(a[1], w)))
			in.write(p, v)
			return v
		}
		I["sync/atomic.Swap"+t.n] = func(in *Interp, fr *Frame, a []Value) Value {
			in.preemptPoint()
			in.raceAtomic(in.deref(a[0]), true)
			p := in.deref(a[0])
			old := *p
			in.write(p, a[1])
			return old
		}
		I["sync/atomic.CompareAndSwap"+t.n] = func(in *Interp, fr *Frame, a []Value) Value {
			in.preemptPoint()
			in.raceAtomic(in.deref(a[0]), true)
			p := in.deref(a[0])
			if in.decideBool(in.equal(*p, a[1])) {
				in.write(p, a[2])
				return true
			}
			return false
		}
	}
	ptrField := func(in *Interp, p Value) *Value {
		s := (*in.deref(p)).(Struct)
		return &s[len(s)-1]
	}
	for _, n := range []string{"Pointer[T]", "Value"} {
		I["(*sync/atomic."+n+").Load"] = func(in *Interp, fr *Frame, a []Value) Value {
			in.raceAtomic(ptrField(in, a[0]), false)
			return *ptrField(in, a[0])
		}
		I["(*sync/atomic."+n+").Store"] = func(in *Interp, fr *Frame, a []Value) Value {
			in.raceAtomic(ptrField(in, a[0]), true)
			in.write(ptrField(in, a[0]), a[1])
			return nil
		}
		I["(*sync/atomic."+n+").Swap"] = func(in *Interp, fr *Frame, a []Value) Value {
			p := ptrField(in, a[0])
			in.raceAtomic(p, true)
			o := *p
			in.write(p, a[1])
			return o
		}
		I["(*sync/atomic."+n+").CompareAndSwap"] = func(in *Interp, fr *Frame, a []Value) Value {
			p := ptrField(in, a[0])
			in.raceAtomic(p, true)
			if in.decideBool(in.equal(*p, a[1])) {
				in.write(p, a[2])
				return true
			}
			return false
		}
	}
}
