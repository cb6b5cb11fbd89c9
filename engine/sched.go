package main

import (
	"fmt"
	"go/types"

	"golang.org/x/tools/go/ssa"
)

// ChanObj is a channel of the interpreted program.
type ChanObj struct {
	buf    []Value
	cap    int
	closed bool
	epoch  int
	recvq  []*waiter
	bufVC  []vclock // clocks of the buffered items
	recvVC []vclock // clocks of the receives so far
	sent   int
	endVC  vclock
	sendq  []*waiter
	timer  bool
	id     int
}

type waiter struct {
	g     *gor
	val   Value // value to send / received
	ok    bool
	done  *bool // shared by all cases of one select
	which int
	sel   *int
}

// gor is a goroutine of the interpreted program; each runs on its own real
// goroutine, one at a time.
type gor struct {
	id     int
	resume chan bool // false: die
	ready  bool
	end    bool
	depth  int
	name   string
	vc     vclock
}

type sched struct {
	in      *Interp
	gs      []*gor
	cur     *gor
	failure interface{} // engine abort raised in a non-main goroutine
	dead    chan struct{}
	n       int
	timers  []*timer
	now     int64
	preempt int
	delays  int // remaining deviations from the default schedule; <0: no limit
	live    int
	dying   bool
}

type timer struct {
	at int64
	ch *ChanObj
	fn *Closure
	on bool
	v  Value
}

func (in *Interp) newSched() {
	main := &gor{id: 0, resume: make(chan bool), ready: true, name: "main"}
	in.sch = &sched{in: in, gs: []*gor{main}, cur: main, dead: make(chan struct{}, 64)}
}

// killAll ends every parked goroutine of the path.
func (in *Interp) killAll() {
	s := in.sch
	if s == nil {
		return
	}
	s.dying = true
	for _, g := range s.gs[1:] {
		if !g.end {
			g.resume <- false
			<-s.dead
		}
	}
	in.sch = nil
}

func (in *Interp) spawn(fn *Closure, args []Value) {
	s := in.sch
	if s == nil {
		in.unsupported("go statement during initialisation")
	}
	s.n++
	g := &gor{id: s.n, resume: make(chan bool), ready: true}
	if fn != nil && fn.fn != nil {
		g.name = fn.fn.name
	}
	in.raceStart()
	in.raceSpawn(g)
	s.gs = append(s.gs, g)
	if len(s.gs) > 64 {
		in.unsupported("more than 64 goroutines")
	}
	go func() {
		if !<-g.resume {
			g.end = true
			s.dead <- struct{}{}
			return
		}
		defer func() {
			r := recover()
			g.end = true
			if s.dying {
				s.dead <- struct{}{}
				return
			}
			if r != nil {
				// hand the failure to the main goroutine
				if tp, ok := r.(*targetPanic); ok {
					r = abort("crash", "panic in goroutine "+g.name+": "+in.panicText(tp))
				}
				s.failure = r
				s.cur = s.gs[0]
				s.gs[0].resume <- true
				return
			}
			// goroutine finished: pass the baton on
			defer func() {
				if r := recover(); r != nil && !s.dying {
					s.failure = r
					s.cur = s.gs[0]
					s.gs[0].resume <- true
				}
			}()
			s.pass(g)
		}()
		in.callClosure(nil, fn, args)
	}()
	in.preemptPoint()
}

// pick chooses the next goroutine to run among the ready ones.
func (s *sched) pick() *gor {
	in := s.in
	for {
		var ready []*gor
		from := 0
		if s.delays >= 0 {
			for i, g := range s.gs {
				if g == s.cur {
					from = i + 1
				}
			}
		}
		for i := range s.gs {
			g := s.gs[(from+i)%len(s.gs)]
			if g.ready && !g.end {
				ready = append(ready, g)
			}
		}
		if len(ready) == 1 {
			return ready[0]
		}
		if len(ready) > 1 && s.delays == 0 {
			return ready[0]
		}
		if len(ready) > 1 {
			k := in.schedChoice(len(ready))
			if k > 0 && s.delays > 0 {
				s.deviate()
			}
			return ready[k]
		}
		// nothing ready: advance virtual time
		var best *timer
		for _, t := range s.timers {
			if t.on && (best == nil || t.at < best.at) {
				best = t
			}
		}
		if best == nil {
			return nil
		}
		best.on = false
		if best.at > s.now {
			s.now = best.at
		}
		if best.ch != nil {
			if !in.trySend(best.ch, best.v) {
				continue
			}
		}
	}
}

// pass hands control to another goroutine when g has ended.
func (s *sched) pass(g *gor) {
	n := s.pick()
	if n == nil {
		panic(abort("deadlock", s.describe()))
	}
	s.cur = n
	s.in.depth = n.depth
	n.resume <- true
}

func (s *sched) describe() string {
	t := "all goroutines are asleep:"
	for _, g := range s.gs {
		if !g.end {
			t += " " + g.name
		}
	}
	return t
}

// switchTo parks the current goroutine until it is resumed.
func (s *sched) reschedule() {
	g := s.cur
	n := s.pick()
	if n == nil {
		panic(abort("deadlock", s.describe()))
	}
	if n == g {
		return
	}
	g.depth = s.in.depth
	s.cur = n
	s.in.depth = n.depth
	n.resume <- true
	if !<-g.resume {
		panic(abort("killed", ""))
	}
	s.in.depth = g.depth
	if s.failure != nil && g.id == 0 {
		f := s.failure
		s.failure = nil
		panic(f)
	}
}

// block parks the current goroutine as not ready.
func (in *Interp) block() {
	s := in.sch
	if s == nil {
		in.unsupported("blocking operation during initialisation")
	}
	s.cur.ready = false
	s.reschedule()
}

// deviate uses up one deviation from the default schedule.
func (s *sched) deviate() {
	if s.delays >= 0 {
		s.delays--
		s.preempt = s.delays
	} else {
		s.preempt--
	}
}

// preemptPoint is a place where another goroutine may be scheduled.
func (in *Interp) preemptPoint() {
	s := in.sch
	if s == nil || s.preempt <= 0 {
		return
	}
	n := 0
	for _, g := range s.gs {
		if g.ready && !g.end {
			n++
		}
	}
	if n < 2 {
		return
	}
	g := s.cur
	// choice 0 = carry on
	if in.schedChoice(2) == 0 {
		return
	}
	s.deviate()
	saved := s.delays
	s.delays = min(saved, 0)
	g.ready = false
	nx := s.pick()
	g.ready = true
	s.delays = saved
	if nx == nil || nx == g {
		return
	}
	g.depth = in.depth
	s.cur = nx
	in.depth = nx.depth
	nx.resume <- true
	if !<-g.resume {
		panic(abort("killed", ""))
	}
	in.depth = g.depth
	if s.failure != nil && g.id == 0 {
		f := s.failure
		s.failure = nil
		panic(f)
	}
}

// yield lets any goroutine that is ready, this one included, carry on.
func (in *Interp) yield() {
	s := in.sch
	if s == nil {
		return
	}
	if s.delays >= 0 {
		// going on or giving way is no deviation here
		n := 0
		for _, g := range s.gs {
			if g.ready && !g.end {
				n++
			}
		}
		if n < 2 || in.schedChoice(2) == 0 {
			return
		}
	}
	s.reschedule()
}

// schedChoice is a symbolic scheduling decision among n alternatives.
func (in *Interp) schedChoice(n int) int {
	in.varSeq++
	v := in.newVar(fmt.Sprintf("!sched%d", in.varSeq), 8)
	in.assume(in.t.Bin(OUlt, v, in.t.Const(uint64(n), 8)))
	return int(in.concretize(v))
}

func (in *Interp) trySend(c *ChanObj, v Value) bool {
	for len(c.recvq) > 0 {
		w := c.recvq[0]
		c.recvq = c.recvq[1:]
		if *w.done {
			continue
		}
		*w.done = true
		if w.sel != nil {
			*w.sel = w.which
		}
		w.val, w.ok = v, true
		w.g.ready = true
		in.raceMeet(w.g, c.cap == 0)
		if in.race != nil {
			c.sent++
			c.recvVC = append(c.recvVC, append(vclock(nil), w.g.vc...))
		}
		return true
	}
	if len(c.buf) < c.cap {
		c.buf = append(c.buf, v)
		if in.race != nil {
			c.raceBuffer(in.sch.cur)
		}
		return true
	}
	return false
}

func (in *Interp) tryRecv(c *ChanObj) (Value, bool, bool) {
	if len(c.buf) > 0 {
		v := c.buf[0]
		c.buf = append([]Value(nil), c.buf[1:]...)
		if in.race != nil && len(c.bufVC) > 0 {
			in.raceJoin(c.bufVC[0])
			c.bufVC = c.bufVC[1:]
			c.recvVC = append(c.recvVC, in.raceNow())
		}
		for len(c.sendq) > 0 {
			w := c.sendq[0]
			c.sendq = c.sendq[1:]
			if *w.done {
				continue
			}
			*w.done = true
			if w.sel != nil {
				*w.sel = w.which
			}
			w.g.ready = true
			c.buf = append(c.buf, w.val)
			if in.race != nil {
				c.raceBuffer(w.g)
			}
			break
		}
		return v, true, true
	}
	for len(c.sendq) > 0 {
		w := c.sendq[0]
		c.sendq = c.sendq[1:]
		if *w.done {
			continue
		}
		*w.done = true
		if w.sel != nil {
			*w.sel = w.which
		}
		w.g.ready = true
		if in.race != nil {
			in.raceJoin(w.g.vc)
			w.g.tick()
			w.g.vc.join(in.raceNow())
		}
		return w.val, true, true
	}
	if c.closed {
		in.raceJoin(c.endVC)
		return nil, false, true
	}
	return nil, false, false
}

func (in *Interp) chanCheck(c *ChanObj) {
	if in.journal && c.epoch != in.epoch && !c.closed {
		in.unsupported("channel shared across paths")
	}
}

func (in *Interp) chanSend(c *ChanObj, v Value) {
	in.preemptPoint()
	if c == nil {
		in.block()
		return
	}
	in.chanCheck(c)
	if c.closed {
		in.throwRuntime("send on closed channel")
	}
	if in.trySend(c, v) {
		return
	}
	done := false
	w := &waiter{g: in.sch.cur, val: v, done: &done}
	c.sendq = append(c.sendq, w)
	in.block()
	if !done || (c.closed && w.ok) {
		in.throwRuntime("send on closed channel")
	}
}

func (in *Interp) chanRecv(c *ChanObj, elem *TInfo) (Value, bool) {
	in.preemptPoint()
	if c == nil {
		in.block()
		return zero(elem), false
	}
	in.chanCheck(c)
	v, ok, now := in.tryRecv(c)
	if now {
		if !ok {
			return zero(elem), false
		}
		return v, true
	}
	if in.sch == nil {
		in.unsupported("blocking receive during initialisation")
	}
	done := false
	w := &waiter{g: in.sch.cur, done: &done}
	c.recvq = append(c.recvq, w)
	in.block()
	if !w.ok {
		return zero(elem), false
	}
	return w.val, true
}

func (in *Interp) chanClose(c *ChanObj) {
	in.preemptPoint()
	if c == nil {
		in.throwRuntime("close of nil channel")
	}
	in.chanCheck(c)
	if c.closed {
		in.throwRuntime("close of closed channel")
	}
	c.closed = true
	c.endVC = in.raceNow()
	for _, w := range c.recvq {
		if !*w.done {
			*w.done = true
			if w.sel != nil {
				*w.sel = w.which
			}
			w.g.ready = true
			if in.race != nil {
				w.g.vc.join(c.endVC)
			}
		}
	}
	c.recvq = nil
	for _, w := range c.sendq {
		if !*w.done {
			*w.done = true
			w.ok = true // closed under a sender
			if w.sel != nil {
				*w.sel = -2
			}
			w.g.ready = true
		}
	}
	c.sendq = nil
}

func (c *compiler) selectInstr(i *ssa.Select, dst int) func(fr *Frame) {
	in := c.in
	type st struct {
		send bool
		ch   opnd
		val  opnd
		elem *TInfo
	}
	var sts []st
	for _, s := range i.States {
		x := st{send: s.Dir == types.SendOnly, ch: c.op(s.Chan)}
		x.elem = in.tinfo(s.Chan.Type()).elem
		if x.send {
			x.val = c.op(s.Send)
		}
		sts = append(sts, x)
	}
	blocking := i.Blocking
	return func(fr *Frame) {
		in.preemptPoint()
		res := func(which int, v Value, ok bool) {
			t := Tuple{uint64(int64(which)), ok}
			for k, s := range sts {
				if s.send {
					continue
				}
				if k == which && ok {
					t = append(t, v)
				} else {
					t = append(t, zero(s.elem))
				}
			}
			fr.regs[dst] = t
		}
		// ready cases
		var ready []int
		chans := make([]*ChanObj, len(sts))
		for k, s := range sts {
			ch, _ := s.ch.get(fr).(*ChanObj)
			chans[k] = ch
			if ch == nil {
				continue
			}
			in.chanCheck(ch)
			if s.send {
				if ch.closed || len(ch.buf) < ch.cap || hasWaiter(ch.recvq) {
					ready = append(ready, k)
				}
			} else if len(ch.buf) > 0 || ch.closed || hasWaiter(ch.sendq) {
				ready = append(ready, k)
			}
		}
		if len(ready) > 0 {
			k := ready[0]
			if len(ready) > 1 {
				k = ready[in.schedChoice(len(ready))]
			}
			if sts[k].send {
				if chans[k].closed {
					in.throwRuntime("send on closed channel")
				}
				in.trySend(chans[k], sts[k].val.get(fr))
				res(k, nil, false)
				return
			}
			v, ok, _ := in.tryRecv(chans[k])
			res(k, v, ok)
			return
		}
		if !blocking {
			res(-1, nil, false)
			return
		}
		done := false
		sel := -1
		ws := make([]*waiter, len(sts))
		for k, s := range sts {
			if chans[k] == nil {
				continue
			}
			w := &waiter{g: in.sch.cur, done: &done, which: k, sel: &sel}
			ws[k] = w
			if s.send {
				w.val = s.val.get(fr)
				chans[k].sendq = append(chans[k].sendq, w)
			} else {
				chans[k].recvq = append(chans[k].recvq, w)
			}
		}
		in.block()
		if sel == -2 {
			in.throwRuntime("send on closed channel")
		}
		if sts[sel].send {
			res(sel, nil, false)
			return
		}
		res(sel, ws[sel].val, ws[sel].ok)
	}
}

func hasWaiter(q []*waiter) bool {
	for _, w := range q {
		if !*w.done {
			return true
		}
	}
	return false
}

// raceBuffer follows an item sent by g into the buffer.
func (c *ChanObj) raceBuffer(g *gor) {
	if n := c.sent - c.cap; n >= 0 && n < len(c.recvVC) {
		g.vc.join(c.recvVC[n])
	}
	c.sent++
	c.bufVC = append(c.bufVC, append(vclock(nil), g.vc...))
	g.tick()
}
