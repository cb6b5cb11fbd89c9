package main

import (
	"context"
	"strconv"

	"github.com/snivilised/agenor/core"
	"github.com/snivilised/agenor/internal/third/bus"
	"github.com/snivilised/agenor/internal/zverif/sym"
	"github.com/snivilised/agenor/locale"
)

var _ = reg("H_C26", H_C26)

var (
	busTopics   = []string{"a", "ab", "b.c"}
	busMatchers = []struct {
		pattern string
		topics  []bool
	}{
		{"a", []bool{true, true, false}},
		{"^a$", []bool{true, false, false}},
		{"b", []bool{false, true, true}},
		{".*", []bool{true, true, true}},
		{"z", []bool{false, false, false}},
	}
)

type subscriber struct {
	matcher int
	version int
	present bool
}

// H_C26: messages reach those who subscribed to their topic.
func H_C26() {
	_, err := bus.New(nil)
	sym.Assert(err == locale.ErrIDGeneratorFuncCantBeNil, "generator-needed")
	gen := &bus.Sequential{Format: "%d"}
	b, err := bus.New(gen)
	sym.Assert(err == nil, "new")

	const handlers = 2
	topics := make([]bool, len(busTopics))
	subs := make([]subscriber, handlers)
	type receipt struct {
		sub, version int
		m            bus.Message
		tx           any
	}
	var got []receipt
	ids := map[string]bool{}
	key := func(i int) string { return "h" + strconv.Itoa(i) }

	check := func() {
		known := b.Topics()
		n := 0
		for i, t := range busTopics {
			if topics[i] {
				n++
				sym.Assert(member(known, t), "topics")
			}
			keys := b.TopicHandlerKeys(t)
			want := 0
			for k, s := range subs {
				on := topics[i] && s.present && busMatchers[s.matcher].topics[i]
				sym.Assert(member(keys, key(k)) == on, "topic-keys")
				sym.Assert(member(b.HandlerTopicSubscriptions(key(k)), t) == on, "subscriptions")
				if on {
					want++
				}
			}
			sym.Assert(len(keys) == want, "topic-keys-once")
		}
		sym.Assert(len(known) == n, "topics-once")
		keys := b.HandlerKeys()
		n = 0
		for k, s := range subs {
			sym.Assert(member(keys, key(k)) == s.present, "keys")
			if s.present {
				n++
			}
		}
		sym.Assert(len(keys) == n, "keys-once")
	}

	register := func(s, m, version int) {
		b.RegisterHandler(key(s), bus.Handler{
			Matcher: busMatchers[m].pattern,
			Handle: func(ctx context.Context, msg bus.Message) {
				got = append(got, receipt{s, version, msg, ctx.Value(bus.CtxKeyTxID)})
			},
		})
		subs[s] = subscriber{m, version, true}
	}
	if sym.Pick("topics", 2) == 1 {
		b.RegisterTopics(busTopics...)
		topics = []bool{true, true, true}
	}
	for s := 0; s < sym.Param("start", 1); s++ {
		if m := sym.Pick("start"+strconv.Itoa(s), len(busMatchers)+1); m < len(busMatchers) {
			register(s, m, -1)
		}
	}
	check()
	for i := 0; i < sym.Param("steps", 3); i++ {
		l := strconv.Itoa(i)
		switch sym.Pick(l+".op", 5) {
		case 0:
			t := sym.Pick(l+".topic", len(busTopics))
			u := sym.Pick(l+".topic2", len(busTopics))
			b.RegisterTopics(busTopics[t], busTopics[u])
			topics[t], topics[u] = true, true
		case 1:
			t := sym.Pick(l+".topic", len(busTopics))
			b.DeregisterTopics(busTopics[t])
			topics[t] = false
		case 2:
			s := sym.Pick(l+".sub", handlers)
			m := sym.Pick(l+".matcher", len(busMatchers))
			register(s, m, i)
		case 3:
			s := sym.Pick(l+".sub", handlers)
			b.DeregisterHandler(key(s))
			subs[s].present = false
		case 4:
			t := sym.Pick(l+".topic", len(busTopics))
			data := sym.Int(l + ".data")
			got = nil
			ctx := context.Background()
			wantTx, wantSource, wantID := "", "", ""
			how := sym.Pick(l+".how", 3)
			var err error
			if how == 1 {
				wantTx, wantSource = "tx", "source"
				ctx = context.WithValue(context.WithValue(ctx, bus.CtxKeyTxID, wantTx), bus.CtxKeySource, wantSource)
			}
			if how == 2 {
				wantTx, wantSource, wantID = "tx2", "source2", "id"
				err = b.EmitWithOpts(ctx, busTopics[t], data, bus.WithID(wantID), bus.WithTxID(wantTx), bus.WithSource(wantSource))
			} else {
				err = b.Emit(ctx, busTopics[t], data)
			}
			sym.Assert((err == nil) == topics[t], "known-topic")
			sym.Assert(err == nil || core.IsBrokerTopicNotFoundError(err), "unknown-topic")
			received := make([]int, handlers)
			for _, r := range got {
				received[r.sub]++
				sym.Assert(r.version == subs[r.sub].version, "current-handler")
				sym.Assert(r.m.Topic == busTopics[t], "message-topic")
				d, ok := r.m.Data.(int)
				sym.Assert(ok, "message-data")
				sym.Assert(d == data, "message-data")
				sym.Assert(r.m.Source == wantSource, "message-source")
				sym.Assert(r.m.ID == got[0].m.ID && r.m.ID != "" && (wantID == "" || r.m.ID == wantID), "message-id")
				sym.Assert(r.m.TxID == got[0].m.TxID && r.m.TxID != "" && (wantTx == "" || r.m.TxID == wantTx), "message-tx")
				if how < 2 {
					sym.Assert(r.tx == r.m.TxID, "context-tx")
				}
				sym.Assert(!r.m.OccurredAt.IsZero(), "message-time")
			}
			for k, s := range subs {
				want := 0
				if topics[t] && s.present && busMatchers[s.matcher].topics[t] {
					want = 1
				}
				sym.Assert(received[k] == want, "received-once")
			}
			if len(got) > 0 && wantID == "" {
				sym.Assert(!ids[got[0].m.ID], "fresh-id")
				ids[got[0].m.ID] = true
			}
		}
		check()
	}
	sym.Reach("end")
}

func member(all []string, s string) bool {
	for _, x := range all {
		if x == s {
			return true
		}
	}
	return false
}
