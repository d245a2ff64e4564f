// Package instances compares the life of aggregate and process instances with
// a model.
package instances

import (
	"context"
	"time"

	"github.com/dogmatiq/configkit"
	"github.com/dogmatiq/dogma"
	"github.com/dogmatiq/testkit/engine"
	"github.com/dogmatiq/testkit/internal/zzverif/kit"
	"github.com/dogmatiq/testkit/internal/zzverif/nd"
)

var Harnesses = map[string]func(){
	"History":           History,
	"History4":          History4,
	"HistoryChained":    HistoryChained,
	"DestroyThenRecord": DestroyThenRecord,
}

var t0 = time.Unix(1_000_000, 0).UTC()

// scripts of an aggregate: R records an event, r one that is equal to the last,
// D destroys the instance.
var scripts = []string{"", "R", "RR", "Rr", "D", "DR", "RD", "RDR", "DRD"}

// ledger is the model of one aggregate handler.
type ledger struct {
	hist map[string][]int
	next *int
	out  *[]int // events in the order they must be dispatched
	lax  bool   // do not look at the root between a destroy and the end
}

func same(a, b []int) bool {
	if len(a) != len(b) {
		return false
	}
	for i := range a {
		if a[i] != b[i] {
			return false
		}
	}
	return true
}

func (l *ledger) handle(script string, r *kit.Root, s dogma.AggregateCommandScope, chain func(n int) kit.P) {
	id := s.InstanceID()
	h, exists := l.hist[id]
	nd.Assert(same(r.Log, h), "root-is-not-the-history", len(r.Log), len(h))
	if len(h) > 1 {
		nd.Reach("long-history")
	}
	live := append([]int(nil), h...)
	destroyed := false
	for _, c := range script {
		if c != 'D' {
			if c == 'R' {
				*l.next++
			}
			n := *l.next
			p := kit.P{N: n}
			if chain != nil {
				p = chain(n)
			}
			s.RecordEvent(kit.EvA{P: p})
			live = append(live, n)
			*l.out = append(*l.out, n)
			exists = true
			if !destroyed {
				nd.Assert(same(r.Log, live), "recorded-event-not-visible", len(r.Log), len(live))
			} else if !l.lax {
				nd.Assert(len(r.Log) > 0 && r.Log[len(r.Log)-1] == n, "event-after-destroy-not-visible")
			}
		} else {
			if exists {
				destroyed = true
				nd.Reach("destroyed")
			}
			s.Destroy()
			exists = false
		}
	}
	if exists {
		l.hist[id] = live
	} else {
		delete(l.hist, id)
	}
	// changes made behind the engine's back do not last
	r.Log = append(r.Log, -1)
}

func aggregate(name, key string, route dogma.AggregateRoute, ev dogma.AggregateRoute, f func(*kit.Root, dogma.AggregateCommandScope, dogma.Command)) *kit.Agg {
	return &kit.Agg{
		Name: name, Key: key,
		Routes: []dogma.AggregateRoute{route, ev},
		HandleF: func(r dogma.AggregateRoot, s dogma.AggregateCommandScope, m dogma.Command) {
			f(r.(*kit.Root), s, m)
		},
	}
}

// sink is a projection that keeps the numbers of the events it is given.
func sink(got *[]int, routes ...dogma.ProjectionRoute) *kit.Proj {
	return &kit.Proj{
		Name: "sink", Key: kit.Key5, Routes: routes,
		EventF: func(_ context.Context, _, _, _ []byte, _ dogma.ProjectionEventScope, m dogma.Event) (bool, error) {
			*got = append(*got, kit.Payload(m).N)
			return true, nil
		},
	}
}

func History()  { history(3) }
func History4() { history(4) }

// history: commands for two instances of two aggregates.
func history(n int) {
	next := 0
	var out, got []int
	la := &ledger{hist: map[string][]int{}, next: &next, out: &out, lax: true}
	// the second aggregate shares instance IDs with the first and records one
	// event per command
	other := map[string]int{}
	e := engine.MustNew(configkit.FromApplication(&kit.App{Handlers: []any{
		aggregate("agg", kit.Key1, dogma.HandlesCommand[kit.CmdA](), dogma.RecordsEvent[kit.EvA](),
			func(r *kit.Root, s dogma.AggregateCommandScope, _ dogma.Command) {
				la.handle(scripts[nd.Pick("script", len(scripts))], r, s, nil)
			}),
		aggregate("other", kit.Key2, dogma.HandlesCommand[kit.CmdB](), dogma.RecordsEvent[kit.EvB](),
			func(r *kit.Root, s dogma.AggregateCommandScope, _ dogma.Command) {
				nd.Assert(len(r.Log) == other[s.InstanceID()], "root-of-other-aggregate")
				next++
				other[s.InstanceID()]++
				s.RecordEvent(kit.EvB{P: kit.P{N: next}})
				out = append(out, next)
			}),
		sink(&got, dogma.HandlesEvent[kit.EvA](), dogma.HandlesEvent[kit.EvB]()),
	}}))
	for k := 0; k < n; k++ {
		p := kit.P{To: nd.Str("to", "i", "j")}
		var m dogma.Command = kit.CmdA{P: p}
		if nd.Flip("other") {
			m = kit.CmdB{P: p}
		}
		nd.Assert(e.Dispatch(context.Background(), m, engine.WithCurrentTime(t0)) == nil, "dispatch-error")
		nd.Assert(same(out, got), "events-dispatched", len(out), len(got))
	}
	nd.Reach("end")
}

// HistoryChained: a process answers events with commands for the same or the
// other instance, so that several commands are handled in one operation.
func HistoryChained() {
	next := 0
	var out, got []int
	la := &ledger{hist: map[string][]int{}, next: &next, out: &out, lax: true}
	budget := 2
	e := engine.MustNew(configkit.FromApplication(&kit.App{Handlers: []any{
		aggregate("agg", kit.Key1, dogma.HandlesCommand[kit.CmdA](), dogma.RecordsEvent[kit.EvA](),
			func(r *kit.Root, s dogma.AggregateCommandScope, _ dogma.Command) {
				la.handle([]string{"R", "RR", "D", "DR", "RD"}[nd.Pick("script", 5)], r, s, func(n int) kit.P {
					return kit.P{N: n, To: s.InstanceID()}
				})
			}),
		&kit.Proc{
			Name: "proc", Key: kit.Key2,
			Routes: []dogma.ProcessRoute{dogma.HandlesEvent[kit.EvA](), dogma.ExecutesCommand[kit.CmdA]()},
			EventF: func(_ context.Context, _ dogma.ProcessRoot, s dogma.ProcessEventScope, m dogma.Event) error {
				if budget > 0 && nd.Flip("answer") {
					budget--
					s.ExecuteCommand(kit.CmdA{P: kit.P{To: nd.Str("answer-to", "i", "j")}})
					nd.Reach("answered")
				}
				return nil
			},
		},
		sink(&got, dogma.HandlesEvent[kit.EvA]()),
	}}))
	for k := 0; k < 2; k++ {
		m := kit.CmdA{P: kit.P{To: nd.Str("to", "i", "j")}}
		nd.Assert(e.Dispatch(context.Background(), m, engine.WithCurrentTime(t0)) == nil, "dispatch-error")
		nd.Assert(same(out, got), "events-dispatched", len(out), len(got))
	}
	nd.Reach("end")
}

// DestroyThenRecord: an event recorded after a destroy in the same command is
// visible on the root the handler holds.
func DestroyThenRecord() {
	next := 0
	var out []int
	la := &ledger{hist: map[string][]int{}, next: &next, out: &out}
	first := true
	e := engine.MustNew(configkit.FromApplication(&kit.App{Handlers: []any{
		aggregate("agg", kit.Key1, dogma.HandlesCommand[kit.CmdA](), dogma.RecordsEvent[kit.EvA](),
			func(r *kit.Root, s dogma.AggregateCommandScope, _ dogma.Command) {
				if first {
					la.handle("R", r, s, nil)
					first = false
				} else {
					la.handle("DR", r, s, nil)
				}
			}),
	}}))
	for k := 0; k < 2; k++ {
		nd.Assert(e.Dispatch(context.Background(), kit.CmdA{P: kit.P{To: "i"}}, engine.WithCurrentTime(t0)) == nil, "dispatch-error")
	}
	nd.Reach("end")
}
