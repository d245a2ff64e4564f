package world

import (
	"context"
	"errors"
	"time"

	"github.com/dogmatiq/configkit"
	"github.com/dogmatiq/dogma"
	"github.com/dogmatiq/testkit/engine"
	"github.com/dogmatiq/testkit/envelope"
	"github.com/dogmatiq/testkit/fact"
	"github.com/dogmatiq/testkit/internal/zzverif/kit"
	"github.com/dogmatiq/testkit/internal/zzverif/nd"
)

func init() {
	Harnesses["RouteLong"] = RouteLong
	Harnesses["CausalityLong"] = CausalityLong
	Harnesses["BracketsLong"] = BracketsLong
	Harnesses["FailuresLong"] = FailuresLong
	Harnesses["ResetLong"] = ResetLong
	Harnesses["RouteWide"] = RouteWide
	Harnesses["RouteSame"] = RouteSame
	Harnesses["ManyIDs"] = ManyIDs
	Harnesses["FailuresAlike"] = FailuresAlike
}

// plenty makes handlers of commands record many events and processes answer
// each of them in the same way, except for one call.
func (w *world) plenty(many []int) {
	n := many[nd.Pick("many", len(many))]
	style := nd.Pick("style", 3)
	odd := []int{1, 2, 3, 6, 10, 15, 30}[nd.Pick("odd", 7)]
	w.plan = func(v *inv, types []string) []string {
		if len(w.log) == odd {
			return w.script(v, types)
		}
		switch v.h {
		case "agg", "int":
			var out []string
			for i := 0; i < n; i++ {
				t := types[0]
				if len(types) > 1 && (style == 1 && i%2 == 1 || style == 2 && i == n-1) {
					t = types[1]
				}
				out = append(out, t)
			}
			return out
		}
		switch style {
		case 0:
			return types
		case 1:
			return types[:1]
		}
		return []string{types[1], types[0], types[0]}
	}
}

// RouteLong: operations that make many messages, one after the other.
func RouteLong() {
	nd.MapOrders()
	w := newWorld(60)
	w.plenty([]int{1, 6, 17})
	roots := []string{"CmdA", "CmdB", "EvA", "EvC"}
	first := nd.Pick("first", 2)
	for k := 0; k < 5; k++ {
		opts := w.startOp(t0)
		id, m := w.root(roots[(first+k)%len(roots)])
		from := len(w.log)
		nd.Assert(w.e.Dispatch(context.Background(), m, opts...) == nil, "dispatch-error")
		w.delivered(from, []int{id}, nil)
		if len(w.log) > 100 {
			nd.Reach("many")
		}
	}
	nd.Reach("end")
}

// CausalityLong: as RouteLong, followed by a tick.
func CausalityLong() {
	w := newWorld(40)
	w.plenty([]int{2, 6, 13})
	l := &lineage{w: w, envs: map[int]*envelope.Envelope{}}
	ctx := context.Background()
	now := t0
	w.late = nd.Flip("late")
	for k := 0; k < 4; k++ {
		opts := append(w.startOp(now.Add(time.Duration(k))), engine.WithObserver(l))
		_, m := w.root([]string{"CmdA", "EvA", "CmdA", "EvC"}[k])
		nd.Assert(w.e.Dispatch(ctx, m, opts...) == nil, "dispatch-error")
	}
	nd.Assert(w.e.Tick(ctx, append(w.startOp(now.Add(time.Hour)), engine.WithObserver(l))...) == nil, "tick-error")
	l.check()
	nd.Reach("end")
}

// every makes the calls fail whose number has a remainder.
func (w *world) every() {
	period := 1 + nd.Pick("period", 4)
	if period == 4 {
		period = 9
	}
	rest := nd.Pick("rest", min(period, 3))
	w.flawed = func(*inv) bool { return len(w.log)%period == rest }
}

// BracketsLong: the facts of operations that make many messages while many
// calls fail.
func BracketsLong() {
	w := newWorld(30)
	w.logs = true
	w.plenty([]int{2, 11})
	w.every()
	for k := 0; k < 3; k++ {
		opts := w.startOp(t0)
		id, m := w.root([]string{"CmdA", "CmdB", "EvA"}[k])
		from := len(w.log)
		ss, more := w.triplets()
		err := w.e.Dispatch(context.Background(), m, append(opts, more...)...)
		w.delivered(from, []int{id}, nil)
		w.dispatched(equal(ss), from, id, err)
	}
	nd.Reach("end")
}

// FailuresLong: many calls fail in operations that make many messages.
func FailuresLong() {
	nd.MapOrders()
	w := newWorld(30)
	w.plenty([]int{2, 7})
	w.every()
	for k := 0; k < 3; k++ {
		opts := w.startOp(t0)
		id, m := w.root([]string{"CmdA", "CmdB", "EvA"}[k])
		from := len(w.log)
		err := w.e.Dispatch(context.Background(), m, opts...)
		w.delivered(from, []int{id}, nil)
		w.failures(from, err)
	}
	nd.Reach("end")
}

// ResetLong: much happens before and after a reset.
func ResetLong() {
	delay := time.Duration(nd.Int("delay", 0, 1)) * time.Minute
	a, b := newReplica(delay), newReplica(delay)
	now := nd.Time("now")
	n := []int{1, 4, 12}[nd.Pick("before", 3)]
	style := nd.Pick("style", 3)
	do := func(k int, rs ...*replica) {
		o := op{kind: (k + k/3*style) % 3, to: []string{"i", "j", "k"}[k%(style+1)], now: now.Add(time.Duration(k) * 25 * time.Second)}
		for _, r := range rs {
			nd.Assert(r.do(o) == nil, "error")
		}
	}
	for k := 0; k < n; k++ {
		do(k, a)
	}
	a.e.Reset()
	a.log = map[string][]entry{}
	for k := 0; k < 14; k++ {
		do(k, a, b)
	}
	compare(a, b)
	nd.Reach("end")
}

// RouteWide: an operation in which hundreds of messages are waiting.
func RouteWide() {
	w := newWorld(400)
	n := []int{100, 300}[nd.Pick("many", 2)]
	odd := []int{3, 70, 260}[nd.Pick("odd", 3)]
	w.plan = func(v *inv, types []string) []string {
		if len(w.log) == odd {
			return w.script(v, types)
		}
		if v.h != "agg" || len(w.log) > 1 {
			return nil
		}
		var out []string
		for i := 0; i < n; i++ {
			out = append(out, types[i%len(types)])
		}
		return out
	}
	opts := w.startOp(t0)
	id, m := w.root("CmdA")
	nd.Assert(w.e.Dispatch(context.Background(), m, opts...) == nil, "dispatch-error")
	w.delivered(0, []int{id}, nil)
	if len(w.log) > 400 {
		nd.Reach("many")
	}
	nd.Reach("end")
}

// RouteSame: handlers that produce messages that do not differ.
func RouteSame() {
	calls := map[string]int{}
	n := func(name string) int {
		calls[name]++
		return []int{0, 1, 2, 3}[nd.Pick(name, 4)]
	}
	want := map[string]int{"agg": 1}
	p := kit.P{To: "i"}
	e := engine.MustNew(configkit.FromApplication(&kit.App{Handlers: []any{
		&kit.Agg{
			Name: "agg", Key: kit.Key1,
			Routes: []dogma.AggregateRoute{dogma.HandlesCommand[kit.CmdA](), dogma.RecordsEvent[kit.EvA]()},
			RouteF: func(dogma.Command) string { return "i" },
			HandleF: func(_ dogma.AggregateRoot, s dogma.AggregateCommandScope, _ dogma.Command) {
				for i := n("agg"); i > 0; i-- {
					s.RecordEvent(kit.EvA{P: p})
					want["proc"]++
				}
			},
		},
		&kit.Proc{
			Name: "proc", Key: kit.Key2,
			Routes: []dogma.ProcessRoute{
				dogma.HandlesEvent[kit.EvA](), dogma.ExecutesCommand[kit.CmdB](), dogma.SchedulesTimeout[kit.ToA](),
			},
			RouteF: func(dogma.Event) (string, bool, error) { return "i", true, nil },
			EventF: func(_ context.Context, _ dogma.ProcessRoot, s dogma.ProcessEventScope, _ dogma.Event) error {
				if calls["proc"]++; calls["proc"] > 2 {
					return nil
				}
				for i := n("commands"); i > 0; i-- {
					s.ExecuteCommand(kit.CmdB{P: p})
					want["integ"]++
					s.ScheduleTimeout(kit.ToA{P: p}, t0)
					want["timeout"]++
				}
				return nil
			},
			TimeoutF: func(context.Context, dogma.ProcessRoot, dogma.ProcessTimeoutScope, dogma.Timeout) error {
				calls["timeout"]++
				return nil
			},
		},
		&kit.Integ{
			Name: "integ", Key: kit.Key3,
			Routes: []dogma.IntegrationRoute{dogma.HandlesCommand[kit.CmdB](), dogma.RecordsEvent[kit.EvB]()},
			HandleF: func(_ context.Context, s dogma.IntegrationCommandScope, _ dogma.Command) error {
				if calls["integ"]++; calls["integ"] > 2 {
					return nil
				}
				for i := n("events"); i > 0; i-- {
					s.RecordEvent(kit.EvB{P: p})
					want["proj"]++
				}
				return nil
			},
		},
		&kit.Proj{
			Name: "proj", Key: kit.Key4,
			Routes: []dogma.ProjectionRoute{dogma.HandlesEvent[kit.EvB]()},
			EventF: func(context.Context, []byte, []byte, []byte, dogma.ProjectionEventScope, dogma.Event) (bool, error) {
				calls["proj"]++
				return true, nil
			},
		},
	}}))
	nd.Assert(e.Dispatch(context.Background(), kit.CmdA{P: p}, engine.WithCurrentTime(t0), engine.EnableIntegrations(true), engine.EnableProjections(true)) == nil, "dispatch-error")
	for _, h := range []string{"agg", "proc", "integ", "timeout", "proj"} {
		nd.Assert(calls[h] == want[h], "deliveries", h, calls[h], want[h])
	}
	nd.Reach("end")
}

// idObserver keeps the IDs of messages.
type idObserver struct {
	seen map[string]int
}

func (o *idObserver) add(env *envelope.Envelope) {
	o.seen[env.MessageID]++
	nd.Assert(o.seen[env.MessageID] == 1, "id-used-twice", env.MessageID)
}

func (o *idObserver) Notify(f fact.Fact) {
	switch f := f.(type) {
	case fact.DispatchCycleBegun:
		o.add(f.Envelope)
	case fact.EventRecordedByAggregate:
		o.add(f.EventEnvelope)
	case fact.EventRecordedByIntegration:
		o.add(f.EventEnvelope)
	}
}

// ManyIDs: an engine and a generator that make many IDs.
func ManyIDs() {
	o := &idObserver{seen: map[string]int{}}
	e := engine.MustNew(configkit.FromApplication(&kit.App{Handlers: []any{
		&kit.Integ{
			Name: "int", Key: kit.Key1,
			Routes: []dogma.IntegrationRoute{dogma.HandlesCommand[kit.CmdA](), dogma.RecordsEvent[kit.EvA]()},
			HandleF: func(_ context.Context, s dogma.IntegrationCommandScope, m dogma.Command) error {
				for i := 0; i < kit.Payload(m).N; i++ {
					s.RecordEvent(kit.EvA{})
				}
				return nil
			},
		},
	}}))
	n := []int{1, 20, 600}[nd.Pick("events", 3)]
	for len(o.seen) < 1200 {
		nd.Assert(e.Dispatch(context.Background(), kit.CmdA{P: kit.P{N: n}}, engine.WithObserver(o)) == nil, "dispatch-error")
	}
	if n == 1 {
		var g envelope.MessageIDGenerator
		seen := map[string]bool{}
		for i := 0; i < 140_000; i++ {
			id := g.Next()
			nd.Assert(!seen[id], "id-used-twice", id)
			seen[id] = true
		}
	}
	nd.Reach("end")
}

var errAlike = errors.New("alike")

// FailuresAlike: handlers fail with one and the same error, which the error of
// the operation contains as many times.
func FailuresAlike() {
	w := newWorld(5)
	w.plenty([]int{2})
	w.alike = true
	w.every()
	for k := 0; k < 2; k++ {
		opts := w.startOp(t0)
		id, m := w.root([]string{"EvA", "CmdA"}[k])
		from := len(w.log)
		err := w.e.Dispatch(context.Background(), m, opts...)
		w.delivered(from, []int{id}, nil)
		w.failures(from, err)
		n := 0
		for _, v := range w.log[from:] {
			if v.err != nil {
				n++
			}
		}
		nd.Assert(times(err, errAlike) == n, "failure-hidden", n)
	}
	nd.Reach("end")
}

// times counts how many times an error contains another.
func times(err, target error) int {
	if err == target {
		return 1
	}
	n := 0
	switch err := err.(type) {
	case interface{ Unwrap() []error }:
		for _, e := range err.Unwrap() {
			n += times(e, target)
		}
	case interface{ Unwrap() error }:
		n = times(err.Unwrap(), target)
	}
	return n
}
