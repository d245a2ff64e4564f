package world

import (
	"context"
	"time"

	"github.com/dogmatiq/configkit"
	"github.com/dogmatiq/dogma"
	"github.com/dogmatiq/testkit/engine"
	"github.com/dogmatiq/testkit/envelope"
	"github.com/dogmatiq/testkit/fact"
	"github.com/dogmatiq/testkit/internal/zzverif/kit"
	"github.com/dogmatiq/testkit/internal/zzverif/nd"
)

func init() {
	Harnesses["ResetThenRun"] = ResetThenRun
	Harnesses["ResetDeep"] = ResetDeep
	Harnesses["ResetTwice"] = ResetTwice
}

// entry is one observable happening: a fact or the state a handler was given.
type entry struct {
	kind       string
	id, ca, co string
	inst       string
	n          int
	at, due    time.Time
}

// replica is an engine with an application whose handlers behave as a function
// of the message and the instance's state only.
type replica struct {
	e      *engine.Engine
	log    map[string][]entry // by handler
	resets [2]int
}

func (r *replica) add(h string, x entry) {
	if r != nil {
		r.log[h] = append(r.log[h], x)
	}
}

func (r *replica) env(h, kind, inst string, e *envelope.Envelope) {
	r.add(h, entry{kind, e.MessageID, e.CausationID, e.CorrelationID, inst, kit.Payload(e.Message).N, e.CreatedAt, e.ScheduledFor})
}

func (r *replica) Notify(f fact.Fact) {
	switch f := f.(type) {
	case fact.DispatchBegun:
		r.env("", "msg", "", f.Envelope)
	case fact.HandlingBegun:
		r.env(name(f.Handler), "handle", "", f.Envelope)
	case fact.AggregateInstanceLoaded:
		r.env(name(f.Handler), "loaded", f.InstanceID, f.Envelope)
	case fact.AggregateInstanceNotFound:
		r.env(name(f.Handler), "not-found", f.InstanceID, f.Envelope)
	case fact.AggregateInstanceCreated:
		r.env(name(f.Handler), "created", f.InstanceID, f.Envelope)
	case fact.EventRecordedByAggregate:
		r.env(name(f.Handler), "event", f.InstanceID, f.EventEnvelope)
	case fact.EventRecordedByIntegration:
		r.env(name(f.Handler), "event", "", f.EventEnvelope)
	case fact.ProcessInstanceLoaded:
		r.env(name(f.Handler), "loaded", f.InstanceID, f.Envelope)
	case fact.ProcessInstanceNotFound:
		r.env(name(f.Handler), "not-found", f.InstanceID, f.Envelope)
	case fact.ProcessInstanceBegun:
		r.env(name(f.Handler), "begun", f.InstanceID, f.Envelope)
	case fact.CommandExecutedByProcess:
		r.env(name(f.Handler), "command", f.InstanceID, f.CommandEnvelope)
	case fact.TimeoutScheduledByProcess:
		r.env(name(f.Handler), "timeout", f.InstanceID, f.TimeoutEnvelope)
	case fact.ProjectionCompactionBegun:
		r.add(name(f.Handler), entry{kind: "compact"})
	}
}

func newReplica(delay time.Duration) *replica {
	r := &replica{log: map[string][]entry{}}
	r.e = engine.MustNew(
		configkit.FromApplication(replicated(delay, func() *replica { return r })),
		engine.WithResetter(func() { r.resets[0]++ }),
		engine.WithResetter(func() { r.resets[1]++ }),
	)
	return r
}

// replicated is an application whose handlers tell who() the state they are
// given.
func replicated(delay time.Duration, who func() *replica) *kit.App {
	return &kit.App{Handlers: []any{
		&kit.Agg{
			Name: "agg", Key: kit.Key1,
			Routes: []dogma.AggregateRoute{dogma.HandlesCommand[kit.CmdA](), dogma.RecordsEvent[kit.EvA]()},
			HandleF: func(x dogma.AggregateRoot, s dogma.AggregateCommandScope, m dogma.Command) {
				who().add("agg", entry{kind: "root", n: len(x.(*kit.Root).Log)})
				s.RecordEvent(kit.EvA{P: kit.P{To: kit.Payload(m).To, N: len(x.(*kit.Root).Log)}})
			},
		},
		&kit.Integ{
			Name: "int", Key: kit.Key2,
			Routes: []dogma.IntegrationRoute{dogma.HandlesCommand[kit.CmdB](), dogma.RecordsEvent[kit.EvB]()},
			HandleF: func(_ context.Context, s dogma.IntegrationCommandScope, m dogma.Command) error {
				s.RecordEvent(kit.EvB{P: kit.Payload(m)})
				return nil
			},
		},
		&kit.Proc{
			Name: "proc", Key: kit.Key3,
			Routes: []dogma.ProcessRoute{
				dogma.HandlesEvent[kit.EvA](), dogma.ExecutesCommand[kit.CmdB](), dogma.SchedulesTimeout[kit.ToA](),
			},
			EventF: func(_ context.Context, x dogma.ProcessRoot, s dogma.ProcessEventScope, m dogma.Event) error {
				p := x.(*kit.PRoot)
				who().add("proc", entry{kind: "root", n: len(p.Log)})
				p.Log = append(p.Log, 1)
				s.ScheduleTimeout(kit.ToA{P: kit.P{N: len(p.Log)}}, s.RecordedAt().Add(delay))
				return nil
			},
			TimeoutF: func(_ context.Context, x dogma.ProcessRoot, s dogma.ProcessTimeoutScope, m dogma.Timeout) error {
				p := x.(*kit.PRoot)
				who().add("proc", entry{kind: "root", n: len(p.Log)})
				s.ExecuteCommand(kit.CmdB{P: kit.P{N: 100 * len(p.Log)}})
				return nil
			},
		},
		&kit.Proj{Name: "proj", Key: kit.Key4, Routes: []dogma.ProjectionRoute{dogma.HandlesEvent[kit.EvB]()}},
	}}
}

// op is an operation that can be performed on several engines.
type op struct {
	kind int
	to   string
	now  time.Time
}

func drawOp(tag string) op {
	o := op{kind: nd.Pick(tag, 3), now: nd.Time(tag)}
	if o.kind < 2 {
		o.to = nd.Str(tag+"-to", "i", "j")
	}
	return o
}

func (r *replica) do(o op) error {
	opts := []engine.OperationOption{engine.WithCurrentTime(o.now), engine.WithObserver(r)}
	p := kit.P{To: o.to, N: -1}
	switch o.kind {
	case 0:
		return r.e.Dispatch(context.Background(), kit.CmdA{P: p}, opts...)
	case 1:
		return r.e.Dispatch(context.Background(), kit.EvA{P: p}, opts...)
	}
	return r.e.Tick(context.Background(), opts...)
}

func ResetThenRun() { reset(2, 2, 1) }
func ResetDeep()    { reset(2, 3, 1) }
func ResetTwice()   { reset(1, 2, 2) }

func reset(before, after, times int) {
	delay := time.Duration(nd.Int("delay", 0, 1)) * time.Minute
	a := newReplica(delay)
	for k := 0; k < times; k++ {
		for i := 0; i < before; i++ {
			nd.Assert(a.do(drawOp("before")) == nil, "error")
		}
		a.e.Reset()
		nd.Assert(a.resets == [2]int{k + 1, k + 1}, "resetters")
	}
	a.log = map[string][]entry{}
	b := newReplica(delay)
	for i := 0; i < after; i++ {
		o := drawOp("after")
		nd.Assert(a.do(o) == nil, "error")
		nd.Assert(b.do(o) == nil, "error")
	}
	nd.Assert(a.resets == [2]int{times, times}, "resetters")
	compare(a, b)
	nd.Reach("end")
}

// compare checks that the same happened to two engines.
func compare(a, b *replica) {
	nd.Assert(len(a.log) == len(b.log), "handlers-involved")
	total := 0
	for h, xs := range b.log {
		ys := a.log[h]
		nd.Assert(len(xs) == len(ys), "number-of-happenings", h)
		for i := range xs {
			x, y := xs[i], ys[i]
			nd.Assert(x.kind == y.kind, "kind", h, x.kind, y.kind)
			nd.Assert(x.id == y.id && x.ca == y.ca && x.co == y.co, "identity", h)
			nd.Assert(x.inst == y.inst, "instance", h)
			nd.Assert(x.n == y.n, "payload", h)
			nd.Assert(x.at.Equal(y.at) && x.due.Equal(y.due), "times", h)
			if x.kind == "compact" {
				nd.Reach("compacted")
			}
		}
		total += len(xs)
	}
	if total > 10 {
		nd.Reach("much")
	}
}
