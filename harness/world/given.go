package world

import (
	"context"
	"time"

	"github.com/dogmatiq/configkit"
	"github.com/dogmatiq/dogma"
	"github.com/dogmatiq/testkit"
	"github.com/dogmatiq/testkit/engine"
	"github.com/dogmatiq/testkit/internal/zzverif/kit"
	"github.com/dogmatiq/testkit/internal/zzverif/nd"
)

func init() {
	Harnesses["GivenByEngine"] = GivenByEngine
	Harnesses["GivenByTest"] = GivenByTest
	Harnesses["GivenWhenCancelled"] = GivenWhenCancelled
}

type opKey struct{}

// guests are handlers that check what they are given.
type guests struct {
	op     int // the current operation, as in the context
	now    time.Time
	delay  time.Duration
	calls  map[string]int
	cancel func(string) // called by every method
	dead   bool         // whether the context has been cancelled
	due    map[int]time.Time
}

func (g *guests) seen(ctx context.Context, what string) {
	g.calls[what]++
	nd.Assert(ctx != nil, "no-context", what)
	v, ok := ctx.Value(opKey{}).(int)
	nd.Assert(ok && v == g.op, "another-context", what)
	nd.Assert((ctx.Err() != nil) == g.dead, "cancelled", what)
	if g.cancel != nil {
		g.cancel(what)
		nd.Assert((ctx.Err() != nil) == g.dead, "cancelled-since", what)
		select {
		case <-ctx.Done():
			nd.Assert(g.dead, "done", what)
		default:
			nd.Assert(!g.dead, "not-done", what)
		}
	}
}

func (g *guests) app() *kit.App {
	return &kit.App{Handlers: []any{
		&kit.Agg{
			Name: "agg", Key: kit.Key1,
			Routes: []dogma.AggregateRoute{dogma.HandlesCommand[kit.CmdA](), dogma.RecordsEvent[kit.EvA]()},
			HandleF: func(_ dogma.AggregateRoot, s dogma.AggregateCommandScope, m dogma.Command) {
				g.calls["command"]++
				nd.Assert(s.InstanceID() == kit.Payload(m).To, "instance", "aggregate")
				s.RecordEvent(kit.EvA{P: kit.P{To: kit.Payload(m).To, N: g.op}})
			},
		},
		&kit.Integ{
			Name: "int", Key: kit.Key2,
			Routes: []dogma.IntegrationRoute{dogma.HandlesCommand[kit.CmdB](), dogma.RecordsEvent[kit.EvB]()},
			HandleF: func(ctx context.Context, s dogma.IntegrationCommandScope, m dogma.Command) error {
				g.seen(ctx, "integration")
				s.RecordEvent(kit.EvB{P: kit.Payload(m)})
				return nil
			},
		},
		&kit.Proc{
			Name: "proc", Key: kit.Key3,
			Routes: []dogma.ProcessRoute{
				dogma.HandlesEvent[kit.EvA](), dogma.ExecutesCommand[kit.CmdB](), dogma.SchedulesTimeout[kit.ToA](),
			},
			RouteCtxF: func(ctx context.Context, m dogma.Event) (string, bool, error) {
				g.seen(ctx, "route")
				return kit.Payload(m).To, true, nil
			},
			EventF: func(ctx context.Context, _ dogma.ProcessRoot, s dogma.ProcessEventScope, m dogma.Event) error {
				g.seen(ctx, "event")
				nd.Assert(s.InstanceID() == kit.Payload(m).To, "instance", "process")
				nd.Assert(s.RecordedAt().Equal(g.now), "recorded-at", "process")
				s.ExecuteCommand(kit.CmdB{P: kit.Payload(m)})
				k := len(g.due)
				g.due[k] = g.now.Add(g.delay)
				s.ScheduleTimeout(kit.ToA{P: kit.P{To: s.InstanceID(), N: k}}, g.due[k])
				return nil
			},
			TimeoutF: func(ctx context.Context, _ dogma.ProcessRoot, s dogma.ProcessTimeoutScope, m dogma.Timeout) error {
				g.seen(ctx, "timeout")
				nd.Assert(s.InstanceID() == kit.Payload(m).To, "instance", "timeout")
				nd.Assert(s.ScheduledFor().Equal(g.due[kit.Payload(m).N]), "scheduled-for")
				return nil
			},
		},
		&kit.Proj{
			Name: "proj", Key: kit.Key4,
			Routes: []dogma.ProjectionRoute{dogma.HandlesEvent[kit.EvA](), dogma.HandlesEvent[kit.EvB]()},
			EventF: func(ctx context.Context, _, _, _ []byte, s dogma.ProjectionEventScope, _ dogma.Event) (bool, error) {
				g.seen(ctx, "projection")
				nd.Assert(s.RecordedAt().Equal(g.now), "recorded-at", "projection")
				nd.Assert(s.IsPrimaryDelivery(), "primary-delivery")
				return true, nil
			},
			VersionF: func(ctx context.Context, _ []byte) ([]byte, error) {
				g.seen(ctx, "version")
				return nil, nil
			},
			CloseF: func(ctx context.Context, _ []byte) error {
				g.seen(ctx, "close")
				return nil
			},
			CompactF: func(ctx context.Context, s dogma.ProjectionCompactScope) error {
				g.seen(ctx, "compact")
				nd.Assert(s.Now().Equal(g.now), "compact-now")
				return nil
			},
		},
	}}
}

func newGuests() *guests {
	return &guests{
		delay: time.Duration(nd.Int("delay", 0, int(time.Hour))),
		calls: map[string]int{},
		due:   map[int]time.Time{},
	}
}

func (g *guests) begin() context.Context {
	g.op++
	return context.WithValue(context.Background(), opKey{}, g.op)
}

func (g *guests) all(what ...string) {
	for _, x := range what {
		if g.calls[x] == 0 {
			return
		}
	}
	nd.Reach("all")
}

var everything = []string{"command", "integration", "route", "event", "timeout", "projection", "version", "close", "compact"}

func (g *guests) perform(e *engine.Engine, tag string, more ...engine.OperationOption) error {
	ctx := g.begin()
	g.now = nd.Time(tag)
	return g.operate(ctx, e, more...)
}

func (g *guests) operate(ctx context.Context, e *engine.Engine, more ...engine.OperationOption) error {
	opts := append(more, engine.WithCurrentTime(g.now))
	p := kit.P{To: nd.Str("to", "i", "j")}
	switch nd.Pick("kind", 4) {
	case 0:
		return e.Dispatch(ctx, kit.CmdA{P: p}, opts...)
	case 1:
		return e.Dispatch(ctx, kit.EvA{P: p}, opts...)
	case 2:
		x := engine.CommandExecutor{Engine: e, Options: opts}
		return x.ExecuteCommand(ctx, kit.CmdA{P: p})
	}
	return e.Tick(ctx, opts...)
}

// GivenByEngine: what handlers are given in three operations.
func GivenByEngine() {
	g := newGuests()
	e := engine.MustNew(configkit.FromApplication(g.app()), engine.EnableProjectionCompactionDuringHandling(nd.Flip("compact")))
	for k := 0; k < 3; k++ {
		nd.Assert(g.perform(e, "now") == nil, "error")
	}
	g.all(everything...)
	nd.Reach("end")
}

// GivenWhenCancelled: any method cancels the context of its operation.
func GivenWhenCancelled() {
	g := newGuests()
	e := engine.MustNew(configkit.FromApplication(g.app()))
	nd.Assert(g.perform(e, "now") == nil, "error")
	ctx, cancel := context.WithCancel(g.begin())
	defer cancel()
	at, n := 1+nd.Pick("at", 7), 0
	g.cancel = func(string) {
		if n++; n == at {
			cancel()
			g.dead = true
			nd.Reach("cancelled")
		}
	}
	g.now = nd.Time("then")
	g.operate(ctx, e)
	g.cancel, g.dead = nil, false
	nd.Assert(g.perform(e, "later") == nil, "error")
	nd.Reach("end")
}

// GivenByTest: actions of a test give handlers the context the test was begun
// with, except for commands executed by Call(), which have that of the caller.
func GivenByTest() {
	g := newGuests()
	t := &quietT{}
	start := t0
	ctx, cancel := context.WithCancel(g.begin())
	defer cancel()
	test := testkit.BeginContext(ctx, t, g.app(), testkit.StartTimeAt(start)).EnableHandlers("int", "proj")
	g.now = start
	first := g.op
	for k := 0; k < 3; k++ {
		g.op = first
		m := kit.CmdA{P: kit.P{To: nd.Str("to", "i", "j"), N: k}}
		exec := testkit.ExecuteCommand(m)
		if at := 1; k == 2 && nd.Flip("cancel") {
			at += nd.Pick("at", 3)
			g.cancel = func(string) {
				if at--; at == 0 && g.op == first {
					cancel()
					g.dead = true
					nd.Reach("cancelled")
				}
			}
		}
		switch nd.Pick("kind", 5) {
		case 0:
			test.Prepare(exec)
		case 1:
			test.Prepare(testkit.RecordEvent(kit.EvA{P: m.P}))
		case 2:
			d := time.Duration(nd.Int("d", 0, int(2*time.Hour)))
			g.now = g.now.Add(d)
			test.Prepare(testkit.AdvanceTime(testkit.ByDuration(d)))
		case 3:
			test.Expect(exec, testkit.ToRecordEventType[kit.EvA]())
		case 4:
			test.Prepare(testkit.Call(func() {
				g.op = 100 + k
				ctx := context.WithValue(context.Background(), opKey{}, g.op)
				nd.Assert(test.CommandExecutor().ExecuteCommand(ctx, m) == nil, "error")
			}))
		}
	}
	nd.Assert(g.dead || t.fatal == 0 && t.failed == 0, "test-failed")
	g.all(everything...)
	nd.Reach("end")
}
