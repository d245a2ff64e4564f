package world

import (
	"context"
	"fmt"
	"time"

	"github.com/dogmatiq/configkit"
	"github.com/dogmatiq/dogma"
	"github.com/dogmatiq/testkit/engine"
	"github.com/dogmatiq/testkit/envelope"
	"github.com/dogmatiq/testkit/fact"
	"github.com/dogmatiq/testkit/internal/zzverif/kit"
	"github.com/dogmatiq/testkit/internal/zzverif/nd"
)

func init() {
	Harnesses["ActionsAggregate"] = ActionsAggregate
	Harnesses["ActionsProcess"] = ActionsProcess
}

// step is one fact expected or observed inside a handler bracket.
type step struct {
	kind string
	id   string // instance
	n    int    // produced message or log line
}

// inside returns the facts within the handler brackets of the named handler.
func inside(h string, facts []fact.Fact) (steps []step) {
	var env *envelope.Envelope
	add := func(kind, id string, n int, hc configkit.Handler, e *envelope.Envelope) {
		nd.Assert(env != nil, "fact-outside-bracket", kind)
		nd.Assert(name(hc) == h, "fact-of-other-handler", kind)
		nd.Assert(e == env, "fact-of-other-message", kind)
		steps = append(steps, step{kind, id, n})
	}
	num := func(e *envelope.Envelope) int { return kit.Payload(e.Message).N }
	for _, f := range facts {
		switch f := f.(type) {
		case fact.HandlingBegun:
			if name(f.Handler) == h {
				env = f.Envelope
			}
		case fact.HandlingCompleted:
			env = nil
		case fact.AggregateInstanceLoaded:
			add("loaded", f.InstanceID, 0, f.Handler, f.Envelope)
		case fact.AggregateInstanceNotFound:
			add("not-found", f.InstanceID, 0, f.Handler, f.Envelope)
		case fact.AggregateInstanceCreated:
			add("created", f.InstanceID, 0, f.Handler, f.Envelope)
		case fact.AggregateInstanceDestroyed:
			add("destroyed", f.InstanceID, 0, f.Handler, f.Envelope)
		case fact.AggregateInstanceDestructionReverted:
			add("reverted", f.InstanceID, 0, f.Handler, f.Envelope)
		case fact.EventRecordedByAggregate:
			add("event", f.InstanceID, num(f.EventEnvelope), f.Handler, f.Envelope)
		case fact.MessageLoggedByAggregate:
			add("log", f.InstanceID, arg(f.LogFormat, f.LogArguments).(int), f.Handler, f.Envelope)
		case fact.ProcessInstanceLoaded:
			add("loaded", f.InstanceID, 0, f.Handler, f.Envelope)
		case fact.ProcessInstanceNotFound:
			add("not-found", f.InstanceID, 0, f.Handler, f.Envelope)
		case fact.ProcessInstanceBegun:
			add("begun", f.InstanceID, 0, f.Handler, f.Envelope)
		case fact.ProcessInstanceEnded:
			add("ended", f.InstanceID, 0, f.Handler, f.Envelope)
		case fact.ProcessInstanceEndingReverted:
			add("reverted", f.InstanceID, 0, f.Handler, f.Envelope)
		case fact.ProcessEventIgnored:
			add("ignored", "", 0, f.Handler, f.Envelope)
		case fact.ProcessTimeoutIgnored:
			add("timeout-ignored", f.InstanceID, 0, f.Handler, f.Envelope)
		case fact.CommandExecutedByProcess:
			add("command", f.InstanceID, num(f.CommandEnvelope), f.Handler, f.Envelope)
		case fact.TimeoutScheduledByProcess:
			add("timeout", f.InstanceID, num(f.TimeoutEnvelope), f.Handler, f.Envelope)
		case fact.MessageLoggedByProcess:
			add("log", f.InstanceID, arg(f.LogFormat, f.LogArguments).(int), f.Handler, f.Envelope)
		}
	}
	return
}

func sameSteps(want, got []step) {
	for i := range want {
		if i >= len(got) {
			nd.Assert(false, "fact-missing", want[i].kind)
		}
		nd.Assert(want[i].kind == got[i].kind, "fact-kind", "want", want[i].kind, "got", got[i].kind)
		nd.Assert(want[i].id == got[i].id, "fact-instance", want[i].kind)
		nd.Assert(want[i].n == got[i].n, "fact-payload", want[i].kind)
	}
	nd.Assert(len(got) == len(want), "fact-unexpected")
}

// ActionsAggregate: what an aggregate does while handling two commands for
// two instances is reported exactly as it happened.
func ActionsAggregate() {
	var want []step
	exists := map[string]bool{}
	n := 0
	agg := &kit.Agg{
		Name: "agg", Key: kit.Key1,
		Routes: []dogma.AggregateRoute{dogma.HandlesCommand[kit.CmdA](), dogma.RecordsEvent[kit.EvA]()},
		HandleF: func(_ dogma.AggregateRoot, s dogma.AggregateCommandScope, m dogma.Command) {
			id := s.InstanceID()
			destroyed := false
			for i := 0; i < 3; i++ {
				n++
				switch nd.Pick("do", 4) {
				case 0:
					return
				case 1:
					if !exists[id] {
						if destroyed {
							want = append(want, step{"reverted", id, 0})
							nd.Reach("reverted")
						} else {
							want = append(want, step{"created", id, 0})
						}
						exists[id] = true
					}
					want = append(want, step{"event", id, n})
					s.RecordEvent(kit.EvA{P: kit.P{N: n}})
				case 2:
					if exists[id] {
						want = append(want, step{"destroyed", id, 0})
						exists[id] = false
						destroyed = true
						nd.Reach("destroyed")
					}
					s.Destroy()
				case 3:
					want = append(want, step{"log", id, n})
					s.Log("line %d", n)
				}
			}
		},
	}
	e := engine.MustNew(configkit.FromApplication(&kit.App{Handlers: []any{agg}}))
	for k := 0; k < 2; k++ {
		var facts kit.Facts
		want = nil
		id := nd.Str("to", "i", "j")
		if exists[id] {
			want = append(want, step{"loaded", id, 0})
			nd.Reach("loaded")
		} else {
			want = append(want, step{"not-found", id, 0})
		}
		err := e.Dispatch(context.Background(), kit.CmdA{P: kit.P{To: id}}, engine.WithCurrentTime(t0), engine.WithObserver(&facts))
		nd.Assert(err == nil, "dispatch-error")
		got := inside("agg", facts.All)
		sameSteps(want, got)
		nd.Trace("steps", fmt.Sprint(len(got)))
	}
	nd.Reach("end")
}

// ActionsProcess: the same for a process, which may also fail, decline events
// and handle its own immediate timeouts.
func ActionsProcess() {
	var want []step
	exists := map[string]bool{}
	n, limit := 0, 3
	failed := &failure{1}
	done := &kit.Integ{
		Name: "int", Key: kit.Key2,
		Routes: []dogma.IntegrationRoute{dogma.HandlesCommand[kit.CmdB]()},
	}
	var ready []step // facts of immediate timeouts
	proc := &kit.Proc{
		Name: "proc", Key: kit.Key1,
		Routes: []dogma.ProcessRoute{
			dogma.HandlesEvent[kit.EvA](), dogma.ExecutesCommand[kit.CmdB](), dogma.SchedulesTimeout[kit.ToA](),
		},
		RouteF: func(m dogma.Event) (string, bool, error) {
			return kit.Payload(m).To, kit.Payload(m).Op == 0, nil
		},
		EventF: func(_ context.Context, _ dogma.ProcessRoot, s dogma.ProcessEventScope, m dogma.Event) error {
			id := s.InstanceID()
			ended := false
			revert := func() {
				if ended {
					want = append(want, step{"reverted", id, 0})
					ended = false
					nd.Reach("reverted")
				}
			}
			for i := 0; i < limit; i++ {
				n++
				switch nd.Pick("do", 6) {
				case 0:
					i = limit
				case 1:
					revert()
					want = append(want, step{"command", id, n})
					s.ExecuteCommand(kit.CmdB{P: kit.P{N: n}})
				case 2:
					revert()
					want = append(want, step{"timeout", id, n})
					s.ScheduleTimeout(kit.ToA{P: kit.P{N: n}}, t0.Add(time.Hour))
				case 3:
					revert()
					want = append(want, step{"timeout", id, n})
					ready = append(ready, step{"loaded", id, 0}, step{"log", id, n})
					s.ScheduleTimeout(kit.ToA{P: kit.P{N: n}}, t0)
				case 4:
					if !ended {
						want = append(want, step{"ended", id, 0})
						ended = true
						nd.Reach("ended")
					}
					s.End()
				case 5:
					want = append(want, step{"log", id, n})
					s.Log("line %d", n)
				}
			}
			if nd.Flip("fail") {
				ready = nil
				nd.Reach("failed")
				return failed
			}
			exists[id] = !ended
			if ended {
				ready = nil
			}
			return nil
		},
		TimeoutF: func(_ context.Context, _ dogma.ProcessRoot, s dogma.ProcessTimeoutScope, m dogma.Timeout) error {
			s.Log("line %d", kit.Payload(m).N)
			nd.Reach("timeout")
			return nil
		},
	}
	e := engine.MustNew(configkit.FromApplication(&kit.App{Handlers: []any{proc, done}}))
	for k := 0; k < 2; k++ {
		var facts kit.Facts
		want, ready = nil, nil
		id := "i"
		if k == 1 {
			id = nd.Str("to", "i", "j")
		}
		declined := nd.Bool("decline")
		if declined {
			want = append(want, step{"ignored", "", 0})
			nd.Reach("ignored")
		} else if exists[id] {
			want = append(want, step{"loaded", id, 0})
			nd.Reach("loaded")
		} else {
			want = append(want, step{"not-found", id, 0}, step{"begun", id, 0})
		}
		op := 0
		if declined {
			op = 1
		}
		_ = e.Dispatch(context.Background(), kit.EvA{P: kit.P{To: id, Op: op}}, engine.WithCurrentTime(t0), engine.WithObserver(&facts))
		sameSteps(append(want, ready...), inside("proc", facts.All))
		limit = 1
	}
	nd.Reach("end")
}
