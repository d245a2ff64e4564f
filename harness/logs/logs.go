// Package logs checks the log lines written for facts.
package logs

import (
	"context"
	"errors"
	"time"

	"github.com/dogmatiq/configkit"
	"github.com/dogmatiq/dogma"
	"github.com/dogmatiq/testkit"
	"github.com/dogmatiq/testkit/engine"
	"github.com/dogmatiq/testkit/envelope"
	"github.com/dogmatiq/testkit/fact"
	"github.com/dogmatiq/testkit/internal/zzverif/kit"
	"github.com/dogmatiq/testkit/internal/zzverif/nd"
)

// Harnesses are the entry points.
var Harnesses = map[string]func(){
	"Lines":   Lines,
	"Skipped": Skipped,
	"Cycles":  Cycles,
	"Silent":  Silent,
	"Logged":  Logged,
}

var (
	agg = configkit.FromAggregate(&kit.Agg{
		Name: "agg-name", Key: kit.Key1,
		Routes: []dogma.AggregateRoute{dogma.HandlesCommand[kit.CmdA](), dogma.RecordsEvent[kit.EvA]()},
	})
	proc = configkit.FromProcess(&kit.Proc{
		Name: "proc-name", Key: kit.Key2,
		Routes: []dogma.ProcessRoute{dogma.HandlesEvent[kit.EvA](), dogma.ExecutesCommand[kit.CmdB](), dogma.SchedulesTimeout[kit.ToA]()},
	})
	integ = configkit.FromIntegration(&kit.Integ{
		Name: "integ-name", Key: kit.Key3,
		Routes: []dogma.IntegrationRoute{dogma.HandlesCommand[kit.CmdB](), dogma.RecordsEvent[kit.EvB]()},
	})
	proj = configkit.FromProjection(&kit.Proj{
		Name: "proj-name", Key: kit.Key4,
		Routes: []dogma.ProjectionRoute{dogma.HandlesEvent[kit.EvA]()},
	})
)

// the icons of each column
const (
	in      = "▼"
	inError = "▽"
	out     = "▲"
	none    = " "
	failed  = "✖"
	system  = "⚙"
)

var icons = map[configkit.HandlerType]string{
	configkit.AggregateHandlerType:   "∴",
	configkit.ProcessHandlerType:     "≡",
	configkit.IntegrationHandlerType: "⨝",
	configkit.ProjectionHandlerType:  "Σ",
}

// ids are the labels of an envelope's message, causation and correlation IDs.
type ids struct{ message, cause, correlation string }

var noIDs = ids{"--", "--", "--"}

// id returns any ID and how it is displayed.
func id(name string) (string, string) {
	n := nd.Int(name, 0, 3)
	return pick(n, "", "7", "42", "1234"), pick(n, "--", "07", "42", "1234")
}

// pick returns the element of the list.
func pick(n int, choices ...string) string {
	return nd.Choose(n, choices...)
}

// newEnvelope returns an envelope with any IDs.
func newEnvelope(name string, m dogma.Message) (*envelope.Envelope, ids) {
	var x ids
	e := &envelope.Envelope{Message: m, CreatedAt: start}
	e.MessageID, x.message = id(name + ".id")
	e.CausationID, x.cause = id(name + ".cause")
	e.CorrelationID, x.correlation = id(name + ".correlation")
	return e, x
}

var start = time.Date(2020, 2, 3, 4, 5, 6, 7, time.UTC)

// line returns the documented line.
func line(x ids, direction, subject, outcome, text string, more ...string) string {
	s := "= " + x.message + "  ∵ " + x.cause + "  ⋲ " + x.correlation + "  " +
		direction + " " + subject + " " + outcome + "  " + text
	for _, t := range more {
		s += " ● " + t
	}
	return s
}

// expect asserts that the fact is rendered as the given lines.
func expect(f fact.Fact, lines ...string) {
	var got []string
	fact.NewLogger(func(s string) { got = append(got, s) }).Notify(f)
	nd.Assert(len(got) == len(lines), "number-of-lines", len(got))
	for i, l := range lines {
		nd.Assert(got[i] == l, "line", got[i])
	}
}

// Lines checks the line of any fact about a handler's actions and outcome.
func Lines() {
	nd.Texts(4096)
	var (
		cmd, cmdIDs = newEnvelope("command", kit.CmdA{})
		ev, evIDs   = newEnvelope("event", kit.EvA{})
		to, toIDs   = newEnvelope("timeout", kit.ToA{})
		inst        = nd.Str("instance", "i1", "i 2%")
		text        = nd.Str("text", "one", "two %d of 100%\n\tand more")
		err         = errors.New("failed " + text)
		aggIcon     = icons[configkit.AggregateHandlerType]
		procIcon    = icons[configkit.ProcessHandlerType]
		integIcon   = icons[configkit.IntegrationHandlerType]
		projIcon    = icons[configkit.ProjectionHandlerType]
	)
	aggName, procName := "agg-name "+inst, "proc-name "+inst
	to.ScheduledFor = start.Add(time.Hour)

	switch nd.Pick("fact", 29) {
	case 0:
		expect(fact.DispatchBegun{Envelope: cmd}, line(cmdIDs, in, system, none, "kit.CmdA?", "CmdA"))
	case 1:
		expect(fact.DispatchBegun{Envelope: ev}, line(evIDs, in, system, none, "kit.EvA!", "EvA"))
	case 2:
		expect(fact.DispatchBegun{Envelope: to}, line(toIDs, in, system, none, "kit.ToA@", "ToA"))
	case 3:
		expect(fact.HandlingCompleted{Handler: agg, Envelope: cmd, Error: err}, line(cmdIDs, inError, aggIcon, failed, "agg-name", "failed "+text))
	case 4:
		expect(fact.HandlingCompleted{Handler: proc, Envelope: to, Error: err}, line(toIDs, inError, procIcon, failed, "proc-name", "failed "+text))
	case 5:
		expect(fact.HandlingCompleted{Handler: integ, Envelope: cmd, Error: err}, line(cmdIDs, inError, integIcon, failed, "integ-name", "failed "+text))
	case 6:
		expect(fact.HandlingCompleted{Handler: proj, Envelope: ev, Error: err}, line(evIDs, inError, projIcon, failed, "proj-name", "failed "+text))
	case 7:
		h, name, icon := anyHandler()
		expect(fact.TickCompleted{Handler: h, Error: err}, line(noIDs, none, icon, failed, name, "failed "+text))
	case 8:
		expect(fact.AggregateInstanceLoaded{Handler: agg, InstanceID: inst, Root: &kit.Root{}, Envelope: cmd}, line(cmdIDs, in, aggIcon, none, aggName, "loaded an existing instance"))
	case 9:
		expect(fact.AggregateInstanceNotFound{Handler: agg, InstanceID: inst, Envelope: cmd}, line(cmdIDs, in, aggIcon, none, aggName, "instance does not yet exist"))
	case 10:
		expect(fact.AggregateInstanceCreated{Handler: agg, InstanceID: inst, Root: &kit.Root{}, Envelope: cmd}, line(cmdIDs, in, aggIcon, none, aggName, "instance created"))
	case 11:
		expect(fact.AggregateInstanceDestroyed{Handler: agg, InstanceID: inst, Root: &kit.Root{}, Envelope: cmd}, line(cmdIDs, in, aggIcon, none, aggName, "instance destroyed"))
	case 12:
		expect(fact.AggregateInstanceDestructionReverted{Handler: agg, InstanceID: inst, Root: &kit.Root{}, Envelope: cmd}, line(cmdIDs, in, aggIcon, none, aggName, "destruction of instance reverted"))
	case 13:
		expect(fact.EventRecordedByAggregate{Handler: agg, InstanceID: inst, Root: &kit.Root{}, Envelope: cmd, EventEnvelope: ev}, line(evIDs, out, aggIcon, none, aggName, "recorded an event", "kit.EvA!", "EvA"))
	case 14:
		expect(fact.MessageLoggedByAggregate{Handler: agg, InstanceID: inst, Root: &kit.Root{}, Envelope: cmd, LogFormat: "<%s %d>", LogArguments: []any{text, 5}}, line(cmdIDs, in, aggIcon, none, aggName, "<"+text+" 5>"))
	case 15:
		expect(fact.ProcessInstanceLoaded{Handler: proc, InstanceID: inst, Root: &kit.PRoot{}, Envelope: ev}, line(evIDs, in, procIcon, none, procName, "loaded an existing instance"))
	case 16:
		expect(fact.ProcessEventIgnored{Handler: proc, Envelope: ev}, line(evIDs, in, procIcon, none, "proc-name", "event ignored because it was not routed to any instance"))
	case 17:
		expect(fact.ProcessTimeoutIgnored{Handler: proc, InstanceID: inst, Envelope: to}, line(toIDs, in, procIcon, none, procName, "timeout ignored because the target instance no longer exists"))
	case 18:
		expect(fact.ProcessInstanceNotFound{Handler: proc, InstanceID: inst, Envelope: ev}, line(evIDs, in, procIcon, none, procName, "instance does not yet exist"))
	case 19:
		expect(fact.ProcessInstanceBegun{Handler: proc, InstanceID: inst, Root: &kit.PRoot{}, Envelope: ev}, line(evIDs, in, procIcon, none, procName, "instance begun"))
	case 20:
		expect(fact.ProcessInstanceEnded{Handler: proc, InstanceID: inst, Root: &kit.PRoot{}, Envelope: ev}, line(evIDs, in, procIcon, none, procName, "instance ended"))
	case 21:
		expect(fact.ProcessInstanceEndingReverted{Handler: proc, InstanceID: inst, Root: &kit.PRoot{}, Envelope: ev}, line(evIDs, in, procIcon, none, procName, "reverted ending process instance"))
	case 22:
		expect(fact.CommandExecutedByProcess{Handler: proc, InstanceID: inst, Root: &kit.PRoot{}, Envelope: ev, CommandEnvelope: cmd}, line(cmdIDs, out, procIcon, none, procName, "executed a command", "kit.CmdA?", "CmdA"))
	case 23:
		expect(fact.TimeoutScheduledByProcess{Handler: proc, InstanceID: inst, Root: &kit.PRoot{}, Envelope: ev, TimeoutEnvelope: to}, line(toIDs, out, procIcon, none, procName, "scheduled a timeout for 2020-02-03T05:05:06Z", "kit.ToA@", "ToA"))
	case 24:
		expect(fact.MessageLoggedByProcess{Handler: proc, InstanceID: inst, Root: &kit.PRoot{}, Envelope: ev, LogFormat: "<%s %d>", LogArguments: []any{text, 5}}, line(evIDs, in, procIcon, none, procName, "<"+text+" 5>"))
	case 25:
		expect(fact.EventRecordedByIntegration{Handler: integ, Envelope: cmd, EventEnvelope: ev}, line(evIDs, out, integIcon, none, "integ-name", "recorded an event", "kit.EvA!", "EvA"))
	case 26:
		expect(fact.MessageLoggedByIntegration{Handler: integ, Envelope: cmd, LogFormat: "<%s %d>", LogArguments: []any{text, 5}}, line(cmdIDs, in, integIcon, none, "integ-name", "<"+text+" 5>"))
	case 27:
		if nd.Flip("fails") {
			expect(fact.ProjectionCompactionCompleted{Handler: proj, Error: err}, line(noIDs, none, projIcon, failed, "proj-name", "compaction failed: failed "+text))
		} else {
			expect(fact.ProjectionCompactionCompleted{Handler: proj}, line(noIDs, none, projIcon, none, "proj-name", "compacted"))
		}
	case 28:
		if nd.Flip("handling") {
			expect(fact.MessageLoggedByProjection{Handler: proj, Envelope: ev, LogFormat: "<%s %d>", LogArguments: []any{text, 5}}, line(evIDs, in, projIcon, none, "proj-name", "<"+text+" 5>"))
		} else {
			expect(fact.MessageLoggedByProjection{Handler: proj, LogFormat: "<%s %d>", LogArguments: []any{text, 5}}, line(noIDs, none, projIcon, none, "proj-name", "<"+text+" 5>"))
		}
	}
	nd.Reach("end")
}

// anyHandler returns any handler with its name and icon.
func anyHandler() (configkit.RichHandler, string, string) {
	switch nd.Pick("handler", 4) {
	case 0:
		return agg, "agg-name", icons[configkit.AggregateHandlerType]
	case 1:
		return proc, "proc-name", icons[configkit.ProcessHandlerType]
	case 2:
		return integ, "integ-name", icons[configkit.IntegrationHandlerType]
	default:
		return proj, "proj-name", icons[configkit.ProjectionHandlerType]
	}
}

// Skipped checks the lines of handlers that are skipped.
func Skipped() {
	nd.Texts(4096)
	env, x := newEnvelope("event", kit.EvA{})
	h, name, icon := anyHandler()
	f := fact.HandlingSkipped{Handler: h, Envelope: env}
	var reason string
	switch nd.Pick("reason", 3) {
	case 0:
		f.Reason = fact.HandlerTypeDisabled
		reason = "handler skipped because " + h.HandlerType().String() + " handlers are disabled"
	case 1:
		f.Reason = fact.IndividualHandlerDisabled
		reason = "handler skipped because it is disabled during this tick of the test engine"
	case 2:
		f.Reason = fact.IndividualHandlerDisabledByConfiguration
		reason = "handler skipped because it is disabled by its Configure() method"
	}
	expect(f, line(x, in, icon, none, name, reason))
	nd.Reach("end")
}

// Cycles checks the lines that begin operations.
func Cycles() {
	nd.Texts(4096)
	types := map[configkit.HandlerType]bool{}
	names := map[string]bool{}
	enabled := "enabled:"
	for _, t := range []struct {
		t      configkit.HandlerType
		plural string
	}{
		{configkit.AggregateHandlerType, "aggregates"},
		{configkit.ProcessHandlerType, "processes"},
		{configkit.IntegrationHandlerType, "integrations"},
		{configkit.ProjectionHandlerType, "projections"},
	} {
		switch nd.Pick(t.plural, 3) {
		case 1:
			types[t.t] = false
		case 2:
			types[t.t] = true
			enabled += " +" + t.plural
		}
	}
	for _, n := range []string{"name-b", "name-a"} {
		switch nd.Pick(n, 3) {
		case 1:
			names[n] = false
		case 2:
			names[n] = true
		}
	}
	for _, n := range []string{"name-a", "name-b"} {
		if on, ok := names[n]; ok && on {
			enabled += " +" + n
		} else if ok {
			enabled += " -" + n
		}
	}
	if nd.Flip("tick") {
		expect(fact.TickCycleBegun{EngineTime: start, EnabledHandlerTypes: types, EnabledHandlers: names},
			line(noIDs, none, system, none, "ticking", "2020-02-03T04:05:06Z", enabled))
	} else {
		env, x := newEnvelope("command", kit.CmdA{})
		expect(fact.DispatchCycleBegun{Envelope: env, EngineTime: start, EnabledHandlerTypes: types, EnabledHandlers: names},
			line(x, in, system, none, "dispatching", "2020-02-03T04:05:06Z", enabled))
	}
	nd.Reach("end")
}

// Silent checks that facts that are not logged leave no line.
func Silent() {
	env, _ := newEnvelope("command", kit.CmdA{})
	err := errors.New("failed")
	if nd.Flip("ok") {
		err = nil
	}
	h, _, _ := anyHandler()
	switch nd.Pick("fact", 9) {
	case 0:
		expect(fact.DispatchCycleCompleted{Envelope: env, Error: err})
	case 1:
		expect(fact.DispatchCompleted{Envelope: env, Error: err})
	case 2:
		expect(fact.HandlingBegun{Handler: h, Envelope: env})
	case 3:
		expect(fact.HandlingCompleted{Handler: h, Envelope: env})
	case 4:
		expect(fact.TickCycleCompleted{Error: err})
	case 5:
		expect(fact.TickBegun{Handler: h})
	case 6:
		expect(fact.TickCompleted{Handler: h})
	case 7:
		expect(fact.TickSkipped{Handler: h, Reason: fact.HandlerTypeDisabled})
	case 8:
		expect(fact.ProjectionCompactionBegun{Handler: proj})
	}
	nd.Reach("end")
}

// journal is a TestingT that keeps what is logged.
type journal struct {
	lines  []string
	failed bool
}

func (j *journal) Failed() bool        { return j.failed }
func (j *journal) Log(a ...any)        { j.add(a...) }
func (j *journal) Logf(string, ...any) {}
func (j *journal) Fatal(a ...any)      { j.failed = true }
func (j *journal) FailNow()            { j.failed = true }
func (j *journal) Helper()             {}

func (j *journal) add(a ...any) {
	if s, ok := a[0].(string); ok && len(a) == 1 {
		j.lines = append(j.lines, s)
	}
}

// Logged checks that a test logs the line of every fact, in order.
func Logged() {
	nd.Texts(4096)
	j := &journal{}
	var want []string
	l := fact.NewLogger(func(s string) { want = append(want, s) })
	test := testkit.Begin(
		j,
		&kit.App{Handlers: []any{
			&kit.Agg{
				Name: "agg-name", Key: kit.Key1,
				Routes: []dogma.AggregateRoute{dogma.HandlesCommand[kit.CmdA](), dogma.RecordsEvent[kit.EvA]()},
				HandleF: func(_ dogma.AggregateRoot, s dogma.AggregateCommandScope, _ dogma.Command) {
					switch nd.Pick("agg", 4) {
					case 1:
						s.RecordEvent(kit.EvA{P: kit.P{To: nd.Str("to", "i", "j")}})
					case 2:
						s.RecordEvent(kit.EvA{P: kit.P{To: "i"}})
						s.Destroy()
					case 3:
						s.Log("<%s>", nd.Str("text", "one", "two"))
					}
				},
			},
			&kit.Proc{
				Name: "proc-name", Key: kit.Key2,
				Routes: []dogma.ProcessRoute{dogma.HandlesEvent[kit.EvA](), dogma.ExecutesCommand[kit.CmdA](), dogma.SchedulesTimeout[kit.ToA]()},
				EventF: func(_ context.Context, _ dogma.ProcessRoot, s dogma.ProcessEventScope, _ dogma.Event) error {
					switch nd.Pick("proc", 3) {
					case 1:
						s.ScheduleTimeout(kit.ToA{}, start)
					case 2:
						s.End()
						return errors.New("failed")
					}
					return nil
				},
			},
		}},
		testkit.StartTimeAt(start),
		testkit.WithUnsafeOperationOptions(engine.WithObserver(l)),
	)
	skip := len(j.lines)
	for i := 0; i < 2; i++ {
		test.Prepare(testkit.ExecuteCommand(kit.CmdA{P: kit.P{To: nd.Str("instance", "i", "j")}}))
	}
	got := j.lines[skip:]
	n := 0
	for _, s := range want {
		found := false
		for n < len(got) && !found {
			found = got[n] == s
			n++
		}
		nd.Assert(found, "fact-not-logged", s)
	}
	nd.Assert(len(want) >= 6, "few-lines")
	nd.Reach("end")
}
