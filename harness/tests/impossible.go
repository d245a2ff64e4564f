package tests

import (
	"context"

	"github.com/dogmatiq/dogma"
	"github.com/dogmatiq/testkit"
	"github.com/dogmatiq/testkit/engine"
	"github.com/dogmatiq/testkit/internal/zzverif/kit"
	"github.com/dogmatiq/testkit/internal/zzverif/nd"
)

func init() {
	Harnesses["Impossible"] = Impossible
	Harnesses["ImpossibleInTree"] = ImpossibleInTree
	Harnesses["PossibleInterface"] = PossibleInterface
}

// roles tells how an application uses a message type.
type roles struct{ consumed, produced bool }

func anyRoles(name string) roles {
	return roles{nd.Flip(name + "-consumed"), nd.Flip(name + "-produced")}
}

// routed is an application with arbitrary routes of the command CmdB and the
// event EvB.
func routed(cmd, ev roles) *kit.App {
	agg := &kit.Agg{
		Name: "agg", Key: kit.Key1,
		Routes: []dogma.AggregateRoute{
			dogma.HandlesCommand[kit.CmdA](),
			dogma.RecordsEvent[kit.EvA](),
		},
	}
	proc := &kit.Proc{
		Name: "proc", Key: kit.Key2,
		Routes: []dogma.ProcessRoute{
			dogma.HandlesEvent[kit.EvA](),
			dogma.ExecutesCommand[kit.CmdC](),
			dogma.SchedulesTimeout[kit.ToA](),
		},
	}
	integ := &kit.Integ{
		Name: "integ", Key: kit.Key3,
		Routes: []dogma.IntegrationRoute{
			dogma.HandlesCommand[kit.CmdC](),
		},
	}
	proj := &kit.Proj{
		Name: "proj", Key: kit.Key4,
		Routes: []dogma.ProjectionRoute{dogma.HandlesEvent[kit.EvA]()},
	}
	if cmd.consumed {
		if nd.Flip("by-aggregate") {
			agg.Routes = append(agg.Routes, dogma.HandlesCommand[kit.CmdB]())
		} else {
			integ.Routes = append(integ.Routes, dogma.HandlesCommand[kit.CmdB]())
		}
	}
	if cmd.produced {
		proc.Routes = append(proc.Routes, dogma.ExecutesCommand[kit.CmdB]())
	}
	if ev.consumed {
		if nd.Flip("by-process") {
			proc.Routes = append(proc.Routes, dogma.HandlesEvent[kit.EvB]())
		} else {
			proj.Routes = append(proj.Routes, dogma.HandlesEvent[kit.EvB]())
		}
	}
	if ev.produced {
		if nd.Flip("by-integration") {
			integ.Routes = append(integ.Routes, dogma.RecordsEvent[kit.EvB]())
		} else {
			agg.Routes = append(agg.Routes, dogma.RecordsEvent[kit.EvB]())
		}
	}
	if nd.Flip("bare") {
		// only those handlers that use the types, and the aggregate
		hs := []any{agg}
		if len(proc.Routes) > 3 {
			hs = append(hs, proc)
		}
		if len(integ.Routes) > 1 {
			hs = append(hs, integ)
		}
		if len(proj.Routes) > 1 {
			hs = append(hs, proj)
		}
		return &kit.App{Handlers: hs}
	}
	return &kit.App{Handlers: []any{agg, proc, integ, proj}}
}

// about returns an expectation about CmdB or EvB.
func about(ev bool, kind int) testkit.Expectation {
	if ev {
		switch kind {
		case 0:
			return testkit.ToRecordEvent(kit.EvB{P: kit.P{N: nd.Int("n", 0, 3)}})
		case 1:
			return testkit.ToRecordEventOfType(kit.EvB{})
		case 2:
			return testkit.ToRecordEventType[kit.EvB]()
		case 3:
			return testkit.ToRecordEventMatching(func(kit.EvB) error { return nil })
		}
		return testkit.ToOnlyRecordEventsMatching(func(kit.EvB) error { return nil })
	}
	switch kind {
	case 0:
		return testkit.ToExecuteCommand(kit.CmdB{P: kit.P{N: nd.Int("n", 0, 3)}})
	case 1:
		return testkit.ToExecuteCommandOfType(kit.CmdB{})
	case 2:
		return testkit.ToExecuteCommandType[kit.CmdB]()
	case 3:
		return testkit.ToExecuteCommandMatching(func(kit.CmdB) error { return nil })
	}
	return testkit.ToOnlyExecuteCommandsMatching(func(kit.CmdB) error { return nil })
}

// judgeRefusal performs an action with an expectation about the type and
// checks whether it is refused.
func judgeRefusal(history bool, wrap func(testkit.Expectation) testkit.Expectation) {
	cmd, ev := anyRoles("command"), anyRoles("event")
	t := &tt{silent: true}
	facts := &kit.Facts{}
	test := testkit.Begin(t, routed(cmd, ev), testkit.StartTimeAt(t0),
		testkit.WithUnsafeOperationOptions(engine.WithObserver(facts)))

	x := test.CommandExecutor()
	if history && nd.Flip("earlier-call") {
		test.Expect(testkit.Call(func() {
			_ = x.ExecuteCommand(context.Background(), kit.CmdA{P: kit.P{To: "x"}})
		}), &leaf{ok: true})
		t.clear()
		facts.All = nil
	}

	isEv := nd.Flip("about-event")
	e := wrap(about(isEv, nd.Pick("expectation", 5)))
	r := cmd
	if isEv {
		r = ev
	}

	call := nd.Flip("call")
	called := false
	a := testkit.ExecuteCommand(kit.CmdA{P: kit.P{To: "x"}})
	if call {
		a = testkit.Call(func() {
			called = true
			_ = x.ExecuteCommand(context.Background(), kit.CmdA{P: kit.P{To: "x"}})
		})
	}
	test.Expect(a, e)

	refused := len(t.fatal) != 0
	switch {
	case r.produced:
		nd.Assert(!refused, "possible-refused", t.fatal)
		nd.Reach("produced")
	case !r.consumed:
		nd.Assert(refused, "unused-accepted")
		nd.Reach("unused")
	case !call:
		nd.Assert(refused, "never-produced-accepted")
		nd.Reach("consumed-only")
	case !isEv:
		nd.Assert(!refused, "possible-refused", t.fatal)
		nd.Reach("executed-by-call")
	}
	if refused {
		nd.Assert(len(facts.All) == 0 && !called, "refused-but-performed")
		nd.Assert(t.reports == 0, "refused-but-reported")
		nd.Assert(t.Failed(), "refused-but-not-failed")
	} else {
		nd.Assert(len(facts.All) != 0, "not-performed")
		nd.Assert(t.reports == 1, "times-reported")
	}
	nd.Reach("end")
}

// Impossible: every expectation about a type, for all assignments of routes.
func Impossible() {
	judgeRefusal(true, func(e testkit.Expectation) testkit.Expectation {
		if nd.Flip("not") {
			return testkit.Not(e)
		}
		return e
	})
}

// ImpossibleInTree: as a child of a combinator.
func ImpossibleInTree() {
	judgeRefusal(false, func(e testkit.Expectation) testkit.Expectation {
		l := &leaf{ok: nd.Bool("verdict")}
		es := []testkit.Expectation{l, e}
		if nd.Flip("first") {
			es = []testkit.Expectation{e, l}
		}
		switch nd.Pick("combinator", 4) {
		case 0:
			return testkit.AllOf(es...)
		case 1:
			return testkit.AnyOf(es...)
		case 2:
			return testkit.NoneOf(es...)
		}
		return testkit.ToRepeatedly("repeat", 2, func(i int) testkit.Expectation { return es[i] })
	})
}

// PossibleInterface: expectations about any command or event are never
// refused.
func PossibleInterface() {
	cmd, ev := anyRoles("command"), anyRoles("event")
	t := &tt{silent: true}
	test := testkit.Begin(t, routed(cmd, ev), testkit.StartTimeAt(t0))
	var e testkit.Expectation
	switch nd.Pick("expectation", 4) {
	case 0:
		e = testkit.ToExecuteCommandMatching(func(dogma.Command) error { return nil })
	case 1:
		e = testkit.ToOnlyExecuteCommandsMatching(func(dogma.Command) error { return nil })
	case 2:
		e = testkit.ToRecordEventMatching(func(dogma.Event) error { return nil })
	case 3:
		e = testkit.ToOnlyRecordEventsMatching(func(dogma.Event) error { return nil })
	}
	test.Expect(testkit.ExecuteCommand(kit.CmdA{P: kit.P{To: "x"}}), e)
	nd.Assert(len(t.fatal) == 0, "possible-refused", t.fatal)
	nd.Assert(t.reports == 1, "times-reported")
	nd.Reach("end")
}
