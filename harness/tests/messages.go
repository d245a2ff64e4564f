package tests

import (
	"context"
	"errors"
	"time"

	"github.com/dogmatiq/dogma"
	"github.com/dogmatiq/testkit"
	"github.com/dogmatiq/testkit/engine"
	"github.com/dogmatiq/testkit/internal/zzverif/kit"
	"github.com/dogmatiq/testkit/internal/zzverif/nd"
)

func init() {
	Harnesses["Value"] = Value
	Harnesses["ValueCall"] = ValueCall
	Harnesses["ValueAfterCall"] = ValueAfterCall
	Harnesses["ValueSequence"] = ValueSequence
	Harnesses["Type"] = Type
	Harnesses["Comparator"] = Comparator
	Harnesses["Match"] = Match
	Harnesses["MatchOnly"] = MatchOnly
	Harnesses["MatchCall"] = MatchCall
	Harnesses["MatchInterface"] = MatchInterface
}

// The message types of the application.
const (
	mCmdA = iota
	mCmdB
	mCmdC
	mEvA
	mEvB
	mEvC
	mToA
)

func isCommand(typ int) bool { return typ <= mCmdC }
func isEvent(typ int) bool   { return typ >= mEvA && typ <= mEvC }

func typeOf(m dogma.Message) int {
	switch m.(type) {
	case kit.CmdA:
		return mCmdA
	case kit.CmdB:
		return mCmdB
	case kit.CmdC:
		return mCmdC
	case kit.EvA:
		return mEvA
	case kit.EvB:
		return mEvB
	case kit.EvC:
		return mEvC
	}
	return mToA
}

func command(typ, n int) dogma.Command {
	p := kit.P{To: "x", N: n}
	switch typ {
	case mCmdA:
		return kit.CmdA{P: p}
	case mCmdB:
		return kit.CmdB{P: p}
	}
	return kit.CmdC{P: p}
}

func event(typ, n int) dogma.Event {
	p := kit.P{To: "x", N: n}
	switch typ {
	case mEvA:
		return kit.EvA{P: p}
	case mEvB:
		return kit.EvB{P: p}
	}
	return kit.EvC{P: p}
}

// produced is a message that was produced.
type produced struct {
	typ, n int
	by     string // name of the handler, empty for the test itself
}

// stream is a test of an application whose handlers produce arbitrary
// messages, and keeps those that were produced.
type stream struct {
	t    *tt
	test *testkit.Test
	log  []produced
	num  func(string) int

	events   int // events recorded by the aggregate for each command
	commands int // messages produced by the process for each event

	engaged []string // names of handlers, in the order they were first called

	past bool // handlers produce one message each

	// what is produced by the k-th call, instead of anything
	plan  func(k, types int) (typ, n int)
	calls int
}

func newStream(events, commands int, opts ...testkit.TestOption) *stream {
	s := &stream{t: &tt{silent: true}, events: events, commands: commands}
	app := &kit.App{Handlers: []any{
		&kit.Agg{
			Name: "agg", Key: kit.Key1,
			Routes: []dogma.AggregateRoute{
				dogma.HandlesCommand[kit.CmdA](),
				dogma.RecordsEvent[kit.EvA](),
				dogma.RecordsEvent[kit.EvB](),
			},
			HandleF: func(_ dogma.AggregateRoot, sc dogma.AggregateCommandScope, m dogma.Command) {
				s.engage("agg")
				if s.past {
					sc.RecordEvent(event(mEvA, 0))
					sc.RecordEvent(event(mEvB, 0))
					return
				}
				for i := 0; i < s.events; i++ {
					typ, n := s.choose("event", 2)
					typ += mEvA
					s.log = append(s.log, produced{typ, n, "agg"})
					sc.RecordEvent(event(typ, n))
				}
			},
		},
		&kit.Proc{
			Name: "proc", Key: kit.Key2,
			Routes: []dogma.ProcessRoute{
				dogma.HandlesEvent[kit.EvA](),
				dogma.HandlesEvent[kit.EvB](),
				dogma.ExecutesCommand[kit.CmdB](),
				dogma.ExecutesCommand[kit.CmdC](),
				dogma.SchedulesTimeout[kit.ToA](),
			},
			EventF: func(_ context.Context, _ dogma.ProcessRoot, sc dogma.ProcessEventScope, _ dogma.Event) error {
				s.engage("proc")
				if s.past {
					sc.ExecuteCommand(command(mCmdB, 0))
					sc.ExecuteCommand(command(mCmdC, 0))
					sc.ScheduleTimeout(kit.ToA{P: kit.P{To: "x"}}, t0.Add(time.Second))
					return nil
				}
				for i := 0; i < s.commands; i++ {
					typ, n := s.choose("command", 3)
					if typ == 0 {
						s.log = append(s.log, produced{mToA, n, "proc"})
						sc.ScheduleTimeout(kit.ToA{P: kit.P{To: "x", N: n}}, t0.Add(time.Second))
						continue
					}
					s.log = append(s.log, produced{typ, n, "proc"})
					sc.ExecuteCommand(command(typ, n))
				}
				return nil
			},
			TimeoutF: func(_ context.Context, _ dogma.ProcessRoot, sc dogma.ProcessTimeoutScope, _ dogma.Timeout) error {
				s.engage("proc")
				n := nd.Int("n", 0, 3)
				s.log = append(s.log, produced{mCmdC, n, "proc"})
				sc.ExecuteCommand(command(mCmdC, n))
				return nil
			},
		},
		&kit.Integ{
			Name: "integ", Key: kit.Key3,
			Routes: []dogma.IntegrationRoute{
				dogma.HandlesCommand[kit.CmdB](),
				dogma.HandlesCommand[kit.CmdC](),
				dogma.RecordsEvent[kit.EvC](),
			},
			HandleF: func(_ context.Context, sc dogma.IntegrationCommandScope, m dogma.Command) error {
				s.engage("integ")
				if _, ok := m.(kit.CmdB); ok {
					n := 0
					if !s.past {
						_, n = s.choose("", 1)
					}
					s.log = append(s.log, produced{mEvC, n, "integ"})
					sc.RecordEvent(event(mEvC, n))
				}
				return nil
			},
		},
	}}
	s.test = testkit.Begin(s.t, app, append([]testkit.TestOption{
		testkit.StartTimeAt(t0),
		testkit.WithUnsafeOperationOptions(engine.EnableIntegrations(true)),
	}, opts...)...)
	return s
}

// choose chooses a message.
func (s *stream) choose(name string, types int) (typ, n int) {
	s.calls++
	if s.plan != nil {
		return s.plan(s.calls-1, types)
	}
	if types > 1 {
		typ = nd.Pick(name, types)
	}
	return typ, nd.Int("n", 0, 3)
}

func (s *stream) engage(name string) {
	for _, n := range s.engaged {
		if n == name {
			return
		}
	}
	s.engaged = append(s.engaged, name)
}

// action returns an arbitrary action.
func (s *stream) action() testkit.Action {
	switch nd.Pick("action", 3) {
	case 0:
		return testkit.ExecuteCommand(command(mCmdA, nd.Int("n", 0, 3)))
	case 1:
		return testkit.RecordEvent(event(mEvA, nd.Int("n", 0, 3)))
	}
	return testkit.AdvanceTime(testkit.ByDuration(time.Second))
}

// call returns an action that executes commands of its own.
func (s *stream) call(k int) testkit.Action {
	x := s.test.CommandExecutor()
	return testkit.Call(func() {
		for i := 0; i < k; i++ {
			typ, n := nd.Pick("executed", 3), nd.Int("n", 0, 3)
			s.log = append(s.log, produced{typ, n, ""})
			if err := x.ExecuteCommand(context.Background(), command(typ, n)); err != nil {
				panic(err)
			}
		}
	})
}

// before puts messages into the past of the action.
func (s *stream) before() {
	if nd.Flip("before") {
		s.past = true
		s.test.Prepare(testkit.ExecuteCommand(command(mCmdA, 0)))
		s.past = false
	}
	s.log, s.engaged = nil, nil
}

func (s *stream) expect(a testkit.Action, e testkit.Expectation, ok func() bool) {
	s.t.clear()
	s.test.Expect(a, e)
	nd.Assert(len(s.t.fatal) == 0, "refused", s.t.fatal)
	v := ok()
	nd.Assert(s.t.Failed() == !v, "verdict")
	nd.Assert(s.t.reports == 1, "times-reported")
	if v {
		nd.Reach("met")
	} else {
		nd.Reach("not-met")
	}
}

// value expects an arbitrary message by value.
func (s *stream) value(a testkit.Action) {
	typ, n := mCmdB+nd.Pick("expected", 5), nd.Int("expected-n", 0, 3)
	var e testkit.Expectation
	if isCommand(typ) {
		e = testkit.ToExecuteCommand(command(typ, n))
	} else {
		e = testkit.ToRecordEvent(event(typ, n))
	}
	s.expect(a, e, func() bool {
		ok := false
		for _, p := range s.log {
			ok = nd.Or(ok, nd.And(p.typ == typ, p.n == n))
		}
		return ok
	})
}

// Value: expectations of values, of what handlers produce.
func Value() {
	s := newStream(1, 1)
	s.before()
	s.value(s.action())
	nd.Reach("end")
}

// ValueCall: expectations of values, of what the test and handlers produce.
func ValueCall() {
	s := newStream(1, 1)
	s.before()
	s.value(s.call(2))
	nd.Reach("end")
}

// ValueAfterCall: what the test itself executes counts only if it does so
// within a Call(), whatever happened before.
func ValueAfterCall() {
	s := newStream(1, 1)
	s.past = true
	switch nd.Pick("earlier", 3) {
	case 0:
		s.test.Expect(s.call(1), &leaf{ok: true})
	case 1:
		s.test.Prepare(s.call(1))
	case 2:
		s.t.silent = true
		s.test.Expect(s.call(1), testkit.ToExecuteCommandType[kit.CmdB]())
	}
	s.past = false
	s.log = nil
	if nd.Flip("call") {
		s.value(s.call(1))
	} else {
		s.value(testkit.ExecuteCommand(command(nd.Pick("executed", 3), nd.Int("n", 0, 3))))
	}
	nd.Reach("end")
}

// ValueSequence: longer streams of one handler.
func ValueSequence() {
	s := newStream(4, 0)
	s.before()
	s.value(testkit.ExecuteCommand(command(mCmdA, 0)))
	nd.Reach("end")
}

// Type: expectations of types.
func Type() {
	s := newStream(1, 1)
	s.before()
	typ := mCmdB + nd.Pick("expected", 5)
	alt := nd.Flip("of-type")
	var e testkit.Expectation
	switch {
	case alt && isCommand(typ):
		e = testkit.ToExecuteCommandOfType(command(typ, 0))
	case alt:
		e = testkit.ToRecordEventOfType(event(typ, 0))
	case typ == mCmdB:
		e = testkit.ToExecuteCommandType[kit.CmdB]()
	case typ == mCmdC:
		e = testkit.ToExecuteCommandType[kit.CmdC]()
	case typ == mEvA:
		e = testkit.ToRecordEventType[kit.EvA]()
	case typ == mEvB:
		e = testkit.ToRecordEventType[kit.EvB]()
	case typ == mEvC:
		e = testkit.ToRecordEventType[kit.EvC]()
	}
	a := s.action()
	if nd.Flip("call") {
		a = s.call(2)
	}
	s.expect(a, e, func() bool {
		for _, p := range s.log {
			if p.typ == typ {
				return true
			}
		}
		return false
	})
	nd.Reach("end")
}

// Comparator: a comparator given to the test decides equality of messages of
// the same type, even if it does not agree that a message equals itself.
func Comparator() {
	strict := nd.Bool("strict")
	equal := func(a, b int) bool {
		return nd.And(a <= b, nd.Or(!strict, a != b))
	}
	s := newStream(2, 1, testkit.WithMessageComparator(func(a, b dogma.Message) bool {
		return equal(kit.Payload(a).N, kit.Payload(b).N)
	}))
	s.before()
	typ, n := mEvA+nd.Pick("expected", 2), nd.Int("expected-n", 0, 3)
	s.expect(testkit.ExecuteCommand(command(mCmdA, 0)), testkit.ToRecordEvent(event(typ, n)), func() bool {
		ok := false
		for _, p := range s.log {
			ok = nd.Or(ok, nd.And(p.typ == typ, equal(p.n, n)))
		}
		return ok
	})
	nd.Reach("end")
}

var errMismatch = errors.New("mismatch")

// judge is a predicate with an arbitrary result for each message.
type judge struct {
	expected []int // numbers of the messages seen, in order
	results  []int
}

// of returns the result for a message: it depends on the number alone.
func (j *judge) of(n int) error {
	j.expected = append(j.expected, n)
	switch n {
	case 0:
		return nil
	case 1:
		return testkit.IgnoreMessage
	}
	return errMismatch
}

// match returns an expectation that judges messages of the type.
func (j *judge) match(typ int, only bool) testkit.Expectation {
	switch {
	case typ == mCmdB && only:
		return testkit.ToOnlyExecuteCommandsMatching(func(m kit.CmdB) error { return j.of(m.N) })
	case typ == mCmdB:
		return testkit.ToExecuteCommandMatching(func(m kit.CmdB) error { return j.of(m.N) })
	case typ == mCmdC && only:
		return testkit.ToOnlyExecuteCommandsMatching(func(m kit.CmdC) error { return j.of(m.N) })
	case typ == mCmdC:
		return testkit.ToExecuteCommandMatching(func(m kit.CmdC) error { return j.of(m.N) })
	case typ == mEvA && only:
		return testkit.ToOnlyRecordEventsMatching(func(m kit.EvA) error { return j.of(m.N) })
	case typ == mEvA:
		return testkit.ToRecordEventMatching(func(m kit.EvA) error { return j.of(m.N) })
	case typ == mEvB && only:
		return testkit.ToOnlyRecordEventsMatching(func(m kit.EvB) error { return j.of(m.N) })
	case typ == mEvB:
		return testkit.ToRecordEventMatching(func(m kit.EvB) error { return j.of(m.N) })
	case only:
		return testkit.ToOnlyRecordEventsMatching(func(m kit.EvC) error { return j.of(m.N) })
	}
	return testkit.ToRecordEventMatching(func(m kit.EvC) error { return j.of(m.N) })
}

// verdict is what the expectation has to conclude from the log.
func (s *stream) verdict(typ int, any, only bool) bool {
	some, all := false, true
	for _, p := range s.log {
		if isCommand(p.typ) != isCommand(typ) || isEvent(p.typ) != isEvent(typ) {
			continue
		}
		if p.typ != typ && !any {
			all = false
			continue
		}
		some = nd.Or(some, p.n == 0)
		all = nd.And(all, p.n <= 1)
	}
	if only {
		return all
	}
	return some
}

func (s *stream) match(a testkit.Action, only bool) {
	j := &judge{}
	typ := mCmdB + nd.Pick("expected", 5)
	s.expect(a, j.match(typ, only), func() bool { return s.verdict(typ, false, only) })
	// The predicate sees messages of its type, in the order in which they
	// were produced.
	i := 0
	for _, p := range s.log {
		if p.typ == typ && i < len(j.expected) {
			nd.Assert(j.expected[i] == p.n, "judged")
			i++
		}
	}
	nd.Assert(i == len(j.expected), "judged-another")
	nd.Reach("end")
}

// Match: at least one message has to match.
func Match() {
	s := newStream(2, 1)
	s.before()
	s.match(testkit.ExecuteCommand(command(mCmdA, 0)), false)
}

// MatchOnly: all messages have to match.
func MatchOnly() {
	s := newStream(2, 1)
	s.before()
	s.match(testkit.ExecuteCommand(command(mCmdA, 0)), true)
}

// MatchCall: messages of the test itself are judged too.
func MatchCall() {
	s := newStream(1, 1)
	s.before()
	s.match(s.call(2), nd.Flip("only"))
}

// MatchInterface: predicates of any command or event.
func MatchInterface() {
	s := newStream(2, 1)
	s.before()
	j := &judge{}
	of := func(m dogma.Message) error { return j.of(kit.Payload(m).N) }
	only := nd.Flip("only")
	var e testkit.Expectation
	typ := mCmdB
	if nd.Flip("event") {
		typ = mEvA
		if only {
			e = testkit.ToOnlyRecordEventsMatching(func(m dogma.Event) error { return of(m) })
		} else {
			e = testkit.ToRecordEventMatching(func(m dogma.Event) error { return of(m) })
		}
	} else if only {
		e = testkit.ToOnlyExecuteCommandsMatching(func(m dogma.Command) error { return of(m) })
	} else {
		e = testkit.ToExecuteCommandMatching(func(m dogma.Command) error { return of(m) })
	}
	s.expect(testkit.ExecuteCommand(command(mCmdA, 0)), e, func() bool { return s.verdict(typ, true, only) })
	nd.Reach("end")
}
