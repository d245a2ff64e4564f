package tests

import (
	"context"
	"time"

	"github.com/dogmatiq/dogma"
	"github.com/dogmatiq/testkit"
	"github.com/dogmatiq/testkit/engine"
	"github.com/dogmatiq/testkit/fact"
	"github.com/dogmatiq/testkit/internal/zzverif/kit"
	"github.com/dogmatiq/testkit/internal/zzverif/nd"
)

func init() {
	Harnesses["Clock"] = Clock
	Harnesses["ClockBy"] = ClockBy
	Harnesses["ClockMixed"] = ClockMixed
	Harnesses["ClockDeep"] = ClockDeep
	Harnesses["ClockNegative"] = ClockNegative
	Harnesses["ClockTimeout"] = ClockTimeout
	Harnesses["ClockFailing"] = ClockFailing
	Harnesses["ClockExtremes"] = ClockExtremes
}

// clock is a test and the time it has to have reached.
type clock struct {
	w   *world
	now time.Time
}

func newClock() *clock {
	t := nd.Time("start")
	c := &clock{newWorld(testkit.StartTimeAt(t)), t}
	c.w.t.deaf = true
	return c
}

// perform performs the action alone or with an expectation, and returns
// whether it succeeded.
func (c *clock) perform(a testkit.Action) bool {
	c.w.t.clear()
	c.w.t.silent = true
	c.w.facts.All = nil
	if nd.Flip("expect") {
		l := &leaf{ok: true}
		c.w.test.Expect(a, l)
		nd.Assert(len(l.facts) == len(c.w.facts.All), "facts-observed")
	} else {
		c.w.test.Prepare(a)
	}
	return !c.w.t.Failed()
}

// times asserts that every operation happened at the clock's time.
func (c *clock) times(cycles int) {
	n := 0
	for _, f := range c.w.facts.All {
		switch f := f.(type) {
		case fact.DispatchCycleBegun:
			n++
			nd.Assert(f.EngineTime.Equal(c.now), "dispatch-time")
			nd.Assert(f.Envelope.CreatedAt.Equal(c.now), "message-time")
		case fact.TickCycleBegun:
			n++
			nd.Assert(f.EngineTime.Equal(c.now), "tick-time")
		case fact.EventRecordedByAggregate:
			nd.Assert(f.EventEnvelope.CreatedAt.Equal(c.now), "event-time")
		}
	}
	nd.Assert(n == cycles, "number-of-operations", n)
}

// to is an adjustment to an arbitrary time.
type to struct{ t time.Time }

func (a to) Description() string      { return "somewhere" }
func (a to) Step(time.Time) time.Time { return a.t }

func (c *clock) advanceTo(adj testkit.TimeAdjustment, t time.Time) {
	ok := c.perform(testkit.AdvanceTime(adj))
	if t.Before(c.now) {
		nd.Reach("refused")
		nd.Assert(!ok, "backwards")
		c.times(0)
		return
	}
	nd.Reach("advanced")
	nd.Assert(ok, "advance-refused", c.w.t.fatal)
	c.now = t
	c.times(1)
}

func (c *clock) step(kinds int) {
	switch nd.Pick("step", kinds) {
	case 0:
		t := nd.Time("t")
		c.advanceTo(testkit.ToTime(t), t)
	case 1:
		nd.Assert(c.perform(testkit.ExecuteCommand(kit.CmdA{P: kit.P{To: "x"}})), "failed")
		c.times(1)
	case 2:
		x := c.w.test.CommandExecutor()
		nd.Assert(c.perform(testkit.Call(func() {
			for i := 0; i < 2; i++ {
				if x.ExecuteCommand(context.Background(), kit.CmdA{P: kit.P{To: "x"}}) != nil {
					panic("failed")
				}
			}
		})), "failed")
		c.times(2)
	case 3:
		t := nd.Time("t")
		c.advanceTo(to{t}, t)
	case 4:
		d := time.Duration(nd.Int("d", 0, 1<<62))
		c.advanceTo(testkit.ByDuration(d), c.now.Add(d))
	}
}

// Clock: any sequence of three actions.
func Clock() {
	c := newClock()
	for i := 0; i < 3; i++ {
		c.step(4)
	}
	nd.Reach("end")
}

// ClockBy: advancing by durations.
func ClockBy() {
	c := newClock()
	for i := 0; i < 2; i++ {
		d := time.Duration(nd.Int("d", 0, 1<<62))
		c.advanceTo(testkit.ByDuration(d), c.now.Add(d))
	}
	nd.Assert(c.perform(testkit.ExecuteCommand(kit.CmdA{P: kit.P{To: "x"}})), "failed")
	c.times(1)
	nd.Reach("end")
}

// ClockMixed: advancing to times and by durations.
func ClockMixed() {
	c := newClock()
	for i := 0; i < 2; i++ {
		c.step(5)
	}
	nd.Reach("end")
}

// ClockDeep: six times in a row.
func ClockDeep() {
	c := newClock()
	c.w.t.silent = true
	for i := 0; i < 5; i++ {
		t := nd.Time("t")
		c.w.facts.All = nil
		c.w.t.clear()
		c.w.test.Prepare(testkit.AdvanceTime(testkit.ToTime(t)))
		ok := !t.Before(c.now)
		nd.Assert(c.w.t.Failed() == !ok, "backwards")
		if ok {
			c.now = t
			c.times(1)
		} else {
			c.times(0)
		}
	}
	nd.Assert(c.perform(testkit.ExecuteCommand(kit.CmdA{P: kit.P{To: "x"}})), "failed")
	c.times(1)
	nd.Reach("end")
}

// ClockNegative: negative durations are refused outright.
func ClockNegative() {
	c := newClock()
	d := time.Duration(nd.Int("d", -1<<62, 1<<62))
	panicked, _ := kit.Panics(func() { testkit.ByDuration(d) })
	nd.Assert(panicked == (d < 0), "negative-duration")
	nd.Assert(c.perform(testkit.ExecuteCommand(kit.CmdA{P: kit.P{To: "x"}})), "failed")
	c.times(1)
	nd.Reach("end")
}

// ClockFailing: the clock has moved even if the tick fails.
func ClockFailing() {
	c := newClock()
	fail := false
	c.w.app.Handlers = append(c.w.app.Handlers, &kit.Proj{
		Name: "proj", Key: kit.Key2,
		Routes: []dogma.ProjectionRoute{dogma.HandlesEvent[kit.EvA]()},
		CompactF: func(context.Context, dogma.ProjectionCompactScope) error {
			if fail {
				return errAction
			}
			return nil
		},
	})
	c.w.test = testkit.Begin(c.w.t, c.w.app, testkit.StartTimeAt(c.now),
		testkit.WithUnsafeOperationOptions(engine.WithObserver(c.w.facts), engine.EnableProjections(true)))
	t := nd.Time("t")
	nd.Assume(!t.Before(c.now))
	fail = nd.Flip("fail")
	nd.Assert(c.perform(testkit.AdvanceTime(testkit.ToTime(t))) == !fail, "tick-error")
	c.now = t
	c.times(1)
	fail = false
	nd.Assert(c.perform(testkit.ExecuteCommand(kit.CmdA{P: kit.P{To: "x"}})), "failed")
	c.times(1)
	u := nd.Time("u")
	c.advanceTo(testkit.ToTime(u), u)
	nd.Reach("end")
}

// ClockTimeout: timeouts are delivered by the action that reaches them.
func ClockTimeout() {
	start, due := nd.Time("start"), nd.Time("due")
	delivered := 0
	t := &tt{silent: true, deaf: true}
	facts := &kit.Facts{}
	test := testkit.Begin(t, &kit.App{Handlers: []any{
		&kit.Proc{
			Name: "proc", Key: kit.Key1,
			Routes: []dogma.ProcessRoute{
				dogma.HandlesEvent[kit.EvA](),
				dogma.ExecutesCommand[kit.CmdA](),
				dogma.SchedulesTimeout[kit.ToA](),
			},
			EventF: func(_ context.Context, _ dogma.ProcessRoot, s dogma.ProcessEventScope, _ dogma.Event) error {
				s.ScheduleTimeout(kit.ToA{P: kit.P{To: "x"}}, due)
				return nil
			},
			TimeoutF: func(_ context.Context, _ dogma.ProcessRoot, s dogma.ProcessTimeoutScope, _ dogma.Timeout) error {
				delivered++
				nd.Assert(s.ScheduledFor().Equal(due), "scheduled-for")
				return nil
			},
		},
		&kit.Integ{
			Name: "integ", Key: kit.Key2,
			Routes: []dogma.IntegrationRoute{dogma.HandlesCommand[kit.CmdA]()},
		},
	}}, testkit.StartTimeAt(start), testkit.WithUnsafeOperationOptions(engine.WithObserver(facts)))
	test.Prepare(testkit.RecordEvent(kit.EvA{P: kit.P{To: "x"}}))
	now, reached := start, false
	for i := 0; i < 2; i++ {
		at := nd.Time("t")
		nd.Assume(!at.Before(now))
		test.Prepare(testkit.AdvanceTime(testkit.ToTime(at)))
		now = at
		if !at.Before(due) {
			reached = true
		}
		nd.Assert((delivered == 1) == reached, "delivered", delivered)
	}
	if reached {
		nd.Reach("delivered")
	}
	nd.Assert(!t.Failed(), "failed")
	nd.Reach("end")
}

// ClockExtremes: times that are far from the usual ones or from each other.
func ClockExtremes() {
	times := []time.Time{
		{},
		time.Date(1, 1, 1, 0, 0, 0, 1, time.UTC),
		time.Date(1600, 1, 1, 0, 0, 0, 0, time.UTC),
		time.Unix(0, -1),
		time.Unix(0, 0),
		time.Date(2262, 12, 1, 0, 0, 0, 0, time.FixedZone("somewhere", -7*3600)),
		time.Date(9999, 12, 31, 23, 59, 59, 999_999_999, time.UTC),
	}
	t := times[nd.Pick("start", len(times))]
	c := &clock{newWorld(testkit.StartTimeAt(t)), t}
	c.w.t.deaf = true
	for i := 0; i < 2; i++ {
		nd.Assert(c.perform(testkit.ExecuteCommand(kit.CmdA{P: kit.P{To: "x"}})), "failed")
		c.times(1)
		switch nd.Pick("how", 2) {
		case 0:
			t := times[nd.Pick("to", len(times))]
			c.advanceTo(testkit.ToTime(t), t)
		case 1:
			d := []time.Duration{0, 1, 1<<63 - 1}[nd.Pick("by", 3)]
			c.advanceTo(testkit.ByDuration(d), c.now.Add(d))
		}
	}
	nd.Reach("end")
}
