package instances

import (
	"context"
	"time"

	"github.com/dogmatiq/configkit"
	"github.com/dogmatiq/dogma"
	"github.com/dogmatiq/testkit/engine"
	"github.com/dogmatiq/testkit/internal/zzverif/kit"
	"github.com/dogmatiq/testkit/internal/zzverif/nd"
)

func init() {
	Harnesses["AggregateMisuse"] = AggregateMisuse
	Harnesses["ProcessMisuse"] = ProcessMisuse
	Harnesses["TimeoutMisuse"] = TimeoutMisuse
	Harnesses["IntegrationMisuse"] = IntegrationMisuse
	Harnesses["ProjectionMisuse"] = ProjectionMisuse
	Harnesses["PanicMutation"] = PanicMutation
	Harnesses["OutsideMisuse"] = OutsideMisuse
}

// boom is the application's own panic value.
type boom struct{ n int }

// touchyRoot is an aggregate root that panics when told to.
type touchyRoot struct {
	log []int
	bad func(n int)
}

func (r *touchyRoot) ApplyEvent(e dogma.Event) {
	n := kit.Payload(e).N
	r.bad(n)
	r.log = append(r.log, n)
}

// expectPanic runs an operation that must panic with a value of the class:
// "value" (the application's own, unchanged), "behavior" or "message".
func expectPanic(class string, own any, h, method string, m dogma.Message, f func()) {
	panicked, v := kit.Panics(f)
	nd.Assert(panicked, "misuse-not-reported", class, method)
	if class == "value" {
		nd.Assert(v == own, "panic-value-changed")
		nd.Reach("value")
		return
	}
	hc, ok := nd.Field(v, "Handler").(configkit.RichHandler)
	nd.Assert(ok && hc.Identity().Name == h, "panic-handler", h)
	nd.Assert(nd.Field(v, "Method") == any(method), "panic-method", method)
	if m != nil {
		nd.Assert(nd.Field(v, "Message") == any(m), "panic-message", method)
	}
	if class == "message" {
		nd.Assert(nd.Field(v, "Description") == nil, "panic-class")
		nd.Reach("message")
	} else {
		nd.Assert(nd.Field(v, "Description") != nil, "panic-class")
		nd.Reach("behavior")
	}
}

// AggregateMisuse: an aggregate misbehaves between well-behaved commands.
func AggregateMisuse() {
	own := &boom{1}
	kind := -1
	num := 0
	hist := map[string][]int{}
	var out, got []int
	applyBad := -1 // event that must not be applied
	var applyWith any
	agg := &kit.Agg{
		Name: "agg", Key: kit.Key1,
		Routes: []dogma.AggregateRoute{
			dogma.HandlesCommand[kit.CmdA](), dogma.RecordsEvent[kit.EvA](),
		},
		NewF: func() dogma.AggregateRoot {
			if kind == 0 {
				return nil
			}
			return &touchyRoot{bad: func(n int) {
				if n == applyBad {
					panic(applyWith)
				}
			}}
		},
		RouteF: func(m dogma.Command) string {
			switch kind {
			case 1:
				return ""
			case 2:
				panic(own)
			case 3:
				panic(dogma.UnexpectedMessage)
			}
			return kit.Payload(m).To
		},
		HandleF: func(root dogma.AggregateRoot, s dogma.AggregateCommandScope, m dogma.Command) {
			r := root.(*touchyRoot)
			id := s.InstanceID()
			nd.Assert(same(r.log, hist[id]), "history-changed", kind)
			if kind >= 0 {
				// arbitrary legal actions first
				switch nd.Pick("first", 4) {
				case 1:
					s.RecordEvent(kit.EvA{P: kit.P{N: 1000}})
				case 2:
					s.Destroy()
				case 3:
					s.Destroy()
					s.RecordEvent(kit.EvA{P: kit.P{N: 1000}})
				}
			}
			switch kind {
			case 4:
				panic(own)
			case 5:
				panic(dogma.UnexpectedMessage)
			case 6:
				s.RecordEvent(kit.EvX{})
			case 7:
				s.RecordEvent(kit.EvA{P: kit.P{Bad: true}})
			case 8, 9:
				applyBad = 2000
				s.RecordEvent(kit.EvA{P: kit.P{N: 2000}})
			}
			num++
			s.RecordEvent(kit.EvA{P: kit.P{N: num}})
			hist[id] = append(hist[id], num)
			out = append(out, num)
		},
	}
	e := engine.MustNew(configkit.FromApplication(&kit.App{Handlers: []any{
		agg, sink(&got, dogma.HandlesEvent[kit.EvA]()),
	}}))
	do := func(m kit.CmdA) {
		nd.Assert(e.Dispatch(context.Background(), m, engine.WithCurrentTime(t0)) == nil, "dispatch-error")
	}
	if nd.Flip("existing") {
		do(kit.CmdA{P: kit.P{To: "i"}})
		nd.Reach("existing")
	}
	for round := 0; round < 2; round++ {
		m := kit.CmdA{P: kit.P{To: nd.Str("to", "i", "j"), N: 77}}
		kind = nd.Pick("kind", 12)
		class, method := "behavior", "HandleCommand"
		var about dogma.Message = m
		switch kind {
		case 0:
			method = "New"
		case 1:
			method = "RouteCommandToInstance"
		case 2, 4:
			class = "value"
		case 3:
			class, method = "message", "RouteCommandToInstance"
		case 5:
			class = "message"
		case 8:
			class, applyWith = "value", own
		case 9:
			class, method, applyWith = "message", "ApplyEvent", dogma.UnexpectedMessage
			about = kit.EvA{P: kit.P{N: 2000}}
		case 10, 11:
			// applying the history fails
			h := hist[m.To]
			nd.Assume(len(h) > 0)
			applyBad = h[0]
			about = kit.EvA{P: kit.P{N: h[0]}}
			class, method, applyWith = "message", "ApplyEvent", dogma.UnexpectedMessage
			if kind == 11 {
				class, applyWith = "value", own
			}
			nd.Reach("replay")
		}
		expectPanic(class, own, "agg", method, about, func() { do(m) })
		applyBad = -1
		kind = -1
		do(kit.CmdA{P: kit.P{To: "i"}})
		do(kit.CmdA{P: kit.P{To: "j"}})
		nd.Assert(same(out, got), "events-dispatched")
	}
	nd.Reach("end")
}

// ProcessMisuse: a process misbehaves between well-behaved events.
func ProcessMisuse() {
	own := &boom{1}
	kind := -1
	num := 0
	b := newBook("proc", &num)
	var got []int
	proc := b.proc(kit.Key1, func() string { return "CT" })
	good := proc.EventF
	proc.NewF = func() dogma.ProcessRoot {
		if kind == 0 {
			return nil
		}
		return &kit.PRoot{}
	}
	proc.RouteF = func(m dogma.Event) (string, bool, error) {
		switch kind {
		case 1:
			return "", true, nil
		case 2:
			panic(own)
		case 3:
			panic(dogma.UnexpectedMessage)
		}
		return kit.Payload(m).To, true, nil
	}
	proc.EventF = func(ctx context.Context, r dogma.ProcessRoot, s dogma.ProcessEventScope, m dogma.Event) error {
		if kind < 0 {
			return good(ctx, r, s, m)
		}
		nd.Assert(same(r.(*kit.PRoot).Log, b.state[s.InstanceID()]), "root-is-not-what-was-left")
		switch nd.Pick("first", 5) {
		case 1:
			s.ExecuteCommand(kit.CmdB{P: kit.P{N: 1000}})
		case 2:
			s.ScheduleTimeout(kit.ToA{P: kit.P{N: 1000}}, t0.Add(time.Minute))
		case 3:
			s.ScheduleTimeout(kit.ToA{P: kit.P{N: 1000}}, t0)
		case 4:
			s.End()
		}
		switch kind {
		case 4:
			panic(own)
		case 5:
			panic(dogma.UnexpectedMessage)
		case 6:
			s.ExecuteCommand(kit.CmdX{})
		case 7:
			s.ExecuteCommand(kit.CmdB{P: kit.P{Bad: true}})
		case 8:
			s.ScheduleTimeout(kit.ToX{}, t0)
		case 9:
			s.ScheduleTimeout(kit.ToA{P: kit.P{Bad: true}}, t0)
		}
		return nil
	}
	e := engine.MustNew(configkit.FromApplication(&kit.App{Handlers: []any{proc, commands(&got)}}))
	do := func(m kit.EvA) {
		nd.Assert(e.Dispatch(context.Background(), m, engine.WithCurrentTime(t0)) == nil, "dispatch-error")
	}
	if nd.Flip("existing") {
		do(kit.EvA{P: kit.P{To: "i"}})
		nd.Reach("existing")
	}
	for round := 0; round < 2; round++ {
		m := kit.EvA{P: kit.P{To: nd.Str("to", "i", "j"), N: 77}}
		kind = nd.Pick("kind", 10)
		class, method := "behavior", "HandleEvent"
		switch kind {
		case 0:
			method = "New"
			_, exists := b.state[m.To]
			nd.Assume(!exists)
		case 1:
			method = "RouteEventToInstance"
		case 2, 4:
			class = "value"
		case 3:
			class, method = "message", "RouteEventToInstance"
		case 5:
			class = "message"
		}
		expectPanic(class, own, "proc", method, m, func() { do(m) })
		kind = -1
		if nd.Flip("continue") {
			do(kit.EvA{P: kit.P{To: "i"}})
			do(kit.EvA{P: kit.P{To: "j"}})
		}
		nd.Assert(same(b.cmds, got), "commands-executed", len(b.cmds), len(got))
	}
	nd.Assert(e.Tick(context.Background(), engine.WithCurrentTime(t0.Add(time.Hour))) == nil, "tick-error")
	nd.Assert(len(b.pending) == 0, "timeout-lost")
	nd.Reach("end")
}

// TimeoutMisuse: a process misbehaves when it handles a timeout during a tick.
func TimeoutMisuse() {
	own := &boom{1}
	num := 0
	b := newBook("proc", &num)
	var got []int
	script := "T"
	proc := b.proc(kit.Key1, func() string { return script })
	kind := nd.Pick("kind", 5)
	var about dogma.Message
	bad := true
	proc.TimeoutF = func(_ context.Context, r dogma.ProcessRoot, s dogma.ProcessTimeoutScope, m dogma.Timeout) error {
		id := s.InstanceID()
		nd.Assert(same(r.(*kit.PRoot).Log, b.state[id]), "root-is-not-what-was-left")
		if !bad {
			nd.Assert(kit.Payload(m).N != 1000, "timeout-of-failed-handling")
			return nil
		}
		about = m
		switch nd.Pick("first", 5) {
		case 1:
			s.ExecuteCommand(kit.CmdB{P: kit.P{N: 1000}})
		case 2:
			s.ScheduleTimeout(kit.ToA{P: kit.P{N: 1000}}, t0.Add(90*time.Minute))
		case 3:
			s.ScheduleTimeout(kit.ToA{P: kit.P{N: 1000}}, t0)
		case 4:
			s.End()
		}
		switch kind {
		case 0:
			panic(own)
		case 1:
			panic(dogma.UnexpectedMessage)
		case 2:
			s.ExecuteCommand(kit.CmdX{})
		case 3:
			s.ScheduleTimeout(kit.ToX{}, t0)
		case 4:
			s.ScheduleTimeout(kit.ToA{P: kit.P{Bad: true}}, t0)
		}
		return nil
	}
	e := engine.MustNew(configkit.FromApplication(&kit.App{Handlers: []any{proc, commands(&got)}}))
	at := t0.Add(time.Hour)
	do := func(to string) {
		nd.Assert(e.Dispatch(context.Background(), kit.EvA{P: kit.P{To: to}}, engine.WithCurrentTime(t0)) == nil, "dispatch-error")
	}
	do("i")
	class := "behavior"
	if kind == 0 {
		class = "value"
	} else if kind == 1 {
		class = "message"
	}
	panicked, v := kit.Panics(func() { _ = e.Tick(context.Background(), engine.WithCurrentTime(at)) })
	expectPanic(class, own, "proc", "HandleTimeout", about, func() {
		if panicked {
			panic(v)
		}
	})
	bad = false
	script = "C"
	do("i")
	do("j")
	nd.Assert(same(b.cmds, got), "commands-executed")
	nd.Assert(e.Tick(context.Background(), engine.WithCurrentTime(at.Add(time.Hour))) == nil, "tick-error")
	nd.Reach("end")
}

// IntegrationMisuse: the same for an integration.
func IntegrationMisuse() {
	own := &boom{1}
	kind := -1
	num := 0
	var out, got []int
	e := engine.MustNew(configkit.FromApplication(&kit.App{Handlers: []any{
		&kit.Integ{
			Name: "int", Key: kit.Key1,
			Routes: []dogma.IntegrationRoute{dogma.HandlesCommand[kit.CmdA](), dogma.RecordsEvent[kit.EvA]()},
			HandleF: func(_ context.Context, s dogma.IntegrationCommandScope, m dogma.Command) error {
				if kind >= 0 && nd.Flip("first") {
					s.RecordEvent(kit.EvA{P: kit.P{N: 1000}})
				}
				switch kind {
				case 0:
					panic(own)
				case 1:
					panic(dogma.UnexpectedMessage)
				case 2:
					s.RecordEvent(kit.EvX{})
				case 3:
					s.RecordEvent(kit.EvA{P: kit.P{Bad: true}})
				}
				num++
				s.RecordEvent(kit.EvA{P: kit.P{N: num}})
				out = append(out, num)
				return nil
			},
		},
		sink(&got, dogma.HandlesEvent[kit.EvA]()),
	}}))
	m := kit.CmdA{P: kit.P{To: "i", N: 77}}
	do := func() {
		nd.Assert(e.Dispatch(context.Background(), m, engine.WithCurrentTime(t0)) == nil, "dispatch-error")
	}
	for round := 0; round < 2; round++ {
		kind = nd.Pick("kind", 4)
		class := "behavior"
		if kind == 0 {
			class = "value"
		} else if kind == 1 {
			class = "message"
		}
		expectPanic(class, own, "int", "HandleCommand", m, do)
		kind = -1
		do()
		nd.Assert(same(out, got), "events-dispatched")
	}
	nd.Reach("end")
}

// ProjectionMisuse: the same for a projection, also while it is compacted.
func ProjectionMisuse() {
	own := &boom{1}
	kind := -1
	handled, compacted := 0, 0
	at := func(k int) {
		if kind == k {
			panic(own)
		}
	}
	e := engine.MustNew(configkit.FromApplication(&kit.App{Handlers: []any{
		&kit.Proj{
			Name: "proj", Key: kit.Key1,
			Routes:   []dogma.ProjectionRoute{dogma.HandlesEvent[kit.EvA]()},
			VersionF: func(context.Context, []byte) ([]byte, error) { at(0); return nil, nil },
			EventF: func(context.Context, []byte, []byte, []byte, dogma.ProjectionEventScope, dogma.Event) (bool, error) {
				at(1)
				if kind == 4 {
					panic(dogma.UnexpectedMessage)
				}
				handled++
				return true, nil
			},
			CloseF:   func(context.Context, []byte) error { at(2); return nil },
			CompactF: func(context.Context, dogma.ProjectionCompactScope) error { at(3); compacted++; return nil },
		},
	}}))
	m := kit.EvA{P: kit.P{To: "i", N: 77}}
	now := t0
	do := func() {
		if kind == 3 {
			nd.Assert(e.Tick(context.Background(), engine.WithCurrentTime(now)) == nil, "tick-error")
		} else {
			nd.Assert(e.Dispatch(context.Background(), m, engine.WithCurrentTime(now)) == nil, "dispatch-error")
		}
	}
	for round := 0; round < 2; round++ {
		kind = nd.Pick("kind", 5)
		class := "value"
		if kind == 4 {
			class = "message"
		}
		expectPanic(class, own, "proj", "HandleEvent", m, do)
		kind = -1
		n := handled
		do()
		nd.Assert(handled == n+1, "event-not-handled")
		now = now.Add(2 * time.Hour)
		n = compacted
		nd.Assert(e.Tick(context.Background(), engine.WithCurrentTime(now)) == nil, "tick-error")
		nd.Assert(compacted == n+1, "not-compacted")
		now = now.Add(2 * time.Hour)
	}
	nd.Reach("end")
}

// PanicMutation: what a process handler did to the root before it panicked is
// undone.
func PanicMutation() {
	own := &boom{1}
	n := 0
	e := engine.MustNew(configkit.FromApplication(&kit.App{Handlers: []any{&kit.Proc{
		Name: "proc", Key: kit.Key1,
		Routes: []dogma.ProcessRoute{dogma.HandlesEvent[kit.EvA](), dogma.ExecutesCommand[kit.CmdB]()},
		EventF: func(_ context.Context, root dogma.ProcessRoot, s dogma.ProcessEventScope, _ dogma.Event) error {
			r := root.(*kit.PRoot)
			n++
			if n == 3 {
				nd.Assert(len(r.Log) == 1, "mutation-of-panicking-handler-kept")
			}
			r.Log = append(r.Log, 1)
			if n == 2 {
				panic(own)
			}
			return nil
		},
	}, commands(new([]int))}}))
	for k := 0; k < 3; k++ {
		panicked, _ := kit.Panics(func() {
			_ = e.Dispatch(context.Background(), kit.EvA{P: kit.P{To: "i"}}, engine.WithCurrentTime(t0))
		})
		nd.Assert(panicked == (k == 1), "panic")
	}
}

// OutsideMisuse: messages that must not be dispatched, between good ones.
func OutsideMisuse() {
	num := 0
	b := newBook("proc", &num)
	var got []int
	var facts kit.Facts
	e := engine.MustNew(configkit.FromApplication(&kit.App{Handlers: []any{
		b.proc(kit.Key1, func() string { return "CT" }), commands(&got),
	}}))
	for round := 0; round < 3; round++ {
		p := kit.P{To: nd.Str("to", "i", "j")}
		bad := p
		bad.Bad = true
		var m dogma.Message
		good := false
		switch nd.Pick("message", 7) {
		case 0:
			m = kit.CmdX{P: p}
		case 1:
			m = kit.EvX{P: p}
		case 2:
			m = kit.EvA{P: bad}
		case 3:
			m = kit.CmdB{P: bad}
		case 4:
			m = kit.ToA{P: p}
		case 5:
			m = nil
		case 6:
			m, good = kit.EvA{P: p}, true
			nd.Reach("good")
		}
		facts.All = nil
		var err error
		panicked, _ := kit.Panics(func() {
			err = e.Dispatch(context.Background(), m, engine.WithCurrentTime(t0), engine.WithObserver(&facts))
		})
		nd.Assert(err == nil, "dispatch-error")
		nd.Assert(panicked == !good, "misuse-not-reported")
		nd.Assert(good || len(facts.All) == 0, "refused-message-has-an-effect")
		nd.Assert(same(b.cmds, got), "commands-executed")
	}
	nd.Assert(e.Tick(context.Background(), engine.WithCurrentTime(t0.Add(time.Hour))) == nil, "tick-error")
	nd.Assert(len(b.pending) == 0, "timeout-lost")
	nd.Reach("end")
}
