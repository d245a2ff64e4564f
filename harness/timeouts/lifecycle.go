package timeouts

import (
	"context"
	"errors"
	"time"

	"github.com/dogmatiq/configkit"
	"github.com/dogmatiq/dogma"
	"github.com/dogmatiq/testkit/engine"
	"github.com/dogmatiq/testkit/internal/zzverif/kit"
	"github.com/dogmatiq/testkit/internal/zzverif/nd"
)

func init() {
	Harnesses["Lifecycle3"] = Lifecycle3
	Harnesses["Lifecycle4"] = Lifecycle4
	Harnesses["Restart"] = Restart
	Harnesses["TwoProcesses"] = TwoProcesses
	Harnesses["Nested"] = Nested
	Harnesses["WithinOne"] = WithinOne
}

func Lifecycle3() { lifecycle(3) }
func Lifecycle4() { lifecycle(4) }

// timeout is the model's view of one scheduled timeout.
type timeout struct {
	inst      string
	at        time.Time
	pending   bool // waiting, instance alive
	void      bool // never to be delivered
	delivered int
	to        string // instance it was delivered to
}

// lifecycle: any sequence of events over two instances, each event scheduling
// a timeout at an arbitrary time, ending the instance, or failing, followed by
// ticks at arbitrary times.
func lifecycle(steps int) {
	var ts []*timeout
	var op int
	var at time.Time
	var got []int
	p := &kit.Proc{
		Name: "proc", Key: kit.Key1,
		Routes: []dogma.ProcessRoute{
			dogma.HandlesEvent[kit.EvA](),
			dogma.ExecutesCommand[kit.CmdA](),
			dogma.SchedulesTimeout[kit.ToA](),
		},
		EventF: func(_ context.Context, _ dogma.ProcessRoot, s dogma.ProcessEventScope, m dogma.Event) error {
			if op == 1 || op == 2 || op == 4 {
				s.ScheduleTimeout(kit.ToA{P: kit.P{N: len(ts) - 1}}, at)
			}
			if op == 2 || op == 3 {
				s.End()
			}
			if op == 4 {
				return errFailed
			}
			return nil
		},
		TimeoutF: func(_ context.Context, _ dogma.ProcessRoot, s dogma.ProcessTimeoutScope, m dogma.Timeout) error {
			n := kit.Payload(m).N
			ts[n].delivered++
			ts[n].to = s.InstanceID()
			got = append(got, n)
			nd.Assert(s.ScheduledFor().Equal(ts[n].at), "scheduled-for")
			return nil
		},
	}
	e := engine.MustNew(configkit.FromApplication(&kit.App{Handlers: []any{p}}))
	ctx := context.Background()
	settle := func(now time.Time, before []int) {
		for i, t := range ts {
			due := !t.at.After(now)
			fired := t.delivered - before[i]
			if t.void || before[i] > 0 {
				nd.Assert(fired == 0, "voided-or-repeated-timeout")
				continue
			}
			if !t.pending {
				nd.Assert(fired == 0, "timeout-of-ended-instance")
				continue
			}
			nd.Assert(fired <= 1, "duplicate")
			if fired == 1 {
				nd.Assert(due, "early")
				nd.Assert(t.to == t.inst, "wrong-instance")
				t.pending = false
			} else {
				nd.Assert(!due, "missing")
			}
		}
	}
	counts := func() []int {
		r := make([]int, len(ts))
		for i, t := range ts {
			r[i] = t.delivered
		}
		return r
	}
	for k := 0; k < steps; k++ {
		op = nd.Pick("op", 6)
		now := nd.Time("now")
		before := counts()
		got = nil
		if op == 5 {
			if e.Tick(ctx, engine.WithCurrentTime(now)) != nil {
				nd.Assert(false, "tick-error")
			}
			for i := 1; i < len(got); i++ {
				nd.Assert(!ts[got[i]].at.Before(ts[got[i-1]].at), "tick-order")
			}
			settle(now, before)
			nd.Reach("tick")
			continue
		}
		inst := nd.Str("inst", "a", "b")
		var fresh *timeout
		if op == 1 || op == 2 || op == 4 {
			at = nd.Time("at")
			fresh = &timeout{inst: inst, at: at, void: op != 1}
			ts = append(ts, fresh)
			before = append(before, 0)
		}
		err := e.Dispatch(ctx, kit.EvA{P: kit.P{To: inst}}, engine.WithCurrentTime(now))
		nd.Assert((err != nil) == (op == 4), "dispatch-result")
		if op == 2 || op == 3 {
			for _, t := range ts {
				if t.pending && t.inst == inst {
					t.pending = false
					nd.Reach("cancelled")
				}
			}
		}
		// a dispatch delivers only what it scheduled itself
		for i, t := range ts {
			if t != fresh {
				nd.Assert(t.delivered == before[i], "delivered-by-unrelated-dispatch")
			}
		}
		if fresh != nil {
			if op != 1 {
				nd.Assert(fresh.delivered == 0, "delivered-although-ended-or-failed")
			} else if fresh.delivered > 0 {
				nd.Assert(fresh.delivered == 1, "duplicate")
				nd.Assert(!at.After(now), "early")
				nd.Assert(fresh.to == inst, "wrong-instance")
				nd.Reach("immediate")
			} else {
				nd.Assert(at.After(now), "missing")
				fresh.pending = true
			}
		}
	}
	for k := 0; k < 2; k++ {
		now := nd.Time("now")
		before := counts()
		got = nil
		if e.Tick(ctx, engine.WithCurrentTime(now)) != nil {
			nd.Assert(false, "tick-error")
		}
		for i := 1; i < len(got); i++ {
			nd.Assert(!ts[got[i]].at.Before(ts[got[i-1]].at), "tick-order")
		}
		if len(got) > 1 {
			nd.Reach("several-due")
		}
		settle(now, before)
		for _, i := range got {
			nd.Trace("got", i)
		}
	}
	nd.Reach("end")
}

var errFailed = errors.New("failed")

// TwoProcesses: two process handlers that schedule the same timeout type, with
// instances of the same name; a timeout only ever reaches its own handler.
func TwoProcesses() {
	nd.MapOrders()
	type key struct{ proc, n int }
	at := [4]time.Time{}
	for i := range at {
		at[i] = nd.Time("at")
	}
	now := nd.Time("now")
	tick := nd.Time("tick")
	nd.Assume(!tick.Before(now))
	got := map[key]int{}
	var order [2][]int
	mk := func(i int, name, id string, h dogma.ProcessRoute) *kit.Proc {
		return &kit.Proc{
			Name: name, Key: id,
			Routes: []dogma.ProcessRoute{
				h,
				dogma.ExecutesCommand[kit.CmdA](),
				dogma.SchedulesTimeout[kit.ToA](),
			},
			EventF: func(_ context.Context, _ dogma.ProcessRoot, s dogma.ProcessEventScope, m dogma.Event) error {
				s.ScheduleTimeout(kit.ToA{P: kit.P{Op: i, N: 0}}, at[2*i])
				s.ScheduleTimeout(kit.ToA{P: kit.P{Op: i, N: 1}}, at[2*i+1])
				return nil
			},
			TimeoutF: func(_ context.Context, _ dogma.ProcessRoot, s dogma.ProcessTimeoutScope, m dogma.Timeout) error {
				p := kit.Payload(m)
				nd.Assert(p.Op == i, "wrong-process")
				nd.Assert(s.InstanceID() == "x", "wrong-instance")
				got[key{i, p.N}]++
				order[i] = append(order[i], p.N)
				return nil
			},
		}
	}
	same := nd.Flip("same-event")
	h2 := dogma.ProcessRoute(dogma.HandlesEvent[kit.EvB]())
	if same {
		h2 = dogma.HandlesEvent[kit.EvA]()
	}
	e := engine.MustNew(configkit.FromApplication(&kit.App{Handlers: []any{
		mk(0, "p0", kit.Key1, dogma.HandlesEvent[kit.EvA]()),
		mk(1, "p1", kit.Key2, h2),
	}}))
	ctx := context.Background()
	if e.Dispatch(ctx, kit.EvA{P: kit.P{To: "x"}}, engine.WithCurrentTime(now)) != nil {
		nd.Assert(false, "dispatch-error")
	}
	if !same {
		if e.Dispatch(ctx, kit.EvB{P: kit.P{To: "x"}}, engine.WithCurrentTime(now)) != nil {
			nd.Assert(false, "dispatch-error")
		}
	}
	check := func(label string, now time.Time) {
		for i := range at {
			n := got[key{i / 2, i % 2}]
			nd.Assert(n <= 1, label+"-duplicate")
			if n == 1 {
				nd.Assert(!at[i].After(now), label+"-early")
			} else {
				nd.Assert(at[i].After(now), label+"-missing")
			}
		}
	}
	check("dispatch", now)
	n := [2]int{len(order[0]), len(order[1])}
	if e.Tick(ctx, engine.WithCurrentTime(tick)) != nil {
		nd.Assert(false, "tick-error")
	}
	check("tick", tick)
	for i := range order {
		if o := order[i][n[i]:]; len(o) == 2 {
			nd.Assert(!at[2*i+o[1]].Before(at[2*i+o[0]]), "tick-order")
			nd.Reach("both-due")
		}
	}
	nd.Reach("end")
	nd.Trace("n", len(order[0]), len(order[1]))
}

// Nested: a timeout handler schedules another timeout, ends its instance or
// fails; later timeouts of an ended instance are never handled.
func Nested() {
	at := [3]time.Time{}
	for i := range at {
		at[i] = nd.Time("at")
	}
	now := nd.Time("now")
	tick := nd.Time("tick")
	tick2 := nd.Time("tick")
	nd.Assume(!tick.Before(now))
	nd.Assume(!tick2.Before(tick))
	act := [2]int{nd.Pick("act", 4), nd.Pick("act", 4)} // none, schedule, end, fail
	count := [4]int{}
	ended := false
	var order []int
	scheduled := -1
	at3 := nd.Time("at3")
	p := &kit.Proc{
		Name: "proc", Key: kit.Key1,
		Routes: []dogma.ProcessRoute{
			dogma.HandlesEvent[kit.EvA](),
			dogma.ExecutesCommand[kit.CmdA](),
			dogma.SchedulesTimeout[kit.ToA](),
		},
		EventF: func(_ context.Context, _ dogma.ProcessRoot, s dogma.ProcessEventScope, m dogma.Event) error {
			for i := range at {
				s.ScheduleTimeout(kit.ToA{P: kit.P{N: i}}, at[i])
			}
			return nil
		},
		TimeoutF: func(_ context.Context, _ dogma.ProcessRoot, s dogma.ProcessTimeoutScope, m dogma.Timeout) error {
			n := kit.Payload(m).N
			nd.Assert(!ended, "handled-after-end")
			count[n]++
			order = append(order, n)
			if n < 2 {
				switch act[n] {
				case 1:
					if scheduled == -1 {
						scheduled = n
						s.ScheduleTimeout(kit.ToA{P: kit.P{N: 3}}, at3)
					}
				case 2:
					s.End()
					ended = true
				case 3:
					return errFailed
				}
			}
			return nil
		},
	}
	e := engine.MustNew(configkit.FromApplication(&kit.App{Handlers: []any{p}}))
	ctx := context.Background()
	check := func(label string, now time.Time, err error) {
		for i := range count {
			nd.Assert(count[i] <= 1, label+"-duplicate")
			t := at3
			if i < 3 {
				t = at[i]
			} else if scheduled == -1 {
				nd.Assert(count[3] == 0, label+"-unscheduled")
				continue
			}
			if count[i] == 1 {
				nd.Assert(!t.After(now), label+"-early")
			} else if !ended {
				nd.Assert(t.After(now), label+"-missing")
			}
		}
	}
	err := e.Dispatch(ctx, kit.EvA{P: kit.P{To: "i"}}, engine.WithCurrentTime(now))
	check("dispatch", now, err)
	err = e.Tick(ctx, engine.WithCurrentTime(tick))
	check("tick", tick, err)
	err = e.Tick(ctx, engine.WithCurrentTime(tick2))
	check("tick2", tick2, err)
	if ended {
		nd.Reach("ended")
	}
	if count[3] == 1 {
		nd.Reach("nested-delivered")
	}
	nd.Reach("end")
	for _, i := range order {
		nd.Trace("got", i)
	}
}

// WithinOne: the events of one operation schedule timeouts and end instances,
// which may be begun again before a timeout that is due has its turn.
func WithinOne() {
	const n = 4
	now := nd.Time("now")
	var at [n]time.Time
	var inst [n]string
	var op [n]int // none, schedule, end, schedule and end
	for i := range at {
		at[i] = nd.Time("at")
		inst[i] = "i"
		if i == 1 {
			inst[i] = nd.Str("inst", "i", "j")
		}
		op[i] = nd.Pick("op", 4)
	}
	life := map[string]int{} // number of times the instance ended
	born := [n]int{}
	var count [n]int
	k := 0
	p := &kit.Proc{
		Name: "proc", Key: kit.Key1,
		Routes: []dogma.ProcessRoute{
			dogma.HandlesEvent[kit.EvA](),
			dogma.ExecutesCommand[kit.CmdB](),
			dogma.SchedulesTimeout[kit.ToA](),
		},
		EventF: func(_ context.Context, _ dogma.ProcessRoot, s dogma.ProcessEventScope, m dogma.Event) error {
			i := kit.Payload(m).N
			k++
			born[i] = life[inst[i]]
			if op[i]&1 != 0 {
				s.ScheduleTimeout(kit.ToA{P: kit.P{N: i}}, at[i])
			}
			if op[i]&2 != 0 {
				s.End()
				life[inst[i]]++
			}
			return nil
		},
		TimeoutF: func(_ context.Context, _ dogma.ProcessRoot, s dogma.ProcessTimeoutScope, m dogma.Timeout) error {
			i := kit.Payload(m).N
			nd.Assert(k == n, "out-of-turn")
			nd.Assert(s.InstanceID() == inst[i], "wrong-instance")
			nd.Assert(born[i] == life[inst[i]], "timeout-of-ended-instance")
			count[i]++
			return nil
		},
	}
	e := engine.MustNew(configkit.FromApplication(&kit.App{Handlers: []any{p, &kit.Integ{
		Name: "int", Key: kit.Key2,
		Routes: []dogma.IntegrationRoute{dogma.HandlesCommand[kit.CmdA](), dogma.RecordsEvent[kit.EvA]()},
		HandleF: func(_ context.Context, s dogma.IntegrationCommandScope, _ dogma.Command) error {
			for i := range at {
				s.RecordEvent(kit.EvA{P: kit.P{To: inst[i], N: i}})
			}
			return nil
		},
	}}}))
	check := func(now time.Time) {
		for i := range at {
			nd.Assert(count[i] <= 1, "duplicate")
			switch {
			case op[i] != 1:
			case born[i] != life[inst[i]]:
				nd.Assert(count[i] == 0, "timeout-of-ended-instance")
				nd.Reach("gone")
			case count[i] == 1:
				nd.Assert(!at[i].After(now), "early")
				nd.Reach("kept")
			default:
				nd.Assert(at[i].After(now), "missing")
			}
		}
	}
	ctx := context.Background()
	nd.Assert(e.Dispatch(ctx, kit.CmdA{}, engine.WithCurrentTime(now)) == nil, "dispatch-error")
	check(now)
	tick := nd.Time("tick")
	nd.Assume(!tick.Before(now))
	nd.Assert(e.Tick(ctx, engine.WithCurrentTime(tick)) == nil, "tick-error")
	check(tick)
	nd.Reach("end")
}

// Restart: two instances schedule timeouts, one of them ends and may be begun
// again; its old timeouts are gone for good, those of the other remain.
func Restart() {
	const n = 3
	var at [n]time.Time
	var inst [n]string
	for i := range at {
		at[i] = nd.Time("at")
		inst[i] = nd.Str("inst", "a", "b")
	}
	now := nd.Time("now")
	tick := nd.Time("tick")
	nd.Assume(!tick.Before(now))
	for i := range at {
		nd.Assume(at[i].After(now))
	}
	victim := nd.Str("victim", "a", "b")
	again := nd.Flip("again")
	byTimeout := nd.Flip("by-timeout")
	var count [n]int
	var order []int
	p := &kit.Proc{
		Name: "proc", Key: kit.Key1,
		Routes: []dogma.ProcessRoute{
			dogma.HandlesEvent[kit.EvA](),
			dogma.HandlesEvent[kit.EvB](),
			dogma.HandlesEvent[kit.EvC](),
			dogma.ExecutesCommand[kit.CmdA](),
			dogma.SchedulesTimeout[kit.ToA](),
		},
		EventF: func(_ context.Context, _ dogma.ProcessRoot, s dogma.ProcessEventScope, m dogma.Event) error {
			switch m := m.(type) {
			case kit.EvA:
				s.ScheduleTimeout(kit.ToA{P: kit.P{N: m.N}}, at[m.N])
			case kit.EvB:
				if byTimeout {
					s.ScheduleTimeout(kit.ToA{P: kit.P{N: n}}, now)
				} else {
					s.End()
				}
			}
			return nil
		},
		TimeoutF: func(_ context.Context, _ dogma.ProcessRoot, s dogma.ProcessTimeoutScope, m dogma.Timeout) error {
			i := kit.Payload(m).N
			if i == n {
				s.End()
				return nil
			}
			nd.Assert(s.InstanceID() == inst[i], "wrong-instance")
			count[i]++
			order = append(order, i)
			return nil
		},
	}
	e := engine.MustNew(configkit.FromApplication(&kit.App{Handlers: []any{p}}))
	ctx := context.Background()
	do := func(m dogma.Event) {
		if e.Dispatch(ctx, m, engine.WithCurrentTime(now)) != nil {
			nd.Assert(false, "dispatch-error")
		}
	}
	for i := range at {
		do(kit.EvA{P: kit.P{To: inst[i], N: i}})
	}
	do(kit.EvB{P: kit.P{To: victim}})
	if again {
		do(kit.EvC{P: kit.P{To: victim}})
		nd.Reach("again")
	}
	for i := range at {
		nd.Assert(count[i] == 0, "early")
	}
	if e.Tick(ctx, engine.WithCurrentTime(tick)) != nil {
		nd.Assert(false, "tick-error")
	}
	for i := range at {
		nd.Assert(count[i] <= 1, "duplicate")
		if inst[i] == victim {
			nd.Assert(count[i] == 0, "timeout-of-ended-instance")
			nd.Reach("gone")
		} else if count[i] == 1 {
			nd.Assert(!at[i].After(tick), "early")
			nd.Reach("kept")
		} else {
			nd.Assert(at[i].After(tick), "missing")
		}
	}
	for k := 1; k < len(order); k++ {
		nd.Assert(!at[order[k]].Before(at[order[k-1]]), "tick-order")
	}
	for _, i := range order {
		nd.Trace("got", i)
	}
}
