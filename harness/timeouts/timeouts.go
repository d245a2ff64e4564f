// Package timeouts: delivery of process timeouts.
package timeouts

import (
	"context"
	"time"

	"github.com/dogmatiq/configkit"
	"github.com/dogmatiq/dogma"
	"github.com/dogmatiq/testkit/engine"
	"github.com/dogmatiq/testkit/internal/zzverif/kit"
	"github.com/dogmatiq/testkit/internal/zzverif/nd"
)

var Harnesses = map[string]func(){
	"TickOrder": TickOrder,
	"Identical": Identical,
}

// Identical: timeouts that do not differ, perhaps not even in their times, are
// as many.
func Identical() {
	var at [3]time.Time
	for i := range at {
		at[i] = nd.Time("at")
	}
	now, tick := nd.Time("now"), nd.Time("tick")
	nd.Assume(!tick.Before(now))
	got := 0
	e := engine.MustNew(configkit.FromApplication(&kit.App{Handlers: []any{&kit.Proc{
		Name: "proc", Key: kit.Key1,
		Routes: []dogma.ProcessRoute{
			dogma.HandlesEvent[kit.EvA](),
			dogma.ExecutesCommand[kit.CmdA](),
			dogma.SchedulesTimeout[kit.ToA](),
		},
		EventF: func(_ context.Context, _ dogma.ProcessRoot, s dogma.ProcessEventScope, m dogma.Event) error {
			n := kit.Payload(m).N
			s.ScheduleTimeout(kit.ToA{}, at[n])
			if n == 0 {
				s.ScheduleTimeout(kit.ToA{}, at[1])
			}
			return nil
		},
		TimeoutF: func(context.Context, dogma.ProcessRoot, dogma.ProcessTimeoutScope, dogma.Timeout) error {
			got++
			return nil
		},
	}}}))
	ctx := context.Background()
	check := func(now time.Time) {
		due := 0
		for _, t := range at {
			if !t.After(now) {
				due++
			}
		}
		nd.Assert(got == due, "times-handled", got, due)
	}
	for _, n := range []int{0, 2} {
		nd.Assert(e.Dispatch(ctx, kit.EvA{P: kit.P{To: "i", N: n}}, engine.WithCurrentTime(now)) == nil, "dispatch-error")
	}
	check(now)
	nd.Assert(e.Tick(ctx, engine.WithCurrentTime(tick)) == nil, "tick-error")
	check(tick)
	nd.Reach("end")
}

// TickOrder: one instance schedules three timeouts at arbitrary times; two
// ticks at arbitrary times deliver each exactly when due, in order.
func TickOrder() {
	t := [3]time.Time{nd.Time("t0"), nd.Time("t1"), nd.Time("t2")}
	now := nd.Time("now")
	tick := nd.Time("tick")
	tick2 := nd.Time("tick2")
	nd.Assume(!tick.Before(now))
	nd.Assume(!tick2.Before(tick))
	var got []int
	var at []time.Time
	p := &kit.Proc{
		Name: "proc", Key: kit.Key1,
		Routes: []dogma.ProcessRoute{
			dogma.HandlesEvent[kit.EvA](),
			dogma.ExecutesCommand[kit.CmdA](),
			dogma.SchedulesTimeout[kit.ToA](),
		},
		EventF: func(_ context.Context, _ dogma.ProcessRoot, s dogma.ProcessEventScope, m dogma.Event) error {
			for i := range t {
				s.ScheduleTimeout(kit.ToA{P: kit.P{N: i}}, t[i])
			}
			return nil
		},
		TimeoutF: func(_ context.Context, _ dogma.ProcessRoot, s dogma.ProcessTimeoutScope, m dogma.Timeout) error {
			got = append(got, kit.Payload(m).N)
			at = append(at, s.ScheduledFor())
			return nil
		},
	}
	e := engine.MustNew(configkit.FromApplication(&kit.App{Handlers: []any{p}}))
	ctx := context.Background()
	if err := e.Dispatch(ctx, kit.EvA{P: kit.P{To: "i"}}, engine.WithCurrentTime(now)); err != nil {
		nd.Assert(false, "dispatch-error")
	}
	check := func(label string, upto time.Time) {
		seen := [3]int{}
		for k, i := range got {
			seen[i]++
			nd.Assert(!t[i].After(upto), label+"-early")
			nd.Assert(at[k].Equal(t[i]), label+"-scheduled-for")
		}
		for i := range t {
			nd.Assert(seen[i] <= 1, label+"-duplicate")
			if seen[i] == 0 {
				nd.Assert(t[i].After(upto), label+"-missing")
			}
		}
	}
	check("dispatch", now)
	n := len(got)
	if err := e.Tick(ctx, engine.WithCurrentTime(tick)); err != nil {
		nd.Assert(false, "tick-error")
	}
	check("tick", tick)
	for k := n + 1; k < len(got); k++ {
		nd.Assert(!at[k].Before(at[k-1]), "tick-order")
	}
	n = len(got)
	if err := e.Tick(ctx, engine.WithCurrentTime(tick2)); err != nil {
		nd.Assert(false, "tick2-error")
	}
	check("tick2", tick2)
	for k := n + 1; k < len(got); k++ {
		nd.Assert(!at[k].Before(at[k-1]), "tick2-order")
	}
	nd.Reach("end")
	nd.Trace("got", len(got))
	for _, i := range got {
		nd.Trace("i", i)
	}
}
