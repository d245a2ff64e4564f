package timeouts

import (
	"context"
	"time"

	"github.com/dogmatiq/configkit"
	"github.com/dogmatiq/dogma"
	"github.com/dogmatiq/testkit/engine"
	"github.com/dogmatiq/testkit/internal/zzverif/kit"
	"github.com/dogmatiq/testkit/internal/zzverif/nd"
)

func init() {
	Harnesses["Many"] = Many
}

// Many: two instances have many timeouts, of which one is due at any time; one
// of the instances may end before a tick at any time.
func Many() {
	const n = 18
	t0 := time.Unix(1_000_000, 0).UTC()
	var at [n]time.Time
	var inst [n]string
	spread := nd.Pick("spread", 3)
	for i := range at {
		k := (i*7 + 3) % n
		switch spread {
		case 1:
			k = n - i
		case 2:
			k = 1 + i/5 // several at the same time
		}
		at[i] = t0.Add(time.Duration(1+k) * time.Minute)
		inst[i] = []string{"a", "b"}[i%3%2]
	}
	special := nd.Pick("special", 2) * 11
	at[special] = nd.Time("at")
	nd.Assume(at[special].After(t0))
	victim := ""
	if nd.Flip("end") {
		victim = "a"
	}
	var count [n]int
	var got []int
	p := &kit.Proc{
		Name: "proc", Key: kit.Key1,
		Routes: []dogma.ProcessRoute{
			dogma.HandlesEvent[kit.EvA](),
			dogma.HandlesEvent[kit.EvB](),
			dogma.ExecutesCommand[kit.CmdA](),
			dogma.SchedulesTimeout[kit.ToA](),
		},
		EventF: func(_ context.Context, _ dogma.ProcessRoot, s dogma.ProcessEventScope, m dogma.Event) error {
			if _, ok := m.(kit.EvB); ok {
				s.End()
				return nil
			}
			for i := kit.Payload(m).N; i < n && i < kit.Payload(m).N+6; i++ {
				if inst[i] == s.InstanceID() {
					s.ScheduleTimeout(kit.ToA{P: kit.P{N: i}}, at[i])
				}
			}
			return nil
		},
		TimeoutF: func(_ context.Context, _ dogma.ProcessRoot, s dogma.ProcessTimeoutScope, m dogma.Timeout) error {
			i := kit.Payload(m).N
			nd.Assert(s.InstanceID() == inst[i], "wrong-instance")
			nd.Assert(s.ScheduledFor().Equal(at[i]), "scheduled-for")
			count[i]++
			got = append(got, i)
			return nil
		},
	}
	e := engine.MustNew(configkit.FromApplication(&kit.App{Handlers: []any{p}}))
	ctx := context.Background()
	for i := 0; i < n; i += 6 {
		for _, to := range []string{"a", "b"} {
			nd.Assert(e.Dispatch(ctx, kit.EvA{P: kit.P{To: to, N: i}}, engine.WithCurrentTime(t0)) == nil, "dispatch-error")
		}
	}
	if victim != "" {
		nd.Assert(e.Dispatch(ctx, kit.EvB{P: kit.P{To: victim}}, engine.WithCurrentTime(t0)) == nil, "dispatch-error")
	}
	nd.Assert(len(got) == 0, "early")
	last := t0
	for k := 0; k < 2; k++ {
		tick := nd.Time("tick")
		if k == 1 {
			tick = t0.Add(15 * time.Minute)
		}
		nd.Assume(!tick.Before(last))
		last = tick
		got = nil
		nd.Assert(e.Tick(ctx, engine.WithCurrentTime(tick)) == nil, "tick-error")
		for i := range at {
			switch {
			case inst[i] == victim:
				nd.Assert(count[i] == 0, "timeout-of-ended-instance")
			case count[i] == 0:
				nd.Assert(at[i].After(tick), "missing")
			default:
				nd.Assert(count[i] == 1, "duplicate")
				nd.Assert(!at[i].After(tick), "early")
			}
		}
		for j := 1; j < len(got); j++ {
			nd.Assert(!at[got[j]].Before(at[got[j-1]]), "tick-order")
		}
		if len(got) > 10 {
			nd.Reach("many")
		}
	}
	nd.Reach("end")
}
