package timeouts

import (
	"context"
	"strings"
	"time"

	"github.com/dogmatiq/configkit"
	"github.com/dogmatiq/dogma"
	"github.com/dogmatiq/testkit/engine"
	"github.com/dogmatiq/testkit/internal/zzverif/kit"
	"github.com/dogmatiq/testkit/internal/zzverif/nd"
)

func init() {
	Harnesses["Names"] = Names
	Harnesses["Extremes"] = Extremes
}

// Names: timeouts of instances and processes whose names are alike.
func Names() {
	t0 := time.Unix(1_000_000, 0).UTC()
	ids := []string{"i", "I", " i", "i ", "ij", strings.Repeat("x", 300) + "y", strings.Repeat("x", 300) + "z", "00"}
	names := []string{"p", "P", "p0"}
	due := map[int]string{} // who has to be given the timeout
	n := 0
	var hs []any
	for i, name := range names {
		hs = append(hs, &kit.Proc{
			Name: name, Key: []string{kit.Key1, kit.Key2, kit.Key3}[i],
			Routes: []dogma.ProcessRoute{
				dogma.HandlesEvent[kit.EvA](), dogma.ExecutesCommand[kit.CmdA](), dogma.SchedulesTimeout[kit.ToA](),
			},
			EventF: func(_ context.Context, _ dogma.ProcessRoot, s dogma.ProcessEventScope, m dogma.Event) error {
				me := name + "/" + kit.Payload(m).To
				if kit.Payload(m).Op == 1+i {
					s.End()
					for k, id := range due {
						if id == me {
							delete(due, k)
						}
					}
					return nil
				}
				n++
				due[n] = me
				s.ScheduleTimeout(kit.ToA{P: kit.P{N: n}}, t0.Add(time.Minute))
				return nil
			},
			TimeoutF: func(_ context.Context, _ dogma.ProcessRoot, s dogma.ProcessTimeoutScope, m dogma.Timeout) error {
				nd.Assert(due[kit.Payload(m).N] == name+"/"+s.InstanceID(), "wrong-instance", name, s.InstanceID())
				delete(due, kit.Payload(m).N)
				return nil
			},
		})
	}
	e := engine.MustNew(configkit.FromApplication(&kit.App{Handlers: hs}))
	ctx := context.Background()
	a, b := ids[nd.Pick("one", len(ids))], ids[nd.Pick("other", len(ids))]
	for _, p := range []kit.P{{To: a}, {To: b}, {To: a, Op: nd.Pick("end", 4)}} {
		nd.Assert(e.Dispatch(ctx, kit.EvA{P: p}, engine.WithCurrentTime(t0)) == nil, "dispatch-error")
	}
	nd.Assert(e.Tick(ctx, engine.WithCurrentTime(t0.Add(time.Hour))) == nil, "tick-error")
	nd.Assert(len(due) == 0, "missing", len(due))
	nd.Reach("end")
}

// Extremes: times that are far from the usual ones or from each other.
func Extremes() {
	times := []time.Time{
		{},
		time.Date(1, 1, 1, 0, 0, 0, 1, time.UTC),
		time.Date(1600, 1, 1, 0, 0, 0, 0, time.UTC),
		time.Unix(0, -1),
		time.Unix(0, 0),
		time.Date(2262, 12, 1, 0, 0, 0, 0, time.FixedZone("somewhere", -7*3600)),
		time.Date(2262, 12, 1, 6, 0, 0, 0, time.UTC),
		time.Date(9999, 12, 31, 23, 59, 59, 999_999_999, time.UTC),
	}
	pick := func(tag string) time.Time { return times[nd.Pick(tag, len(times))] }
	due := []time.Time{pick("one"), pick("two")}
	now, tick := pick("now"), pick("tick")
	nd.Assume(!tick.Before(now))
	handled := []int{0, 0}
	var order []int
	e := engine.MustNew(configkit.FromApplication(&kit.App{Handlers: []any{&kit.Proc{
		Name: "proc", Key: kit.Key1,
		Routes: []dogma.ProcessRoute{
			dogma.HandlesEvent[kit.EvA](), dogma.ExecutesCommand[kit.CmdA](), dogma.SchedulesTimeout[kit.ToA](),
		},
		EventF: func(_ context.Context, _ dogma.ProcessRoot, s dogma.ProcessEventScope, _ dogma.Event) error {
			nd.Assert(s.RecordedAt().Equal(now), "recorded-at")
			for i, t := range due {
				s.ScheduleTimeout(kit.ToA{P: kit.P{N: i}}, t)
			}
			return nil
		},
		TimeoutF: func(_ context.Context, _ dogma.ProcessRoot, s dogma.ProcessTimeoutScope, m dogma.Timeout) error {
			n := kit.Payload(m).N
			nd.Assert(s.ScheduledFor().Equal(due[n]), "scheduled-for")
			handled[n]++
			order = append(order, n)
			return nil
		},
	}}}))
	check := func(at time.Time, label string) {
		for i, t := range due {
			want := 1
			if t.After(at) {
				want = 0
			}
			nd.Assert(handled[i] == want, label, i, handled[i])
		}
	}
	ctx := context.Background()
	nd.Assert(e.Dispatch(ctx, kit.EvA{P: kit.P{To: "i"}}, engine.WithCurrentTime(now)) == nil, "dispatch-error")
	check(now, "at-once")
	if len(order) == 0 {
		nd.Reach("pending")
	}
	first := len(order)
	nd.Assert(e.Tick(ctx, engine.WithCurrentTime(tick)) == nil, "tick-error")
	check(tick, "at-tick")
	if first == 0 && len(order) == 2 {
		nd.Assert(!due[order[1]].Before(due[order[0]]), "order")
	}
	nd.Reach("end")
}
