package instances

import (
	"context"
	"strings"
	"time"

	"github.com/dogmatiq/configkit"
	"github.com/dogmatiq/dogma"
	"github.com/dogmatiq/testkit/engine"
	"github.com/dogmatiq/testkit/internal/zzverif/kit"
	"github.com/dogmatiq/testkit/internal/zzverif/nd"
)

func init() {
	Harnesses["HistoryNames"] = HistoryNames
	Harnesses["ProcessNames"] = ProcessNames
}

// ids are those of different instances, however alike they look.
var ids = []string{"i", "I", " i", "i ", "ij", " ", strings.Repeat("x", 300) + "y", strings.Repeat("x", 300) + "z", "0", "00", "i\n", "\x00"}

// HistoryNames: commands for instances whose IDs are alike.
func HistoryNames() {
	hist := map[string][]int{}
	n := 0
	e := engine.MustNew(configkit.FromApplication(&kit.App{Handlers: []any{
		aggregate("agg", kit.Key1, dogma.HandlesCommand[kit.CmdA](), dogma.RecordsEvent[kit.EvA](),
			func(r *kit.Root, s dogma.AggregateCommandScope, m dogma.Command) {
				to := kit.Payload(m).To
				nd.Assert(s.InstanceID() == to, "instance")
				nd.Assert(same(r.Log, hist[to]), "root-is-not-the-history", to)
				n++
				if kit.Payload(m).Op == 1 {
					s.Destroy()
					delete(hist, to)
					return
				}
				s.RecordEvent(kit.EvA{P: kit.P{N: n}})
				hist[to] = append(hist[to], n)
			}),
	}}))
	a, b := ids[nd.Pick("one", len(ids))], ids[nd.Pick("other", len(ids))]
	for _, p := range []kit.P{{To: a}, {To: b}, {To: a, Op: nd.Int("destroy", 0, 1)}, {To: b}, {To: a}} {
		nd.Assert(e.Dispatch(context.Background(), kit.CmdA{P: p}, engine.WithCurrentTime(t0)) == nil, "dispatch-error")
	}
	nd.Reach("end")
}

// ProcessNames: events for instances whose IDs are alike.
func ProcessNames() {
	state := map[string][]int{}
	due := map[int]string{}
	n := 0
	e := engine.MustNew(configkit.FromApplication(&kit.App{Handlers: []any{&kit.Proc{
		Name: "proc", Key: kit.Key1,
		Routes: []dogma.ProcessRoute{
			dogma.HandlesEvent[kit.EvA](), dogma.ExecutesCommand[kit.CmdB](), dogma.SchedulesTimeout[kit.ToA](),
		},
		EventF: func(_ context.Context, root dogma.ProcessRoot, s dogma.ProcessEventScope, m dogma.Event) error {
			r, to := root.(*kit.PRoot), kit.Payload(m).To
			nd.Assert(s.InstanceID() == to, "instance")
			nd.Assert(same(r.Log, state[to]), "root-is-not-what-was-left", to)
			if kit.Payload(m).Op == 1 {
				s.End()
				delete(state, to)
				for k, id := range due {
					if id == to {
						delete(due, k)
					}
				}
				return nil
			}
			n++
			r.Log = append(r.Log, n)
			state[to] = append([]int(nil), r.Log...)
			s.ScheduleTimeout(kit.ToA{P: kit.P{N: n}}, t0.Add(time.Hour))
			due[n] = to
			return nil
		},
		TimeoutF: func(_ context.Context, root dogma.ProcessRoot, s dogma.ProcessTimeoutScope, m dogma.Timeout) error {
			to, ok := due[kit.Payload(m).N]
			nd.Assert(ok && to == s.InstanceID(), "timeout-of-nobody", to)
			nd.Assert(same(root.(*kit.PRoot).Log, state[to]), "root-is-not-what-was-left", to)
			delete(due, kit.Payload(m).N)
			return nil
		},
	}, commands(new([]int))}}))
	a, b := ids[nd.Pick("one", len(ids))], ids[nd.Pick("other", len(ids))]
	for _, p := range []kit.P{{To: a}, {To: b}, {To: a, Op: nd.Int("end", 0, 1)}, {To: b}} {
		nd.Assert(e.Dispatch(context.Background(), kit.EvA{P: p}, engine.WithCurrentTime(t0)) == nil, "dispatch-error")
	}
	nd.Assert(e.Tick(context.Background(), engine.WithCurrentTime(t0.Add(time.Hour))) == nil, "tick-error")
	nd.Assert(len(due) == 0, "timeout-lost", len(due))
	nd.Reach("end")
}
