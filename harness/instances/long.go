package instances

import (
	"context"
	"errors"
	"time"

	"github.com/dogmatiq/configkit"
	"github.com/dogmatiq/dogma"
	"github.com/dogmatiq/testkit/engine"
	"github.com/dogmatiq/testkit/internal/zzverif/kit"
	"github.com/dogmatiq/testkit/internal/zzverif/nd"
)

func init() {
	Harnesses["HistoryLong"] = HistoryLong
	Harnesses["ProcessesLong"] = ProcessesLong
}

// HistoryLong: many commands for three instances, two of which are handled in
// any way.
func HistoryLong() {
	next := 0
	var out, got []int
	la := &ledger{hist: map[string][]int{}, next: &next, out: &out, lax: true}
	script := ""
	e := engine.MustNew(configkit.FromApplication(&kit.App{Handlers: []any{
		aggregate("agg", kit.Key1, dogma.HandlesCommand[kit.CmdA](), dogma.RecordsEvent[kit.EvA](),
			func(r *kit.Root, s dogma.AggregateCommandScope, _ dogma.Command) {
				la.handle(script, r, s, nil)
			}),
		sink(&got, dogma.HandlesEvent[kit.EvA]()),
	}}))
	gap := []int{1, 3, 5}[nd.Pick("gap", 3)]
	for k := 0; k < 14; k++ {
		to := []string{"i", "j", "i", "k"}[k%4]
		script = []string{"R", "RR", "RRRRR", ""}[(k+k/4)%4]
		if k == 7 || k == 7+gap {
			script = scripts[nd.Pick("script", len(scripts))]
			to = nd.Str("to", "i", "j", "k")
		}
		nd.Assert(e.Dispatch(context.Background(), kit.CmdA{P: kit.P{To: to}}, engine.WithCurrentTime(t0)) == nil, "dispatch-error")
		nd.Assert(same(out, got), "events-dispatched", len(out), len(got))
	}
	nd.Reach("end")
}

// ProcessesLong: many events for three instances, two of which are handled in
// any way, then a tick.
func ProcessesLong() {
	num := 0
	var got []int
	b := newBook("proc", &num)
	script := ""
	e := engine.MustNew(configkit.FromApplication(&kit.App{Handlers: []any{
		b.proc(kit.Key1, func() string { return script }),
		commands(&got),
	}}))
	gap := []int{1, 3, 4}[nd.Pick("gap", 3)]
	for k := 0; k < 13; k++ {
		p := kit.P{To: []string{"i", "j", "i", "k"}[k%4]}
		script = []string{"T", "CT", "", "TTT", "IC"}[k%5]
		if k == 7 || k == 7+gap {
			script = []string{"", "TC", "E", "EC", "TE", "CTF", "EI", "TET"}[nd.Pick("script", 8)]
			p.To = nd.Str("to", "i", "j", "k")
		}
		due := len(b.pending)
		err := e.Dispatch(context.Background(), kit.EvA{P: p}, engine.WithCurrentTime(t0))
		nd.Assert(err == nil || errors.Is(err, errFailed), "dispatch-error")
		nd.Assert(same(b.cmds, got), "commands-executed", len(b.cmds), len(got))
		if len(b.pending) > 5 && len(b.pending) < due {
			nd.Reach("many-pending")
		}
	}
	nd.Assert(e.Tick(context.Background(), engine.WithCurrentTime(t0.Add(time.Hour))) == nil, "tick-error")
	nd.Assert(len(b.pending) == 0, "timeout-not-scheduled")
	nd.Reach("end")
}
