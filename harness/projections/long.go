package projections

import (
	"bytes"
	"context"
	"time"

	"github.com/dogmatiq/configkit"
	"github.com/dogmatiq/dogma"
	"github.com/dogmatiq/testkit/engine"
	"github.com/dogmatiq/testkit/internal/zzverif/kit"
	"github.com/dogmatiq/testkit/internal/zzverif/nd"
)

func init() {
	Harnesses["ProtocolLong"] = ProtocolLong
	Harnesses["IntervalSteady"] = IntervalSteady
	Harnesses["IntervalOdd"] = IntervalOdd
}

// ProtocolLong: many events, of which two are handled in any way; every event
// may also be dispatched from within an operation.
func ProtocolLong() {
	const n = 24
	w := &watch{name: "prj", at: t0}
	odd := [2]int{4, 5 + nd.Pick("gap", 3)*7}
	p := w.proj(kit.Key1, dogma.HandlesEvent[kit.EvA]())
	version, event, closef := p.VersionF, p.EventF, p.CloseF
	var calls []*call
	free := false
	p.VersionF = func(ctx context.Context, r []byte) ([]byte, error) {
		w.cur = &call{}
		for _, c := range calls {
			nd.Assert(!bytes.Equal(r, c.res), "resource-shared-by-events")
		}
		free = len(calls) == odd[0] || len(calls) == odd[1]
		calls = append(calls, w.cur)
		if free {
			return version(ctx, r)
		}
		w.cur.versions++
		w.cur.res = append([]byte(nil), r...)
		return nil, nil
	}
	p.EventF = func(ctx context.Context, r, c, ne []byte, s dogma.ProjectionEventScope, m dogma.Event) (bool, error) {
		if free {
			return event(ctx, r, c, ne, s, m)
		}
		w.cur.handles++
		w.cur.applied = true
		nd.Assert(bytes.Equal(r, w.cur.res) && len(c) == 0 && len(ne) > 0, "resource-of-event")
		return true, nil
	}
	p.CloseF = func(ctx context.Context, r []byte) error {
		if free {
			return closef(ctx, r)
		}
		w.cur.closes++
		nd.Assert(bytes.Equal(r, w.cur.res), "resource-closed")
		return nil
	}
	size := []int{1, 8, 24}[nd.Pick("size", 3)]
	e := engine.MustNew(configkit.FromApplication(&kit.App{Handlers: []any{
		p,
		&kit.Integ{
			Name: "int", Key: kit.Key2,
			Routes: []dogma.IntegrationRoute{dogma.HandlesCommand[kit.CmdA](), dogma.RecordsEvent[kit.EvA]()},
			HandleF: func(_ context.Context, s dogma.IntegrationCommandScope, _ dogma.Command) error {
				for i := 0; i < size; i++ {
					s.RecordEvent(kit.EvA{})
				}
				return nil
			},
		},
	}}))
	for k := 0; k < n; k += size {
		before := len(calls)
		err := e.Dispatch(context.Background(), kit.CmdA{}, engine.WithCurrentTime(t0))
		nd.Assert(len(calls) == before+size, "events-delivered", len(calls), before)
		ok := true
		for _, c := range calls[before:] {
			c.settle(false, err)
			ok = ok && c.ok()
		}
		nd.Assert((err == nil) == ok, "result")
	}
	nd.Reach("end")
}

// steady is a projection that never fails to compact.
func (c *compacted) steady(key string) *kit.Proj {
	p := c.proj(key)
	p.CompactF = func(_ context.Context, s dogma.ProjectionCompactScope) error {
		c.seen++
		c.given = s.Now()
		return nil
	}
	return p
}

// IntervalSteady: many ticks, each the same time after the one before.
func IntervalSteady() {
	c := &compacted{name: "prj"}
	e := engine.MustNew(configkit.FromApplication(&kit.App{Handlers: []any{c.steady(kit.Key1)}}))
	now := nd.Time("first")
	step := time.Duration(nd.Int("step", int(9*time.Minute), int(3*time.Hour)))
	for k := 0; k < 10; k++ {
		var facts kit.Facts
		err := e.Tick(context.Background(), engine.WithCurrentTime(now), engine.WithObserver(&facts))
		nd.Assert(err == nil, "tick-error")
		c.settle(true, now, err, facts.All)
		now = now.Add(step)
	}
	nd.Reach("end")
}

// IntervalOdd: many ticks twenty-five minutes apart, one of which happens at
// any time.
func IntervalOdd() {
	c, d := &compacted{name: "p1"}, &compacted{name: "p2"}
	e := engine.MustNew(configkit.FromApplication(&kit.App{Handlers: []any{c.steady(kit.Key1), d.steady(kit.Key2)}}))
	odd := nd.Pick("odd", 6)
	off := nd.Pick("off", 3)
	for k := 0; k < 10; k++ {
		now := t0.Add(time.Duration(k) * 25 * time.Minute)
		if k == odd {
			now = nd.Time("tick")
		}
		on := k%3 != off
		var facts kit.Facts
		err := e.Tick(context.Background(), engine.WithCurrentTime(now), engine.WithObserver(&facts), engine.EnableHandler("p2", on))
		nd.Assert(err == nil, "tick-error")
		c.settle(true, now, err, facts.All)
		d.settle(on, now, err, facts.All)
	}
	nd.Reach("end")
}
