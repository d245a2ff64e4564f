package world

import (
	"context"
	"time"

	"github.com/dogmatiq/dogma"
	"github.com/dogmatiq/testkit/engine"
	"github.com/dogmatiq/testkit/internal/zzverif/kit"
	"github.com/dogmatiq/testkit/internal/zzverif/nd"
)

func init() {
	Harnesses["Route"] = Route
	Harnesses["RouteDeep"] = RouteDeep
	Harnesses["RouteTick"] = RouteTick
	Harnesses["Refuse"] = Refuse
}

var t0 = time.Unix(1_000_000, 0).UTC()

func Route()     { route(3) }
func RouteDeep() { route(4) }

// route: every delivery of two operations follows the routing rules in FIFO
// order, whatever the handlers produce.
func route(budget int) {
	nd.MapOrders()
	w := newWorld(budget)
	w.swaps = true
	ctx := context.Background()
	for k := 0; k < 2; k++ {
		opts := w.startOp(t0)
		id, m := w.root("CmdA", "CmdB", "EvA", "EvC")
		from := len(w.log)
		err := w.e.Dispatch(ctx, m, opts...)
		nd.Assert(err == nil, "dispatch-error", err)
		w.delivered(from, []int{id}, nil)
	}
	nd.Reach("end")
	if len(w.log) > 5 {
		nd.Reach("fan-out")
	}
	nd.Trace("calls", len(w.log))
}

// RouteTick: timeouts released by a tick, and everything they cause, are
// delivered like any other message of one operation.
func RouteTick() {
	w := newWorld(4)
	w.timed = true
	w.swaps = true
	ctx := context.Background()
	opts := w.startOp(t0)
	id, m := w.root("EvA", "EvC")
	nd.Assert(w.e.Dispatch(ctx, m, opts...) == nil, "dispatch-error")
	w.delivered(0, []int{id}, nil)
	pending := []int{}
	for i, m := range w.msgs {
		if m.typ == "ToA" && !m.ready {
			pending = append(pending, i)
		}
	}
	nd.Assume(len(pending) > 0)
	nd.AllMapOrders()
	t1 := nd.Time("tick")
	nd.Assume(!t1.Before(t0))
	opts = w.startOp(t1)
	from := len(w.log)
	nd.Assert(w.e.Tick(ctx, opts...) == nil, "tick-error")
	// the order in which different processes are ticked is not determined
	var due []int
	for _, v := range w.log[from:] {
		if w.msgs[v.id].op == 0 {
			due = append(due, v.id)
		}
	}
	n := 0
	for _, id := range pending {
		if !w.msgs[id].at.After(t1) {
			n++
		}
	}
	nd.Assert(len(due) == n, "due-timeouts", len(due), n)
	w.delivered(from, due, nil)
	if n > 1 {
		nd.Reach("several")
	}
	nd.Reach("end")
}

// Refuse: a message that is invalid, has no consumer or may not come from
// outside is refused before any handler sees it; any other is accepted.
func Refuse() {
	w := newWorld(1)
	ctx := context.Background()
	for k := 0; k < 2; k++ {
		opts := w.startOp(t0)
		var facts kit.Facts
		opts = append(opts, engine.WithObserver(&facts))
		bad := nd.Bool("bad")
		p := kit.P{N: len(w.msgs), To: "i", Bad: bad}
		var m dogma.Message
		refuse := bad
		typ := ""
		switch nd.Pick("type", 8) {
		case 0:
			m, typ = kit.CmdA{P: p}, "CmdA"
		case 1:
			m, typ = kit.CmdB{P: p}, "CmdB"
		case 2:
			m, typ = kit.EvA{P: p}, "EvA"
		case 3:
			m, typ = kit.EvC{P: p}, "EvC"
		case 4:
			m, refuse = kit.CmdX{P: p}, true
		case 5:
			m, refuse = kit.EvX{P: p}, true
		case 6:
			m, refuse = kit.ToA{P: p}, true
		case 7:
			m, refuse = kit.ToX{P: p}, true
		}
		id := len(w.msgs)
		w.msgs = append(w.msgs, &msg{typ: typ, parent: -1, op: w.op, kept: true})
		from := len(w.log)
		panicked, _ := kit.Panics(func() {
			nd.Assert(w.e.Dispatch(ctx, m, opts...) == nil, "dispatch-error")
		})
		nd.Assert(nd.Iff(panicked, refuse), "refusal", typ, panicked)
		if panicked {
			nd.Assert(len(w.log) == from, "refused-message-delivered")
			nd.Assert(len(facts.All) == 0, "refused-message-reported")
			nd.Reach("refused")
		} else {
			w.delivered(from, []int{id}, nil)
			nd.Reach("accepted")
		}
	}
}
