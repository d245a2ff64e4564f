package world

import (
	"context"

	"github.com/dogmatiq/configkit"
	"github.com/dogmatiq/testkit/engine"
	"github.com/dogmatiq/testkit/envelope"
	"github.com/dogmatiq/testkit/fact"
	"github.com/dogmatiq/testkit/internal/zzverif/kit"
	"github.com/dogmatiq/testkit/internal/zzverif/nd"
)

func init() {
	Harnesses["Causality"] = Causality
	Harnesses["CausalityDeep"] = CausalityDeep
}

var handlerTypes = map[string]configkit.HandlerType{
	"agg": configkit.AggregateHandlerType, "agg2": configkit.AggregateHandlerType,
	"int": configkit.IntegrationHandlerType,
	"p1":  configkit.ProcessHandlerType, "p2": configkit.ProcessHandlerType,
	"prj": configkit.ProjectionHandlerType, "prj2": configkit.ProjectionHandlerType,
}

func Causality()     { causality(3) }
func CausalityDeep() { causality(4) }

// lineage keeps the envelopes that are dispatched or reported.
type lineage struct {
	w     *world
	envs  map[int]*envelope.Envelope // by model id
	order []*envelope.Envelope
}

func (l *lineage) see(env *envelope.Envelope) {
	id := kit.Payload(env.Message).N
	if old, ok := l.envs[id]; ok {
		nd.Assert(same(old, env), "envelope-changed")
		return
	}
	l.envs[id] = env
	l.order = append(l.order, env)
}

func (l *lineage) Notify(f fact.Fact) {
	switch f := f.(type) {
	case fact.DispatchCycleBegun:
		l.see(f.Envelope)
	case fact.DispatchBegun:
		l.see(f.Envelope)
	case fact.HandlingBegun:
		l.see(f.Envelope)
	case fact.EventRecordedByAggregate:
		l.see(f.EventEnvelope)
	case fact.EventRecordedByIntegration:
		l.see(f.EventEnvelope)
	case fact.CommandExecutedByProcess:
		l.see(f.CommandEnvelope)
	case fact.TimeoutScheduledByProcess:
		l.see(f.TimeoutEnvelope)
	}
}

// check compares the envelopes with the calls behind them.
func (l *lineage) check() {
	ids := map[string]bool{}
	for _, env := range l.order {
		nd.Assert(env.MessageID != "", "empty-id")
		nd.Assert(!ids[env.MessageID], "duplicate-id")
		ids[env.MessageID] = true
	}
	w := l.w
	for id, m := range w.msgs {
		env := l.envs[id]
		nd.Assert(env != nil, "message-not-reported")
		nd.Assert(typeOf(env.Message) == m.typ, "payload-type")
		nd.Assert(env.CreatedAt.Equal(w.now[m.op]), "created-at")
		if m.parent < 0 {
			nd.Assert(env.CausationID == env.MessageID, "outside-causation")
			nd.Assert(env.CorrelationID == env.MessageID, "outside-correlation")
			nd.Assert(env.Origin == nil, "outside-origin")
			continue
		}
		par := l.envs[m.parent]
		nd.Assert(env.CausationID == par.MessageID, "causation")
		nd.Assert(env.CorrelationID == par.CorrelationID, "correlation")
		nd.Assert(env.Origin != nil, "origin-missing")
		nd.Assert(env.Origin.Handler.Identity().Name == m.by, "origin-handler")
		nd.Assert(env.Origin.HandlerType == handlerTypes[m.by], "origin-type")
		nd.Assert(env.Origin.InstanceID == m.inst, "origin-instance")
		if m.typ == "ToA" {
			nd.Assert(env.ScheduledFor.Equal(m.at), "scheduled-for")
			nd.Reach("timeout")
			if w.msgs[m.parent].typ == "ToA" {
				nd.Reach("timeout-chain")
			}
		}
		if m.op == 2 {
			nd.Reach("caused-by-tick")
		}
		if par.CausationID != par.MessageID {
			nd.Reach("depth2")
		}
	}
}

// causality: two dispatches at arbitrary times and a tick; every envelope that
// is dispatched or reported has exactly the identity of the call behind it.
func causality(budget int) {
	w := newWorld(budget)
	w.timed = true
	w.insts = true
	ctx := context.Background()
	l := &lineage{w: w, envs: map[int]*envelope.Envelope{}}
	for k := 0; k < 2; k++ {
		t := nd.Time("now")
		opts := append(w.startOp(t), engine.WithObserver(l))
		_, m := w.root("CmdA", "EvA")
		nd.Assert(w.e.Dispatch(ctx, m, opts...) == nil, "dispatch-error")
	}
	opts := append(w.startOp(nd.Time("tick")), engine.WithObserver(l))
	nd.Assert(w.e.Tick(ctx, opts...) == nil, "tick-error")
	l.check()
	nd.Trace("messages", len(l.order))
}

func same(a, b *envelope.Envelope) bool {
	return a == b || a.MessageID == b.MessageID && a.CausationID == b.CausationID &&
		a.CorrelationID == b.CorrelationID && a.Message == b.Message &&
		a.CreatedAt.Equal(b.CreatedAt) && a.ScheduledFor.Equal(b.ScheduledFor)
}
