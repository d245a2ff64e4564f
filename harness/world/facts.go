package world

import (
	"context"
	"errors"

	"github.com/dogmatiq/configkit"
	"github.com/dogmatiq/dogma"
	"github.com/dogmatiq/testkit/engine"
	"github.com/dogmatiq/testkit/envelope"
	"github.com/dogmatiq/testkit/fact"
	"github.com/dogmatiq/testkit/internal/zzverif/kit"
	"github.com/dogmatiq/testkit/internal/zzverif/nd"
)

func init() {
	Harnesses["Brackets"] = Brackets
	Harnesses["BracketsTwice"] = BracketsTwice
	Harnesses["BracketsTick"] = BracketsTick
	Harnesses["BracketsCancelled"] = BracketsCancelled
}

// sum is what a fact says.
type sum struct {
	kind  string
	h     string
	env   *envelope.Envelope
	out   *envelope.Envelope
	err   error
	line  any
	calls int // handler calls that had begun when the fact was reported
}

type stream struct {
	w   *world
	all []sum
}

func (s *stream) Notify(f fact.Fact) {
	x := summary(f)
	x.calls = len(s.w.log)
	s.all = append(s.all, x)
}

func name(h configkit.Handler) string { return h.Identity().Name }

func arg(f string, v []any) any {
	nd.Assert(f == "line %d" && len(v) == 1, "log-line-altered")
	return v[0]
}

func summary(f fact.Fact) sum {
	switch f := f.(type) {
	case fact.DispatchCycleBegun:
		return sum{kind: "cycle", env: f.Envelope}
	case fact.DispatchCycleCompleted:
		return sum{kind: "/cycle", env: f.Envelope, err: f.Error}
	case fact.TickCycleBegun:
		return sum{kind: "cycle"}
	case fact.TickCycleCompleted:
		return sum{kind: "/cycle", err: f.Error}
	case fact.TickBegun:
		return sum{kind: "tick", h: name(f.Handler)}
	case fact.TickCompleted:
		return sum{kind: "/tick", h: name(f.Handler), err: f.Error}
	case fact.DispatchBegun:
		return sum{kind: "msg", env: f.Envelope}
	case fact.DispatchCompleted:
		return sum{kind: "/msg", env: f.Envelope, err: f.Error}
	case fact.HandlingBegun:
		return sum{kind: "handle", h: name(f.Handler), env: f.Envelope}
	case fact.HandlingCompleted:
		return sum{kind: "/handle", h: name(f.Handler), env: f.Envelope, err: f.Error}
	case fact.HandlingSkipped:
		return sum{kind: "skip", h: name(f.Handler), env: f.Envelope}
	case fact.TickSkipped:
		return sum{kind: "skip", h: name(f.Handler)}
	case fact.ProjectionCompactionBegun:
		return sum{kind: "compact", h: name(f.Handler)}
	case fact.ProjectionCompactionCompleted:
		return sum{kind: "/compact", h: name(f.Handler), err: f.Error}

	case fact.EventRecordedByAggregate:
		return sum{kind: "out", h: name(f.Handler), env: f.Envelope, out: f.EventEnvelope}
	case fact.EventRecordedByIntegration:
		return sum{kind: "out", h: name(f.Handler), env: f.Envelope, out: f.EventEnvelope}
	case fact.CommandExecutedByProcess:
		return sum{kind: "out", h: name(f.Handler), env: f.Envelope, out: f.CommandEnvelope}
	case fact.TimeoutScheduledByProcess:
		return sum{kind: "out", h: name(f.Handler), env: f.Envelope, out: f.TimeoutEnvelope}
	case fact.MessageLoggedByAggregate:
		return sum{kind: "log", h: name(f.Handler), env: f.Envelope, line: arg(f.LogFormat, f.LogArguments)}
	case fact.MessageLoggedByIntegration:
		return sum{kind: "log", h: name(f.Handler), env: f.Envelope, line: arg(f.LogFormat, f.LogArguments)}
	case fact.MessageLoggedByProcess:
		return sum{kind: "log", h: name(f.Handler), env: f.Envelope, line: arg(f.LogFormat, f.LogArguments)}
	case fact.MessageLoggedByProjection:
		return sum{kind: "log", h: name(f.Handler), env: f.Envelope, line: arg(f.LogFormat, f.LogArguments)}

	case fact.AggregateInstanceLoaded:
		return sum{kind: "life", h: name(f.Handler), env: f.Envelope}
	case fact.AggregateInstanceNotFound:
		return sum{kind: "life", h: name(f.Handler), env: f.Envelope}
	case fact.AggregateInstanceCreated:
		return sum{kind: "life", h: name(f.Handler), env: f.Envelope}
	case fact.ProcessInstanceLoaded:
		return sum{kind: "life", h: name(f.Handler), env: f.Envelope}
	case fact.ProcessInstanceNotFound:
		return sum{kind: "life", h: name(f.Handler), env: f.Envelope}
	case fact.ProcessInstanceBegun:
		return sum{kind: "life", h: name(f.Handler), env: f.Envelope}
	}
	return sum{kind: "other"}
}

type parser struct {
	w    *world
	rest []sum
	call int // next handler call
}

func (p *parser) next(kind string) sum {
	nd.Assert(len(p.rest) > 0, "fact-missing", kind)
	x := p.rest[0]
	p.rest = p.rest[1:]
	nd.Assert(x.kind == kind, "fact-order", "expected", kind, "got", x.kind, x.h)
	return x
}

func (p *parser) peek() string {
	if len(p.rest) == 0 {
		return ""
	}
	return p.rest[0].kind
}

// messages parses the brackets of messages and handlers.
func (p *parser) messages() {
	for p.peek() == "msg" {
		m := p.next("msg")
		id := kit.Payload(m.env.Message).N
		var errs []error
		n := 0
		for p.peek() == "handle" {
			h := p.next("handle")
			nd.Assert(h.env == m.env, "handler-in-wrong-message")
			nd.Assert(h.calls == p.call, "begun-fact-late")
			nd.Assert(p.call < len(p.w.log), "bracket-without-call")
			v := p.w.log[p.call]
			nd.Assert(v.h == h.h && v.id == id, "bracket-of-other-call", v.h, h.h)
			p.call++
			k := 0
			for {
				for p.peek() == "life" {
					x := p.next("life")
					nd.Assert(x.h == h.h && x.env == m.env, "fact-in-wrong-bracket")
				}
				if p.peek() != "out" && p.peek() != "log" {
					break
				}
				x := p.rest[0]
				p.rest = p.rest[1:]
				nd.Assert(x.h == h.h && x.env == m.env, "fact-in-wrong-bracket")
				nd.Assert(k < len(v.acts), "action-reported-twice")
				a := v.acts[k]
				k++
				if x.kind == "out" {
					nd.Assert(a.out >= 0 && kit.Payload(x.out.Message).N == a.out, "action-order")
				} else {
					nd.Assert(a.out < 0 && x.line == a.log, "action-order")
					nd.Reach("log")
				}
			}
			nd.Assert(k == len(v.acts), "action-not-reported")
			e := p.next("/handle")
			nd.Assert(e.h == h.h && e.env == m.env, "bracket-mismatch")
			nd.Assert(e.calls == p.call, "completed-fact-misplaced")
			if v.err != nil {
				nd.Assert(errors.Is(e.err, v.err), "handler-error")
				errs = append(errs, v.err)
			} else {
				nd.Assert(e.err == nil, "handler-error")
			}
			n++
		}
		nd.Assert(n == len(p.w.targets(id)), "handler-brackets")
		e := p.next("/msg")
		nd.Assert(e.env == m.env, "bracket-mismatch")
		p.contains(e.err, errs, "message-error")
	}
}

func (p *parser) contains(err error, errs []error, label string) {
	nd.Assert((err == nil) == (len(errs) == 0), label)
	for _, e := range errs {
		nd.Assert(errors.Is(err, e), label)
	}
	if len(errs) > 1 {
		nd.Reach("several-errors")
	}
}

// triplets are three observers of the same operations.
func (w *world) triplets() ([]*stream, []engine.OperationOption) {
	a, b, c := &stream{w: w}, &stream{w: w}, &stream{w: w}
	return []*stream{a, b, c}, []engine.OperationOption{
		engine.WithObserver(a), engine.WithObserver(b), engine.WithObserver(c),
	}
}

// equal checks that all observers were told the same, and returns one.
func equal(ss []*stream) *stream {
	for _, s := range ss[1:] {
		nd.Assert(len(s.all) == len(ss[0].all), "observers-differ")
		for i := range s.all {
			nd.Assert(s.all[i] == ss[0].all[i], "observers-differ")
		}
	}
	return ss[0]
}

// dispatched checks the facts of a dispatch.
func (w *world) dispatched(a *stream, from, id int, err error) {
	p := &parser{w: w, rest: a.all, call: from}
	c := p.next("cycle")
	nd.Assert(c.calls == from, "begun-fact-late")
	nd.Assert(kit.Payload(c.env.Message).N == id, "cycle-of-other-message")
	p.messages()
	e := p.next("/cycle")
	nd.Assert(e.env == c.env && e.err == err, "cycle-completion")
	nd.Assert(len(p.rest) == 0, "facts-after-completion")
	nd.Assert(p.call == len(w.log), "call-without-bracket")
}

func Brackets()      { brackets(1, 3, 2) }
func BracketsTwice() { brackets(2, 2, 1) }

func brackets(ops, budget, fails int) {
	w := failing(budget, fails)
	w.logs = true
	for k := 0; k < ops; k++ {
		opts := w.startOp(t0)
		id, m := w.root("CmdA", "CmdB", "EvA", "EvC")
		from := len(w.log)
		ss, more := w.triplets()
		err := w.e.Dispatch(context.Background(), m, append(opts, more...)...)
		w.delivered(from, []int{id}, nil)
		w.dispatched(equal(ss), from, id, err)
	}
	nd.Reach("end")
}

// BracketsCancelled: the context is cancelled before the operation or by any
// handler call.
func BracketsCancelled() {
	w := newWorld(2)
	w.logs = true
	w.cancels = 1
	ctx, cancel := context.WithCancel(context.Background())
	w.cancel = cancel
	if nd.Flip("before") {
		w.cancels = 0
		cancel()
		nd.Reach("before")
	}
	opts := w.startOp(t0)
	id, m := w.root("CmdA", "EvA", "EvC")
	ss, more := w.triplets()
	err := w.e.Dispatch(ctx, m, append(opts, more...)...)
	w.dispatched(equal(ss), 0, id, err)
	nd.Reach("end")
}

// BracketsTick: a tick with timeouts due and compactions that fail or cancel.
func BracketsTick() {
	w := &world{budget: 3, cancel: func() {}}
	var cerrs []error
	compacted := map[string]error{}
	hs := w.handlers()
	cancelled := false
	for _, h := range hs {
		if h, ok := h.(*kit.Proj); ok {
			h.CompactF = func(_ context.Context, s dogma.ProjectionCompactScope) error {
				w.lines++
				compacted[h.Name] = nil
				s.Log("line %d", w.lines)
				if w.fails > 0 && nd.Flip("compact-"+h.Name) {
					w.fails--
					err := &failure{100 + len(cerrs)}
					cerrs = append(cerrs, err)
					compacted[h.Name] = err
					return err
				}
				if w.cancels > 0 && nd.Flip("cancel-"+h.Name) {
					w.cancels--
					w.cancel()
				}
				return nil
			}
		}
	}
	w.e = engine.MustNew(configkit.FromApplication(&kit.App{Handlers: hs}))
	opts := w.startOp(t0)
	_, m := w.root("EvA")
	w.timed = true
	w.logs = true
	nd.Assert(w.e.Dispatch(context.Background(), m, opts...) == nil, "dispatch-error")
	t1 := nd.Time("tick")
	nd.Assume(!t1.Before(t0))
	w.fails = 2
	w.cancels = 1
	ctx, cancel := context.WithCancel(context.Background())
	w.cancel = func() {
		cancelled = true
		cancel()
	}
	opts = w.startOp(t1)
	from := len(w.log)
	if nd.Flip("before") {
		w.cancels = 0
		w.cancel()
		nd.Reach("before")
	}
	ss, more := w.triplets()
	err := w.e.Tick(ctx, append(opts, more...)...)

	p := &parser{w: w, rest: equal(ss).all, call: from}
	nd.Assert(p.next("cycle").calls == from, "begun-fact-late")
	ticked := map[string]bool{}
	for p.peek() == "tick" {
		h := p.next("tick")
		nd.Assert(!ticked[h.h], "ticked-twice")
		ticked[h.h] = true
		cerr, ok := compacted[h.h]
		if ok {
			nd.Assert(p.next("compact").h == h.h, "bracket-mismatch")
			x := p.next("log")
			nd.Assert(x.h == h.h, "fact-in-wrong-bracket")
			x = p.next("/compact")
			nd.Assert(x.h == h.h && x.err == cerr, "compaction-error")
		}
		x := p.next("/tick")
		nd.Assert(x.h == h.h, "bracket-mismatch")
		nd.Assert(errors.Is(x.err, cerr) && (x.err == nil) == (cerr == nil), "tick-error")
		nd.Assert(x.calls == from, "message-during-tick")
	}
	if !cancelled {
		nd.Assert(len(ticked) == len(hs), "handler-not-ticked")
	} else {
		nd.Reach("cancelled")
	}
	p.messages()
	x := p.next("/cycle")
	nd.Assert(x.err == err, "cycle-completion")
	nd.Assert(len(p.rest) == 0, "facts-after-completion")
	nd.Assert(p.call == len(w.log), "call-without-bracket")
	if p.call > from {
		nd.Reach("timeouts")
	}
	nd.Reach("end")
}
