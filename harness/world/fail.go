package world

import (
	"context"
	"errors"

	"github.com/dogmatiq/configkit"
	"github.com/dogmatiq/dogma"
	"github.com/dogmatiq/testkit/engine"
	"github.com/dogmatiq/testkit/internal/zzverif/kit"
	"github.com/dogmatiq/testkit/internal/zzverif/nd"
)

func init() {
	Harnesses["Failures"] = Failures
	Harnesses["FailuresTwice"] = FailuresTwice
	Harnesses["FailuresDeep"] = FailuresDeep
	Harnesses["FailingTick"] = FailingTick
	Harnesses["Cancelled"] = Cancelled
	Harnesses["CancelledTick"] = CancelledTick
}

// failing makes every handler method that can return an error fail at will.
// A call begins with the first method called for a message.
func failing(budget, fails int, opts ...engine.Option) *world {
	w := &world{budget: budget, fails: fails, cancel: func() {}}
	hs := w.handlers()
	for _, h := range hs {
		switch h := h.(type) {
		case *kit.Proc:
			name, f := h.Name, h.EventF
			var routed *inv
			h.RouteF = func(m dogma.Event) (string, bool, error) {
				routed = w.begin(name, m)
				if w.fails > 0 && nd.Flip("route-"+name) {
					w.fails--
					routed.err = &failure{len(w.log)}
					return "", false, routed.err
				}
				return kit.Payload(m).To, true, nil
			}
			h.EventF = func(ctx context.Context, r dogma.ProcessRoot, s dogma.ProcessEventScope, m dogma.Event) error {
				nd.Assert(routed != nil && routed.id == kit.Payload(m).N && routed.err == nil, "handled-without-route")
				// f begins a second record of this call
				err := f(ctx, r, s, m)
				last := w.log[len(w.log)-1]
				w.log = w.log[:len(w.log)-1]
				routed.outs, routed.err, routed.acts = last.outs, last.err, last.acts
				return err
			}
		case *kit.Proj:
			name := h.Name
			var v *inv
			h.VersionF = func(context.Context, []byte) ([]byte, error) {
				v = nil
				if w.fails > 0 && nd.Flip("version-"+name) {
					w.fails--
					// the message is not known to the projection yet
					v = &inv{h: name, id: -1, op: w.op, err: &failure{len(w.log)}}
					w.log = append(w.log, v)
					return nil, v.err
				}
				return nil, nil
			}
			h.EventF = func(_ context.Context, _, _, _ []byte, s dogma.ProjectionEventScope, m dogma.Event) (bool, error) {
				v = w.begin(name, m)
				w.say(v, s)
				err := w.fail(v)
				return err == nil, err
			}
			h.CloseF = func(context.Context, []byte) error {
				nd.Assert(v != nil && v.err == nil, "closed-without-handling")
				if w.fails > 0 && nd.Flip("close-"+name) {
					w.fails--
					v.err = &failure{len(w.log)}
				}
				return v.err
			}
		}
	}
	w.e = engine.MustNew(configkit.FromApplication(&kit.App{Handlers: hs}), opts...)
	return w
}

// failures checks that err reports exactly the failures of log[from:].
func (w *world) failures(from int, err error, more ...error) {
	n := 0
	for _, v := range w.log[from:] {
		if v.err != nil {
			n++
			nd.Assert(errors.Is(err, v.err), "failure-hidden", v.h)
		}
	}
	for _, e := range more {
		n++
		nd.Assert(errors.Is(err, e), "failure-hidden", "compaction")
	}
	nd.Assert((err == nil) == (n == 0), "error-iff-failure", n)
	if n > 1 {
		nd.Reach("several-failures")
	}
}

func Failures()      { failures(1, 3, 3) }
func FailuresTwice() { failures(2, 2, 1) }
func FailuresDeep()  { failures(2, 3, 3) }

// failures: every subset of handlers fails in every possible way.
func failures(ops, budget, fails int) {
	w := failing(budget, fails)
	ctx := context.Background()
	for k := 0; k < ops; k++ {
		opts := w.startOp(t0)
		id, m := w.root("CmdA", "CmdB", "EvA", "EvC")
		from := len(w.log)
		err := w.e.Dispatch(ctx, m, opts...)
		w.delivered(from, []int{id}, nil)
		w.failures(from, err)
	}
	nd.Reach("end")
}

// FailingTick: projections fail to compact while timeouts are due, and
// handling those fails too.
func FailingTick() {
	w := &world{budget: 3, fails: 3, cancel: func() {}}
	var cerrs []error
	hs := w.handlers()
	for _, h := range hs {
		if h, ok := h.(*kit.Proj); ok {
			h.CompactF = func(context.Context, dogma.ProjectionCompactScope) error {
				if w.fails > 0 && nd.Flip("compact-"+h.Name) {
					w.fails--
					err := &failure{100 + len(cerrs)}
					cerrs = append(cerrs, err)
					return err
				}
				return nil
			}
		}
	}
	w.e = engine.MustNew(configkit.FromApplication(&kit.App{Handlers: hs}))
	ctx := context.Background()
	opts := w.startOp(t0)
	id, m := w.root("EvA")
	w.timed = true
	w.fails = 0
	nd.Assert(w.e.Dispatch(ctx, m, opts...) == nil, "dispatch-error")
	w.delivered(0, []int{id}, nil)
	t1 := nd.Time("tick")
	nd.Assume(!t1.Before(t0))
	var due []int
	for i, m := range w.msgs {
		if m.typ == "ToA" && !m.ready && !m.at.After(t1) {
			due = append(due, i)
		}
	}
	w.fails = 3
	opts = w.startOp(t1)
	from := len(w.log)
	nd.AllMapOrders()
	err := w.e.Tick(ctx, opts...)
	var got []int
	for _, v := range w.log[from:] {
		if w.msgs[v.id].op == 0 {
			got = append(got, v.id)
		}
	}
	nd.Assert(len(got) == len(due), "due-timeouts")
	w.delivered(from, got, nil)
	w.failures(from, err, cerrs...)
	if len(cerrs) > 0 && len(due) > 0 {
		nd.Reach("both")
	}
	nd.Reach("end")
}

// Cancelled: some handler's call cancels the context of the operation.
func Cancelled() {
	w := newWorld(3)
	w.cancels = 1
	w.fails = 1
	for k := 0; k < 2; k++ {
		ctx, cancel := context.WithCancel(context.Background())
		cancelled := false
		at := -1
		w.cancel = func() {
			cancelled = true
			at = w.cur.id
			cancel()
		}
		opts := w.startOp(t0)
		id, m := w.root("CmdA", "EvA", "EvC")
		from := len(w.log)
		err := w.e.Dispatch(ctx, m, opts...)
		w.delivered(from, []int{id}, func(vs []*inv) bool { return cancelled && vs[0].id == at })
		if cancelled {
			nd.Assert(errors.Is(err, context.Canceled), "cancellation-not-reported")
			if at != id {
				nd.Reach("cancelled-later")
			}
		} else {
			w.failures(from, err)
		}
	}
	nd.Reach("end")
}

// CancelledTick: the context is cancelled while compacting or while handling a
// timeout that was due.
func CancelledTick() {
	w := &world{budget: 3, cancel: func() {}}
	hs := w.handlers()
	done := false
	for _, h := range hs {
		if h, ok := h.(*kit.Proj); ok {
			h.CompactF = func(context.Context, dogma.ProjectionCompactScope) error {
				if w.cancels > 0 && nd.Flip("cancel-compact-"+h.Name) {
					w.cancels--
					w.cur = nil
					w.cancel()
				}
				return nil
			}
		}
	}
	w.e = engine.MustNew(configkit.FromApplication(&kit.App{Handlers: hs}))
	opts := w.startOp(t0)
	id, m := w.root("EvA")
	w.timed = true
	nd.Assert(w.e.Dispatch(context.Background(), m, opts...) == nil, "dispatch-error")
	w.delivered(0, []int{id}, nil)
	t1 := nd.Time("tick")
	nd.Assume(!t1.Before(t0))
	opts = w.startOp(t1)
	from := len(w.log)
	ctx, cancel := context.WithCancel(context.Background())
	at := -1
	w.cancels = 1
	w.cancel = func() {
		done = true
		if w.cur != nil {
			at = w.cur.id
		}
		cancel()
	}
	nd.AllMapOrders()
	err := w.e.Tick(ctx, opts...)
	if done {
		nd.Assert(errors.Is(err, context.Canceled), "cancellation-not-reported")
		if at < 0 {
			nd.Assert(len(w.log) == from, "message-after-cancellation")
			nd.Reach("while-compacting")
		} else {
			nd.Assert(len(w.log) > from && w.log[len(w.log)-1].id == at, "message-after-cancellation")
			nd.Reach("while-handling")
		}
	} else {
		nd.Assert(err == nil, "tick-error")
	}
	nd.Reach("end")
}
