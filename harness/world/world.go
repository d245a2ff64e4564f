// Package world drives an application of all handler types whose handlers
// behave arbitrarily, and compares what happens with a model of the engine.
package world

import (
	"context"
	"time"

	"github.com/dogmatiq/configkit"
	"github.com/dogmatiq/dogma"
	"github.com/dogmatiq/testkit/engine"
	"github.com/dogmatiq/testkit/internal/zzverif/kit"
	"github.com/dogmatiq/testkit/internal/zzverif/nd"
)

var Harnesses = map[string]func(){}

// msg is the model's view of a message.
type msg struct {
	typ    string
	parent int // index of the message being handled, -1 for outside
	by     string
	inst   string
	op     int       // operation that produced it
	at     time.Time // scheduled-for
	ready  bool      // timeouts: due in the operation that scheduled it
	kept   bool      // will be dispatched
}

// inv is one observed call of a handler.
type inv struct {
	h    string
	id   int
	op   int
	outs []int
	err  error
	acts []act
}

// act is something a handler did: produce a message or write to the log.
type act struct {
	out int // message, or -1
	log int // number of the log line, or -1
}

type world struct {
	e       *engine.Engine
	msgs    []*msg
	log     []*inv
	cur     *inv
	op      int
	now     []time.Time // operation times
	budget  int         // messages that may still be produced
	fails   int         // failures that may still happen
	timed   bool        // timeouts use arbitrary times
	late    bool        // timeouts are due later
	swaps   bool        // messages are also produced in the other order
	cancels int
	cancel  func()
	insts   bool // arbitrary instances
	logs    bool // handlers write to the log first and last
	alike   bool // all failures are the same
	lines   int

	plan   func(v *inv, types []string) []string // what calls produce, instead of anything
	flawed func(v *inv) bool                     // which calls fail, instead of any
}

type failure struct{ n int }

func (f *failure) Error() string { return "failure" }

var consumers = map[string][]string{
	"CmdA": {"agg"},
	"CmdB": {"int"},
	"CmdC": {"agg2"},
	"EvA":  {"p1", "p2", "prj"},
	"EvB":  {"p1"},
	"EvC":  {"p2", "prj", "prj2"},
}

func (w *world) wrap(typ string, id int, to string) any {
	p := kit.P{To: to, N: id}
	switch typ {
	case "CmdA":
		return kit.CmdA{P: p}
	case "CmdB":
		return kit.CmdB{P: p}
	case "CmdC":
		return kit.CmdC{P: p}
	case "EvA":
		return kit.EvA{P: p}
	case "EvB":
		return kit.EvB{P: p}
	case "EvC":
		return kit.EvC{P: p}
	case "ToA":
		return kit.ToA{P: p}
	}
	panic("?")
}

func typeOf(m dogma.Message) string {
	switch m.(type) {
	case kit.CmdA:
		return "CmdA"
	case kit.CmdB:
		return "CmdB"
	case kit.CmdC:
		return "CmdC"
	case kit.EvA:
		return "EvA"
	case kit.EvB:
		return "EvB"
	case kit.EvC:
		return "EvC"
	case kit.ToA:
		return "ToA"
	}
	return "?"
}

// begin records a call of handler h with message m.
func (w *world) begin(h string, m dogma.Message) *inv {
	v := &inv{h: h, id: kit.Payload(m).N, op: w.op}
	nd.Assert(v.id < len(w.msgs) && w.msgs[v.id].typ == typeOf(m), "message-altered")
	w.log = append(w.log, v)
	w.cur = v
	if w.cancels > 0 && nd.Flip("cancel-"+h) {
		w.cancels--
		w.cancel()
		nd.Reach("cancelled")
	}
	return v
}

// produce chooses the messages produced by this call.
func (w *world) produce(v *inv, inst string, types []string, emit func(typ string, id int)) {
	if w.budget == 0 {
		return
	}
	var out []string
	if w.plan != nil {
		out = w.plan(v, types)
	} else {
		out = w.script(v, types)
	}
	for _, t := range out {
		if w.budget == 0 {
			break
		}
		w.budget--
		id := len(w.msgs)
		m := &msg{typ: t, parent: v.id, by: v.h, inst: inst, op: w.op, kept: true}
		w.msgs = append(w.msgs, m)
		v.outs = append(v.outs, id)
		v.acts = append(v.acts, act{id, -1})
		emit(t, id)
	}
}

// script chooses what a call produces.
func (w *world) script(v *inv, types []string) []string {
	n := 2 + 2*(len(types)-1)
	if w.swaps && n > 2 {
		n++
	}
	switch nd.Pick("script-"+v.h, n) {
	case 1:
		return types[:1]
	case 2:
		return types[1:2]
	case 3:
		return types[:2]
	case 4:
		return []string{types[1], types[0]}
	}
	return nil
}

// say writes a line to the log of the scope.
func (w *world) say(v *inv, s interface{ Log(string, ...any) }) {
	if w.logs {
		w.lines++
		v.acts = append(v.acts, act{-1, w.lines})
		s.Log("line %d", w.lines)
	}
}

// fail chooses whether this call fails.
func (w *world) fail(v *inv) error {
	if w.flawed != nil {
		if w.flawed(v) {
			v.err = &failure{len(w.log)}
			if w.alike {
				v.err = errAlike
			}
		}
		return v.err
	}
	if w.fails > 0 && nd.Flip("fail-"+v.h) {
		w.fails--
		v.err = &failure{len(w.log)}
	}
	return v.err
}

// dest is the instance a message is meant for.
func (w *world) dest() string {
	if w.insts {
		return nd.Str("inst", "i", "j")
	}
	return "i"
}

func (w *world) agg(name, key string, c dogma.AggregateRoute, types []string, outs ...dogma.AggregateRoute) *kit.Agg {
	return &kit.Agg{
		Name: name, Key: key,
		Routes: append([]dogma.AggregateRoute{c}, outs...),
		HandleF: func(_ dogma.AggregateRoot, s dogma.AggregateCommandScope, m dogma.Command) {
			v := w.begin(name, m)
			w.say(v, s)
			w.produce(v, s.InstanceID(), types, func(t string, id int) {
				s.RecordEvent(w.wrap(t, id, w.dest()).(dogma.Event))
			})
			w.say(v, s)
		},
	}
}

func (w *world) proc(name, key string, types []string, routes ...dogma.ProcessRoute) *kit.Proc {
	emit := func(s interface {
		ExecuteCommand(dogma.Command)
		ScheduleTimeout(dogma.Timeout, time.Time)
	}) func(string, int) {
		return func(t string, id int) {
			m := w.wrap(t, id, w.dest())
			if t == "ToA" {
				x := w.msgs[id]
				x.at = w.now[w.op]
				if w.late {
					x.at = x.at.Add(time.Minute)
				} else if w.timed {
					x.at = nd.Time("at-" + name)
				}
				s.ScheduleTimeout(m.(dogma.Timeout), x.at)
				x.ready = !x.at.After(w.now[w.op])
			} else {
				s.ExecuteCommand(m.(dogma.Command))
			}
		}
	}
	return &kit.Proc{
		Name: name, Key: key,
		Routes: routes,
		EventF: func(_ context.Context, _ dogma.ProcessRoot, s dogma.ProcessEventScope, m dogma.Event) error {
			v := w.begin(name, m)
			w.say(v, s)
			w.produce(v, s.InstanceID(), types, emit(s))
			w.say(v, s)
			return w.drop(v, w.fail(v))
		},
		TimeoutF: func(_ context.Context, _ dogma.ProcessRoot, s dogma.ProcessTimeoutScope, m dogma.Timeout) error {
			v := w.begin(name, m)
			w.say(v, s)
			w.produce(v, s.InstanceID(), types, emit(s))
			w.say(v, s)
			return w.drop(v, w.fail(v))
		},
	}
}

// drop marks the output of a failed process call as never dispatched.
func (w *world) drop(v *inv, err error) error {
	if err != nil {
		for _, id := range v.outs {
			w.msgs[id].kept = false
		}
	}
	return err
}

func (w *world) proj(name, key string, routes ...dogma.ProjectionRoute) *kit.Proj {
	return &kit.Proj{
		Name: name, Key: key,
		Routes: routes,
		EventF: func(_ context.Context, r, c, n []byte, s dogma.ProjectionEventScope, m dogma.Event) (bool, error) {
			v := w.begin(name, m)
			w.say(v, s)
			if err := w.fail(v); err != nil {
				return false, err
			}
			return true, nil
		},
	}
}

func (w *world) handlers() []any {
	return []any{
		w.agg("agg", kit.Key1, dogma.HandlesCommand[kit.CmdA](), []string{"EvA", "EvB"},
			dogma.RecordsEvent[kit.EvA](), dogma.RecordsEvent[kit.EvB]()),
		&kit.Integ{
			Name: "int", Key: kit.Key2,
			Routes: []dogma.IntegrationRoute{
				dogma.HandlesCommand[kit.CmdB](),
				dogma.RecordsEvent[kit.EvC](),
			},
			HandleF: func(_ context.Context, s dogma.IntegrationCommandScope, m dogma.Command) error {
				v := w.begin("int", m)
				w.say(v, s)
				w.produce(v, "", []string{"EvC"}, func(t string, id int) {
					s.RecordEvent(w.wrap(t, id, w.dest()).(dogma.Event))
				})
				w.say(v, s)
				return w.fail(v)
			},
		},
		w.proc("p1", kit.Key3, []string{"CmdB", "ToA"},
			dogma.HandlesEvent[kit.EvA](), dogma.HandlesEvent[kit.EvB](),
			dogma.ExecutesCommand[kit.CmdB](), dogma.SchedulesTimeout[kit.ToA]()),
		w.proc("p2", kit.Key4, []string{"CmdC", "ToA"},
			dogma.HandlesEvent[kit.EvA](), dogma.HandlesEvent[kit.EvC](),
			dogma.ExecutesCommand[kit.CmdC](), dogma.SchedulesTimeout[kit.ToA]()),
		w.proj("prj", kit.Key5, dogma.HandlesEvent[kit.EvA](), dogma.HandlesEvent[kit.EvC]()),
		w.proj("prj2", kit.Key6, dogma.HandlesEvent[kit.EvC]()),
		&kit.Agg{
			Name: "agg2", Key: "9a1f3c2e-7a5f-4d0e-9c0b-5b7c0a6a0017",
			Routes: []dogma.AggregateRoute{dogma.HandlesCommand[kit.CmdC](), dogma.RecordsEvent[kit.EvX]()},
			HandleF: func(_ dogma.AggregateRoot, s dogma.AggregateCommandScope, m dogma.Command) {
				w.say(w.begin("agg2", m), s)
			},
		},
	}
}

// newWorld builds the engine. Handlers may produce budget messages in total.
func newWorld(budget int) *world {
	w := &world{budget: budget, cancel: func() {}}
	w.e = engine.MustNew(configkit.FromApplication(&kit.App{Handlers: w.handlers()}))
	return w
}

// root chooses a message entering from outside.
func (w *world) root(types ...string) (int, dogma.Message) {
	typ := types[nd.Pick("root", len(types))]
	id := len(w.msgs)
	w.msgs = append(w.msgs, &msg{typ: typ, parent: -1, op: w.op, kept: true})
	return id, w.wrap(typ, id, w.dest()).(dogma.Message)
}

// startOp begins a new operation at an arbitrary or fixed time.
func (w *world) startOp(t time.Time) []engine.OperationOption {
	w.op = len(w.now)
	w.now = append(w.now, t)
	return []engine.OperationOption{engine.WithCurrentTime(t)}
}

// targets returns the handlers that must handle a message.
func (w *world) targets(id int) []string {
	m := w.msgs[id]
	if m.typ == "ToA" {
		return []string{m.by}
	}
	return consumers[m.typ]
}

// delivered checks that the calls log[from:] are exactly those required for
// the given messages and everything produced while handling them, in FIFO
// order; stop tells whether the operation ends after a message.
func (w *world) delivered(from int, queue []int, stop func(handled []*inv) bool) {
	pos := from
	for len(queue) > 0 {
		id := queue[0]
		queue = queue[1:]
		ts := w.targets(id)
		seen := map[string]bool{}
		start := pos
		for range ts {
			nd.Assert(pos < len(w.log), "message-not-delivered", "message", id, w.msgs[id].typ)
			v := w.log[pos]
			pos++
			if v.id < 0 {
				v.id = id // failed before it was told the message
			}
			nd.Assert(v.id == id, "out-of-order", "expected", id, "got", v.id, v.h)
			ok := false
			for _, t := range ts {
				if t == v.h {
					ok = true
				}
			}
			nd.Assert(ok, "delivered-to-wrong-handler", v.h, w.msgs[id].typ)
			nd.Assert(!seen[v.h], "delivered-twice", v.h)
			seen[v.h] = true
			for _, o := range v.outs {
				if m := w.msgs[o]; m.kept && m.typ != "ToA" {
					queue = append(queue, o)
				}
			}
			for _, o := range v.outs {
				if m := w.msgs[o]; m.kept && m.typ == "ToA" && m.ready {
					queue = append(queue, o)
				}
			}
		}
		if stop != nil && stop(w.log[start:pos]) {
			break
		}
	}
	nd.Assert(pos == len(w.log), "unexpected-delivery")
}
