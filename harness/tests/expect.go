package tests

import (
	"context"
	"errors"
	"fmt"
	"runtime"
	"strings"
	"time"

	"github.com/dogmatiq/dogma"
	"github.com/dogmatiq/testkit"
	"github.com/dogmatiq/testkit/engine"
	"github.com/dogmatiq/testkit/fact"
	"github.com/dogmatiq/testkit/internal/zzverif/kit"
	"github.com/dogmatiq/testkit/internal/zzverif/nd"
	"github.com/dogmatiq/testkit/location"
)

func init() {
	Harnesses["ExpectOne"] = ExpectOne
	Harnesses["ExpectMany"] = ExpectMany
	Harnesses["ExpectTree"] = ExpectTree
	Harnesses["ExpectBuiltin"] = ExpectBuiltin
}

type stop struct{}

// tt is a TestingT. It ends the caller by panicking or by ending the goroutine
// when the test fails, unless it is silent.
type tt struct {
	silent  bool
	exits   bool // ends the goroutine
	deaf    bool // does not look for reports
	fatal   []any
	failNow int
	reports int
	report  string
	onFail  func()
}

func (t *tt) Failed() bool        { return len(t.fatal)+t.failNow != 0 }
func (t *tt) Logf(string, ...any) {}
func (t *tt) Helper()             {}

func (t *tt) Log(args ...any) {
	if len(args) == 1 && !t.deaf {
		if s, ok := args[0].(string); ok && strings.HasPrefix(s, "--- TEST REPORT ---") {
			t.reports++
			t.report = s
		}
	}
}

func (t *tt) Fatal(args ...any) {
	t.fatal = append(t.fatal, args...)
	t.end()
}

func (t *tt) FailNow() {
	t.failNow++
	t.end()
}

func (t *tt) end() {
	if t.onFail != nil {
		t.onFail()
	}
	switch {
	case t.exits:
		runtime.Goexit()
	case !t.silent:
		panic(stop{})
	}
}

func (t *tt) clear() {
	t.fatal, t.failNow, t.reports, t.report = nil, 0, 0, ""
}

var t0 = time.Date(2020, 1, 1, 0, 0, 0, 0, time.UTC)

// world is an application with an aggregate that records an event per command,
// and a process that consumes the event.
type world struct {
	facts *kit.Facts
	t     *tt
	app   *kit.App
	test  *testkit.Test
	mode  int // how the testing value behaves plus one, any if zero
}

func newWorld(opts ...testkit.TestOption) *world {
	w := &world{facts: &kit.Facts{}, t: &tt{}}
	w.app = &kit.App{Handlers: []any{
		&kit.Agg{
			Name: "agg", Key: kit.Key1,
			Routes: []dogma.AggregateRoute{
				dogma.HandlesCommand[kit.CmdA](),
				dogma.RecordsEvent[kit.EvA](),
			},
			HandleF: func(_ dogma.AggregateRoot, s dogma.AggregateCommandScope, m dogma.Command) {
				s.RecordEvent(kit.EvA{P: kit.Payload(m)})
			},
		},
	}}
	w.test = testkit.Begin(w.t, w.app, append([]testkit.TestOption{
		testkit.StartTimeAt(t0),
		testkit.WithUnsafeOperationOptions(engine.WithObserver(w.facts)),
	}, opts...)...)
	return w
}

const (
	doOk = iota
	doError
	doPanic
	doExit
)

var errAction = errors.New("action failed")

// act is an action that executes some commands and ends in the given way.
type act struct {
	outcome  int
	commands int
	done     int
	n        int
}

func (a *act) Caption() string                                { return "acting" }
func (a *act) Location() location.Location                    { return location.Location{} }
func (a *act) ConfigurePredicate(o *testkit.PredicateOptions) {}

func (a *act) Do(ctx context.Context, s testkit.ActionScope) error {
	a.done++
	for i := 0; i < a.commands; i++ {
		if err := s.Engine.Dispatch(ctx, kit.CmdA{P: kit.P{To: "x", N: a.n}}, s.OperationOptions...); err != nil {
			return err
		}
	}
	switch a.outcome {
	case doError:
		return errAction
	case doPanic:
		panic(errAction)
	case doExit:
		runtime.Goexit()
	}
	return nil
}

func (w *world) action() *act {
	return &act{outcome: nd.Pick("outcome", 4), commands: nd.Pick("commands", 3), n: nd.Int("n", 0, 9)}
}

// expect performs a call of Expect() and checks its effects.
func (w *world) expect(a *act, n *node, leaves []*leaf) {
	w.t.clear()
	from := len(w.facts.All)
	mode := w.mode - 1
	if mode < 0 {
		mode = nd.Pick("t", 3)
	}
	w.t.silent, w.t.exits = mode == 1, mode == 2
	var refused error
	for _, l := range leaves {
		if l.err != nil {
			refused = l.err
		}
	}
	w.t.onFail = func() {
		for _, l := range leaves {
			if refused == nil {
				nd.Assert(l.done == 1, "failed-before-completion")
			}
		}
	}
	var r *testkit.Test
	how, v := nd.Goexited(func() { r = w.test.Expect(a, n.exp) })
	if how == 0 {
		nd.Assert(r == w.test, "not-chained")
		nd.Assert(w.t.silent || !w.t.Failed(), "continued-after-failure")
	} else if w.t.silent {
		nd.Assert(a.outcome == doPanic || a.outcome == doExit, "panicked", v)
	}

	if refused != nil {
		nd.Reach("refused")
		nd.Assert(w.t.Failed(), "refused-but-not-failed")
		nd.Assert(a.done == 0, "refused-but-performed")
		nd.Assert(w.t.reports == 0, "refused-but-reported")
		return
	}

	nd.Assert(a.done == 1, "times-performed")
	for _, l := range leaves {
		nd.Assert(l.made == 1, "times-constructed")
		nd.Assert(l.done == 1, "times-completed", l.done)
		nd.Assert(len(l.facts) == len(w.facts.All)-from, "facts-observed", len(l.facts))
		for i, f := range l.facts {
			same(f, w.facts.All[from+i])
		}
	}
	nd.Assert(a.commands == 0 || len(w.facts.All) > from, "no-facts")

	switch a.outcome {
	case doPanic:
		nd.Reach("panic")
		nd.Assert(how == 1 && v == errAction, "panic-lost")
		nd.Assert(w.t.reports == 0, "reported-without-verdict")
		return
	case doExit:
		nd.Reach("exit")
		nd.Assert(how == 2, "exit-lost")
		nd.Assert(w.t.reports == 0, "reported-without-verdict")
		return
	case doError:
		nd.Reach("error")
		nd.Assert(w.t.Failed(), "error-but-not-failed")
		nd.Assert(w.t.reports == 0, "reported-without-verdict")
		nd.Assert(len(w.t.fatal) == 1 && isErr(w.t.fatal[0], errAction), "error-not-shown")
		return
	}
	ok := n.verdict()
	nd.Assert(w.t.Failed() == !ok, "verdict", ok)
	nd.Assert((how != 0) == (!ok && !w.t.silent), "ended", ok)
	nd.Assert(w.t.reports == 1, "times-reported")
	for _, l := range leaves {
		nd.Assert(l.reports <= 1, "times-reported-by-leaf")
		if l.reports == 1 {
			nd.Assert(l.treeOk == ok, "report-of-tree")
		}
	}
	if ok {
		nd.Reach("met")
		nd.Assert(strings.Contains(w.t.report, "✓"), "report-verdict")
	} else {
		nd.Reach("not-met")
		nd.Assert(strings.Contains(w.t.report, "✗"), "report-verdict")
	}
}

func isErr(v any, err error) bool {
	e, ok := v.(error)
	return ok && errors.Is(e, err)
}

// same asserts that two facts are the same.
func same(a, b fact.Fact) {
	x, y := fmt.Sprintf("%T", a), fmt.Sprintf("%T", b)
	nd.Assert(x == y, "facts-observed", x, y)
	if a, ok := a.(fact.DispatchBegun); ok {
		nd.Assert(a.Envelope == b.(fact.DispatchBegun).Envelope, "facts-observed", x)
	}
}

// ExpectOne: one call of Expect() after any preparation.
func ExpectOne() {
	w := newWorld()
	w.prepare()
	f := &forest{}
	n := f.newLeaf()
	if nd.Flip("refused") {
		n.leaf.err = errors.New("refused")
	}
	w.expect(w.action(), n, f.leaves)
	nd.Reach("end")
}

// prepare performs a call of Prepare() with some actions.
func (w *world) prepare() {
	w.t.clear()
	w.t.onFail = nil
	w.t.silent, w.t.exits = false, false
	var acts []testkit.Action
	var model []*act
	for i := nd.Pick("prepared", 3); i > 0; i-- {
		a := &act{outcome: nd.Pick("outcome", 3), commands: 1}
		model = append(model, a)
		acts = append(acts, a)
	}
	panicked, v := kit.Panics(func() { w.test.Prepare(acts...) })
	for _, a := range model {
		nd.Assert(a.done == 1, "prepared")
		switch a.outcome {
		case doError:
			nd.Assert(w.t.Failed() && panicked, "prepare-error-but-not-failed")
			nd.Reach("prepare-error")
			return
		case doPanic:
			nd.Assert(panicked && v == errAction, "prepare-panic-lost")
			return
		}
	}
	nd.Assert(!w.t.Failed() && !panicked, "prepare-failed")
}

// ExpectMany: several calls of Expect(), whatever the outcome of each.
func ExpectMany() {
	w := newWorld()
	for i := 0; i < 3; i++ {
		f := &forest{}
		n := f.newLeaf()
		if nd.Flip("refused") {
			n.leaf.err = errors.New("refused")
		}
		w.expect(&act{outcome: nd.Pick("outcome", 4), commands: i % 2}, n, f.leaves)
	}
	nd.Reach("end")
}

// ExpectTree: one call of Expect() with a combination of expectations.
func ExpectTree() {
	w := newWorld()
	f := &forest{}
	n := f.tree(2, 2)
	w.expect(&act{outcome: nd.Pick("outcome", 3), commands: 1}, n, f.leaves)
	nd.Reach("end")
}

// ExpectBuiltin: the kit's own actions, when the application panics, returns
// an error or handles the message.
func ExpectBuiltin() {
	w := newWorld(testkit.WithUnsafeOperationOptions(engine.EnableIntegrations(true)))
	outcome := nd.Pick("outcome", 3)
	w.app.Handlers = append(w.app.Handlers, &kit.Integ{
		Name: "integ", Key: kit.Key2,
		Routes: []dogma.IntegrationRoute{dogma.HandlesCommand[kit.CmdB]()},
		HandleF: func(context.Context, dogma.IntegrationCommandScope, dogma.Command) error {
			switch outcome {
			case doError:
				return errAction
			case doPanic:
				panic(errAction)
			}
			return nil
		},
	})
	w.test = testkit.Begin(w.t, w.app,
		testkit.StartTimeAt(t0),
		testkit.WithUnsafeOperationOptions(engine.WithObserver(w.facts), engine.EnableIntegrations(true)),
	)
	f := &forest{}
	n := f.newLeaf()
	w.t.silent = nd.Flip("silent")
	var a testkit.Action
	kind := nd.Pick("action", 4)
	switch kind {
	case 0:
		a = testkit.ExecuteCommand(kit.CmdB{P: kit.P{N: 1}})
	case 1:
		x := w.test.CommandExecutor()
		a = testkit.Call(func() {
			if err := x.ExecuteCommand(context.Background(), kit.CmdB{}); err != nil {
				panic(err)
			}
		})
	case 2:
		a = testkit.AdvanceTime(testkit.ByDuration(time.Second))
		outcome = doOk
	case 3:
		a = testkit.ExecuteCommand(kit.CmdX{})
	}
	panicked, v := kit.Panics(func() { w.test.Expect(a, n.exp) })
	l := n.leaf
	nd.Assert(l.done == 1, "times-completed")
	nd.Assert(len(l.facts) == len(w.facts.All), "facts-observed")
	nd.Assert(kind == 3 || len(l.facts) > 0, "no-facts")
	switch {
	case kind == 3:
		nd.Assert(w.t.Failed(), "error-but-not-failed")
		nd.Assert(w.t.reports == 0, "reported-without-verdict")
		nd.Reach("not-recognized")
	case outcome == doPanic, outcome == doError && kind == 1:
		nd.Assert(panicked, "panic-lost")
		nd.Assert(v != stop{}, "panic-lost")
		nd.Assert(w.t.reports == 0, "reported-without-verdict")
		nd.Reach("panic")
	case outcome == doError:
		nd.Assert(w.t.Failed(), "error-but-not-failed")
		nd.Assert(w.t.reports == 0, "reported-without-verdict")
		nd.Reach("error")
	default:
		nd.Assert(w.t.Failed() == !l.ok, "verdict")
		nd.Assert(w.t.reports == 1, "times-reported")
		nd.Reach("verdict")
	}
}
