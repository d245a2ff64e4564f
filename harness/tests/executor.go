package tests

import (
	"context"
	"errors"
	"slices"
	"sync"
	"sync/atomic"

	"github.com/dogmatiq/dogma"
	"github.com/dogmatiq/testkit"
	"github.com/dogmatiq/testkit/engine"
	"github.com/dogmatiq/testkit/fact"
	"github.com/dogmatiq/testkit/internal/zzverif/kit"
	"github.com/dogmatiq/testkit/internal/zzverif/nd"
)

func init() {
	Harnesses["Executor"] = Executor
	Harnesses["ExecutorLong"] = ExecutorLong
	Harnesses["ExecutorOptions"] = ExecutorOptions
	Harnesses["ExecutorLate"] = ExecutorLate
	Harnesses["ExecutorShared"] = ExecutorShared
	Harnesses["ExecutorWithin"] = ExecutorWithin
}

type ctxKey struct{}

var (
	errHandler     = errors.New("handler failed")
	errIntercepted = errors.New("intercepted")
)

// exec is a test whose executor is used inside and outside of actions.
type exec struct {
	t     *tt
	test  *testkit.Test
	x     dogma.CommandExecutor
	facts *kit.Facts
	ctx   context.Context

	fails   bool // the handler returns an error
	panics  bool // the handler panics
	smooth  bool // the handler never does
	handled []int
	own     int   // how the test's interceptor behaves, 0 if there is none
	seen    []int // interceptors that were called
	n       int
}

const (
	icNone = iota
	icPass
	icReplace
	icPanic
	icKinds
)

func (e *exec) interceptor(id, how int) testkit.CommandExecutorInterceptor {
	return func(ctx context.Context, m dogma.Command, next dogma.CommandExecutor) error {
		e.seen = append(e.seen, id)
		nd.Assert(ctx == e.ctx, "interceptor-context")
		nd.Assert(kit.Payload(m).N == e.n, "interceptor-command")
		switch how {
		case icReplace:
			return errIntercepted
		case icPanic:
			panic(errIntercepted)
		}
		return next.ExecuteCommand(ctx, m)
	}
}

func newExec(kinds int) *exec {
	e := &exec{t: &tt{}, facts: &kit.Facts{}}
	e.ctx = context.WithValue(context.Background(), ctxKey{}, "value")
	opts := []testkit.TestOption{
		testkit.StartTimeAt(t0),
		testkit.WithUnsafeOperationOptions(
			engine.EnableIntegrations(true),
			engine.WithObserver(e.facts),
		),
	}
	if e.own = nd.Pick("own", kinds); e.own != icNone {
		opts = append(opts, testkit.InterceptCommandExecutor(e.interceptor(0, e.own)))
	}
	e.test = testkit.Begin(e.t, &kit.App{Handlers: []any{
		&kit.Integ{
			Name: "integ", Key: kit.Key1,
			Routes: []dogma.IntegrationRoute{dogma.HandlesCommand[kit.CmdA]()},
			HandleF: func(ctx context.Context, _ dogma.IntegrationCommandScope, m dogma.Command) error {
				nd.Assert(ctx.Value(ctxKey{}) == "value", "context")
				e.handled = append(e.handled, kit.Payload(m).N)
				if e.panics {
					panic(errHandler)
				}
				if e.fails {
					return errHandler
				}
				return nil
			},
		},
	}}, opts...)
	e.x = e.test.CommandExecutor()
	return e
}

// use executes a command and checks the effects. The action's interceptor has
// the given identifier and behaviour.
func (e *exec) use(inside bool, id, how int) {
	e.n = nd.Int("n", 0, 100)
	e.handled, e.seen = nil, nil
	facts := len(e.facts.All)
	outcome := doOk
	if inside && !e.smooth {
		outcome = nd.Pick("handler", 3)
	}
	e.fails, e.panics = outcome == doError, outcome == doPanic
	if how == icNone {
		id, how = 0, e.own
	}
	var err error
	panicked, v := kit.Panics(func() { err = e.x.ExecuteCommand(e.ctx, kit.CmdA{P: kit.P{N: e.n}}) })
	if !inside {
		nd.Assert(panicked, "executed-outside", err)
		nd.Assert(len(e.handled)+len(e.seen) == 0, "executed-outside")
		nd.Assert(len(e.facts.All) == facts, "executed-outside")
		nd.Reach("outside")
		return
	}
	if how == icNone {
		nd.Assert(len(e.seen) == 0, "interceptor")
	} else {
		nd.Assert(len(e.seen) == 1 && e.seen[0] == id, "interceptor", id)
		nd.Reach("intercepted")
	}
	if how == icReplace || how == icPanic {
		nd.Assert(len(e.handled) == 0 && len(e.facts.All) == facts, "executed-although-intercepted")
		nd.Assert(panicked == (how == icPanic), "interceptor-panic")
		if panicked {
			nd.Assert(v == errIntercepted, "interceptor-panic")
		} else {
			nd.Assert(err == errIntercepted, "interceptor-error")
		}
		return
	}
	nd.Assert(len(e.handled) == 1 && e.handled[0] == e.n, "not-executed")
	began := 0
	for _, f := range e.facts.All[facts:] {
		if f, ok := f.(fact.DispatchCycleBegun); ok {
			began++
			nd.Assert(f.EngineTime.Equal(t0), "operation-options")
		}
	}
	nd.Assert(began == 1, "operation-options", began)
	nd.Assert(panicked == e.panics, "handler-panic", v)
	if !panicked {
		nd.Assert((err != nil) == e.fails, "handler-error", err)
		nd.Assert(err == nil || errors.Is(err, errHandler), "handler-error", err)
	}
	nd.Reach("executed")
}

// call performs a Call() action that uses the executor.
func (e *exec) call(id, kinds, uses int) {
	e.callTo(id, nd.Pick("interceptor", kinds), nd.Pick("end", 3), nd.Flip("expect"), uses)
}

func (e *exec) callTo(id, how, end int, expect bool, uses int) {
	var opts []testkit.CallOption
	if how != icNone {
		opts = append(opts, testkit.InterceptCommandExecutor(e.interceptor(id, how)))
	}
	a := testkit.Call(func() {
		for i := 0; i < uses; i++ {
			e.use(true, id, how)
		}
		switch end {
		case 1:
			panic(errAction)
		case 2:
			e.t.FailNow()
		}
	}, opts...)
	panicked, v := kit.Panics(func() {
		if expect {
			e.test.Expect(a, &leaf{ok: true})
		} else {
			e.test.Prepare(a)
		}
	})
	nd.Assert(panicked == (end != 0), "action-panic", v)
	if end == 1 {
		nd.Assert(v == errAction, "action-panic", v)
		nd.Reach("panicked")
	}
}

// Executor: two actions, with uses before, between and after them.
func Executor() {
	e := newExec(icKinds)
	e.call(1, icKinds, 1)
	if nd.Flip("other") {
		e.use(false, 0, icNone)
	}
	e.call(2, icPass+1, 1)
	e.use(false, 0, icNone)
	nd.Reach("end")
}

// ExecutorLong: longer sequences with fewer kinds of interceptors.
func ExecutorLong() {
	e := newExec(icPass + 1)
	for i := 0; i < 3; i++ {
		e.smooth = i > 0
		switch nd.Pick("step", 3) {
		case 0:
			e.use(false, 0, icNone)
		case 1:
			e.call(i+1, icPass+1, nd.Pick("uses", 2))
		case 2:
			// Another action does not bind the executor.
			panicked, _ := kit.Panics(func() { e.test.Prepare(testkit.ExecuteCommand(kit.CmdX{})) })
			nd.Assert(panicked, "not-recognized")
		}
	}
	e.use(false, 0, icNone)
	nd.Reach("end")
}

// ExecutorOptions: commands are executed with the options of the test at the
// time of the action.
func ExecutorOptions() {
	e := newExec(icPass + 1)
	clock := t0
	for i := 0; i < 3; i++ {
		switch nd.Pick("change", 3) {
		case 0:
			e.test.DisableHandlers("integ")
		case 1:
			e.test.EnableHandlers("integ")
		case 2:
			clock = clock.Add(1)
			e.test.Prepare(testkit.AdvanceTime(testkit.ToTime(clock)))
		}
	}
	e.handled = nil
	facts := len(e.facts.All)
	e.n = 7
	e.test.Prepare(testkit.Call(func() {
		nd.Assert(e.x.ExecuteCommand(e.ctx, kit.CmdA{P: kit.P{N: 7}}) == nil, "failed")
	}))
	skipped := false
	for _, f := range e.facts.All[facts:] {
		switch f := f.(type) {
		case fact.DispatchCycleBegun:
			nd.Assert(f.EngineTime.Equal(clock), "operation-options")
		case fact.HandlingSkipped:
			skipped = true
		}
	}
	nd.Assert(skipped == (len(e.handled) == 0), "operation-options")
	e.test.EnableHandlers("integ")
	e.handled = nil
	e.test.Prepare(testkit.Call(func() {
		nd.Assert(e.x.ExecuteCommand(e.ctx, kit.CmdA{P: kit.P{N: 7}}) == nil, "failed")
	}))
	nd.Assert(len(e.handled) == 1, "operation-options")
	nd.Reach("end")
}

// ExecutorLate: other actions never bind the executor, even to a handler that
// uses it.
func ExecutorLate() {
	var x dogma.CommandExecutor
	used, refused := false, false
	t := &tt{silent: true}
	test := testkit.Begin(t, &kit.App{Handlers: []any{
		&kit.Integ{
			Name: "integ", Key: kit.Key1,
			Routes: []dogma.IntegrationRoute{dogma.HandlesCommand[kit.CmdA]()},
			HandleF: func(ctx context.Context, _ dogma.IntegrationCommandScope, m dogma.Command) error {
				used = true
				refused, _ = kit.Panics(func() { _ = x.ExecuteCommand(ctx, kit.CmdA{}) })
				return nil
			},
		},
	}}, testkit.StartTimeAt(t0), testkit.WithUnsafeOperationOptions(engine.EnableIntegrations(true)))
	x = test.CommandExecutor()
	if nd.Flip("call") {
		test.Prepare(testkit.Call(func() {}))
	}
	if nd.Flip("expect") {
		test.Expect(testkit.ExecuteCommand(kit.CmdA{}), &leaf{ok: true})
	} else {
		test.Prepare(testkit.ExecuteCommand(kit.CmdA{}))
	}
	nd.Assert(used && refused, "executed-outside")
	nd.Assert(!t.Failed(), "failed")
	nd.Reach("end")
}

// ExecutorShared: an action's function uses the executor from two goroutines,
// one of which may go on after the function has returned. Its command is
// executed before the action ends, or not at all.
func ExecutorShared() {
	nd.Race()
	var over atomic.Bool
	var handled [3]atomic.Int32
	events := 0 // by the handler, which is not called concurrently
	test := testkit.Begin(&tt{silent: true}, &kit.App{Handlers: []any{
		&kit.Integ{
			Name: "integ", Key: kit.Key1,
			Routes: []dogma.IntegrationRoute{dogma.HandlesCommand[kit.CmdA](), dogma.RecordsEvent[kit.EvA]()},
			HandleF: func(_ context.Context, s dogma.IntegrationCommandScope, m dogma.Command) error {
				nd.Assert(!over.Load(), "executed-outside")
				nd.Yield()
				handled[kit.Payload(m).N].Add(1)
				events++
				s.RecordEvent(kit.EvA{P: kit.P{N: events}})
				return nil
			},
		},
	}}, testkit.StartTimeAt(t0), testkit.WithUnsafeOperationOptions(engine.EnableIntegrations(true)))
	x := test.CommandExecutor()
	use := func(n int) bool {
		refused, _ := kit.Panics(func() {
			nd.Assert(x.ExecuteCommand(context.Background(), kit.CmdA{P: kit.P{N: n}}) == nil, "failed")
		})
		nd.Assert(refused == (handled[n].Load() == 0), "executed-or-refused")
		nd.Assert(handled[n].Load() <= 1, "executed-once")
		return !refused
	}
	var opts []testkit.CallOption
	if nd.Flip("intercept") {
		opts = append(opts, testkit.InterceptCommandExecutor(
			func(ctx context.Context, m dogma.Command, next dogma.CommandExecutor) error {
				return next.ExecuteCommand(ctx, m)
			}))
	}
	wait, expect := nd.Flip("wait"), nd.Flip("expect")
	nd.Preemptions(2)
	var wg sync.WaitGroup
	wg.Add(1)
	a := testkit.Call(func() {
		go func() {
			defer wg.Done()
			ok := use(1)
			nd.Assert(ok || !wait, "refused-inside")
			if !ok {
				nd.Reach("refused")
			}
		}()
		nd.Assert(use(0), "refused-inside")
		if wait {
			wg.Wait()
		}
	}, opts...)
	if expect {
		test.Expect(a, testkit.ToRecordEvent(kit.EvA{P: kit.P{N: 1}}))
	} else {
		test.Prepare(a)
	}
	over.Store(true)
	wg.Wait()
	nd.Assert(!use(2), "executed-outside")
	nd.Reach("end")
}

// ExecutorWithin: an interceptor uses the executor itself, before or after it
// passes the command on.
func ExecutorWithin() {
	var handled, seen []int
	own := nd.Flip("own")
	when := nd.Pick("when", 3)
	var test *testkit.Test
	interceptor := testkit.InterceptCommandExecutor(
		func(ctx context.Context, m dogma.Command, next dogma.CommandExecutor) error {
			n := kit.Payload(m).N
			seen = append(seen, n)
			other := func(at int) {
				if n == 1 && when == at {
					nd.Assert(test.CommandExecutor().ExecuteCommand(ctx, kit.CmdA{P: kit.P{N: 2}}) == nil, "failed")
				}
			}
			other(1)
			err := next.ExecuteCommand(ctx, m)
			other(2)
			return err
		})
	opts := []testkit.TestOption{
		testkit.StartTimeAt(t0),
		testkit.WithUnsafeOperationOptions(engine.EnableIntegrations(true)),
	}
	var callOpts []testkit.CallOption
	if own {
		opts = append(opts, interceptor)
	} else {
		callOpts = append(callOpts, interceptor)
	}
	test = testkit.Begin(&tt{silent: true}, &kit.App{Handlers: []any{
		&kit.Integ{
			Name: "integ", Key: kit.Key1,
			Routes: []dogma.IntegrationRoute{dogma.HandlesCommand[kit.CmdA]()},
			HandleF: func(_ context.Context, _ dogma.IntegrationCommandScope, m dogma.Command) error {
				handled = append(handled, kit.Payload(m).N)
				return nil
			},
		},
	}}, opts...)
	for i := 0; i < 2; i++ {
		handled, seen = nil, nil
		test.Prepare(testkit.Call(func() {
			nd.Assert(test.CommandExecutor().ExecuteCommand(context.Background(), kit.CmdA{P: kit.P{N: 1}}) == nil, "failed")
		}, callOpts...))
		want := [][]int{{1}, {2, 1}, {1, 2}}[when]
		nd.Assert(slices.Equal(handled, want), "executed", handled)
		slices.Sort(want)
		nd.Assert(slices.Equal(seen, want), "interceptor", seen)
	}
	nd.Reach("end")
}
