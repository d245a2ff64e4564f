package world

import (
	"context"
	"errors"
	"sync"
	"time"

	"github.com/dogmatiq/configkit"
	"github.com/dogmatiq/dogma"
	"github.com/dogmatiq/testkit"
	"github.com/dogmatiq/testkit/engine"
	"github.com/dogmatiq/testkit/internal/zzverif/kit"
	"github.com/dogmatiq/testkit/internal/zzverif/nd"
)

func init() {
	Harnesses["EnginesApart"] = EnginesApart
	Harnesses["EnginesAtOnce"] = EnginesAtOnce
	Harnesses["TestsApart"] = TestsApart
	Harnesses["TestsApartLong"] = TestsApartLong
}

// EnginesApart: two engines of one application, used in turns, each do what
// they do when used alone.
func EnginesApart() {
	delay := time.Duration(nd.Int("delay", 0, 1)) * time.Minute
	var cur *replica
	cfg := configkit.FromApplication(replicated(delay, func() *replica { return cur }))
	opts := []engine.Option{engine.WithResetter(func() { cur.resets[0]++ })}
	if nd.Flip("compact-during-handling") {
		opts = append(opts, engine.EnableProjectionCompactionDuringHandling(true))
	}
	start := func() *replica {
		return &replica{e: engine.MustNew(cfg, opts...), log: map[string][]entry{}}
	}
	type step struct {
		op
		who   int
		reset bool
	}
	perform := func(r *replica, x step) {
		cur = r
		if x.reset {
			r.e.Reset()
			return
		}
		nd.Assert(r.do(x.op) == nil, "error")
	}
	both := [2]*replica{start(), start()}
	var steps []step
	for k := 0; k < 3; k++ {
		x := step{who: nd.Pick("who", 2)}
		if k == 1 && nd.Flip("reset") {
			x.reset = true
		} else {
			x.op = drawOp("op")
		}
		steps = append(steps, x)
		perform(both[x.who], x)
	}
	for i, r := range both {
		alone := start()
		for _, x := range steps {
			if x.who == i {
				perform(alone, x)
			}
		}
		nd.Assert(r.resets == alone.resets, "resets")
		compare(r, alone)
	}
	nd.Reach("end")
}

// EnginesAtOnce: two engines of one application, used at the same time.
func EnginesAtOnce() {
	cfg := configkit.FromApplication(replicated(time.Minute, func() *replica { return nil }))
	opts := []engine.Option{engine.WithResetter(func() {})}
	var ops [2]op
	var both [2]*replica
	for i := range both {
		both[i] = &replica{e: engine.MustNew(cfg, opts...), log: map[string][]entry{}}
		ops[i] = op{kind: nd.Pick("kind", 3), to: nd.Str("to", "i", "j"), now: t0}
	}
	var wg sync.WaitGroup
	nd.Preemptions(1)
	for i := range both {
		wg.Add(1)
		go func() {
			defer wg.Done()
			nd.Assert(both[i].do(ops[i]) == nil, "error")
		}()
	}
	wg.Wait()
	for i, r := range both {
		alone := &replica{e: engine.MustNew(cfg, opts...), log: map[string][]entry{}}
		nd.Assert(alone.do(ops[i]) == nil, "error")
		compare(r, alone)
	}
	nd.Reach("end")
}

// quietT is a testing value that counts failures.
type quietT struct {
	failed, fatal int
	last          any // text that was logged
	reports       []string
}

func (t *quietT) Failed() bool { return t.failed+t.fatal > 0 }

func (t *quietT) Log(v ...any)      { t.last = v[0] }
func (*quietT) Logf(string, ...any) {}
func (t *quietT) Fatal(...any)      { t.fatal++ }
func (t *quietT) FailNow()          { t.failed++ }
func (*quietT) Helper()             {}

// bench is a test and what became of it.
type bench struct {
	replica
	t           quietT
	test        *testkit.Test
	intercepted [2]int // by the test's own and by the action's interceptor
}

// shelf has what tests have in common.
type shelf struct {
	cur     *bench
	app     *kit.App
	options []testkit.TestOption
	actions map[string]testkit.Action
	expect  [4]testkit.Expectation
	start   time.Time
	own     bool // whether tests intercept commands
}

func newShelf() *shelf {
	s := &shelf{actions: map[string]testkit.Action{}, start: t0}
	s.app = replicated(time.Minute, func() *replica { return &s.cur.replica })
	spy := testkit.InterceptCommandExecutor(func(ctx context.Context, m dogma.Command, e dogma.CommandExecutor) error {
		s.cur.intercepted[1]++
		return e.ExecuteCommand(ctx, m)
	})
	s.options = append(make([]testkit.TestOption, 0, 8), testkit.StartTimeAt(s.start))
	s.own = nd.Flip("own")
	for _, to := range []string{"i", "j"} {
		cmd := kit.CmdA{P: kit.P{To: to, N: 3}}
		s.actions["exec-"+to] = testkit.ExecuteCommand(cmd)
		f := func() {
			nd.Assert(s.cur.test.CommandExecutor().ExecuteCommand(context.Background(), cmd) == nil, "error")
		}
		s.actions["call-"+to] = testkit.Call(f)
		s.actions["spied-"+to] = testkit.Call(f, spy)
	}
	s.expect = [4]testkit.Expectation{
		testkit.ToRecordEvent(kit.EvA{P: kit.P{To: "i"}}),
		testkit.AllOf(testkit.ToExecuteCommandType[kit.CmdB](), testkit.Not(testkit.ToRecordEventType[kit.EvB]())),
		testkit.ToOnlyRecordEventsMatching(func(m dogma.Event) error {
			if kit.Payload(m).N > 0 {
				return errLate
			}
			return nil
		}),
		testkit.ToExecuteCommand(kit.CmdB{P: kit.P{N: 7}}),
	}
	return s
}

var errLate = errors.New("late")

func (s *shelf) begin() *bench {
	b := &bench{}
	b.log = map[string][]entry{}
	s.cur = b
	opts := append(s.options, testkit.WithUnsafeOperationOptions(engine.WithObserver(b)))
	if s.own {
		opts = append(opts, testkit.InterceptCommandExecutor(func(ctx context.Context, m dogma.Command, e dogma.CommandExecutor) error {
			b.intercepted[0]++
			return e.ExecuteCommand(ctx, m)
		}))
	}
	b.test = testkit.Begin(&b.t, s.app, opts...)
	return b
}

// move is something a test does.
type move struct {
	who, kind, how int
	d              time.Duration
	to             string
}

func (s *shelf) perform(b *bench, m move) {
	s.cur = b
	switch m.kind {
	case 0:
		b.test.Prepare(testkit.AdvanceTime(testkit.ByDuration(m.d)))
	case 1:
		b.test.Prepare(s.actions[[]string{"exec-", "call-", "spied-"}[m.how]+m.to])
	case 2:
		switch m.how {
		case 0:
			b.test.EnableHandlers("proj", "int")
		case 1:
			b.test.DisableHandlers("proc")
		case 2:
			b.test.DisableHandlersLike("^p").EnableHandlers("int")
		}
	case 3:
		b.test.Expect(s.actions["exec-"+m.to], s.expect[m.how])
		b.t.reports = append(b.t.reports, b.t.last.(string))
	}
}

// drawMove draws a move. It does not matter which test is the first to be
// used, and the last move of all is one of which something can be seen.
func drawMove(first, last bool) move {
	m := move{}
	if !first {
		m.who = nd.Pick("who", 2)
	}
	if last {
		m.kind = 1 + 2*nd.Pick("kind", 2)
	} else {
		m.kind = nd.Pick("kind", 4)
	}
	if m.kind == 0 {
		m.d = time.Duration(nd.Int("d", 0, int(2*time.Hour)))
	} else {
		m.how = nd.Pick("how", 3+m.kind/3)
	}
	m.to = "i"
	if m.kind == 1 && nd.Flip("other") {
		m.to = "j"
	}
	return m
}

func (s *shelf) check(both [2]*bench, ms []move) {
	for i, b := range both {
		alone := s.begin()
		for _, m := range ms {
			if m.who == i {
				s.perform(alone, m)
			}
		}
		nd.Assert(b.t.failed == alone.t.failed && b.t.fatal == alone.t.fatal, "verdicts")
		nd.Assert(len(b.t.reports) == len(alone.t.reports), "reports")
		for k, x := range b.t.reports {
			nd.Assert(x == alone.t.reports[k], "report", x, alone.t.reports[k])
		}
		nd.Assert(b.intercepted == alone.intercepted, "interceptions")
		if b.t.failed > 0 {
			nd.Reach("unmet")
		}
		compare(&b.replica, &alone.replica)
	}
	nd.Reach("end")
}

// TestsApart: two tests of one application that share options, actions and
// expectations, used in turns.
func TestsApart() {
	s := newShelf()
	both := [2]*bench{s.begin(), s.begin()}
	var ms []move
	for k := 0; k < 3; k++ {
		m := drawMove(k == 0, k == 2)
		ms = append(ms, m)
		s.perform(both[m.who], m)
	}
	s.check(both, ms)
}

// TestsApartLong: one of the tests does much before the other does anything.
func TestsApartLong() {
	s := newShelf()
	both := [2]*bench{s.begin(), s.begin()}
	style := nd.Pick("style", 3)
	var ms []move
	for k := 0; k < 12; k++ {
		ms = append(ms, move{kind: (k + style) % 4, how: k / 4 % 3, d: 25 * time.Minute, to: []string{"i", "j"}[k%3%2]})
	}
	ms = append(ms, drawMove(false, false), drawMove(false, true))
	for _, m := range ms {
		s.perform(both[m.who], m)
	}
	s.check(both, ms)
}
