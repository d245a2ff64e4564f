package instances

import (
	"context"
	"errors"
	"time"

	"github.com/dogmatiq/configkit"
	"github.com/dogmatiq/dogma"
	"github.com/dogmatiq/testkit/engine"
	"github.com/dogmatiq/testkit/fact"
	"github.com/dogmatiq/testkit/internal/zzverif/kit"
	"github.com/dogmatiq/testkit/internal/zzverif/nd"
)

func init() {
	Harnesses["Processes"] = Processes
	Harnesses["Processes4"] = Processes4
	Harnesses["TwoHandlers"] = TwoHandlers
	Harnesses["ByTimeout"] = ByTimeout
	Harnesses["SeveralDue"] = SeveralDue
	Harnesses["WithinOne"] = WithinOne
	Harnesses["FailedMutation"] = FailedMutation
}

var errFailed = errors.New("failed")

// book is the model of one process handler.
type book struct {
	name    string
	state   map[string][]int // roots by instance
	cmds    []int            // commands that must be executed
	pending map[int]string   // timeouts that are due later, by instance
	n       *int
}

func newBook(name string, n *int) *book {
	return &book{name: name, state: map[string][]int{}, pending: map[int]string{}, n: n}
}

// E ends, C executes a command, c one that is equal to the last, T schedules a timeout for later, I one that is
// due immediately; the handling fails if the script ends in F. The handler
// changes the root unless it fails.
var procScripts = []string{"", "C", "T", "E", "EC", "ET", "CE", "TE", "CTF", "EF", "TEC", "EI", "Cc", "CEC", "TET"}

type procScope interface {
	InstanceID() string
	End()
	ExecuteCommand(dogma.Command)
	ScheduleTimeout(dogma.Timeout, time.Time)
}

func (b *book) handle(script string, root dogma.ProcessRoot, s procScope) error {
	r := root.(*kit.PRoot)
	id := s.InstanceID()
	was, exists := b.state[id]
	nd.Assert(same(r.Log, was), "root-is-not-what-was-left", b.name, len(r.Log), len(was))
	if exists && len(was) > 1 {
		nd.Reach("continued")
	}
	ended := false
	var cmds, touts []int
	for _, c := range script {
		if c != 'c' {
			*b.n++
		}
		n := *b.n
		switch c {
		case 'C', 'c':
			s.ExecuteCommand(kit.CmdB{P: kit.P{N: n}})
			cmds = append(cmds, n)
			ended = false
		case 'T', 'I':
			at := t0
			if c == 'T' {
				at = t0.Add(time.Hour)
			}
			s.ScheduleTimeout(kit.ToA{P: kit.P{N: n}}, at)
			touts = append(touts, n)
			ended = false
		case 'E':
			s.End()
			ended = true
		case 'F':
			nd.Reach("failed")
			return errFailed
		}
	}
	*b.n++
	r.Log = append(r.Log, *b.n)
	b.cmds = append(b.cmds, cmds...)
	if ended {
		delete(b.state, id)
		for t, i := range b.pending {
			if i == id {
				delete(b.pending, t)
			}
		}
		nd.Reach("ended")
		return nil
	}
	b.state[id] = append([]int(nil), r.Log...)
	for _, t := range touts {
		b.pending[t] = id
	}
	return nil
}

func (b *book) proc(key string, script func() string) *kit.Proc {
	return &kit.Proc{
		Name: b.name, Key: key,
		Routes: []dogma.ProcessRoute{
			dogma.HandlesEvent[kit.EvA](), dogma.ExecutesCommand[kit.CmdB](), dogma.SchedulesTimeout[kit.ToA](),
		},
		RouteF: func(m dogma.Event) (string, bool, error) {
			return kit.Payload(m).To, kit.Payload(m).Op == 0, nil
		},
		EventF: func(_ context.Context, r dogma.ProcessRoot, s dogma.ProcessEventScope, _ dogma.Event) error {
			return b.handle(script(), r, s)
		},
		TimeoutF: func(_ context.Context, r dogma.ProcessRoot, s dogma.ProcessTimeoutScope, m dogma.Timeout) error {
			n := kit.Payload(m).N
			id, ok := b.pending[n]
			nd.Assert(ok && id == s.InstanceID(), "timeout-of-nobody")
			nd.Assert(same(r.(*kit.PRoot).Log, b.state[id]), "root-is-not-what-was-left")
			delete(b.pending, n)
			return nil
		},
	}
}

// executor of the commands, keeping their numbers
func commands(got *[]int) *kit.Integ {
	return &kit.Integ{
		Name: "int", Key: kit.Key6,
		Routes: []dogma.IntegrationRoute{dogma.HandlesCommand[kit.CmdB]()},
		HandleF: func(_ context.Context, _ dogma.IntegrationCommandScope, m dogma.Command) error {
			*got = append(*got, kit.Payload(m).N)
			return nil
		},
	}
}

func Processes()  { processes(3) }
func Processes4() { processes(4) }

// processes: events for two instances, some declined, then a tick at which
// every remaining timeout is due.
func processes(n int) {
	num := 0
	var got []int
	b := newBook("proc", &num)
	e := engine.MustNew(configkit.FromApplication(&kit.App{Handlers: []any{
		b.proc(kit.Key1, func() string { return procScripts[nd.Pick("script", len(procScripts))] }),
		commands(&got),
	}}))
	for k := 0; k < n; k++ {
		p := kit.P{To: nd.Str("to", "i", "j"), Op: nd.Int("decline", 0, 1)}
		if k > 0 && k < n-1 {
			p.Op = 0
		}
		var facts kit.Facts
		before := num
		err := e.Dispatch(context.Background(), kit.EvA{P: p}, engine.WithCurrentTime(t0), engine.WithObserver(&facts))
		nd.Assert(err == nil || errors.Is(err, errFailed), "dispatch-error")
		nd.Assert(same(b.cmds, got), "commands-executed", len(b.cmds), len(got))
		ignored := 0
		for _, f := range facts.All {
			if _, ok := f.(fact.ProcessEventIgnored); ok {
				ignored++
			}
		}
		nd.Assert(ignored == p.Op, "declined-event-reported")
		if p.Op == 1 {
			nd.Assert(num == before && err == nil, "declined-event-handled")
			nd.Reach("declined")
		}
	}
	nd.Assert(e.Tick(context.Background(), engine.WithCurrentTime(t0.Add(time.Hour))) == nil, "tick-error")
	nd.Assert(len(b.pending) == 0, "timeout-not-scheduled")
	nd.Reach("end")
}

// TwoHandlers: two processes handle the same events with the same instance IDs.
func TwoHandlers() {
	num := 0
	var got []int
	few := []string{"", "C", "TE", "CTF"}
	b1, b2 := newBook("p1", &num), newBook("p2", &num)
	e := engine.MustNew(configkit.FromApplication(&kit.App{Handlers: []any{
		b1.proc(kit.Key1, func() string { return few[nd.Pick("script-p1", len(few))] }),
		b2.proc(kit.Key2, func() string { return few[nd.Pick("script-p2", len(few))] }),
		commands(&got),
	}}))
	for k := 0; k < 2; k++ {
		p := kit.P{To: nd.Str("to", "i", "j")}
		err := e.Dispatch(context.Background(), kit.EvA{P: p}, engine.WithCurrentTime(t0))
		nd.Assert(err == nil || errors.Is(err, errFailed), "dispatch-error")
		nd.Assert(len(b1.cmds)+len(b2.cmds) == len(got), "commands-executed")
	}
	nd.Reach("end")
}

// ByTimeout: handling a timeout can also continue, end or fail.
func ByTimeout() {
	num := 0
	var got []int
	b := newBook("proc", &num)
	first := true
	p := b.proc(kit.Key1, func() string {
		if first {
			first = false
			return "T"
		}
		return []string{"", "C", "E", "CTF"}[nd.Pick("script", 4)]
	})
	at := t0.Add(time.Hour)
	p.TimeoutF = func(_ context.Context, r dogma.ProcessRoot, s dogma.ProcessTimeoutScope, m dogma.Timeout) error {
		delete(b.pending, kit.Payload(m).N)
		nd.Reach("timeout")
		script := []string{"", "C", "E", "EC", "CE", "CTF", "EF"}[nd.Pick("timeout", 7)]
		return b.handle(script, r, s)
	}
	e := engine.MustNew(configkit.FromApplication(&kit.App{Handlers: []any{p, commands(&got)}}))
	check := func(err error) {
		nd.Assert(err == nil || errors.Is(err, errFailed), "operation-error")
		nd.Assert(same(b.cmds, got), "commands-executed", len(b.cmds), len(got))
	}
	for k := 0; k < 3; k++ {
		if k > 0 && nd.Flip("tick") {
			check(e.Tick(context.Background(), engine.WithCurrentTime(at)))
		} else {
			to := "i"
			if k > 0 {
				to = nd.Str("to", "i", "j")
			}
			check(e.Dispatch(context.Background(), kit.EvA{P: kit.P{To: to}}, engine.WithCurrentTime(t0)))
		}
	}
	nd.Reach("end")
}

// SeveralDue: two timeouts of one instance and one of another are due in one
// tick; the first ends its instance, which is then over.
func SeveralDue() {
	nd.MapOrders()
	at := [3]int{nd.Int("at", 1, 3), nd.Int("at", 1, 3), nd.Int("at", 1, 3)}
	ender := nd.Int("ender", 0, 2)
	again := nd.Flip("again")
	over := map[string]bool{}
	begun := map[string]int{}
	var got []int
	p := &kit.Proc{
		Name: "proc", Key: kit.Key1,
		Routes: []dogma.ProcessRoute{
			dogma.HandlesEvent[kit.EvA](), dogma.HandlesEvent[kit.EvB](),
			dogma.ExecutesCommand[kit.CmdB](), dogma.SchedulesTimeout[kit.ToA](),
		},
		EventF: func(_ context.Context, r dogma.ProcessRoot, s dogma.ProcessEventScope, m dogma.Event) error {
			id := s.InstanceID()
			root := r.(*kit.PRoot)
			if _, ok := m.(kit.EvB); ok {
				nd.Assert(len(root.Log) == 0 || !over[id], "root-is-not-what-was-left")
				over[id] = false
				root.Log = nil
				return nil
			}
			begun[id]++
			root.Log = append(root.Log, 1)
			n := kit.Payload(m).N
			s.ScheduleTimeout(kit.ToA{P: kit.P{N: n, To: id}}, t0.Add(time.Duration(at[n])*time.Second))
			return nil
		},
		TimeoutF: func(_ context.Context, r dogma.ProcessRoot, s dogma.ProcessTimeoutScope, m dogma.Timeout) error {
			x := kit.Payload(m)
			nd.Assert(s.InstanceID() == x.To, "timeout-of-nobody")
			nd.Assert(!over[x.To], "timeout-of-ended-instance")
			nd.Assert(len(r.(*kit.PRoot).Log) == begun[x.To], "root-is-not-what-was-left")
			got = append(got, x.N)
			if x.N == ender {
				s.End()
				s.ExecuteCommand(kit.CmdB{P: kit.P{To: x.To}})
				s.End()
				over[x.To] = true
			}
			return nil
		},
	}
	cmds := 0
	var e *engine.Engine
	e = engine.MustNew(configkit.FromApplication(&kit.App{Handlers: []any{p, &kit.Integ{
		Name: "int", Key: kit.Key6,
		Routes: []dogma.IntegrationRoute{dogma.HandlesCommand[kit.CmdB](), dogma.RecordsEvent[kit.EvB]()},
		HandleF: func(_ context.Context, s dogma.IntegrationCommandScope, m dogma.Command) error {
			cmds++
			if again {
				s.RecordEvent(kit.EvB{P: kit.P{To: kit.Payload(m).To}})
				nd.Reach("again")
			}
			return nil
		},
	}}}))
	for n, to := range []string{"i", "i", "j"} {
		nd.Assert(e.Dispatch(context.Background(), kit.EvA{P: kit.P{To: to, N: n}}, engine.WithCurrentTime(t0)) == nil, "dispatch-error")
	}
	nd.Assert(e.Tick(context.Background(), engine.WithCurrentTime(t0.Add(time.Minute))) == nil, "tick-error")
	want := 3
	if ender == 0 && at[0] < at[1] || ender == 1 && at[1] < at[0] {
		want = 2
		nd.Reach("cut-short")
	}
	nd.Assert(len(got) == want || at[0] == at[1], "timeouts-handled", len(got), want)
	nd.Assert(cmds <= 1, "commands-executed")
	nd.Reach("end")
}

// WithinOne: one operation makes several events for the same instance; the
// first may schedule a timeout that is due at once and end the instance, the
// second may begin it again.
func WithinOne() {
	num := 0
	var got []int
	b := newBook("proc", &num)
	scripts := []string{"", "C", "I", "IE", "E", "EI", "IC", "T", "IF"}
	p := b.proc(kit.Key1, func() string { return scripts[nd.Pick("script", len(scripts))] })
	e := engine.MustNew(configkit.FromApplication(&kit.App{Handlers: []any{
		p,
		commands(&got),
		&kit.Integ{
			Name: "source", Key: kit.Key5,
			Routes: []dogma.IntegrationRoute{dogma.HandlesCommand[kit.CmdA](), dogma.RecordsEvent[kit.EvA]()},
			HandleF: func(_ context.Context, s dogma.IntegrationCommandScope, _ dogma.Command) error {
				s.RecordEvent(kit.EvA{P: kit.P{To: "i"}})
				s.RecordEvent(kit.EvA{P: kit.P{To: nd.Str("to", "i", "j")}})
				s.RecordEvent(kit.EvA{P: kit.P{To: "i"}})
				return nil
			},
		},
	}}))
	err := e.Dispatch(context.Background(), kit.CmdA{}, engine.WithCurrentTime(t0))
	nd.Assert(err == nil || errors.Is(err, errFailed), "dispatch-error")
	nd.Assert(same(b.cmds, got), "commands-executed", len(b.cmds), len(got))
	nd.Assert(e.Tick(context.Background(), engine.WithCurrentTime(t0.Add(time.Hour))) == nil, "tick-error")
	nd.Assert(len(b.pending) == 0, "timeout-not-scheduled")
	nd.Reach("end")
}

// FailedMutation: what a handler did to the root before it failed is undone.
func FailedMutation() {
	fail := false
	n := 0
	e := engine.MustNew(configkit.FromApplication(&kit.App{Handlers: []any{&kit.Proc{
		Name: "proc", Key: kit.Key1,
		Routes: []dogma.ProcessRoute{dogma.HandlesEvent[kit.EvA](), dogma.ExecutesCommand[kit.CmdB]()},
		EventF: func(_ context.Context, root dogma.ProcessRoot, s dogma.ProcessEventScope, _ dogma.Event) error {
			r := root.(*kit.PRoot)
			n++
			if n == 3 {
				nd.Assert(len(r.Log) == 1, "mutation-of-failed-handling-kept")
			}
			r.Log = append(r.Log, 1)
			if fail {
				return errFailed
			}
			return nil
		},
	}, commands(new([]int))}}))
	for k := 0; k < 3; k++ {
		fail = k == 1
		err := e.Dispatch(context.Background(), kit.EvA{P: kit.P{To: "i"}}, engine.WithCurrentTime(t0))
		nd.Assert((err != nil) == fail, "dispatch-error")
	}
}
