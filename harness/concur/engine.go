// Package concur runs several operations or goroutines at a time.
package concur

import (
	"context"
	"errors"
	"sync"
	"time"

	"github.com/dogmatiq/configkit"
	"github.com/dogmatiq/dogma"
	"github.com/dogmatiq/testkit/engine"
	"github.com/dogmatiq/testkit/fact"
	"github.com/dogmatiq/testkit/internal/zzverif/kit"
	"github.com/dogmatiq/testkit/internal/zzverif/nd"
)

var Harnesses = map[string]func(){
	"TwoOperations":    TwoOperations,
	"ThreeOperations":  ThreeOperations,
	"WithReset":        WithReset,
	"WaitingCancelled": WaitingCancelled,
	"Cancelling":       Cancelling,
	"PanickingTick":    PanickingTick,
}

var t0 = time.Unix(1000000000, 0).UTC()

type boom struct{}

// site is an engine whose handlers must never run at the same time.
type site struct {
	e       *engine.Engine
	inside  bool
	applied map[string]int // events per aggregate instance
	answers int            // commands executed by the process
	touts   int            // timeouts handled
	panics  bool           // the command numbered 9 makes the handler panic
	hold    func()         // called by the handler of command 8
}

func (s *site) enter() {
	nd.Assert(!s.inside, "handlers-overlap")
	s.inside = true
	nd.Yield()
}

func (s *site) leave() { s.inside = false }

func newSite(more ...any) *site {
	s := &site{applied: map[string]int{}}
	s.e = engine.MustNew(configkit.FromApplication(&kit.App{Handlers: append([]any{
		&kit.Agg{
			Name: "agg", Key: kit.Key1,
			Routes: []dogma.AggregateRoute{dogma.HandlesCommand[kit.CmdA](), dogma.RecordsEvent[kit.EvA]()},
			HandleF: func(r dogma.AggregateRoot, x dogma.AggregateCommandScope, m dogma.Command) {
				s.enter()
				defer s.leave()
				id := x.InstanceID()
				nd.Assert(len(r.(*kit.Root).Log) == s.applied[id], "instance-state")
				switch kit.Payload(m).N {
				case 8:
					s.hold()
				case 9:
					panic(boom{})
				}
				x.RecordEvent(kit.EvA{P: kit.P{To: id}})
				s.applied[id]++
			},
		},
		&kit.Proc{
			Name: "proc", Key: kit.Key2,
			Routes: []dogma.ProcessRoute{
				dogma.HandlesEvent[kit.EvA](), dogma.ExecutesCommand[kit.CmdB](), dogma.SchedulesTimeout[kit.ToA](),
			},
			EventF: func(_ context.Context, _ dogma.ProcessRoot, x dogma.ProcessEventScope, m dogma.Event) error {
				s.enter()
				defer s.leave()
				x.ExecuteCommand(kit.CmdB{})
				x.ScheduleTimeout(kit.ToA{}, t0.Add(time.Hour))
				return nil
			},
			TimeoutF: func(_ context.Context, _ dogma.ProcessRoot, x dogma.ProcessTimeoutScope, m dogma.Timeout) error {
				s.enter()
				defer s.leave()
				s.touts++
				return nil
			},
		},
		&kit.Integ{
			Name: "int", Key: kit.Key3,
			Routes: []dogma.IntegrationRoute{dogma.HandlesCommand[kit.CmdB]()},
			HandleF: func(context.Context, dogma.IntegrationCommandScope, dogma.Command) error {
				s.enter()
				defer s.leave()
				s.answers++
				return nil
			},
		},
	}, more...)}), engine.WithResetter(func() {
		s.enter()
		defer s.leave()
		s.applied = map[string]int{}
		s.answers, s.touts = 0, 0
	}))
	return s
}

// job is one operation and what it observed.
type job struct {
	kind     int
	to       string
	err      error
	panicked bool
	ids      []string
}

func (j *job) Notify(f fact.Fact) {
	if f, ok := f.(fact.DispatchBegun); ok {
		j.ids = append(j.ids, f.Envelope.MessageID)
	}
}

const (
	dispatchCommand = iota
	dispatchEvent
	tick
	panicking
	reset
	panickingTick
)

func (s *site) run(ctx context.Context, j *job) {
	opts := []engine.OperationOption{engine.WithCurrentTime(t0), engine.WithObserver(j)}
	j.panicked, _ = kit.Panics(func() {
		switch j.kind {
		case dispatchCommand:
			j.err = s.e.Dispatch(ctx, kit.CmdA{P: kit.P{To: j.to}}, opts...)
		case dispatchEvent:
			j.err = s.e.Dispatch(ctx, kit.EvA{P: kit.P{To: j.to}}, opts...)
		case tick:
			j.err = s.e.Tick(ctx, engine.WithCurrentTime(t0.Add(time.Hour)), engine.WithObserver(j))
		case panicking:
			j.err = s.e.Dispatch(ctx, kit.CmdA{P: kit.P{To: j.to, N: 9}}, opts...)
		case reset:
			s.e.Reset()
		case panickingTick:
			j.err = s.e.Tick(ctx, engine.WithCurrentTime(explosion), engine.WithObserver(j))
		}
	})
}

func (s *site) all(ctx context.Context, jobs []*job) {
	var wg sync.WaitGroup
	for _, j := range jobs {
		wg.Add(1)
		go func() {
			defer wg.Done()
			s.run(ctx, j)
		}()
	}
	wg.Wait()
}

// settle checks the outcome of operations that all ran.
func (s *site) settle(jobs []*job, resets bool) {
	cmds, evs := 0, 0
	ids := map[string]bool{}
	for _, j := range jobs {
		nd.Assert(j.err == nil, "operation-error")
		nd.Assert(j.panicked == (j.kind == panicking || j.kind == panickingTick), "operation-panic")
		own := map[string]bool{}
		for _, id := range j.ids {
			nd.Assert(!own[id], "message-id-used-twice-in-an-operation", id)
			own[id] = true
			nd.Assert(resets || !ids[id], "message-id-used-twice", id)
			ids[id] = true
		}
		switch j.kind {
		case dispatchCommand:
			cmds++
		case dispatchEvent:
			evs++
		case panicking:
			nd.Reach("panic")
		}
	}
	if !resets {
		sum := 0
		for _, n := range s.applied {
			sum += n
		}
		nd.Assert(sum == cmds, "events-recorded", sum, cmds)
		nd.Assert(s.answers == cmds+evs, "commands-executed", s.answers, cmds+evs)
	}
	// whatever remains is consistent: a last round of operations
	s.run(context.Background(), &job{kind: tick})
	if !resets {
		nd.Assert(s.touts == cmds+evs, "timeouts-handled", s.touts, cmds+evs)
	}
	for _, to := range []string{"i", "j"} {
		j := &job{kind: dispatchCommand, to: to}
		s.run(context.Background(), j)
		nd.Assert(j.err == nil && !j.panicked, "engine-unusable")
	}
	nd.Reach("end")
}

func draw(kinds int) *job {
	return &job{kind: nd.Pick("kind", kinds), to: nd.Str("to", "i", "j")}
}

// TwoOperations at a time, in every order.
func TwoOperations() {
	nd.Race()
	nd.Preemptions(2)
	s := newSite()
	jobs := []*job{draw(4), draw(4)}
	s.all(context.Background(), jobs)
	s.settle(jobs, false)
}

// ThreeOperations at a time; which of them is started first does not matter,
// nor do the names of the instances.
func ThreeOperations() {
	nd.Race()
	nd.Preemptions(1)
	s := newSite()
	jobs := []*job{{to: "i"}, {to: "i"}, {to: nd.Str("to", "i", "j")}}
	least := 0
	for _, j := range jobs {
		least += nd.Pick("kind", 4-least)
		j.kind = least
	}
	s.all(context.Background(), jobs)
	s.settle(jobs, false)
}

// WithReset: one of the operations is a reset; the other one's messages have
// the IDs they have if it is performed before or after the reset.
func WithReset() {
	nd.Race()
	nd.Preemptions(2)
	s, before, after := newSite(), newSite(), newSite()
	if nd.Flip("earlier") {
		j := &job{kind: dispatchCommand, to: "i"}
		s.run(context.Background(), j)
		before.run(context.Background(), &job{kind: j.kind, to: j.to})
	}
	j := draw(4)
	jobs := []*job{j, {kind: reset}}
	s.all(context.Background(), jobs)
	b, a := &job{kind: j.kind, to: j.to}, &job{kind: j.kind, to: j.to}
	before.run(context.Background(), b)
	after.run(context.Background(), a)
	nd.Assert(same(j.ids, b.ids) || same(j.ids, a.ids), "message-ids", j.ids)
	s.settle(jobs, true)
}

var explosion = t0.Add(3 * time.Hour)

// PanickingTick: a compaction makes a tick panic while another operation waits
// or runs.
func PanickingTick() {
	nd.Race()
	nd.Preemptions(2)
	s := newSite(&kit.Proj{
		Name: "prj", Key: kit.Key4,
		Routes: []dogma.ProjectionRoute{dogma.HandlesEvent[kit.EvB]()},
		CompactF: func(_ context.Context, x dogma.ProjectionCompactScope) error {
			if x.Now().Equal(explosion) {
				panic(boom{})
			}
			return nil
		},
	})
	jobs := []*job{draw(4), {kind: panickingTick}}
	s.all(context.Background(), jobs)
	s.settle(jobs, true)
}

func same(a, b []string) bool {
	if len(a) != len(b) {
		return false
	}
	for i := range a {
		if a[i] != b[i] {
			return false
		}
	}
	return true
}

// WaitingCancelled: an operation that waits for another one is cancelled.
func WaitingCancelled() {
	nd.Race()
	nd.Preemptions(2)
	s := newSite()
	ctx, cancel := context.WithCancel(context.Background())
	defer cancel()
	running := make(chan struct{})
	proceed := make(chan struct{})
	s.hold = func() {
		close(running)
		<-proceed
	}
	first := make(chan error, 1)
	go func() {
		first <- s.e.Dispatch(context.Background(), kit.CmdA{P: kit.P{To: "i", N: 8}}, engine.WithCurrentTime(t0))
	}()
	<-running
	late := nd.Flip("late") // cancelled while it waits, or beforehand
	if !late {
		cancel()
	}
	j := draw(4)
	done := make(chan struct{})
	go func() {
		s.run(ctx, j)
		close(done)
	}()
	if late {
		cancel()
		nd.Reach("late")
	}
	<-done
	nd.Assert(!j.panicked && errors.Is(j.err, context.Canceled), "waiting-operation-result")
	nd.Assert(len(j.ids) == 0, "cancelled-operation-has-an-effect")
	close(proceed)
	nd.Assert(<-first == nil, "operation-error")
	s.settle([]*job{{kind: dispatchCommand}}, false)
}

// Cancelling: an operation may be cancelled while it waits or runs; the other
// one is not affected.
func Cancelling() {
	nd.Race()
	nd.Preemptions(1)
	s := newSite()
	ctx, cancel := context.WithCancel(context.Background())
	j := &job{kind: nd.Pick("kind", 2), to: "i"}
	other := &job{kind: nd.Pick("other", 4), to: nd.Str("to", "i", "j")}
	var wg sync.WaitGroup
	wg.Add(3)
	go func() { defer wg.Done(); s.run(ctx, j) }()
	go func() { defer wg.Done(); s.run(context.Background(), other) }()
	go func() { defer wg.Done(); cancel() }()
	wg.Wait()
	nd.Assert(other.err == nil && other.panicked == (other.kind == panicking), "other-operation")
	nd.Assert(!j.panicked && (j.err == nil || errors.Is(j.err, context.Canceled)), "cancelled-operation")
	want := 0
	if len(j.ids) > 0 && j.kind == dispatchCommand {
		want++
	}
	if other.kind == dispatchCommand {
		want++
	}
	sum := 0
	for _, n := range s.applied {
		sum += n
	}
	nd.Assert(sum == want, "events-recorded", sum, want)
	if j.err == nil {
		nd.Reach("completed")
	} else if len(j.ids) > 0 {
		nd.Reach("interrupted")
	} else {
		nd.Reach("refused")
	}
	last := &job{kind: dispatchCommand, to: "i"}
	s.run(context.Background(), last)
	nd.Assert(last.err == nil && !last.panicked, "engine-unusable")
	nd.Reach("end")
}
