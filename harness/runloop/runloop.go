// Package runloop checks the loop that ticks an engine on a real or scaled
// clock.
package runloop

import (
	"context"
	"errors"
	"time"

	"github.com/dogmatiq/configkit"
	"github.com/dogmatiq/dogma"
	"github.com/dogmatiq/testkit/engine"
	"github.com/dogmatiq/testkit/fact"
	"github.com/dogmatiq/testkit/internal/zzverif/kit"
	"github.com/dogmatiq/testkit/internal/zzverif/nd"
)

// Harnesses are the entry points.
var Harnesses = map[string]func(){
	"Scaled":    Scaled,
	"Real":      Real,
	"Cancelled": Cancelled,
	"Deadline":  Deadline,
	"Failing":   Failing,
	"Refused":   Refused,
	"Options":   Options,
	"Handling":  Handling,
}

// a factor of time and the same as a fraction.
type factor struct {
	f    float64
	n, d int
}

var factors = []factor{{0.25, 1, 4}, {0.5, 1, 2}, {1, 1, 1}, {2, 2, 1}, {3.75, 15, 4}, {0.1, 1, 10}, {60, 60, 1}, {1000, 1000, 1}, {0.001, 1, 1000}, {1.5, 3, 2}}

// tolerance for the rounding of floating point numbers.
const tolerance = int(time.Microsecond)

// tick is what is seen of one tick.
type tick struct {
	now        time.Time // of the operation
	begun      time.Time // real time
	ended      time.Time
	completed  bool
	err        error
	compaction bool
}

// watch observes the ticks. Each one takes some time.
type watch struct {
	ticks []*tick
	begin func(int)
}

func (w *watch) Notify(f fact.Fact) {
	switch f := f.(type) {
	case fact.TickCycleBegun:
		w.ticks = append(w.ticks, &tick{now: f.EngineTime, begun: time.Now()})
		if w.begin != nil {
			w.begin(len(w.ticks))
		}
	case fact.TickCycleCompleted:
		t := w.ticks[len(w.ticks)-1]
		t.ended, t.completed, t.err = time.Now(), true, f.Error
	}
}

// duration is any duration up to an hour, or zero.
func duration(name string) time.Duration {
	if nd.Flip(name + "-zero") {
		return 0
	}
	return time.Duration(nd.Int(name, int(time.Millisecond), int(time.Hour)))
}

// run describes one call of Run() or RunTimeScaled().
type run struct {
	w      *watch
	start  time.Time
	end    time.Time
	d      time.Duration
	f      factor
	scaled bool
	epoch  time.Time
	err    error
}

func draw(scaled bool) *run {
	r := &run{w: &watch{}, f: factor{1, 1, 1}, scaled: scaled}
	if scaled {
		r.f = factors[nd.Pick("factor", len(factors))]
		if nd.Flip("epoch") {
			r.epoch = nd.Time("epoch")
		}
	}
	r.d = duration("interval")
	return r
}

func (r *run) run(ctx context.Context, e *engine.Engine, opts ...engine.OperationOption) {
	r.start = time.Now()
	opts = append(opts, engine.WithObserver(r.w))
	if r.scaled {
		r.err = engine.RunTimeScaled(ctx, e, r.d, r.f.f, r.epoch, opts...)
	} else {
		r.err = engine.Run(ctx, e, r.d, opts...)
	}
	r.end = time.Now()
}

func (r *run) interval() time.Duration {
	if r.d == 0 {
		return engine.DefaultTickInterval
	}
	return r.d
}

// check compares the ticks with the clock.
func (r *run) check() {
	epoch := r.epoch
	if epoch.IsZero() {
		epoch = r.start
	}
	for i, t := range r.w.ticks {
		real := int(t.begun.Sub(r.start))
		got := int(t.now.Sub(epoch))
		diff := got*r.f.d - real*r.f.n
		nd.Assert(nd.And(diff <= tolerance*r.f.d, diff >= -tolerance*r.f.d), "time-of-tick", i, got, real, r.f.f)
		if i == 0 {
			nd.Assert(t.begun.Equal(r.start), "first-tick-delayed", t.begun.Sub(r.start))
			nd.Assert(t.now.Equal(epoch), "first-tick-not-at-epoch")
			continue
		}
		p := r.w.ticks[i-1]
		nd.Assert(p.completed && p.err == nil, "tick-after-failure", i)
		nd.Assert(t.begun.Sub(p.ended) == r.interval(), "interval", i, t.begun.Sub(p.ended), r.interval())
		nd.Assert(!t.now.Before(p.now), "time-runs-backwards", i)
		nd.Reach("further-tick")
	}
}

func newEngine(handlers ...any) *engine.Engine {
	return engine.MustNew(configkit.FromApplication(&kit.App{Handlers: handlers}))
}

// stopAfter cancels the context within the n-th tick; the ticks before may
// take some time.
func (r *run) stopAfter(n int, cancel func()) {
	r.w.begin = func(i int) {
		if i == n {
			cancel()
		} else if nd.Flip("takes-time") {
			time.Sleep(time.Duration(nd.Int("tick", 1, int(time.Hour))))
			nd.Reach("long-tick")
		}
	}
}

func clocked(scaled bool, n int) {
	nd.Bubble(func() {
		r := draw(scaled)
		ctx, cancel := context.WithCancel(context.Background())
		defer cancel()
		r.stopAfter(n, cancel)
		r.run(ctx, newEngine())
		nd.Assert(r.err == context.Canceled, "error", r.err)
		nd.Assert(len(r.w.ticks) == n, "number-of-ticks", len(r.w.ticks))
		r.check()
	})
}

// Scaled: the time of each tick on a scaled clock.
func Scaled() { clocked(true, 4) }

// Real: the time of each tick on the real clock.
func Real() { clocked(false, 6) }

// Cancelled: the context is cancelled at any time.
func Cancelled() {
	nd.Bubble(func() {
		r := draw(nd.Flip("scaled"))
		ctx, cancel := context.WithCancel(context.Background())
		defer cancel()
		r.stopAfter(3, cancel)
		at := time.Duration(nd.Int("cancelled", 0, 3*int(time.Hour)))
		var when time.Time
		done := make(chan struct{})
		go func() {
			defer close(done)
			time.Sleep(at)
			when = time.Now()
			cancel()
		}()
		r.run(ctx, newEngine())
		<-done
		nd.Assert(r.err == context.Canceled, "error", r.err)
		r.stopped(when)
	})
}

// Deadline: the context has a deadline, which may have passed already.
func Deadline() {
	nd.Bubble(func() {
		r := draw(nd.Flip("scaled"))
		at := time.Duration(nd.Int("deadline", -1, 3*int(time.Hour)))
		when := time.Now().Add(at)
		ctx, cancel := context.WithTimeout(context.Background(), at)
		defer cancel()
		enough := false
		r.stopAfter(3, func() { enough = true; cancel() })
		r.run(ctx, newEngine())
		if enough {
			nd.Assert(r.err == context.Canceled || r.err == context.DeadlineExceeded, "error", r.err)
		} else {
			nd.Assert(r.err == context.DeadlineExceeded, "deadline-error", r.err)
			nd.Reach("deadline")
		}
		if at < 0 {
			when = r.start
		}
		r.stopped(when)
	})
}

// stopped checks that the loop ended when it was told to.
func (r *run) stopped(when time.Time) {
	r.check()
	n := len(r.w.ticks)
	if n == 0 {
		// the engine may refuse the first tick, or perform it
		nd.Assert(when.Equal(r.start), "no-tick")
		return
	}
	last := r.w.ticks[n-1]
	nd.Assert(last.completed, "tick-not-completed")
	if n == 3 {
		nd.Assert(r.end.Equal(last.ended), "late-end-of-last")
		nd.Reach("enough")
		return
	}
	nd.Assert(!last.begun.After(when), "tick-after-cancellation")
	if last.ended.Before(when) {
		nd.Assert(r.end.Equal(when), "not-stopped-at-once", r.end.Sub(when))
		nd.Assert(!when.After(last.ended.Add(r.interval())), "ticks-missing")
		nd.Reach("cancelled-between-ticks")
	} else {
		nd.Assert(r.end.Equal(last.ended), "not-stopped-after-tick", r.end.Sub(last.ended))
		nd.Reach("cancelled-during-tick")
	}
}

var errBroken = errors.New("broken")

// Failing: a timeout is due at any (scaled) time and handling it may fail.
func Failing() {
	nd.Bubble(func() {
		r := draw(true)
		handled := 0
		var at time.Time
		fails := nd.Flip("fails")
		var due time.Time
		p := &kit.Proc{
			Name: "proc", Key: kit.Key1,
			Routes: []dogma.ProcessRoute{dogma.HandlesEvent[kit.EvA](), dogma.ExecutesCommand[kit.CmdA](), dogma.SchedulesTimeout[kit.ToA]()},
			EventF: func(_ context.Context, _ dogma.ProcessRoot, s dogma.ProcessEventScope, m dogma.Event) error {
				s.ScheduleTimeout(kit.ToA{P: kit.P{To: "a"}}, due)
				return nil
			},
			TimeoutF: func(_ context.Context, _ dogma.ProcessRoot, s dogma.ProcessTimeoutScope, m dogma.Timeout) error {
				handled++
				at = r.w.ticks[len(r.w.ticks)-1].now
				if fails {
					return errBroken
				}
				return nil
			},
		}
		i := &kit.Integ{Name: "integ", Key: kit.Key2, Routes: []dogma.IntegrationRoute{dogma.HandlesCommand[kit.CmdA]()}}
		e := newEngine(p, i)
		epoch := r.epoch
		if epoch.IsZero() {
			epoch = time.Now()
		}
		due = epoch.Add(time.Duration(nd.Int("due", 1, 4*int(time.Hour))))
		if err := e.Dispatch(context.Background(), kit.EvA{P: kit.P{To: "a"}}, engine.WithCurrentTime(epoch)); err != nil {
			panic(err)
		}
		ctx, cancel := context.WithCancel(context.Background())
		defer cancel()
		const n = 3
		r.w.begin = func(i int) {
			if i == n {
				cancel()
			}
		}
		r.run(ctx, e)
		r.check()
		reached := -1
		for i, t := range r.w.ticks[:len(r.w.ticks)-1] {
			if reached < 0 && !t.now.Before(due) {
				reached = i
			}
		}
		if len(r.w.ticks) < n {
			last := r.w.ticks[len(r.w.ticks)-1]
			nd.Assert(fails && handled == 1, "stopped-without-failure", len(r.w.ticks), handled)
			nd.Assert(errors.Is(r.err, errBroken), "failure-not-reported", r.err)
			nd.Assert(reached < 0 && !last.now.Before(due), "failure-at-another-time")
			nd.Assert(r.end.Equal(last.ended), "late-end")
			nd.Reach("failed")
			return
		}
		nd.Assert(len(r.w.ticks) == n, "number-of-ticks")
		nd.Assert(r.err != nil, "no-error")
		if reached >= 0 {
			nd.Assert(!fails, "carried-on-after-failure")
			nd.Assert(handled == 1 && at.Equal(r.w.ticks[reached].now), "timeout-not-handled-when-due")
			nd.Reach("handled")
		} else {
			nd.Assert(handled == 0 || !at.Before(due), "timeout-early")
			nd.Reach("not-due")
		}
	})
}

// Refused: a projection that cannot be compacted ends the loop with its error.
func Refused() {
	nd.Bubble(func() {
		r := draw(nd.Flip("scaled"))
		calls := 0
		bad := nd.Pick("bad", 3)
		p := &kit.Proj{
			Name: "proj", Key: kit.Key1,
			Routes: []dogma.ProjectionRoute{dogma.HandlesEvent[kit.EvA]()},
			CompactF: func(ctx context.Context, s dogma.ProjectionCompactScope) error {
				calls++
				nd.Assert(s.Now().Equal(r.w.ticks[len(r.w.ticks)-1].now), "time-of-compaction")
				if calls == bad {
					return errBroken
				}
				return nil
			},
		}
		ctx, cancel := context.WithCancel(context.Background())
		defer cancel()
		r.w.begin = func(i int) {
			if i == 3 {
				cancel()
			}
		}
		off := nd.Flip("disabled")
		r.run(ctx, newEngine(p), engine.EnableProjections(!off))
		r.check()
		nd.Assert(!off || calls == 0, "options-ignored")
		nd.Assert(r.err != nil, "no-error")
		if bad > 0 && calls >= bad {
			nd.Assert(errors.Is(r.err, errBroken) || len(r.w.ticks) == 3, "error", r.err)
			nd.Assert(calls == bad, "carried-on")
			nd.Reach("refused")
		} else {
			nd.Assert(r.err == context.Canceled, "error", r.err)
			nd.Assert(len(r.w.ticks) == 3, "number-of-ticks")
		}
	})
}

// Handling: cancelling the context reaches the handlers of the tick that is
// in progress.
func Handling() {
	nd.Bubble(func() {
		r := draw(nd.Flip("scaled"))
		ctx, cancel := context.WithCancel(context.Background())
		defer cancel()
		waiting := false
		p := &kit.Proj{
			Name: "proj", Key: kit.Key1,
			Routes: []dogma.ProjectionRoute{dogma.HandlesEvent[kit.EvA]()},
			CompactF: func(ctx context.Context, _ dogma.ProjectionCompactScope) error {
				waiting = true
				<-ctx.Done()
				return ctx.Err()
			},
		}
		at := time.Duration(nd.Int("cancelled", 1, 3*int(time.Hour)))
		var when time.Time
		done := make(chan struct{})
		go func() {
			defer close(done)
			time.Sleep(at)
			when = time.Now()
			cancel()
		}()
		r.run(ctx, newEngine(p))
		<-done
		r.check()
		nd.Assert(waiting, "not-compacted")
		nd.Assert(r.err == context.Canceled, "error", r.err)
		nd.Assert(len(r.w.ticks) == 1 && r.end.Equal(when), "not-stopped-at-once", r.end.Sub(when))
		nd.Reach("interrupted")
	})
}

// Options: the caller's options are used by every tick and are left alone.
func Options() {
	nd.Bubble(func() {
		r := draw(nd.Flip("scaled"))
		ctx, cancel := context.WithCancel(context.Background())
		defer cancel()
		r.w.begin = func(i int) {
			if i == 3 {
				cancel()
			}
		}
		one, two := &kit.Facts{}, &kit.Facts{}
		opts := make([]engine.OperationOption, 0, 2+nd.Pick("room", 3))
		opts = append(opts, engine.WithObserver(one), engine.WithObserver(two))
		extra := opts[:cap(opts)]
		e := newEngine()
		r.start = time.Now()
		all := append([]engine.OperationOption{engine.WithObserver(r.w)}, opts...)
		if nd.Flip("shared") {
			all = opts
			one2 := &watch{begin: r.w.begin}
			r.w = one2
			opts[0] = engine.WithObserver(one2)
			one = nil
		}
		if r.scaled {
			r.err = engine.RunTimeScaled(ctx, e, r.d, r.f.f, r.epoch, all...)
		} else {
			r.err = engine.Run(ctx, e, r.d, all...)
		}
		nd.Assert(r.err == context.Canceled, "error", r.err)
		nd.Assert(len(r.w.ticks) == 3, "number-of-ticks")
		r.check()
		nd.Assert(len(two.All) == 6, "observer-of-every-tick", len(two.All))
		if one != nil {
			nd.Assert(len(one.All) == 6, "observer-of-every-tick", len(one.All))
		}
		for i := 2; i < len(extra); i++ {
			nd.Assert(extra[i] == nil, "caller's-slice-changed")
		}
		two.All = nil
		now := time.Date(2000, 1, 1, 0, 0, 0, 0, time.UTC)
		err := e.Tick(context.Background(), append([]engine.OperationOption{engine.WithCurrentTime(now)}, opts...)...)
		nd.Assert(err == nil, "tick")
		nd.Assert(len(two.All) == 2, "caller's-options-changed")
		for _, f := range two.All {
			if f, ok := f.(fact.TickCycleBegun); ok {
				nd.Assert(f.EngineTime.Equal(now), "caller's-options-changed")
			}
		}
	})
}
