package projections

import (
	"context"
	"errors"
	"time"

	"github.com/dogmatiq/configkit"
	"github.com/dogmatiq/dogma"
	"github.com/dogmatiq/testkit/engine"
	"github.com/dogmatiq/testkit/fact"
	"github.com/dogmatiq/testkit/internal/zzverif/kit"
	"github.com/dogmatiq/testkit/internal/zzverif/nd"
)

func init() {
	Harnesses["Interval"] = Interval
	Harnesses["Interval4"] = Interval4
	Harnesses["IntervalLong"] = IntervalLong
	Harnesses["IntervalDuring"] = IntervalDuring
	Harnesses["IntervalTwo"] = IntervalTwo
	Harnesses["During"] = During
	Harnesses["DuringMeet"] = DuringMeet
	Harnesses["DuringLog"] = DuringLog
	Harnesses["DuringPanic"] = DuringPanic
	Harnesses["CompactPanic"] = CompactPanic
}

const interval = time.Hour

// compacted is the model of one projection's compaction by ticks.
type compacted struct {
	name  string
	n     int
	err   error
	ever  bool
	last  time.Time
	seen  int // Compact calls in this tick
	given time.Time
}

func (c *compacted) proj(key string) *kit.Proj {
	return &kit.Proj{
		Name: c.name, Key: key,
		Routes: []dogma.ProjectionRoute{dogma.HandlesEvent[kit.EvA]()},
		CompactF: func(_ context.Context, s dogma.ProjectionCompactScope) error {
			c.seen++
			c.given = s.Now()
			c.err = nil
			if nd.Flip("fail-" + c.name) {
				c.err = &failure{c.name}
			}
			return c.err
		},
	}
}

// due tells whether a tick at now has to compact.
func (c *compacted) due(now time.Time) bool {
	return !c.ever || now.Sub(c.last) >= interval
}

func (c *compacted) settle(enabled bool, now time.Time, err error, facts []fact.Fact) {
	due := enabled && c.due(now)
	want := 0
	if due {
		want = 1
		c.ever, c.last = true, now
		nd.Assert(c.given.Equal(now), "compaction-time")
		nd.Assert(c.err == nil || errors.Is(err, c.err), "compaction-error-not-reported")
		nd.Reach("compacted")
	} else {
		nd.Reach("not-compacted")
	}
	nd.Assert(c.seen == want, "times-compacted", c.name, c.seen, want)
	begun, ended := 0, 0
	for _, f := range facts {
		switch f := f.(type) {
		case fact.ProjectionCompactionBegun:
			if f.Handler.Identity().Name == c.name {
				begun++
			}
		case fact.ProjectionCompactionCompleted:
			if f.Handler.Identity().Name == c.name {
				ended++
				nd.Assert(f.Error == c.err, "compaction-error-in-fact")
			}
		}
	}
	nd.Assert(begun == want && ended == want, "compaction-facts")
	c.seen = 0
}

// Interval: ticks at arbitrary times compact when they must; an event in
// between makes no difference.
func Interval()     { intervals(3, true) }
func Interval4()    { intervals(4, false) }
func IntervalLong() { intervals(5, false) }

// IntervalDuring: compaction while handling does not count either.
func IntervalDuring() {
	c := &compacted{name: "prj"}
	e := engine.MustNew(
		configkit.FromApplication(&kit.App{Handlers: []any{c.proj(kit.Key1)}}),
		engine.EnableProjectionCompactionDuringHandling(true),
	)
	event := func() {
		at := nd.Time("event")
		err := e.Dispatch(context.Background(), kit.EvA{}, engine.WithCurrentTime(at))
		nd.Assert(c.seen == 1 && c.given.Equal(at), "not-compacted-during-handling")
		nd.Assert((err == nil) == (c.err == nil) && errors.Is(err, c.err), "dispatch-error")
		c.seen, c.err = 0, nil
	}
	for k := 0; k < 2; k++ {
		if nd.Flip("event") {
			event()
			nd.Reach("event")
		}
		now := nd.Time("tick")
		var facts kit.Facts
		err := e.Tick(context.Background(), engine.WithCurrentTime(now), engine.WithObserver(&facts))
		c.settle(true, now, err, facts.All)
		nd.Assert(err == nil || c.err != nil, "tick-error")
		c.err = nil
	}
	nd.Reach("end")
}

func intervals(n int, events bool) {
	c := &compacted{name: "prj"}
	e := engine.MustNew(configkit.FromApplication(&kit.App{Handlers: []any{c.proj(kit.Key1)}}))
	for k := 0; k < n; k++ {
		now := nd.Time("tick")
		if events && k > 0 && nd.Flip("event") {
			nd.Assert(e.Dispatch(context.Background(), kit.EvA{}, engine.WithCurrentTime(nd.Time("event"))) == nil, "dispatch-error")
			nd.Assert(c.seen == 0, "compacted-by-event")
			nd.Reach("event")
		}
		var facts kit.Facts
		err := e.Tick(context.Background(), engine.WithCurrentTime(now), engine.WithObserver(&facts))
		c.settle(true, now, err, facts.All)
		nd.Assert(err == nil || c.err != nil, "tick-error")
		c.err = nil
	}
	nd.Reach("end")
}

// IntervalTwo: two projections, of which one may be disabled.
func IntervalTwo() {
	a, b := &compacted{name: "p1"}, &compacted{name: "p2"}
	e := engine.MustNew(configkit.FromApplication(&kit.App{Handlers: []any{a.proj(kit.Key1), b.proj(kit.Key2)}}))
	for k := 0; k < 2; k++ {
		now := nd.Time("tick")
		on := nd.Flip("enabled")
		var facts kit.Facts
		err := e.Tick(context.Background(), engine.WithCurrentTime(now), engine.WithObserver(&facts), engine.EnableHandler("p2", on))
		a.settle(true, now, err, facts.All)
		b.settle(on, now, err, facts.All)
		nd.Assert((err == nil) == (a.err == nil && b.err == nil), "tick-error")
		a.err, b.err = nil, nil
	}
	nd.Reach("end")
}

// site is a projection compacted while it handles.
type site struct {
	compacts, handles int
	compacting        bool
	handle            func(dogma.ProjectionEventScope) (bool, error)
	compact           func(dogma.ProjectionCompactScope) error
	closeErr          error
	stale             bool // events were applied already
}

func (x *site) engine() *engine.Engine {
	return engine.MustNew(
		configkit.FromApplication(&kit.App{Handlers: []any{&kit.Proj{
			Name: "prj", Key: kit.Key1,
			Routes: []dogma.ProjectionRoute{dogma.HandlesEvent[kit.EvA]()},
			EventF: func(_ context.Context, _, _, _ []byte, s dogma.ProjectionEventScope, _ dogma.Event) (bool, error) {
				x.handles++
				nd.Yield()
				return x.handle(s)
			},
			CompactF: func(_ context.Context, s dogma.ProjectionCompactScope) error {
				x.compacts++
				x.compacting = true
				defer func() { x.compacting = false }()
				nd.Yield()
				return x.compact(s)
			},
			CloseF: func(context.Context, []byte) error { return x.closeErr },
			VersionF: func(context.Context, []byte) ([]byte, error) {
				if x.stale {
					return []byte{1}, nil
				}
				return nil, nil
			},
		}}}),
		engine.EnableProjectionCompactionDuringHandling(true),
	)
}

// During: results of handling, closing and compacting, in every order.
func During() {
	nd.Race()
	nd.Preemptions(3)
	var hErr, cErr error
	ok := true
	x := &site{}
	switch nd.Pick("handle", 3) {
	case 1:
		ok = false
	case 2:
		hErr, ok = &failure{"handle"}, false
	}
	if nd.Flip("compact") {
		cErr = &failure{"compact"}
	}
	if nd.Flip("close") {
		x.closeErr = &failure{"close"}
	}
	x.handle = func(dogma.ProjectionEventScope) (bool, error) { nd.Yield(); return ok, hErr }
	x.compact = func(s dogma.ProjectionCompactScope) error {
		nd.Assert(s.Now().Equal(t0), "compaction-time")
		nd.Yield()
		return cErr
	}
	e := x.engine()
	for k := 1; k <= 2; k++ {
		var facts kit.Facts
		err := e.Dispatch(context.Background(), kit.EvA{}, engine.WithCurrentTime(t0), engine.WithObserver(&facts))
		nd.Assert(!x.compacting, "compaction-outlives-the-operation")
		nd.Assert(x.compacts == k && x.handles == k, "times-compacted", x.compacts, x.handles)
		nd.Assert(hErr == nil || errors.Is(err, hErr), "handling-error-not-reported")
		if hErr == nil && (!ok || x.closeErr == nil) {
			nd.Assert(cErr == nil || errors.Is(err, cErr), "compaction-error-not-reported")
			nd.Assert((err == nil) == (cErr == nil), "result")
			if cErr != nil {
				nd.Reach("compaction-error")
			}
		}
		begun, ended := 0, 0
		for _, f := range facts.All {
			switch f := f.(type) {
			case fact.ProjectionCompactionBegun:
				begun++
			case fact.ProjectionCompactionCompleted:
				ended++
				nd.Assert(begun == 1 && f.Error == cErr, "compaction-error-in-fact")
			}
		}
		nd.Assert(begun == 1 && ended == 1, "compaction-facts")
	}
	x.stale = true
	err := e.Dispatch(context.Background(), kit.EvA{}, engine.WithCurrentTime(t0))
	nd.Assert(err == nil && x.compacts == 2 && x.handles == 2, "compacted-without-handling")
	nd.Reach("end")
}

// DuringMeet: handling and compaction wait for each other, so neither may be
// delayed until the other one has returned.
func DuringMeet() {
	nd.Race()
	nd.Preemptions(2)
	a, b := make(chan struct{}), make(chan struct{})
	x := &site{
		handle:  func(dogma.ProjectionEventScope) (bool, error) { close(a); <-b; return true, nil },
		compact: func(dogma.ProjectionCompactScope) error { close(b); <-a; return nil },
	}
	err := x.engine().Dispatch(context.Background(), kit.EvA{}, engine.WithCurrentTime(t0))
	nd.Assert(err == nil && x.compacts == 1 && x.handles == 1, "result")
	nd.Reach("end")
}

// DuringLog: handling and compaction write to the log; the observer, which is
// not required to be safe for concurrent use, is told everything.
func DuringLog() {
	nd.Race()
	nd.Preemptions(2)
	x := &site{
		handle:  func(s dogma.ProjectionEventScope) (bool, error) { s.Log("handling"); return true, nil },
		compact: func(s dogma.ProjectionCompactScope) error { s.Log("compacting"); return nil },
	}
	var facts kit.Facts
	err := x.engine().Dispatch(context.Background(), kit.EvA{}, engine.WithCurrentTime(t0), engine.WithObserver(&facts))
	nd.Assert(err == nil, "result")
	h, c := 0, 0
	for _, f := range facts.All {
		if f, ok := f.(fact.MessageLoggedByProjection); ok {
			switch f.LogFormat {
			case "handling":
				nd.Assert(f.Envelope != nil, "log-envelope")
				h++
			case "compacting":
				nd.Assert(f.Envelope == nil, "log-envelope")
				c++
			}
		}
	}
	nd.Assert(h == 1 && c == 1, "log-lost", h, c)
	nd.Reach("end")
}

type boom struct{}

// DuringPanic: the handler panics while the projection is compacted.
func DuringPanic() {
	nd.Race()
	nd.Preemptions(2)
	bad := true
	own := &boom{}
	x := &site{
		handle: func(dogma.ProjectionEventScope) (bool, error) {
			if bad {
				panic(own)
			}
			return true, nil
		},
		compact: func(dogma.ProjectionCompactScope) error { nd.Yield(); return nil },
	}
	e := x.engine()
	do := func() error { return e.Dispatch(context.Background(), kit.EvA{}, engine.WithCurrentTime(t0)) }
	panicked, v := kit.Panics(func() { _ = do() })
	nd.Assert(panicked && v == any(own), "panic-value-changed")
	nd.Assert(!x.compacting && x.compacts == 1, "compaction-outlives-the-operation")
	bad = false
	nd.Assert(do() == nil && x.compacts == 2, "engine-unusable")
	nd.Reach("end")
}

// CompactPanic: the compaction panics while an event is handled.
func CompactPanic() {
	nd.Race()
	nd.Preemptions(2)
	bad := true
	own := &boom{}
	fails := nd.Flip("handling-fails")
	x := &site{
		handle: func(dogma.ProjectionEventScope) (bool, error) {
			if fails {
				return false, &failure{"handle"}
			}
			return true, nil
		},
		compact: func(dogma.ProjectionCompactScope) error {
			if bad {
				panic(own)
			}
			return nil
		},
	}
	e := x.engine()
	do := func() error { return e.Dispatch(context.Background(), kit.EvA{}, engine.WithCurrentTime(t0)) }
	panicked, v := kit.Panics(func() { _ = do() })
	nd.Assert(panicked && v == any(own), "compaction-panic-lost")
	bad, fails = false, false
	nd.Assert(do() == nil && x.compacts == 2, "engine-unusable")
	nd.Reach("end")
}
