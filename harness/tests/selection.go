package tests

import (
	"context"
	"regexp"

	"github.com/dogmatiq/dogma"
	"github.com/dogmatiq/testkit"
	"github.com/dogmatiq/testkit/engine"
	"github.com/dogmatiq/testkit/internal/zzverif/kit"
	"github.com/dogmatiq/testkit/internal/zzverif/nd"
)

func init() {
	Harnesses["Select"] = Select
	Harnesses["SelectLike"] = SelectLike
	Harnesses["SelectMixed"] = SelectMixed
	Harnesses["SelectOptions"] = SelectOptions
	Harnesses["SelectOrders"] = SelectOrders
	Harnesses["SelectAlike"] = SelectAlike
}

// The handlers of the application, of which the last one is disabled by its
// configuration, and a name that is unknown.
var names = []string{"alpha", "alpine", "beta", "betamax", "gone", "unknown"}

const (
	hGone    = 4
	hUnknown = 5
)

// Whether a handler is enabled.
const (
	off = iota
	on
	either // a refused call may or may not have applied to it
)

// selection is a test and the handlers that have to be enabled.
type selection struct {
	test   *testkit.Test
	state  [5]int
	called [5]int
	plain  bool // no variation of the actions
}

func newSelection(opts ...testkit.TestOption) *selection {
	s := &selection{state: [5]int{on, on, off, off, off}}
	app := &kit.App{Handlers: []any{
		&kit.Agg{
			Name: names[0], Key: kit.Key1,
			Routes: []dogma.AggregateRoute{
				dogma.HandlesCommand[kit.CmdA](),
				dogma.RecordsEvent[kit.EvB](),
			},
			HandleF: func(dogma.AggregateRoot, dogma.AggregateCommandScope, dogma.Command) { s.called[0]++ },
		},
		&kit.Proc{
			Name: names[1], Key: kit.Key2,
			Routes: []dogma.ProcessRoute{
				dogma.HandlesEvent[kit.EvA](),
				dogma.ExecutesCommand[kit.CmdA](),
			},
			EventF: func(context.Context, dogma.ProcessRoot, dogma.ProcessEventScope, dogma.Event) error {
				s.called[1]++
				return nil
			},
		},
		&kit.Integ{
			Name: names[2], Key: kit.Key3,
			Routes: []dogma.IntegrationRoute{dogma.HandlesCommand[kit.CmdB]()},
			HandleF: func(context.Context, dogma.IntegrationCommandScope, dogma.Command) error {
				s.called[2]++
				return nil
			},
		},
		&kit.Proj{
			Name: names[3], Key: kit.Key4,
			Routes: []dogma.ProjectionRoute{dogma.HandlesEvent[kit.EvA]()},
			EventF: func(context.Context, []byte, []byte, []byte, dogma.ProjectionEventScope, dogma.Event) (bool, error) {
				s.called[3]++
				return true, nil
			},
		},
		&kit.Proj{
			Name: names[4], Key: kit.Key5, Disabled: true,
			Routes: []dogma.ProjectionRoute{dogma.HandlesEvent[kit.EvA]()},
			EventF: func(context.Context, []byte, []byte, []byte, dogma.ProjectionEventScope, dogma.Event) (bool, error) {
				s.called[4]++
				return true, nil
			},
		},
	}}
	s.test = testkit.Begin(&tt{}, app, append([]testkit.TestOption{testkit.StartTimeAt(t0)}, opts...)...)
	return s
}

// set applies a setting to a handler.
func (s *selection) set(h int, enable bool, refused bool) {
	if h == hGone {
		return
	}
	v := off
	if enable {
		v = on
	}
	if refused && s.state[h] != v {
		v = either
	}
	s.state[h] = v
}

// byName enables or disables up to max handlers by name.
func (s *selection) byName(max int) {
	enable := nd.Flip("enable")
	var hs []int
	var ns []string
	refused := false
	for i := nd.Pick("names", max+1); i > 0; i-- {
		h := nd.Pick("name", len(names))
		ns = append(ns, names[h])
		if h == hUnknown || h == hGone && enable {
			refused = true
		}
		if !refused {
			hs = append(hs, h)
		}
	}
	s.apply(enable, hs, refused, func() {
		if enable {
			s.test.EnableHandlers(ns...)
		} else {
			s.test.DisableHandlers(ns...)
		}
	})
}

func (s *selection) apply(enable bool, hs []int, refused bool, f func()) {
	panicked, v := kit.Panics(f)
	nd.Assert(panicked == refused, "refused", v)
	if refused {
		nd.Reach("refused")
	} else {
		nd.Reach("accepted")
	}
	for _, h := range hs {
		s.set(h, enable, refused)
	}
}

var patterns = []string{"^al", "a$", "^beta$", "gone", "o|p", "nothing"}

// byPattern enables or disables the handlers that match up to max patterns.
func (s *selection) byPattern(max int) {
	enable := nd.Flip("enable")
	var hs []int
	var ps []string
	refused := false
	for i := nd.Pick("patterns", max+1); i > 0; i-- {
		p := patterns[nd.Pick("pattern", len(patterns))]
		ps = append(ps, p)
		matched := false
		for h, n := range names[:hGone] {
			if regexp.MustCompile(p).MatchString(n) {
				matched = true
				if !refused {
					hs = append(hs, h)
				}
			}
		}
		if !matched {
			refused = true
		}
	}
	s.apply(enable, hs, refused, func() {
		if enable {
			s.test.EnableHandlersLike(ps...)
		} else {
			s.test.DisableHandlersLike(ps...)
		}
	})
}

// check performs actions that concern all handlers and asserts that exactly
// the enabled ones are called.
func (s *selection) check() {
	s.called = [5]int{}
	x := s.test.CommandExecutor()
	p := kit.P{To: "x"}
	s.test.Prepare(
		testkit.RecordEvent(kit.EvA{P: p}),
		testkit.ExecuteCommand(kit.CmdA{P: p}),
	)
	want := 1
	if s.plain || nd.Flip("call") {
		s.test.Expect(testkit.Call(func() {
			_ = x.ExecuteCommand(context.Background(), kit.CmdA{P: p})
			_ = x.ExecuteCommand(context.Background(), kit.CmdB{P: p})
		}), &leaf{ok: true})
		want = 2
	} else {
		s.test.Expect(testkit.ExecuteCommand(kit.CmdB{P: p}), &leaf{ok: true})
	}
	for h := range s.called {
		n := 1
		if h == 0 {
			n = want
		}
		switch s.state[h] {
		case on:
			nd.Assert(s.called[h] == n, "enabled-but-not-called", names[h])
		case off:
			nd.Assert(s.called[h] == 0, "disabled-but-called", names[h])
		}
	}
}

// Select: two calls by name, each followed by actions.
func Select() {
	s := newSelection()
	s.byName(2)
	if nd.Flip("between") {
		s.check()
	}
	s.byName(1)
	s.check()
	nd.Reach("end")
}

// SelectLike: two calls by pattern, each followed by actions.
func SelectLike() {
	s := newSelection()
	s.byPattern(2)
	if nd.Flip("between") {
		s.check()
	}
	s.byPattern(1)
	s.check()
	nd.Reach("end")
}

// SelectMixed: three calls of either kind.
func SelectMixed() {
	s := newSelection()
	for i := 0; i < 3; i++ {
		if nd.Flip("by-name") {
			s.byName(1)
		} else {
			s.byPattern(1)
		}
	}
	s.check()
	nd.Reach("end")
}

// SelectOptions: handlers that the test enables by type.
func SelectOptions() {
	integ, proj := nd.Flip("integrations"), nd.Flip("projections")
	s := newSelection(testkit.WithUnsafeOperationOptions(
		engine.EnableIntegrations(integ),
		engine.EnableProjections(proj),
	))
	s.state[2], s.state[3] = off, off
	if integ {
		s.state[2] = on
	}
	if proj {
		s.state[3] = on
	}
	s.check()
	s.byName(1)
	s.check()
	nd.Reach("end")
}

// SelectOrders: the order in which handlers are visited does not matter.
func SelectOrders() {
	s := newSelection()
	nd.MapOrders()
	s.byPattern(2)
	s.called = [5]int{}
	p := kit.P{To: "x"}
	s.test.Prepare(testkit.RecordEvent(kit.EvA{P: p}), testkit.ExecuteCommand(kit.CmdB{P: p}))
	for h := 1; h < hGone; h++ {
		nd.Assert(s.state[h] == either || s.called[h] == s.state[h], "selected", names[h])
	}
	nd.Reach("end")
}

// SelectAlike: handlers whose names are alike.
func SelectAlike() {
	names := []string{"h", "H", "h1", "hh", "h.", "1"}
	keys := []string{kit.Key1, kit.Key2, kit.Key3, kit.Key4, kit.Key5, kit.Key6}
	called := map[string]int{}
	var hs []any
	for i, n := range names {
		hs = append(hs, &kit.Proj{
			Name: n, Key: keys[i],
			Routes: []dogma.ProjectionRoute{dogma.HandlesEvent[kit.EvA]()},
			EventF: func(context.Context, []byte, []byte, []byte, dogma.ProjectionEventScope, dogma.Event) (bool, error) {
				called[n]++
				return true, nil
			},
		})
	}
	test := testkit.Begin(&tt{}, &kit.App{Handlers: hs}, testkit.StartTimeAt(t0))
	enabled := map[string]bool{}
	for k := 0; k < 2; k++ {
		n := names[nd.Pick("name", len(names))]
		on := nd.Flip("enable")
		switch {
		case nd.Flip("like"):
			re := "^" + regexp.QuoteMeta(n) + "$"
			if on {
				test.EnableHandlersLike(re)
			} else {
				test.DisableHandlersLike(re)
			}
		case on:
			test.EnableHandlers(n)
		default:
			test.DisableHandlers(n)
		}
		enabled[n] = on
		clear(called)
		test.Prepare(testkit.RecordEvent(kit.EvA{}))
		for _, n := range names {
			nd.Assert((called[n] == 1) == enabled[n] && called[n] < 2, "selection", n)
		}
	}
	nd.Reach("end")
}
