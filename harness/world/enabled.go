package world

import (
	"context"
	"time"

	"github.com/dogmatiq/configkit"
	"github.com/dogmatiq/dogma"
	"github.com/dogmatiq/testkit/engine"
	"github.com/dogmatiq/testkit/fact"
	"github.com/dogmatiq/testkit/internal/zzverif/kit"
	"github.com/dogmatiq/testkit/internal/zzverif/nd"
)

func init() {
	Harnesses["EnabledDispatch"] = EnabledDispatch
	Harnesses["EnabledTick"] = EnabledTick
	Harnesses["EnabledTimeouts"] = EnabledTimeouts
	Harnesses["EnabledCascade"] = EnabledCascade
}

// hinfo describes a handler of the application used below.
type hinfo struct {
	name     string
	typ      configkit.HandlerType
	disabled bool // by configuration
}

type setting struct {
	set   bool
	value bool
}

type switches struct {
	touched map[string]int // calls of any method, by handler
	e       *engine.Engine
	hs      []hinfo
	onEvent func(s dogma.ProcessEventScope)
}

const key7 = "9a1f3c2e-7a5f-4d0e-9c0b-5b7c0a6a0017"

// newSwitches builds an application with two handlers for every role, one of
// each being disabled by its configuration.
func newSwitches(procs, projs, cmds bool, opts ...engine.Option) *switches {
	x := &switches{touched: map[string]int{}}
	t := func(n string) { x.touched[n]++ }
	var hs []any
	agg := func(n, key string, off bool, r ...dogma.AggregateRoute) {
		x.hs = append(x.hs, hinfo{n, configkit.AggregateHandlerType, off})
		hs = append(hs, &kit.Agg{
			Name: n, Key: key, Disabled: off, Routes: r,
			NewF:    func() dogma.AggregateRoot { t(n); return &kit.Root{} },
			RouteF:  func(dogma.Command) string { t(n); return "i" },
			HandleF: func(dogma.AggregateRoot, dogma.AggregateCommandScope, dogma.Command) { t(n) },
		})
	}
	integ := func(n, key string, off bool, r dogma.IntegrationRoute) {
		x.hs = append(x.hs, hinfo{n, configkit.IntegrationHandlerType, off})
		hs = append(hs, &kit.Integ{
			Name: n, Key: key, Disabled: off, Routes: []dogma.IntegrationRoute{r},
			HandleF: func(context.Context, dogma.IntegrationCommandScope, dogma.Command) error { t(n); return nil },
		})
	}
	proc := func(n, key string, off bool) {
		x.hs = append(x.hs, hinfo{n, configkit.ProcessHandlerType, off})
		hs = append(hs, &kit.Proc{
			Name: n, Key: key, Disabled: off, Routes: []dogma.ProcessRoute{
				dogma.HandlesEvent[kit.EvA](), dogma.ExecutesCommand[kit.CmdA](), dogma.SchedulesTimeout[kit.ToA](),
			},
			NewF:   func() dogma.ProcessRoot { t(n); return &kit.PRoot{} },
			RouteF: func(dogma.Event) (string, bool, error) { t(n); return "i", true, nil },
			EventF: func(_ context.Context, _ dogma.ProcessRoot, s dogma.ProcessEventScope, _ dogma.Event) error {
				t(n)
				if x.onEvent != nil {
					x.onEvent(s)
				}
				return nil
			},
			TimeoutF: func(context.Context, dogma.ProcessRoot, dogma.ProcessTimeoutScope, dogma.Timeout) error {
				t(n)
				return nil
			},
		})
	}
	proj := func(n, key string, off bool) {
		x.hs = append(x.hs, hinfo{n, configkit.ProjectionHandlerType, off})
		hs = append(hs, &kit.Proj{
			Name: n, Key: key, Disabled: off, Routes: []dogma.ProjectionRoute{dogma.HandlesEvent[kit.EvA]()},
			VersionF: func(context.Context, []byte) ([]byte, error) { t(n); return nil, nil },
			CloseF:   func(context.Context, []byte) error { t(n); return nil },
			CompactF: func(context.Context, dogma.ProjectionCompactScope) error { t(n); return nil },
			EventF: func(context.Context, []byte, []byte, []byte, dogma.ProjectionEventScope, dogma.Event) (bool, error) {
				t(n)
				return true, nil
			},
		})
	}
	if cmds {
		agg("agg", kit.Key1, false, dogma.HandlesCommand[kit.CmdA](), dogma.RecordsEvent[kit.EvX]())
		agg("AGG", kit.Key2, true, dogma.HandlesCommand[kit.CmdC](), dogma.RecordsEvent[kit.EvC]())
		integ("int", kit.Key3, false, dogma.HandlesCommand[kit.CmdB]())
		integ("int-off", key7, true, dogma.HandlesCommand[kit.CmdX]())
	}
	if procs {
		proc("proc", kit.Key4, false)
		proc("Proc", kit.Key5, true)
	}
	if projs {
		proj("proj", kit.Key6, false)
		proj("proj-off", "9a1f3c2e-7a5f-4d0e-9c0b-5b7c0a6a0018", true)
	}
	x.e = engine.MustNew(configkit.FromApplication(&kit.App{Handlers: hs}), opts...)
	return x
}

// choose draws the options of an operation.
func (x *switches) choose() (types map[configkit.HandlerType]setting, names map[string]setting, opts []engine.OperationOption) {
	types, names = map[configkit.HandlerType]setting{}, map[string]setting{}
	seen := map[configkit.HandlerType]bool{}
	var first []engine.OperationOption
	for _, h := range x.hs {
		if !seen[h.typ] {
			seen[h.typ] = true
			if nd.Flip("set-" + h.typ.String()) {
				v := nd.Bool("on-" + h.typ.String())
				types[h.typ] = setting{true, v}
				switch h.typ {
				case configkit.AggregateHandlerType:
					first = append(first, engine.EnableAggregates(v))
				case configkit.ProcessHandlerType:
					first = append(first, engine.EnableProcesses(v))
				case configkit.IntegrationHandlerType:
					first = append(first, engine.EnableIntegrations(v))
				case configkit.ProjectionHandlerType:
					first = append(first, engine.EnableProjections(v))
				}
			}
		}
		if nd.Flip("set-" + h.name) {
			v := nd.Bool("on-" + h.name)
			names[h.name] = setting{true, v}
			opts = append(opts, engine.EnableHandler(h.name, v))
		}
	}
	// the order of options of different kinds does not matter
	if nd.Flip("names-first") {
		opts = append(opts, first...)
	} else {
		opts = append(first, opts...)
	}
	return
}

// decide tells whether a handler is enabled, and if not why.
func decide(h hinfo, types map[configkit.HandlerType]setting, names map[string]setting) (bool, fact.HandlerSkipReason) {
	if s := names[h.name]; s.set {
		return s.value, fact.IndividualHandlerDisabled
	}
	if h.disabled {
		return false, fact.IndividualHandlerDisabledByConfiguration
	}
	if s := types[h.typ]; s.set {
		return s.value, fact.HandlerTypeDisabled
	}
	return true, fact.HandlerTypeDisabled
}

// verify checks one operation: calls and facts of the concerned handlers.
func (x *switches) verify(facts []fact.Fact, concerned func(hinfo) bool, called func(hinfo) bool, types map[configkit.HandlerType]setting, names map[string]setting) {
	for _, h := range x.hs {
		skips, handled := 0, 0
		var why fact.HandlerSkipReason
		for _, f := range facts {
			switch f := f.(type) {
			case fact.HandlingSkipped:
				if name(f.Handler) == h.name {
					skips++
					why = f.Reason
				}
			case fact.TickSkipped:
				if name(f.Handler) == h.name {
					skips++
					why = f.Reason
				}
			case fact.HandlingBegun:
				if name(f.Handler) == h.name {
					handled++
				}
			case fact.TickBegun:
				if name(f.Handler) == h.name {
					handled++
				}
			}
		}
		if !concerned(h) {
			nd.Assert(skips == 0 && handled == 0 && x.touched[h.name] == 0, "unrelated-handler")
			continue
		}
		on, reason := decide(h, types, names)
		if on {
			nd.Assert(skips == 0 && handled == 1, "enabled-handler-skipped", h.name)
			if called(h) {
				nd.Assert(x.touched[h.name] > 0, "enabled-handler-not-invoked", h.name)
			}
			if h.disabled {
				nd.Reach("configuration-overridden")
			}
		} else {
			nd.Assert(x.touched[h.name] == 0, "disabled-handler-touched", h.name)
			nd.Assert(handled == 0 && skips == 1, "skip-not-reported", h.name)
			nd.Assert(why == reason, "skip-reason", h.name)
			switch reason {
			case fact.IndividualHandlerDisabled:
				nd.Reach("by-name")
			case fact.HandlerTypeDisabled:
				nd.Reach("by-type")
			default:
				nd.Reach("by-configuration")
			}
		}
	}
	x.touched = map[string]int{}
}

// EnabledDispatch: two dispatches of any message, the second one without
// options.
func EnabledDispatch() {
	cmds := nd.Flip("commands")
	x := newSwitches(!cmds, !cmds, cmds, engine.EnableProjectionCompactionDuringHandling(nd.Bool("compact")))
	var m dogma.Message = kit.EvA{}
	if cmds {
		k := nd.Pick("command", 4)
		m = []dogma.Message{kit.CmdA{}, kit.CmdC{}, kit.CmdB{}, kit.CmdX{}}[k]
		x.hs = x.hs[k : k+1] // only one handler is concerned
	}
	always := func(hinfo) bool { return true }
	types, names, opts := x.choose()
	for k := 0; k < 2; k++ {
		var facts kit.Facts
		opts = append(opts, engine.WithObserver(&facts), engine.WithCurrentTime(t0))
		nd.Assert(x.e.Dispatch(context.Background(), m, opts...) == nil, "dispatch-error")
		x.verify(facts.All, always, always, types, names)
		types, names, opts = nil, nil, nil
	}
	nd.Reach("end")
}

// EnabledTick: a tick with any options and then one without.
func EnabledTick() {
	x := newSwitches(nd.Flip("processes"), true, false)
	all := func(hinfo) bool { return true }
	types, names, opts := x.choose()
	was := map[string]bool{}
	for k := 0; k < 2; k++ {
		var facts kit.Facts
		opts = append(opts, engine.WithObserver(&facts), engine.WithCurrentTime(t0))
		nd.Assert(x.e.Tick(context.Background(), opts...) == nil, "tick-error")
		// a projection compacted by the first tick is not compacted again
		compacts := func(h hinfo) bool { return h.typ == configkit.ProjectionHandlerType && !was[h.name] }
		now := map[string]bool{}
		for n, c := range x.touched {
			now[n] = c > 0
		}
		x.verify(facts.All, all, compacts, types, names)
		was = now
		types, names, opts = nil, nil, nil
	}
	nd.Reach("end")
}

// EnabledTimeouts: the timeouts of a process that is disabled during a tick
// stay pending, and an immediate timeout is handled by nobody while its
// process is disabled.
func EnabledTimeouts() {
	x := newSwitches(true, false, false)
	x.onEvent = func(s dogma.ProcessEventScope) {
		s.ScheduleTimeout(kit.ToA{}, t0.Add(time.Minute))
	}
	all := func(hinfo) bool { return true }
	types, names, opts := x.choose()
	var facts kit.Facts
	opts = append(opts, engine.WithObserver(&facts), engine.WithCurrentTime(t0))
	nd.Assert(x.e.Dispatch(context.Background(), kit.EvA{}, opts...) == nil, "dispatch-error")
	scheduled := map[string]bool{}
	for _, h := range x.hs {
		scheduled[h.name], _ = decide(h, types, names)
	}
	x.verify(facts.All, all, all, types, names)
	released := map[string]bool{}
	for k := 0; k < 2; k++ {
		facts := kit.Facts{}
		types, names, opts := map[configkit.HandlerType]setting{}, map[string]setting{}, []engine.OperationOption{}
		if k == 0 {
			types, names, opts = x.choose()
		} else {
			// everything is enabled
			for _, h := range x.hs {
				names[h.name] = setting{true, true}
				opts = append(opts, engine.EnableHandler(h.name, true))
			}
		}
		opts = append(opts, engine.WithObserver(&facts), engine.WithCurrentTime(t0.Add(time.Minute)))
		nd.Assert(x.e.Tick(context.Background(), opts...) == nil, "tick-error")
		for _, h := range x.hs {
			on, _ := decide(h, types, names)
			want := 0
			if on && scheduled[h.name] && !released[h.name] {
				want = 1
				released[h.name] = true
				if k == 1 {
					nd.Reach("released-later")
				}
			}
			nd.Assert(x.touched[h.name] == want, "timeout-deliveries", h.name)
		}
		x.touched = map[string]int{}
	}
	nd.Reach("end")
}

// EnabledCascade: options also rule the messages caused by the operation's own.
func EnabledCascade() {
	x := &switches{touched: map[string]int{}}
	x.hs = []hinfo{
		{"agg", configkit.AggregateHandlerType, false},
		{"proc", configkit.ProcessHandlerType, false},
		{"proj", configkit.ProjectionHandlerType, false},
	}
	t := func(n string) { x.touched[n]++ }
	hs := []any{
		&kit.Agg{
			Name: "agg", Key: kit.Key1,
			Routes: []dogma.AggregateRoute{dogma.HandlesCommand[kit.CmdA](), dogma.RecordsEvent[kit.EvB]()},
			RouteF: func(dogma.Command) string { t("agg"); return "i" },
			HandleF: func(_ dogma.AggregateRoot, s dogma.AggregateCommandScope, _ dogma.Command) {
				s.RecordEvent(kit.EvB{})
			},
		},
		&kit.Proc{
			Name: "proc", Key: kit.Key2,
			Routes: []dogma.ProcessRoute{
				dogma.HandlesEvent[kit.EvA](), dogma.ExecutesCommand[kit.CmdA](),
			},
			RouteF: func(dogma.Event) (string, bool, error) { t("proc"); return "i", true, nil },
			EventF: func(_ context.Context, _ dogma.ProcessRoot, s dogma.ProcessEventScope, _ dogma.Event) error {
				s.ExecuteCommand(kit.CmdA{})
				return nil
			},
		},
		&kit.Proj{
			Name: "proj", Key: kit.Key3,
			Routes: []dogma.ProjectionRoute{dogma.HandlesEvent[kit.EvB]()},
			EventF: func(context.Context, []byte, []byte, []byte, dogma.ProjectionEventScope, dogma.Event) (bool, error) {
				t("proj")
				return true, nil
			},
		},
	}
	x.e = engine.MustNew(configkit.FromApplication(&kit.App{Handlers: hs}))
	types, names, opts := x.choose()
	var facts kit.Facts
	opts = append(opts, engine.WithObserver(&facts), engine.WithCurrentTime(t0))
	nd.Assert(x.e.Dispatch(context.Background(), kit.EvA{}, opts...) == nil, "dispatch-error")
	p, _ := decide(x.hs[1], types, names)
	a, _ := decide(x.hs[0], types, names)
	depth := 1
	if p {
		depth++
		if a {
			depth++
			nd.Reach("all-the-way")
		}
	}
	concerned := func(h hinfo) bool {
		return h.name == "proc" || h.name == "agg" && depth > 1 || h.name == "proj" && depth > 2
	}
	x.verify(facts.All, concerned, func(hinfo) bool { return true }, types, names)
	nd.Reach("end")
}
