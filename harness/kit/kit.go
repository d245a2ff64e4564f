// Package kit provides a small scriptable Dogma application for harnesses.
package kit

import (
	"context"
	"errors"

	"github.com/dogmatiq/dogma"
	"github.com/dogmatiq/testkit/fact"
)

// P is the payload of all messages.
type P struct {
	To  string
	Op  int
	N   int
	Bad bool
}

var ErrInvalid = errors.New("invalid message")

func (p P) check() error {
	if p.Bad {
		return ErrInvalid
	}
	return nil
}

type (
	CmdA struct{ P }
	CmdB struct{ P }
	CmdC struct{ P }
	CmdX struct{ P } // not routed by default
	EvA  struct{ P }
	EvB  struct{ P }
	EvC  struct{ P }
	EvX  struct{ P } // not routed by default
	ToA  struct{ P }
	ToB  struct{ P }
	ToX  struct{ P }
)

func (CmdA) MessageDescription() string { return "CmdA" }
func (CmdB) MessageDescription() string { return "CmdB" }
func (CmdC) MessageDescription() string { return "CmdC" }
func (CmdX) MessageDescription() string { return "CmdX" }
func (EvA) MessageDescription() string  { return "EvA" }
func (EvB) MessageDescription() string  { return "EvB" }
func (EvC) MessageDescription() string  { return "EvC" }
func (EvX) MessageDescription() string  { return "EvX" }
func (ToA) MessageDescription() string  { return "ToA" }
func (ToB) MessageDescription() string  { return "ToB" }
func (ToX) MessageDescription() string  { return "ToX" }

func (m CmdA) Validate(dogma.CommandValidationScope) error { return m.check() }
func (m CmdB) Validate(dogma.CommandValidationScope) error { return m.check() }
func (m CmdC) Validate(dogma.CommandValidationScope) error { return m.check() }
func (m CmdX) Validate(dogma.CommandValidationScope) error { return m.check() }
func (m EvA) Validate(dogma.EventValidationScope) error    { return m.check() }
func (m EvB) Validate(dogma.EventValidationScope) error    { return m.check() }
func (m EvC) Validate(dogma.EventValidationScope) error    { return m.check() }
func (m EvX) Validate(dogma.EventValidationScope) error    { return m.check() }
func (m ToA) Validate(dogma.TimeoutValidationScope) error  { return m.check() }
func (m ToB) Validate(dogma.TimeoutValidationScope) error  { return m.check() }
func (m ToX) Validate(dogma.TimeoutValidationScope) error  { return m.check() }

// Payload returns the payload of a message of this package.
func Payload(m dogma.Message) P {
	switch m := m.(type) {
	case CmdA:
		return m.P
	case CmdB:
		return m.P
	case CmdC:
		return m.P
	case CmdX:
		return m.P
	case EvA:
		return m.P
	case EvB:
		return m.P
	case EvC:
		return m.P
	case EvX:
		return m.P
	case ToA:
		return m.P
	case ToB:
		return m.P
	case ToX:
		return m.P
	}
	panic("not a message of this package")
}

const (
	AppKey = "9a1f3c2e-7a5f-4d0e-9c0b-5b7c0a6a0001"
	Key1   = "9a1f3c2e-7a5f-4d0e-9c0b-5b7c0a6a0011"
	Key2   = "9a1f3c2e-7a5f-4d0e-9c0b-5b7c0a6a0012"
	Key3   = "9a1f3c2e-7a5f-4d0e-9c0b-5b7c0a6a0013"
	Key4   = "9a1f3c2e-7a5f-4d0e-9c0b-5b7c0a6a0014"
	Key5   = "9a1f3c2e-7a5f-4d0e-9c0b-5b7c0a6a0015"
	Key6   = "9a1f3c2e-7a5f-4d0e-9c0b-5b7c0a6a0016"
)

// App is an application made of the given handlers, in order.
type App struct{ Handlers []any }

func (a *App) Configure(c dogma.ApplicationConfigurer) {
	c.Identity("app", AppKey)
	for _, h := range a.Handlers {
		switch h := h.(type) {
		case *Agg:
			c.RegisterAggregate(h)
		case *Proc:
			c.RegisterProcess(h)
		case *Integ:
			c.RegisterIntegration(h)
		case *Proj:
			c.RegisterProjection(h)
		}
	}
}

// Agg is an aggregate message handler.
type Agg struct {
	Name, Key string
	Routes    []dogma.AggregateRoute
	Disabled  bool
	NewF      func() dogma.AggregateRoot
	RouteF    func(dogma.Command) string
	HandleF   func(dogma.AggregateRoot, dogma.AggregateCommandScope, dogma.Command)
}

func (h *Agg) Configure(c dogma.AggregateConfigurer) {
	c.Identity(h.Name, h.Key)
	c.Routes(h.Routes...)
	if h.Disabled {
		c.Disable()
	}
}

func (h *Agg) New() dogma.AggregateRoot {
	if h.NewF != nil {
		return h.NewF()
	}
	return &Root{}
}

func (h *Agg) RouteCommandToInstance(m dogma.Command) string {
	if h.RouteF != nil {
		return h.RouteF(m)
	}
	return Payload(m).To
}

func (h *Agg) HandleCommand(r dogma.AggregateRoot, s dogma.AggregateCommandScope, m dogma.Command) {
	if h.HandleF != nil {
		h.HandleF(r, s, m)
	}
}

// Root is an aggregate root that records the numbers of applied events.
type Root struct{ Log []int }

func (r *Root) ApplyEvent(e dogma.Event) { r.Log = append(r.Log, Payload(e).N) }

// Proc is a process message handler.
type Proc struct {
	Name, Key string
	Routes    []dogma.ProcessRoute
	Disabled  bool
	NewF      func() dogma.ProcessRoot
	RouteF    func(dogma.Event) (string, bool, error)
	RouteCtxF func(context.Context, dogma.Event) (string, bool, error)
	EventF    func(context.Context, dogma.ProcessRoot, dogma.ProcessEventScope, dogma.Event) error
	TimeoutF  func(context.Context, dogma.ProcessRoot, dogma.ProcessTimeoutScope, dogma.Timeout) error
}

func (h *Proc) Configure(c dogma.ProcessConfigurer) {
	c.Identity(h.Name, h.Key)
	c.Routes(h.Routes...)
	if h.Disabled {
		c.Disable()
	}
}

// PRoot is a process root.
type PRoot struct{ Log []int }

func (h *Proc) New() dogma.ProcessRoot {
	if h.NewF != nil {
		return h.NewF()
	}
	return &PRoot{}
}

func (h *Proc) RouteEventToInstance(ctx context.Context, m dogma.Event) (string, bool, error) {
	if h.RouteCtxF != nil {
		return h.RouteCtxF(ctx, m)
	}
	if h.RouteF != nil {
		return h.RouteF(m)
	}
	return Payload(m).To, true, nil
}

func (h *Proc) HandleEvent(ctx context.Context, r dogma.ProcessRoot, s dogma.ProcessEventScope, m dogma.Event) error {
	if h.EventF != nil {
		return h.EventF(ctx, r, s, m)
	}
	return nil
}

func (h *Proc) HandleTimeout(ctx context.Context, r dogma.ProcessRoot, s dogma.ProcessTimeoutScope, m dogma.Timeout) error {
	if h.TimeoutF != nil {
		return h.TimeoutF(ctx, r, s, m)
	}
	return nil
}

// Integ is an integration message handler.
type Integ struct {
	Name, Key string
	Routes    []dogma.IntegrationRoute
	Disabled  bool
	HandleF   func(context.Context, dogma.IntegrationCommandScope, dogma.Command) error
}

func (h *Integ) Configure(c dogma.IntegrationConfigurer) {
	c.Identity(h.Name, h.Key)
	c.Routes(h.Routes...)
	if h.Disabled {
		c.Disable()
	}
}

func (h *Integ) HandleCommand(ctx context.Context, s dogma.IntegrationCommandScope, m dogma.Command) error {
	if h.HandleF != nil {
		return h.HandleF(ctx, s, m)
	}
	return nil
}

// Proj is a projection message handler.
type Proj struct {
	Name, Key string
	Routes    []dogma.ProjectionRoute
	Disabled  bool
	EventF    func(ctx context.Context, r, c, n []byte, s dogma.ProjectionEventScope, e dogma.Event) (bool, error)
	VersionF  func(ctx context.Context, r []byte) ([]byte, error)
	CloseF    func(ctx context.Context, r []byte) error
	CompactF  func(ctx context.Context, s dogma.ProjectionCompactScope) error
}

func (h *Proj) Configure(c dogma.ProjectionConfigurer) {
	c.Identity(h.Name, h.Key)
	c.Routes(h.Routes...)
	if h.Disabled {
		c.Disable()
	}
}

func (h *Proj) HandleEvent(ctx context.Context, r, c, n []byte, s dogma.ProjectionEventScope, e dogma.Event) (bool, error) {
	if h.EventF != nil {
		return h.EventF(ctx, r, c, n, s, e)
	}
	return true, nil
}

func (h *Proj) ResourceVersion(ctx context.Context, r []byte) ([]byte, error) {
	if h.VersionF != nil {
		return h.VersionF(ctx, r)
	}
	return nil, nil
}

func (h *Proj) CloseResource(ctx context.Context, r []byte) error {
	if h.CloseF != nil {
		return h.CloseF(ctx, r)
	}
	return nil
}

func (h *Proj) Compact(ctx context.Context, s dogma.ProjectionCompactScope) error {
	if h.CompactF != nil {
		return h.CompactF(ctx, s)
	}
	return nil
}

// Facts is an observer that keeps every fact.
type Facts struct{ All []fact.Fact }

func (f *Facts) Notify(x fact.Fact) { f.All = append(f.All, x) }

// Panics runs f and reports whether it panicked, with the panic value.
func Panics(f func()) (panicked bool, v any) {
	panicked = true
	defer func() {
		if panicked {
			v = recover()
		}
	}()
	f()
	panicked = false
	return
}
