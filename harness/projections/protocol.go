// Package projections drives projection handlers that behave arbitrarily.
package projections

import (
	"bytes"
	"context"
	"errors"
	"time"

	"github.com/dogmatiq/configkit"
	"github.com/dogmatiq/dogma"
	"github.com/dogmatiq/testkit/engine"
	"github.com/dogmatiq/testkit/fact"
	"github.com/dogmatiq/testkit/internal/zzverif/kit"
	"github.com/dogmatiq/testkit/internal/zzverif/nd"
)

var Harnesses = map[string]func(){
	"Protocol":        Protocol,
	"ProtocolCompact": ProtocolCompact,
	"TwoProjections":  TwoProjections,
	"Produced":        Produced,
}

var t0 = time.Unix(1000000000, 0).UTC()

type failure struct{ what string }

func (f *failure) Error() string { return f.what }

// call is what one event meant to one projection.
type call struct {
	res                         []byte
	version                     []byte
	versions, handles, closes   int
	compacts                    int
	applied                     bool
	verErr, hErr, cErr, compErr error
}

// watch is a projection and what happened to it.
type watch struct {
	name string
	cur  *call // of the event being dispatched
	at   time.Time
}

func (w *watch) proj(key string, routes ...dogma.ProjectionRoute) *kit.Proj {
	n := w.name
	return &kit.Proj{
		Name: n, Key: key, Routes: routes,
		VersionF: func(_ context.Context, r []byte) ([]byte, error) {
			c := w.cur
			c.versions++
			nd.Assert(c.res == nil || bytes.Equal(r, c.res), "resource-asked-about")
			c.res = append([]byte(nil), r...)
			switch nd.Pick("version-"+n, 5) {
			case 1:
				c.version = []byte{}
			case 2:
				c.version = []byte{byte(nd.Int("byte-"+n, 0, 255))}
			case 3:
				c.verErr = &failure{"version"}
			case 4:
				c.verErr = &failure{"version"}
				c.version = []byte{1}
			}
			return c.version, c.verErr
		},
		EventF: func(_ context.Context, r, cu, ne []byte, s dogma.ProjectionEventScope, m dogma.Event) (bool, error) {
			c := w.cur
			c.handles++
			nd.Assert(c.versions > 0 && c.verErr == nil, "applied-without-version")
			nd.Assert(len(c.version) == 0, "applied-again")
			nd.Assert(bytes.Equal(r, c.res), "resource-of-event")
			nd.Assert(bytes.Equal(cu, c.version), "current-version")
			nd.Assert(len(ne) > 0 && !bytes.Equal(ne, cu), "next-version")
			nd.Assert(s.RecordedAt().Equal(w.at), "recorded-at")
			switch nd.Pick("handle-"+n, 3) {
			case 0:
				c.applied = true
			case 1:
				c.hErr = &failure{"handle"}
			}
			return c.applied, c.hErr
		},
		CloseF: func(_ context.Context, r []byte) error {
			c := w.cur
			c.closes++
			nd.Assert(c.applied, "closed-though-not-applied")
			nd.Assert(bytes.Equal(r, c.res), "resource-closed")
			if nd.Flip("close-" + n) {
				c.cErr = &failure{"close"}
			}
			return c.cErr
		},
		CompactF: func(context.Context, dogma.ProjectionCompactScope) error {
			c := w.cur
			c.compacts++
			if nd.Flip("compact-" + n) {
				c.compErr = &failure{"compact"}
			}
			return c.compErr
		},
	}
}

// settle checks what became of the event and returns the errors that must be
// reported.
func (c *call) settle(compacting bool, err error) {
	nd.Assert(c.versions == 1, "version-not-asked", c.versions)
	handled := 0
	if c.verErr == nil && len(c.version) == 0 {
		handled = 1
	} else {
		nd.Reach("not-handled")
	}
	nd.Assert(c.handles == handled, "times-applied", c.handles, handled)
	closes := 0
	if c.applied {
		closes = 1
	}
	nd.Assert(c.closes == closes, "times-closed", c.closes, closes)
	comp := 0
	if compacting {
		comp = handled
	}
	nd.Assert(c.compacts == comp, "times-compacted", c.compacts, comp)
	for _, e := range []error{c.verErr, c.hErr, c.cErr} {
		nd.Assert(e == nil || errors.Is(err, e), "error-not-reported")
	}
	if c.verErr == nil && c.hErr == nil && c.cErr == nil {
		nd.Assert(c.compErr == nil || errors.Is(err, c.compErr), "compaction-error-not-reported")
	}
}

func (c *call) ok() bool {
	return c.verErr == nil && c.hErr == nil && c.cErr == nil && c.compErr == nil
}

func Protocol()        { protocol(3, false) }
func ProtocolCompact() { protocol(2, true) }

// protocol: events for one projection, one after the other.
func protocol(n int, compacting bool) {
	w := &watch{name: "prj"}
	e := engine.MustNew(
		configkit.FromApplication(&kit.App{Handlers: []any{
			w.proj(kit.Key1, dogma.HandlesEvent[kit.EvA](), dogma.HandlesEvent[kit.EvB]()),
		}}),
		engine.EnableProjectionCompactionDuringHandling(compacting),
	)
	var seen [][]byte
	for k := 0; k < n; k++ {
		w.cur = &call{}
		w.at = t0.Add(time.Duration(k) * time.Second)
		var m dogma.Event = kit.EvA{}
		if nd.Flip("other") {
			m = kit.EvB{}
		}
		var facts kit.Facts
		err := e.Dispatch(context.Background(), m, engine.WithCurrentTime(w.at), engine.WithObserver(&facts))
		w.cur.settle(compacting, err)
		nd.Assert((err == nil) == w.cur.ok(), "result")
		for _, r := range seen {
			nd.Assert(!bytes.Equal(r, w.cur.res), "resource-shared-by-events")
		}
		seen = append(seen, w.cur.res)
		begun, ended := 0, 0
		for _, f := range facts.All {
			switch f := f.(type) {
			case fact.ProjectionCompactionBegun:
				begun++
			case fact.ProjectionCompactionCompleted:
				ended++
				nd.Assert(f.Error == w.cur.compErr, "compaction-error-in-fact")
			}
		}
		nd.Assert(begun == w.cur.compacts && ended == begun, "compaction-facts")
		if err == nil && w.cur.applied {
			nd.Reach("applied")
		}
	}
	nd.Reach("end")
}

// TwoProjections handle the same event.
func TwoProjections() {
	a, b := &watch{name: "p1", at: t0}, &watch{name: "p2", at: t0}
	e := engine.MustNew(configkit.FromApplication(&kit.App{Handlers: []any{
		a.proj(kit.Key1, dogma.HandlesEvent[kit.EvA]()),
		b.proj(kit.Key2, dogma.HandlesEvent[kit.EvA]()),
	}}))
	for k := 0; k < 2; k++ {
		a.cur, b.cur = &call{}, &call{}
		err := e.Dispatch(context.Background(), kit.EvA{}, engine.WithCurrentTime(t0))
		a.cur.settle(false, err)
		b.cur.settle(false, err)
		nd.Assert((err == nil) == (a.cur.ok() && b.cur.ok()), "result")
		if !a.cur.ok() && !b.cur.ok() {
			nd.Reach("both")
		}
	}
	nd.Reach("end")
}

// Produced: events recorded while one command is handled.
func Produced() {
	w := &watch{name: "prj", at: t0}
	var calls []*call
	p := w.proj(kit.Key1, dogma.HandlesEvent[kit.EvA]())
	version := p.VersionF
	p.VersionF = func(ctx context.Context, r []byte) ([]byte, error) {
		w.cur = &call{}
		for _, c := range calls {
			nd.Assert(!bytes.Equal(r, c.res), "resource-shared-by-events")
		}
		calls = append(calls, w.cur)
		return version(ctx, r)
	}
	e := engine.MustNew(configkit.FromApplication(&kit.App{Handlers: []any{
		p,
		&kit.Integ{
			Name: "int", Key: kit.Key2,
			Routes: []dogma.IntegrationRoute{dogma.HandlesCommand[kit.CmdA](), dogma.RecordsEvent[kit.EvA]()},
			HandleF: func(_ context.Context, s dogma.IntegrationCommandScope, _ dogma.Command) error {
				s.RecordEvent(kit.EvA{})
				s.RecordEvent(kit.EvA{})
				return nil
			},
		},
	}}))
	err := e.Dispatch(context.Background(), kit.CmdA{}, engine.WithCurrentTime(t0))
	nd.Assert(len(calls) == 2, "events-delivered", len(calls))
	ok := true
	for _, c := range calls {
		c.settle(false, err)
		ok = ok && c.ok()
	}
	nd.Assert((err == nil) == ok, "result")
	nd.Reach("end")
}
