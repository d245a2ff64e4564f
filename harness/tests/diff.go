package tests

import (
	"context"
	"reflect"
	"strings"

	"github.com/dogmatiq/dapper"
	"github.com/dogmatiq/dogma"
	"github.com/dogmatiq/testkit"
	"github.com/dogmatiq/testkit/internal/zzverif/kit"
	"github.com/dogmatiq/testkit/internal/zzverif/nd"
)

func init() {
	Harnesses["DiffMessages"] = DiffMessages
	Harnesses["DiffAnnotated"] = DiffAnnotated
	Harnesses["DiffNested"] = DiffNested
	Harnesses["DiffTexts"] = DiffTexts
	Harnesses["DiffAgain"] = DiffAgain
}

type (
	custID string
	prodID string
	coord  struct{ X, Y int }
)

// evD is an event with all kinds of content.
type evD struct {
	Cust  custID
	Prod  prodID
	Count int
	Any   any
	Ptr   *custID
	List  []custID
	At    coord
	priv  custID
}

func (evD) MessageDescription() string                { return "event" }
func (evD) Validate(dogma.EventValidationScope) error { return nil }

// cmdD is a command with such content.
type cmdD struct {
	Cust custID
	Text string
}

func (cmdD) MessageDescription() string                  { return "command" }
func (cmdD) Validate(dogma.CommandValidationScope) error { return nil }

type plainRoot struct{}

func (plainRoot) ApplyEvent(dogma.Event) {}

// note is an annotation.
type note struct {
	value any
	text  string
}

// diff is a test with annotations whose aggregate records given events.
type diff struct {
	t      *tt
	test   *testkit.Test
	events []evD
	notes  []note
}

func newDiff() *diff {
	nd.Render()
	d := &diff{t: &tt{silent: true}}
	d.test = testkit.Begin(d.t, &kit.App{Handlers: []any{&kit.Agg{
		Name: "agg", Key: kit.Key1,
		Routes: []dogma.AggregateRoute{
			dogma.HandlesCommand[kit.CmdA](), dogma.HandlesCommand[cmdD](), dogma.RecordsEvent[evD](), dogma.RecordsEvent[kit.EvB](),
		},
		RouteF: func(dogma.Command) string { return "i" },
		NewF:   func() dogma.AggregateRoot { return plainRoot{} },
		HandleF: func(_ dogma.AggregateRoot, s dogma.AggregateCommandScope, _ dogma.Command) {
			for _, e := range d.events {
				s.RecordEvent(e)
			}
			s.RecordEvent(kit.EvB{})
		},
	}}})
	return d
}

func (d *diff) annotate(v any, text string) {
	d.notes = append(d.notes, note{v, text})
	d.test.Annotate(v, text)
}

// render is how the message is to be rendered: what is printed for values is
// not for the kit to decide, but what is annotated is.
func (d *diff) render(m dogma.Message) string {
	opts := []dapper.Option{dapper.WithPackagePaths(false), dapper.WithUnexportedStructFields(false)}
	for _, n := range d.notes {
		opts = append(opts, dapper.WithAnnotator(func(v dapper.Value) string {
			same := false
			switch v.Value.Kind() {
			case reflect.Interface:
				// annotated when it is looked into
			case reflect.Pointer:
				p, ok := n.value.(*custID)
				q, ok2 := v.Value.Interface().(*custID)
				same = ok && ok2 && (p == q || p != nil && q != nil && *p == *q)
			case reflect.Slice, reflect.Struct:
				if c, ok := n.value.(coord); ok {
					x, ok := v.Value.Interface().(coord)
					same = ok && c == x
				}
			default:
				same = v.Value.Interface() == n.value
			}
			if same {
				nd.Reach("annotated")
				return n.text
			}
			return ""
		}))
	}
	return dapper.NewPrinter(opts...).Format(m)
}

// sides reads the two texts off a diff.
func sides(s string) (removed, added string) {
	var a, b strings.Builder
	both := func(x string) {
		a.WriteString(x)
		b.WriteString(x)
	}
	for s != "" {
		i, j := strings.Index(s, "[-"), strings.Index(s, "{+")
		switch {
		case i < 0 && j < 0:
			both(s)
			s = ""
		case j < 0 || i >= 0 && i < j:
			both(s[:i])
			n := 2 + strings.Index(s[i+2:], "-]")
			nd.Assert(n >= 2, "diff-marks")
			a.WriteString(s[i+2 : i+n])
			s = s[i+n+2:]
		default:
			both(s[:j])
			n := 2 + strings.Index(s[j+2:], "+}")
			nd.Assert(n >= 2, "diff-marks")
			b.WriteString(s[j+2 : j+n])
			s = s[j+n+2:]
		}
	}
	return a.String(), b.String()
}

// expect checks the diff in the report about an event that was not recorded.
func (d *diff) expect(want evD) {
	d.check(
		testkit.ExecuteCommand(kit.CmdA{P: kit.P{To: "i"}}),
		testkit.ToRecordEvent(want),
		want, d.events[len(d.events)-1],
	)
}

// check performs an action and checks the diff in the report, if any.
func (d *diff) check(a testkit.Action, e testkit.Expectation, want, last dogma.Message) {
	c := &captured{Expectation: e}
	d.test.Expect(a, c)
	nd.Assert(len(d.t.fatal) == 0 && c.rep != nil, "no-report")
	text, n := "", 0
	for _, s := range c.rep.Sections {
		if strings.EqualFold(s.Title, "message diff") {
			text = s.Content.String()
			n++
		}
	}
	if c.rep.Ok {
		nd.Reach("met")
		nd.Assert(n == 0, "diff-although-met")
		return
	}
	nd.Reach("unmet")
	nd.Assert(n == 1, "one-diff")
	x, y := sides(text)
	nd.Assert(x == d.render(want), "expected-message", x, d.render(want))
	nd.Assert(y == d.render(last), "actual-message", y, d.render(last))
	nd.Reach("end")
}

// DiffMessages: any difference between the messages; the last of several
// events is shown.
func DiffMessages() {
	d := newDiff()
	id := func(tag string) custID { return custID(nd.Str(tag, "c1", "c2")) }
	if nd.Flip("two") {
		d.events = append(d.events, evD{Cust: "first", Count: 7})
	}
	d.events = append(d.events, evD{Cust: id("cust"), Prod: "p", Count: nd.Pick("count", 3), At: coord{1, 0}})
	d.expect(evD{Cust: id("other"), Prod: "p", Count: nd.Pick("count-other", 3), At: coord{1, 0}})
}

// DiffAnnotated: annotations of values of different types that look alike, or
// that are annotated more than once.
func DiffAnnotated() {
	d := newDiff()
	texts := []string{"one", "two", "three"}
	for i := nd.Pick("notes", 4); i > 0; i-- {
		t := texts[i-1]
		switch nd.Pick("what", 5) {
		case 0:
			d.annotate(custID(nd.Str("note", "a", "b")), t)
		case 1:
			d.annotate(prodID("a"), t)
		case 2:
			d.annotate("a", t)
		case 3:
			d.annotate(1, t)
		case 4:
			d.annotate(coord{1, 2}, t)
		}
	}
	d.events = []evD{{Cust: custID(nd.Str("cust", "a", "b")), Prod: "a", Count: 1, At: coord{1, 2}}}
	d.expect(evD{Cust: "c", Prod: "a", Count: 2, At: coord{1, 2}})
}

// DiffNested: annotated values within other values.
func DiffNested() {
	d := newDiff()
	a, a2 := custID("a"), custID("a")
	switch nd.Pick("what", 3) {
	case 0:
		d.annotate(a, "note")
	case 1:
		d.annotate(&a2, "pointer")
	case 2:
		d.annotate(a, "note")
		d.annotate(&a2, "pointer")
		d.annotate(2, "number")
	}
	one := evD{Cust: "z", List: []custID{custID(nd.Str("first", "a", "b")), "a"}, priv: "a"}
	switch nd.Pick("any", 5) {
	case 0:
		one.Any = a
	case 1:
		one.Any = &a
	case 2:
		one.Any = prodID("a")
	case 3:
		one.Any = []any{a, nil, []any{2, &a2}}
	}
	if nd.Flip("ptr") {
		one.Ptr = &a
	}
	d.events = []evD{one}
	d.expect(evD{Cust: "c", Any: 2, Count: 2})
}

// DiffTexts: commands with texts that differ in spaces, lines or altogether,
// or in nothing but their length.
func DiffTexts() {
	d := newDiff()
	texts := []string{"", "a b", " a  b", "b\na", "b", "a b a b a b ", "a 5% b%d"}
	d.annotate(texts[nd.Pick("note", len(texts))], "a note")
	have := cmdD{"c", texts[nd.Pick("text", len(texts))]}
	want := cmdD{custID(nd.Str("cust", "c", "d")), texts[nd.Pick("other", len(texts))]}
	d.check(
		testkit.Call(func() {
			err := d.test.CommandExecutor().ExecuteCommand(context.Background(), have)
			nd.Assert(err == nil, "execute")
		}),
		testkit.ToExecuteCommand(want),
		want, have,
	)
}

// DiffAgain: expectations of one test with annotations made in between.
func DiffAgain() {
	d := newDiff()
	for i := 0; i < 2; i++ {
		for j := nd.Pick("notes", 3); j > 0; j-- {
			d.annotate(custID(nd.Str("note", "a", "b")), []string{"one", "two"}[i])
		}
		d.events = []evD{{Cust: custID(nd.Str("cust", "a", "b")), List: []custID{"a", "b"}}}
		d.expect(evD{Cust: custID(nd.Str("other", "a", "b")), Count: 1})
	}
}
