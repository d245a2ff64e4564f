package tests

import (
	"errors"
	"fmt"
	"strings"

	"github.com/dogmatiq/testkit"
	"github.com/dogmatiq/testkit/engine"
	"github.com/dogmatiq/testkit/internal/zzverif/kit"
	"github.com/dogmatiq/testkit/internal/zzverif/nd"
)

func init() {
	Harnesses["ExplainValue"] = ExplainValue
	Harnesses["ExplainType"] = ExplainType
	Harnesses["ExplainMatch"] = ExplainMatch
	Harnesses["ExplainOnly"] = ExplainOnly
	Harnesses["ExplainRepeated"] = ExplainRepeated
}

// captured keeps the report of an expectation.
type captured struct {
	testkit.Expectation
	rep *testkit.Report
}

type capturedPredicate struct {
	testkit.Predicate
	c *captured
}

func (c *captured) Predicate(s testkit.PredicateScope) (testkit.Predicate, error) {
	p, err := c.Expectation.Predicate(s)
	if err != nil {
		return nil, err
	}
	return &capturedPredicate{p, c}, nil
}

func (p *capturedPredicate) Report(ctx testkit.ReportGenerationContext) *testkit.Report {
	p.c.rep = p.Predicate.Report(ctx)
	return p.c.rep
}

// words of a role.
type words struct {
	message, messages, produce, produced, dispatcher string
	producers                                        []string
}

var (
	ofCommands = words{"command", "commands", "execute", "executed", "dogma.CommandExecutor", []string{"process"}}
	ofEvents   = words{"event", "events", "record", "recorded", "dogma.EventRecorder", []string{"aggregate", "integration"}}
	kindOf     = map[string]string{"agg": "aggregate", "proc": "process", "integ": "integration"}
)

// explained is an expectation that is not met and the situation it was in.
type explained struct {
	s       *stream
	enabled map[string]bool // types of handlers
	typ     int             // expected
	call    bool            // messages of the test itself count
	tick    bool            // nothing was dispatched
	all     bool            // all types of handlers are enabled
	c       captured
	lone    bool // neither negated nor part of something that passed
}

func newExplained(events, commands int) *explained {
	x := &explained{enabled: map[string]bool{"aggregate": true, "process": true, "integration": true}}
	var opts []engine.OperationOption
	switch nd.Pick("disabled", 5) {
	case 0:
		x.all = true
	case 1:
		x.enabled["aggregate"] = false
		opts = append(opts, engine.EnableAggregates(false))
	case 2:
		x.enabled["process"] = false
		opts = append(opts, engine.EnableProcesses(false))
	case 3:
		x.enabled["integration"] = false
		opts = append(opts, engine.EnableIntegrations(false))
	case 4:
		x.enabled["integration"], x.enabled["aggregate"] = false, false
		opts = append(opts, engine.EnableIntegrations(false), engine.EnableAggregates(false))
	}
	x.s = newStream(events, commands, testkit.WithUnsafeOperationOptions(opts...))
	if x.all {
		x.s.before()
	}
	return x
}

func (x *explained) action() testkit.Action {
	switch nd.Pick("action", 4) {
	case 0:
		return testkit.ExecuteCommand(command(mCmdA, 0))
	case 1:
		return testkit.RecordEvent(event(mEvA, 0))
	case 2:
		x.tick = true
		return testkit.AdvanceTime(testkit.ByDuration(1e9))
	}
	x.call = true
	return x.s.call(nd.Pick("calls", 3))
}

func (x *explained) words() words {
	if isCommand(x.typ) {
		return ofCommands
	}
	return ofEvents
}

// expect makes the expectation on its own or within a tree and returns whether
// it was met.
func (x *explained) expect(a testkit.Action, e testkit.Expectation) bool {
	x.c = captured{Expectation: e}
	e = &x.c
	x.lone = true
	tree := 0
	if x.all {
		tree = nd.Pick("tree", 4)
	}
	switch tree {
	case 1:
		e = testkit.AnyOf(e, &leaf{ok: true, early: true})
		x.lone = false
	case 2:
		e = testkit.AllOf(e, testkit.NoneOf(&leaf{ok: true, early: true}))
	case 3:
		e = testkit.AllOf(testkit.Not(e), &leaf{})
		x.lone = false
	}
	x.s.t.clear()
	x.s.test.Expect(a, e)
	nd.Assert(len(x.s.t.fatal) == 0, "refused", x.s.t.fatal)
	nd.Assert(x.c.rep != nil, "not-reported")
	return x.c.rep.Ok
}

func (x *explained) sections() map[string][]string {
	r := map[string][]string{}
	for _, s := range x.c.rep.Sections {
		_, ok := r[s.Title]
		nd.Assert(!ok, "section-twice", s.Title)
		if c := strings.TrimSpace(s.Content.String()); c != "" {
			r[s.Title] = strings.Split(c, "\n")
		}
	}
	return r
}

// unexplained: there is nothing to explain.
func (x *explained) unexplained() {
	nd.Assert(x.c.rep.Explanation == "" && len(x.sections()) == 0, "needless-explanation", x.c.rep.Explanation)
	nd.Reach("unexplained")
}

// noMatch is what is to be said if there is nothing similar.
func (x *explained) noMatch() (explanation string, suggestions []string) {
	w := x.words()
	var engaged []string
	for _, n := range x.s.engaged {
		for _, p := range w.producers {
			if kindOf[n] == p {
				engaged = append(engaged, n)
			}
		}
	}
	dispatched := !x.tick && !(x.call && len(x.s.log) == 0)
	if dispatched {
		some := false
		for _, p := range w.producers {
			if x.enabled[p] {
				some = true
			} else {
				suggestions = append(suggestions, "• enable "+p+" handlers using the EnableHandlerType() option")
			}
		}
		if !x.call && !some {
			nd.Reach("all-disabled")
			return "no relevant handler types were enabled", suggestions
		}
		if !x.call && len(engaged) == 0 {
			nd.Reach("none-engaged")
			return "no relevant handlers (" + strings.Join(w.producers, " or ") + ") were engaged",
				append(suggestions, "• check the application's routing configuration")
		}
	}
	role := 0
	for _, p := range x.s.log {
		if isCommand(p.typ) == isCommand(x.typ) && isEvent(p.typ) == isEvent(x.typ) {
			role++
		}
	}
	switch {
	case len(x.s.log) == 0:
		explanation = "no messages were produced at all"
	case role == 0:
		explanation = "no " + w.messages + " were " + w.produced + " at all"
		nd.Reach("none-of-role")
	case x.call:
		explanation = "nothing " + w.produced + " a matching " + w.message
	default:
		explanation = "none of the engaged handlers " + w.produced + " a matching " + w.message
	}
	for _, n := range engaged {
		suggestions = append(suggestions, "• verify the logic within the '"+n+"' "+kindOf[n]+" message handler")
		nd.Reach("engaged")
	}
	if x.call {
		suggestions = append(suggestions, "• verify the logic within the code that uses the "+w.dispatcher)
	}
	return explanation, suggestions
}

func sameLines(a, b []string) bool {
	if len(a) != len(b) {
		return false
	}
	for i := range a {
		if a[i] != b[i] {
			return false
		}
	}
	return true
}

func (x *explained) checkNoMatch(said string, suggested []string) {
	ex, sg := x.noMatch()
	nd.Assert(said == ex, "explanation", said, "|", ex)
	nd.Assert(sameLines(suggested, sg), "suggestions", suggested, "|", sg)
	nd.Reach("explained")
}

// ExplainValue: a specific message was expected.
func ExplainValue() {
	x := newExplained(1, 1)
	x.typ = mCmdB + nd.Pick("expected", 5)
	n := nd.Int("expected-n", 0, 3)
	var e testkit.Expectation
	if isCommand(x.typ) {
		e = testkit.ToExecuteCommand(command(x.typ, n))
	} else {
		e = testkit.ToRecordEvent(event(x.typ, n))
	}
	if x.expect(x.action(), e) || !x.lone {
		x.unexplained()
		return
	}
	w := x.words()
	secs := x.sections()
	said, suggested := x.c.rep.Explanation, secs["Suggestions"]
	nd.Assert(x.c.rep.Criteria == w.produce+" a specific '"+typeNames[x.typ]+"' "+w.message, "criteria", x.c.rep.Criteria)
	var similar *produced
	for i, p := range x.s.log {
		if p.typ == x.typ {
			nd.Assert(p.n != n, "met")
			similar = &x.s.log[i]
		}
	}
	if similar == nil {
		nd.Assert(len(secs) <= 1, "sections")
		x.checkNoMatch(said, suggested)
		return
	}
	want := "a similar " + w.message + " was " + w.produced
	if similar.by == "" {
		want += " via a " + w.dispatcher
		nd.Reach("similar-by-test")
	} else {
		want += " by the '" + similar.by + "' " + kindOf[similar.by] + " message handler"
		nd.Reach("similar-by-handler")
	}
	nd.Assert(said == want, "explanation", said, "|", want)
	nd.Assert(sameLines(suggested, []string{"• check the content of the message"}), "suggestions", suggested)
}

// ExplainType: any message of a type was expected.
func ExplainType() {
	x := newExplained(1, 1)
	x.typ = mCmdB + nd.Pick("expected", 5)
	var e testkit.Expectation
	if isCommand(x.typ) {
		e = testkit.ToExecuteCommandOfType(command(x.typ, 0))
	} else {
		e = testkit.ToRecordEventOfType(event(x.typ, 0))
	}
	if x.expect(x.action(), e) || !x.lone {
		x.unexplained()
		return
	}
	for _, p := range x.s.log {
		nd.Assert(p.typ != x.typ, "met")
	}
	nd.Assert(x.c.rep.Criteria == x.words().produce+" any '"+typeNames[x.typ]+"' "+x.words().message, "criteria", x.c.rep.Criteria)
	secs := x.sections()
	nd.Assert(len(secs) <= 1, "sections")
	x.checkNoMatch(x.c.rep.Explanation, secs["Suggestions"])
}

var (
	errTwo   = errors.New("two%d")
	errOther = errors.New("other")
)

// result of the predicate: it depends on the number alone.
func result(n int) error {
	switch n {
	case 0:
		return nil
	case 1:
		return testkit.IgnoreMessage
	case 2:
		return errTwo
	}
	return errOther
}

func matching(typ int, only bool) testkit.Expectation {
	switch {
	case typ == mCmdB && only:
		return testkit.ToOnlyExecuteCommandsMatching(func(m kit.CmdB) error { return result(m.N) })
	case typ == mCmdB:
		return testkit.ToExecuteCommandMatching(func(m kit.CmdB) error { return result(m.N) })
	case only:
		return testkit.ToOnlyRecordEventsMatching(func(m kit.EvA) error { return result(m.N) })
	}
	return testkit.ToRecordEventMatching(func(m kit.EvA) error { return result(m.N) })
}

var typeNames = []string{"kit.CmdA", "kit.CmdB", "kit.CmdC", "kit.EvA", "kit.EvB", "kit.EvC"}

// matches judges the produced messages of the role.
func (x *explained) matches(only bool) (matched, relevant, ignored int, failures []string) {
	count := map[string]int{}
	var order []string
	for _, p := range x.s.log {
		if isCommand(p.typ) != isCommand(x.typ) || isEvent(p.typ) != isEvent(x.typ) {
			continue
		}
		text := typeNames[p.typ] + ": "
		if p.typ == x.typ {
			err := result(p.n)
			if err == testkit.IgnoreMessage {
				ignored++
				continue
			}
			relevant++
			if err == nil {
				matched++
				continue
			}
			text += err.Error()
		} else {
			if !only {
				ignored++
				continue
			}
			relevant++
			text += "predicate function expected " + typeNames[x.typ]
		}
		if count[text] == 0 {
			order = append(order, text)
		}
		count[text]++
	}
	for _, t := range order {
		if n := count[t]; n > 1 {
			t += fmt.Sprintf(" (repeated %d times)", n)
			nd.Reach("repeated")
		}
		failures = append(failures, "• "+t)
	}
	return matched, relevant, ignored, failures
}

func (x *explained) match(only bool, a func() testkit.Action) {
	x.typ = mCmdB
	if nd.Flip("event") {
		x.typ = mEvA
	}
	if x.expect(a(), matching(x.typ, only)) || !x.lone {
		x.unexplained()
		return
	}
	secs := x.sections()
	matched, relevant, ignored, failures := x.matches(only)
	nd.Assert(matched == 0 || only && len(failures) > 0, "met")
	nd.Assert(sameLines(secs["Failed Matches"], failures), "failed-matches", secs["Failed Matches"], failures)
	suggested := secs["Suggestions"]
	if ignored > 0 || len(failures) > 0 {
		want := "• verify the logic within the predicate function"
		if ignored == 1 {
			want += ", it ignored 1 " + x.words().message
		} else if ignored > 1 {
			want += ", it ignored " + fmt.Sprint(ignored) + " " + x.words().messages
			nd.Reach("ignored")
		}
		nd.Assert(len(suggested) > 0 && suggested[0] == want, "predicate-suggestion", suggested, want)
		suggested = suggested[1:]
	}
	said := x.c.rep.Explanation
	if only {
		want := "none of the " + fmt.Sprint(relevant)
		if matched > 0 {
			want = "only " + fmt.Sprint(matched) + " of " + fmt.Sprint(relevant)
			nd.Reach("some-matched")
		}
		want += " relevant " + x.words().messages + " matched the predicate"
		nd.Assert(said == want, "explanation", said, "|", want)
		said, _ = x.noMatch()
	}
	x.checkNoMatch(said, suggested)
}

// ExplainMatch: a message that matches was expected.
func ExplainMatch() {
	x := newExplained(1, 1)
	x.match(false, x.action)
}

// ExplainOnly: nothing but messages that match were expected.
func ExplainOnly() {
	x := newExplained(1, 1)
	x.match(true, x.action)
}

// ExplainRepeated: the same as often as not.
func ExplainRepeated() {
	x := newExplained(3, 0)
	a := testkit.ExecuteCommand(command(mCmdA, 0))
	if nd.Flip("commands") {
		x.s.commands = 3
		a = testkit.RecordEvent(event(mEvA, 0))
	}
	x.match(nd.Flip("only"), func() testkit.Action { return a })
}
