package tests

import (
	"fmt"
	"runtime"
	"strings"
	"sync"

	"github.com/dogmatiq/testkit"
	"github.com/dogmatiq/testkit/fact"
	"github.com/dogmatiq/testkit/internal/zzverif/nd"
)

func init() {
	Harnesses["Script"] = Script
	Harnesses["ScriptCleanups"] = ScriptCleanups
	Harnesses["ScriptInTree"] = ScriptInTree
	Harnesses["ScriptHelpers"] = ScriptHelpers
	Harnesses["ScriptConcurrent"] = ScriptConcurrent
	Harnesses["ScriptLogs"] = ScriptLogs
}

// script interprets an arbitrary sequence of calls of the methods of a
// SatisfyT and tracks what they are to cause.
type script struct {
	budget   int
	kinds    int
	failed   bool
	skipped  bool
	panicked bool
	exited   bool
	messages []string
	pending  []int // registered cleanup functions
	next     int
	running  bool // the function itself is running
	facts    int
	fixed    []int // first calls
}

func (s *script) text() string {
	m := fmt.Sprintf("message %d!", len(s.messages))
	if len(s.messages)%2 == 1 {
		m = fmt.Sprintf("100%% of %%d\n\n%%!(message %d)", len(s.messages))
	}
	s.messages = append(s.messages, m)
	return m
}

const (
	opEnd = iota
	opCleanup
	opError
	opFailNow
	opSkipNow
	opPanic
	opFatal
	opSkip
	opLog
	opFail
	opErrorf
	opFatalf
	opSkipf
	opLogf
	opGoexit
	opKinds
)

// run performs calls until the budget is exhausted.
func (s *script) run(t *testkit.SatisfyT) {
	nd.Assert(len(t.Facts) == s.facts, "facts")
	nd.Assert(t.Name() == "be satisfied", "name")
	for len(s.fixed) > 0 || s.budget > 0 {
		nd.Assert(t.Failed() == s.failed, "failed")
		nd.Assert(t.Skipped() == s.skipped, "skipped")
		var op int
		if len(s.fixed) > 0 {
			op = s.fixed[0]
			s.fixed = s.fixed[1:]
		} else {
			s.budget--
			op = nd.Pick("op", s.kinds)
		}
		switch op {
		case opEnd:
			return
		case opCleanup:
			id := s.next
			s.next++
			s.pending = append(s.pending, id)
			t.Cleanup(func() {
				nd.Assert(!s.running, "cleanup-before-end")
				n := len(s.pending)
				nd.Assert(n > 0 && s.pending[n-1] == id, "cleanup-order", id)
				s.pending = s.pending[:n-1]
				nd.Reach("cleanup")
				s.run(t)
			})
			continue
		case opLog:
			t.Log(s.text())
			continue
		case opLogf:
			t.Logf("%s", s.text())
			continue
		case opError:
			s.failed = true
			t.Error(s.text())
			continue
		case opErrorf:
			s.failed = true
			t.Errorf("%s", s.text())
			continue
		case opFail:
			s.failed = true
			t.Fail()
			continue
		case opFailNow:
			s.failed = true
			t.FailNow()
		case opFatal:
			s.failed = true
			t.Fatal(s.text())
		case opFatalf:
			s.failed = true
			t.Fatalf("%s", s.text())
		case opSkipNow:
			s.skipped = true
			t.SkipNow()
		case opSkip:
			s.skipped = true
			t.Skip(s.text())
		case opSkipf:
			s.skipped = true
			t.Skipf("%s", s.text())
		case opPanic:
			s.panicked = true
			panic(errAction)
		case opGoexit:
			s.exited = true
			runtime.Goexit()
		}
		nd.Assert(false, "continued", op)
	}
}

func (s *script) expectation() testkit.Expectation {
	return testkit.ToSatisfy("be satisfied", func(t *testkit.SatisfyT) {
		s.running = true
		defer func() { s.running = false }()
		s.run(t)
	})
}

// check compares the outcome with what the script did.
func (s *script) check(p testkit.Predicate) {
	if s.skipped {
		nd.Reach("skipped")
	} else if s.failed {
		nd.Reach("failed")
	} else {
		nd.Reach("passed")
	}
	ok := s.skipped || !s.failed
	nd.Assert(p.Ok() == ok, "verdict", s.skipped, s.failed)

	inv, tree := nd.Flip("inverted"), nd.Flip("tree-ok")
	r := p.Report(testkit.ReportGenerationContext{IsInverted: inv, TreeOk: tree})
	nd.Assert(r.Ok == ok && r.TreeOk == tree, "report-verdict")
	nd.Assert(r.Criteria == "be satisfied", "report-criteria")
	nd.Assert((r.Outcome != "") == (s.skipped || s.failed), "report-outcome")
	if ok || !inv {
		s.messagesOf(r)
		nd.Assert((r.Explanation != "") == (s.skipped || s.failed), "report-explanation")
	}
	nd.Reach("end")
}

// messagesOf asserts that the report has the logged messages, in order.
func (s *script) messagesOf(r *testkit.Report) {
	var text string
	for _, sec := range r.Sections {
		text += sec.Content.String()
	}
	for _, m := range s.messages {
		i := strings.Index(text, m)
		nd.Assert(i >= 0, "message-missing", m)
		if i >= 0 {
			text = text[i+len(m):]
		}
	}
	nd.Assert(!strings.Contains(text, "message"), "message-repeated")
}

func (s *script) perform() {
	p, err := s.expectation().Predicate(testkit.PredicateScope{})
	nd.Assert(err == nil, "construction-error")
	for i := nd.Pick("facts", 2); i > 0; i-- {
		p.Notify(fact.TickCycleBegun{})
		s.facts++
	}
	how, v := nd.Goexited(p.Done)
	nd.Assert(len(s.pending) == 0, "cleanup-missing", len(s.pending))
	switch how {
	case 0:
		nd.Assert(!s.panicked && !s.exited, "panic-swallowed")
		s.check(p)
	case 1:
		nd.Assert(s.panicked, "panicked", v)
		nd.Assert(v == errAction, "panic-value", v)
		nd.Reach("panic")
	case 2:
		nd.Assert(s.exited, "exited")
	}
}

// Script: any sequence of up to three calls.
func Script() {
	s := &script{budget: 4, kinds: opKinds}
	s.perform()
}

// ScriptCleanups: longer sequences of the kinds of calls that matter to the
// order of cleanup functions.
func ScriptCleanups() {
	s := &script{budget: 6, kinds: opPanic + 1}
	s.perform()
}

// ScriptInTree: combined with other expectations and used by a test.
func ScriptInTree() {
	w := newWorld()
	w.t.silent = true
	s := &script{budget: 3, kinds: opFatal + 1}
	not := nd.Flip("not")
	e := s.expectation()
	if not {
		e = testkit.Not(e)
	}
	f := &forest{}
	l := f.newLeaf()
	s.facts = -1
	how, v := nd.Goexited(func() {
		w.test.Expect(&act{commands: 1}, testkit.AllOf(l.exp, testkit.ToSatisfy("be satisfied", func(t *testkit.SatisfyT) {
			s.facts = len(w.facts.All)
			nd.Assert(s.facts > 0, "facts")
		}), e))
	})
	nd.Assert(len(s.pending) == 0, "cleanup-missing")
	nd.Assert((how == 1) == s.panicked, "panic-swallowed", v)
	if how != 0 {
		nd.Reach("panic")
		return
	}
	ok := s.skipped || !s.failed
	nd.Assert(w.t.Failed() == (!l.leaf.ok || ok == not), "verdict", ok)
	nd.Assert(w.t.reports == 1, "times-reported")
	if !not {
		for _, m := range s.messages {
			for _, l := range strings.Split(m, "\n") {
				nd.Assert(strings.Contains(w.t.report, l), "message-missing")
			}
		}
	}
	nd.Reach("end")
}

// ScriptHelpers: the location that is blamed for a failure.
func ScriptHelpers() {
	var file string
	var line int
	mark := nd.Flip("helper")
	how := nd.Pick("how", 3)
	p, _ := testkit.ToSatisfy("be satisfied", func(t *testkit.SatisfyT) {
		h := func() {
			if mark {
				t.Helper()
			}
			switch how {
			case 0:
				t.Error("no")
			case 1:
				t.FailNow()
			case 2:
				t.Skip("no")
			}
		}
		_, file, line, _ = runtime.Caller(0)
		h()
	}).Predicate(testkit.PredicateScope{})
	p.Done()
	r := p.Report(testkit.ReportGenerationContext{})
	file = file[strings.LastIndex(file, "/")+1:]
	nd.Assert(strings.Contains(r.Explanation, file+":"), "location-file", r.Explanation)
	at := fmt.Sprintf("%s:%d", file, line+1)
	nd.Assert(strings.HasSuffix(r.Explanation, at) == mark, "location-line", r.Explanation, at)
	nd.Reach("end")
}

// ScriptConcurrent: several goroutines use the same SatisfyT.
func ScriptConcurrent() {
	nd.Preemptions(2)
	nd.Race()
	failed := false
	total := 0
	p, _ := testkit.ToSatisfy("be satisfied", func(t *testkit.SatisfyT) {
		var wg sync.WaitGroup
		for i := 0; i < 2; i++ {
			op := nd.Pick("op", 5)
			total++
			switch op {
			case 1, 2:
				failed = true
			case 3, 4:
				total--
			}
			wg.Add(1)
			go func() {
				defer wg.Done()
				switch op {
				case 0:
					t.Log("message")
				case 1:
					t.Error("message")
				case 2:
					t.Errorf("message")
				case 3:
					t.Cleanup(func() { t.Log("message") })
				case 4:
					t.Failed()
				}
			}()
			if op == 3 {
				total++
			}
		}
		wg.Wait()
	}).Predicate(testkit.PredicateScope{})
	p.Done()
	nd.Assert(p.Ok() == !failed, "verdict")
	r := p.Report(testkit.ReportGenerationContext{})
	n := 0
	for _, s := range r.Sections {
		n += strings.Count(s.Content.String(), "message")
	}
	nd.Assert(n == total, "message-missing", n)
	nd.Reach("end")
}

// ScriptLogs: many messages, some of which are the same.
func ScriptLogs() {
	s := &script{}
	p, _ := testkit.ToSatisfy("be satisfied", func(t *testkit.SatisfyT) {
		for i := 0; i < 200; i++ {
			var m string
			if i%3 == 0 {
				m = s.text()
			} else {
				m = []string{"", "message again", "100%", "a\nmessage"}[i%4]
				s.messages = append(s.messages, m)
			}
			if i < 197 && i != 2 {
				t.Log(m)
				continue
			}
			switch nd.Pick("how", 3) {
			case 0:
				t.Logf("%s", m)
			case 1:
				t.Log(m)
			case 2:
				s.failed = true
				t.Error(m)
			}
		}
	}).Predicate(testkit.PredicateScope{})
	p.Done()
	s.check(p)
}
