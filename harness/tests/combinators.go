// Package tests drives the test kit itself: expectations, actions and tests.
package tests

import (
	"errors"
	"strings"

	"github.com/dogmatiq/testkit"
	"github.com/dogmatiq/testkit/fact"
	"github.com/dogmatiq/testkit/internal/zzverif/nd"
)

var Harnesses = map[string]func(){
	"Wide":         Wide,
	"Nested":       Nested,
	"Deep":         Deep,
	"Construction": Construction,
}

// leaf is an expectation with an arbitrary verdict, and a record of how it is
// used.
type leaf struct {
	id       int
	early    bool // verdict before it is completed
	ok       bool // final verdict
	err      error
	made     int
	facts    []fact.Fact
	done     int
	reports  int
	inverted bool
	treeOk   bool
}

func (l *leaf) Caption() string { return "to be" }

func (l *leaf) Predicate(testkit.PredicateScope) (testkit.Predicate, error) {
	l.made++
	if l.err != nil {
		return nil, l.err
	}
	return l, nil
}

func (l *leaf) Notify(f fact.Fact) {
	nd.Assert(l.done == 0, "notified-after-completion")
	l.facts = append(l.facts, f)
}

func (l *leaf) Ok() bool {
	if l.done == 0 {
		return l.early
	}
	return l.ok
}

func (l *leaf) Done() { l.done++ }

func (l *leaf) Report(ctx testkit.ReportGenerationContext) *testkit.Report {
	nd.Assert(l.done == 1, "reported-before-completion")
	l.reports++
	l.inverted, l.treeOk = ctx.IsInverted, ctx.TreeOk
	return &testkit.Report{TreeOk: ctx.TreeOk, Ok: l.ok, Criteria: criteria(l.id)}
}

func criteria(id int) string { return string(rune('A' + id)) }

const (
	kLeaf = iota
	kAll
	kAny
	kNone
	kNot
	kRepeat
)

// node is the model of an expectation.
type node struct {
	kind     int
	leaf     *leaf
	children []*node
	exp      testkit.Expectation
}

type forest struct{ leaves []*leaf }

func (f *forest) newLeaf() *node {
	l := &leaf{id: len(f.leaves), early: nd.Bool("early"), ok: nd.Bool("verdict")}
	f.leaves = append(f.leaves, l)
	return &node{kind: kLeaf, leaf: l, exp: l}
}

func (f *forest) node(kind int, children ...*node) *node {
	n := &node{kind: kind, children: children}
	var es []testkit.Expectation
	for _, c := range children {
		es = append(es, c.exp)
	}
	switch kind {
	case kAll:
		n.exp = testkit.AllOf(es...)
	case kAny:
		n.exp = testkit.AnyOf(es...)
	case kNone:
		n.exp = testkit.NoneOf(es...)
	case kNot:
		n.exp = testkit.Not(es[0])
	case kRepeat:
		n.exp = testkit.ToRepeatedly("repeat", len(es), func(i int) testkit.Expectation { return es[i] })
	}
	return n
}

// tree is an arbitrary tree of the given depth whose inner nodes have up to
// width children.
func (f *forest) tree(depth, width int) *node {
	if depth == 0 {
		return f.newLeaf()
	}
	kind := nd.Pick("kind", 6)
	if kind == kLeaf {
		return f.newLeaf()
	}
	n := 1
	if kind != kNot {
		n = 1 + nd.Pick("width", width)
	}
	var cs []*node
	for i := 0; i < n; i++ {
		cs = append(cs, f.tree(depth-1, 2))
	}
	return f.node(kind, cs...)
}

// passed is the number of children whose verdict is true.
func (n *node) passed() int {
	k := 0
	for _, c := range n.children {
		if c.verdict() {
			k++
		}
	}
	return k
}

func (n *node) verdict() bool {
	switch n.kind {
	case kLeaf:
		return n.leaf.ok
	case kAll, kRepeat:
		return n.passed() == len(n.children)
	case kAny:
		return n.passed() > 0
	}
	return n.passed() == 0
}

// check compares a report with the model of the node.
func (n *node) check(r *testkit.Report, inverted, treeOk bool) {
	nd.Assert(r != nil, "report-missing")
	nd.Assert(r.Ok == n.verdict(), "report-verdict", n.kind)
	nd.Assert(r.TreeOk == treeOk, "report-of-tree", n.kind)
	total, passed := len(n.children), n.passed()
	switch n.kind {
	case kLeaf:
		nd.Assert(n.leaf.reports == 1 && r.Criteria == criteria(n.leaf.id), "report-of-leaf")
		nd.Assert(n.leaf.inverted == inverted && n.leaf.treeOk == treeOk, "report-context")
		return
	case kNot:
		nd.Assert(len(r.SubReports) == 0, "reports-of-children")
		n.children[0].context(!inverted, treeOk)
		return
	case kAll, kAny:
		if total == 1 {
			n.children[0].check(r, inverted, treeOk)
			return
		}
	}
	nd.Assert((r.Outcome == "") == r.Ok, "outcome", n.kind)
	if !r.Ok {
		k := total - passed
		if n.kind == kNone {
			k = passed
		}
		switch {
		case n.kind == kAny:
			nd.Assert(states(r.Outcome, total), "outcome-count", r.Outcome)
		case n.kind == kNone && total == 1:
		default:
			nd.Assert(states(r.Outcome, k), "outcome-count", r.Outcome)
		}
	}
	if n.kind == kNone {
		inverted = !inverted
	}
	if n.kind == kRepeat {
		for _, c := range n.children {
			if !c.verdict() {
				nd.Assert(len(r.SubReports) == 1, "reports-of-children")
				c.check(r.SubReports[0], inverted, treeOk)
				nd.Reach("repeat-failed")
				return
			}
		}
		nd.Assert(len(r.SubReports) == 0, "reports-of-children")
		return
	}
	nd.Assert(len(r.SubReports) == total, "reports-of-children")
	for i, c := range n.children {
		c.check(r.SubReports[i], inverted, treeOk)
	}
}

// context checks what the leaves were told that are not part of a report.
func (n *node) context(inverted, treeOk bool) {
	if n.kind == kLeaf && n.leaf.reports > 0 {
		nd.Assert(n.leaf.inverted == inverted && n.leaf.treeOk == treeOk, "report-context")
		nd.Reach("negated")
	}
	if n.kind == kNot || n.kind == kNone {
		inverted = !inverted
	}
	for _, c := range n.children {
		c.context(inverted, treeOk)
	}
}

// states tells whether the text contains the number.
func states(text string, n int) bool {
	for _, w := range strings.Fields(text) {
		if w == string(rune('0'+n)) {
			return true
		}
	}
	return false
}

// run makes a predicate of the tree, notifies it of facts and completes it.
func (f *forest) run(n *node, facts int) {
	p, err := n.exp.Predicate(testkit.PredicateScope{})
	nd.Assert(err == nil, "construction-error")
	var fs []fact.Fact
	for i := 0; i < facts; i++ {
		x := fact.MessageLoggedByAggregate{LogFormat: criteria(i)}
		fs = append(fs, x)
		p.Notify(x)
		p.Ok()
	}
	p.Done()
	v := n.verdict()
	nd.Assert(p.Ok() == v, "verdict")
	nd.Assert(p.Ok() == v, "verdict-changes")
	if v {
		nd.Reach("met")
	} else {
		nd.Reach("not-met")
	}
	for _, l := range f.leaves {
		nd.Assert(l.made == 1, "times-constructed")
		nd.Assert(l.done == 1, "times-completed", l.done)
		nd.Assert(len(l.facts) == len(fs), "facts-observed", len(l.facts))
		for i := range fs {
			nd.Assert(l.facts[i].(fact.MessageLoggedByAggregate).LogFormat == criteria(i), "facts-observed")
		}
	}
	inv := nd.Flip("inverted")
	n.check(p.Report(testkit.ReportGenerationContext{TreeOk: v != inv, IsInverted: inv}), inv, v != inv)
	nd.Reach("end")
}

// Wide: one combinator over up to four leaves.
func Wide() {
	f := &forest{}
	f.run(f.tree(1, 4), nd.Pick("facts", 3))
}

// Nested: a combinator over up to two combinators over up to two leaves.
func Nested() {
	f := &forest{}
	f.run(f.tree(2, 2), 1)
}

// Deep: chains of combinators of which the first child is a combinator again.
func Deep() {
	f := &forest{}
	n := f.newLeaf()
	for i := 0; i < 3; i++ {
		kind := 1 + nd.Pick("kind", 5)
		cs := []*node{n}
		if kind != kNot && nd.Flip("sibling") {
			cs = append(cs, f.newLeaf())
		}
		n = f.node(kind, cs...)
	}
	f.run(n, 1)
}

// Construction fails if and only if that of a child fails.
func Construction() {
	f := &forest{}
	n := f.tree(2, 2)
	var errs []error
	for _, l := range f.leaves {
		if nd.Flip("error") {
			l.err = errors.New("no")
			errs = append(errs, l.err)
		}
	}
	p, err := n.exp.Predicate(testkit.PredicateScope{})
	if len(errs) == 0 {
		nd.Assert(err == nil && p != nil, "construction-error")
		nd.Reach("constructed")
		return
	}
	nd.Assert(err != nil, "construction-error-lost")
	found := false
	for _, e := range errs {
		if errors.Is(err, e) {
			found = true
		}
	}
	nd.Assert(found, "construction-error-replaced")
	nd.Reach("refused")
}
