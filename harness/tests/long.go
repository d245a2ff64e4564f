package tests

import (
	"errors"

	"github.com/dogmatiq/testkit"
	"github.com/dogmatiq/testkit/internal/zzverif/kit"
	"github.com/dogmatiq/testkit/internal/zzverif/nd"
)

func init() {
	Harnesses["ExpectLong"] = ExpectLong
	Harnesses["Wider"] = Wider
	Harnesses["Deeper"] = Deeper
	Harnesses["ValueLong"] = ValueLong
	Harnesses["TypeLong"] = TypeLong
	Harnesses["MatchLong"] = MatchLong
	Harnesses["ExecutorMany"] = ExecutorMany
	Harnesses["ScriptLong"] = ScriptLong
	Harnesses["SelectLong"] = SelectLong
}

// ExpectLong: many calls of Expect(), one of which goes in any way.
func ExpectLong() {
	w := newWorld()
	odd := []int{0, 2, 5, 8}[nd.Pick("odd", 4)]
	style := nd.Pick("style", 3)
	for i := 0; i < 10; i++ {
		f := &forest{}
		l := &leaf{ok: i%2 == 0, early: i%3 == 0}
		n := &node{kind: kLeaf, leaf: l, exp: l}
		f.leaves = append(f.leaves, l)
		a := &act{commands: i % 4}
		w.mode = 1 + (i+style)%3
		if i == odd {
			w.mode = 0
			l.ok, l.early = nd.Bool("ok"), nd.Bool("early")
			a.outcome = nd.Pick("outcome", 4)
			if nd.Flip("refused") {
				l.err = errors.New("refused")
			}
		}
		w.expect(a, n, f.leaves)
	}
	nd.Reach("end")
}

// Wider: a combinator of nine expectations, of which at most two differ from
// the others.
func Wider() {
	f := &forest{}
	kind := []int{kAll, kAny, kNone, kRepeat}[nd.Pick("kind", 4)]
	base := nd.Flip("base")
	i, j := nd.Pick("odd", 10), []int{0, 4, 8}[nd.Pick("odd-too", 3)]
	var cs []*node
	for k := 0; k < 9; k++ {
		l := &leaf{id: k, ok: base != (k == i || k == j && i < 9)}
		l.early = !l.ok
		f.leaves = append(f.leaves, l)
		cs = append(cs, &node{kind: kLeaf, leaf: l, exp: l})
	}
	f.run(f.node(kind, cs...), nd.Pick("facts", 2)*20)
}

// Deeper: chains of up to ten combinators.
func Deeper() {
	f := &forest{}
	n := f.newLeaf()
	a, b := 1+nd.Pick("kind", 5), 1+nd.Pick("kind", 5)
	wide := nd.Flip("wide")
	for i := []int{4, 9, 10}[nd.Pick("depth", 3)]; i > 0; i-- {
		kind := a
		if i%2 == 0 {
			kind = b
		}
		cs := []*node{n}
		if kind != kNot && wide {
			l := &leaf{id: len(f.leaves), ok: i%3 == 0}
			f.leaves = append(f.leaves, l)
			cs = append(cs, &node{kind: kLeaf, leaf: l, exp: l})
		}
		n = f.node(kind, cs...)
	}
	f.run(n, 2)
}

// long makes handlers produce many messages, one of which has any number, and
// all of the others the same.
func long(base int) *stream {
	s := newStream(12, 1)
	s.before()
	style := nd.Pick("style", 3)
	odd := []int{0, 1, 5, 11, 12, 20, 23, 30}[nd.Pick("odd", 8)]
	s.plan = func(k, types int) (int, int) {
		typ := (k * style) % types
		if types == 3 {
			typ = 1 + k*style%2
		}
		if k == odd {
			return typ, nd.Int("n", 0, 3)
		}
		return typ, base
	}
	s.calls = 0
	return s
}

// ValueLong: expectations of values about long streams.
func ValueLong() {
	s := long(3)
	s.value(testkit.ExecuteCommand(command(mCmdA, 0)))
	nd.Assert(len(s.log) > 20, "stream")
	nd.Reach("end")
}

// TypeLong: a type occurs only once in a long stream.
func TypeLong() {
	s := newStream(24, 0)
	at := nd.Pick("at", 26)
	s.plan = func(k, types int) (int, int) {
		if k == at {
			return 1, 0
		}
		return 0, 0
	}
	s.expect(testkit.ExecuteCommand(command(mCmdA, 0)), testkit.ToRecordEventType[kit.EvB](), func() bool { return at < 24 })
	nd.Reach("end")
}

// MatchLong: predicates about long streams.
func MatchLong() {
	only := nd.Flip("only")
	base := 1 + nd.Pick("base", 2)
	if only {
		base -= 1
	}
	s := long(base)
	s.match(testkit.ExecuteCommand(command(mCmdA, 0)), only)
	nd.Reach("end")
}

// ExecutorMany: many actions, one of which goes in any way.
func ExecutorMany() {
	e := newExec(icPass + 1)
	e.smooth = true
	odd := []int{0, 3, 6}[nd.Pick("odd", 3)]
	for i := 0; i < 9; i++ {
		if i == odd {
			e.smooth = false
			e.call(i+1, icKinds, 1)
			e.smooth = true
		} else {
			e.callTo(i+1, i%2, 0, i%3 == 0, i%4)
		}
		e.use(false, 0, icNone)
	}
	nd.Reach("end")
}

// ScriptLong: many calls of one kind or another before any two.
func ScriptLong() {
	s := &script{budget: 2, kinds: opKinds}
	pattern := [][]int{
		{opLog},
		{opCleanup},
		{opLog, opCleanup},
		{opError, opLog, opCleanup},
		{opErrorf, opLogf},
	}[nd.Pick("pattern", 5)]
	for i := 0; i < 12; i++ {
		s.fixed = append(s.fixed, pattern[i%len(pattern)])
	}
	s.perform()
}

// SelectLong: many calls, one of which is any.
func SelectLong() {
	s := newSelection()
	s.plain = true
	odd := []int{0, 3, 7}[nd.Pick("odd", 3)]
	for i := 0; i < 9; i++ {
		if i == odd {
			if nd.Flip("by-name") {
				s.byName(1)
			} else {
				s.byPattern(1)
			}
		} else {
			h := []int{0, 2, 1, 3}[i%4]
			enable := (i/2)%2 == 1
			s.apply(enable, []int{h}, false, func() {
				if enable {
					s.test.EnableHandlers(names[h])
				} else {
					s.test.DisableHandlers(names[h])
				}
			})
		}
		s.check()
	}
	nd.Reach("end")
}
