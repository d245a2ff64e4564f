package concur

import (
	"sync"

	"github.com/dogmatiq/testkit/fact"
	"github.com/dogmatiq/testkit/internal/zzverif/nd"
)

func init() {
	Harnesses["BufferConcurrent"] = BufferConcurrent
	Harnesses["BufferMany"] = BufferMany
	Harnesses["BufferHistory"] = BufferHistory
	Harnesses["BufferGrowth"] = BufferGrowth
	Harnesses["Group"] = Group
}

// note is a fact with a number.
func note(n int) fact.Fact {
	return fact.MessageLoggedByAggregate{LogArguments: []any{n}}
}

func number(f fact.Fact) int {
	x, ok := f.(fact.MessageLoggedByAggregate)
	nd.Assert(ok && len(x.LogArguments) == 1, "fact-altered")
	return x.LogArguments[0].(int)
}

func numbers(fs []fact.Fact) []int {
	ns := []int{}
	for _, f := range fs {
		ns = append(ns, number(f))
	}
	return ns
}

func prefix(a, b []int) bool {
	if len(a) > len(b) {
		return false
	}
	for i := range a {
		if a[i] != b[i] {
			return false
		}
	}
	return true
}

func BufferConcurrent() { buffers(2, 2, 3) }
func BufferMany()       { buffers(3, 1, 2) }

// buffers: goroutines notify a buffer while another one reads it twice.
func buffers(writers, facts, preemptions int) {
	nd.Race()
	nd.Preemptions(preemptions)
	b := &fact.Buffer{}
	var wg sync.WaitGroup
	for w := 0; w < writers; w++ {
		wg.Add(1)
		go func() {
			defer wg.Done()
			for k := 0; k < facts; k++ {
				b.Notify(note(10*w + k))
				nd.Yield()
			}
		}()
	}
	var kept [][]fact.Fact
	var then [][]int
	wg.Add(1)
	go func() {
		defer wg.Done()
		for k := 0; k < 2; k++ {
			fs := b.Facts()
			kept = append(kept, fs)
			then = append(then, numbers(fs))
			nd.Yield()
		}
	}()
	wg.Wait()
	end := numbers(b.Facts())
	nd.Assert(len(end) == writers*facts, "fact-lost-or-duplicated", len(end))
	last := map[int]int{}
	for _, n := range end {
		nd.Assert(n%10 == last[n/10], "out-of-order", n)
		last[n/10]++
	}
	for k := range kept {
		nd.Assert(prefix(then[k], end), "not-what-was-notified-first")
		now := numbers(kept[k])
		nd.Assert(len(now) == len(then[k]) && prefix(now, then[k]), "earlier-result-changed")
		if len(now) > 0 && len(now) < len(end) {
			nd.Reach("partial")
		}
	}
	nd.Assert(prefix(then[0], then[1]), "facts-disappear")
	nd.Reach("end")
}

func BufferHistory() { history(6) }

// history: notifications and readings in any order, by one goroutine; what has
// been returned may be overwritten and appended to.
func history(n int) {
	b := &fact.Buffer{}
	var model []int
	var kept [][]fact.Fact
	var then [][]int
	for k := 0; k < n; k++ {
		switch nd.Pick("op", 3) {
		case 0:
			v := nd.Int("value", 0, 1000)
			model = append(model, v)
			b.Notify(note(v))
		case 1:
			fs := b.Facts()
			kept = append(kept, fs)
			then = append(then, numbers(fs))
			nd.Assert(len(fs) == len(model) && prefix(numbers(fs), model), "facts")
		case 2:
			if len(kept) > 0 {
				fs := kept[len(kept)-1]
				if len(fs) > 0 {
					fs[0] = note(-1)
					then[len(kept)-1][0] = -1
					nd.Reach("overwritten")
				}
				_ = append(fs, note(-2))
			}
		}
		for i := range kept {
			now := numbers(kept[i])
			nd.Assert(len(now) == len(then[i]) && prefix(now, then[i]), "earlier-result-changed")
		}
	}
	fs := b.Facts()
	nd.Assert(len(fs) == len(model) && prefix(numbers(fs), model), "facts")
	nd.Reach("end")
}

// BufferGrowth: many facts, read after each.
func BufferGrowth() {
	b := &fact.Buffer{}
	var model []int
	var kept [][]fact.Fact
	for k := 0; k < 40; k++ {
		v := nd.Int("value", 0, 1000)
		model = append(model, v)
		b.Notify(note(v))
		kept = append(kept, b.Facts())
	}
	for k, fs := range kept {
		nd.Assert(len(fs) == k+1, "facts")
		for i := range fs {
			nd.Assert(number(fs[i]) == model[i], "facts")
		}
	}
	nd.Reach("end")
}

// Group: every member of a group is notified once, in order.
func Group() {
	n := nd.Pick("members", 4)
	var log []int
	var g fact.ObserverGroup
	for i := 0; i < n; i++ {
		g = append(g, fact.ObserverFunc(func(f fact.Fact) { log = append(log, 10000*i+number(f)) }))
	}
	inner := &fact.Buffer{}
	g = append(g, fact.ObserverGroup{inner, inner})
	vs := []int{nd.Int("value", 0, 1000), nd.Int("value", 0, 1000)}
	for _, v := range vs {
		g.Notify(note(v))
	}
	nd.Assert(len(log) == 2*n, "notifications", len(log))
	for k := range log {
		nd.Assert(log[k] == 10000*(k%n)+vs[k/n], "notified")
	}
	fs := inner.Facts()
	nd.Assert(len(fs) == 4, "notifications", len(fs))
	for k := range fs {
		nd.Assert(number(fs[k]) == vs[k/2], "notified")
	}
	nd.Reach("end")
}
