package tests

import (
	"errors"
	"strings"

	"github.com/dogmatiq/testkit"
	"github.com/dogmatiq/testkit/internal/zzverif/nd"
)

func init() {
	Harnesses["RenderOne"] = RenderOne
	Harnesses["RenderTree"] = RenderTree
	Harnesses["RenderFails"] = RenderFails
	Harnesses["RenderLogged"] = RenderLogged
	Harnesses["RenderLong"] = RenderLong
}

// shown is a line that is to be shown. The depth of a report below another is
// three more than that of the other; its titles are one deeper and the contents
// two.
type shown struct {
	depth int
	text  string
}

var (
	explanations = []string{"", "because", "because of 100%\nand %d"}
	contents     = []string{"", "only", "only\n", "first\nsecond\n", "\n  between \n\n", "up\n\n%down"}
)

// arbitrary returns a report that has sections and the lines that it is shown
// as.
func arbitrary(name string, depth, sections int) (*testkit.Report, []shown) {
	r := &testkit.Report{Ok: nd.Flip("ok"), TreeOk: nd.Flip("tree-ok"), Criteria: "meet 5% of " + name}
	head := "✗ " + r.Criteria
	if r.Ok {
		head = "✓ " + r.Criteria
	}
	if nd.Flip("outcome") {
		r.Outcome = "outcome (%d) of " + name
		head += " (" + r.Outcome + ")"
	}
	lines := []shown{{depth, head}}
	r.Explanation = explanations[nd.Pick("explanation", len(explanations))]
	if r.Explanation != "" {
		lines = append(lines, shown{depth + 1, "EXPLANATION"})
		lines = deeper(lines, depth+2, r.Explanation)
	}
	for i := 0; i < sections; i++ {
		title := []string{"Some Thing", "Other"}[i]
		c := contents[nd.Pick("content", len(contents))]
		s := r.Section(title)
		if i == 0 && nd.Flip("list") {
			s.AppendListItem("%s", "item")
			lines = append(lines, shown{depth + 1, strings.ToUpper(title)}, shown{depth + 2, "• item"})
			if nd.Flip("again") {
				r.Section(title).AppendListItem("%d of %d", 1, 2)
				lines = append(lines, shown{depth + 2, "• 1 of 2"})
			}
			continue
		}
		s.Content.WriteString(c)
		if c != "" {
			lines = append(lines, shown{depth + 1, strings.ToUpper(title)})
			lines = deeper(lines, depth+2, c)
		}
	}
	return r, lines
}

func deeper(lines []shown, depth int, text string) []shown {
	for _, l := range strings.Split(text, "\n") {
		if l = strings.TrimSpace(l); l != "" {
			lines = append(lines, shown{depth, l})
		}
	}
	return lines
}

// checkShown compares a text with the lines it is to consist of, apart from
// empty ones. Lines of the same depth start in the same column; reports,
// titles and contents further to the right than what they belong to.
func checkShown(text string, want []shown) {
	column := map[int]int{}
	i := 0
	nd.Assert(strings.HasSuffix(text, "\n"), "unfinished-line")
	for _, l := range strings.Split(text, "\n") {
		t := strings.TrimLeft(l, " |")
		if t == "" {
			continue
		}
		if i == len(want) {
			nd.Assert(false, "too-much", l)
			return
		}
		at, w := len(l)-len(t), want[i]
		i++
		nd.Assert(strings.TrimRight(t, " ") == w.text, "line", t, "|", w.text)
		c, ok := column[w.depth]
		nd.Assert(!ok || c == at, "column", l)
		column[w.depth] = at
	}
	nd.Assert(i == len(want), "too-little")
	for d, c := range column {
		if b, ok := column[d+1]; ok && d%3 != 2 {
			nd.Assert(c < b, "indentation", d)
		}
		if b, ok := column[d+3]; ok && d%3 == 0 {
			nd.Assert(c < b, "indentation", d)
		}
	}
	nd.Reach("shown")
}

// RenderLong: reports with long texts and many sections.
func RenderLong() {
	r := &testkit.Report{Ok: nd.Flip("ok"), Criteria: "meet " + strings.Repeat("long ", 100) + "it"}
	head := "✗ " + r.Criteria
	if r.Ok {
		head = "✓ " + r.Criteria
	}
	want := []shown{{0, head}}
	n := []int{1, 40}[nd.Pick("explanation", 2)]
	want = append(want, shown{1, "EXPLANATION"})
	for i := 0; i < n; i++ {
		l := "because of it" + strings.Repeat("x", i*i)
		r.Explanation += l + "\n"
		want = append(want, shown{2, l})
	}
	long := nd.Pick("long", 3)
	for i := 0; i < 12; i++ {
		title := "Section " + string(rune('A'+i))
		want = append(want, shown{1, strings.ToUpper(title)})
		items := 1 + i
		if i == []int{0, 5, 11}[long] {
			items = 300
		}
		for j := 0; j < items; j++ {
			r.Section(title).AppendListItem("the same text")
			want = append(want, shown{2, "• the same text"})
		}
	}
	for i := 0; i < 30; i++ {
		r.Append(&testkit.Report{Criteria: "meet another"})
		want = append(want, shown{3, "✗ meet another"})
	}
	checkShown(render(r), want)
}

type sink struct {
	strings.Builder
	limit int // number of bytes that can be written, unless negative
}

var errFull = errors.New("full")

func (s *sink) Write(b []byte) (int, error) {
	for i, c := range b {
		if s.limit >= 0 && s.Len() >= s.limit {
			return i, errFull
		}
		s.WriteByte(c)
	}
	return len(b), nil
}

func render(r *testkit.Report) string {
	s := &sink{limit: -1}
	n, err := r.WriteTo(s)
	nd.Assert(err == nil, "failed", err)
	nd.Assert(n == int64(s.Len()), "count", n, s.Len())
	return s.String()
}

// RenderOne: a report without reports below it.
func RenderOne() {
	r, want := arbitrary("it", 0, 2)
	checkShown(render(r), want)
}

// RenderTree: reports below reports.
func RenderTree() {
	r, want := arbitrary("top", 0, 0)
	below(r, &want, "", 0)
	checkShown(render(r), want)
}

func below(r *testkit.Report, want *[]shown, name string, depth int) {
	n := nd.Pick("below", 4-2*depth)
	for i := 0; i < n; i++ {
		name := name + string(rune('a'+i))
		c, lines := small(name, 3*(depth+1))
		r.Append(c)
		*want = append(*want, lines...)
		if depth < 1 && n < 3 {
			below(c, want, name, depth+1)
		}
		nd.Reach("below")
	}
}

// small returns a report that has an explanation, a section or none of both.
func small(name string, depth int) (*testkit.Report, []shown) {
	r := &testkit.Report{Ok: nd.Flip("ok"), Criteria: "meet " + name}
	head := "✗ " + r.Criteria
	if r.Ok {
		head = "✓ " + r.Criteria
	}
	lines := []shown{{depth, head}}
	switch nd.Pick("extra", 3) {
	case 1:
		r.Explanation = "because"
		lines = append(lines, shown{depth + 1, "EXPLANATION"}, shown{depth + 2, "because"})
	case 2:
		r.Section("Other").Append("1\n2")
		lines = append(lines, shown{depth + 1, "OTHER"}, shown{depth + 2, "1"}, shown{depth + 2, "2"})
	}
	return r, lines
}

// RenderFails: the writer fails after any number of bytes.
func RenderFails() {
	r, _ := small("top", 0)
	r.Outcome = "failed"
	c, _ := small("a", 3)
	r.Append(c)
	all := render(r)
	s := &sink{limit: nd.Int("limit", 0, 200)}
	nd.Assume(s.limit <= len(all))
	n, err := r.WriteTo(s)
	if s.limit == len(all) {
		nd.Assert(err == nil && n == int64(len(all)), "needless-error", n, err)
		nd.Reach("just-fits")
		return
	}
	nd.Assert(errors.Is(err, errFull), "error-lost", err)
	nd.Assert(s.Len() == s.limit && strings.HasPrefix(all, s.String()), "not-a-prefix", s.String())
	nd.Assert(n == int64(s.limit), "count-of-failed", n, s.limit)
	nd.Reach("failed")
}

// given is an expectation with a given report.
type given struct {
	leaf
	rep *testkit.Report
}

func (g *given) Predicate(testkit.PredicateScope) (testkit.Predicate, error) { return g, nil }

func (g *given) Report(testkit.ReportGenerationContext) *testkit.Report { return g.rep }

// RenderLogged: the report is what is logged by the test.
func RenderLogged() {
	w := newWorld()
	r, want := arbitrary("it", 0, 1)
	w.t.silent = true
	w.test.Expect(testkit.Call(func() {}), &given{leaf{ok: r.Ok}, r})
	nd.Assert(w.t.reports == 1, "not-logged")
	nd.Assert((w.t.failNow == 0) == r.Ok, "verdict")
	checkShown(w.t.report, append([]shown{{0, "--- TEST REPORT ---"}}, want...))
}
