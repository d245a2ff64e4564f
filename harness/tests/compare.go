package tests

import (
	"context"

	"github.com/dogmatiq/dogma"
	"github.com/dogmatiq/testkit"
	"github.com/dogmatiq/testkit/engine"
	"github.com/dogmatiq/testkit/internal/zzverif/kit"
	"github.com/dogmatiq/testkit/internal/zzverif/nd"
	"google.golang.org/protobuf/proto"
	"google.golang.org/protobuf/reflect/protoreflect"
	"google.golang.org/protobuf/runtime/protoiface"
)

func init() {
	Harnesses["CompareProto"] = CompareProto
	Harnesses["CompareProtoValues"] = CompareProtoValues
	Harnesses["CompareStructure"] = CompareStructure
	Harnesses["CompareNested"] = CompareNested
	Harnesses["CompareExpected"] = CompareExpected
}

// pb is the content of a protocol buffers message: equality is that of the
// value and the kind of message, the size is a cache.
type pb struct {
	value, size int
}

// reflection is the reflective view of a protocol buffers message, without
// fields but with an implementation of equality.
type reflection struct {
	protoreflect.Message
	kind int
	of   *pb
}

func (r reflection) IsValid() bool { return r.of != nil }

func (r reflection) ProtoMethods() *protoiface.Methods {
	return &protoiface.Methods{
		Equal: func(in protoiface.EqualInput) protoiface.EqualOutput {
			a, b := in.MessageA.(reflection), in.MessageB.(reflection)
			return protoiface.EqualOutput{Equal: a.kind == b.kind && equalPB(a.of, b.of)}
		},
	}
}

func equalPB(a, b *pb) bool {
	if a == nil || b == nil {
		return a == b
	}
	return a.value == b.value
}

// PB1 and PB2 are protocol buffers messages, as is the value PBV.
type (
	PB1 struct{ pb }
	PB2 struct{ pb }
	PBV struct{ pb }
)

func (m *PB1) ProtoReflect() protoreflect.Message {
	if m == nil {
		return reflection{kind: 1}
	}
	return reflection{kind: 1, of: &m.pb}
}

func (m *PB2) ProtoReflect() protoreflect.Message {
	if m == nil {
		return reflection{kind: 2}
	}
	return reflection{kind: 2, of: &m.pb}
}

func (m PBV) ProtoReflect() protoreflect.Message { return reflection{kind: 1, of: &m.pb} }

func (*PB1) MessageDescription() string                { return "PB1" }
func (*PB2) MessageDescription() string                { return "PB2" }
func (PBV) MessageDescription() string                 { return "PBV" }
func (*PB1) Validate(dogma.EventValidationScope) error { return nil }
func (*PB2) Validate(dogma.EventValidationScope) error { return nil }
func (PBV) Validate(dogma.EventValidationScope) error  { return nil }

var (
	_ proto.Message = (*PB1)(nil)
	_ proto.Message = PBV{}
)

func content() pb {
	return pb{nd.Int("value", 0, 9), nd.Int("size", 0, 9)}
}

// some returns an arbitrary message, and its kind and content if it is of
// protocol buffers.
func some() (m dogma.Event, c *pb, kind int) {
	switch nd.Pick("message", 6) {
	case 0:
		m := &PB1{content()}
		return m, &m.pb, 1
	case 1:
		m := &PB2{content()}
		return m, &m.pb, 2
	case 2:
		m := PBV{content()}
		return m, &m.pb, 1
	case 3:
		return (*PB1)(nil), nil, 1
	case 4:
		return (*PB2)(nil), nil, 2
	}
	return kit.EvA{P: kit.P{N: nd.Int("value", 0, 9)}}, nil, 0
}

func compared(a, b dogma.Message, want bool) {
	got := testkit.DefaultMessageComparator(a, b)
	nd.Assert(got == want, "equal", got, want)
	if got {
		nd.Reach("equal")
	} else {
		nd.Reach("different")
	}
}

// CompareProto: messages of protocol buffers and others.
func CompareProto() {
	a, ca, ka := some()
	b, cb, kb := some()
	if nd.Flip("same") {
		b, cb, kb = a, ca, ka
	}
	switch {
	case ka != 0 && kb != 0:
		nd.Reach("both")
		compared(a, b, ka == kb && equalPB(ca, cb))
	case ka != kb:
		nd.Reach("mixed")
		compared(a, b, false)
	default:
		compared(a, b, a.(kit.EvA).N == b.(kit.EvA).N)
	}
}

// CompareProtoValues: equality is an equivalence of all three.
func CompareProtoValues() {
	a, b, c := &PB1{content()}, &PB1{content()}, &PB1{content()}
	eq := testkit.DefaultMessageComparator
	ab, bc, ac := eq(a, b), eq(b, c), eq(a, c)
	nd.Assert(eq(a, a), "not-reflexive")
	nd.Assert(ab == eq(b, a), "not-symmetric")
	if ab && bc {
		nd.Assert(ac, "not-transitive")
		nd.Reach("transitive")
	}
}

type part struct {
	n    int
	next *part
}

// Big is an event with structure.
type Big struct {
	Slice  []int
	Array  [2]int
	Map    map[string]int
	Ptr    *part
	Any    any
	Func   func()
	Text   string
	hidden int
}

func (*Big) MessageDescription() string                { return "Big" }
func (*Big) Validate(dogma.EventValidationScope) error { return nil }

// ValueBig is the same passed by value.
type ValueBig struct{ Big }

func (ValueBig) MessageDescription() string                { return "ValueBig" }
func (ValueBig) Validate(dogma.EventValidationScope) error { return nil }

// Flat can be compared with ==, which is not what is meant.
type Flat struct {
	Ptr *part
	Any any
}

func (Flat) MessageDescription() string                { return "Flat" }
func (Flat) Validate(dogma.EventValidationScope) error { return nil }

func num() int { return nd.Int("n", 0, 3) }

func slice() []int {
	switch k := nd.Pick("slice", 4); k {
	case 0:
		return nil
	default:
		s := make([]int, k-1, 4)
		for i := range s {
			s[i] = num()
		}
		return s
	}
}

func equalSlices(a, b []int) bool {
	if len(a) != len(b) || (a == nil) != (b == nil) {
		return false
	}
	r := true
	for i := range a {
		r = nd.And(r, a[i] == b[i])
	}
	return r
}

func dict() map[string]int {
	switch nd.Pick("map", 4) {
	case 0:
		return nil
	case 1:
		return map[string]int{}
	case 2:
		return map[string]int{"x": num()}
	}
	return map[string]int{"y": num(), "x": num()}
}

func equalMaps(a, b map[string]int) bool {
	if len(a) != len(b) || (a == nil) != (b == nil) {
		return false
	}
	r := true
	for k, x := range a {
		y, ok := b[k]
		r = nd.And(r, nd.And(ok, x == y))
	}
	return r
}

func anything() any {
	switch nd.Pick("any", 4) {
	case 0:
		return nil
	case 1:
		return num()
	case 2:
		return int64(num())
	}
	return part{n: num()}
}

func equalAny(a, b any) bool {
	switch a := a.(type) {
	case nil:
		return b == nil
	case int:
		b, ok := b.(int)
		return nd.And(ok, a == b)
	case int64:
		b, ok := b.(int64)
		return nd.And(ok, a == b)
	}
	p, ok := b.(part)
	return nd.And(ok, a.(part).n == p.n)
}

// CompareStructure: events that differ in one of their parts.
func CompareStructure() {
	a, b := &Big{Text: "t"}, &Big{Text: "t"}
	want := true
	switch nd.Pick("part", 7) {
	case 0:
		a.Slice, b.Slice = slice(), slice()
		want = equalSlices(a.Slice, b.Slice)
	case 1:
		a.Array, b.Array = [2]int{num(), num()}, [2]int{num(), num()}
		want = nd.And(a.Array[0] == b.Array[0], a.Array[1] == b.Array[1])
	case 2:
		a.Map, b.Map = dict(), dict()
		want = equalMaps(a.Map, b.Map)
	case 3:
		a.Any, b.Any = anything(), anything()
		want = equalAny(a.Any, b.Any)
	case 4:
		a.hidden, b.hidden = num(), num()
		want = a.hidden == b.hidden
	case 5:
		a.Text, b.Text = []string{"", "t", "T"}[nd.Pick("text", 3)], []string{"", "t", "T"}[nd.Pick("text", 3)]
		want = a.Text == b.Text
	case 6:
		if nd.Flip("function") {
			a.Func, b.Func = func() {}, a.Func
			want = false
		}
	}
	if nd.Flip("value") {
		compared(ValueBig{*a}, ValueBig{*b}, want)
		return
	}
	if nd.Flip("types") {
		compared(a, ValueBig{*b}, false)
		return
	}
	compared(a, b, want)
}

func chain() *part {
	var p *part
	for i, k := 0, nd.Pick("length", 4); i < k; i++ {
		p = &part{num(), p}
	}
	return p
}

// CompareNested: pointers are followed, shared or not.
func CompareNested() {
	if nd.Flip("nil") {
		compared((*Big)(nil), (*Big)(nil), true)
		compared((*Big)(nil), &Big{}, false)
		compared(&Big{}, (*Big)(nil), false)
		return
	}
	a, b := &Big{Ptr: chain()}, &Big{Ptr: chain()}
	if a.Ptr != nil && nd.Flip("shared") {
		b.Ptr.share(a.Ptr)
	}
	want := true
	x, y := a.Ptr, b.Ptr
	for x != nil && y != nil {
		want = nd.And(want, x.n == y.n)
		x, y = x.next, y.next
	}
	want = nd.And(want, x == nil && y == nil)
	if nd.Flip("flat") {
		a, b := Flat{Ptr: a.Ptr, Any: 1}, Flat{Ptr: b.Ptr, Any: 1}
		if nd.Flip("any") {
			a.Any, b.Any = a.Ptr, b.Ptr
		} else if nd.Flip("slice") {
			a.Any, b.Any = []int{1}, []int{num()}
			want = nd.And(want, b.Any.([]int)[0] == 1)
		}
		compared(a, b, want)
		return
	}
	compared(a, b, want)
}

// share replaces what follows by what follows another part.
func (p *part) share(o *part) {
	if p != nil {
		p.next = o.next
	}
}

// CompareExpected: what expectations take for the expected event.
func CompareExpected() {
	var contents []*pb
	var slices, values [][]int
	w := newProtoWorld(func(s dogma.IntegrationCommandScope) {
		for i := 0; i < 2; i++ {
			switch nd.Pick("event", 3) {
			case 0:
				m := &PB1{content()}
				contents = append(contents, &m.pb)
				s.RecordEvent(m)
			case 1:
				m := ValueBig{Big{Slice: slice()}}
				values = append(values, m.Slice)
				s.RecordEvent(m)
			case 2:
				m := &Big{Slice: slice()}
				slices = append(slices, m.Slice)
				s.RecordEvent(m)
			}
		}
	})
	w.t.silent = true
	want := false
	var e testkit.Expectation
	judge := func() {
		w.test.Expect(testkit.ExecuteCommand(kit.CmdA{P: kit.P{To: "x"}}), e)
	}
	switch nd.Pick("expected", 3) {
	case 0:
		m := &PB1{content()}
		e = testkit.ToRecordEvent(m)
		judge()
		for _, c := range contents {
			want = nd.Or(want, equalPB(c, &m.pb))
		}
	case 1:
		m := ValueBig{Big{Slice: slice()}}
		e = testkit.ToRecordEvent(m)
		judge()
		for _, c := range values {
			want = nd.Or(want, equalSlices(c, m.Slice))
		}
	case 2:
		m := &Big{Slice: slice()}
		e = testkit.ToRecordEvent(m)
		judge()
		for _, c := range slices {
			want = nd.Or(want, equalSlices(c, m.Slice))
		}
	}
	nd.Assert(len(w.t.fatal) == 0, "refused", w.t.fatal)
	nd.Assert((w.t.failNow == 0) == want, "expected", w.t.failNow)
	if want {
		nd.Reach("met")
	} else {
		nd.Reach("not-met")
	}
}

func newProtoWorld(f func(dogma.IntegrationCommandScope)) *world {
	w := &world{t: &tt{}}
	w.app = &kit.App{Handlers: []any{
		&kit.Integ{
			Name: "integ", Key: kit.Key1,
			Routes: []dogma.IntegrationRoute{
				dogma.HandlesCommand[kit.CmdA](),
				dogma.RecordsEvent[*PB1](),
				dogma.RecordsEvent[*Big](),
				dogma.RecordsEvent[ValueBig](),
			},
			HandleF: func(_ context.Context, s dogma.IntegrationCommandScope, _ dogma.Command) error {
				f(s)
				return nil
			},
		},
	}}
	w.test = testkit.Begin(w.t, w.app, testkit.StartTimeAt(t0), testkit.WithUnsafeOperationOptions(engine.EnableIntegrations(true)))
	return w
}
