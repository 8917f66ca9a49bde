package main

import (
	"errors"
	"reflect"
	"strconv"
	"strings"
	"sync"

	json "github.com/matehaxor03/holistic_json/json"
)

// op is one read operation on one part of a document.
type op struct {
	part int // index into parts(doc)
	m    method
	key  string
	arg  int
}

// parts lists every reachable container and value of a document in a fixed order, freshly obtained.
// It performs only the reads it needs to get there.
func parts(m *json.Map) []interface{} {
	out := []interface{}{m}
	var walkMap func(m *json.Map)
	var walkArr func(a *json.Array)
	walk := func(v *json.Value) {
		if v == nil {
			return
		}
		out = append(out, v)
		switch o := v.GetObject().(type) {
		case *json.Map:
			if o != nil {
				out = append(out, o)
				walkMap(o)
			}
		case json.Map:
			out = append(out, &o)
			walkMap(&o)
		case *json.Array:
			if o != nil {
				out = append(out, o)
				walkArr(o)
			}
		case json.Array:
			out = append(out, &o)
			walkArr(&o)
		}
	}
	walkMap = func(m *json.Map) {
		for _, k := range m.GetKeys() {
			walk(m.GetValue(k))
		}
	}
	walkArr = func(a *json.Array) {
		for _, v := range *a.GetValues() {
			walk(v)
		}
	}
	walkMap(m)
	return out
}

// opsOf lists every read operation with every argument variant on every part.
func opsOf(ps []interface{}) []op {
	var out []op
	for i, p := range ps {
		t := reflect.TypeOf(p).Elem()
		switch t {
		case tValue:
			for _, f := range valueReads {
				for a := range argVariants(f, "") {
					out = append(out, op{i, f, "", a})
				}
			}
		case tMap:
			keys := append(append([]string{}, p.(*json.Map).GetKeys()...), "absent")
			for _, f := range mapReads {
				ks := keys
				if f.typ.NumIn() == 0 || f.typ.In(0) == tBuilder {
					ks = keys[:1]
				}
				for _, k := range ks {
					for a := range argVariants(f, k) {
						out = append(out, op{i, f, k, a})
					}
				}
			}
		case tArray:
			for _, f := range arrayReads {
				for a := range argVariants(f, "") {
					out = append(out, op{i, f, "", a})
				}
			}
		}
	}
	return out
}

func (o op) run(c *Ctx, ps []interface{}) string {
	c.Op(1)
	args := argVariants(o.m, o.key)[o.arg]
	s := renderAll(callField(reflect.ValueOf(ps[o.part]).Elem(), o.m, args...))
	if len(args) == 1 && args[0] != nil && o.m.typ.In(0) == tBuilder {
		s += args[0].(*strings.Builder).String()
	}
	return s
}

func (o op) String() string {
	return o.m.owner.Name() + "#" + strconv.Itoa(o.part) + "." + o.m.name + "(" + o.key + ")/" + strconv.Itoa(o.arg)
}

// baseline: what every operation gives on a fresh document on which nothing else has been read.
func baseline(c *Ctx, mk func() *json.Map) ([]op, []string) {
	ops := opsOf(parts(mk()))
	out := make([]string, len(ops))
	for i, o := range ops {
		out[i] = o.run(c, parts(mk()))
	}
	return ops, out
}

func sameReads(c *Ctx, ps []interface{}, ops []op, want []string, backwards bool, from, stride int, after string) {
	for i := from; i < len(ops); i += stride {
		j := i
		if backwards {
			j = len(ops) - 1 - i
		}
		if got := ops[j].run(c, ps); got != want[j] {
			c.Failf("after %s (and the reads before it) %s = %s, on a fresh document %s", after, ops[j], clipText(got), clipText(want[j]))
		}
	}
}

func docOfSubject(s subject, shape int) func() *json.Map {
	return func() *json.Map {
		m := json.NewMap()
		v := json.NewValue(s.obj())
		switch shape {
		case 0:
			m.SetValue("k", v)
		case 1:
			a := json.NewArray()
			a.AppendValue(v)
			m.SetArray("a", a)
		case 2:
			n := json.NewMap()
			n.SetValue("k", v)
			m.SetMapValue("m", *n)
			m.SetNil("z")
		}
		return m
	}
}

func pureSubjects() []subject {
	var out []subject
	for _, x := range catalog() {
		x := x
		out = append(out, subject{x.name, "json", x.mv, x.obj})
	}
	for _, s := range []string{"nil", "<nil>", "map[]", "NULL", "1e3", "0", "2023-01-02 03:04:05.678901", "{}", "[1]", " 7 "} {
		x := strCell(s, true)
		out = append(out, subject{x.name, "json", x.mv, x.obj})
	}
	out = append(out, otherSubjects()...)
	out = append(out, failingSubjects()...)
	// error lists with empty places, long lists, lists of texts: as they are and by pointer
	e := func(s string) error { return errors.New(s) }
	for i, l := range [][]error{{nil}, {nil, e("b")}, {e("a"), nil}, {nil, e("b"), e("c")}, {e("a"), nil, e("c")}, {e("a"), e("b"), nil}, {nil, nil, e("c"), e("b"), e("a")}, {e("3"), e("1"), e("2"), e("1")}} {
		l := l
		out = append(out, subject{"errors " + itoa(i), "odd", nil, func() interface{} { return append([]error{}, l...) }},
			subject{"*errors " + itoa(i), "odd", nil, func() interface{} { x := append([]error{}, l...); return &x }})
	}
	for i, l := range [][]string{{}, {"a"}, {"b", "a", "", "b"}, {"3", "", "2", "x", "1", "2"}} {
		l := l
		out = append(out, subject{"texts " + itoa(i), "odd", nil, func() interface{} { return append([]string{}, l...) }},
			subject{"*texts " + itoa(i), "odd", nil, func() interface{} { x := append([]string{}, l...); return &x }})
	}
	return out
}

var pureDocs = []string{`{}`, `{"a":1}`, `{"a":{"b":[1,"2",null,{}]},"c":"x","d":[[],[true]]}`, `{"n":null,"f":1.5,"s":"12","t":"true","neg":-300,"big":18446744073709551615,"l":[1,2,3],"ls":["a","b"],"lf":[1.5,2.5],"lb":[true,false],"m":{"x":{"y":{"z":[]}}}}`,
	`{"a\"b":"c\\d\n","é":"😀","":"","l":["1","2"],"mixed":[1,"1",1.5,true,null,{"k":1},[1]]}`}

func init() {
	reg("C17",
		Harness{Name: "any-read-then-every-read", Bound: "documents holding each kind of stored object in 3 shapes: every read operation on every part, then every second (thorough: every) read operation on every part forwards or backwards; each result equal to that on a fresh document", Body: func(c *Ctx) {
			subs := pureSubjects()
			s := subs[c.Choose(len(subs))]
			shape := c.Choose(3)
			mk := docOfSubject(s, shape)
			ops, want := baseline(c, mk)
			backwards := false
			stride := 1
			if shape == 0 || c.Thorough {
				backwards = c.Bool()
			} else {
				stride = 5
			}
			if !c.Thorough {
				stride *= 2
			}
			const step = 5
			off := c.Choose(step)
			for i := off; i < len(ops); i += step {
				ps := parts(mk())
				if got := ops[i].run(c, ps); got != want[i] {
					c.Failf("%s is not repeatable on equal documents: %s then %s", ops[i], want[i], got)
				}
				sameReads(c, ps, ops, want, backwards, i%stride, stride, ops[i].String())
				c.State(s.name, ops[i].String())
			}
		}},
		Harness{Name: "documents", Bound: "5 parsed documents: each of their read operations (900 to 4000), then every read operation in a stride of 3 (thorough: all), the text and the model", Body: func(c *Ctx) {
			d := c.Choose(len(pureDocs))
			mk := func() *json.Map { return mustParse(c, pureDocs[d]) }
			w, err := decodeStd(pureDocs[d])
			if err != nil {
				c.Failf("%v", err)
			}
			ops, want := baselineOf(c, d, mk)
			part := c.Choose(64)
			for i := part; i < len(ops); i += 64 {
				m := mk()
				ps := parts(m)
				ops[i].run(c, ps)
				c.State(itoa(d), ops[i].String())
				step := 7
				if c.Thorough {
					step = 1
				}
				for j := i % step; j < len(ops); j += step {
					if got := ops[j].run(c, ps); got != want[j] {
						c.Failf("after %s, %s = %s, on a fresh document %s", ops[i], ops[j], clipText(got), clipText(want[j]))
					}
				}
				var b strings.Builder
				if e := m.ToJSONString(&b); e != nil {
					c.Failf("after %s: %s", ops[i], errOf(e))
				}
				g, err := decodeStd(b.String())
				if err != nil || g.String() != w.String() {
					c.Failf("after %s the document is written as %s", ops[i], b.String())
				}
			}
		}},
		Harness{Name: "triples", Bound: "every sequence of three read operations of a value (one per operation) on each of 41 kinds, then every read", Body: func(c *Ctx) {
			cat := smallCatalog()
			x := cat[c.Choose(len(cat))]
			s := subject{x.name, "json", x.mv, x.obj}
			var ops []op
			for _, f := range valueReads {
				if strings.HasPrefix(f.name, "Is") && f.name != "IsNil" && f.name != "IsNumber" && f.name != "IsEmptyString" && !c.Thorough {
					continue
				}
				ops = append(ops, op{1, f, "", 0})
			}
			mk := docOfSubject(s, 0)
			want := make([]string, len(ops))
			for i, o := range ops {
				want[i] = o.run(c, parts(mk()))
			}
			i, j := c.Choose(len(ops)), c.Choose(len(ops))
			c.State(x.name, ops[i].String(), ops[j].String())
			m := mk()
			ps := parts(m)
			for _, k := range []int{i, j} {
				if got := ops[k].run(c, ps); got != want[k] {
					c.Failf("%s: %s after %s = %s, want %s", x.name, ops[k], ops[i], got, want[k])
				}
			}
			for k, o := range ops {
				if got := o.run(c, ps); got != want[k] {
					c.Failf("%s: after %s and %s, %s = %s, want %s", x.name, ops[i], ops[j], o, got, want[k])
				}
			}
			expectDoc(c, "document", m, mMap().set("k", x.mv), 0)
		}},
		Harness{Name: "repetition", Bound: "every read operation repeated 300 times on every kind", Body: func(c *Ctx) {
			subs := pureSubjects()
			s := subs[c.Choose(len(subs))]
			mk := docOfSubject(s, 0)
			ps := parts(mk())
			n := 300
			for _, o := range opsOf(ps) {
				first := o.run(c, ps)
				for i := 0; i < n; i++ {
					if i > 40 && strings.HasPrefix(o.m.name, "Is") {
						break
					}
					if got := o.run(c, ps); got != first {
						c.Failf("%s of %s: reading number %d gives %s, the first gave %s", o, s.name, i+2, got, first)
					}
				}
				c.State(s.name, o.String())
			}
		}},
		Harness{Name: "lists", Bound: "arrays of n elements, n of the size sweep up to 130, mixed or alike: every read operation, then the whole array and document against the model", Body: func(c *Ctx) {
			sizes := sweep(130)
			n := sizes[c.Choose(len(sizes))]
			kind := c.Choose(3)
			w := mArr()
			for i := 0; i < n; i++ {
				switch kind {
				case 0:
					w.Vals = append(w.Vals, cycleLeaf(i))
				case 1:
					w.Vals = append(w.Vals, mUintT("uint8", uint64(i)))
				case 2:
					w.Vals = append(w.Vals, mStr("s"+itoa(i)))
				}
			}
			a := buildArr(w)
			m := json.NewMap()
			m.SetArray("k", a)
			doc := mMap().set("k", w)
			c.State(itoa(n), itoa(kind))
			ra, rm := reflect.ValueOf(a).Elem(), reflect.ValueOf(m).Elem()
			for _, f := range arrayReads {
				for _, args := range argVariants(f, "") {
					c.Op(1)
					callField(ra, f, args...)
				}
			}
			for _, f := range mapReads {
				for _, args := range argVariants(f, "k") {
					c.Op(1)
					callField(rm, f, args...)
				}
			}
			expectDoc(c, "document", m, doc, 0)
			expectText(c, "document", m, doc)
		}},
	)
}

type cachedBase struct {
	ops  []op
	want []string
}

var baseMu sync.Mutex
var baseCache = map[int]cachedBase{}

func baselineOf(c *Ctx, d int, mk func() *json.Map) ([]op, []string) {
	baseMu.Lock()
	defer baseMu.Unlock()
	if b, ok := baseCache[d]; ok {
		return b.ops, b.want
	}
	ops := opsOf(parts(mk()))
	want := make([]string, len(ops))
	for i, o := range ops {
		want[i] = o.run(c, parts(mk()))
	}
	baseCache[d] = cachedBase{ops, want}
	return ops, want
}
