package main

import (
	"fmt"
	"os"
	"os/exec"
	"reflect"
	"strings"
	"sync"
	"time"

	json "github.com/matehaxor03/holistic_json/json"
)

// program is a user of documents of its own: a list of steps on private data. What it returns must
// not depend on anything else that happens in the process.
type program struct {
	name string
	cost int // 0 tiny, 1 small, 2 large
	mk   func() []func() string
}

func written(m *json.Map) string {
	if m == nil {
		return "nil map"
	}
	var b strings.Builder
	if e := m.ToJSONString(&b); len(e) > 0 {
		return "write error " + errOf(e)
	}
	return b.String()
}

func writtenArr(a *json.Array) string {
	if a == nil {
		return "nil array"
	}
	var b strings.Builder
	if e := a.ToJSONString(&b); len(e) > 0 {
		return "write error " + errOf(e)
	}
	return b.String()
}

// observed is everything a reader sees of a document, without using the writer.
func observed(m *json.Map) string {
	var b strings.Builder
	var mp func(m *json.Map)
	var vl func(v *json.Value)
	vl = func(v *json.Value) {
		if v == nil {
			b.WriteString("nil")
			return
		}
		b.WriteString(v.GetType())
		switch o := v.GetObject().(type) {
		case *json.Map:
			mp(o)
		case *json.Array:
			b.WriteByte('[')
			for _, e := range *o.GetValues() {
				vl(e)
				b.WriteByte(',')
			}
			b.WriteByte(']')
		default:
			b.WriteString(render(reflect.ValueOf(&o).Elem()))
		}
	}
	mp = func(m *json.Map) {
		b.WriteByte('{')
		for _, k := range m.GetKeys() {
			fmt.Fprintf(&b, "%q:", k)
			vl(m.GetValue(k))
			b.WriteByte(',')
		}
		b.WriteByte('}')
	}
	if m == nil {
		return "nil map"
	}
	mp(m)
	return b.String()
}

// parser parses, reads and writes one text.
func parser(name string, cost int, text string) program {
	return program{name, cost, func() []func() string {
		var m *json.Map
		return []func() string{
			func() string {
				var e []error
				m, e = json.Parse(text)
				if len(e) > 0 {
					m = nil
					return "rejected"
				}
				return "accepted"
			},
			func() string { return observed(m) },
			func() string { return written(m) },
		}
	}}
}

func longDoc(n int) string {
	var b strings.Builder
	b.WriteString(`{"list":[`)
	for i := 0; i < n; i++ {
		if i > 0 {
			b.WriteByte(',')
		}
		fmt.Fprintf(&b, `{"id":%d,"name":"item \"%d\"","tags":["a%d",null,true,-%d.5]}`, i, i, i, i)
	}
	b.WriteString(`],"total":`)
	fmt.Fprint(&b, n)
	b.WriteString(`}`)
	return b.String()
}

func deepDoc(n int) string {
	return `{"d":` + strings.Repeat(`[{"e":`, n) + `"bottom"` + strings.Repeat(`}]`, n) + `,"after":1}`
}

var programs = []program{
	parser("parse-string", 0, `{"a":"b"}`),
	parser("parse-array", 0, `{"a":[1]}`),
	parser("parse-mixed", 1, `{"a":1,"b":["x",null,-2.5,true],"c":{"d":{}}}`),
	parser("parse-escapes", 1, `{"q\"":"a\\\"\n\u00e9😀\ud83d\ude00/","é":""}`),
	parser("parse-numbers", 1, `{"a":[0,-1,127,128,-32769,65536,18446744073709551615,1e3,0.1,1.5e-7,340282350000000000000000000000000000001.5]}`),
	parser("cut-string", 0, `{"a":"b`),
	parser("cut-key", 0, `{"a":1,"b`),
	parser("cut-array", 1, `{"a":[1,{"c":["d"`),
	parser("wrong-closer", 0, `{"a":[1}`),
	parser("bad-word", 0, `{"a":tru}`),
	parser("bad-escape", 0, `{"a":"x\u12"}`),
	parser("bad-number", 0, `{"a":1-2}`),
	parser("after-root", 0, `{"a":1}x`),
	parser("empty-text", 0, ``),
	parser("long", 2, longDoc(40)),
	parser("deep", 2, deepDoc(30)),
	{"build", 0, func() []func() string {
		m := json.NewMap()
		return []func() string{
			func() string { m.SetStringValue("k", "v\""); return "" },
			func() string { m.SetIntValue("n", 7); return written(m) },
			func() string { _, err := m.RemoveKey("k"); return fmt.Sprint(err == nil, observed(m)) },
			func() string { m.SetNil("z"); return written(m) },
		}
	}},
	{"build-nested", 1, func() []func() string {
		var m, n *json.Map
		var a *json.Array
		return []func() string{
			func() string { m, n, a = json.NewMap(), json.NewMap(), json.NewArray(); return "" },
			func() string { m.SetMap("m", n); m.SetArray("a", a); return written(m) },
			func() string { n.SetFloat64Value("f", 0.1); a.AppendStringValue("x"); return written(m) },
			func() string { a.AppendMap(n); a.AppendNil(); return written(m) },
			func() string { n.SetBoolValue("b", true); return observed(m) },
		}
	}},
	{"edit-array", 1, func() []func() string {
		a := json.NewArray()
		return []func() string{
			func() string {
				a.AppendIntValue(1)
				a.AppendStringValue("2")
				a.AppendBoolValue(true)
				return writtenArr(a)
			},
			func() string { ok, err := a.RemoveValueAtIndex(1); return fmt.Sprint(ok, err == nil, writtenArr(a)) },
			func() string {
				ok, err := a.SetValueAtIndex(0, json.NewValue(uint8(9)))
				return fmt.Sprint(ok, err == nil, writtenArr(a))
			},
			func() string { ok, err := a.RemoveValueAtIndex(5); return fmt.Sprint(ok, err != nil, a.Len()) },
		}
	}},
	{"clone", 1, func() []func() string {
		var m, n *json.Map
		return []func() string{
			func() string { m, _ = json.Parse(`{"a":[1,{"b":"c"}],"d":2.5}`); return observed(m) },
			func() string { n, _ = m.Clone(); return observed(n) },
			func() string {
				x, e := n.GetArray("a")
				if len(e) > 0 {
					return errOf(e)
				}
				x.AppendNil()
				n.SetStringValue("d", "new")
				return written(n)
			},
			func() string { return written(m) + observed(m) },
		}
	}},
	{"typed-reads", 1, func() []func() string {
		m := json.NewMap()
		return []func() string{
			func() string {
				m.SetStringValue("s", "-12")
				m.SetUInt64Value("u", 300)
				m.SetStringValue("b", "true")
				m.SetFloat64Value("f", 2)
				return ""
			},
			func() string {
				a, e := m.GetInt8Value("s")
				b, f := m.GetUInt8("u")
				return fmt.Sprint(a, len(e) > 0, b == nil, len(f) > 0)
			},
			func() string {
				a, e := m.GetBoolValue("b")
				b, f := m.GetFloat64Value("u")
				x, g := m.GetStringValue("u")
				return fmt.Sprint(a, len(e) > 0, b, len(f) > 0, x, len(g) > 0)
			},
			func() string {
				_, e := m.GetInt("absent")
				_, f := m.GetMap("s")
				return fmt.Sprint(len(e) > 0, len(f) > 0)
			},
			func() string {
				return fmt.Sprint(m.IsInteger("s"), m.IsUInt64("u"), m.IsFloat("f"), m.GetType("b"), m.IsNull("q"))
			},
		}
	}},
	{"scalars", 1, func() []func() string {
		var xs = []interface{}{0.1, float32(1e-7), int8(-128), uint64(1 << 63), "a\"b\n", true, nil, time.Date(2021, 2, 3, 4, 5, 6, 7000, time.UTC), fmt.Errorf("bad \"%d\"", 3), []string{"p", "q"}}
		var steps []func() string
		for i := 0; i < len(xs); i += 5 {
			part := xs[i : i+5]
			steps = append(steps, func() string {
				var b strings.Builder
				for _, x := range part {
					e := json.ConvertInterfaceValueToJSONStringValue(&b, x)
					t, f := json.ConvertInterfaceValueToStringValue(x)
					fmt.Fprint(&b, len(e) > 0, t, len(f) > 0, ";")
				}
				return b.String()
			})
		}
		return steps
	}},
	{"bulk", 1, func() []func() string {
		m := json.NewMap()
		return []func() string{
			func() string {
				m.SetArray("i", json.NewArrayOfValues(&[]interface{}{1, "2", uint8(3)}))
				m.SetArray("s", json.NewArrayOfValues(&[]interface{}{"x", "y"}))
				return written(m)
			},
			func() string {
				o := read(&Ctx{}, m, "GetArrayOfInt16", "i")
				p := read(&Ctx{}, m, "GetArrayOfString", "s")
				return o.String() + p.String()
			},
			func() string {
				o := read(&Ctx{}, m, "GetArrayOfUInt8", "s")
				p := read(&Ctx{}, m, "GetRunes", "s")
				return o.String() + p.String()
			},
		}
	}},
	{"member-values", 1, func() []func() string {
		m := json.NewMapOfValues(&map[string]interface{}{"k": "v"})
		return []func() string{
			func() string { m.SetErrors("e", []error{fmt.Errorf("one"), fmt.Errorf("two")}); return written(m) },
			func() string { m.SetObjectForMap("o", int16(-5)); return fmt.Sprint(m.GetObjectForMap("o")) },
			func() string { m.Values().GetValues(); return fmt.Sprint(m.Values().Len(), m.HasKey("e")) },
			func() string { e, f := m.GetErrors("e"); return fmt.Sprint(e, len(f) > 0) },
		}
	}},
	{"times", 1, func() []func() string {
		m := json.NewMap()
		return []func() string{
			func() string {
				t := time.Date(2022, 12, 31, 23, 59, 59, 123456000, time.UTC)
				m.SetTime("t", &t)
				return written(m)
			},
			func() string {
				t, e := m.GetTime("t")
				if t == nil {
					return fmt.Sprint(nil, len(e) > 0)
				}
				return t.Format(time.RFC3339Nano)
			},
			func() string {
				m.SetStringValue("t", "2020-01-02 03:04:05")
				t, e := m.GetTimeWithDecimalPlaces("t", 0)
				if t == nil {
					return fmt.Sprint(nil, len(e) > 0)
				}
				return t.Format(time.RFC3339Nano)
			},
		}
	}},
}

func (p program) run() string {
	s := ""
	for i, f := range p.mk() {
		if i > 0 {
			s += " | "
		}
		s += guarded(f)
	}
	return s
}

// solo runs one program as the first thing a process does.
func solo(name string) {
	for _, p := range programs {
		if p.name == name {
			fmt.Print(p.run())
			os.Exit(0)
		}
	}
	os.Exit(2)
}

var expectedOnce sync.Once
var expectedRes []string

// expected is what every program returns in a process of its own.
func expected() []string {
	expectedOnce.Do(func() {
		expectedRes = make([]string, len(programs))
		var wg sync.WaitGroup
		for i := range programs {
			wg.Add(1)
			go func(i int) {
				defer wg.Done()
				out, err := exec.Command(os.Args[0], "-solo", programs[i].name).Output()
				expectedRes[i] = string(out)
				if err != nil {
					expectedRes[i] = "program " + programs[i].name + " alone in a process: " + err.Error()
				}
			}(i)
		}
		wg.Wait()
	})
	return expectedRes
}

func (c *Ctx) sameRun(what string, i int, got string) {
	if want := expected()[i]; got != want {
		c.Failf("%s: program %s returns\n%s\nalone in a process it returns\n%s", what, programs[i].name, clipS(got), clipS(want))
	}
}

var countCache = map[string]int{}

func pointsOf(name string, mk func() func() string) int {
	if n, ok := countCache[name]; ok {
		return n
	}
	n, _ := soloCount(mk())
	if k, _ := soloCount(mk()); k > n {
		n = k
	}
	countCache[name] = n
	return n
}

func programsUpTo(cost int) []int {
	var out []int
	for i, p := range programs {
		if p.cost <= cost {
			out = append(out, i)
		}
	}
	return out
}

// together runs programs under every schedule with at most pb preemptions.
func together(c *Ctx, ids []int, pb int) {
	if !schedBuild {
		panic("built without scheduling points")
	}
	bodies := make([]func() string, len(ids))
	counts := make([]int, len(ids))
	names := ""
	for i, id := range ids {
		bodies[i] = programs[id].run
		names += " " + programs[id].name
	}
	if schedHasGo {
		freely(c, ids)
		return
	}
	for i, id := range ids {
		counts[i] = pointsOf(programs[id].name, func() func() string { return programs[id].run })
	}
	c.Op(len(ids))
	res, desc := runSchedule(c, bodies, counts, pb)
	c.State(names, desc)
	c.Logf("programs%s, schedule%s", names, desc)
	for i, id := range ids {
		c.sameRun("with"+names+" side by side, schedule (goroutine:statements)"+desc, id, res[i])
	}
}

func freely(c *Ctx, ids []int) {
	res := make([]string, len(ids))
	var wg sync.WaitGroup
	names := ""
	for i, id := range ids {
		wg.Add(1)
		c.Op(1)
		names += " " + programs[id].name
		go func() {
			defer wg.Done()
			res[i] = programs[id].run()
		}()
	}
	wg.Wait()
	c.State(names)
	for i, id := range ids {
		c.sameRun("with"+names+" side by side", id, res[i])
	}
}

// ---- readers of one document ----

// shared is a document with handles obtained while building it, so that nothing has been read yet.
type shared struct {
	name  string
	mk    func() []interface{}
	small bool
}

func sharedDocs() []shared {
	var out []shared
	small := map[string]bool{}
	for _, x := range smallCatalog() {
		small[x.name] = true
	}
	for _, s := range pureSubjects() {
		s := s
		out = append(out, shared{s.name, func() []interface{} {
			m, v := json.NewMap(), json.NewValue(s.obj())
			m.SetValue("k", v)
			return []interface{}{m, v}
		}, small[s.name]})
	}
	for i, t := range []string{`{}`, `{"k":[1,"2",null,{"x":[true]}],"l":{"k":1.5}}`, `{"k":{"k":["a\"b","é"]},"z":-300}`} {
		t := t
		out = append(out, shared{"parsed document " + itoa(i), func() []interface{} {
			m, e := json.Parse(t)
			if len(e) > 0 {
				panic(violation{"cannot parse " + t + ": " + errOf(e)})
			}
			return []interface{}{m}
		}, true})
	}
	for _, n := range []int{0, 1, 3} {
		out = append(out, shared{"list of " + itoa(n), func() []interface{} {
			a, m := json.NewArray(), json.NewMap()
			for i := 0; i < n; i++ {
				a.AppendIntValue(i)
			}
			m.SetArray("k", a)
			return []interface{}{m, a}
		}, true})
	}
	return out
}

// readsOf lists one variant of every read operation of every handle.
func readsOf(ps []interface{}, brief bool) []op {
	var out []op
	for i, p := range ps {
		var ms []method
		key := ""
		switch p.(type) {
		case *json.Map:
			ms, key = mapReads, "k"
		case *json.Value:
			ms = valueReads
		case *json.Array:
			ms = arrayReads
		}
		for _, f := range ms {
			if brief && !briefReads[f.name] {
				continue
			}
			if f.typ.NumIn() == 0 {
				out = append(out, op{i, f, "", 0})
				continue
			}
			for a := range argVariants(f, key) {
				if a > 0 && f.typ.In(0) != tBuilder {
					break
				}
				if av := argVariants(f, key)[a]; len(av) > 0 && av[0] == nil {
					continue
				}
				out = append(out, op{i, f, key, a})
				break
			}
		}
	}
	return out
}

var briefReads = map[string]bool{}

func init() {
	for _, n := range strings.Fields("GetKeys HasKey GetMap GetArray GetValue GetObject GetObjectForMap Values GetValues Clone IsNil IsNull IsInteger IsEmptyString IsString ToJSONString GetType GetString GetStringValue GetBool GetInt GetUInt8Value GetFloat64 GetFloat32Value GetArrayOfString GetArrayOfInt GetErrors GetTime GetRunes GetFunc Len") {
		briefReads[n] = true
	}
}

var soloReads = map[string][]string{}
var soloReadsMu sync.Mutex

// alone is what each read gives on a fresh document.
func alone(d shared, ops []op) []string {
	soloReadsMu.Lock()
	defer soloReadsMu.Unlock()
	k := d.name + " " + itoa(len(ops))
	if r, ok := soloReads[k]; ok {
		return r
	}
	out := make([]string, len(ops))
	for i, o := range ops {
		out[i] = guarded(func() string { return o.run(&Ctx{}, d.mk()) })
	}
	soloReads[k] = out
	return out
}

var sharedCached []shared
var sharedOnce sync.Once

func sharedList(onlySmall bool) []shared {
	sharedOnce.Do(func() { sharedCached = sharedDocs() })
	if !onlySmall {
		return sharedCached
	}
	var out []shared
	for _, d := range sharedCached {
		if d.small {
			out = append(out, d)
		}
	}
	return out
}

func init() {
	reg("C19",
		Harness{Name: "history", Bound: "every sequence of 3 programs out of 25 (thorough: also of 4 out of the 23 smaller ones) in one process, each result equal to the program's in a process of its own", Body: func(c *Ctx) {
			list := programsUpTo(2)
			n := 3
			if c.Thorough && c.Bool() {
				n, list = 4, programsUpTo(1)
			}
			ids := make([]int, n)
			names := ""
			for i := range ids {
				ids[i] = list[c.Choose(len(list))]
			}
			for i := range ids {
				c.Op(1)
				c.sameRun("after"+names, ids[i], programs[ids[i]].run())
				names += " " + programs[ids[i]].name
			}
			c.State(names)
		}},
		Harness{Name: "long-history", Bound: "every pair of programs: the first n times, n of 2, 5, 10, 17, 33, 66 (thorough: the size sweep up to 130), then the second, then the first", Body: func(c *Ctx) {
			i, j := c.Choose(nBase), c.Choose(nBase)
			sizes := []int{2, 5, 10, 17, 33, 66}
			if c.Thorough {
				sizes = sweep(130)
			}
			n := sizes[c.Choose(len(sizes))]
			if programs[i].cost == 2 && n > 20 {
				return
			}
			for k := 0; k < n; k++ {
				c.Op(1)
				c.sameRun("run number "+itoa(k+1), i, programs[i].run())
			}
			c.sameRun("after "+itoa(n)+" times "+programs[i].name, j, programs[j].run())
			c.sameRun("after "+itoa(n)+" times "+programs[i].name+" and "+programs[j].name, i, programs[i].run())
			c.State(programs[i].name, programs[j].name, itoa(n))
		}},
		Harness{Name: "alternation", Bound: "every pair of programs, every order in which their 3-5 steps can alternate", Body: func(c *Ctx) {
			ids := []int{c.Choose(nBase), c.Choose(nBase)}
			var steps [2][]func() string
			for k := range ids {
				steps[k] = programs[ids[k]].mk()
			}
			alternate(c, ids, steps[:])
		}},
		Harness{Name: "alternation-of-three", Bound: "every triple of 12 (thorough: 23) tiny and small programs, every order in which their steps can alternate with at most 2 switches", Body: func(c *Ctx) {
			list := programsUpTo(1)
			if !c.Thorough {
				var l []int
				for i, id := range list {
					if i%2 == 0 {
						l = append(l, id)
					}
				}
				list = l
			}
			ids := []int{list[c.Choose(len(list))], list[c.Choose(len(list))], list[c.Choose(len(list))]}
			c.dev = 2
			var steps [][]func() string
			for k := range ids {
				steps = append(steps, programs[ids[k]].mk())
			}
			alternate(c, ids, steps)
		}},
		Harness{Name: "two-goroutines", Serial: true, Loose: true, Bound: "every pair of tiny and small programs (quick: one of them tiny) in two goroutines, every schedule with at most one preemption at any statement of the package", Body: func(c *Ctx) {
			list := programsUpTo(1)
			a := c.Choose(len(list))
			b := c.Choose(len(list))
			if b < a || !c.Thorough && programs[list[a]].cost+programs[list[b]].cost > 1 {
				return
			}
			together(c, []int{list[a], list[b]}, 1)
		}},
		Harness{Name: "two-goroutines-deeper", Serial: true, Loose: true, Thorough: true, Bound: "a cut-off parse or a build beside one of 5 tiny programs, every schedule with at most two preemptions", Body: func(c *Ctx) {
			var list []int
			for i, p := range programs {
				switch p.name {
				case "cut-string", "build", "bad-escape", "wrong-closer", "parse-string":
					list = append(list, i)
				}
			}
			a := c.Choose(len(list))
			b := c.Choose(len(list))
			short := func(i int) bool { return programs[list[i]].name == "cut-string" || programs[list[i]].name == "build" }
			if b < a || !short(a) && !short(b) {
				return
			}
			together(c, []int{list[a], list[b]}, 2)
		}},
		Harness{Name: "three-goroutines", Serial: true, Loose: true, Thorough: true, Bound: "triples of tiny programs, every schedule with at most one preemption", Body: func(c *Ctx) {
			list := programsUpTo(0)
			x, y, z := c.Choose(len(list)), c.Choose(len(list)), c.Choose(len(list))
			if y < x || z < y {
				return
			}
			together(c, []int{list[x], list[y], list[z]}, 1)
		}},
		Harness{Name: "two-readers", Serial: true, Loose: true, Bound: "one document of each kind (quick: 44 of them) read by two goroutines: pairs of 50 read operations (quick: every second pair), every schedule with at most one preemption", Body: func(c *Ctx) {
			docs := sharedList(!c.Thorough)
			d := docs[c.Choose(len(docs))]
			ops := readsOf(d.mk(), true)
			a, b := c.Choose(len(ops)), c.Choose(len(ops))
			if b < a || !c.Thorough && a%2 != b%2 {
				return
			}
			readers(c, d, ops, []int{a, b}, 1)
		}},
		Harness{Name: "race-programs", Race: true, Bound: "every pair of programs in two goroutines, and all of them at once, under the happens-before race detector", Body: func(c *Ctx) {
			if c.Choose(2) == 1 {
				n := c.Choose(len(programs))
				var ids []int
				for i := range programs {
					ids = append(ids, (i+n)%len(programs))
				}
				freely(c, ids)
				return
			}
			freely(c, []int{c.Choose(nBase), c.Choose(nBase)})
		}},
		Harness{Name: "race-readers", Race: true, Bound: "one document of each kind read by two goroutines: every pair of read operations (quick: the brief list with all operations), under the happens-before race detector, results as on a fresh document", Body: func(c *Ctx) {
			docs := sharedList(!c.Thorough)
			d := docs[c.Choose(len(docs))]
			ops := readsOf(d.mk(), false)
			want := alone(d, ops)
			a := c.Choose(len(ops))
			for b := a; b < len(ops); b++ {
				if !c.Thorough && b != a && !briefReads[ops[a].m.name] && !briefReads[ops[b].m.name] {
					continue
				}
				ps := d.mk()
				var ra, rb string
				done := make(chan struct{}, 2)
				c.Op(2)
				go func() { ra = guarded(func() string { return ops[a].run(&Ctx{}, ps) }); done <- struct{}{} }()
				go func() { rb = guarded(func() string { return ops[b].run(&Ctx{}, ps) }); done <- struct{}{} }()
				<-done
				<-done
				c.State(d.name, ops[a].String(), ops[b].String())
				if ra != want[a] || rb != want[b] {
					c.Failf("%s read by two goroutines: %s = %s and %s = %s, alone %s and %s", d.name, ops[a], clipText(ra), ops[b], clipText(rb), clipText(want[a]), clipText(want[b]))
				}
			}
		}},
	)
}

func alternate(c *Ctx, ids []int, steps [][]func() string) {
	at := make([]int, len(ids))
	out := make([]string, len(ids))
	order := ""
	last := -1
	for {
		var cand []int
		if last >= 0 && at[last] < len(steps[last]) {
			cand = append(cand, last)
		}
		for k := range ids {
			if k != last && at[k] < len(steps[k]) {
				cand = append(cand, k)
			}
		}
		if len(cand) == 0 {
			break
		}
		i := 0
		if len(ids) == 2 || len(cand) == 0 || cand[0] != last {
			i = c.Choose(len(cand))
		} else {
			i = c.ChooseDev(len(cand))
		}
		k := cand[i]
		last = k
		c.Op(1)
		if at[k] > 0 {
			out[k] += " | "
		}
		out[k] += guarded(steps[k][at[k]])
		at[k]++
		order += itoa(k)
	}
	names := ""
	for _, id := range ids {
		names += " " + programs[id].name
	}
	c.State(names, order)
	for k, id := range ids {
		c.sameRun("steps of"+names+" in the order "+order, id, out[k])
	}
}

func readers(c *Ctx, d shared, ops []op, ids []int, pb int) {
	want := alone(d, ops)
	ps := d.mk()
	bodies := make([]func() string, len(ids))
	counts := make([]int, len(ids))
	names := ""
	for i, id := range ids {
		o := ops[id]
		names += " " + o.String()
		bodies[i] = func() string { return o.run(&Ctx{}, ps) }
		counts[i] = pointsOf(d.name+o.String(), func() func() string {
			own := d.mk()
			return func() string { return o.run(&Ctx{}, own) }
		})
	}
	if schedHasGo {
		return
	}
	c.Op(len(ids))
	res, desc := runSchedule(c, bodies, counts, pb)
	c.State(d.name, names, desc)
	for i, id := range ids {
		if res[i] != want[id] {
			c.Failf("%s read by %d goroutines (%s), schedule%s: %s = %s, alone %s", d.name, len(ids), names, desc, ops[id], clipText(res[i]), clipText(want[id]))
		}
	}
}
