package main

import (
	"strings"

	json "github.com/matehaxor03/holistic_json/json"
)

// ---- histories on objects that are larger than those of the exhaustive histories ----

// bigMap gives a map of n numbered members, built, parsed or cloned.
func bigMap(c *Ctx, n, how int) (*json.Map, *MV) {
	w := mMap()
	for i := 0; i < n; i++ {
		w.Keys, w.Vals = append(w.Keys, "k"+itoa(i)), append(w.Vals, mLit(false, uint64(i)))
	}
	if how == 1 {
		return mustParse(c, w.text()), w
	}
	m := json.NewMap()
	for i := 0; i < n; i++ {
		m.SetUInt8Value("k"+itoa(i), uint8(i))
	}
	c.Op(n)
	if how == 2 {
		m = cloneMap(c, m)
	}
	return m, w
}

func bigArr(c *Ctx, n, how int) (*json.Array, *MV) {
	w := mArr()
	for i := 0; i < n; i++ {
		w.Vals = append(w.Vals, mLit(false, uint64(i)))
	}
	a := json.NewArray()
	if how == 1 {
		m := mustParse(c, mMap().set("l", w).text())
		a, _ = m.GetArray("l")
		if a == nil {
			c.Failf("no list")
		}
		return a, w
	}
	for i := 0; i < n; i++ {
		a.AppendUInt8Value(uint8(i))
	}
	c.Op(n)
	if how == 2 {
		a = cloneArr(c, a)
	}
	return a, w
}

func bigPlaces(n int) []int { return []int{0, 1, n / 2, n/2 + 1, n - 2, n - 1} }

const nBigOps = 14

// bigMapOp: a new value for one of six members, one of the six removed, a new member, the new member removed.
func bigMapOp(c *Ctx, m *json.Map, w *MV, n, o, tag int) {
	c.Op(1)
	at := bigPlaces(n)
	set := func(k string) {
		c.Logf("SetIntValue(%q, %d)", k, 1000+tag)
		m.SetIntValue(k, 1000+tag)
		w.set(k, mIntT("int", int64(1000+tag)))
	}
	switch {
	case o < 6:
		set("k" + itoa(at[o]))
	case o < 12:
		mapRemove(c, m, w, "k"+itoa(at[o-6]))
	case o == 12:
		set("new")
	default:
		mapRemove(c, m, w, "new")
	}
}

// bigArrOp: a new value at one of six indexes, one of the six removed, an element appended, an index beyond the end.
func bigArrOp(c *Ctx, a *json.Array, w *MV, o, tag int) {
	c.Op(1)
	at := bigPlaces(len(w.Vals))
	set := func(i int) {
		ok, err := a.SetValueAtIndex(i, json.NewValue(1000+tag))
		c.Logf("SetValueAtIndex(%d, %d) = %v %v", i, 1000+tag, ok, err)
		in := i >= 0 && i < len(w.Vals)
		if ok != in || (err == nil) != in {
			c.Failf("SetValueAtIndex(%d) with %d elements = %v, %v", i, len(w.Vals), ok, err)
		}
		if in {
			w.Vals = append([]*MV{}, w.Vals...)
			w.Vals[i] = mIntT("int", int64(1000+tag))
		}
	}
	switch {
	case o < 6:
		set(at[o])
	case o < 12:
		arrRemove(c, a, w, at[o-6])
	case o == 12:
		c.Logf("AppendIntValue(%d)", 1000+tag)
		a.AppendIntValue(1000 + tag)
		w.Vals = append(append([]*MV{}, w.Vals...), mIntT("int", int64(1000+tag)))
	default:
		set(len(w.Vals))
	}
}

func bigSize(c *Ctx, quick, more []int) int {
	if c.Thorough {
		quick = append(append([]int{}, quick...), more...)
	}
	return quick[c.Choose(len(quick))]
}

// glanceMap looks at the map the way a program would between two changes.
func glanceMap(c *Ctx, m *json.Map, w *MV) {
	c.Op(5)
	if len(m.GetKeys()) != len(w.Keys) || m.HasKey("new") != (w.idx("new") >= 0) {
		c.Failf("%d keys, want %d", len(m.GetKeys()), len(w.Keys))
	}
	if m.Values().Len() != len(w.Keys) {
		c.Failf("%d values, want %d", m.Values().Len(), len(w.Keys))
	}
	for _, k := range []string{"k0", "k1", "new"} {
		if (m.GetValue(k) != nil) != (w.idx(k) >= 0) {
			c.Failf("GetValue(%q)", k)
		}
	}
}

func init() {
	bigBound := "maps of 5, 8, 9, 12, 16, 17 (thorough also 32, 33, 64, 65, 128, 129) numbered members"
	arrBound := "lists of 5, 8, 9, 12, 16, 17 (thorough also 32, 33, 64, 65, 128, 129) numbered elements"
	quick, more := []int{5, 8, 9, 12, 16, 17}, []int{32, 33, 64, 65, 128, 129}
	reg("C09", Harness{Name: "larger-histories", Bound: bigBound + ", built, parsed or cloned: every history of 4 of 14 operations (a new value at six places, removal there, a new member, its removal), each with a value of its own (3 operations when there are more than 9), with or without reads in between", Body: func(c *Ctx) {
		n := bigSize(c, quick, more)
		steps := 4
		if n > 9 {
			steps = 3
		}
		m, w := bigMap(c, n, c.Choose(3))
		between := n <= 9 || c.Bool()
		for i := 0; i < steps; i++ {
			bigMapOp(c, m, w, n, c.Choose(nBigOps), i)
			if between {
				glanceMap(c, m, w)
			}
		}
		c.State(w.String())
		dictionary(c, m, w)
	}})
	reg("C10", Harness{Name: "larger-histories", Bound: arrBound + ", built, parsed or cloned: every history of 4 of 14 operations (a new value at six places, removal there, an element appended, an index beyond the end), each with a value of its own (3 operations when there are more than 9)", Body: func(c *Ctx) {
		n := bigSize(c, quick, more)
		steps := 4
		if n > 9 {
			steps = 3
		}
		a, w := bigArr(c, n, c.Choose(3))
		for i := 0; i < steps; i++ {
			bigArrOp(c, a, w, c.Choose(nBigOps), i)
		}
		c.State(w.String())
		list(c, a, w)
	}})
	reg("C07", Harness{Name: "larger-histories", Bound: bigBound + " or lists of as many elements, alone or nested: written, then 3 times one of 14 operations and written again", Body: func(c *Ctx) {
		n := bigSize(c, quick, more)
		isMap, nested := c.Bool(), c.Bool()
		how := c.Choose(3)
		r, rw := json.NewMap(), mMap()
		var m *json.Map
		var a *json.Array
		var w *MV
		if isMap {
			m, w = bigMap(c, n, how)
			if nested {
				r.SetMap("m", m)
				rw.set("m", w)
			} else {
				r, rw = m, w
			}
		} else {
			a, w = bigArr(c, n, how)
			r.SetArray("m", a)
			rw.set("m", w)
			if nested {
				r.SetStringValue("z", "")
				rw.set("z", mStr(""))
			}
		}
		expectText(c, "at first", r, rw)
		for i := 0; i < 3; i++ {
			o := c.Choose(nBigOps)
			if isMap {
				bigMapOp(c, m, w, n, o, i)
			} else {
				bigArrOp(c, a, w, o, i)
			}
			expectText(c, "after a change", r, rw)
		}
		c.State(rw.String())
	}})
	reg("C11", Harness{Name: "larger-histories", Bound: bigBound + " or lists of as many elements: one of 14 operations, cloned, then 2 operations, each on the original or the clone", Body: func(c *Ctx) {
		n := bigSize(c, []int{5, 9, 17}, more)
		how := c.Choose(2)
		if c.Bool() {
			m, w := bigMap(c, n, how)
			bigMapOp(c, m, w, n, c.Choose(nBigOps), 0)
			ms := []*json.Map{m, cloneMap(c, m)}
			ws := []*MV{w, w.clone()}
			for i := 1; i < 3; i++ {
				s := c.Choose(2)
				bigMapOp(c, ms[s], ws[s], n, c.Choose(nBigOps), i)
			}
			c.State(ws[0].String(), ws[1].String())
			for s := range ms {
				expectDoc(c, []string{"original", "clone"}[s], ms[s], ws[s], 0)
				expectText(c, []string{"original", "clone"}[s], ms[s], ws[s])
			}
			return
		}
		a, w := bigArr(c, n, how)
		bigArrOp(c, a, w, c.Choose(nBigOps), 0)
		as := []*json.Array{a, cloneArr(c, a)}
		ws := []*MV{w, w.clone()}
		for i := 1; i < 3; i++ {
			s := c.Choose(2)
			bigArrOp(c, as[s], ws[s], c.Choose(nBigOps), i)
		}
		c.State(ws[0].String(), ws[1].String())
		for s := range as {
			if d := checkArr(c, []string{"original", "clone"}[s], as[s], ws[s], 0); d != "" {
				c.Failf("%s", d)
			}
			expectArrText(c, []string{"original", "clone"}[s], as[s], ws[s])
		}
	}})
	reg("C16", Harness{Name: "larger-histories", Bound: arrBound + ": one (thorough: every history of 2) of 14 operations, then a null, a text or a fraction at one of six places or nothing, then every bulk getter", Body: func(c *Ctx) {
		n := bigSize(c, []int{5, 9, 17}, more)
		a, w := bigArr(c, n, c.Choose(3))
		for i := 0; i < 1 || i < 2 && c.Thorough; i++ {
			bigArrOp(c, a, w, c.Choose(nBigOps), i)
		}
		if o := c.Choose(4); o > 0 {
			x := []cell{{}, nilCell(), strCell("text", true), floatCell("float64", 1.5, false)}[o]
			at := bigPlaces(len(w.Vals))[c.Choose(6)]
			w.Vals = append([]*MV{}, w.Vals...)
			w.Vals[at] = x.mv
			a.SetValueAtIndex(at, json.NewValue(x.obj()))
		}
		c.State(w.String())
		m := json.NewMap()
		m.SetArray("k", a)
		bulk(c, a, m, w.Vals, nil)
	}})
	reg("C18", Harness{Name: "larger-histories", Bound: "maps and lists of 5, 9, 17, 33 (thorough also 64, 65, 128, 129) nested maps or lists: handles taken to six of them, 2 of 12 operations (six replaced, six removed), then every old handle edited: seen where it is still held, nowhere else", Body: func(c *Ctx) {
		n := bigSize(c, []int{5, 9, 17, 33}, []int{64, 65, 128, 129})
		outerMap, innerMap, parsed := c.Bool(), c.Bool(), c.Bool()
		inner := func(i int) *MV {
			if innerMap {
				return mMap().set("id", mLit(false, uint64(i)))
			}
			return mArr(mLit(false, uint64(i)))
		}
		value := func(i int) *json.Value {
			if innerMap {
				x := json.NewMap()
				x.SetUInt8Value("id", uint8(i))
				return json.NewValue(x)
			}
			x := json.NewArray()
			x.AppendUInt8Value(uint8(i))
			return json.NewValue(x)
		}
		w := mArr()
		if outerMap {
			w = mMap()
		}
		for i := 0; i < n; i++ {
			w.Vals = append(w.Vals, inner(i))
			if outerMap {
				w.Keys = append(w.Keys, "k"+itoa(i))
			}
		}
		rw := mMap().set("r", w)
		r := json.NewMap()
		if parsed {
			r = mustParse(c, rw.text())
		} else if outerMap {
			m := json.NewMap()
			for i := 0; i < n; i++ {
				m.SetValue("k"+itoa(i), value(i))
			}
			r.SetMap("r", m)
		} else {
			a := json.NewArray()
			for i := 0; i < n; i++ {
				a.AppendValue(value(i))
			}
			r.SetArray("r", a)
		}
		var om *json.Map
		var oa *json.Array
		if outerMap {
			om, _ = r.GetMap("r")
		} else {
			oa, _ = r.GetArray("r")
		}
		type held struct {
			m *json.Map
			a *json.Array
			w *MV
		}
		var hs []held
		for _, i := range bigPlaces(n) {
			h := held{w: w.Vals[i]}
			v := (*json.Value)(nil)
			if outerMap {
				v = om.GetValue("k" + itoa(i))
			} else {
				v = (*oa.GetValues())[i]
			}
			if innerMap {
				h.m, _ = v.GetMap()
			} else {
				h.a, _ = v.GetArray()
			}
			if h.m == nil && h.a == nil {
				c.Failf("nothing at %d", i)
			}
			hs = append(hs, h)
		}
		for i := 0; i < 2; i++ {
			o := c.Choose(12)
			c.Op(1)
			if outerMap {
				k := "k" + itoa(bigPlaces(n)[o%6])
				if o >= 6 {
					mapRemove(c, om, w, k)
				} else {
					c.Logf("replace %q", k)
					om.SetValue(k, value(100+i))
					w.set(k, inner(100+i))
				}
				continue
			}
			at := bigPlaces(len(w.Vals))[o%6]
			if o >= 6 {
				arrRemove(c, oa, w, at)
			} else {
				c.Logf("replace %d", at)
				oa.SetValueAtIndex(at, value(100+i))
				w.Vals = append([]*MV{}, w.Vals...)
				w.Vals[at] = inner(100 + i)
			}
		}
		for i, h := range hs {
			c.Op(1)
			if innerMap {
				h.m.SetIntValue("by", i)
				h.w.set("by", mIntT("int", int64(i)))
			} else {
				h.a.AppendIntValue(i)
				h.w.Vals = append(h.w.Vals, mIntT("int", int64(i)))
			}
		}
		c.State(rw.String())
		expectDoc(c, "the document", r, rw, 0)
		expectText(c, "the document", r, rw)
		for i, h := range hs {
			if innerMap {
				expectDoc(c, "handle "+itoa(i), h.m, h.w, 0)
			} else if d := checkArr(c, "handle "+itoa(i), h.a, h.w, 0); d != "" {
				c.Failf("%s", d)
			}
		}
	}})

	// ---- one character deep inside a long string ----
	inside := "one of 10 characters (multi-byte, quote, backslash, control) after n others, n from 5 below to 1 above each of 8, 16, 32, 64, 100, 128, 256, 512, 1000, 1024, 2048, 4096 (thorough also 8192, and without parsing 16384, 32768, 65536), and 0 or 20 after it"
	reg("C03", Harness{Name: "inside-long", Bound: inside + ": as value, element and key, raw and escaped", Body: func(c *Ctx) {
		s := longText(c, true)
		how := []int{0, 3}[c.Choose(2)]
		c.State(clipS(s), itoa(len(s)), itoa(how))
		lit := spell(s, how)
		switch c.Choose(3) {
		case 0:
			parsesTo(c, `{"v":`+lit+`,"z":1}`, mMap().set("v", mStr(s)).set("z", mLit(false, 1)), 0)
		case 1:
			parsesTo(c, `{"v":[`+lit+`,2]}`, mMap().set("v", mArr(mStr(s), mLit(false, 2))), 0)
		case 2:
			parsesTo(c, `{`+lit+`:[1],"z":1}`, mMap().set(s, mArr(mLit(false, 1))).set("z", mLit(false, 1)), 0)
		}
	}})
	reg("C08", Harness{Name: "inside-long", Bound: inside + ": as value and as key", Body: func(c *Ctx) {
		s := longText(c, true)
		c.State(clipS(s), itoa(len(s)))
		w := mMap().set("v", mStr(s))
		if c.Bool() {
			w = mMap().set(s, mArr(mNull()))
		}
		roundTrip(c, w.text(), w)
	}})
	reg("C07", Harness{Name: "inside-long", Bound: inside + ": as member, element (by pointer and plain) and as key", Body: func(c *Ctx) {
		s := longText(c, false)
		c.State(clipS(s), itoa(len(s)))
		m, a := json.NewMap(), json.NewArray()
		t := s
		m.SetString("p", &t)
		m.SetObjectForMap("o", s)
		m.SetBoolValue(s, true)
		a.AppendStringValue(s)
		a.AppendValue(json.NewValue(s))
		m.SetArray("l", a)
		expectText(c, "the document", m, mMap().set("p", mStr(s)).set("o", mStr(s)).set(s, mBool(true)).set("l", mArr(mStr(s), mStr(s))))
	}})
	reg("C11", Harness{Name: "inside-long", Bound: inside + ": as member, element (by pointer and plain) and as key, cloned", Body: func(c *Ctx) {
		s := longText(c, false)
		c.State(clipS(s), itoa(len(s)))
		m, a := json.NewMap(), json.NewArray()
		t := s
		m.SetString("p", &t)
		m.SetObjectForMap("o", s)
		m.SetBoolValue(s, true)
		a.AppendStringValue(s)
		a.AppendValue(json.NewValue(s))
		m.SetArray("l", a)
		w := mMap().set("p", mStr(s)).set("o", mStr(s)).set(s, mBool(true)).set("l", mArr(mStr(s), mStr(s)))
		x := cloneMap(c, m)
		expectDoc(c, "the clone", x, w, 0)
		t = "changed"
		expectDoc(c, "the clone after the variable changed", x, w, 0)
	}})
	reg("C12", Harness{Name: "inside-long", Bound: inside + ": stored by pointer and plain in a map, an array and a value, read by every string getter", Body: func(c *Ctx) {
		s := longText(c, false)
		c.State(clipS(s), itoa(len(s)))
		for _, ptr := range []bool{false, true} {
			v := json.NewValue(strCell(s, ptr).obj())
			hold(v).readAs(c, "a long text", "string", exactly(mStr(s)))
		}
		m := json.NewMap()
		m.SetStringValue(s, s)
		m.SetString("p", &s)
		expectDoc(c, "the document", m, mMap().set(s, mStr(s)).set("p", mStr(s)), 1)
	}})
	reg("C22", Harness{Name: "inside-long", Bound: inside + ": plain, by pointer and wrapped", Body: func(c *Ctx) {
		s := longText(c, false)
		c.State(clipS(s), itoa(len(s)))
		for i, o := range []interface{}{s, &s, json.NewValue(s), json.NewValue(&s), json.NewValueValue(s)} {
			c.Op(1)
			got, e := json.ConvertInterfaceValueToStringValue(o)
			if e != nil || got != s {
				c.Failf("way %d: a text of %d bytes gives one of %d (%s)", i, len(s), len(got), errOf(e))
			}
		}
	}})
	reg("C20", Harness{Name: "inside-long", Bound: inside + ": plain and by pointer, as list element, map member and key", Body: func(c *Ctx) {
		s := longText(c, false)
		c.State(clipS(s), itoa(len(s)))
		g := []interface{}{s, &s, json.NewValue(s)}
		if d := checkArr(c, "list", json.NewArrayOfValues(&g), mArr(mStr(s), mStr(s), mStr(s)), 0); d != "" {
			c.Failf("%s", d)
		}
		for i := range g {
			h := map[string]interface{}{s: g[i]}
			expectDoc(c, "map", json.NewMapOfValues(&h), mMap().set(s, mStr(s)), 0)
		}
	}})
}

func longText(c *Ctx, parse bool) string {
	ps := []int{8, 16, 32, 64, 100, 128, 256, 512, 1000, 1024, 2048, 4096}
	if c.Thorough {
		ps = append(ps, 8192)
		if !parse {
			ps = append(ps, 16384, 32768, 65536)
		}
	}
	n := ps[c.Choose(len(ps))] - 5 + c.Choose(7)
	x := []string{"é", "€", "😀", `"`, `\`, "\n", "\x01", "\x7f", "e\u0301", "\u2028"}[c.Choose(10)]
	t := 0
	if c.Bool() {
		t = 20
	}
	return strings.Repeat("a", n) + x + strings.Repeat("b", t)
}
