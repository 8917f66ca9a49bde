package main

import (
	"fmt"
	"math"
	"strings"
	"time"

	json "github.com/matehaxor03/holistic_json/json"
)

// writes: the document must be written as exactly w, keep what the builder held, and repeat identically.
func writes(c *Ctx, m *json.Map, w *MV) string {
	prefixes := []string{"", "x", `{"old":1}`, "\n,"}
	var first string
	for i, p := range prefixes {
		var b strings.Builder
		b.WriteString(p)
		c.Op(1)
		if e := m.ToJSONString(&b); e != nil {
			c.Failf("cannot be written: %s", errOf(e))
		}
		t := b.String()
		if !strings.HasPrefix(t, p) {
			c.Failf("text before was %q, now %q", p, clipText(t))
		}
		t = t[len(p):]
		if i == 0 {
			first = t
			got, err := decodeStd(t)
			if err != nil {
				c.Failf("wrote invalid JSON (%v): %s", err, clipText(t))
			}
			if s := sameText("", got, w); s != "" {
				c.Failf("wrote %s: %s", clipText(t), s)
			}
		} else if t != first {
			c.Failf("written again it differs: %s then %s", clipText(first), clipText(t))
		}
		if len(t) > 2000 && i == 1 {
			break
		}
	}
	c.Logf("written: %s", first)
	return first
}

// storeCell puts an object into a fresh document by one of several routes; it returns the document and its model.
const nStoreRoutes = 8

func storeCell(c *Ctx, route int, x cell) (*json.Map, *MV) {
	m := json.NewMap()
	c.Op(2)
	switch route {
	case 0:
		m.SetValue("k", json.NewValue(x.obj()))
		return m, mMap().set("k", x.mv)
	case 1:
		m.SetObjectForMap("k", x.obj())
		return m, mMap().set("k", x.mv)
	case 2:
		a := json.NewArray()
		a.AppendValue(json.NewValue(x.obj()))
		a.AppendStringValue("z")
		m.SetArray("a", a)
		return m, mMap().set("a", mArr(x.mv, mStr("z")))
	case 3:
		l := []interface{}{1, x.obj()}
		m.SetArray("a", json.NewArrayOfValues(&l))
		return m, mMap().set("a", mArr(mIntT("int", 1), x.mv))
	case 4:
		g := map[string]interface{}{"k": x.obj()}
		n := json.NewMapOfValues(&g)
		m.SetStringValue("p", "1")
		m.SetMap("m", n)
		return m, mMap().set("p", mStr("1")).set("m", mMap().set("k", x.mv))
	case 5:
		v := json.NewValue(nil)
		v.SetObject(x.obj())
		m.SetValue("k", v)
		m.SetNil("n")
		return m, mMap().set("k", x.mv).set("n", mNull())
	case 6:
		v := json.NewValueValue(x.obj())
		a := json.NewArrayValue()
		a.AppendValueValue(v)
		m.SetArrayValue("a", a)
		return m, mMap().set("a", mArr(x.mv))
	case 7:
		v := json.NewValue(1)
		m.SetValue("k", v)
		v.SetObject(x.obj())
		return m, mMap().set("k", x.mv)
	}
	panic("route")
}

func init() {
	reg("C07",
		Harness{Name: "parsed", Bound: "every tree of up to 4 nodes over 10 kinds of leaf, parsed and written", Body: func(c *Ctx) {
			w := genTree(c, 4, leavesFull)
			c.State(w.String())
			writes(c, mustParse(c, w.text()), w)
		}},
		Harness{Name: "built", Bound: "every tree of up to 4 nodes over 10 kinds of leaf, built through the API and written", Body: func(c *Ctx) {
			w := genTree(c, 4, leavesFull)
			c.State(w.String())
			writes(c, buildMap(w), w)
		}},
		Harness{Name: "kinds", Bound: "every storable kind in both storage forms with its limits, stored by 8 routes, alone", Body: func(c *Ctx) {
			cat := catalog()
			x := cat[c.Choose(len(cat))]
			route := c.Choose(nStoreRoutes)
			c.Logf("store %s by route %d", x.name, route)
			c.State(x.name, itoa(route))
			m, w := storeCell(c, route, x)
			writes(c, m, w)
		}},
		Harness{Name: "kind-pairs", Bound: "every ordered pair of kinds and forms as neighbours in a map and in an array", Body: func(c *Ctx) {
			cat := smallCatalog()
			x, y := cat[c.Choose(len(cat))], cat[c.Choose(len(cat))]
			m := json.NewMap()
			a := json.NewArray()
			m.SetValue("x", json.NewValue(x.obj()))
			m.SetValue("y", json.NewValue(y.obj()))
			for _, z := range []cell{x, y, x} {
				a.AppendValue(json.NewValue(z.obj()))
			}
			m.SetArray("a", a)
			c.State(x.name, y.name)
			writes(c, m, mMap().set("x", x.mv).set("y", y.mv).set("a", mArr(x.mv, y.mv, x.mv)))
		}},
		Harness{Name: "integers", Bound: "every integer type and form with every integer near a limit, a power of two or of ten; every integer from -70000 to 70000 as int32", Body: func(c *Ctx) {
			if c.Bool() {
				const size = 500
				lo := -70000 + size*c.Choose(2*70000/size)
				l := []interface{}{}
				w := mArr()
				for i := lo; i <= lo+size; i++ {
					l = append(l, int32(i))
					w.Vals = append(w.Vals, mIntT("int32", int64(i)))
				}
				c.State(itoa(lo))
				expectArrText(c, "integers", json.NewArrayOfValues(&l), w)
				return
			}
			t := intTypes[c.Choose(len(intTypes))]
			ptr := c.Bool()
			a := json.NewArray()
			m := json.NewMap()
			w, wm := mArr(), mMap()
			for _, p := range intPoints() {
				if !fits(t, p) {
					continue
				}
				x := intCell(t, p, ptr)
				a.AppendValue(json.NewValue(x.obj()))
				w.Vals = append(w.Vals, x.mv)
				m.SetObjectForMap(x.name, x.obj())
				wm.set(x.name, x.mv)
				c.State(x.name)
			}
			expectArrText(c, t, a, w)
			writes(c, m, wm)
		}},
		Harness{Name: "floats", Bound: "both float types and forms: 50 special values, and every exponent with mantissa 0, 1, all ones, and a one in each mantissa bit, both signs", Body: func(c *Ctx) {
			ptr := c.Bool()
			var fs []float64
			t := "float64"
			if c.Bool() {
				t = "float32"
				e := c.Choose(256)
				if e == 255 {
					fs = floatsOf(t)
				} else {
					for _, s := range []uint32{0, 1 << 31} {
						base := s | uint32(e)<<23
						fs = append(fs, float64(math.Float32frombits(base)), float64(math.Float32frombits(base|(1<<23-1))), float64(math.Float32frombits(base|0x2aaaaa)))
						for b := 0; b < 23; b++ {
							fs = append(fs, float64(math.Float32frombits(base|1<<b)))
						}
					}
				}
			} else {
				e := c.Choose(2048)
				if e == 2047 {
					fs = floatsOf(t)
				} else {
					for _, s := range []uint64{0, 1 << 63} {
						base := s | uint64(e)<<52
						fs = append(fs, math.Float64frombits(base), math.Float64frombits(base|(1<<52-1)), math.Float64frombits(base|0x5555555555555))
						for b := 0; b < 52; b += 3 {
							fs = append(fs, math.Float64frombits(base|1<<b))
						}
					}
				}
			}
			a := json.NewArray()
			w := mArr()
			for _, f := range fs {
				x := floatCell(t, f, ptr)
				a.AppendValue(json.NewValue(x.obj()))
				w.Vals = append(w.Vals, x.mv)
				c.State(x.name)
			}
			expectArrText(c, t, a, w)
			m := json.NewMap()
			m.SetValue("f", json.NewValue(floatCell(t, fs[0], ptr).obj()))
			writes(c, m, mMap().set("f", w.Vals[0]))
		}},
		Harness{Name: "strings", Bound: "every string of up to 3 of 30 special characters as key and value, by pointer and plain, in a map and an array (length 3 from 12)", Body: func(c *Ctx) {
			n := c.Choose(4)
			alpha := nasty
			if n == 3 && !c.Thorough {
				alpha = nastySmall
			}
			var b strings.Builder
			for i := 0; i < n; i++ {
				b.WriteString(alpha[c.Choose(len(alpha))])
			}
			writeString(c, b.String())
		}},
		Harness{Name: "lookalikes", Bound: "80 strings that look like other things as key and value, by every setter", Body: func(c *Ctx) {
			writeString(c, lookalikes[c.Choose(len(lookalikes))])
		}},
		Harness{Name: "code-points", Bound: "every Unicode scalar value as value and element (basic plane: alone and as a key; beyond: in strings of 64)", Body: func(c *Ctx) {
			const blk = 256
			n := c.Choose(0x110000 / blk)
			lo := rune(n * blk)
			m := json.NewMap()
			w := mMap()
			a := json.NewArray()
			wa := mArr()
			if lo < 0x10000 {
				allRunes(lo, lo+blk, func(r rune) {
					s := string(r)
					m.SetStringValue(s, "v"+s)
					w.Keys, w.Vals = append(w.Keys, s), append(w.Vals, mStr("v"+s))
					a.AppendStringValue(s + "e")
					wa.Vals = append(wa.Vals, mStr(s+"e"))
				})
			} else {
				for k := lo; k < lo+blk; k += 64 {
					var b strings.Builder
					allRunes(k, k+64, func(r rune) { b.WriteRune(r) })
					s := b.String()
					a.AppendValue(json.NewValue(s))
					wa.Vals = append(wa.Vals, mStr(s))
				}
			}
			m.SetArray("list", a)
			w.set("list", wa)
			c.State(itoa(n))
			writes(c, m, w)
		}},
		Harness{Name: "string-lengths", Bound: "strings of n repeated characters of 12 kinds, n of the size sweep up to 4097 (thorough 65537), as key and value", Body: func(c *Ctx) {
			max := 4097
			if c.Thorough {
				max = 65537
			}
			sizes := sweep(max)
			n := sizes[c.Choose(len(sizes))]
			f := []string{"a", `\`, `"`, "é", "😀", " ", "\n", "{", "\x01", "\x7f", "/", "'"}[c.Choose(12)]
			s := strings.Repeat(f, n)
			m := json.NewMap()
			m.SetStringValue(s, s)
			a := json.NewArray()
			a.AppendStringValue("Z" + s)
			a.AppendStringValue(s + "Z")
			m.SetArray("\x01list", a)
			c.State(itoa(n), f)
			writes(c, m, mMap().set(s, mStr(s)).set("\x01list", mArr(mStr("Z"+s), mStr(s+"Z"))))
		}},
		Harness{Name: "sizes", Bound: "maps and arrays of n members and n levels for every n of the size sweep up to 513, built through the API", Body: func(c *Ctx) {
			sizes := sweep(513)
			n := sizes[c.Choose(len(sizes))]
			shift := c.Choose(len(leavesFull))
			w, l := mMap(), mArr()
			for i := 0; i < n; i++ {
				x := cycleLeaf(i + shift)
				w.Keys, w.Vals = append(w.Keys, "k"+itoa(i)), append(w.Vals, x)
				l.Vals = append(l.Vals, x)
			}
			w.set("l", l)
			if n > 0 && shift < 4 {
				w.set("n", nest(n, shift, func(i int) bool { return (i+shift)%2 == 0 }))
			}
			c.State(itoa(n), itoa(shift))
			writes(c, buildMap(w), w)
		}},
		Harness{Name: "after-edits", Bound: "every history of 4 set, replace, remove and re-insert operations over 3 keys followed by writing", Body: func(c *Ctx) {
			m := json.NewMap()
			w := mMap()
			for i := 0; i < 4; i++ {
				mapStep(c, m, w, 3, 4)
			}
			c.State(w.String())
			writes(c, m, w)
		}},
		Harness{Name: "write-edit-write", Bound: "every tree of up to 3 nodes over 6 kinds of leaf (thorough 4), parsed or built in three ways, written, changed at any node in any of 8 ways, written, changed again anywhere, and written again (quick: trees of 3 nodes one change)", Body: func(c *Ctx) {
			n := 3
			if c.Thorough {
				n = 4
			}
			w := genTree(c, n, leavesClone)
			m := cloneSource(c, c.Choose(4), w)
			writes(c, m, w)
			edits := 2
			if nodes := len(sitesOf(w)); nodes > n {
				edits = 1
			}
			for i := 0; i < edits; i++ {
				sites := sitesOf(w)
				if ok, known := mutate(c, m, w, sites[c.Choose(len(sites))], c.Choose(8)); !ok || !known {
					return
				}
				c.State(w.String(), itoa(i))
				writes(c, m, w)
			}
		}},
		Harness{Name: "inexpressible", Bound: "not-a-number, infinities in both widths and forms, and kinds JSON cannot express, at 7 places of a document: an error every time", Body: func(c *Ctx) {
			nan32, inf32, ninf32 := float32(math.NaN()), float32(math.Inf(1)), float32(math.Inf(-1))
			nan, inf, ninf := math.NaN(), math.Inf(1), math.Inf(-1)
			objs := []interface{}{nan, inf, ninf, &nan, &inf, &ninf, nan32, inf32, ninf32, &nan32, &inf32, &ninf32,
				complex(1, 2), make(chan int), struct{ X int }{1}, &struct{ X int }{1}, []int{1}, map[string]int{"a": 1}, [2]int{1, 2}, uintptr(3), time.Second, func() {}}
			k := c.Choose(len(objs))
			o := objs[k]
			m := json.NewMap()
			v := json.NewValue(o)
			place := c.Choose(7)
			switch place {
			case 0:
				m.SetValue("a", v)
			case 1:
				m.SetStringValue("p", "1")
				m.SetValue("a", v)
				m.SetStringValue("q", "1")
			case 2:
				a := json.NewArray()
				a.AppendValue(v)
				m.SetArray("a", a)
			case 3:
				a := json.NewArray()
				a.AppendStringValue("1")
				a.AppendValue(v)
				a.AppendStringValue("2")
				m.SetArrayValue("a", *a)
			case 4:
				n := json.NewMap()
				n.SetValue("x", v)
				m.SetMap("m", n)
				m.SetNil("z")
			case 5:
				n := json.NewMap()
				n.SetObjectForMap("x", o)
				a := json.NewArray()
				a.AppendMap(n)
				b := json.NewArray()
				b.AppendArray(a)
				m.SetArray("a", b)
			case 6:
				n := json.NewMap()
				n.SetObjectForMap("x", o)
				n.SetBoolValue("t", true)
				m.SetMapValue("m", *n)
			}
			c.State(itoa(k), itoa(place))
			c.Logf("write a document holding %T %v at place %d", o, o, place)
			var b strings.Builder
			c.Op(1)
			if e := m.ToJSONString(&b); len(e) == 0 {
				c.Failf("a document holding %T %v is written without an error: %s", o, o, b.String())
			}
			c.Op(2)
			var d strings.Builder
			if e := json.ConvertInterfaceValueToJSONStringValue(&d, o); len(e) == 0 {
				c.Failf("%T %v is written without an error: %s", o, o, d.String())
			}
			if e := m.ToJSONString(nil); len(e) == 0 {
				c.Failf("no error without a builder")
			}
		}},
		Harness{Name: "direct", Bound: "the conversion function on every kind and form, on values, on string lists and on nil", Body: func(c *Ctx) {
			cat := catalog()
			k := c.Choose(len(cat) + 6)
			var o interface{}
			var w *MV
			if k < len(cat) {
				o, w = cat[k].obj(), cat[k].mv
				switch c.Choose(3) {
				case 1:
					o = json.NewValue(o)
				case 2:
					o = json.NewValueValue(o)
				}
			} else {
				lists := [][]string{{}, {"a"}, {"a", "b\"c", "\n"}}
				l := lists[(k-len(cat))/2]
				w = mArr()
				for _, s := range l {
					w.Vals = append(w.Vals, mStr(s))
				}
				o = l
				if k%2 == 0 {
					o = &l
				}
				if c.Bool() {
					o = json.NewValue(o)
				}
			}
			c.State(fmt.Sprintf("%d %T", k, o))
			var b strings.Builder
			b.WriteString("#")
			c.Op(1)
			if e := json.ConvertInterfaceValueToJSONStringValue(&b, o); e != nil {
				c.Failf("%T: %s", o, errOf(e))
			}
			t := b.String()
			if t[0] != '#' {
				c.Failf("the builder lost its content")
			}
			got, err := decodeStd(t[1:])
			if err != nil {
				c.Failf("%T written as %s: %v", o, t, err)
			}
			if s := sameText("", got, w); s != "" {
				c.Failf("%T written as %s: %s", o, t, s)
			}
		}},
	)

	reg("C08",
		Harness{Name: "trees", Bound: "every tree of up to 4 (thorough 5) nodes over 10 kinds of leaf: parse, write, parse, write", Body: func(c *Ctx) {
			n := 4
			if c.Thorough {
				n = 5
			}
			w := genTree(c, n, leavesFull)
			roundTrip(c, w.text(), w)
		}},
		Harness{Name: "built-trees", Bound: "the same trees built through the API instead of parsed", Body: func(c *Ctx) {
			w := genTree(c, 4, leavesFull)
			c.State(w.String())
			t := mustWrite(c, buildMap(w))
			roundTrip(c, t, w)
		}},
		Harness{Name: "strings", Bound: "every string of up to 3 of 30 special characters as key and value (length 3 from 12), parsed from raw and fully escaped spellings and set through the API", Body: func(c *Ctx) {
			n := c.Choose(4)
			alpha := nasty
			if n == 3 && !c.Thorough {
				alpha = nastySmall
			}
			var b strings.Builder
			for i := 0; i < n; i++ {
				b.WriteString(alpha[c.Choose(len(alpha))])
			}
			s := b.String()
			tripString(c, s)
		}},
		Harness{Name: "lookalikes", Bound: "80 strings that look like other things, as key and value", Body: func(c *Ctx) {
			tripString(c, lookalikes[c.Choose(len(lookalikes))])
		}},
		Harness{Name: "backslashes", Bound: "0 to 70 backslashes before each of 12 special characters or the end", Body: func(c *Ctx) {
			tripString(c, strings.Repeat(`\`, c.Choose(71))+append([]string{""}, nastySmall...)[c.Choose(13)])
		}},
		Harness{Name: "string-pairs", Bound: "every ordered pair of strings of up to 2 of 12 special characters side by side", Body: func(c *Ctx) {
			x := genString(c, nastySmall, 2)
			y := genString(c, nastySmall, 2)
			m := json.NewMap()
			m.SetStringValue(x, y)
			a := json.NewArray()
			a.AppendStringValue(x)
			a.AppendStringValue(y)
			m.SetArray("\x01l", a)
			w := mMap().set(x, mStr(y)).set("\x01l", mArr(mStr(x), mStr(y)))
			roundTrip(c, mustWrite(c, m), w)
		}},
		Harness{Name: "code-points", Bound: "every Unicode scalar value in keys, values and elements (basic plane alone, beyond in strings of 64)", Body: func(c *Ctx) {
			const blk = 256
			lo := rune(c.Choose(0x110000/blk) * blk)
			w := mMap()
			l := mArr()
			if lo < 0x10000 {
				allRunes(lo, lo+blk, func(r rune) {
					s := string(r)
					w.Keys, w.Vals = append(w.Keys, s), append(w.Vals, mStr(s))
					l.Vals = append(l.Vals, mStr(s+s))
				})
			} else {
				for k := lo; k < lo+blk; k += 64 {
					var b strings.Builder
					allRunes(k, k+64, func(r rune) { b.WriteRune(r) })
					l.Vals = append(l.Vals, mStr(b.String()))
				}
			}
			w.set("list", l)
			c.State(fmt.Sprint(lo))
			roundTrip(c, mustWrite(c, buildMap(w)), w)
		}},
		Harness{Name: "numbers", Bound: "every integer near a limit, power of two or ten; every integer from -66000 to 66000; fractions i.f with up to 3 digits; 13 mantissas with every exponent from -320 to 308", Body: func(c *Ctx) {
			var lits []string
			switch c.Choose(4) {
			case 0:
				for _, p := range intPoints() {
					lits = append(lits, p.digits())
				}
			case 1:
				lo := -66000 + 500*c.Choose(264)
				for i := lo; i < lo+500; i++ {
					lits = append(lits, itoa(i))
				}
			case 2:
				i := []int{0, 1, 9, 127, 255, 4095, 65535, 1000000, 16777215, 99999999}[c.Choose(10)]
				for f := 0; f < 1000; f++ {
					lits = append(lits, fmt.Sprintf("%d.%03d", i, f), fmt.Sprintf("-%d.%03d", i, f))
				}
			case 3:
				m := []string{"1", "9", "1.5", "0.1", "3.4028234663852886", "1.7976931348623157", "2.2250738585072014", "1.17549435", "1.401298464324817", "7.00649232162408", "123.456", "0.000123", "8.98846567431158"}[c.Choose(13)]
				for e := -320; e <= 308; e++ {
					l := fmt.Sprintf("%se%d", m, e)
					if w, _ := numberWant(l); w != nil {
						lits = append(lits, l, "-"+l)
					}
				}
			}
			w := mArr()
			alt := false
			for _, l := range lits {
				v, a := numberWant(l)
				alt = alt || a != nil
				w.Vals = append(w.Vals, v)
				c.State(l)
			}
			text := `{"a":[` + strings.Join(lits, ",") + `],"v":` + lits[0] + `}`
			if !alt {
				roundTrip(c, text, mMap().set("a", w).set("v", w.Vals[0]))
				return
			}
			// numbers too small for normal single precision: compare with what was parsed, not with the literal
			m := mustParse(c, text)
			t1 := mustWrite(c, m)
			m2 := mustParse(c, t1)
			t2 := mustWrite(c, m2)
			if t1 != t2 {
				c.Failf("not a fixed point: %s then %s", clipText(t1), clipText(t2))
			}
			a1, _ := m.GetArray("a")
			a2, _ := m2.GetArray("a")
			if a1 == nil || a2 == nil || a1.Len() != a2.Len() || a1.Len() != len(lits) {
				c.Failf("array changed its length")
			}
			v1, v2 := *a1.GetValues(), *a2.GetValues()
			for i := range v1 {
				x, e1 := v1[i].GetFloat64Value()
				y, e2 := v2[i].GetFloat64Value()
				if e1 != nil || e2 != nil || x != y || base(v1[i].GetType()) != base(v2[i].GetType()) {
					c.Failf("%s: %v (%s) became %v (%s)", lits[i], x, v1[i].GetType(), y, v2[i].GetType())
				}
			}
		}},
		Harness{Name: "kinds", Bound: "every storable kind in both forms and 8 routes except floats: written and parsed back to the same values (integers in the narrowest type)", Body: func(c *Ctx) {
			cat := catalog()
			x := cat[c.Choose(len(cat))]
			route := c.Choose(nStoreRoutes)
			if x.mv.K == 'f' {
				return
			}
			m, w := storeCell(c, route, x)
			c.State(x.name, itoa(route))
			roundTrip(c, mustWrite(c, m), narrow(w))
		}},
		Harness{Name: "sizes", Bound: "documents of n members, elements, levels and characters for n of the size sweep up to 513", Body: func(c *Ctx) {
			sizes := sweep(513)
			n := sizes[c.Choose(len(sizes))]
			shift := c.Choose(len(leavesFull))
			w, l := mMap(), mArr()
			for i := 0; i < n; i++ {
				x := cycleLeaf(i + shift)
				w.Keys, w.Vals = append(w.Keys, "k"+itoa(i)), append(w.Vals, x)
				l.Vals = append(l.Vals, x)
			}
			w.set("l", l)
			if n > 0 && shift < 4 {
				w.set("n", nest(n, shift, func(i int) bool { return (i+shift)%2 == 0 }))
			}
			w.set("s", mStr(strings.Repeat(nasty[shift%len(nasty)], n*4)))
			c.State(itoa(n), itoa(shift))
			roundTrip(c, w.text(), w)
		}},
		Harness{Name: "after-edits", Bound: "every history of 4 edits over 3 keys, then written and parsed back", Body: func(c *Ctx) {
			m := json.NewMap()
			w := mMap()
			for i := 0; i < 4; i++ {
				mapStep(c, m, w, 3, 4)
			}
			c.State(w.String())
			roundTrip(c, mustWrite(c, m), narrow(w))
		}},
	)
}

// narrow gives every integer its narrowest literal type.
func narrow(w *MV) *MV {
	x := w.clone()
	var f func(m *MV)
	f = func(m *MV) {
		if m.K == 'i' {
			m.T = mLit(m.Neg, m.U).T
		}
		for _, v := range m.Vals {
			f(v)
		}
	}
	f(x)
	return x
}

// roundTrip: parse text, compare with w, write, parse again, compare, and the text is a fixed point.
func roundTrip(c *Ctx, text string, w *MV) {
	c.State(text)
	m1 := parsesTo(c, text, w, 1)
	t1 := mustWrite(c, m1)
	m2 := parsesTo(c, t1, w, 1)
	t2 := mustWrite(c, m2)
	if t1 != t2 {
		c.Failf("not a fixed point: %s then %s", clipText(t1), clipText(t2))
	}
	c.Logf("%s -> %s", text, t1)
}

func tripString(c *Ctx, s string) {
	w := mMap().set(s, mStr(s)).set("\x01l", mArr(mStr(s), mMap().set(s, mArr())))
	for _, st := range []int{0, 1} {
		l := spell(s, st)
		roundTrip(c, `{`+l+`:`+l+`,"\u0001l":[`+l+`,{`+l+`:[]}]}`, w)
	}
	t := mustWrite(c, buildMap(w))
	roundTrip(c, t, w)
}

// writeString stores one string in every way and checks the text.
func writeString(c *Ctx, s string) {
	c.State(s)
	c.Logf("write %q as key and value", s)
	m := json.NewMap()
	w := mMap()
	x := s
	m.SetStringValue(s, s)
	w.set(s, mStr(s))
	m.SetString(s+"\x01p", &x)
	w.set(s+"\x01p", mStr(s))
	a := json.NewArray()
	wa := mArr()
	a.AppendStringValue(s)
	a.AppendString(&x)
	wa.Vals = append(wa.Vals, mStr(s), mStr(s))
	v := json.NewValue(nil)
	v.SetStringValue(s)
	a.AppendValue(v)
	v2 := json.NewValue(1)
	v2.SetString(&x)
	a.AppendValue(v2)
	wa.Vals = append(wa.Vals, mStr(s), mStr(s))
	if !nilLike(s) {
		a.AppendValue(json.NewValue(s))
		m.SetObjectForMap(s+"\x01o", s)
		wa.Vals = append(wa.Vals, mStr(s))
		w.set(s+"\x01o", mStr(s))
	}
	n := json.NewMap()
	n.SetNil(s)
	m.SetArray("\x01a", a)
	w.set("\x01a", wa)
	m.SetMap("\x01n", n)
	w.set("\x01n", mMap().set(s, mNull()))
	writes(c, m, w)
}
