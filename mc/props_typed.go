package main

import (
	"fmt"
	"math"
	"reflect"
	"strconv"
	"strings"

	json "github.com/matehaxor03/holistic_json/json"
)

// ---- C12: stores ----

// stored is where a cell ended up.
type stored struct {
	v *json.Value
	m *json.Map // holding v under k, when stored through a map
	a *json.Array
}

func setterName(verb string, x cell) string {
	switch x.typ {
	case "nil":
		return verb + "Nil"
	case "json.Map", "json.Array":
		if x.ptr {
			return verb + x.typ[5:]
		}
		return verb + x.typ[5:] + "Value"
	}
	if x.ptr {
		return verb + methodName(x.typ)
	}
	return verb + methodName(x.typ) + "Value"
}

func hasSetter(t reflect.Type, verb string, x cell) bool { return has(t, setterName(verb, x)) }

func typedStore(c *Ctx, target interface{}, verb string, x cell, args ...interface{}) {
	v := reflect.ValueOf(target).Elem()
	name := setterName(verb, x)
	if x.typ != "nil" {
		args = append(args, x.obj())
	}
	c.Op(1)
	c.Logf("%s.%s(%s)", v.Type().Name(), name, x.name)
	callField(v, methodIndex[v.Type()][name], args...)
}

const nRoutes = 11

// store puts the cell somewhere by one of the routes; false when the route does not exist for it.
func store(c *Ctx, route int, x cell) (stored, bool) {
	plainString := x.typ == "string" && !x.ptr && nilLike(x.mv.S)
	if plainString && (route != 3 && route != 4 && route != 7) {
		return stored{}, false // known finding: such strings given as plain objects read as null
	}
	c.Op(1)
	c.Logf("route %d: %s", route, x.name)
	switch route {
	case 0:
		return stored{v: json.NewValue(x.obj())}, true
	case 1:
		v := json.NewValueValue(x.obj())
		return stored{v: &v}, true
	case 2:
		v := json.NewValue("old")
		v.SetObject(x.obj())
		return stored{v: v}, true
	case 3:
		v := json.NewValue(nil)
		if !hasSetter(tValue, "Set", x) {
			return stored{}, false
		}
		typedStore(c, v, "Set", x)
		return stored{v: v}, true
	case 4:
		m := json.NewMap()
		m.SetStringValue("p", "before")
		if !hasSetter(tMap, "Set", x) {
			return stored{}, false
		}
		typedStore(c, m, "Set", x, "k")
		m.SetStringValue("q", "after")
		return stored{v: m.GetValue("k"), m: m}, true
	case 5:
		m := json.NewMap()
		m.SetObjectForMap("k", x.obj())
		return stored{v: m.GetValue("k"), m: m}, true
	case 6:
		m := json.NewMap()
		v := json.NewValue(x.obj())
		m.SetValue("k", v)
		return stored{v: m.GetValue("k"), m: m}, true
	case 7:
		a := json.NewArray()
		if !hasSetter(tArray, "Append", x) {
			return stored{}, false
		}
		typedStore(c, a, "Append", x)
		if a.Len() != 1 {
			c.Failf("append of %s: length %d", x.name, a.Len())
		}
		return stored{v: (*a.GetValues())[0], a: a}, true
	case 8:
		a := json.NewArray()
		a.AppendValueValue(json.NewValueValue(x.obj()))
		return stored{v: (*a.GetValues())[0], a: a}, true
	case 9:
		l := []interface{}{x.obj()}
		a := json.NewArrayOfValues(&l)
		return stored{v: (*a.GetValues())[0], a: a}, true
	case 10:
		g := map[string]interface{}{"k": x.obj()}
		m := json.NewMapOfValues(&g)
		return stored{v: m.GetValue("k"), m: m}, true
	}
	panic("route")
}

func targetOf(w *MV) string {
	switch w.K {
	case 'm':
		return "Map"
	case 'a':
		return "Array"
	case 's':
		return "string"
	case 'b':
		return "bool"
	case 'n':
		return "int8"
	}
	return w.T
}

// isStored checks that the stored thing is exactly x by every predicate and by the matching getters.
func isStored(c *Ctx, s stored, x cell, what string) {
	w := x.mv
	what += " " + x.name
	if s.v == nil {
		c.Failf("%s: nothing was stored", what)
	}
	if d := checkVal(c, what, s.v, w, 1); d != "" {
		c.Failf("%s", d)
	}
	checkPredicates(c, what, s.v, s.m, "k", w)
	h := hold(s.v)
	if s.m != nil {
		h.m = s.m
	}
	if s.a != nil && s.a.Len() == 1 {
		h.a = s.a
	}
	t := targetOf(w)
	h.readAs(c, what, t, convert(w, t))
	if s.m == nil {
		checkPredicates(c, what, nil, h.m, "k", w)
	}
	// the object itself
	objs := []interface{}{s.v.GetObject(), h.m.GetObjectForMap("k")}
	for _, o := range objs {
		r := reflect.ValueOf(o)
		if w.K == 'n' {
			if r.IsValid() && !(r.Kind() == reflect.Ptr && r.IsNil()) {
				c.Failf("%s: null holds a %T", what, o)
			}
			continue
		}
		if r.IsValid() && r.Kind() == reflect.Ptr && !r.IsNil() {
			r = r.Elem()
		}
		if !r.IsValid() || !sameGo(r, w) {
			c.Failf("%s: GetObject gives a %T, want %s", what, o, w)
		}
	}
	if w.K == 's' {
		checkString(c, what, s.v, h.m, w.S)
	}
}

func checkString(c *Ctx, what string, v *json.Value, m *json.Map, s string) {
	c.Op(6)
	t := s
	if !v.IsValueEqualToStringValue(s) || !v.IsValueEqualToString(&t) {
		c.Failf("%s is not equal to itself", what)
	}
	u := s + "x"
	if v.IsValueEqualToStringValue(u) || v.IsValueEqualToString(&u) || v.IsValueEqualToString(nil) {
		c.Failf("%s equals something else", what)
	}
	if s != "" && (v.IsValueEqualToStringValue(s[1:]) || v.IsValueEqualToStringValue(strings.ToUpper(s)) && s != strings.ToUpper(s)) {
		c.Failf("%s equals something else", what)
	}
	for i := 0; i < 2; i++ {
		r, e := v.GetRunes()
		if i == 1 {
			r, e = m.GetRunes("k")
		}
		if e != nil || r == nil {
			c.Failf("%s: GetRunes: %s", what, errOf(e))
		}
		want := []rune(s)
		if len(*r) != len(want) {
			c.Failf("%s: GetRunes has %d entries, want %d", what, len(*r), len(want))
		}
		for j := range want {
			if (*r)[j] == nil || *(*r)[j] != want[j] {
				c.Failf("%s: GetRunes[%d] is wrong", what, j)
			}
		}
	}
}

// again stores a cell over whatever is there.
func again(c *Ctx, where int, v *json.Value, m *json.Map, a *json.Array, x cell) {
	c.Op(1)
	switch where {
	case 0:
		v.SetObject(x.obj())
	case 1:
		typedStore(c, v, "Set", x)
	case 2:
		typedStore(c, m, "Set", x, "k")
	case 3:
		m.SetObjectForMap("k", x.obj())
	case 4:
		m.SetValue("k", json.NewValue(x.obj()))
	case 5:
		if ok, e := a.SetValueAtIndex(1, json.NewValue(x.obj())); !ok || e != nil {
			c.Failf("SetValueAtIndex(1) = %v %v", ok, e)
		}
	}
}

// exponents gives floating point numbers of every exponent with three mantissas.
func exponents(t string, f func(x float64)) {
	lo, hi := -1074, 1023
	if t == "float32" {
		lo, hi = -149, 127
	}
	for e := lo; e <= hi; e++ {
		p := math.Ldexp(1, e)
		for _, x := range []float64{p, p * 1.5, math.Nextafter(p*2, 0), p * (1 + 1.0/3)} {
			if t == "float32" {
				x = float64(float32(x))
			}
			if !math.IsInf(x, 0) && x != 0 {
				f(x)
				f(-x)
			}
		}
	}
}

func init() {
	reg("C12",
		Harness{Name: "kinds", Bound: "every kind and storage form with its limits, stored by 11 routes; every predicate and matching getter, pointer and plain, through the value, a map and an array", Body: func(c *Ctx) {
			cat := catalog()
			x := cat[c.Choose(len(cat))]
			route := c.Choose(nRoutes)
			s, ok := store(c, route, x)
			if !ok {
				return
			}
			c.State(x.name, itoa(route))
			isStored(c, s, x, "route "+itoa(route))
			if s.m != nil {
				w := mMap()
				if route == 4 {
					w.set("p", mStr("before")).set("k", x.mv).set("q", mStr("after"))
				} else {
					w.set("k", x.mv)
				}
				expectDoc(c, "map", s.m, w, 0)
			}
		}},
		Harness{Name: "integers", Bound: "every integer type and form, every integer near a limit or a power of two or ten, 11 routes", Body: func(c *Ctx) {
			t := intTypes[c.Choose(len(intTypes))]
			ptr := c.Bool()
			route := c.Choose(nRoutes)
			for _, p := range intPoints() {
				if !fits(t, p) {
					continue
				}
				x := intCell(t, p, ptr)
				if s, ok := store(c, route, x); ok {
					isStored(c, s, x, "route "+itoa(route))
					c.State(x.name, itoa(route))
				}
			}
		}},
		Harness{Name: "all-small-integers", Bound: "every 8 and 16 bit integer of both signs stored plain and by pointer through value and map setters and array appends", Body: func(c *Ctx) {
			t := []string{"int8", "uint8", "int16", "uint16"}[c.Choose(4)]
			ptr := c.Bool()
			lo, hi := int64(-128), int64(127)
			switch t {
			case "uint8":
				lo, hi = 0, 255
			case "int16":
				lo, hi = -32768, 32767
			case "uint16":
				lo, hi = 0, 65535
			}
			const part = 16
			k := int64(c.Choose(part))
			n := (hi - lo + 1) / part
			v, m := json.NewValue(nil), json.NewMap()
			for i := lo + k*n; i < lo+(k+1)*n; i++ {
				x := intCell(t, mIntT(t, i), ptr)
				typedStore(c, v, "Set", x)
				typedStore(c, m, "Set", x, "k")
				a := json.NewArray()
				typedStore(c, a, "Append", x)
				an := exactly(x.mv)
				g := getterName(t)
				checkRead(c, x.name, read(c, v, g), an, false)
				checkRead(c, x.name, read(c, v, g+"Value"), an, true)
				checkRead(c, x.name, read(c, m, g, "k"), an, false)
				checkRead(c, x.name, read(c, m, g+"Value", "k"), an, true)
				checkBulk1(c, x.name, read(c, a, "GetArrayOf"+methodName(t)), an, false)
				checkBulk1(c, x.name, read(c, a, "GetArrayOf"+methodName(t)+"Value"), an, true)
			}
			c.State(t, itoa(int(k)))
		}},
		Harness{Name: "floats", Bound: "chosen floating-point numbers and every exponent with four mantissas and both signs, both types and forms, 11 routes", Body: func(c *Ctx) {
			t := []string{"float32", "float64"}[c.Choose(2)]
			ptr := c.Bool()
			route := c.Choose(nRoutes)
			one := func(f float64) {
				x := floatCell(t, f, ptr)
				if s, ok := store(c, route, x); ok {
					g := getterName(t)
					a := convert(x.mv, t)
					checkRead(c, x.name, read(c, s.v, g), a, false)
					checkRead(c, x.name, read(c, s.v, g+"Value"), a, true)
					checkRead(c, x.name, read(c, s.v, "GetFloat64"), exactly(mF64(f)), false)
					if s.m != nil {
						checkRead(c, x.name, read(c, s.m, g, "k"), a, false)
						checkRead(c, x.name, read(c, s.m, g+"Value", "k"), a, true)
					}
					o := reflect.Indirect(reflect.ValueOf(s.v.GetObject()))
					if !sameGo(o, x.mv) {
						c.Failf("%s: the object is %v", x.name, o)
					}
				}
			}
			for _, f := range floatsOf(t) {
				x := floatCell(t, f, ptr)
				if s, ok := store(c, route, x); ok {
					isStored(c, s, x, "route "+itoa(route))
				}
			}
			exponents(t, one)
			c.State(t, itoa(route))
		}},
		Harness{Name: "strings", Bound: "every string of up to 3 of 12 nasty characters and every string that looks like something else, both forms, 11 routes", Body: func(c *Ctx) {
			route := c.Choose(nRoutes)
			ptr := c.Bool()
			var s string
			if c.Bool() {
				s = lookalikes[c.Choose(len(lookalikes))]
			} else {
				s = genString(c, nastySmall, 3)
			}
			x := strCell(s, ptr)
			if r, ok := store(c, route, x); ok {
				c.State(s, itoa(route))
				isStored(c, r, x, "route "+itoa(route))
			}
		}},
		Harness{Name: "string-lengths", Bound: "strings of every length of the size sweep up to 5000", Body: func(c *Ctx) {
			sizes := sweep(5000)
			n := sizes[c.Choose(len(sizes))]
			route := []int{0, 3, 4, 7}[c.Choose(4)]
			for _, unit := range []string{"a", "é", "\"", "ab\n", " "} {
				x := strCell(strings.Repeat(unit, n), c.Thorough)
				if r, ok := store(c, route, x); ok {
					c.State(unit, itoa(n), itoa(route))
					isStored(c, r, x, "route "+itoa(route))
				}
			}
		}},
		Harness{Name: "characters", Bound: "every Unicode character as a string of its own and inside another, through value and map setters", Body: func(c *Ctx) {
			const block = 4096
			lo := rune(block * c.Choose(0x110000/block))
			v, m := json.NewValue(nil), json.NewMap()
			allRunes(lo, lo+block, func(r rune) {
				for _, s := range []string{string(r), "a" + string(r) + "b"} {
					c.Op(4)
					v.SetStringValue(s)
					t := s
					m.SetString("k", &t)
					g, e := v.GetStringValue()
					p, e2 := m.GetString("k")
					if e != nil || e2 != nil || g != s || p == nil || *p != s {
						c.Failf("string %q is read as %q", s, g)
					}
					rs, e := v.GetRunes()
					if e != nil || rs == nil || len(*rs) != len([]rune(s)) || *(*rs)[0] != []rune(s)[0] {
						c.Failf("string %q: GetRunes is wrong", s)
					}
				}
			})
			c.State(fmt.Sprint(lo))
		}},
		Harness{Name: "replacement", Bound: "every ordered pair of kinds and forms stored one over the other through 6 ways each, in a value, a map between neighbours, and an array between neighbours", Body: func(c *Ctx) {
			cat := smallCatalog()
			x, y := cat[c.Choose(len(cat))], cat[c.Choose(len(cat))]
			first, second := c.Choose(6), c.Choose(6)
			m, a := json.NewMap(), json.NewArray()
			m.SetUInt8Value("p", 1)
			m.SetValue("k", json.NewValue("first"))
			m.SetStringValue("q", "2")
			for i := 0; i < 3; i++ {
				a.AppendIntValue(i)
			}
			w, wa := mMap().set("p", mUintT("uint8", 1)).set("k", mStr("first")).set("q", mStr("2")), mArr(mIntT("int", 0), mIntT("int", 1), mIntT("int", 2))
			for i, z := range []cell{x, y} {
				where := []int{first, second}[i]
				again(c, where, m.GetValue("k"), m, a, z)
				if where == 5 {
					wa.Vals[1] = z.mv
				} else {
					w.set("k", z.mv)
				}
			}
			c.State(x.name, y.name, itoa(first), itoa(second))
			expectDoc(c, "map", m, w, 1)
			if d := checkArr(c, "array", a, wa, 1); d != "" {
				c.Failf("%s", d)
			}
			if second == 5 {
				isStored(c, stored{v: (*a.GetValues())[1]}, y, "after "+x.name)
			} else {
				isStored(c, stored{v: m.GetValue("k"), m: m}, y, "after "+x.name)
			}
		}},
		Harness{Name: "three-stores", Bound: "every sequence of three kinds stored in one value by its typed setters, checked after each", Body: func(c *Ctx) {
			var cat []cell
			for i, x := range smallCatalog() {
				if i%2 == 0 || c.Thorough {
					cat = append(cat, x)
				}
			}
			v := json.NewValue(nil)
			for i := 0; i < 3; i++ {
				x := cat[c.Choose(len(cat))]
				typedStore(c, v, "Set", x)
				if d := checkVal(c, "value", v, x.mv, 1); d != "" {
					c.Failf("after %s: %s", x.name, d)
				}
				if i == 2 {
					isStored(c, stored{v: v}, x, "third")
				}
			}
			c.State(v.GetType())
		}},
		Harness{Name: "nil-pointers", Bound: "every pointer setter and append given nil, over every kind", Body: func(c *Ctx) {
			targets := append(append([]string{}, scalarTargets...), "Map", "Array")
			t := targets[c.Choose(len(targets))]
			cat := smallCatalog()
			x := cat[c.Choose(len(cat))]
			name := "Set" + methodName(t)
			if t == "Map" || t == "Array" {
				name = "Set" + t
			}
			v, m, a := json.NewValue(x.obj()), json.NewMap(), json.NewArray()
			m.SetValue("k", json.NewValue(x.obj()))
			m.SetBoolValue("q", true)
			c.Op(3)
			callField(reflect.ValueOf(v).Elem(), methodIndex[tValue][name], nil)
			callField(reflect.ValueOf(m).Elem(), methodIndex[tMap][name], "k", nil)
			callField(reflect.ValueOf(a).Elem(), methodIndex[tArray]["Append"+name[3:]], nil)
			c.State(x.name, t)
			isStored(c, stored{v: v}, nilCell(), "nil "+t)
			isStored(c, stored{v: m.GetValue("k"), m: m}, nilCell(), "nil "+t)
			isStored(c, stored{v: (*a.GetValues())[0], a: a}, nilCell(), "nil "+t)
			expectDoc(c, "map", m, mMap().set("k", mNull()).set("q", mBool(true)), 0)
		}},
		Harness{Name: "every-operation-exists", Bound: "every declared operation of Value, Map and Array", Body: func(c *Ctx) {
			for _, target := range []interface{}{json.NewValue(1), json.NewMap(), json.NewArray()} {
				v := reflect.ValueOf(target).Elem()
				for _, m := range methodsOf(v.Type(), func(string) bool { return true }) {
					c.Op(1)
					c.State(v.Type().Name(), m.name)
					if v.Field(m.idx).IsNil() {
						c.Failf("%s.%s is declared but not provided", v.Type().Name(), m.name)
					}
				}
			}
		}},
	)

	reg("C13",
		Harness{Name: "limits", Bound: "every integer near a limit, power of two or power of ten, in every integer type that holds it, both forms, read as all 12 numeric types by the value, map and bulk getters, plain and pointer", Body: func(c *Ctx) {
			t := intTypes[c.Choose(len(intTypes))]
			ptr := c.Bool()
			target := numTypes[c.Choose(len(numTypes))]
			for _, p := range intPoints() {
				if !fits(t, p) {
					continue
				}
				x := intCell(t, p, ptr)
				c.State(x.name, target)
				hold(json.NewValue(x.obj())).readAs(c, x.name+" as "+target, target, convert(x.mv, target))
			}
		}},
		Harness{Name: "floats", Bound: "floating-point numbers of every magnitude in both types and forms, read as all 12 numeric types by every route", Body: func(c *Ctx) {
			t := []string{"float32", "float64"}[c.Choose(2)]
			ptr := c.Bool()
			target := numTypes[c.Choose(len(numTypes))]
			for _, f := range floatsOf(t) {
				x := floatCell(t, f, ptr)
				c.State(x.name, target)
				hold(json.NewValue(x.obj())).readAs(c, x.name+" as "+target, target, convert(x.mv, target))
			}
			exponents(t, func(f float64) {
				x := floatCell(t, f, ptr)
				a := convert(x.mv, target)
				v := json.NewValue(x.obj())
				checkRead(c, x.name+" as "+target, read(c, v, getterName(target)), a, false)
				checkRead(c, x.name+" as "+target, read(c, v, getterName(target)+"Value"), a, true)
			})
		}},
		Harness{Name: "all-16-bit", Bound: "every integer from -70000 to 70000 in every type that holds it, read as each of the 12 types through value and map", Body: func(c *Ctx) {
			t := intTypes[c.Choose(len(intTypes))]
			const size = 2500
			lo := -70000 + size*c.Choose(2*70000/size)
			if fitsRange(t, lo, lo+size) == 0 {
				return
			}
			m := json.NewMap()
			for i := lo; i <= lo+size; i++ {
				w := mIntT(t, int64(i))
				if !fits(t, w) {
					continue
				}
				x := intCell(t, w, i%2 == 0)
				m.SetObjectForMap("k", x.obj())
				v := m.GetValue("k")
				for _, target := range numTypes {
					a := convert(w, target)
					g := getterName(target)
					checkRead(c, x.name+" as "+target, read(c, v, g), a, false)
					checkRead(c, x.name+" as "+target, read(c, v, g+"Value"), a, true)
					if c.Thorough {
						checkRead(c, x.name+" as "+target, read(c, m, g, "k"), a, false)
						checkRead(c, x.name+" as "+target, read(c, m, g+"Value", "k"), a, true)
					}
				}
			}
			c.State(t, itoa(lo))
		}},
		Harness{Name: "parsed", Bound: "every integer near a limit and every chosen fraction, parsed as member and element, read as all 12 types", Body: func(c *Ctx) {
			target := numTypes[c.Choose(len(numTypes))]
			if c.Bool() {
				for _, p := range intPoints() {
					w := mLit(p.Neg, p.U)
					if !fits(w.T, w) {
						continue
					}
					m := mustParse(c, mMap().set("k", w).set("a", mArr(w)).text())
					c.State(w.String(), target)
					h := hold(m.GetValue("k"))
					h.m = m
					h.readAs(c, "parsed "+w.String(), target, convert(w, target))
					a, e := m.GetArray("a")
					if e != nil || a.Len() != 1 {
						c.Failf("no array")
					}
					h = hold((*a.GetValues())[0])
					h.a = a
					h.readAs(c, "parsed element "+w.String(), target, convert(w, target))
				}
				return
			}
			for _, f := range floatsOf("float32") {
				if math.Abs(f) < 1e-37 && f != 0 {
					continue
				}
				w := mF32(float32(f))
				m := mustParse(c, mMap().set("k", w).text())
				c.State(w.String(), target)
				h := hold(m.GetValue("k"))
				h.m = m
				h.readAs(c, "parsed "+w.String(), target, convert(w, target))
			}
		}},
		Harness{Name: "neighbours-in-lists", Bound: "lists of three numbers, each near a limit of the requested type and of every stored type, read in bulk", Body: func(c *Ctx) {
			target := numTypes[c.Choose(10)]
			b := bitsOf(target)
			top := uint64(1)<<(b-1) - 1
			if isUnsigned(target) {
				top = top*2 + 1
			}
			var pts []*MV
			for _, p := range []*MV{{K: 'i', U: top}, {K: 'i', U: top - 1}, {K: 'i', U: top + 1}, {K: 'i', Neg: true, U: top + 1}, {K: 'i', Neg: true, U: top + 2}, {K: 'i'}, {K: 'i', Neg: true, U: 1}, {K: 'i', U: 5}} {
				if p.Neg && p.U > 1<<63 || p.Neg && p.U == 0 {
					continue
				}
				pts = append(pts, p)
			}
			a := json.NewArray()
			h := json.NewMap()
			h.SetArray("k", a)
			var want []*MV
			bad := false
			for i := 0; i < 3; i++ {
				p := pts[c.Choose(len(pts))]
				t := intTypes[(c.Choose(3)+7*i)%len(intTypes)]
				for !fits(t, p) {
					t = "int64"
					if !fits(t, p) {
						t = "uint64"
					}
				}
				x := intCell(t, p, i == 1)
				a.AppendValue(json.NewValue(x.obj()))
				an := convert(x.mv, target)
				if an.err {
					bad = true
				} else {
					want = append(want, an.vals[0])
				}
			}
			for _, n := range []string{"GetArrayOf" + methodName(target), "GetArrayOf" + methodName(target) + "Value"} {
				for k, o := range []func() outcome{func() outcome { return read(c, a, n) }, func() outcome { return read(c, h, n, "k") }} {
					if k == 1 && !has(tMap, n) {
						continue
					}
					r := o()
					if r.err != bad {
						c.Failf("%s of %s: %s, want %v, failure %v", n, render(reflect.ValueOf(*a)), r, want, bad)
					}
					if bad {
						continue
					}
					if r.val.Len() != 3 {
						c.Failf("%s: %s", n, r)
					}
					for i := range want {
						e := asOutcome([]reflect.Value{r.val.Index(i)})
						if e.null || !sameGo(e.val, want[i]) {
							c.Failf("%s[%d] = %s, want %s", n, i, e, want[i])
						}
					}
				}
			}
			c.State(target, fmt.Sprint(want))
		}},
	)

	reg("C14",
		Harness{Name: "short-texts", Bound: "every text of up to 5 characters over 0 1 9 - + . e _ x space a, both forms, read as every numeric type", Body: func(c *Ctx) {
			alphabet := []string{"1", "0", "9", "-", "+", ".", "e", "_", "x", " ", "a"}
			n := 4
			if c.Thorough {
				n = 5
			}
			s := genString(c, alphabet, n)
			textRead(c, s, 1)
		}},
		Harness{Name: "digit-texts", Bound: "every text of up to 6 characters over 0 1 - .", Body: func(c *Ctx) {
			textRead(c, genString(c, []string{"1", "0", "-", "."}, 6), 1)
		}},
		Harness{Name: "limits", Bound: "every integer near a limit, a power of two or of ten up to twice 2^64, plain and with seven alterations, every numeric type, every route", Body: func(c *Ctx) {
			how := c.Choose(11)
			var texts []string
			for _, p := range intPoints() {
				d := p.digits()
				switch how {
				case 0:
				case 1:
					d += "0"
				case 2:
					d = " " + d
				case 3:
					d += " "
				case 4:
					d += ".0"
				case 5:
					d += "e0"
				case 6:
					if p.Neg {
						d = "--" + d[1:]
					} else {
						d = "+" + d
					}
				case 7:
					d = strings.Replace(d, "-", "", 1) + "-"
				case 8:
					if p.Neg {
						d = "-0" + d[1:]
					} else {
						d = "0" + d
					}
				case 9:
					d += "\n"
				case 10:
					d += ".5"
				}
				texts = append(texts, d)
			}
			if how == 0 {
				texts = append(texts, "18446744073709551616", "18446744073709551617", "-9223372036854775809", "99999999999999999999", "340282366920938463463374607431768211456", "-18446744073709551615", "-18446744073709551616", "36893488147419103232", "4294967296000000000000")
			}
			part := c.Choose(16)
			for i, s := range texts {
				if i%16 == part {
					textRead(c, s, 0)
				}
			}
		}},
		Harness{Name: "decimals", Bound: "fractions of every magnitude in plain and exponent notation, read as every numeric type by every route", Body: func(c *Ctx) {
			fmts := []byte{'f', 'e', 'E', 'g'}
			f := fmts[c.Choose(4)]
			bits := []int{32, 64}[c.Choose(2)]
			part := c.Choose(8)
			for i, x := range append(floatsOf("float64"), 1e-320, 123456789.123456789) {
				if bits == 32 && math.IsInf(float64(float32(x)), 0) || i%8 != part {
					continue
				}
				textRead(c, strconv.FormatFloat(x, f, -1, bits), 0)
			}
			for _, s := range []string{"1e400", "-1e400", "1e309", "1e39", "3.4028236e38", "3.5e38", "1e-400", "0.1e1", "1E5", "1e+5", "1e", "1e+", ".e1", "1.5e3", "-1.5E-3", "00.5", "1..5", "1.5.5", "1,5"} {
				textRead(c, s, 0)
			}
		}},
		Harness{Name: "lookalikes", Bound: "every text that looks like something else, both forms, every numeric type and bool, every route", Body: func(c *Ctx) {
			s := lookalikes[c.Choose(len(lookalikes))]
			textRead(c, s, 0)
			boolRead(c, s, true)
		}},
		Harness{Name: "booleans", Bound: "every text of up to 5 (thorough 6) letters over t r u e f a l s 0 1 T space and every spelling of the boolean words, both forms", Body: func(c *Ctx) {
			var s string
			if c.Bool() {
				words := []string{"true", "false", "1", "0"}
				s = words[c.Choose(4)]
				switch c.Choose(9) {
				case 1:
					s = strings.ToUpper(s)
				case 2:
					s = strings.ToUpper(s[:1]) + s[1:]
				case 3:
					s = " " + s
				case 4:
					s += " "
				case 5:
					s += "\n"
				case 6:
					s += s
				case 7:
					s = `"` + s + `"`
				case 8:
					s = s[:len(s)-1]
				}
				boolRead(c, s, true)
				return
			}
			n := 5
			if c.Thorough {
				n = 6
			}
			boolRead(c, genString(c, []string{"t", "r", "u", "e", "f", "a", "l", "s", "0", "1", "T", " "}, n), false)
		}},
		Harness{Name: "other-boolean-words", Bound: "words other systems take for booleans", Body: func(c *Ctx) {
			w := []string{"t", "f", "T", "F", "yes", "no", "y", "n", "on", "off", "Yes", "ON", "2", "-1", "00", "01", "10", "1.0", "0.0", "+1", "-0", "nil", "null", "", "truee", "falsee", "TRUE", "FALSE", "True", "False", "1\x00", "۱"}
			boolRead(c, w[c.Choose(len(w))], true)
		}},
		Harness{Name: "parsed-texts", Bound: "text numbers and booleans inside parsed documents, as members and elements", Body: func(c *Ctx) {
			texts := []string{"0", "1", "-1", "127", "128", "-128", "-129", "255", "256", "32768", "65536", "2147483648", "4294967296", "9223372036854775807", "9223372036854775808", "18446744073709551615", "18446744073709551616", "1.5", "true", "false", "x", "", "1e3", " 1"}
			s := texts[c.Choose(len(texts))]
			w := mMap().set("k", mStr(s)).set("a", mArr(mStr(s)))
			m := mustParse(c, w.text())
			c.State(s)
			h := hold(m.GetValue("k"))
			h.m = m
			a, _ := m.GetArray("a")
			h.a = a
			for _, t := range append(append([]string{}, numTypes...), "bool") {
				h.readAs(c, strconv.Quote(s)+" as "+t, t, convert(mStr(s), t))
			}
			expectDoc(c, "after reading", m, w, 0)
		}},
	)
}

func fitsRange(t string, lo, hi int) int {
	n := 0
	for _, i := range []int{lo, hi, 0} {
		if i >= lo && i <= hi && fits(t, mIntT(t, int64(i))) {
			n++
		}
	}
	return n
}

// textRead reads a text as every numeric type. level 0: all routes, 1: value getters only.
func textRead(c *Ctx, s string, level int) {
	w := mStr(s)
	c.State(s)
	for _, ptr := range []bool{true, false} {
		if !ptr && nilLike(s) {
			continue
		}
		x := strCell(s, ptr)
		v := json.NewValue(x.obj())
		for _, t := range numTypes {
			a := convert(w, t)
			name := x.name + " as " + t
			if level == 0 {
				hold(v).readAs(c, name, t, a)
				continue
			}
			checkRead(c, name, read(c, v, getterName(t)), a, false)
			checkRead(c, name, read(c, v, getterName(t)+"Value"), a, true)
		}
		if g, e := v.GetStringValue(); e != nil || g != s {
			c.Failf("the text %q became %q", s, g)
		}
	}
}

func boolRead(c *Ctx, s string, all bool) {
	w := mStr(s)
	c.State("b", s)
	a := convert(w, "bool")
	for _, ptr := range []bool{true, false} {
		if !ptr && nilLike(s) {
			continue
		}
		x := strCell(s, ptr)
		v := json.NewValue(x.obj())
		if all {
			hold(v).readAs(c, x.name+" as bool", "bool", a)
		} else {
			c.Op(2)
			b, e := v.GetBoolValue()
			p, e2 := v.GetBool()
			if len(a.vals) == 0 {
				if e == nil || e2 == nil || b || p != nil {
					c.Failf("%s as bool: no error", x.name)
				}
			} else if e != nil || e2 != nil || p == nil || *p != b || b != a.vals[0].B {
				c.Failf("%s as bool = %v %s", x.name, b, errOf(e))
			}
		}
		if v.IsBool() || v.IsNumber() || !v.IsString() {
			c.Failf("%s is no longer a string", x.name)
		}
	}
}
