package main

import (
	"errors"
	"reflect"
	"sort"
	"strings"
	"time"

	json "github.com/matehaxor03/holistic_json/json"
)

// element is something given to a constructor in a Go collection, with what must be found there.
type element struct {
	name  string
	mv    *MV
	obj   interface{}
	value *json.Value // when the given element is this very value
	same  interface{} // when the held object must be this very object
}

// nForms: plain object, *Value, Value, nil *Value for null
const nForms = 3

func elementOf(c *Ctx, x cell, form int) element {
	e := element{name: x.name, mv: x.mv}
	switch form {
	case 0:
		e.obj = x.obj()
		e.same = e.obj
	case 1:
		e.value = json.NewValue(x.obj())
		e.obj = e.value
		e.name = "*Value of " + e.name
	case 2:
		v := json.NewValueValue(x.obj())
		e.obj = v
		e.value = &v
		e.name = "Value of " + e.name
	}
	return e
}

// nils are the elements that must be held as nulls.
func nils() []element {
	var out []element
	for _, o := range []interface{}{nil, (*json.Value)(nil), (*json.Map)(nil), (*json.Array)(nil), (*string)(nil), (*bool)(nil), (*int)(nil), (*int8)(nil), (*int16)(nil), (*int32)(nil), (*int64)(nil),
		(*uint)(nil), (*uint8)(nil), (*uint16)(nil), (*uint32)(nil), (*uint64)(nil), (*float32)(nil), (*float64)(nil), (*time.Time)(nil)} {
		n := "nil"
		if o != nil {
			n = "nil " + reflect.TypeOf(o).String()
		}
		out = append(out, element{name: n, mv: mNull(), obj: o})
	}
	out = append(out, element{name: "*Value of nil", mv: mNull(), obj: json.NewValue(nil)}, element{name: "Value of nil", mv: mNull(), obj: json.NewValueValue(nil)})
	return out
}

// held checks one element of a container.
func held(c *Ctx, where string, v *json.Value, e element) {
	where += " given " + e.name
	if v == nil && e.mv.K == 'n' {
		return
	}
	if d := checkVal(c, where, v, e.mv, 1); d != "" {
		c.Failf("%s", d)
	}
	if e.value != nil {
		// kept as that value: a change through the given one is seen
		e.value.SetStringValue("through the given value")
		if d := checkVal(c, where, v, mStr("through the given value"), 0); d != "" {
			c.Failf("not the given value: %s", d)
		}
		e.value.SetObject(nil)
	}
}

// arrayOf makes the array and checks it; the Go slice is changed in between.
func arrayOf(c *Ctx, es []element, spoil bool) {
	l := []interface{}{}
	w := mArr()
	for _, e := range es {
		l = append(l, e.obj)
		w.Vals = append(w.Vals, e.mv)
	}
	c.Op(1)
	a := json.NewArrayOfValues(&l)
	if spoil {
		for i := range l {
			l[i] = "changed later"
		}
		l = append(l, "added later")
		l = l[:0]
	}
	if s := checkArr(c, "", a, w, 0); s != "" {
		c.Failf("array of %s: %s", names(es), s)
	}
	expectArrText(c, "array of "+names(es), a, w)
	for i, e := range es {
		held(c, "element "+itoa(i)+" of "+names(es), (*a.GetValues())[i], e)
	}
	// the array is an ordinary one
	n := a.Len()
	a.AppendStringValue("more")
	if a.Len() != n+1 {
		c.Failf("append to an array of %s: %d elements", names(es), a.Len())
	}
	if ok, err := a.RemoveValueAtIndex(n); !ok || err != nil {
		c.Failf("removal from an array of %s: %v %v", names(es), ok, err)
	}
	if !spoil && len(l) != len(es) {
		c.Failf("the given slice has %d elements afterwards, had %d", len(l), len(es))
	}
}

func names(es []element) string {
	s := ""
	for i, e := range es {
		if i == 6 {
			return s + "..."
		}
		s += e.name + ", "
	}
	return "[" + s + "]"
}

// mapOf makes the map and checks it.
func mapOf(c *Ctx, keys []string, es []element, spoil bool) {
	g := map[string]interface{}{}
	for i, k := range keys {
		g[k] = es[i].obj
	}
	c.Op(1)
	m := json.NewMapOfValues(&g)
	if spoil {
		for k := range g {
			g[k] = "changed later"
		}
		g["added later"] = 1
		delete(g, keys[0])
	} else if len(g) != len(keys) {
		c.Failf("the given map has %d members afterwards, had %d", len(g), len(keys))
	}
	// the order of a Go map is not defined: take the one of the map, once it is the same set
	got := append([]string{}, m.GetKeys()...)
	a, b := append([]string{}, got...), append([]string{}, keys...)
	sort.Strings(a)
	sort.Strings(b)
	if !reflect.DeepEqual(a, b) {
		c.Failf("map of %q given %s has the keys %q", keys, names(es), got)
	}
	w := mMap()
	for _, k := range got {
		for i, x := range keys {
			if k == x {
				w.Keys = append(w.Keys, k)
				w.Vals = append(w.Vals, es[i].mv)
			}
		}
	}
	expectDoc(c, "map of "+names(es), m, w, 0)
	expectText(c, "map of "+names(es), m, w)
	for i, k := range keys {
		held(c, "member "+clipS(k)+" of "+names(es), m.GetValue(k), es[i])
	}
	if m.HasKey("added later") && w.idx("added later") < 0 {
		c.Failf("a key added to the Go map later shows")
	}
	// the map is an ordinary one
	m.SetStringValue("one more", "x")
	if !m.HasKey("one more") || len(m.GetKeys()) != len(keys)+1 {
		c.Failf("a member cannot be added to a map of %s", names(es))
	}
	for _, k := range keys {
		if ok, err := m.RemoveKey(k); !ok || err != nil || m.HasKey(k) {
			c.Failf("RemoveKey(%q) of a map of %s: %v %v", k, names(es), ok, err)
		}
	}
	expectDoc(c, "emptied map of "+names(es), m, mMap().set("one more", mStr("x")), 0)
}

func constructed(c *Ctx, asMap, spoil bool, es []element) {
	c.State(names(es), itoa(len(es)))
	if !asMap {
		arrayOf(c, es, spoil)
		return
	}
	var keys []string
	for i := range es {
		keys = append(keys, "k"+itoa(i))
	}
	if len(keys) == 0 {
		spoil = false
	}
	mapOf(c, keys, es, spoil)
}

func plainOK(x cell, form int) bool {
	return !(x.typ == "string" && !x.ptr && nilLike(x.mv.S))
}

// mixedElement: element i of a long collection, cycling through kinds and forms.
func mixedElement(c *Ctx, i int) element {
	cells := smallCatalog()
	if i%11 == 10 {
		n := nils()
		return n[i%len(n)]
	}
	return elementOf(c, cells[(i*7)%len(cells)], i%nForms)
}

func init() {
	reg("C20",
		Harness{Name: "kinds", Bound: "every kind, form of storage and way of wrapping, alone, first, in the middle and last in a slice or map; the Go collection changed afterwards or not", Body: func(c *Ctx) {
			cat := catalog()
			x := cat[c.Choose(len(cat))]
			form := c.Choose(nForms)
			e := elementOf(c, x, form)
			n := nils()
			es := [][]element{{e}, {e, elementOf(c, boolCell(true, false), 0)}, {elementOf(c, strCell("p", true), 1), e, n[1]}, {n[0], e}}[c.Choose(4)]
			constructed(c, c.Bool(), c.Bool(), es)
		}},
		Harness{Name: "nils", Bound: "every kind of nil element, alone and in pairs", Body: func(c *Ctx) {
			n := nils()
			es := []element{n[c.Choose(len(n))]}
			if c.Bool() {
				es = append(es, n[c.Choose(len(n))])
			}
			if c.Bool() {
				es = append(es, elementOf(c, strCell("last", false), 0))
			}
			constructed(c, c.Bool(), c.Bool(), es)
		}},
		Harness{Name: "lists", Bound: "every list of up to 3 elements of 10 kinds in 3 forms, nils included, as slice and as map", Body: func(c *Ctx) {
			n := c.Choose(4)
			cells := []cell{strCell("s", false), strCell("", true), boolCell(false, false), intCell("int64", mIntT("int64", -9), true), floatCell("float64", 1.5, false), mapCell(mMap().set("x", mLit(false, 1)), true), mapCell(mMap(), false),
				arrCell(mArr(mNull()), true), arrCell(mArr(), false)}
			var es []element
			for i := 0; i < n; i++ {
				k := c.Choose(len(cells)*nForms + 2)
				if k < len(cells)*nForms {
					es = append(es, elementOf(c, cells[k/nForms], k%nForms))
				} else {
					es = append(es, nils()[k-len(cells)*nForms])
				}
			}
			constructed(c, c.Bool(), n%2 == 1, es)
		}},
		Harness{Name: "pairs", Bound: "every pair of cells of the small catalogue in every pair of forms", Body: func(c *Ctx) {
			cells := smallCatalog()
			x, y := cells[c.Choose(len(cells))], cells[c.Choose(len(cells))]
			constructed(c, c.Bool(), true, []element{elementOf(c, x, c.Choose(nForms)), elementOf(c, y, c.Choose(nForms))})
		}},
		Harness{Name: "sizes", Bound: "slices and maps of n mixed elements, n of the size sweep up to 1100 (thorough 5000)", Body: func(c *Ctx) {
			max := 1100
			if c.Thorough {
				max = 5000
			}
			sizes := sweep(max)
			n := sizes[c.Choose(len(sizes))]
			asMap := c.Bool()
			if asMap && n > 1100 {
				return
			}
			var es []element
			for i := 0; i < n; i++ {
				es = append(es, mixedElement(c, i))
			}
			constructed(c, asMap, n%2 == 0, es)
		}},
		Harness{Name: "strings", Bound: "every string of up to 3 of 12 nasty characters and 80 lookalikes, plain, by pointer and wrapped, as element, member and key", Body: func(c *Ctx) {
			var s string
			if c.Bool() {
				s = genString(c, nastySmall, 3)
			} else {
				s = lookalikes[c.Choose(len(lookalikes))]
			}
			ptr := c.Bool()
			form := c.Choose(nForms)
			x := strCell(s, ptr)
			if !plainOK(x, form) {
				return
			}
			e := elementOf(c, x, form)
			c.State(s, itoa(form))
			arrayOf(c, []element{e}, true)
			mapOf(c, []string{s, s + "2"}, []element{elementOf(c, x, form), elementOf(c, boolCell(true, false), 0)}, form == 1)
		}},
		Harness{Name: "numbers", Bound: "the values around every limit in every integer type and the floating-point points, plain and by pointer, in 3 forms", Body: func(c *Ctx) {
			t := numTypes[c.Choose(len(numTypes))]
			ptr := c.Bool()
			form := c.Choose(nForms)
			if t == "float32" || t == "float64" {
				pts := floatsOf(t)
				constructed(c, c.Bool(), false, []element{elementOf(c, floatCell(t, pts[c.Choose(len(pts))], ptr), form)})
				return
			}
			pts := intPoints()
			p := pts[c.Choose(len(pts))]
			if fits(t, p) {
				constructed(c, c.Bool(), false, []element{elementOf(c, intCell(t, p, ptr), form)})
			}
		}},
		Harness{Name: "absent-and-empty", Bound: "nil pointer, pointer to nil, empty collection, the parameterless constructors: an empty container which works, used in every history of 3 operations", Body: func(c *Ctx) {
			if c.Bool() {
				var m *json.Map
				switch c.Choose(6) {
				case 0:
					m = json.NewMapOfValues(nil)
				case 1:
					var g map[string]interface{}
					m = json.NewMapOfValues(&g)
				case 2:
					g := map[string]interface{}{}
					m = json.NewMapOfValues(&g)
					g["later"] = 1
				case 3:
					m = json.NewMap()
				case 4:
					x := json.NewMapValue()
					m = &x
				case 5:
					var g *map[string]interface{}
					m = json.NewMapOfValues(g)
				}
				w := mMap()
				dictionary(c, m, w)
				for i := 0; i < 3; i++ {
					mapStep(c, m, w, 2, 3)
				}
				c.State(w.String())
				dictionary(c, m, w)
				return
			}
			var a *json.Array
			switch c.Choose(6) {
			case 0:
				a = json.NewArrayOfValues(nil)
			case 1:
				var g []interface{}
				a = json.NewArrayOfValues(&g)
			case 2:
				g := make([]interface{}, 0, 10)
				a = json.NewArrayOfValues(&g)
				g = append(g, "later")
			case 3:
				a = json.NewArray()
			case 4:
				x := json.NewArrayValue()
				a = &x
			case 5:
				var g *[]interface{}
				a = json.NewArrayOfValues(g)
			}
			w := mArr()
			list(c, a, w)
			for i := 0; i < 3; i++ {
				arrStep(c, a, w, 5, []int{-1, 0, 1}, i)
			}
			c.State(w.String())
			list(c, a, w)
		}},
		Harness{Name: "histories", Bound: "containers constructed from 0 to 4 elements, then every history of 4 operations", Body: func(c *Ctx) {
			n := c.Choose(5)
			if c.Bool() {
				g := map[string]interface{}{}
				for i := 0; i < n; i++ {
					g[histKeys[i]] = []interface{}{"s", nil, true, int8(3)}[i]
				}
				m := json.NewMapOfValues(&g)
				w := mMap()
				for _, k := range m.GetKeys() {
					w.set(k, []*MV{mStr("s"), mNull(), mBool(true), mIntT("int8", 3)}[int(k[0]-'a')])
				}
				for i := 0; i < 4; i++ {
					mapStep(c, m, w, 3, 2)
				}
				dictionary(c, m, w)
				return
			}
			var l []interface{}
			w := mArr()
			for i := 0; i < n; i++ {
				l = append(l, []interface{}{"s", nil, true, int8(3)}[i])
				w.Vals = append(w.Vals, []*MV{mStr("s"), mNull(), mBool(true), mIntT("int8", 3)}[i])
			}
			a := json.NewArrayOfValues(&l)
			for i := 0; i < 4; i++ {
				arrStep(c, a, w, 2, []int{-1, 0, 2, 4}, i)
			}
			c.State(w.String())
			list(c, a, w)
			// the Go slice is as it was
			if len(l) != n {
				c.Failf("the given slice has %d elements afterwards, had %d", len(l), n)
			}
			for i := range l {
				if l[i] != []interface{}{"s", nil, true, int8(3)}[i] {
					c.Failf("element %d of the given slice became %v", i, l[i])
				}
			}
		}},
		Harness{Name: "twice", Bound: "two containers made from one Go collection of up to 3 plain scalars: edits of one never show in the other or in the collection", Body: func(c *Ctx) {
			cells := []cell{strCell("s", false), boolCell(true, false), intCell("int8", mIntT("int8", 3), false), nilCell()}
			n := 1 + c.Choose(3)
			l := []interface{}{}
			w := mArr()
			for i := 0; i < n; i++ {
				x := cells[c.Choose(len(cells))]
				l = append(l, x.obj())
				w.Vals = append(w.Vals, x.mv)
			}
			a, b := json.NewArrayOfValues(&l), json.NewArrayOfValues(&l)
			v := w.clone()
			if c.Bool() {
				arrStep(c, a, v, 3, []int{0, n - 1}, 0)
			} else {
				i := c.Choose(n)
				(*a.GetValues())[i].SetStringValue("set")
				v.Vals[i] = mStr("set")
			}
			c.State(v.String())
			list(c, a, v)
			list(c, b, w)
			list(c, json.NewArrayOfValues(&l), w)
		}},
		Harness{Name: "other-kinds", Bound: "times, errors, error lists and functions as elements and members in 3 forms: held under their index or key, readable, written", Body: func(c *Ctx) {
			subs := otherSubjects()
			s := subs[c.Choose(len(subs))]
			o := s.obj()
			switch c.Choose(nForms) {
			case 1:
				o = json.NewValue(o)
			case 2:
				o = json.NewValueValue(o)
			}
			want := json.NewValue(s.obj())
			var v *json.Value
			if c.Bool() {
				l := []interface{}{"first", o, errors.New("last")}
				a := json.NewArrayOfValues(&l)
				if a.Len() != 3 {
					c.Failf("array of 3 elements with %s has %d", s.name, a.Len())
				}
				v = (*a.GetValues())[1]
			} else {
				g := map[string]interface{}{"a": "first", "k": o, "z": errors.New("last")}
				m := json.NewMapOfValues(&g)
				if len(m.GetKeys()) != 3 || m.IsNull("k") || !m.HasKey("k") {
					c.Failf("map of 3 members with %s: keys %q", s.name, m.GetKeys())
				}
				v = m.GetValue("k")
			}
			c.State(s.name)
			if v == nil {
				c.Failf("%s is missing", s.name)
			}
			for _, r := range []string{"IsNil", "IsString", "IsMap", "IsArray", "GetType", "GetTime", "GetErrors"} {
				got, exp := read(c, v, r), read(c, want, r)
				if got.String() != exp.String() {
					c.Failf("%s of %s is %s, as a value it is %s", r, s.name, got, exp)
				}
			}
			x, e1 := plainText(v)
			y, e2 := plainText(want)
			if x != y || e1 != e2 {
				c.Failf("%s is written as %s, as a value it is %s", s.name, x, y)
			}
		}},
	)
}

func plainText(v *json.Value) (string, bool) {
	var b strings.Builder
	e := json.ConvertInterfaceValueToJSONStringValue(&b, v)
	return b.String(), len(e) > 0
}
