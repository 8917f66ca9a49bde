package main

import (
	"reflect"
	"strings"

	json "github.com/matehaxor03/holistic_json/json"
)

// ---- values written through the pointer a getter gives ----

func invoke(target interface{}, name string, args ...interface{}) []reflect.Value {
	f := reflect.ValueOf(target).Elem().FieldByName(name)
	if !f.IsValid() || f.IsNil() {
		panic(violation{"there is no operation " + name})
	}
	in := make([]reflect.Value, len(args))
	for i, a := range args {
		in[i] = reflect.ValueOf(a)
	}
	return f.Call(in)
}

func plainOf(x cell) interface{} {
	v := reflect.ValueOf(x.obj())
	if v.Kind() == reflect.Ptr {
		v = v.Elem()
	}
	return v.Interface()
}

func pointerTo(o interface{}) interface{} {
	p := reflect.New(reflect.TypeOf(o))
	p.Elem().Set(reflect.ValueOf(o))
	return p.Interface()
}

// pointed: scalars, and what is written over them.
func pointed() (out []cell, next []cell) {
	add := func(x, y cell) { out, next = append(out, x), append(next, y) }
	for _, s := range []string{"", "x", "red", "true", "12", "nine char", strings.Repeat("s", 16), strings.Repeat("s", 17), strings.Repeat("é", 20), strings.Repeat("t", 200)} {
		add(strCell(s, true), strCell("written", true))
	}
	for _, b := range []bool{true, false} {
		add(boolCell(b, true), boolCell(!b, true))
	}
	for _, t := range intTypes {
		for _, n := range []uint64{0, 1, 7, 100} {
			add(intCell(t, mUintT(t, n), true), intCell(t, mUintT(t, n+1), true))
		}
	}
	for _, t := range []string{"float32", "float64"} {
		add(floatCell(t, 0, true), floatCell(t, 0.5, true))
		add(floatCell(t, 1.5, true), floatCell(t, 2.5, true))
	}
	return
}

const nSpots = 5

// spotted: the model with x at five spots.
func spotted(at [nSpots]*MV) *MV {
	return mMap().set("a", at[0]).set("b", at[1]).set("l", mArr(at[2], at[3])).set("n", mMap().set("x", at[4]))
}

const nSpotRoutes = 7

func spotDoc(c *Ctx, x cell, route int) *json.Map {
	o := plainOf(x)
	t := methodName(x.typ)
	c.Op(6)
	m, n, l := json.NewMap(), json.NewMap(), json.NewArray()
	switch route {
	case 0:
		return mustParse(c, spotted([nSpots]*MV{x.mv, x.mv, x.mv, x.mv, x.mv}).text())
	case 1, 6:
		invoke(m, "Set"+t+"Value", "a", o)
		invoke(m, "Set"+t+"Value", "b", o)
		invoke(l, "Append"+t+"Value", o)
		invoke(l, "Append"+t+"Value", o)
		invoke(n, "Set"+t+"Value", "x", o)
	case 2:
		invoke(m, "Set"+t, "a", pointerTo(o))
		invoke(m, "Set"+t, "b", pointerTo(o))
		invoke(l, "Append"+t, pointerTo(o))
		invoke(l, "Append"+t, pointerTo(o))
		invoke(n, "Set"+t, "x", pointerTo(o))
	case 3:
		m.SetObjectForMap("a", o)
		m.SetValue("b", json.NewValue(o))
		l.AppendValue(json.NewValue(o))
		l.AppendValueValue(json.NewValueValue(o))
		n.SetObjectForMap("x", o)
	case 4:
		g := map[string]interface{}{"x": o}
		n = json.NewMapOfValues(&g)
		h := []interface{}{o, o}
		l = json.NewArrayOfValues(&h)
		m.SetObjectForMap("a", o)
		m.SetObjectForMap("b", o)
	case 5:
		for _, k := range []string{"a", "b"} {
			m.SetNil(k)
			invoke(m.GetValue(k), "Set"+t+"Value", o)
			l.AppendNil()
		}
		for _, v := range *l.GetValues() {
			invoke(v, "Set"+t, pointerTo(o))
		}
		n.SetStringValue("x", "before")
		invoke(n.GetValue("x"), "Set"+t+"Value", o)
	}
	m.SetArray("l", l)
	m.SetMap("n", n)
	if route == 6 {
		return cloneMap(c, m)
	}
	return m
}

func spot(c *Ctx, m *json.Map, p int) *json.Value {
	c.Op(1)
	if p < 2 {
		return m.GetValue([]string{"a", "b"}[p])
	}
	if p < 4 {
		l, _ := m.GetArray("l")
		if l == nil || l.Len() != 2 {
			c.Failf("the list has gone")
		}
		return (*l.GetValues())[p-2]
	}
	n, _ := m.GetMap("n")
	if n == nil {
		c.Failf("the map has gone")
	}
	return n.GetValue("x")
}

// throughPointer writes y over spot p through the pointer a getter gives; false: no such getter for the spot.
func throughPointer(c *Ctx, m *json.Map, p, way int, x, y cell) bool {
	t := methodName(x.typ)
	var o outcome
	switch way {
	case 0:
		o = read(c, spot(c, m, p), "Get"+t)
	case 1:
		switch {
		case p < 2:
			o = read(c, m, "Get"+t, []string{"a", "b"}[p])
		case p < 4:
			l, _ := m.GetArray("l")
			o = read(c, l, "GetArrayOf"+t)
		default:
			n, _ := m.GetMap("n")
			o = read(c, n, "Get"+t, "x")
		}
	case 2:
		if p < 2 || p == 4 || !has(tMap, "GetArrayOf"+t) {
			return false
		}
		o = read(c, m, "GetArrayOf"+t, "l")
	}
	if o.err || o.null {
		c.Failf("spot %d of %s cannot be read", p, x.name)
	}
	v := o.val
	if v.Kind() == reflect.Slice {
		v = v.Index(p - 2).Elem()
	}
	if v.CanSet() {
		v.Set(reflect.ValueOf(plainOf(y)))
	}
	c.Logf("write %s over spot %d (way %d)", y.mv, p, way)
	return true
}

func pointerWrites(c *Ctx) {
	xs, ys := pointed()
	i := c.Choose(len(xs))
	x, y := xs[i], ys[i]
	r1, r2 := c.Choose(nSpotRoutes), c.Choose(nSpotRoutes)
	p, way := c.Choose(nSpots), c.Choose(3)
	c.Logf("%s, first document by route %d, second by route %d", x.name, r1, r2)
	d1, d2 := spotDoc(c, x, r1), spotDoc(c, x, r2)
	all := func(z int, v *MV) *MV {
		at := [nSpots]*MV{}
		for j := range at {
			at[j] = x.mv
		}
		if z >= 0 {
			at[z] = v
		}
		return spotted(at)
	}
	expectText(c, "first document", d1, all(-1, nil))
	if !throughPointer(c, d1, p, way, x, y) {
		return
	}
	c.State(x.name, itoa(r1), itoa(r2), itoa(p), itoa(way))
	// whether a scalar's pointer is live is not claimed
	now := x.mv
	if checkVal(c, "", spot(c, d1, p), y.mv, 0) == "" || asText(c, spot(c, d1, p)) == asTextOf(y) {
		now = y.mv
	}
	expectText(c, "first document, written through the pointer of spot "+itoa(p), d1, all(p, now))
	expectText(c, "second document", d2, all(-1, nil))
	expectText(c, "a document made later", spotDoc(c, x, r2), all(-1, nil))
	expectText(c, "another document made later", spotDoc(c, x, r1), all(-1, nil))
}

func asText(c *Ctx, v *json.Value) string {
	var b strings.Builder
	c.Op(1)
	json.ConvertInterfaceValueToJSONStringValue(&b, v)
	return b.String()
}

func asTextOf(x cell) string {
	var b strings.Builder
	json.ConvertInterfaceValueToJSONStringValue(&b, json.NewValue(plainOf(x)))
	return b.String()
}

// sharedPointer: one Go pointer stored at two spots; storing again at one of them leaves the other and the variable alone.
func sharedPointer(c *Ctx) {
	xs, _ := pointed()
	x := xs[c.Choose(len(xs))]
	o := plainOf(x)
	t := methodName(x.typ)
	p := pointerTo(o)
	stores := smallCatalog()
	y := stores[c.Choose(len(stores))]
	first, second, how := c.Choose(3), c.Choose(3), c.Choose(4)
	put := func(which int) (*json.Map, func() *json.Value) {
		m := json.NewMap()
		switch which {
		case 0:
			invoke(m, "Set"+t, "k", p)
			return m, func() *json.Value { return m.GetValue("k") }
		case 1:
			l := json.NewArray()
			invoke(l, "Append"+t, p)
			m.SetArray("k", l)
			return m, func() *json.Value { return (*l.GetValues())[0] }
		}
		v := json.NewValue("before")
		invoke(v, "Set"+t, p)
		m.SetValue("k", v)
		return m, func() *json.Value { return m.GetValue("k") }
	}
	c.Op(2)
	m1, at1 := put(first)
	m2, at2 := put(second)
	if how == 3 {
		m2 = cloneMap(c, m1)
		at2 = func() *json.Value {
			v := m2.GetValue("k")
			if first == 1 {
				l, _ := v.GetArray()
				v = (*l.GetValues())[0]
			}
			return v
		}
	}
	c.State(x.name, y.name, itoa(first), itoa(second), itoa(how))
	c.Logf("%s stored twice by one pointer (%d, %d), then %s over the first (%d)", x.name, first, second, y.name, how)
	switch {
	case how == 1 && first != 1:
		m1.SetObjectForMap("k", y.obj())
	case how == 2 && first != 1 && y.mv.K != 'n' && y.mv.K != 'm' && y.mv.K != 'a':
		invoke(m1, "Set"+methodName(y.typ)+"Value", "k", plainOf(y))
	default:
		setValueTo(c, at1(), y)
	}
	if d := checkVal(c, "the first", at1(), y.mv, 0); d != "" {
		c.Failf("%s", d)
	}
	if d := checkVal(c, "the second", at2(), x.mv, 1); d != "" {
		c.Failf("after the first was set to %s: %s", y.name, d)
	}
	if !reflect.DeepEqual(reflect.ValueOf(p).Elem().Interface(), o) {
		c.Failf("the caller's variable has changed to %v", reflect.ValueOf(p).Elem().Interface())
	}
}

func init() {
	ptrBound := "56 scalars at 5 spots each of two documents, made by each of 7 routes: another value written over one spot through the pointer each getter gives; every other spot, the other document and documents made later stay"
	reg("C18", Harness{Name: "pointer-writes", Bound: ptrBound, Body: pointerWrites},
		Harness{Name: "shared-pointers", Bound: "56 scalars stored at two spots (map, array, value or a clone) by one pointer, then one of 45 objects stored over the first in up to 3 ways: the second spot and the caller's variable stay", Body: sharedPointer})
	reg("C19", Harness{Name: "pointer-writes", Bound: ptrBound, Body: pointerWrites})
	reg("C12", Harness{Name: "shared-pointers", Bound: "56 scalars stored at two spots (map, array, value or a clone) by one pointer, then one of 45 objects stored over the first in up to 3 ways: the second spot and the caller's variable stay", Body: sharedPointer})
}
