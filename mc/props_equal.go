package main

import (
	"strings"

	json "github.com/matehaxor03/holistic_json/json"
)

// fillEqual stores x in n slots of a new list or map by one of several ways; the objects are fresh or, when shared,
// one and the same Go object. It gives the handles of the slots.
func fillEqual(c *Ctx, x cell, n, way int, shared bool) (*json.Array, *json.Map, []*json.Value, bool) {
	if shared {
		if x.typ == "json.Map" || x.typ == "json.Array" {
			return nil, nil, nil, false // containers are shared on purpose
		}
		o := x.obj()
		x.obj = func() interface{} { return o }
	}
	switch way {
	case 0, 1, 2, 3:
		a := json.NewArray()
		for i := 0; i < n; i++ {
			switch way {
			case 0:
				if !hasSetter(tArray, "Append", x) {
					return nil, nil, nil, false
				}
				typedStore(c, a, "Append", x)
			case 1:
				a.AppendValue(json.NewValue(x.obj()))
			case 2:
				a.AppendValueValue(json.NewValueValue(x.obj()))
			case 3:
				a.AppendStringValue("old")
				a.SetValueAtIndex(i, json.NewValue(x.obj()))
			}
		}
		return a, nil, append([]*json.Value{}, *a.GetValues()...), true
	case 4:
		l := make([]interface{}, n)
		for i := range l {
			l[i] = x.obj()
		}
		a := json.NewArrayOfValues(&l)
		return a, nil, append([]*json.Value{}, *a.GetValues()...), true
	case 5, 6, 7:
		m := json.NewMap()
		var hs []*json.Value
		for i := 0; i < n; i++ {
			k := "k" + itoa(i)
			switch way {
			case 5:
				if !hasSetter(tMap, "Set", x) {
					return nil, nil, nil, false
				}
				typedStore(c, m, "Set", x, k)
			case 6:
				m.SetObjectForMap(k, x.obj())
			case 7:
				m.SetStringValue(k, "old")
				m.SetValue(k, json.NewValue(x.obj()))
			}
		}
		for i := 0; i < n; i++ {
			hs = append(hs, m.GetValue("k"+itoa(i)))
		}
		return nil, m, hs, true
	case 8:
		m := json.NewMap()
		var hs []*json.Value
		for i := 0; i < n; i++ {
			k := "k" + itoa(i)
			m.SetStringValue(k, "old")
			if x.mv.K == 'n' || !hasSetter(tValue, "Set", x) {
				m.GetValue(k).SetObject(x.obj())
			} else {
				typedStore(c, m.GetValue(k), "Set", x)
			}
			hs = append(hs, m.GetValue(k))
		}
		return nil, m, hs, true
	}
	panic("way")
}

func equalStores(c *Ctx) {
	cat := smallCatalog()
	x := cat[c.Choose(len(cat))]
	way := c.Choose(9)
	shared := c.Bool()
	n := []int{2, 3, 5}[c.Choose(3)]
	for to := 0; to < len(cat); to++ {
		if !c.Thorough && n != 3 && to%4 != 0 {
			continue
		}
		for i := 0; i < n; i++ {
			a, m, hs, ok := fillEqual(c, x, n, way, shared)
			if !ok {
				return
			}
			if hs[i] == nil {
				continue
			}
			y := cat[to]
			setValueTo(c, hs[i], y)
			c.State(x.name, y.name, itoa(way), itoa(n), itoa(i))
			what := x.name + " set to " + y.name + " at " + itoa(i) + " of " + itoa(n)
			if a != nil {
				w := mArr()
				for j := 0; j < n; j++ {
					w.Vals = append(w.Vals, x.mv)
				}
				w.Vals[i] = y.mv
				if d := checkArr(c, "", a, w, 1); d != "" {
					c.Failf("%s: %s", what, d)
				}
				expectArrText(c, what, a, w)
			} else {
				w := mMap()
				for j := 0; j < n; j++ {
					w.set("k"+itoa(j), x.mv)
				}
				w.Vals[i] = y.mv
				expectDoc(c, what, m, w, 1)
				expectText(c, what, m, w)
			}
		}
	}
}

func init() {
	const b = "every kind and form of object stored 2, 3 or 5 times in one list or map in 9 ways, as fresh or one shared Go object, then each slot set to every kind through its value: nothing else changes"
	reg("C12", Harness{Name: "equal-stores", Bound: b, Body: equalStores})
	reg("C18", Harness{Name: "equal-stores", Bound: b, Body: equalStores})
	reg("C10", Harness{Name: "nil-values", Bound: "lists of 0 to 6 elements, a *Value of nil put at every index from -1 to n, appended, removed and replaced again, every history of 3 such operations", Body: func(c *Ctx) {
		n := c.Choose(7)
		a, w := filled(n)
		for s := 0; s < 3; s++ {
			n := len(w.Vals)
			switch k := c.Choose(2*n + 5); {
			case k < n+2:
				i := k - 1
				ok, err := a.SetValueAtIndex(i, nil)
				c.Logf("SetValueAtIndex(%d, nil) = %v %v", i, ok, err)
				in := i >= 0 && i < n
				if ok != in || (err == nil) != in {
					c.Failf("SetValueAtIndex(%d, nil) with %d elements = %v, %v", i, n, ok, err)
				}
				if in {
					w.Vals = append([]*MV{}, w.Vals...)
					w.Vals[i] = mNull()
				}
			case k == n+2:
				arrAppend(c, a, w, 7)
			case k == n+3:
				arrAppend(c, a, w, 0)
			default:
				arrRemove(c, a, w, k-n-4)
			}
			list(c, a, w)
		}
		c.State(w.String())
	}})
	reg("C09", Harness{Name: "larger", Bound: "maps of 1100 to 8193 (thorough 16385) members: members removed, replaced, removed and put back at both ends, in the middle and around each power of two", Body: func(c *Ctx) {
		sizes := []int{1100, 1500, 2049, 4097, 5001, 8193}
		if c.Thorough {
			sizes = append(sizes, 2000, 2047, 2048, 3000, 4095, 4096, 8191, 8192, 10001, 16384, 16385)
		}
		n := sizes[c.Choose(len(sizes))]
		what := c.Choose(4)
		m, w := json.NewMap(), mMap()
		for i := 0; i < n; i++ {
			m.SetUInt32Value("k"+itoa(i), uint32(i))
			w.Keys, w.Vals = append(w.Keys, "k"+itoa(i)), append(w.Vals, mUintT("uint32", uint64(i)))
		}
		c.Op(n)
		c.State(itoa(n), itoa(what))
		s := snap(m)
		for _, i := range []int{n - 1, 0, n / 2, n - 2, 255, 256, 500, 1000, 1023, 1024, 1025, 2000, 2047, 2048, 4095, 4096, 5000, 8191, 8192, 16384, n} {
			k := "k" + itoa(i)
			switch what {
			case 0:
				mapRemove(c, m, w, k)
			case 1:
				mapSet(c, m, w, k, i%3)
			case 2:
				mapRemove(c, m, w, k)
				mapSet(c, m, w, k, 1)
			case 3:
				mapSet(c, m, w, k, 3)
				mapRemove(c, m, w, k)
				mapRemove(c, m, w, k)
			}
			if m.HasKey(k) != (w.idx(k) >= 0) || len(m.GetKeys()) != len(w.Keys) {
				c.Failf("after the change of %q: %d keys, want %d", k, len(m.GetKeys()), len(w.Keys))
			}
		}
		dictionary(c, m, w)
		s.check(c)
	}})
	reg("C11", Harness{Name: "long-strings", Bound: "strings of 1 to 70000 bytes at 24 lengths held by pointer or plain, as key too, cloned through the value, a map and an array, then the Go variable changed", Body: func(c *Ctx) {
		ls := []int{1, 15, 16, 17, 31, 32, 33, 63, 64, 65, 100, 127, 128, 129, 255, 256, 257, 1000, 1001, 1025, 4097, 10001, 65537, 70000}
		n := ls[c.Choose(len(ls))]
		how := c.Choose(3)
		ptr := c.Bool()
		t := strings.Repeat("é", n/2) + strings.Repeat("x", n%2)
		y := t
		var v *json.Value
		if ptr {
			v = json.NewValue(&y)
		} else {
			v = json.NewValue(y)
		}
		m, a := json.NewMap(), json.NewArray()
		m.SetValue(t, v)
		a.AppendValue(v)
		c.State(itoa(n), itoa(how))
		var x *json.Value
		switch how {
		case 0:
			x = cloneVal(c, v)
		case 1:
			x = cloneMap(c, m).GetValue(t)
		case 2:
			x = (*cloneArr(c, a).GetValues())[0]
		}
		if x == nil {
			c.Failf("the clone has no value")
		}
		check := func(when string, v *json.Value, want string) {
			p, e := v.GetString()
			g, e2 := v.GetStringValue()
			if e != nil || e2 != nil || p == nil || *p != want || g != want {
				c.Failf("%s a string of %d bytes is another: %s", when, n, errOf(e))
			}
		}
		check("in the clone", x, t)
		y = "changed"
		check("after the original's Go variable changed, in the clone", x, t)
		p, _ := x.GetString()
		if p != nil {
			*p = "changed too"
		}
		if !ptr {
			check("after writing through the clone's pointer, in the original", v, t)
		}
		x.SetStringValue("other")
		v2 := "third"
		v.SetString(&v2)
		check("in the clone", x, "other")
		check("in the original", v, "third")
	}})
}
