package main

import (
	"math"

	json "github.com/matehaxor03/holistic_json/json"
)

var histKeys = []string{"a", "b", "c", "d"}

// one set operation of a given kind on the real map and on the model
func mapSet(c *Ctx, m *json.Map, w *MV, k string, kind int) {
	c.Op(1)
	switch kind {
	case 0:
		c.Logf("SetStringValue(%q, s)", k)
		m.SetStringValue(k, "s")
		w.set(k, mStr("s"))
	case 1:
		c.Logf("SetInt64Value(%q, -5)", k)
		m.SetInt64Value(k, -5)
		w.set(k, mIntT("int64", -5))
	case 2:
		c.Logf("SetMap(%q, {x:1})", k)
		n := json.NewMap()
		n.SetUInt8Value("x", 1)
		m.SetMap(k, n)
		w.set(k, mMap().set("x", mUintT("uint8", 1)))
	case 3:
		c.Logf("SetNil(%q)", k)
		m.SetNil(k)
		w.set(k, mNull())
	case 4:
		c.Logf("SetArrayValue(%q, [])", k)
		m.SetArrayValue(k, json.NewArrayValue())
		w.set(k, mArr())
	case 5:
		c.Logf("SetValue(%q, true)", k)
		m.SetValue(k, json.NewValue(true))
		w.set(k, mBool(true))
	case 6:
		c.Logf("SetValue(%q, nil)", k)
		m.SetValue(k, nil)
		w.set(k, mNull())
	default:
		panic("kind")
	}
}

func mapRemove(c *Ctx, m *json.Map, w *MV, k string) {
	c.Op(1)
	ok, err := m.RemoveKey(k)
	had := w.del(k)
	c.Logf("RemoveKey(%q) = %v %v", k, ok, err)
	if had && (!ok || err != nil) {
		c.Failf("RemoveKey(%q) of a present key = %v, %v", k, ok, err)
	}
	if !had && (ok || err == nil) {
		c.Failf("RemoveKey(%q) of an absent key = %v, %v", k, ok, err)
	}
}

// mapStep performs one chosen operation over the first nk keys and nkind kinds of value.
func mapStep(c *Ctx, m *json.Map, w *MV, nk, nkind int) {
	k := histKeys[c.Choose(nk)]
	op := c.Choose(nkind + 1)
	if op < nkind {
		mapSet(c, m, w, k, op)
	} else {
		mapRemove(c, m, w, k)
	}
}

// dictionary checks the whole map against the model, including what is absent.
func dictionary(c *Ctx, m *json.Map, w *MV) {
	expectDoc(c, "map", m, w, 0)
	for _, k := range append([]string{"", "zz"}, histKeys...) {
		if w.idx(k) >= 0 {
			continue
		}
		c.Op(6)
		if m.HasKey(k) || m.GetValue(k) != nil || !m.IsNull(k) || m.IsMap(k) || m.IsString(k) || m.GetObjectForMap(k) != nil {
			c.Failf("absent key %q is reported as present", k)
		}
	}
	expectText(c, "map", m, w)
	if m.IsNil() {
		c.Failf("IsNil of a map is true")
	}
}

type keySnapshot struct {
	got  []string
	want []string
}

func snap(m *json.Map) keySnapshot {
	k := m.GetKeys()
	return keySnapshot{k, append([]string{}, k...)}
}

func (s keySnapshot) check(c *Ctx) {
	if len(s.got) != len(s.want) {
		c.Failf("an earlier key list changed its length")
	}
	for i := range s.got {
		if s.got[i] != s.want[i] {
			c.Failf("an earlier key list %q became %q", s.want, s.got)
		}
	}
}

// startMap gives maps with a past.
func startMap(c *Ctx, which int) (*json.Map, *MV) {
	switch which {
	case 0:
		return json.NewMap(), mMap()
	case 1:
		m := mustParse(c, `{"a":1,"b":{"x":"y"},"c":[1]}`)
		return m, mMap().set("a", mLit(false, 1)).set("b", mMap().set("x", mStr("y"))).set("c", mArr(mLit(false, 1)))
	case 2:
		g := map[string]interface{}{"b": "q"}
		return json.NewMapOfValues(&g), mMap().set("b", mStr("q"))
	case 3:
		m := mustParse(c, `{"c":null,"a":"s"}`)
		x, e := m.Clone()
		if e != nil {
			c.Failf("clone: %s", errOf(e))
		}
		return x, mMap().set("c", mNull()).set("a", mStr("s"))
	case 4:
		m := json.NewMapValue()
		return &m, mMap()
	case 5:
		m := json.NewMap()
		for _, k := range histKeys {
			m.SetStringValue(k, k)
		}
		w := mMap()
		for _, k := range histKeys {
			w.set(k, mStr(k))
		}
		for _, k := range histKeys {
			mapRemove(c, m, w, k)
		}
		return m, w
	}
	panic("start")
}

func init() {
	reg("C09",
		Harness{Name: "histories", Bound: "every history of up to 5 (thorough 6) operations: 3 keys, 4 kinds of store and removal, key snapshots after every step", Body: func(c *Ctx) {
			n := 5
			if c.Thorough {
				n = 6
			}
			n = 1 + c.Choose(n)
			m, w := json.NewMap(), mMap()
			var snaps []keySnapshot
			for i := 0; i < n; i++ {
				// the first operation is a set of the first key: other first steps are the same up to renaming or no-ops
				if i == 0 {
					mapSet(c, m, w, "a", c.Choose(2))
				} else {
					mapStep(c, m, w, min(i+1, 3), 3)
				}
				snaps = append(snaps, snap(m))
			}
			c.State(w.String())
			dictionary(c, m, w)
			for _, s := range snaps {
				s.check(c)
			}
		}},
		Harness{Name: "all-setters", Bound: "every history of 3 operations over 3 keys with 7 kinds of store and removal from 6 starting maps", Body: func(c *Ctx) {
			m, w := startMap(c, c.Choose(6))
			for i := 0; i < 3; i++ {
				mapStep(c, m, w, 3, 7)
			}
			c.State(w.String())
			dictionary(c, m, w)
		}},
		Harness{Name: "checked-every-step", Bound: "every history of 4 operations over 3 keys with 2 kinds of store and removal from 6 starting maps, everything observed after every step", Body: func(c *Ctx) {
			m, w := startMap(c, c.Choose(6))
			var snaps []keySnapshot
			for i := 0; i < 4; i++ {
				mapStep(c, m, w, 3, 2)
				dictionary(c, m, w)
				snaps = append(snaps, snap(m))
			}
			c.State(w.String())
			for _, s := range snaps {
				s.check(c)
			}
		}},
		Harness{Name: "deep-histories", Bound: "every history of 7 (thorough 8) operations over 3 keys: set or remove", Body: func(c *Ctx) {
			n := 7
			if c.Thorough {
				n = 8
			}
			m, w := json.NewMap(), mMap()
			mapSet(c, m, w, "a", 1)
			for i := 1; i < n; i++ {
				k := histKeys[c.Choose(min(i+1, 3))]
				if c.Bool() {
					mapSet(c, m, w, k, i%2)
				} else {
					mapRemove(c, m, w, k)
				}
			}
			c.State(w.String())
			dictionary(c, m, w)
		}},
		Harness{Name: "sizes", Bound: "maps of n members, n of the size sweep up to 130: each member removed, replaced, removed and put back; all removed in three orders", Body: func(c *Ctx) {
			sizes := sweep(130)
			n := sizes[c.Choose(len(sizes))]
			build := func() (*json.Map, *MV) {
				m, w := json.NewMap(), mMap()
				for i := 0; i < n; i++ {
					m.SetUInt32Value("k"+itoa(i), uint32(i))
					w.Keys, w.Vals = append(w.Keys, "k"+itoa(i)), append(w.Vals, mUintT("uint32", uint64(i)))
				}
				c.Op(n)
				return m, w
			}
			what := c.Choose(6)
			if what < 3 {
				for i := 0; i < n; i++ {
					if n > 40 && !c.Thorough && i > 3 && i < n-3 && i%16 > 1 {
						continue
					}
					m, w := build()
					s := snap(m)
					k := "k" + itoa(i)
					c.State(itoa(n), itoa(what), itoa(i))
					if what == 0 {
						mapSet(c, m, w, k, 0)
					} else {
						mapRemove(c, m, w, k)
						if what == 2 {
							mapSet(c, m, w, k, 2)
						}
					}
					dictionary(c, m, w)
					s.check(c)
				}
				return
			}
			m, w := build()
			c.State(itoa(n), itoa(what))
			for i := 0; i < n; i++ {
				switch what {
				case 3:
					mapRemove(c, m, w, "k"+itoa(i))
				case 4:
					mapRemove(c, m, w, "k"+itoa(n-1-i))
				case 5:
					mapRemove(c, m, w, "k"+itoa((i*7+3)%n))
					if n%7 == 0 {
						return
					}
				}
				if n < 40 || i%8 == 0 || i > n-4 {
					dictionary(c, m, w)
				}
			}
			for i := 0; i < n; i++ {
				mapSet(c, m, w, "k"+itoa(n-1-i), i%2)
			}
			dictionary(c, m, w)
		}},
		Harness{Name: "growth", Bound: "n insertions with a full observation and a key snapshot after each, n to 300 (thorough 1100), with one replacement in between", Body: func(c *Ctx) {
			n := 300
			if c.Thorough {
				n = 1100
			}
			at := []int{0, 1, 15, 16, 17, 31, 32, 63, 64, 127, 128, 255, 256, 299}[c.Choose(14)]
			m, w := json.NewMap(), mMap()
			for i := 0; i < n; i++ {
				k := "k" + itoa(i)
				m.SetUInt32Value(k, uint32(i))
				w.Keys, w.Vals = append(w.Keys, k), append(w.Vals, mUintT("uint32", uint64(i)))
				if i == at {
					mapSet(c, m, w, "k"+itoa(at/2), 0)
				}
				if i < 70 || i%32 < 2 || i == at {
					dictionary(c, m, w)
				}
			}
			mapRemove(c, m, w, "k"+itoa(at))
			dictionary(c, m, w)
			c.State(itoa(at))
		}},
		Harness{Name: "odd-keys", Bound: "every history of 3 operations over each pair of 80 unusual keys", Body: func(c *Ctx) {
			x := lookalikes[c.Choose(len(lookalikes))]
			y := []string{"a", "", "nil", " ", "A", "\x00", "k\"k", "map[]"}[c.Choose(8)]
			if x == y {
				return
			}
			m, w := json.NewMap(), mMap()
			for i := 0; i < 3; i++ {
				k := []string{x, y}[c.Choose(2)]
				if op := c.Choose(3); op < 2 {
					mapSet(c, m, w, k, op)
				} else {
					mapRemove(c, m, w, k)
				}
			}
			c.State(w.String())
			expectDoc(c, "map", m, w, 0)
			expectText(c, "map", m, w)
		}},
		Harness{Name: "key-lists", Bound: "key lists taken from maps of 0 to 40 members: altering, sorting or extending them never shows in the map, and no operation alters them", Body: func(c *Ctx) {
			n := c.Choose(41)
			m, w := json.NewMap(), mMap()
			for i := 0; i < n; i++ {
				mapSet(c, m, w, "k"+itoa(i), i%3)
			}
			ks := m.GetKeys()
			switch c.Choose(4) {
			case 0:
				for i := range ks {
					ks[i] = "changed"
				}
			case 1:
				ks = append(ks, "x")
				ks = append(ks[:0], ks...)
				if len(ks) > 1 {
					ks = append(ks[:1], ks[2:]...)
				}
			case 2:
				for i, j := 0, len(ks)-1; i < j; i, j = i+1, j-1 {
					ks[i], ks[j] = ks[j], ks[i]
				}
			case 3:
				s := snap(m)
				mapSet(c, m, w, "new", 0)
				s.check(c)
				t := snap(m)
				mapRemove(c, m, w, "new")
				if n > 0 {
					mapRemove(c, m, w, "k0")
					mapSet(c, m, w, "k0", 0)
				}
				s.check(c)
				t.check(c)
			}
			c.State(itoa(n))
			dictionary(c, m, w)
			mapSet(c, m, w, "after", 0)
			dictionary(c, m, w)
		}},
		Harness{Name: "two-maps", Bound: "every history of 5 operations alternating freely between two maps with the same keys", Body: func(c *Ctx) {
			m1, w1 := json.NewMap(), mMap()
			m2, w2 := json.NewMap(), mMap()
			for i := 0; i < 5; i++ {
				m, w := m1, w1
				if c.Bool() {
					m, w = m2, w2
				}
				mapStep(c, m, w, 2, 1)
			}
			c.State(w1.String(), w2.String())
			dictionary(c, m1, w1)
			dictionary(c, m2, w2)
		}},
	)

	reg("C10",
		Harness{Name: "histories", Bound: "every history of up to 5 (thorough 6) of: append of 3 kinds, replacement at -1, 0, 1, 2, 3, removal at -1, 0, 1, 2, 3", Body: func(c *Ctx) {
			n := 5
			if c.Thorough {
				n = 6
			}
			n = 1 + c.Choose(n)
			a, w := json.NewArray(), mArr()
			for i := 0; i < n; i++ {
				arrStep(c, a, w, 3, []int{-1, 0, 1, 2, 3}, i)
			}
			c.State(w.String())
			list(c, a, w)
		}},
		Harness{Name: "all-appends", Bound: "every history of 3 operations over 8 kinds of append, replacement and removal at 7 indexes from 5 starting arrays, observed after every step", Body: func(c *Ctx) {
			a, w := startArr(c, c.Choose(5))
			for i := 0; i < 3; i++ {
				arrStep(c, a, w, 8, []int{-1, 0, 1, 2, 3, math.MaxInt, math.MinInt}, i)
				list(c, a, w)
			}
			c.State(w.String())
		}},
		Harness{Name: "sizes", Bound: "arrays of n elements, n of the size sweep up to 130: removal and replacement at each index and at every index near the ends outside", Body: func(c *Ctx) {
			sizes := sweep(130)
			n := sizes[c.Choose(len(sizes))]
			what := c.Choose(2)
			var idx []int
			for i := -2; i <= n+2; i++ {
				if n > 40 && !c.Thorough && i > 3 && i < n-3 && i%16 > 1 {
					continue
				}
				idx = append(idx, i)
			}
			idx = append(idx, 1<<31, -1<<31, math.MaxInt, math.MinInt, -n, 2*n+1, 1<<32, 1<<32+n)
			for _, i := range idx {
				a, w := filled(n)
				c.Op(n)
				c.State(itoa(n), itoa(what), itoa(i))
				if what == 0 {
					arrRemove(c, a, w, i)
				} else {
					arrSetAt(c, a, w, i, n)
				}
				list(c, a, w)
				arrAppend(c, a, w, 0)
				list(c, a, w)
			}
		}},
		Harness{Name: "drain-and-refill", Bound: "arrays of n elements emptied from the front, the back or the middle and refilled, n of the size sweep up to 70 and 128, 256", Body: func(c *Ctx) {
			sizes := append(sweep(70), 127, 128, 129, 255, 256, 257)
			n := sizes[c.Choose(len(sizes))]
			how := c.Choose(3)
			a, w := filled(n)
			for len(w.Vals) > 0 {
				i := []int{0, len(w.Vals) - 1, len(w.Vals) / 2}[how]
				arrRemove(c, a, w, i)
				if n < 70 || len(w.Vals)%16 == 0 {
					list(c, a, w)
				}
			}
			arrRemove(c, a, w, 0)
			for i := 0; i < n; i++ {
				arrAppend(c, a, w, i%5)
			}
			c.State(itoa(n), itoa(how))
			list(c, a, w)
		}},
		Harness{Name: "indexed-reads", Bound: "reads by index at every index from -3 to n+3 and at the extremes for arrays of up to 20 mixed elements", Body: func(c *Ctx) {
			n := c.Choose(21)
			shift := c.Choose(len(leavesFull))
			w := mArr()
			for i := 0; i < n; i++ {
				w.Vals = append(w.Vals, cycleLeaf(i+shift))
			}
			a := buildArr(w)
			c.State(itoa(n), itoa(shift))
			idx := []int{math.MaxInt, math.MinInt, 1 << 31, -1 << 31, 1 << 32}
			for i := -3; i <= n+3; i++ {
				idx = append(idx, i)
			}
			for _, i := range idx {
				c.Op(2)
				s, e := a.GetStringValue(i)
				m, e2 := a.GetMap(i)
				if i < 0 || i >= n {
					if e == nil || s != "" || e2 == nil || m != nil {
						c.Failf("index %d of %d elements: no error", i, n)
					}
					continue
				}
				x := w.Vals[i]
				if (x.K == 's') != (e == nil) || s != x.S {
					c.Failf("GetStringValue(%d) = %q %s of %s", i, s, errOf(e), x)
				}
				if x.K == 'm' && (e2 != nil || m == nil || len(m.GetKeys()) != len(x.Keys)) {
					c.Failf("GetMap(%d) %s of %s", i, errOf(e2), x)
				}
				if x.K != 'm' && (m != nil || x.K != 'n' && e2 == nil) {
					c.Failf("GetMap(%d) of %s: %v", i, x, errOf(e2))
				}
			}
			list(c, a, w)
		}},
		Harness{Name: "two-arrays", Bound: "every history of 5 operations alternating freely between two arrays, one of them a clone in half the cases", Body: func(c *Ctx) {
			a, w := filled(2)
			b, v := json.NewArray(), mArr()
			if c.Bool() {
				x, e := a.Clone()
				if e != nil {
					c.Failf("clone: %s", errOf(e))
				}
				b, v = x, w.clone()
			}
			for i := 0; i < 5; i++ {
				x, m := a, w
				if c.Bool() {
					x, m = b, v
				}
				switch c.Choose(3) {
				case 0:
					arrAppend(c, x, m, i%3)
				case 1:
					arrSetAt(c, x, m, 1, i)
				case 2:
					arrRemove(c, x, m, 0)
				}
			}
			c.State(w.String(), v.String())
			list(c, a, w)
			list(c, b, v)
		}},
	)
}

func filled(n int) (*json.Array, *MV) {
	a, w := json.NewArray(), mArr()
	for i := 0; i < n; i++ {
		a.AppendUInt32Value(uint32(i))
		w.Vals = append(w.Vals, mUintT("uint32", uint64(i)))
	}
	return a, w
}

func startArr(c *Ctx, which int) (*json.Array, *MV) {
	switch which {
	case 0:
		return json.NewArray(), mArr()
	case 1:
		m := mustParse(c, `{"a":[1,"s",{"x":null}]}`)
		a, e := m.GetArray("a")
		if e != nil || a == nil {
			c.Failf("no array")
		}
		return a, mArr(mLit(false, 1), mStr("s"), mMap().set("x", mNull()))
	case 2:
		l := []interface{}{"p", nil, true}
		return json.NewArrayOfValues(&l), mArr(mStr("p"), mNull(), mBool(true))
	case 3:
		a, w := filled(3)
		x, e := a.Clone()
		if e != nil {
			c.Failf("clone: %s", errOf(e))
		}
		return x, w
	case 4:
		a, w := filled(4)
		for len(w.Vals) > 0 {
			arrRemove(c, a, w, len(w.Vals)-1)
		}
		v, e := a.GetArrayValue()
		if e != nil {
			c.Failf("GetArrayValue: %s", errOf(e))
		}
		return &v, w
	}
	panic("start")
}

func arrAppend(c *Ctx, a *json.Array, w *MV, kind int) {
	c.Op(1)
	c.Logf("append kind %d", kind)
	var v *MV
	switch kind {
	case 0:
		a.AppendStringValue("s")
		v = mStr("s")
	case 1:
		a.AppendInt16Value(-7)
		v = mIntT("int16", -7)
	case 2:
		a.AppendNil()
		v = mNull()
	case 3:
		m := json.NewMap()
		m.SetStringValue("x", "y")
		a.AppendMap(m)
		v = mMap().set("x", mStr("y"))
	case 4:
		b := json.NewArrayValue()
		b.AppendBoolValue(true)
		a.AppendArrayValue(b)
		v = mArr(mBool(true))
	case 5:
		a.AppendValue(json.NewValue(1.5))
		v = mF64(1.5)
	case 6:
		a.AppendValueValue(json.NewValueValue(false))
		v = mBool(false)
	case 7:
		a.AppendValue(nil)
		v = mNull()
	}
	w.Vals = append(append([]*MV{}, w.Vals...), v)
}

func arrSetAt(c *Ctx, a *json.Array, w *MV, i, tag int) {
	c.Op(1)
	var v *json.Value
	var x *MV
	switch tag % 3 {
	case 0:
		v, x = json.NewValue("r"), mStr("r")
	case 1:
		v, x = json.NewValue(nil), mNull()
	case 2:
		v, x = json.NewValue(json.NewMap()), mMap()
	}
	ok, err := a.SetValueAtIndex(i, v)
	c.Logf("SetValueAtIndex(%d, %s) = %v %v", i, x, ok, err)
	in := i >= 0 && i < len(w.Vals)
	if in != ok || in != (err == nil) {
		c.Failf("SetValueAtIndex(%d) with %d elements = %v, %v", i, len(w.Vals), ok, err)
	}
	if in {
		w.Vals = append([]*MV{}, w.Vals...)
		w.Vals[i] = x
	}
}

func arrRemove(c *Ctx, a *json.Array, w *MV, i int) {
	c.Op(1)
	ok, err := a.RemoveValueAtIndex(i)
	c.Logf("RemoveValueAtIndex(%d) = %v %v", i, ok, err)
	in := i >= 0 && i < len(w.Vals)
	if in != ok || in != (err == nil) {
		c.Failf("RemoveValueAtIndex(%d) with %d elements = %v, %v", i, len(w.Vals), ok, err)
	}
	if in {
		w.delAt(i)
	}
}

func arrStep(c *Ctx, a *json.Array, w *MV, kinds int, idx []int, tag int) {
	k := c.Choose(kinds + 2*len(idx))
	switch {
	case k < kinds:
		arrAppend(c, a, w, k)
	case k < kinds+len(idx):
		arrSetAt(c, a, w, idx[k-kinds], tag)
	default:
		arrRemove(c, a, w, idx[k-kinds-len(idx)])
	}
}

// list checks the whole array against the model.
func list(c *Ctx, a *json.Array, w *MV) {
	if s := checkArr(c, "", a, w, 0); s != "" {
		c.Failf("array: %s", s)
	}
	expectArrText(c, "array", a, w)
	// bulk getters: strings in pointer form, element by element or an error
	var want []*string
	ok := true
	for _, v := range w.Vals {
		switch v.K {
		case 's':
			s := v.S
			want = append(want, &s)
		case 'n':
			want = append(want, nil)
		default:
			ok = false
		}
	}
	c.Op(2)
	got, e := a.GetArrayOfString()
	if ok != (e == nil) {
		c.Failf("GetArrayOfString of %s: %s", w, errOf(e))
	}
	if ok {
		n := 0
		if got != nil {
			n = len(*got)
		}
		if n != len(want) {
			c.Failf("GetArrayOfString of %s has %d entries", w, n)
		}
		for i := range want {
			g := (*got)[i]
			if (g == nil) != (want[i] == nil) || g != nil && *g != *want[i] {
				c.Failf("GetArrayOfString[%d] of %s is wrong", i, w)
			}
		}
	}
	v, e := a.GetArrayValue()
	if e != nil || v.Len() != len(w.Vals) {
		c.Failf("GetArrayValue().Len() = %d, want %d", v.Len(), len(w.Vals))
	}
}
