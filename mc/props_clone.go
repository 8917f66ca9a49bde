package main

import (
	"errors"
	"reflect"
	"strings"
	"time"

	json "github.com/matehaxor03/holistic_json/json"
)

func cloneMap(c *Ctx, m *json.Map) *json.Map {
	c.Op(1)
	x, e := m.Clone()
	if e != nil || x == nil {
		c.Failf("map cannot be cloned: %s", errOf(e))
	}
	return x
}

func cloneArr(c *Ctx, a *json.Array) *json.Array {
	c.Op(1)
	x, e := a.Clone()
	if e != nil || x == nil {
		c.Failf("array cannot be cloned: %s", errOf(e))
	}
	return x
}

func cloneVal(c *Ctx, v *json.Value) *json.Value {
	c.Op(1)
	x, e := v.Clone()
	if e != nil || x == nil {
		c.Failf("value cannot be cloned: %s", errOf(e))
	}
	return x
}

// ---- sites: every node of a tree, addressed by child positions from the root map ----

func sitesOf(w *MV) [][]int {
	out := [][]int{{}}
	for i, v := range w.Vals {
		for _, s := range sitesOf(v) {
			out = append(out, append([]int{i}, s...))
		}
	}
	return out
}

func at(w *MV, path []int) *MV {
	for _, i := range path {
		w = w.Vals[i]
	}
	return w
}

// valueAt finds the value (nil for the root), and the container it is, in the real document.
func valueAt(c *Ctx, m *json.Map, path []int) (*json.Value, *json.Map, *json.Array) {
	var v *json.Value
	var a *json.Array
	for _, i := range path {
		c.Op(2)
		if m != nil {
			v = m.GetValue(m.GetKeys()[i])
		} else {
			v = (*a.GetValues())[i]
		}
		m, a = nil, nil
		if v == nil {
			continue
		}
		if v.IsMap() {
			m, _ = v.GetMap()
		} else if v.IsArray() {
			a, _ = v.GetArray()
		}
	}
	return v, m, a
}

const nMutations = 10

// mutate changes one node of the document and of its model; known is false when what the document itself
// becomes is not defined (writing through a pointer got from a getter). ok is false when it does not apply.
func mutate(c *Ctx, m *json.Map, w *MV, path []int, kind int) (ok, known bool) {
	n := at(w, path)
	v, mm, aa := valueAt(c, m, path)
	c.Op(1)
	switch kind {
	case 0, 1, 2, 3: // the container itself
		if n.K == 'm' {
			switch kind {
			case 0:
				mm.SetStringValue("new", "member")
				n.set("new", mStr("member"))
			case 1:
				if len(n.Keys) == 0 {
					return false, false
				}
				k := n.Keys[len(n.Keys)-1]
				mm.SetInt16Value(k, -9)
				n.set(k, mIntT("int16", -9))
			case 2:
				if len(n.Keys) == 0 {
					return false, false
				}
				k := n.Keys[0]
				mm.RemoveKey(k)
				n.del(k)
			case 3:
				if len(n.Keys) == 0 {
					return false, false
				}
				sub := json.NewMap()
				sub.SetNil("x")
				mm.SetMap(n.Keys[0], sub)
				n.set(n.Keys[0], mMap().set("x", mNull()))
			}
			return true, true
		}
		if n.K == 'a' {
			switch kind {
			case 0:
				aa.AppendStringValue("element")
				n.Vals = append(append([]*MV{}, n.Vals...), mStr("element"))
			case 1:
				if len(n.Vals) == 0 {
					return false, false
				}
				aa.SetValueAtIndex(len(n.Vals)-1, json.NewValue(false))
				n.Vals = append(append([]*MV{}, n.Vals[:len(n.Vals)-1]...), mBool(false))
			case 2:
				if len(n.Vals) == 0 {
					return false, false
				}
				aa.RemoveValueAtIndex(0)
				n.delAt(0)
			case 3:
				if len(n.Vals) == 0 {
					return false, false
				}
				aa.SetValueAtIndex(0, json.NewValue(json.NewArray()))
				n.Vals = append([]*MV{mArr()}, n.Vals[1:]...)
			}
			return true, true
		}
		return false, false
	}
	if len(path) == 0 || v == nil {
		return false, false
	}
	switch kind { // the value in place
	case 4:
		v.SetStringValue("changed")
		*n = *mStr("changed")
	case 5:
		v.SetNil()
		*n = *mNull()
	case 6:
		v.SetUInt16Value(777)
		*n = *mUintT("uint16", 777)
	case 7:
		x := json.NewMap()
		x.SetBoolValue("y", true)
		v.SetMap(x)
		*n = *mMap().set("y", mBool(true))
	case 8:
		if n.K != 's' {
			return false, false
		}
		p, e := v.GetString()
		if e != nil || p == nil {
			c.Failf("GetString: %s", errOf(e))
		}
		*p = "written through"
		return true, false
	case 9:
		if n.K == 'b' {
			p, e := v.GetBool()
			if e != nil || p == nil {
				c.Failf("GetBool: %s", errOf(e))
			}
			*p = !*p
			return true, false
		}
		// numbers: the object itself when it is a pointer
		r := reflect.ValueOf(v.GetObject())
		if n.K != 'i' && n.K != 'f' || r.Kind() != reflect.Ptr {
			return false, false
		}
		r.Elem().Set(reflect.Zero(r.Elem().Type()))
		return true, false
	}
	return true, true
}

var leavesClone = []leaf{leavesFull[0], leavesFull[1], leavesFull[2], leavesFull[3], leavesFull[4], leavesFull[5]}

// cloneSource makes the real document of a model in one of four ways.
func cloneSource(c *Ctx, how int, w *MV) *json.Map {
	switch how {
	case 0:
		return mustParse(c, w.text())
	case 1:
		return buildMap(w)
	case 2:
		return buildForms(w, true)
	case 3:
		return buildForms(w, false)
	}
	panic("how")
}

// buildForms stores every scalar and container by pointer, or every one plain.
func buildForms(w *MV, ptr bool) *json.Map {
	x := json.NewMap()
	for i, k := range w.Keys {
		x.SetValue(k, formVal(w.Vals[i], ptr))
	}
	return x
}

func formVal(w *MV, ptr bool) *json.Value {
	var o interface{}
	switch w.K {
	case 'n':
		return json.NewValue(nil)
	case 'm':
		x := buildForms(w, ptr)
		if !ptr {
			return json.NewValue(*x)
		}
		return json.NewValue(x)
	case 'a':
		a := json.NewArray()
		for _, v := range w.Vals {
			a.AppendValue(formVal(v, ptr))
		}
		if !ptr {
			return json.NewValue(*a)
		}
		return json.NewValue(a)
	case 's':
		o = boxed(reflect.ValueOf(w.S), ptr)
	case 'b':
		o = boxed(reflect.ValueOf(w.B), ptr)
	case 'i':
		t := w.T
		if t == "" {
			t = mLit(w.Neg, w.U).T
		}
		o = boxed(goInt(t, w), ptr)
	case 'f':
		o = floatCell(w.T, w.F, ptr).obj()
	}
	return json.NewValue(o)
}

func init() {
	reg("C11",
		Harness{Name: "equal", Bound: "every tree of up to 4 nodes over 10 kinds of leaf, parsed, built, all by pointer and all plain: clone of the map equal by every route and in its text, original unchanged", Body: func(c *Ctx) {
			w := genTree(c, 4, leavesFull)
			m := cloneSource(c, c.Choose(2), w)
			x := cloneMap(c, m)
			c.State(w.String())
			expectDoc(c, "clone", x, w, 0)
			expectDoc(c, "original", m, w, 0)
			if a, b := expectText(c, "original", m, w), expectText(c, "clone", x, w); a != b {
				c.Failf("the clone is written as %s, the original as %s", b, a)
			}
		}},
		Harness{Name: "kinds", Bound: "every kind and form, cloned as a value, as an element and as a member, then replaced in place on either side", Body: func(c *Ctx) {
			cat := catalog()
			for _, s := range lookalikes {
				cat = append(cat, strCell(s, true))
				if !nilLike(s) {
					cat = append(cat, strCell(s, false))
				}
			}
			x := cat[c.Choose(len(cat))]
			how := c.Choose(3)
			side := c.Choose(2)
			c.State(x.name, itoa(how), itoa(side))
			v := json.NewValue(x.obj())
			var get [2]*json.Value
			var docs [2]*json.Map
			switch how {
			case 0:
				get = [2]*json.Value{v, cloneVal(c, v)}
			case 1:
				a := json.NewArray()
				a.AppendValue(v)
				b := cloneArr(c, a)
				if b.Len() != 1 {
					c.Failf("the clone has %d elements", b.Len())
				}
				get = [2]*json.Value{v, (*b.GetValues())[0]}
			case 2:
				m := json.NewMap()
				m.SetValue("k", v)
				n := cloneMap(c, m)
				get = [2]*json.Value{v, n.GetValue("k")}
				docs = [2]*json.Map{m, n}
			}
			for i, g := range get {
				if d := checkVal(c, []string{"original", "clone"}[i], g, x.mv, 1); d != "" {
					c.Failf("%s of %s", d, x.name)
				}
				if g == nil {
					c.Failf("no value")
				}
				checkPredicates(c, []string{"original", "clone"}[i], g, docs[i], "k", x.mv)
			}
			get[side].SetStringValue("changed")
			if d := checkVal(c, "the other side", get[1-side], x.mv, 1); d != "" {
				c.Failf("after a change on one side: %s of %s", d, x.name)
			}
		}},
		Harness{Name: "uncloneable", Bound: "9 kinds of Go object that cannot be cloned, at 6 places: an error and no clone, or an equal one, never one with something else in its place", Body: func(c *Ctx) {
			objs := []interface{}{complex(1, 2), make(chan int), struct{ X int }{1}, &struct{ X int }{1}, []int{1}, map[string]int{"a": 1}, [2]int{1, 2}, uintptr(3), time.Second}
			o := objs[c.Choose(len(objs))]
			v, m, a := json.NewValue(o), json.NewMap(), json.NewArray()
			place := c.Choose(6)
			c.State(itoa(place), reflect.TypeOf(o).String())
			c.Logf("clone a document holding %T at place %d", o, place)
			c.Op(1)
			var got *json.Value
			var errs []error
			var cloned bool
			inMap := func(x *json.Map) *json.Value {
				if x == nil {
					return nil
				}
				return x.GetValue("k")
			}
			inArray := func(x *json.Array) *json.Value {
				if x == nil || x.Len() == 0 {
					return nil
				}
				return (*x.GetValues())[x.Len()-1]
			}
			switch place {
			case 0:
				x, e := v.Clone()
				got, errs, cloned = x, e, x != nil
			case 1:
				m.SetStringValue("a", "1")
				m.SetValue("k", v)
				x, e := m.Clone()
				got, errs, cloned = inMap(x), e, x != nil
			case 2:
				a.AppendStringValue("1")
				a.AppendValue(v)
				x, e := a.Clone()
				got, errs, cloned = inArray(x), e, x != nil
			case 3:
				m.SetValue("k", v)
				a.AppendMap(m)
				x, e := a.Clone()
				errs, cloned = e, x != nil
				if cloned && len(e) == 0 {
					if n, _ := inArray(x).GetMap(); n != nil {
						got = inMap(n)
					}
				}
			case 4:
				a.AppendValue(v)
				m.SetArray("k", a)
				x, e := m.Clone()
				errs, cloned = e, x != nil
				if cloned && len(e) == 0 {
					if n, _ := x.GetArray("k"); n != nil {
						got = inArray(n)
					}
				}
			case 5:
				m.SetValue("k", v)
				x, e := json.NewValue(m).Clone()
				errs, cloned = e, x != nil
				if cloned && len(e) == 0 {
					if n, _ := x.GetMap(); n != nil {
						got = inMap(n)
					}
				}
			}
			switch {
			case len(errs) > 0:
				if cloned {
					c.Failf("cloning a document holding %T at place %d gives an error and a clone", o, place)
				}
			case got == nil || !reflect.DeepEqual(got.GetObject(), o):
				c.Failf("the clone of a document holding %T at place %d lacks it, and there is no error", o, place)
			}
		}},
		Harness{Name: "independent", Bound: "every tree of up to 3 nodes over 6 leaf kinds in 4 storage ways; every node mutated in 10 ways in the original or the clone; the other stays", Body: func(c *Ctx) {
			w := genTree(c, 3, leavesClone)
			m := cloneSource(c, c.Choose(4), w)
			x := cloneMap(c, m)
			mutateOne(c, []*json.Map{m, x}, []*MV{w, w.clone()})
		}},
		Harness{Name: "clone-of-clone", Bound: "every tree of up to 2 nodes: original, clone and clone of the clone; any one mutated at any node in any way, the other two stay", Body: func(c *Ctx) {
			w := genTree(c, 2, leavesClone)
			m := cloneSource(c, c.Choose(4), w)
			x := cloneMap(c, m)
			y := cloneMap(c, x)
			z := cloneMap(c, m)
			mutateOne(c, []*json.Map{m, x, y, z}, []*MV{w, w.clone(), w.clone(), w.clone()})
		}},
		Harness{Name: "histories", Bound: "every history of 4 steps on a document with nested containers: mutate the original, mutate the latest clone, clone either; at 3 nodes in 3 ways; everything ever made is observed at the end", Body: func(c *Ctx) {
			w := mMap().set("m", mMap().set("l", mArr(mMap().set("x", mStr("1"))))).set("s", mStr("t"))
			docs, models := []*json.Map{cloneSource(c, c.Choose(2), w)}, []*MV{w}
			defined := []bool{true}
			for i := 0; i < 4; i++ {
				which := c.Choose(min(len(docs), 2))
				d := len(docs) - 1 - which
				op := c.Choose(4)
				if op == 0 {
					if !defined[d] {
						return
					}
					docs = append(docs, cloneMap(c, docs[d]))
					models = append(models, models[d].clone())
					defined = append(defined, true)
					continue
				}
				sites := sitesOf(models[d])
				site := sites[(op*5+i*3)%len(sites)]
				ok, known := mutate(c, docs[d], models[d], site, []int{0, 1, 2, 4, 8}[c.Choose(5)])
				if !ok {
					return
				}
				defined[d] = defined[d] && known
			}
			for i := range docs {
				c.State(models[i].String())
				if defined[i] {
					expectDoc(c, "document "+itoa(i), docs[i], models[i], 0)
					expectText(c, "document "+itoa(i), docs[i], models[i])
				}
			}
		}},
		Harness{Name: "widths", Bound: "maps and arrays of n members, n of the size sweep up to 520 (thorough 3000): equal, and independent at both ends", Body: func(c *Ctx) {
			max := 520
			if c.Thorough {
				max = 3000
			}
			sizes := sweep(max)
			n := sizes[c.Choose(len(sizes))]
			inMap := c.Bool()
			inner := mMap()
			if !inMap {
				inner = mArr()
			}
			for i := 0; i < n; i++ {
				if inMap {
					inner.Keys = append(inner.Keys, "k"+itoa(i))
				}
				inner.Vals = append(inner.Vals, cycleLeaf(i))
			}
			w := mMap().set("c", inner)
			if inMap && c.Bool() {
				w = inner
			}
			m := buildMap(w)
			x := cloneMap(c, m)
			c.State(itoa(n), w.String())
			expectDoc(c, "clone", x, w, 0)
			ends := []int{0}
			if n > 1 {
				ends = append(ends, n/2, n-1)
			}
			v := w.clone()
			for _, e := range ends {
				if n == 0 {
					break
				}
				path := []int{0, e}
				if w == inner {
					path = []int{e}
				}
				mutate(c, x, v, path, 4)
			}
			expectDoc(c, "original", m, w, 0)
			expectDoc(c, "clone", x, v, 0)
		}},
		Harness{Name: "depths", Bound: "nested maps, nested arrays and both alternating to every depth of the size sweep up to 200: equal, and independent at every depth", Body: func(c *Ctx) {
			sizes := sweep(200)
			n := sizes[c.Choose(len(sizes))]
			how := c.Choose(3)
			inner := mMap().set("x", mStr("deep"))
			for i := 0; i < n; i++ {
				if how == 0 || how == 2 && i%2 == 0 {
					inner = mMap().set("d", inner)
				} else {
					inner = mArr(inner)
				}
			}
			w := mMap().set("root", inner)
			m := buildMap(w)
			x := cloneMap(c, m)
			expectDoc(c, "clone", x, w, 0)
			c.State(itoa(n), itoa(how))
			var path []int
			step := 1
			if n > 20 && !c.Thorough {
				step = n / 10
			}
			v := w.clone()
			for d := 0; d <= n; d++ {
				path = append(path, 0)
				if d%step == 0 || d == n {
					mutate(c, x, v, append([]int{}, path...), 0)
				}
			}
			expectDoc(c, "original", m, w, 0)
			expectDoc(c, "clone", x, v, 0)
			for d := 0; d <= n; d += step {
				mutate(c, m, w, path[:d+1], 0)
			}
			expectDoc(c, "clone after changes of the original", x, v, 0)
		}},
		Harness{Name: "arrays-and-values", Bound: "every array of up to 3 elements of 10 leaf kinds, and values of them, cloned by Array.Clone and Value.Clone, then edited on either side", Body: func(c *Ctx) {
			n := c.Choose(4)
			w := mArr()
			for i := 0; i < n; i++ {
				w.Vals = append(w.Vals, leavesFull[c.Choose(len(leavesFull))].mk())
			}
			a := buildArr(w)
			var b *json.Array
			switch c.Choose(3) {
			case 0:
				b = cloneArr(c, a)
			case 1:
				b, _ = cloneVal(c, json.NewValue(a)).GetArray()
			case 2:
				b, _ = cloneVal(c, json.NewValue(*a)).GetArray()
			}
			if b == nil {
				c.Failf("the clone is not an array")
			}
			v := w.clone()
			c.State(w.String())
			list(c, b, v)
			p, q, mp, mq := a, b, w, v
			if c.Bool() {
				p, q, mp, mq = b, a, v, w
			}
			arrAppend(c, p, mp, 0)
			list(c, p, mp)
			list(c, q, mq)
			arrSetAt(c, p, mp, 0, 0)
			arrRemove(c, p, mp, n)
			arrRemove(c, q, mq, 0)
			list(c, p, mp)
			list(c, q, mq)
		}},
		Harness{Name: "outside-pointers", Bound: "objects stored by pointer for every type, list of errors, time: changing the Go variable after cloning never shows in the clone", Body: func(c *Ctx) {
			t := c.Choose(len(scalarTargets) + 3)
			how := c.Choose(3)
			var p interface{}
			var w *MV
			var change func()
			if t < len(scalarTargets) {
				typ := scalarTargets[t]
				var x cell
				switch typ {
				case "string":
					x = strCell("before", true)
				case "bool":
					x = boolCell(true, true)
				case "float32", "float64":
					x = floatCell(typ, 1.5, true)
				default:
					x = intCell(typ, mUintT(typ, 7), true)
				}
				p, w = x.obj(), x.mv
				change = func() { e := reflect.ValueOf(p).Elem(); e.Set(reflect.Zero(e.Type())) }
			} else {
				tm := time.Date(2020, 1, 2, 3, 4, 5, 6000, time.UTC)
				l := []error{errors.New("before"), errors.New("second")}
				e1 := errors.New("before")
				switch t - len(scalarTargets) {
				case 0:
					p, change = &tm, func() { tm = time.Time{} }
				case 1:
					p, change = &l, func() { l[0] = errors.New("after"); l = l[:1] }
				case 2:
					p, change = &e1, func() { e1 = errors.New("after") }
				}
			}
			m := json.NewMap()
			v := json.NewValue(p)
			m.SetValue("k", v)
			a := json.NewArray()
			a.AppendValue(v)
			m.SetArray("a", a)
			var get func() *json.Value
			switch how {
			case 0:
				x := cloneVal(c, v)
				get = func() *json.Value { return x }
			case 1:
				x := cloneMap(c, m)
				get = func() *json.Value { return x.GetValue("k") }
			case 2:
				x := cloneArr(c, a)
				get = func() *json.Value { return (*x.GetValues())[0] }
			}
			before := render(reflect.ValueOf(*get()))
			change()
			c.State(before, itoa(how))
			if w != nil {
				if d := checkVal(c, "clone", get(), w, 1); d != "" {
					c.Failf("after the Go variable changed: %s", d)
				}
			}
			if after := render(reflect.ValueOf(*get())); after != before {
				c.Failf("the clone was %s, after the Go variable of the original changed it is %s", before, after)
			}
		}},
		Harness{Name: "after-histories", Bound: "maps after every history of 4 sets and removals, cloned: equal, then every further operation on either side stays there", Body: func(c *Ctx) {
			m, w := json.NewMap(), mMap()
			for i := 0; i < 4; i++ {
				mapStep(c, m, w, 2, 2)
			}
			x := cloneMap(c, m)
			v := w.clone()
			c.State(w.String())
			dictionary(c, x, v)
			mapStep(c, x, v, 3, 1)
			dictionary(c, m, w)
			dictionary(c, x, v)
			mapStep(c, m, w, 3, 1)
			dictionary(c, m, w)
			dictionary(c, x, v)
		}},
		Harness{Name: "strings", Bound: "every string of up to 4 of 12 nasty characters as value and as key", Body: func(c *Ctx) {
			s := genString(c, nastySmall, 4)
			w := mMap().set("v", mStr(s)).set("l", mArr(mStr(s), mStr("z")))
			w.set("k"+s, mMap().set(s, mLit(false, 1)))
			m := buildMap(w)
			c.State(s)
			x := cloneMap(c, m)
			expectDoc(c, "clone", x, w, 0)
			if strings.Contains(s, "\n") || len(s) < 3 {
				expectText(c, "clone", x, w)
			}
		}},
	)
}

// mutateOne mutates one of several equal documents at a chosen node; all the others must stay.
func mutateOne(c *Ctx, docs []*json.Map, models []*MV) {
	d := c.Choose(len(docs))
	sites := sitesOf(models[0])
	site := sites[c.Choose(len(sites))]
	kind := c.Choose(nMutations)
	ok, known := mutate(c, docs[d], models[d], site, kind)
	if !ok {
		return
	}
	c.State(models[(d+1)%len(models)].String(), itoa(d), itoa(kind), models[d].String())
	for i := range docs {
		if i != d || known {
			expectDoc(c, "document "+itoa(i)+" after a change to document "+itoa(d), docs[i], models[i], 0)
			if i != d {
				expectText(c, "document "+itoa(i)+" after a change to document "+itoa(d), docs[i], models[i])
			}
		}
	}
}
