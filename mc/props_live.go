package main

import (
	"fmt"

	json "github.com/matehaxor03/holistic_json/json"
)

// ---- a reference model with identity: containers may be shared, values are the slots of a container ----

type lb struct { // a value: what a slot of a container holds
	leaf *MV
	c    *lc
}

type lc struct {
	k    byte
	keys []string
	vals []*lb
}

func lbOf(w *MV) *lb {
	if w.K != 'm' && w.K != 'a' {
		return &lb{leaf: w}
	}
	return &lb{c: lcOf(w)}
}

func lcOf(w *MV) *lc {
	x := &lc{k: w.K, keys: append([]string{}, w.Keys...)}
	for _, v := range w.Vals {
		x.vals = append(x.vals, lbOf(v))
	}
	return x
}

func (x *lb) mv() *MV {
	if x.c != nil {
		return x.c.mv()
	}
	return x.leaf
}

func (x *lc) mv() *MV {
	w := &MV{K: x.k, Keys: append([]string{}, x.keys...)}
	for _, v := range x.vals {
		w.Vals = append(w.Vals, v.mv())
	}
	return w
}

func (x *lc) idx(k string) int {
	for i, s := range x.keys {
		if s == k {
			return i
		}
	}
	return -1
}

func (x *lc) put(k string, v *lb) {
	if i := x.idx(k); i >= 0 {
		x.vals[i] = v
		return
	}
	x.keys = append(x.keys, k)
	x.vals = append(x.vals, v)
}

func (x *lc) remove(i int) {
	if x.k == 'm' {
		x.keys = append(x.keys[:i:i], x.keys[i+1:]...)
	}
	x.vals = append(x.vals[:i:i], x.vals[i+1:]...)
}

func (x *lc) holds(y *lc) bool {
	if x == y {
		return true
	}
	for _, v := range x.vals {
		if v.c != nil && v.c.holds(y) {
			return true
		}
	}
	return false
}

// handle is a real container together with the model of what it is
type handle struct {
	name string
	m    *json.Map
	a    *json.Array
	is   *lc
}

func (h handle) check(c *Ctx, when string) {
	w := h.is.mv()
	if h.is.k == 'm' {
		if s := checkMap(c, "", h.m, w, 0); s != "" {
			c.Failf("%s: through %s: %s", when, h.name, s)
		}
		expectText(c, when+": through "+h.name, h.m, w)
		return
	}
	if s := checkArr(c, "", h.a, w, 0); s != "" {
		c.Failf("%s: through %s: %s", when, h.name, s)
	}
	expectArrText(c, when+": through "+h.name, h.a, w)
}

// ---- acquiring a handle of a child ----

func routesDown(parent, child byte) int {
	switch {
	case parent == 'm':
		return 8
	case child == 'm':
		return 6
	}
	return 4
}

func handleOf(c *Ctx, name string, o interface{}, is *lc) handle {
	h := handle{name: name, is: is}
	switch x := o.(type) {
	case *json.Map:
		h.m = x
	case json.Map:
		h.m = &x
	case *json.Array:
		h.a = x
	case json.Array:
		h.a = &x
	}
	if h.is.k == 'm' && h.m == nil || h.is.k == 'a' && h.a == nil {
		c.Failf("%s gives %T", name, o)
	}
	return h
}

// acquire gets the child in slot i of the parent by one of the routes.
func acquire(c *Ctx, p handle, i, route int) handle {
	c.Op(3)
	child := p.is.vals[i].c
	name := fmt.Sprintf("%s/%d.%d", p.name, i, route)
	got := func(o interface{}, e []error) handle {
		if e != nil {
			c.Failf("%s: %s", name, errOf(e))
		}
		return handleOf(c, name, o, child)
	}
	fromValue := func(v *json.Value, how int) handle {
		if v == nil {
			c.Failf("%s: no value", name)
		}
		switch {
		case how == 2:
			return got(v.GetObject(), nil)
		case child.k == 'm' && how == 0:
			x, e := v.GetMap()
			return got(x, e)
		case child.k == 'm':
			x, e := v.GetMapValue()
			return got(x, e)
		case how == 0:
			x, e := v.GetArray()
			return got(x, e)
		default:
			x, e := v.GetArrayValue()
			return got(x, e)
		}
	}
	if p.is.k == 'm' {
		k := p.is.keys[i]
		switch route {
		case 0:
			if child.k == 'm' {
				x, e := p.m.GetMap(k)
				return got(x, e)
			}
			x, e := p.m.GetArray(k)
			return got(x, e)
		case 1:
			if child.k == 'm' {
				x, e := p.m.GetMapValue(k)
				return got(x, e)
			}
			x, e := p.m.GetArrayValue(k)
			return got(x, e)
		case 2, 3, 4:
			return fromValue(p.m.GetValue(k), route-2)
		case 5:
			return got(p.m.GetObjectForMap(k), nil)
		case 6:
			return fromValue((*p.m.Values().GetValues())[i], 0)
		case 7:
			if child.k == 'm' {
				x, e := p.m.Values().GetMap(i)
				return got(x, e)
			}
			x, e := p.m.GetArray(k)
			if e != nil || x == nil {
				c.Failf("%s: %s", name, errOf(e))
			}
			y, e := x.GetArrayValue()
			return got(y, e)
		}
		panic("route")
	}
	switch route {
	case 0, 1, 2:
		return fromValue((*p.a.GetValues())[i], route)
	case 3:
		self, e := p.a.GetArrayValue()
		if e != nil {
			c.Failf("%s: %s", name, errOf(e))
		}
		return fromValue((*self.GetValues())[i], 1)
	case 4:
		x, e := p.a.GetMap(i)
		return got(x, e)
	case 5:
		self, e := p.a.GetArrayValue()
		if e != nil {
			c.Failf("%s: %s", name, errOf(e))
		}
		x, e := self.GetMap(i)
		return got(x, e)
	}
	panic("route")
}

// walkTo follows the first routes down a path and a chosen one at the end.
func walkTo(c *Ctx, root handle, path []int, mid, last int) handle {
	for j, i := range path {
		r := mid
		child := root.is.vals[i].c
		if j == len(path)-1 {
			r = last
		}
		root = acquire(c, root, i, r%routesDown(root.is.k, child.k))
	}
	return root
}

// ---- edits of a container through a handle ----

const nEdits = 6

// edit changes the container through the handle; false when it does not apply.
func edit(c *Ctx, h handle, kind, tag int) bool {
	c.Op(1)
	c.Logf("edit %d through %s", kind, h.name)
	x := h.is
	if x.k == 'm' {
		switch kind {
		case 0:
			h.m.SetStringValue("new"+itoa(tag), "s")
			x.put("new"+itoa(tag), lbOf(mStr("s")))
		case 1:
			if len(x.keys) == 0 {
				return false
			}
			h.m.SetInt64Value(x.keys[0], int64(tag))
			x.put(x.keys[0], lbOf(mIntT("int64", int64(tag))))
		case 2:
			if len(x.keys) == 0 {
				return false
			}
			k := x.keys[len(x.keys)-1]
			ok, err := h.m.RemoveKey(k)
			if !ok || err != nil {
				c.Failf("RemoveKey(%q) through %s = %v %v", k, h.name, ok, err)
			}
			x.remove(len(x.keys) - 1)
		case 3:
			m := json.NewMap()
			m.SetBoolValue("in", true)
			h.m.SetMap("sub", m)
			x.put("sub", lbOf(mMap().set("in", mBool(true))))
		case 4:
			a := json.NewArrayValue()
			a.AppendStringValue("e")
			h.m.SetArrayValue("arr", a)
			x.put("arr", lbOf(mArr(mStr("e"))))
		case 5:
			if len(x.keys) == 0 {
				return false
			}
			k := x.keys[0]
			h.m.GetValue(k).SetUInt8Value(uint8(tag))
			*x.vals[0] = *lbOf(mUintT("uint8", uint64(tag)))
		}
		return true
	}
	n := len(x.vals)
	switch kind {
	case 0:
		h.a.AppendStringValue("new" + itoa(tag))
		x.vals = append(x.vals, lbOf(mStr("new"+itoa(tag))))
	case 1:
		if n == 0 {
			return false
		}
		if ok, err := h.a.SetValueAtIndex(0, json.NewValue(int32(tag))); !ok || err != nil {
			c.Failf("SetValueAtIndex(0) through %s = %v %v", h.name, ok, err)
		}
		x.vals[0] = lbOf(mIntT("int32", int64(tag)))
	case 2:
		if n == 0 {
			return false
		}
		if ok, err := h.a.RemoveValueAtIndex(n - 1); !ok || err != nil {
			c.Failf("RemoveValueAtIndex(%d) through %s = %v %v", n-1, h.name, ok, err)
		}
		x.remove(n - 1)
	case 3:
		m := json.NewMapValue()
		m.SetBoolValue("in", true)
		h.a.AppendMapValue(m)
		x.vals = append(x.vals, lbOf(mMap().set("in", mBool(true))))
	case 4:
		a := json.NewArray()
		a.AppendNil()
		h.a.AppendArray(a)
		x.vals = append(x.vals, lbOf(mArr(mNull())))
	case 5:
		if n == 0 || (*h.a.GetValues())[0] == nil {
			return false
		}
		(*h.a.GetValues())[0].SetUInt8Value(uint8(tag))
		*x.vals[0] = *lbOf(mUintT("uint8", uint64(tag)))
	}
	return true
}

// ---- putting a container into a parent ----

const nMapPuts, nArrPuts = 12, 11

// put places the container of the handle into a map; false when the way does not apply.
func putInMap(c *Ctx, p handle, k string, how int, h handle) bool {
	c.Op(1)
	c.Logf("put %d of %s into %s at %q", how, h.name, p.name, k)
	obj := func(ptr bool) interface{} {
		switch {
		case h.m != nil && ptr:
			return h.m
		case h.m != nil:
			return *h.m
		case ptr:
			return h.a
		}
		return *h.a
	}
	slot := &lb{c: h.is}
	old := p.is.idx(k)
	switch how {
	case 0:
		if h.m != nil {
			p.m.SetMap(k, h.m)
		} else {
			p.m.SetArray(k, h.a)
		}
	case 1:
		if h.m != nil {
			p.m.SetMapValue(k, *h.m)
		} else {
			p.m.SetArrayValue(k, *h.a)
		}
	case 2, 3:
		p.m.SetValue(k, json.NewValue(obj(how == 2)))
	case 4, 5:
		p.m.SetObjectForMap(k, obj(how == 4))
	case 6, 7: // through a value that was there before
		if old < 0 {
			p.m.SetStringValue(k, "before")
		}
		v := p.m.GetValue(k)
		switch {
		case v == nil:
			return false
		case h.m != nil && how == 6:
			v.SetMap(h.m)
		case h.m != nil:
			v.SetMapValue(*h.m)
		case how == 6:
			v.SetArray(h.a)
		default:
			v.SetArrayValue(*h.a)
		}
	case 8, 9:
		if old < 0 {
			p.m.SetNil(k)
		}
		v := p.m.GetValue(k)
		if v == nil {
			return false
		}
		v.SetObject(obj(how == 8))
	case 10:
		v := json.NewValueValue(obj(true))
		p.m.SetValue(k, &v)
	case 11: // store a value first, fill it later
		v := json.NewValue(nil)
		p.m.SetValue(k, v)
		v.SetObject(obj(true))
	}
	p.is.put(k, slot)
	return true
}

func putInArr(c *Ctx, p handle, how int, h handle) bool {
	c.Op(1)
	c.Logf("put %d of %s into %s", how, h.name, p.name)
	slot := &lb{c: h.is}
	n := len(p.is.vals)
	obj := func(ptr bool) interface{} {
		switch {
		case h.m != nil && ptr:
			return h.m
		case h.m != nil:
			return *h.m
		case ptr:
			return h.a
		}
		return *h.a
	}
	switch how {
	case 0:
		if h.m != nil {
			p.a.AppendMap(h.m)
		} else {
			p.a.AppendArray(h.a)
		}
	case 1:
		if h.m != nil {
			p.a.AppendMapValue(*h.m)
		} else {
			p.a.AppendArrayValue(*h.a)
		}
	case 2, 3:
		p.a.AppendValue(json.NewValue(obj(how == 2)))
	case 4, 5:
		p.a.AppendValueValue(json.NewValueValue(obj(how == 4)))
	case 6, 7:
		if n == 0 {
			return false
		}
		ok, err := p.a.SetValueAtIndex(n-1, json.NewValue(obj(how == 6)))
		if !ok || err != nil {
			c.Failf("SetValueAtIndex: %v %v", ok, err)
		}
		p.is.vals[n-1] = slot
		return true
	case 8, 9:
		if n == 0 {
			return false
		}
		v := (*p.a.GetValues())[n-1]
		if v == nil {
			return false
		}
		switch {
		case how == 8:
			v.SetObject(obj(true))
		case h.m != nil:
			v.SetMap(h.m)
		default:
			v.SetArray(h.a)
		}
		p.is.vals[n-1] = slot
		return true
	case 10:
		v := json.NewValue(nil)
		p.a.AppendValue(v)
		v.SetObject(obj(false))
	}
	p.is.vals = append(p.is.vals, slot)
	return true
}

// ---- documents ----

var liveDocs = []struct {
	w     *MV
	paths [][]int
}{
	{mMap().set("m", mMap().set("x", mLit(false, 1))), [][]int{{0}}},
	{mMap().set("a", mArr(mLit(false, 1), mStr("s"))), [][]int{{0}}},
	{mMap().set("m", mMap()), [][]int{{0}}},
	{mMap().set("a", mArr()), [][]int{{0}}},
	{mMap().set("p", mStr("q")).set("m", mMap().set("x", mMap().set("y", mNull()))), [][]int{{1}, {1, 0}}},
	{mMap().set("a", mArr(mMap().set("x", mStr("1")), mMap())).set("b", mBool(true)), [][]int{{0}, {0, 0}, {0, 1}}},
	{mMap().set("a", mArr(mArr(mStr("1")), mArr())), [][]int{{0}, {0, 0}, {0, 1}}},
	{mMap().set("m", mMap().set("l", mArr(mStr("1"), mMap().set("d", mArr())))), [][]int{{0}, {0, 0}, {0, 0, 1}, {0, 0, 1, 0}}},
}

func liveRoot(c *Ctx, doc, how int) handle {
	w := liveDocs[doc].w
	return handle{name: "root", m: cloneSource(c, how, w), is: lcOf(w)}
}

func freshMap(n int) handle {
	m := json.NewMap()
	w := mMap()
	for i := 0; i < n; i++ {
		m.SetUInt8Value("f"+itoa(i), uint8(i))
		w.set("f"+itoa(i), mUintT("uint8", uint64(i)))
	}
	return handle{name: "fresh map", m: m, is: lcOf(w)}
}

func freshArr(n int) handle {
	a := json.NewArray()
	w := mArr()
	for i := 0; i < n; i++ {
		a.AppendUInt8Value(uint8(i))
		w.Vals = append(w.Vals, mUintT("uint8", uint64(i)))
	}
	return handle{name: "fresh array", a: a, is: lcOf(w)}
}

func checkAll(c *Ctx, when string, hs ...handle) {
	for _, h := range hs {
		h.check(c, when)
	}
}

func init() {
	reg("C18",
		Harness{Name: "two-handles", Bound: "8 documents stored 4 ways: every pair of routes to every nested container, the second taken before or after, 6 edits through the first then 3 (thorough 6) through the second, seen by both and by the document", Body: func(c *Ctx) {
			d := c.Choose(len(liveDocs))
			root := liveRoot(c, d, c.Choose(4))
			path := liveDocs[d].paths[c.Choose(len(liveDocs[d].paths))]
			parent := walkTo(c, root, path[:len(path)-1], 0, 0)
			i := path[len(path)-1]
			n := routesDown(parent.is.k, parent.is.vals[i].c.k)
			r1, r2 := c.Choose(n), c.Choose(n)
			first := c.Bool()
			h1 := acquire(c, parent, i, r1)
			var h2 handle
			if first {
				h2 = acquire(c, parent, i, r2)
			}
			if !edit(c, h1, c.Choose(nEdits), 1) {
				return
			}
			if !first {
				h2 = acquire(c, parent, i, r2)
			}
			c.State(root.is.mv().String(), itoa(d))
			checkAll(c, "after the first edit", root, parent, h1, h2)
			more := 3
			if c.Thorough {
				more = nEdits
			}
			if !edit(c, h2, c.Choose(more), 2) {
				return
			}
			c.State(root.is.mv().String(), itoa(d))
			checkAll(c, "after the second edit", root, parent, h1, h2)
			edit(c, h1, 0, 3)
			checkAll(c, "after the third edit", root, h1, h2)
		}},
		Harness{Name: "routes", Bound: "8 documents: every route at every step down to every nested container, three edits through it", Body: func(c *Ctx) {
			d := c.Choose(len(liveDocs))
			root := liveRoot(c, d, c.Choose(2))
			path := liveDocs[d].paths[c.Choose(len(liveDocs[d].paths))]
			h := root
			for _, i := range path {
				h = acquire(c, h, i, c.Choose(routesDown(h.is.k, h.is.vals[i].c.k)))
			}
			for t := 0; t < 3; t++ {
				edit(c, h, t, t)
				checkAll(c, "after an edit", root, h)
			}
			c.State(root.is.mv().String(), h.name)
		}},
		Harness{Name: "placement", Bound: "a map or array of 0 to 2 members put in every way (12 into maps, 11 into arrays) into the root, a nested map or a nested array, then 6 edits through the old handle, 2 (thorough 6) through a new one by any route", Body: func(c *Ctx) {
			h := freshMap(c.Choose(3))
			if c.Bool() {
				h = freshArr(len(h.is.vals))
			}
			root := liveRoot(c, 7, c.Choose(2))
			var parent handle
			var slot int
			if where := c.Choose(4); where < 3 {
				parent = walkTo(c, root, [][]int{{}, {0}, {0, 0, 1}}[where], 0, 0)
				k := []string{"k", "new", parent.is.keys[0]}[c.Choose(3)]
				if !putInMap(c, parent, k, c.Choose(nMapPuts), h) {
					return
				}
				slot = parent.is.idx(k)
			} else {
				parent = walkTo(c, root, []int{0, 0}, 0, 0)
				how := c.Choose(nArrPuts)
				if !putInArr(c, parent, how, h) {
					return
				}
				slot = len(parent.is.vals) - 1
			}
			checkAll(c, "after placing", root, parent, h)
			if !edit(c, h, c.Choose(nEdits), 1) {
				return
			}
			g := acquire(c, parent, slot, c.Choose(routesDown(parent.is.k, h.is.k)))
			checkAll(c, "after an edit of the placed container", root, parent, h, g)
			more := 2
			if c.Thorough {
				more = nEdits
			}
			if !edit(c, g, c.Choose(more), 2) {
				return
			}
			c.State(root.is.mv().String(), h.is.mv().String())
			checkAll(c, "after an edit through a getter", root, parent, h, g)
		}},
		Harness{Name: "constructors", Bound: "containers of 0 to 2 members given to the constructors from Go collections, plain, by pointer or as values, then edited through old and new handles", Body: func(c *Ctx) {
			h := freshMap(c.Choose(3))
			if c.Bool() {
				h = freshArr(len(h.is.vals))
			}
			var o interface{}
			ptr := c.Bool()
			switch {
			case h.m != nil && ptr:
				o = h.m
			case h.m != nil:
				o = *h.m
			case ptr:
				o = h.a
			default:
				o = *h.a
			}
			switch c.Choose(3) {
			case 1:
				o = json.NewValue(o)
			case 2:
				o = json.NewValueValue(o)
			}
			var p handle
			if c.Bool() {
				g := map[string]interface{}{"k": o}
				p = handle{name: "constructed", m: json.NewMapOfValues(&g), is: &lc{k: 'm', keys: []string{"k"}, vals: []*lb{{c: h.is}}}}
			} else {
				g := []interface{}{o}
				p = handle{name: "constructed", a: json.NewArrayOfValues(&g), is: &lc{k: 'a', vals: []*lb{{c: h.is}}}}
			}
			checkAll(c, "after construction", p, h)
			if !edit(c, h, c.Choose(nEdits), 1) {
				return
			}
			g := acquire(c, p, 0, c.Choose(routesDown(p.is.k, h.is.k)))
			checkAll(c, "after an edit", p, h, g)
			edit(c, g, 0, 2)
			c.State(p.is.mv().String())
			checkAll(c, "after an edit through a getter", p, h, g)
		}},
		Harness{Name: "detach", Bound: "8 documents: every nested container replaced or removed in its parent in 12 ways; edits through the old handle, the parent, and a new child; then put back", Body: func(c *Ctx) {
			d := c.Choose(len(liveDocs))
			root := liveRoot(c, d, c.Choose(4))
			path := liveDocs[d].paths[c.Choose(len(liveDocs[d].paths))]
			parent := walkTo(c, root, path[:len(path)-1], 0, 0)
			i := path[len(path)-1]
			old := acquire(c, parent, i, c.Choose(routesDown(parent.is.k, parent.is.vals[i].c.k)))
			fresh := freshMap(1)
			if c.Bool() {
				fresh = freshArr(1)
			}
			how := c.Choose(12)
			if !detach(c, parent, i, how, fresh) {
				return
			}
			c.State(root.is.mv().String(), itoa(d), itoa(how))
			checkAll(c, "after the replacement", root, parent, old, fresh)
			edit(c, old, c.Choose(5), 1)
			checkAll(c, "after an edit of the detached container", root, parent, old, fresh)
			edit(c, fresh, c.Choose(2), 2)
			checkAll(c, "after an edit of the replacement", root, parent, old, fresh)
			if parent.is.k == 'm' {
				putInMap(c, parent, "back", 0, old)
			} else {
				putInArr(c, parent, 0, old)
			}
			edit(c, old, 0, 3)
			c.State(root.is.mv().String(), itoa(d), itoa(how))
			checkAll(c, "after putting it back", root, parent, old, fresh)
		}},
		Harness{Name: "shared", Bound: "one container in two places (two keys, two arrays, two documents, a map and an array, itself nested twice): edits through each place, then one place replaced, edited again", Body: func(c *Ctx) {
			h := freshMap(1)
			if c.Bool() {
				h = freshArr(1)
			}
			r1 := handle{name: "first", m: json.NewMap(), is: lcOf(mMap())}
			r2 := handle{name: "second", m: json.NewMap(), is: lcOf(mMap())}
			var p1, p2 handle
			var i1, i2 int
			list := func(r handle) handle {
				a := freshArr(1)
				a.name = "list in " + r.name
				putInMap(c, r, "list", 0, a)
				return a
			}
			w1, w2 := c.Choose(5), c.Choose(5)
			switch c.Choose(4) {
			case 0:
				p1, p2 = r1, r1
				putInMap(c, r1, "x", w1, h)
				putInMap(c, r1, "y", w2, h)
				i1, i2 = 0, 1
			case 1:
				p1, p2 = r1, r2
				putInMap(c, r1, "x", w1, h)
				putInMap(c, r2, "x", w2, h)
			case 2:
				p1 = list(r1)
				p2 = p1
				putInArr(c, p1, w1, h)
				putInArr(c, p1, w2, h)
				i1, i2 = 1, 2
			case 3:
				p1, p2 = list(r1), r2
				putInArr(c, p1, w1, h)
				putInMap(c, r2, "x", w2, h)
				i1, i2 = 1, 0
			}
			checkAll(c, "placed twice", r1, r2, p1, p2, h)
			g1 := acquire(c, p1, i1, c.Choose(routesDown(p1.is.k, h.is.k)))
			g2 := acquire(c, p2, i2, 0)
			edit(c, g1, c.Choose(5), 1)
			checkAll(c, "edited in the first place", r1, r2, g1, g2, h)
			edit(c, g2, c.Choose(2), 2)
			checkAll(c, "edited in the second place", r1, r2, g1, g2, h)
			detach(c, p1, i1, 0, freshMap(0))
			checkAll(c, "replaced in the first place", r1, r2, g2, h)
			edit(c, h, 0, 3)
			c.State(r1.is.mv().String(), r2.is.mv().String())
			checkAll(c, "edited after that", r1, r2, p1, p2, g1, g2, h)
		}},
		Harness{Name: "value-handles", Bound: "values got from every slot of 8 documents by three routes and set to every kind: seen in the document, a container that was there is detached", Body: func(c *Ctx) {
			d := c.Choose(len(liveDocs))
			root := liveRoot(c, d, c.Choose(4))
			paths := append([][]int{{}}, liveDocs[d].paths...)
			parent := walkTo(c, root, paths[c.Choose(len(paths))], 0, 0)
			if len(parent.is.vals) == 0 {
				return
			}
			i := c.Choose(len(parent.is.vals))
			var v *json.Value
			if parent.is.k == 'm' {
				v = []func() *json.Value{
					func() *json.Value { return parent.m.GetValue(parent.is.keys[i]) },
					func() *json.Value { return (*parent.m.Values().GetValues())[i] },
				}[c.Choose(2)]()
			} else {
				v = (*parent.a.GetValues())[i]
			}
			if v == nil {
				c.Failf("no value in slot %d of %s", i, parent.name)
			}
			var old *handle
			if parent.is.vals[i].c != nil {
				h := acquire(c, parent, i, 0)
				old = &h
			}
			cells := smallCatalog()
			x := cells[c.Choose(len(cells))]
			_ = setValueTo(c, v, x)
			*parent.is.vals[i] = *lbOf(x.mv)
			c.State(root.is.mv().String(), x.name)
			checkAll(c, "after setting the value", root, parent)
			if old != nil {
				edit(c, *old, 0, 1)
				checkAll(c, "after editing what was there", root, parent, *old)
			}
			if x.mv.K == 'm' || x.mv.K == 'a' {
				g := acquire(c, parent, i, 1)
				edit(c, g, 0, 2)
				checkAll(c, "after editing what is there", root, parent, g)
			}
		}},
		Harness{Name: "histories", Bound: "every history of 3 steps (thorough 4) over 5 handles kept throughout (root, its map, its list, a loose map, a loose list): put one into another, replace, remove, edit, take a new handle", Body: func(c *Ctx) {
			w := mMap().set("m", mMap().set("x", mStr("1"))).set("l", mArr(mStr("1")))
			root := handle{name: "root", m: cloneSource(c, c.Choose(2), w), is: lcOf(w)}
			hs := []handle{root, acquire(c, root, 0, 0), acquire(c, root, 1, 0), freshMap(1), freshArr(1)}
			n := 3
			if c.Thorough {
				n = 4
			}
			for s := 0; s < n; s++ {
				p := hs[c.Choose(len(hs))]
				switch op := c.Choose(9); op {
				case 0, 1:
					if !edit(c, p, op*2, s) {
						return
					}
				case 2, 3, 4, 5, 6: // put handle op-2
					h := hs[op-2]
					if h.is.holds(p.is) {
						return
					}
					if p.is.k == 'm' {
						putInMap(c, p, []string{"m", "n"}[c.Choose(2)], s%2, h)
					} else {
						putInArr(c, p, []int{s % 2, 6}[c.Choose(2)], h)
					}
				case 7: // a new handle of the last container in it
					for i := len(p.is.vals) - 1; ; i-- {
						if i < 0 {
							return
						}
						if p.is.vals[i].c != nil {
							hs = append(hs, acquire(c, p, i, 1))
							break
						}
					}
				case 8:
					if len(p.is.vals) == 0 {
						return
					}
					detach(c, p, 0, 0, freshMap(0))
				}
			}
			for i, h := range hs {
				edit(c, h, 0, 10+i)
			}
			c.State(root.is.mv().String(), hs[3].is.mv().String(), hs[4].is.mv().String())
			checkAll(c, "at the end", hs...)
		}},
		Harness{Name: "depths", Bound: "chains of maps, of arrays and both alternating to every depth of the size sweep up to 130, built from the inside, the outside or by parsing: a handle at every level edited from the inside out and back", Body: func(c *Ctx) {
			sizes := sweep(130)
			n := 1 + sizes[c.Choose(len(sizes))]
			shape := c.Choose(3)
			how := c.Choose(3)
			kind := func(d int) byte {
				if shape == 0 || shape == 2 && d%2 == 0 {
					return 'm'
				}
				return 'a'
			}
			var hs []handle // by depth
			root := handle{name: "root", m: json.NewMap(), is: lcOf(mMap())}
			put := func(p, h handle, d int) {
				if p.is.k == 'm' {
					putInMap(c, p, "d", d%4, h)
				} else {
					putInArr(c, p, d%6, h)
				}
			}
			switch how {
			case 0, 1:
				for d := 0; d < n; d++ {
					if kind(d) == 'm' {
						hs = append(hs, handle{name: "level " + itoa(d), m: json.NewMap(), is: lcOf(mMap())})
					} else {
						hs = append(hs, handle{name: "level " + itoa(d), a: json.NewArray(), is: lcOf(mArr())})
					}
				}
				all := append([]handle{root}, hs...)
				for d := range hs {
					if how == 1 {
						d = n - 1 - d
					}
					put(all[d], all[d+1], d)
				}
			case 2:
				w := &MV{K: kind(n - 1)}
				for d := n - 2; d >= 0; d-- {
					if kind(d) == 'm' {
						w = mMap().set("d", w)
					} else {
						w = mArr(w)
					}
				}
				w = mMap().set("d", w)
				root = handle{name: "root", m: mustParse(c, w.text()), is: lcOf(w)}
				h := root
				for d := 0; d < n; d++ {
					h = acquire(c, h, 0, d%routesDown(h.is.k, h.is.vals[0].c.k))
					hs = append(hs, h)
				}
			}
			step := 1
			if n > 16 && !c.Thorough {
				step = n / 8
			}
			for d := n - 1; d >= 0; d -= step {
				edit(c, hs[d], 0, d)
			}
			checkAll(c, "after edits from the inside", root, hs[0], hs[n-1], hs[n/2])
			for d := 0; d < n; d += step {
				edit(c, hs[d], 3+d%2, 1000+d)
			}
			c.State(itoa(n), itoa(shape), itoa(how))
			checkAll(c, "after edits from the outside", root, hs[0], hs[n-1], hs[n/2])
		}},
		Harness{Name: "growth", Bound: "a nested map or list grown to 200 members (thorough 1500) through two handles in turn, seen by a third and by the document", Body: func(c *Ctx) {
			w := mMap().set("m", mMap().set("x", mStr("1"))).set("l", mArr(mStr("1")))
			root := handle{name: "root", m: cloneSource(c, c.Choose(4), w), is: lcOf(w)}
			i := c.Choose(2)
			n := routesDown('m', root.is.vals[i].c.k)
			a, b := acquire(c, root, i, c.Choose(n)), acquire(c, root, i, c.Choose(n))
			max := 200
			if c.Thorough {
				max = 1500
			}
			for j := 0; j < max; j++ {
				h := a
				if j%2 == 1 {
					h = b
				}
				edit(c, h, 0, j)
				if j%50 == 49 {
					edit(c, h, 2, j)
				}
				if j < 8 || j%64 == 0 || j == max-1 {
					checkAll(c, "while growing", a, b, root)
				}
			}
			c.State(a.name, b.name)
		}},
		Harness{Name: "siblings", Bound: "two or three sibling containers of equal content in a map or an array, parsed or built: an edit of one never shows in another", Body: func(c *Ctx) {
			inner := []*MV{mMap(), mArr(), mMap().set("x", mStr("1")), mArr(mStr("1")), mMap().set("x", mMap()), mArr(mArr())}[c.Choose(6)]
			n := 2 + c.Choose(2)
			w := mMap()
			if c.Bool() {
				w.set("l", &MV{K: 'a'})
				for i := 0; i < n; i++ {
					w.Vals[0].Vals = append(w.Vals[0].Vals, inner.clone())
				}
			} else {
				for i := 0; i < n; i++ {
					w.set("k"+itoa(i), inner.clone())
				}
			}
			root := handle{name: "root", m: cloneSource(c, c.Choose(4), w), is: lcOf(w)}
			p := root
			if w.K == 'm' && len(w.Keys) == 1 {
				p = acquire(c, root, 0, 0)
			}
			var hs []handle
			for i := 0; i < n; i++ {
				hs = append(hs, acquire(c, p, i, 0))
			}
			for s := 0; s < 3; s++ {
				if !edit(c, hs[c.Choose(n)], c.Choose(4), s) {
					return
				}
			}
			c.State(root.is.mv().String())
			checkAll(c, "after edits", append(hs, root)...)
		}},
	)
}

// setValueTo sets an existing value to the contents of a cell with the setter of its type.
func setValueTo(c *Ctx, v *json.Value, x cell) stored {
	c.Op(1)
	switch {
	case x.mv.K == 'n':
		v.SetNil()
	case hasSetter(tValue, "Set", x):
		typedStore(c, v, "Set", x)
	default:
		v.SetObject(x.obj())
	}
	return stored{}
}

// detach replaces or removes slot i of the parent.
func detach(c *Ctx, p handle, i, how int, fresh handle) bool {
	c.Op(1)
	c.Logf("detach %d of %s in way %d", i, p.name, how)
	if p.is.k == 'm' {
		k := p.is.keys[i]
		switch how {
		case 0:
			if ok, err := p.m.RemoveKey(k); !ok || err != nil {
				c.Failf("RemoveKey(%q) = %v %v", k, ok, err)
			}
			p.is.remove(i)
		case 1:
			p.m.SetNil(k)
			p.is.put(k, lbOf(mNull()))
		case 2:
			p.m.SetStringValue(k, "s")
			p.is.put(k, lbOf(mStr("s")))
		case 3, 4, 5, 6, 7, 8, 9:
			putInMap(c, p, k, how-3, fresh)
		case 10:
			p.m.SetValue(k, nil)
			p.is.put(k, lbOf(mNull()))
		case 11:
			p.m.RemoveKey(k)
			p.is.remove(i)
			p.m.SetBoolValue(k, true)
			p.is.put(k, lbOf(mBool(true)))
		}
		return true
	}
	switch how {
	case 0:
		if ok, err := p.a.RemoveValueAtIndex(i); !ok || err != nil {
			c.Failf("RemoveValueAtIndex(%d) = %v %v", i, ok, err)
		}
		p.is.remove(i)
	case 1:
		p.a.SetValueAtIndex(i, json.NewValue(nil))
		p.is.vals[i] = lbOf(mNull())
	case 2:
		p.a.SetValueAtIndex(i, json.NewValue("s"))
		p.is.vals[i] = lbOf(mStr("s"))
	case 3, 4:
		var o interface{}
		if fresh.m != nil {
			o = fresh.m
		} else {
			o = fresh.a
		}
		v := (*p.a.GetValues())[i]
		if how == 3 {
			p.a.SetValueAtIndex(i, json.NewValue(o))
		} else {
			v.SetObject(o)
		}
		p.is.vals[i] = &lb{c: fresh.is}
	case 5:
		(*p.a.GetValues())[i].SetNil()
		p.is.vals[i] = lbOf(mNull())
	case 6:
		p.a.SetValueAtIndex(i, nil)
		p.is.vals[i] = lbOf(mNull())
	default:
		return false
	}
	return true
}
