package main

import (
	"reflect"
	"strings"

	json "github.com/matehaxor03/holistic_json/json"
)

// A shelf is a place in a document: under d levels, after n siblings and before some more, all of one kind.
type shelf struct {
	d, n, after, pat int
	inMap            bool
	sib              func(i int) cell
}

func chooseShelf(c *Ctx, light bool, sibs []cell) shelf {
	ds, ns, as := []int{0, 1, 2, 5}, []int{0, 1, 2, 3, 4, 5, 8, 9, 16, 17, 33}, []int{0, 2}
	if light && !c.Thorough {
		ds, ns = []int{0, 1, 3}, []int{0, 1, 2, 3, 4, 5, 9, 17}
	} else if c.Thorough && !light {
		ds, ns, as = []int{0, 1, 2, 3, 4, 5, 6, 7, 8, 9, 16}, []int{0, 1, 2, 3, 4, 5, 6, 7, 8, 9, 10, 15, 16, 17, 31, 32, 33, 65}, []int{0, 1, 2, 5}
	}
	s := shelf{d: ds[c.Choose(len(ds))], n: ns[c.Choose(len(ns))], after: as[c.Choose(len(as))]}
	if s.d > 0 {
		s.pat = c.Choose(3)
	}
	s.inMap = c.Bool()
	x := sibs[c.Choose(len(sibs))]
	s.sib = func(int) cell { return x }
	return s
}

func (s shelf) String() string {
	return itoa(s.n) + " before, " + itoa(s.after) + " after, " + itoa(s.d) + " levels (" + itoa(s.pat) + ")"
}

func (s shelf) level(i int) bool { return s.pat == 0 || s.pat == 2 && i%2 == 0 }

func (s shelf) key(i int) string {
	switch {
	case i == s.n:
		return "v"
	case i < s.n:
		return "m" + itoa(i)
	}
	return "z" + itoa(i)
}

// model is the document with x on the shelf.
func (s shelf) model(x *MV) *MV {
	w := mArr()
	if s.inMap {
		w = mMap()
	}
	for i := 0; i < s.n+1+s.after; i++ {
		y := x
		if i != s.n {
			y = s.sib(i).mv.clone()
		}
		if s.inMap {
			w.Keys = append(w.Keys, s.key(i))
		}
		w.Vals = append(w.Vals, y)
	}
	for i := s.d - 1; i >= 0; i-- {
		if s.level(i) {
			w = mMap().set("q", w).set("p", mStr("q"))
		} else {
			w = mArr(w, mStr("p"))
		}
	}
	return mMap().set("r", w).set("s", mLit(false, 1))
}

func (s shelf) path() []int {
	p := []int{0}
	for i := 0; i < s.d; i++ {
		p = append(p, 0)
	}
	return append(p, s.n)
}

// build is the real document, built through the API, with the innermost container.
func (s shelf) build(x cell) (*json.Map, *json.Map, *json.Array) {
	im, ia := json.NewMap(), json.NewArray()
	for i := 0; i < s.n+1+s.after; i++ {
		y := x
		if i != s.n {
			y = s.sib(i)
		}
		if s.inMap {
			im.SetValue(s.key(i), json.NewValue(y.obj()))
		} else {
			ia.AppendValue(json.NewValue(y.obj()))
		}
	}
	v := json.NewValue(im)
	if !s.inMap {
		v = json.NewValue(ia)
	}
	for i := s.d - 1; i >= 0; i-- {
		if s.level(i) {
			m := json.NewMap()
			m.SetValue("q", v)
			m.SetStringValue("p", "q")
			v = json.NewValue(m)
		} else {
			a := json.NewArray()
			a.AppendValue(v)
			a.AppendStringValue("p")
			v = json.NewValue(a)
		}
	}
	r := json.NewMap()
	r.SetValue("r", v)
	r.SetUInt8Value("s", 1)
	if s.inMap {
		return r, im, nil
	}
	return r, nil, ia
}

// a few siblings
func sibCells() []cell {
	return []cell{intCell("uint8", mUintT("uint8", 7), false), strCell("s", true), mapCell(mMap(), false), arrCell(mArr(), false)}
}

func cellOf(v *MV) cell { return cell{mv: v} }

// shelved are small containers, with those that hold one of them.
func shelved() []*MV {
	var out []*MV
	for _, l := range leavesFull {
		out = append(out, l.mk())
	}
	return append(out, mArr(mArr()), mMap().set("k", mMap()), mArr(mNull(), mMap()), mMap().set("v", mBool(false)).set("", mStr("")), mArr(mStr("")), mMap().set("a", mArr()).set("b", mNull()))
}

// limitLiterals are the integers at and next to the limit of each type, and numbers of other spellings.
func limitLiterals() []string {
	out := append([]string{}, literalsMixed...)
	for _, b := range []string{"127", "128", "129", "254", "255", "256", "257", "999", "1000", "32767", "32768", "32769", "65534", "65535", "65536", "99999", "100000", "2147483647", "2147483648", "2147483649",
		"4294967294", "4294967295", "4294967296", "4294967297", "9999999999", "10000000000", "9007199254740993", "9223372036854775807", "9223372036854775808"} {
		out = append(out, b)
		if b != "9223372036854775808" {
			out = append(out, "-"+b)
		}
	}
	return append(out, "-9223372036854775808", "9223372036854775809", "18446744073709551614", "0.5", "-0.5", "16777217.0", "3.4028235e38", "3.5e38", "-3.5e38", "1.7976931348623157e308", "1E5", "1e-5", "1.25e+2", "-1e0")
}

const shelfBound = "under 0 to 5 levels of maps, arrays and both, after 0 to 33 and before 0 or 2 siblings"

func init() {
	reg("C02", Harness{Name: "crossed", Bound: "each of 16 leaves and small containers " + shelfBound + " of each of 10 kinds", Body: func(c *Ctx) {
		var sibs []cell
		for _, l := range leavesFull {
			sibs = append(sibs, cellOf(l.mk()))
		}
		s := chooseShelf(c, false, sibs)
		c.State(s.String(), s.sib(0).mv.String())
		for _, x := range shelved() {
			w := s.model(x)
			parsesTo(c, w.text(), w, 0)
		}
	}})
	reg("C02", Harness{Name: "late-repeats", Bound: "objects of 0 to 3, 10, 33, 65, 129, 257, 513, 1001, 1100, 2049 (thorough up to 8193) members, then one of 7 of the keys again with one of 4 kinds of value, and one more member or not", Body: func(c *Ctx) {
		ns := []int{1, 2, 3, 10, 33, 65, 129, 257, 513, 1001, 1100, 2049}
		if c.Thorough {
			ns = append(ns, 4097, 5001, 8193)
		}
		n := ns[c.Choose(len(ns))]
		i := []int{0, 1, 2, 3, n / 2, n - 2, n - 1}[c.Choose(7)]
		if i < 0 || i >= n {
			return
		}
		kind, more, nested := c.Choose(4), c.Bool(), c.Bool()
		w := mMap()
		var b strings.Builder
		b.WriteByte('{')
		for j := 0; j < n; j++ {
			k := "k" + itoa(j)
			w.Keys, w.Vals = append(w.Keys, k), append(w.Vals, mLit(false, uint64(j)))
			b.WriteString(`"` + k + `":` + itoa(j) + ",")
		}
		x := []*MV{mStr("again"), mMap().set("a", mNull()), mArr(mLit(true, 1)), mNull()}[kind]
		b.WriteString(`"k` + itoa(i) + `":` + x.text())
		w.Vals[i] = x
		if more {
			b.WriteString(`,"z":true`)
			w.set("z", mBool(true))
		}
		b.WriteByte('}')
		t := b.String()
		if nested {
			t, w = `{"l":[`+t+`]}`, mMap().set("l", mArr(w))
		}
		c.State(itoa(n), itoa(i), itoa(kind))
		parsesTo(c, t, w, 0)
	}})
	reg("C03", Harness{Name: "crossed", Bound: "strings of quotes, backslashes, structural and multi-byte characters, as value and key, raw and escaped, " + shelfBound + " of four kinds of string", Body: func(c *Ctx) {
		s := chooseShelf(c, false, []cell{cellOf(mStr("")), cellOf(mStr(`\`)), cellOf(mStr(`"`)), cellOf(mStr("é,:{]"))})
		c.State(s.String(), s.sib(0).mv.S)
		const mark = "@@"
		for _, x := range []string{`a"b`, `\`, `\\"`, "]}", "é€😀", " \n", ",", `":`} {
			for _, how := range []int{0, 3} {
				lit := spell(x, how)
				w := s.model(mStr(x))
				t := s.model(mStr(mark)).text()
				parsesTo(c, strings.Replace(t, `"`+mark+`"`, lit, 1), w, 0)
				w = s.model(mMap().set(x, mArr(mStr(x))))
				t = s.model(mMap().set(mark, mArr(mStr(x)))).text()
				parsesTo(c, strings.Replace(t, `"`+mark+`"`, lit, 1), w, 0)
			}
		}
	}})
	reg("C05", Harness{Name: "limits-crossed", Bound: "87 literals at the limits of every type and of every spelling " + shelfBound + " of three kinds", Body: func(c *Ctx) {
		s := chooseShelf(c, false, []cell{cellOf(mLit(false, 1)), cellOf(mLit(true, 1<<40)), cellOf(mF32(0.5))})
		c.State(s.String(), s.sib(0).mv.String())
		t := s.model(mStr("@@")).text()
		for _, l := range limitLiterals() {
			v, _ := numberWant(l)
			if v == nil {
				c.Failf("no number: %s", l)
			}
			parsesTo(c, strings.Replace(t, `"@@"`, l, 1), s.model(v), 0)
		}
	}})
	reg("C06", Harness{Name: "crossed", Bound: "bad words, torn strings, missing and wrong closers " + shelfBound + " of each of 10 kinds", Body: func(c *Ctx) {
		var sibs []cell
		for _, l := range leavesFull {
			sibs = append(sibs, cellOf(l.mk()))
		}
		s := chooseShelf(c, false, sibs)
		c.State(s.String(), s.sib(0).mv.String())
		doc := s.model(mStr("@@")).text()
		for _, x := range []string{"tru", "1-2", "--1", "1.2.3", "x", "1-2e3", "1e", "e5", "+-1", "nulll", "True", `"x`, `x"`, "[", "{", "]", "}", "[}", `{"k":]`, `{"k"}`, `["x]`, `{]`, `[{"k":1]`} {
			t := strings.Replace(doc, `"@@"`, x, 1)
			if sc := scanText(t); sc.bad != "" || !strings.ContainsAny(x, `"[]{}`) {
				mustReject(c, t, "a bad value")
			}
		}
	}})
	reg("C08", Harness{Name: "crossed", Bound: "each of 16 leaves and small containers " + shelfBound + " of four kinds", Body: func(c *Ctx) {
		s := chooseShelf(c, false, sibCells())
		c.State(s.String(), s.sib(0).mv.String())
		for _, x := range shelved() {
			w := s.model(x)
			roundTrip(c, w.text(), w)
		}
	}})
	reg("C07", Harness{Name: "crossed", Bound: "every kind and form of object " + shelfBound + " of four kinds, built and written", Body: func(c *Ctx) {
		s := chooseShelf(c, false, sibCells())
		c.State(s.String(), s.sib(0).mv.String())
		for _, x := range smallCatalog() {
			m, _, _ := s.build(x)
			expectText(c, x.name+" with "+s.String(), m, s.model(x.mv))
		}
	}})
	reg("C12", Harness{Name: "crossed", Bound: "every kind and form of object " + shelfBound + " of four kinds, read by its getters and predicates", Body: func(c *Ctx) {
		s := chooseShelf(c, false, sibCells())
		c.State(s.String(), s.sib(0).mv.String())
		for _, x := range smallCatalog() {
			m, _, _ := s.build(x)
			expectDoc(c, x.name+" with "+s.String(), m, s.model(x.mv), 1)
		}
	}})
	reg("C11", Harness{Name: "crossed", Bound: "every kind and form of object " + shelfBound + " of four kinds: the clone equal, then the object changed in 10 ways in the original or the clone", Body: func(c *Ctx) {
		s := chooseShelf(c, true, sibCells())
		c.State(s.String(), s.sib(0).mv.String())
		cat := smallCatalog()
		x := cat[c.Choose(len(cat))]
		for kind := -1; kind < nMutations; kind++ {
			for side := 0; side < 2; side++ {
				m, _, _ := s.build(x)
				n := cloneMap(c, m)
				w, v := s.model(x.mv.clone()), s.model(x.mv.clone())
				if kind < 0 {
					expectDoc(c, "clone of "+x.name+" with "+s.String(), n, v, 0)
					break
				}
				changed, other, model, still := m, n, w, v
				if side == 1 {
					changed, other, model, still = n, m, v, w
				}
				ok, known := mutate(c, changed, model, s.path(), kind)
				if !ok {
					break
				}
				what := x.name + " with " + s.String() + " changed in way " + itoa(kind) + ", " + []string{"original", "clone"}[side]
				expectText(c, what+": the other one", other, still)
				if known {
					expectText(c, what, changed, model)
				}
			}
		}
	}})
	reg("C18", Harness{Name: "crossed", Bound: "maps and arrays of 0 to 2 members, stored plain or by pointer, " + shelfBound + " of four kinds: 6 edits through every route, seen by another handle and the document", Body: func(c *Ctx) {
		s := chooseShelf(c, true, sibCells())
		c.State(s.String(), s.sib(0).mv.String())
		ptr := c.Bool()
		for _, y := range []*MV{mMap(), mArr(), mMap().set("a", mLit(false, 1)).set("b", mMap()), mArr(mStr("x")), mArr(mArr(), mNull())} {
			x := mapCell(y, ptr)
			if y.K == 'a' {
				x = arrCell(y, ptr)
			}
			p := s.path()
			child := y.K
			parent := byte('a')
			if s.inMap {
				parent = 'm'
			}
			for r := 0; r < routesDown(parent, child); r++ {
				for e := 0; e < nEdits; e++ {
					m, _, _ := s.build(x)
					root := handle{name: "root", m: m, is: lcOf(s.model(y))}
					in := walkTo(c, root, p[:len(p)-1], 0, 0)
					h := acquire(c, in, s.n, r)
					g := acquire(c, in, s.n, (r+1)%routesDown(parent, child))
					if !edit(c, h, e, r) {
						continue
					}
					g.check(c, "after an edit, "+s.String())
					expectText(c, "after an edit, "+s.String()+": the document", m, root.is.mv())
				}
			}
		}
	}})
	reg("C18", Harness{Name: "larger", Bound: "a map or list of 101, 257, 601, 1025, 2049 (thorough up to 10001) members in a map or a list, parsed or built: 6 edits through every route, seen by two other handles and the document", Body: func(c *Ctx) {
		ns := []int{101, 257, 601, 1025, 2049}
		if c.Thorough {
			ns = append(ns, 513, 1001, 4097, 5001, 10001)
		}
		n := ns[c.Choose(len(ns))]
		w := mArr()
		if c.Bool() {
			w = mMap()
		}
		for i := 0; i < n; i++ {
			if w.K == 'm' {
				w.Keys = append(w.Keys, "f"+itoa(i))
			}
			w.Vals = append(w.Vals, mLit(false, uint64(i%200)))
		}
		parent := byte('m')
		doc := mMap().set("p", mNull()).set("c", w)
		slot := 1
		if c.Bool() {
			parent, doc = 'a', mMap().set("l", mArr(w, mNull()))
			slot = 0
		}
		how := c.Choose(2)
		r := c.Choose(routesDown(parent, w.K))
		e := c.Choose(nEdits)
		c.State(itoa(n), itoa(how), itoa(r), itoa(e), string(parent), string(w.K))
		root := handle{name: "root", m: cloneSource(c, how, doc), is: lcOf(doc)}
		in := root
		if parent == 'a' {
			in = acquire(c, root, 0, 0)
		}
		g0 := acquire(c, in, slot, (r+2)%routesDown(parent, w.K))
		h := acquire(c, in, slot, r)
		edit(c, h, e, 1)
		g := acquire(c, in, slot, (r+1)%routesDown(parent, w.K))
		checkAll(c, "after an edit of a large container", g0, g)
		expectText(c, "after an edit of a large container: the document", root.m, root.is.mv())
		edit(c, g, 0, 2)
		checkAll(c, "after another edit of a large container", h, g0)
		expectText(c, "after another edit of a large container: the document", root.m, root.is.mv())
	}})
	reg("C17", Harness{Name: "crossed", Bound: "every kind and form of object " + shelfBound + " (quick: 4 numbers of siblings, up to one level) of four kinds: every read operation on the document and the container around, the text and all parts the same after each few", Body: func(c *Ctx) {
		s := chooseShelf(c, false, sibCells())
		if !c.Thorough && (s.d > 1 || s.n == 0 || s.n == 2 || s.n == 3 || s.n == 5 || s.n == 8 || s.n == 16 || s.n == 33) {
			return
		}
		cat := smallCatalog()
		x := cat[c.Choose(len(cat))]
		c.State(s.String(), s.sib(0).mv.String(), x.name)
		m, im, ia := s.build(x)
		w := s.model(x.mv)
		what := x.name + " with " + s.String()
		run := func(target interface{}, ms []method, key string) {
			r := reflect.ValueOf(target).Elem()
			for _, f := range ms {
				for _, args := range argVariants(f, key) {
					c.Op(1)
					quietly(func() { callField(r, f, args...) })
				}
				expectText(c, what+": after "+r.Type().Name()+"."+f.name, m, w)
			}
		}
		if im != nil {
			run(im, mapReads, "v")
		} else {
			run(ia, arrayReads, "")
		}
		expectDoc(c, what+": after the reads of the container", m, w, 0)
		run(m, mapReads, "r")
		expectDoc(c, what+": after the reads of the document", m, w, 0)
	}})
	reg("C15", Harness{Name: "crossed", Bound: "every kind and form of object and an absent key in a map " + shelfBound + " of four kinds: every read operation of the map", Body: func(c *Ctx) {
		s := chooseShelf(c, false, sibCells())
		if !s.inMap || s.d > 0 && s.n > 5 && !c.Thorough {
			return
		}
		c.State(s.String(), s.sib(0).mv.String())
		cat := smallCatalog()
		for i := -1; i < len(cat); i++ {
			x, key := nilCell(), "absent"
			if i >= 0 {
				x, key = cat[i], "v"
			}
			_, im, _ := s.build(x)
			sub := subject{x.name, "json", x.mv, x.obj}
			r := reflect.ValueOf(im).Elem()
			for _, f := range mapReads {
				if f.typ.NumIn() == 0 || f.typ.In(0) == tBuilder {
					continue
				}
				for _, args := range argVariants(f, key) {
					c.Op(1)
					what := "Map." + f.name + " of " + key + " (" + x.name + ") with " + s.String()
					var o outcome
					if msg := quietly(func() { o = asOutcome(callField(r, f, args...)) }); msg != "" {
						c.Failf("%s: %s", what, msg)
					}
					judgeRead(c, what, f, args, o, sub)
				}
			}
		}
	}})
	reg("C16", Harness{Name: "crossed", Bound: "lists of 0 to 33 elements of one of 18 kinds, one of 18 kinds, and 0 or 2 more of the first: all 26 bulk getters", Body: func(c *Ctx) {
		ns := []int{1, 3, 4, 5, 7, 8, 9, 15, 16, 17, 31, 32, 33, 64, 65}
		n := ns[c.Choose(len(ns))]
		cs := bulkCells()
		y, x := cs[c.Choose(len(cs))], cs[c.Choose(len(cs))]
		var xs []cell
		for i := 0; i < n; i++ {
			xs = append(xs, y)
		}
		xs = append(xs, x)
		if c.Bool() {
			xs = append(xs, y, y)
		}
		c.State(itoa(n), y.name, x.name)
		bulkAll(c, xs, nil)
	}})
	reg("C20", Harness{Name: "crossed", Bound: "0 to 33 elements of one of 8 kinds in one of 3 forms, one of every kind in one of 3 forms, and 0 or 2 more of the first, in slices and maps", Body: func(c *Ctx) {
		ns := []int{1, 2, 3, 4, 5, 8, 9, 16, 17, 33}
		n := ns[c.Choose(len(ns))]
		ys := append(sibCells(), boolCell(true, false), floatCell("float64", 0.5, true), nilCell(), mapCell(mMap().set("a", mNull()), true))
		y, fy := ys[c.Choose(len(ys))], c.Choose(nForms)
		asMap, after, spoil := c.Bool(), c.Choose(2)*2, c.Bool()
		for _, x := range smallCatalog() {
			for fx := 0; fx < nForms; fx++ {
				var es []element
				for i := 0; i < n; i++ {
					es = append(es, elementOf(c, y, fy))
				}
				es = append(es, elementOf(c, x, fx))
				for i := 0; i < after; i++ {
					es = append(es, elementOf(c, y, fy))
				}
				constructed(c, asMap, spoil, es)
			}
		}
	}})
	reg("C20", Harness{Name: "larger", Bound: "slices and maps of n elements of one of 8 kinds in one of 3 forms, n of 257, 513, 1001, 1025, 1100, 2049, 2100, 4097, 5001 (thorough up to 20001)", Body: func(c *Ctx) {
		ns := []int{257, 513, 1001, 1025, 1100, 2049, 2100, 4097, 5001}
		if c.Thorough {
			ns = append(ns, 8193, 10001, 16385, 20001)
		}
		n := ns[c.Choose(len(ns))]
		ys := append(sibCells(), boolCell(true, false), floatCell("float64", 0.5, true), nilCell(), mapCell(mMap().set("a", mNull()), true))
		y, fy := ys[c.Choose(len(ys))], c.Choose(nForms)
		asMap := c.Bool()
		if asMap && n > 2100 {
			return
		}
		var es []element
		for i := 0; i < n; i++ {
			es = append(es, elementOf(c, y, fy))
		}
		constructed(c, asMap, n%2 == 0, es)
	}})
	reg("C09", Harness{Name: "long-keys", Bound: "every ordered pair of 6 long keys which differ in one place, of n bytes, n of 40 sizes up to 65537: every history of set x, set y, then 2 of set x, set y, remove x, remove y", Body: func(c *Ctx) {
		var ns []int
		for _, n := range sweep(65537) {
			if n > 30 && (n < 40 || n > 60) {
				ns = append(ns, n)
			}
		}
		n := ns[c.Choose(len(ns))]
		if n > 2100 && !c.Thorough && n%1000 != 0 && n != 4097 && n != 65537 {
			return
		}
		v := longKeys(n)
		x, y := v[c.Choose(len(v))], v[c.Choose(len(v))]
		if x == y {
			return
		}
		c.State(itoa(n), itoa(len(x)), itoa(len(y)))
		for h := 0; h < 16; h++ {
			m, w := json.NewMap(), mMap()
			mapSet(c, m, w, x, 0)
			mapSet(c, m, w, y, 1)
			for s, r := 0, h; s < 2; s, r = s+1, r/4 {
				k := []string{x, y}[r%2]
				if r%4 < 2 {
					mapSet(c, m, w, k, 1-s)
				} else {
					mapRemove(c, m, w, k)
				}
			}
			ks := m.GetKeys()
			if len(ks) != len(w.Keys) || len(*m.Values().GetValues()) != len(w.Keys) {
				c.Failf("%d keys of %d bytes, want %d", len(ks), n, len(w.Keys))
			}
			for i, k := range ks {
				if k != w.Keys[i] {
					c.Failf("key %d of %d bytes is another", i, n)
				}
				if s := checkVal(c, "member", m.GetValue(k), w.Vals[i], 0); s != "" {
					c.Failf("keys of %d bytes: %s", n, s)
				}
				if s := checkVal(c, "listed value", (*m.Values().GetValues())[i], w.Vals[i], 0); s != "" {
					c.Failf("keys of %d bytes: %s", n, s)
				}
			}
			for _, k := range v {
				if m.HasKey(k) != (w.idx(k) >= 0) {
					c.Failf("HasKey of a key of %d bytes is %v", n, m.HasKey(k))
				}
			}
		}
	}})
	reg("C09", Harness{Name: "long-histories", Bound: "periodic histories: every pattern of 3 operations out of set a, set b, replace a by a list, remove a, remove b, set and remove a new key, read everything, repeated 120 (thorough 1100) times", Body: func(c *Ctx) {
		var pat [3]int
		for i := range pat {
			pat[i] = c.Choose(7)
		}
		reps := 120
		if c.Thorough {
			reps = 1100
		}
		m, w := json.NewMap(), mMap()
		mapSet(c, m, w, "first", 0)
		for r := 0; r < reps; r++ {
			for _, op := range pat {
				switch op {
				case 0:
					mapSet(c, m, w, "a", r%3)
				case 1:
					mapSet(c, m, w, "b", r%2)
				case 2:
					mapSet(c, m, w, "a", 3)
				case 3:
					mapRemove(c, m, w, "a")
				case 4:
					mapRemove(c, m, w, "b")
				case 5:
					mapSet(c, m, w, "n"+itoa(r), 0)
					mapRemove(c, m, w, "n"+itoa(r))
				case 6:
					dictionary(c, m, w)
				}
			}
			if r < 3 || r%20 == 19 {
				dictionary(c, m, w)
			}
		}
		c.State(w.String(), itoa(pat[0]), itoa(pat[1]), itoa(pat[2]))
	}})
	reg("C19", Harness{Name: "similar-texts", Bound: "a document with a filler of 0, 20, 40, 100, 300 or 1100 characters at one of 4 places or at all of them, in 13 variants which differ in one place, some of them malformed: every pair of variants parsed one after the other, and the first again", Body: func(c *Ctx) {
		n := []int{0, 20, 40, 100, 300, 1100}[c.Choose(6)]
		where := c.Choose(5)
		i, j := c.Choose(13), c.Choose(13)
		if i == j {
			return
		}
		tag := itoa(n) + itoa(where) + "_" + itoa(i) + "_" + itoa(j)
		fill := func(k int) string {
			if k == where || where == 4 {
				return strings.Repeat("x", n)
			}
			return ""
		}
		variant := func(v int) (string, *MV) {
			w := mMap().set("k"+tag, mStr(fill(0)+"1")).set("a", mArr(mLit(false, 1), mLit(false, 12))).set("f", mStr(fill(1))).
				set("m", mMap().set("x", mStr("2"+fill(2))).set("y", mLit(false, 3))).set("z", mStr("4"+fill(3)))
			a, m := w.Vals[1], w.Vals[3]
			switch v {
			case 1:
				a.Vals[0] = mLit(false, 2)
			case 2:
				a.Vals[1] = mLit(false, 13)
			case 3:
				w.Vals[0] = mStr(fill(0) + "5")
			case 4:
				m.Vals[0] = mStr("6" + fill(2))
			case 5:
				w.Vals[4] = mStr("7" + fill(3))
			case 6:
				m.Keys[1] = "w"
			case 7:
				w.Keys[1] = "b"
			case 8:
				m.Vals[1] = mBool(true)
			case 9:
				w.Keys[4] = "y"
			}
			t := w.text()
			switch v {
			case 10:
				return strings.Replace(t, "1,12]", "1,12}", 1), nil
			case 11:
				return strings.Replace(t, "1,12]", "1,12x]", 1), nil
			case 12:
				return strings.Replace(t, `"y":3}`, `"y":3`, 1), nil
			}
			return t, w
		}
		do := func(v int) {
			c.Op(1)
			t, w := variant(v)
			if w == nil {
				mustReject(c, t, "malformed")
				return
			}
			m := parsesTo(c, t, w, 0)
			m.SetStringValue("a", "changed")
			m.RemoveKey("z")
		}
		c.State(tag)
		do(i)
		do(j)
		do(i)
		do(j)
	}})
}
