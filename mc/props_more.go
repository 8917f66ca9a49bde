package main

import (
	"math"
	"strings"

	json "github.com/matehaxor03/holistic_json/json"
)

// brokenEscapes are pieces of string literals: whole and torn escapes.
var brokenEscapes = []string{`\`, `\u`, `\\`, `\"`, "d", "8", "00", `\ud83d`, `\ude00`, `\u0`, `\u00`, `\u004`, `\uD8`, `x`, "é", "\xe2", "+", "/"}

func init() {
	reg("C01",
		Harness{Name: "torn-escapes", Bound: "strings of up to 3 (thorough 4) pieces of 18 whole, torn and malformed escapes and ordinary characters, as value, key, element and unterminated", Body: func(c *Ctx) {
			n := 3
			if c.Thorough {
				n = 4
			}
			s := genString(c, brokenEscapes, n)
			for _, t := range []string{`{"a":"` + s + `"}`, `{"` + s + `":1}`, `{"a":["` + s + `",1]}`, `{"a":["` + s + `"]}`, `{"a":"` + s, `{"a":"` + s + `}`, `{"` + s + `":{"b":[]}}`, `{"b":"` + s + `","` + s + `":"` + s + `"}`} {
				c.State(t)
				parseOutcome(c, t)
			}
		}},
	)
	reg("C16",
		Harness{Name: "larger", Bound: "arrays of 2049 to 10001 (thorough 70000) elements of each type, all good or the last one null: the bulk getters of that type", Body: func(c *Ctx) {
			sizes := []int{2049, 4097, 10001}
			if c.Thorough {
				sizes = append(sizes, 2048, 4096, 5000, 8193, 16385, 32769, 65537, 70000)
			}
			n := sizes[c.Choose(len(sizes))]
			t := scalarTargets[c.Choose(len(scalarTargets))]
			null := c.Bool()
			if null && n > 5000 && !c.Thorough {
				return
			}
			var xs []cell
			for i := 0; i < n; i++ {
				if null && i == n-1 {
					xs = append(xs, nilCell())
					continue
				}
				switch t {
				case "string":
					xs = append(xs, strCell("s"+itoa(i), i%2 == 0))
				case "bool":
					xs = append(xs, boolCell(i%3 == 0, i%2 == 0))
				case "float32", "float64":
					xs = append(xs, floatCell(t, float64(i)+0.5, i%2 == 0))
				default:
					xs = append(xs, intCell(t, mUintT(t, uint64(i%120)), i%2 == 0))
				}
			}
			c.State(t, itoa(n))
			bulkAll(c, xs, []string{t})
		}},
	)
}

// failingSubjects are objects on which some reads fail: writing or cloning them, or both.
func failingSubjects() []subject {
	var out []subject
	add := func(name string, f func() interface{}) { out = append(out, subject{name, "odd", nil, f}) }
	for _, x := range []float64{math.NaN(), math.Inf(1), math.Inf(-1)} {
		x := x
		add("float64 of no number", func() interface{} { return x })
		add("*float64 of no number", func() interface{} { y := x; return &y })
		add("float32 of no number", func() interface{} { return float32(x) })
		add("*float32 of no number", func() interface{} { y := float32(x); return &y })
	}
	add("complex", func() interface{} { return complex(1, 2) })
	add("struct", func() interface{} { return struct{ A int }{1} })
	add("array of ints", func() interface{} { return [2]int{1, 2} })
	add("[]any", func() interface{} { return []interface{}{1, "a"} })
	add("list holding a struct", func() interface{} {
		a := json.NewArray()
		a.AppendIntValue(1)
		a.AppendValue(json.NewValue(struct{ A int }{1}))
		a.AppendStringValue("x")
		return a
	})
	add("map holding no number", func() interface{} {
		m := json.NewMap()
		m.SetIntValue("a", 1)
		m.SetFloat64Value("n", math.NaN())
		m.SetStringValue("b", strings.Repeat("x", 3))
		return m
	})
	return out
}

// placeAt chooses a place in a document: under how many levels, of which kinds, and after how many members of the
// innermost container. It gives the text around an element or member value, and a function which builds the
// model around it. The innermost container holds the value alone under "v" or as an element.
func placeAt(c *Ctx) (string, string, func(v *MV) *MV) {
	depths := []int{0, 1, 2, 3, 4, 5, 6, 7, 8, 9, 10, 12, 15, 16, 17, 20, 31, 32, 33, 64, 65, 100, 128, 129, 257}
	afters := []int{0, 1, 2, 3, 4, 5, 7, 8, 9, 10, 15, 16, 17, 31, 32, 33, 63, 64, 65, 100, 101, 127, 128, 129, 255, 256, 257, 500, 512, 513, 1000, 1024, 1025}
	if !c.Thorough {
		depths = []int{0, 1, 2, 3, 4, 5, 6, 8, 9, 10, 16, 17, 33, 65, 100, 129, 257}
		afters = []int{0, 1, 2, 3, 4, 5, 8, 9, 10, 16, 17, 33, 65, 101, 129, 257, 513, 1001, 1025}
	}
	d := depths[c.Choose(len(depths))]
	n := afters[c.Choose(len(afters))]
	if d > 8 && n > 8 && !c.Thorough {
		n = -1
	}
	if n < 0 {
		return "", "", nil
	}
	pat := c.Choose(3)
	inMap := c.Bool()
	isMap := func(i int) bool { return pat == 0 || pat == 2 && i%2 == 0 }
	var pre, post strings.Builder
	pre.WriteString(`{"r":`)
	for i := 0; i < d; i++ {
		if isMap(i) {
			pre.WriteString(`{"q":`)
		} else {
			pre.WriteString(`[`)
		}
	}
	if inMap {
		pre.WriteByte('{')
	} else {
		pre.WriteByte('[')
	}
	for i := 0; i < n; i++ {
		if inMap {
			pre.WriteString(`"m` + itoa(i) + `":`)
		}
		pre.WriteString(itoa(i) + ",")
	}
	if inMap {
		pre.WriteString(`"v":`)
		post.WriteByte('}')
	} else {
		post.WriteByte(']')
	}
	for i := d - 1; i >= 0; i-- {
		if isMap(i) {
			post.WriteString(`,"p":"q"}`)
		} else {
			post.WriteString(`,"p"]`)
		}
	}
	post.WriteString(`,"s":1}`)
	c.State(itoa(d), itoa(n), itoa(pat))
	return pre.String(), post.String(), func(v *MV) *MV {
		w := mArr()
		if inMap {
			w = mMap()
		}
		for i := 0; i < n; i++ {
			if inMap {
				w.Keys = append(w.Keys, "m"+itoa(i))
			}
			w.Vals = append(w.Vals, mLit(false, uint64(i)))
		}
		if inMap {
			w.Keys = append(w.Keys, "v")
		}
		w.Vals = append(w.Vals, v)
		for i := d - 1; i >= 0; i-- {
			if isMap(i) {
				w = mMap().set("q", w).set("p", mStr("q"))
			} else {
				w = mArr(w, mStr("p"))
			}
		}
		return mMap().set("r", w).set("s", mLit(false, 1))
	}
}

const placeBound = "at 17 (thorough 25) depths from 0 to 257 under maps, arrays and both, after 19 (33) numbers of members from 0 to 1025 (quick: deeper than 8 only after up to 8), as element and member"

func init() {
	reg("C02", Harness{Name: "places", Bound: "each of 10 kinds of leaf, and small containers, " + placeBound, Body: func(c *Ctx) {
		pre, post, around := placeAt(c)
		if around == nil {
			return
		}
		for _, l := range leavesFull {
			v := l.mk()
			parsesTo(c, pre+v.text()+post, around(v), 0)
		}
		for _, v := range []*MV{mArr(mArr()), mMap().set("k", mMap()), mArr(mNull(), mMap()), mMap().set("v", mBool(false)).set("", mStr(""))} {
			parsesTo(c, pre+v.text()+post, around(v), 0)
		}
	}})
	reg("C03", Harness{Name: "places", Bound: "strings of quotes, backslashes, escapes, blanks and multi-byte characters, raw and escaped, " + placeBound, Body: func(c *Ctx) {
		pre, post, around := placeAt(c)
		if around == nil {
			return
		}
		for i, s := range []string{`a"b\c`, "é€😀", "\n\t{}[]:, ", `\`, `\\"`, " ", `u0041"`} {
			for _, how := range []int{0, 1, 3} {
				if how == 1 && i%2 == 0 && !c.Thorough {
					continue
				}
				lit := spell(s, how)
				parsesTo(c, pre+lit+post, around(mStr(s)), 0)
				parsesTo(c, pre+`{`+lit+`:[]}`+post, around(mMap().set(s, mArr())), 0)
			}
		}
	}})
	reg("C04", Harness{Name: "places", Bound: "every gap of a small array and object filled with a blank, a tab or a line break and indentation, " + placeBound, Body: func(c *Ctx) {
		pre, post, around := placeAt(c)
		if around == nil {
			return
		}
		for _, v := range []*MV{mMap().set("k", mArr()).set("l", mArr(mLit(false, 1), mStr("x"), mMap())), mArr(mNull(), mArr(mBool(true))), mLit(true, 7)} {
			for _, r := range []string{" ", "\t", "\r\n    "} {
				parsesTo(c, pre+r+strings.Join(v.tokens(nil), r)+r+post, around(v), 0)
			}
		}
	}})
	reg("C05", Harness{Name: "places", Bound: "15 literals of every type " + placeBound, Body: func(c *Ctx) {
		pre, post, around := placeAt(c)
		if around == nil {
			return
		}
		for _, s := range literalsMixed {
			v, _ := numberWant(s)
			parsesTo(c, pre+s+post, around(v), 1)
		}
	}})
	reg("C06", Harness{Name: "places", Bound: "bad words, torn strings, missing and wrong closers " + placeBound, Body: func(c *Ctx) {
		pre, post, around := placeAt(c)
		if around == nil {
			return
		}
		for _, s := range []string{"tru", "nul", "1-2", "--1", "1.2.3", "x", `"x`, `x"`, "[", "{", "]", "}", "[}", `{"k":]`, `{"k"}`, `["x]`, "truefalse"} {
			t := pre + s + post
			if sc := scanText(t); sc.bad != "" || !strings.ContainsAny(s, `"[]{}`) {
				mustReject(c, t, "a bad value")
			}
		}
	}})
	reg("C07", Harness{Name: "places", Bound: "one of each kind of leaf, an empty and a nested container " + placeBound + ", built and written", Body: func(c *Ctx) {
		_, _, around := placeAt(c)
		if around == nil {
			return
		}
		for _, l := range leavesFull {
			w := around(l.mk())
			expectText(c, "document", buildMap(w), w)
		}
		for _, v := range []*MV{mArr(mArr()), mMap().set("a\"b\\\n", mStr("a\"b\\\n"))} {
			w := around(v)
			expectText(c, "document", buildMap(w), w)
		}
	}})
	reg("C11", Harness{Name: "places", Bound: "each kind of leaf " + placeBound + ": cloned, then the original emptied", Body: func(c *Ctx) {
		pre, post, around := placeAt(c)
		if around == nil {
			return
		}
		for _, l := range leavesFull {
			w := around(l.mk())
			m := mustParse(c, pre+l.mk().text()+post)
			x, e := m.Clone()
			if e != nil {
				c.Failf("clone: %s", errOf(e))
			}
			m.RemoveKey("r")
			m.SetIntValue("s", 7)
			expectDoc(c, "clone", x, w, 0)
		}
	}})
	reg("C08", Harness{Name: "places", Bound: "each kind of leaf " + placeBound, Body: func(c *Ctx) {
		pre, post, around := placeAt(c)
		if around == nil {
			return
		}
		for _, l := range leavesFull {
			v := l.mk()
			roundTrip(c, pre+v.text()+post, around(v))
		}
		v := mMap().set("a\"b\\\n", mStr("a\"b\\\n"))
		roundTrip(c, pre+v.text()+post, around(v))
	}})
	reg("C18", Harness{Name: "equal-values", Bound: "documents with the same leaf, key and small container in many places, parsed or built in three ways, each value of it set to another kind through its handle: nothing else changes", Body: func(c *Ctx) {
		cat := append([]leaf{}, leavesFull...)
		x := cat[c.Choose(len(cat))]
		mk := func() *MV {
			l := x.mk
			return mMap().set("a", l()).set("b", l()).set("l", mArr(l(), l(), mArr(l()), mMap().set("a", l()))).set("m", mMap().set("a", l()).set("b", l()).set("m", mMap().set("a", l())))
		}
		w := mk()
		m := cloneSource(c, c.Choose(4), w)
		// every slot by its path
		var paths [][]int
		var walk func(v *MV, p []int)
		walk = func(v *MV, p []int) {
			for i, y := range v.Vals {
				q := append(append([]int{}, p...), i)
				paths = append(paths, q)
				walk(y, q)
			}
		}
		walk(w, nil)
		p := paths[c.Choose(len(paths))]
		to := smallCatalog()[c.Choose(len(smallCatalog()))]
		v, at := m.GetValue(w.Keys[p[0]]), w
		for i := range p {
			if i > 0 {
				at = at.Vals[p[i-1]]
				if at.K == 'm' {
					h, e := v.GetMap()
					if e != nil {
						c.Failf("no map: %s", errOf(e))
					}
					v = h.GetValue(at.Keys[p[i]])
				} else {
					h, e := v.GetArray()
					if e != nil {
						c.Failf("no array: %s", errOf(e))
					}
					v = (*h.GetValues())[p[i]]
				}
			}
		}
		if v == nil {
			if at.Vals[p[len(p)-1]].K != 'n' {
				c.Failf("no value at %v", p)
			}
			return
		}
		setValueTo(c, v, to)
		at.Vals[p[len(p)-1]] = to.mv
		c.State(x.name, w.String())
		expectDoc(c, "after setting one value to "+to.name, m, w, 1)
		// another document like it is not touched either
		y := mustParse(c, mk().text())
		expectDoc(c, "another document", y, mk(), 0)
	}})
}
