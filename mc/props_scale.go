package main

import (
	"strings"

	json "github.com/matehaxor03/holistic_json/json"
)

// Harnesses about scale and position: every construct at every offset around the sizes at which buffers,
// counters and limits change, and keys which are related to each other.

// ---- offsets ----

var edges = []int{64, 128, 256, 512, 1000, 1024, 2048, 4096, 8192, 10000, 16384, 32768, 65536}

const nFillers = 6

// filled puts a first member (or blanks) of exactly n bytes after the opening brace of the text of w.
// It gives "" when it cannot.
func filledText(kind, n int, body string, w *MV) (string, *MV) {
	x := &MV{K: 'm', Keys: append([]string{"f"}, w.Keys...)}
	var f string
	switch kind {
	case 0:
		return "{" + strings.Repeat(" ", n) + body[1:], w
	case 1, 2: // a long string, of letters or of two-byte characters
		k := n - len(`"f":"",`)
		if k < 0 {
			return "", nil
		}
		s := strings.Repeat("x", k)
		if kind == 2 {
			s = strings.Repeat("é", k/2) + strings.Repeat("x", k%2)
		}
		f = `"f":"` + s + `",`
		x.Vals = append([]*MV{mStr(s)}, w.Vals...)
	case 3: // a long key
		k := n - len(`"":1,`)
		if k < 2 {
			return "", nil
		}
		s := strings.Repeat("y", k)
		f = `"` + s + `":1,`
		x.Keys[0] = s
		x.Vals = append([]*MV{mLit(false, 1)}, w.Vals...)
	case 4: // a long list
		k := n - len(`"f":[],`)
		if k < 1 {
			return "", nil
		}
		l := mArr()
		t := strings.Repeat("1,", k/2)
		for i := 0; i < k/2; i++ {
			l.Vals = append(l.Vals, mLit(false, 1))
		}
		if k%2 == 1 {
			t += "1"
			l.Vals = append(l.Vals, mLit(false, 1))
		} else {
			t = t[:len(t)-1] + " "
		}
		f = `"f":[` + t + `],`
		x.Vals = append([]*MV{l}, w.Vals...)
	case 5: // a long string of escapes
		k := n - len(`"f":"",`)
		if k < 0 {
			return "", nil
		}
		s := strings.Repeat(`\n`, k/2) + strings.Repeat("z", k%2)
		f = `"f":"` + s + `",`
		x.Vals = append([]*MV{mStr(strings.Repeat("\n", k/2) + strings.Repeat("z", k%2))}, w.Vals...)
	}
	if body == "{}" {
		f = f[:len(f)-1] + " "
	}
	return "{" + f + body[1:], x
}

// edgeCost says whether a filler is used at an edge, and in which steps the text is shifted there: the parser's
// time grows with the square of a long token, so that long tokens are only run up to 4096 (thorough: 16384,
// and some shifts at 32768).
func edgeCost(c *Ctx, e, kind, n int) (bool, int) {
	switch {
	case kind == 0 || e <= 2048:
		return true, 1
	case e <= 4096:
		if c.Thorough {
			return true, 1
		}
		return kind != 4 && kind != 2, 3
	case !c.Thorough || kind == 4 && e > 16384 || e > 32768:
		return false, 1
	case e <= 16384:
		return true, 3
	}
	return kind != 2, n/8 + 1
}

// slide chooses an edge and a filler and calls f with the text shifted so that each of its characters in
// turn stands at the edge.
func slide(c *Ctx, body string, w *MV, f func(text string, w *MV)) {
	e := edges[c.Choose(len(edges))]
	kind := c.Choose(nFillers)
	ok, step := edgeCost(c, e, kind, len(body))
	if !ok {
		return
	}
	for d := -2; d <= len(body); d += step {
		n := e - d
		if n < 0 {
			continue
		}
		t, x := filledText(kind, n, body, w)
		if t == "" {
			continue
		}
		c.State(itoa(e), itoa(kind), itoa(d), body)
		f(t, x)
	}
}

// spaced writes a document with a run in every gap.
func spaced(w *MV, run string) string { return strings.Join(w.tokens(nil), run) }

func richDocs() []*MV {
	b := baseDocs()
	return []*MV{b[12], b[14], b[17], b[18], b[20], b[22], b[23], b[24], b[25], b[28], b[30]}
}

// ---- related keys ----

var relatedKeysCache []string

func relatedKeys() []string {
	if relatedKeysCache != nil {
		return relatedKeysCache
	}
	alpha := []string{"a", "A", ",", ".", `"`, "0", " ", ":"}
	out := []string{""}
	out = append(out, alpha...)
	for _, x := range alpha {
		for _, y := range alpha {
			out = append(out, x+y)
		}
	}
	long := strings.Repeat("p", 70)
	out = append(out, "aaa", "aA,", "a,a", "1", "01", "1.0", "-0", "-", "é", "É", "e\u0301", "ß", "ss", "k", "K", "\u212a", "s", "ſ", "i", "I", "İ", "ı",
		long, long+"q", "q"+long, long[:69], long[:35]+"q"+long[36:], strings.ToUpper(long), "\x00", "\x00a", "a\x00", "\n", "a\n", "\ta", "\u00a0", "null", "nil", "Null",
		"{", "}", "[", "]", "{}", "[]", `\`, `\\`, `\"`, `\n`, "a.a", "a/a", "*", "#", "$ref", "__proto__", "value", "values", "keys", "json", "a b", "a  b", "😀", "😁", "日", "日本")
	relatedKeysCache = out
	return out
}

// keyPair chooses two different related keys, or two long ones which differ in one place.
func keyPair(c *Ctx) (string, string, bool) {
	ks := relatedKeys()
	ls := []int{130, 257, 601, 1100, 2100}
	if c.Thorough {
		ls = append(ls, 256, 300, 513, 1025, 4097, 8200)
	}
	i := c.Choose(len(ks) + len(ls))
	if i >= len(ks) {
		v := longKeys(ls[i-len(ks)])
		x, y := v[c.Choose(len(v))], v[c.Choose(len(v))]
		return x, y, x != y
	}
	x, y := ks[i], ks[c.Choose(len(ks))]
	return x, y, x != y
}

// longKeys are keys of about n bytes which differ at the start, in the middle or at the end.
func longKeys(n int) []string {
	p := strings.Repeat("p", n-1)
	return []string{p, p + "1", p + "2", "1" + p, "2" + p, p[:n/2] + "1" + p[n/2:]}
}

func depthSizes(thorough bool) []int {
	d := []int{514, 768, 1001, 1024, 1025, 2049, 4097}
	if thorough {
		d = append(d, 600, 1000, 1023, 1500, 2000, 2047, 2048, 2500, 3000, 4095, 4096, 5000, 8191, 8192, 8193, 10000, 10001, 12000)
	}
	return d
}

func widthSizes(thorough bool) []int {
	d := []int{1100, 1500, 2049, 4097, 8193, 10001, 16385}
	if thorough {
		d = append(d, 2000, 2047, 2048, 3000, 4095, 4096, 5000, 8191, 8192, 10000, 16384, 20000, 32767, 32768, 32769, 50000, 65535, 65536, 65537, 70000)
	}
	return d
}

// deepDocument chooses a deep nesting of one of five patterns.
func deepDocument(c *Ctx) (*MV, int) {
	sizes := depthSizes(c.Thorough)
	n := sizes[c.Choose(len(sizes))]
	side := []int{0, 3}[c.Choose(2)]
	pat := c.Choose(5)
	w := nest(n, side, func(i int) bool {
		switch pat {
		case 0:
			return true
		case 1:
			return false
		case 2:
			return i%2 == 0
		case 3:
			return i < n/2
		}
		return i >= n/2
	})
	c.State(itoa(n), itoa(side), itoa(pat))
	return w, n
}

// wideDocument chooses a map or list of many members, of one kind of value or all mixed.
func wideDocument(c *Ctx) *MV {
	sizes := widthSizes(c.Thorough)
	n := sizes[c.Choose(len(sizes))]
	kind := c.Choose(5)
	l := mArr()
	if n > 5000 && kind < 3 && !c.Thorough {
		return nil
	}
	for i := 0; i < n; i++ {
		switch kind {
		case 0:
			l.Vals = append(l.Vals, mLit(false, uint64(i)))
		case 1:
			l.Vals = append(l.Vals, mStr("v"+itoa(i)))
		case 2:
			l.Vals = append(l.Vals, mMap())
		default:
			l.Vals = append(l.Vals, cycleLeaf(i))
		}
	}
	c.State(itoa(n), itoa(kind))
	if kind == 4 || kind == 0 && c.Bool() {
		l.K = 'm'
		for i := 0; i < n; i++ {
			l.Keys = append(l.Keys, "k"+itoa(i))
		}
		return mMap().set("p", mStr("first")).set("m", l).set("z", mNull())
	}
	return mMap().set("p", mStr("first")).set("l", l).set("z", mNull())
}

// scalar, object and array members
func memberKinds(i int) []*MV {
	return []*MV{mLit(false, uint64(i)), mMap().set("x", mLit(false, uint64(i))), mArr(mLit(false, uint64(i))), mStr("v" + itoa(i)), mMap(), mArr(), mNull()}
}

var literalsMixed = []string{"0", "-1", "255", "256", "-32769", "65536", "18446744073709551615", "-9223372036854775808", "1.5", "-0.25", "1e3", "2.5E-2", "1e39", "0.1", "123456789.125"}

const edgesBound = "at offsets around 13 sizes from 64 to 65536 (long tokens up to 4096, thorough 32768; there in steps), every character of it at the edge, after blanks, a long string of one- or two-byte characters or of escapes, a long key or a long list"

func init() {
	reg("C01",
		Harness{Name: "offsets", Bound: "damaged documents (unclosed, wrong closer, a stray quote, backslash or word) " + edgesBound, Body: func(c *Ctx) {
			bad := []string{`{"a":[1}`, `{"a":{"b":1]}`, `{"a":"b}`, `{"a":tru}`, `{"a":"\u12"}`, `{"a":1}}`, `{"a":[1,2`, `{"a":\}`, `{"a":1-2,"b":[}`, `{"\`, `{"a":"é` + "\xc3", `{"a":[{"b":"\`}
			b := bad[c.Choose(len(bad))]
			slide(c, b, mMap(), func(t string, _ *MV) { parseOutcome(c, t) })
		}},
	)
	reg("C02",
		Harness{Name: "offsets", Bound: "11 documents covering every construct " + edgesBound, Body: func(c *Ctx) {
			ds := richDocs()
			w := ds[c.Choose(len(ds))]
			slide(c, w.text(), w, func(t string, x *MV) { parsesTo(c, t, x, 0) })
		}},
		Harness{Name: "deeper", Bound: "objects, arrays, alternations and one inside the other nested 514 to 4097 (thorough 12000) deep with and without neighbours", Body: func(c *Ctx) {
			w, _ := deepDocument(c)
			parsesTo(c, w.text(), w, 0)
		}},
		Harness{Name: "wider", Bound: "objects and arrays of 1100 to 16385 (thorough 70000) members", Body: func(c *Ctx) {
			w := wideDocument(c)
			if w == nil {
				return
			}
			parsesTo(c, w.text(), w, 0)
		}},
		Harness{Name: "key-pairs", Bound: "every ordered pair of 150 related keys, and of long ones that differ in one place, (prefixes, case variants, digits, blanks, punctuation, empty) as members with every pair of kinds from number, object, array, and nested in each other", Body: func(c *Ctx) {
			x, y, ok := keyPair(c)
			if !ok {
				return
			}
			k1, k2 := memberKinds(1), memberKinds(2)
			for i := 0; i < 3; i++ {
				for j := 0; j < 3; j++ {
					w := mMap().set(x, k1[i]).set(y, k2[j])
					t := w.text()
					c.State(t)
					parsesTo(c, t, w, 0)
				}
			}
			w := mMap().set("l", mArr(mMap().set(x, mMap().set(y, mMap().set(x, mArr()))).set(y, mStr(x)))).set(x, mStr(y)).set(y, mArr(mMap().set(x, mMap())))
			if y != "l" {
				parsesTo(c, w.text(), w, 0)
			}
			// the first key again at the end
			w = mMap().set(x, mMap()).set(y, mArr())
			t := w.text()
			t = t[:len(t)-1] + "," + quoteJSON(x) + ":7}"
			w.set(x, mLit(false, 7))
			parsesTo(c, t, w, 0)
		}},
		Harness{Name: "one-key", Bound: "each of 150 related keys and 80 lookalikes with each of 10 kinds of member value, alone, first, last, and at three levels", Body: func(c *Ctx) {
			ks := append(append([]string{}, relatedKeys()...), lookalikes...)
			k := ks[c.Choose(len(ks))]
			one := mLit(false, 1)
			for _, l := range leavesFull {
				for _, w := range []*MV{
					mMap().set(k, l.mk()), mMap().set(k, l.mk()).set("zz", one), mMap().set("zz", one).set(k, l.mk()),
					mMap().set("m", mMap().set(k, l.mk())), mMap().set("l", mArr(mMap().set(k, l.mk()), mMap().set(k, l.mk()))).set("zz", one),
					mMap().set(k, mMap().set(k, mMap().set(k, l.mk()).set("zz", one))), mMap().set(k, mArr(l.mk(), mMap().set(k, mArr(l.mk())))),
				} {
					t := w.text()
					c.State(t)
					parsesTo(c, t, w, 0)
				}
			}
		}},
	)
	reg("C03",
		Harness{Name: "offsets", Bound: "strings of quotes, backslashes, escapes, structural and multi-byte characters in 3 spellings, as key, value and element, " + edgesBound, Body: func(c *Ctx) {
			ss := []string{`a"b\c`, "é€😀", "\n\t{}[]:,", `\\"\`, "u0041\u0041 '"}
			s := ss[c.Choose(len(ss))]
			lit := spell(s, []int{0, 1, 3}[c.Choose(3)])
			w := mMap().set(s, mStr(s)).set("k", mArr(mStr(s), mMap().set(s, mArr())))
			slide(c, `{`+lit+`:`+lit+`,"k":[`+lit+`,{`+lit+`:[]}]}`, w, func(t string, x *MV) { parsesTo(c, t, x, 0) })
		}},
		Harness{Name: "counts", Bound: "strings made of n escapes of each kind, n of the size sweep up to 4097, after and before a letter", Body: func(c *Ctx) {
			sizes := sweep(4097)
			n := sizes[c.Choose(len(sizes))]
			e := [][2]string{{`\"`, `"`}, {`\\`, `\`}, {`\n`, "\n"}, {`\u0041`, "A"}, {`\u00e9`, "é"}, {`\ud83d\ude00`, "😀"}, {`\/`, "/"}, {`\u0022`, `"`}, {`\u005c`, `\`}, {`x\"`, `x"`}, {`x\\`, `x\`}, {`é\t`, "é\t"}}[c.Choose(12)]
			r, s := strings.Repeat(e[0], n), strings.Repeat(e[1], n)
			c.State(itoa(n), e[0])
			w := mMap().set("a"+s, mStr("b"+s)).set("k", mArr(mStr(s+"c"), mStr(s)))
			parsesTo(c, `{"a`+r+`":"b`+r+`","k":["`+r+`c","`+r+`"]}`, w, 0)
		}},
	)
	reg("C04",
		Harness{Name: "offsets", Bound: "11 documents with a blank or line break in every gap " + edgesBound, Body: func(c *Ctx) {
			ds := richDocs()
			w := ds[c.Choose(len(ds))]
			run := []string{" ", "\r\n\t"}[c.Choose(2)]
			slide(c, spaced(w, run), w, func(t string, x *MV) { parsesTo(c, t, x, 0) })
		}},
		Harness{Name: "long-gaps", Bound: "a run of 4096 or 65536 (give or take 0 to 3) of each whitespace character, and of line breaks with indentation, in every gap of five documents", Body: func(c *Ctx) {
			b := baseDocs()
			w := []*MV{b[12], b[14], b[18], b[22], b[19]}[c.Choose(5)]
			toks := w.tokens(nil)
			g := 1 + c.Choose(len(toks)-1)
			n := []int{4096, 65536}[c.Choose(2)]
			unit := []string{" ", "\n", "\t", "\r", "\r\n", "\n    "}[c.Choose(6)]
			for d := -3; d <= 3; d++ {
				if n > 4096 && !c.Thorough && (d < -1 || d > 1) {
					continue
				}
				r := strings.Repeat(unit, (n+d)/len(unit)+1)[:n+d]
				c.State(w.text(), itoa(g), unit, itoa(n+d))
				parsesTo(c, strings.Join(toks[:g], "")+r+strings.Join(toks[g:], ""), w, 0)
			}
		}},
	)
	reg("C05",
		Harness{Name: "offsets", Bound: "15 literals of every type as elements and members " + edgesBound, Body: func(c *Ctx) {
			w := mMap()
			t := "{"
			l := mArr()
			for i, s := range literalsMixed {
				x, _ := numberWant(s)
				w.set(itoa(i), x)
				l.Vals = append(l.Vals, x)
				t += `"` + itoa(i) + `":` + s + ","
			}
			w.set("l", l)
			t += `"l":[` + strings.Join(literalsMixed, ",") + "]}"
			slide(c, t, w, func(t string, x *MV) { parsesTo(c, t, x, 1) })
		}},
		Harness{Name: "many", Bound: "n literals cycling through 15 kinds from each start, in an array and a map, n of the size sweep up to 1100", Body: func(c *Ctx) {
			sizes := sweep(1100)
			n := sizes[c.Choose(len(sizes))]
			s := c.Choose(len(literalsMixed))
			inMap := c.Bool()
			if n > 140 && s > 2 && !c.Thorough {
				return
			}
			var lits []string
			for i := 0; i < n; i++ {
				lits = append(lits, literalsMixed[(i+s)%len(literalsMixed)])
			}
			if n > 0 {
				checkBatch(c, lits, inMap)
			}
		}},
	)
	reg("C06",
		Harness{Name: "offsets", Bound: "5 (thorough 8) documents with each structural character or quote deleted, doubled or exchanged for the other kind of bracket, and cut, " + "with the damage or the end at offsets around 13 sizes from 64 to 65536 (after long tokens up to 2048, thorough 4096)", Body: func(c *Ctx) {
			ds := richDocs()[:8]
			if !c.Thorough {
				ds = ds[1:6]
			}
			w := ds[c.Choose(len(ds))]
			t := w.text()
			e := edges[c.Choose(len(edges))]
			kind := c.Choose(nFillers)
			if e > 4096 && kind != 0 || e > 2048 && kind != 0 && !c.Thorough {
				return
			}
			try := func(body, why string, at int) {
				for d := -1; d <= 1; d++ {
					for _, p := range []int{at, len(body)} {
						if n := e - p + d; n >= 0 {
							if x, _ := filledText(kind, n, body, w); x != "" {
								if s := scanText(x); s.bad != "" {
									mustReject(c, x, why+": "+s.bad)
								}
							}
						}
					}
				}
			}
			for i := 1; i < len(t); i++ {
				switch t[i] {
				case '{', '}', '[', ']', '"':
					try(t[:i]+t[i+1:], "a character is missing", i)
					try(t[:i]+t[i:i+1]+t[i:], "a character is doubled", i)
					if o := strings.IndexByte("{[}]", t[i]); o >= 0 {
						try(t[:i]+string("[{]}"[o])+t[i+1:], "a bracket is of the wrong kind", i)
					}
				}
				if x, _ := filledText(kind, max(e-i, 0), t[:i], w); x != "" && i > 1 {
					mustReject(c, x, "it is cut")
				}
			}
		}},
		Harness{Name: "deeper", Bound: "documents 514 to 4097 (thorough 12000) deep in five patterns: one closer missing, one too many, the innermost, middle or outermost of the wrong kind, cut in the middle", Body: func(c *Ctx) {
			w, n := deepDocument(c)
			if n > 1025 && len(w.Vals) > 1 && !c.Thorough {
				return
			}
			t := w.text()
			closers := []int{}
			for i := len(t) - 1; i >= 0 && len(closers) < n+1; i-- {
				if t[i] == '}' || t[i] == ']' {
					closers = append(closers, i)
				}
			}
			mustReject(c, t[:len(t)-1], "the last brace is missing")
			mustReject(c, t+"}", "there is a brace too many")
			mustReject(c, t[:len(t)/2], "it is cut in half")
			for _, k := range []int{0, 1, n / 2, n - 1, n} {
				p := closers[k]
				other := "]"
				if t[p] == ']' {
					other = "}"
				}
				mustReject(c, t[:p]+other+t[p+1:], "a closer is of the wrong kind")
				mustReject(c, t[:p]+t[p+1:], "a closer is missing")
			}
		}},
	)
	reg("C07",
		Harness{Name: "builder-prefix", Bound: "documents with every kind of leaf, plain and by pointer, and every construct, written to a builder that already holds a text ending at each of the offsets around 13 sizes from 64 to 65536", Body: func(c *Ctx) {
			ds := richDocs()
			w := mMap()
			if k := c.Choose(len(ds) + 1); k > 0 {
				w = ds[k-1]
			} else {
				for i, l := range leavesFull {
					w.set("k"+itoa(i), l.mk())
				}
			}
			m := buildForms(w, c.Bool())
			e := edges[c.Choose(len(edges))]
			n := len(w.text())
			for d := -2; d <= n+2; d++ {
				if e-d < 0 {
					continue
				}
				p := strings.Repeat("q", e-d)
				var b strings.Builder
				b.WriteString(p)
				c.Op(1)
				if er := m.ToJSONString(&b); er != nil {
					c.Failf("cannot be written after %d characters: %s", e-d, errOf(er))
				}
				t := b.String()
				c.State(itoa(e), itoa(d), w.String())
				if !strings.HasPrefix(t, p) {
					c.Failf("the %d characters before are lost", e-d)
				}
				got, err := decodeStd(t[len(p):])
				if err != nil {
					c.Failf("after %d characters wrote invalid JSON (%v): %s", e-d, err, clipText(t[len(p):]))
				}
				if s := sameText("", got, w); s != "" {
					c.Failf("after %d characters wrote %s: %s", e-d, clipText(t[len(p):]), s)
				}
			}
		}},
		Harness{Name: "kinds-after-text", Bound: "every kind and form of stored object written after a first member of 0, 100, 5000 and 70000 characters, in a map and in a list", Body: func(c *Ctx) {
			cat := catalog()
			x := cat[c.Choose(len(cat))]
			for _, n := range []int{0, 100, 5000, 70000} {
				f := strings.Repeat("x", n)
				m := json.NewMap()
				m.SetStringValue("f", f)
				m.SetValue("k", json.NewValue(x.obj()))
				a := json.NewArray()
				a.AppendValue(json.NewValue(x.obj()))
				a.AppendStringValue(f)
				a.AppendValue(json.NewValue(x.obj()))
				m.SetArray("a", a)
				c.State(x.name, itoa(n))
				expectText(c, "map", m, mMap().set("f", mStr(f)).set("k", x.mv).set("a", mArr(x.mv, mStr(f), x.mv)))
			}
		}},
		Harness{Name: "deeper", Bound: "documents built 514 to 4097 (thorough 12000) deep in five patterns", Body: func(c *Ctx) {
			w, _ := deepDocument(c)
			expectText(c, "map", buildMap(w), w)
		}},
		Harness{Name: "wider", Bound: "documents of 1100 to 16385 (thorough 70000) members", Body: func(c *Ctx) {
			w := wideDocument(c)
			if w == nil {
				return
			}
			if len(w.Vals[1].Vals) > 20000 && w.Vals[1].K == 'm' {
				return // the oracle looks for duplicate keys one by one
			}
			expectText(c, "map", buildMap(w), w)
		}},
		Harness{Name: "key-pairs", Bound: "every ordered pair of 150 related keys, and of long ones that differ in one place, as neighbours in a map and nested, with a third in between or not", Body: func(c *Ctx) {
			x, y, ok := keyPair(c)
			if !ok {
				return
			}
			for _, w := range []*MV{
				mMap().set(x, mLit(false, 1)).set(y, mStr("2")), mMap().set(x, mMap().set(y, mArr())).set(y, mMap().set(x, mNull())),
				mMap().set(x, mArr(mMap().set(y, mStr(x)).set(x, mStr(y)))).set("between", mBool(true)).set(y, mMap()),
			} {
				c.State(w.String())
				expectText(c, "map", buildMap(w), w)
			}
		}},
	)
	reg("C08",
		Harness{Name: "offsets", Bound: "11 documents " + edgesBound, Body: func(c *Ctx) {
			ds := richDocs()
			w := ds[c.Choose(len(ds))]
			slide(c, w.text(), w, func(t string, x *MV) { roundTrip(c, t, x) })
		}},
		Harness{Name: "deeper", Bound: "documents 514 to 4097 (thorough 12000) deep in five patterns", Body: func(c *Ctx) {
			w, _ := deepDocument(c)
			roundTrip(c, w.text(), w)
		}},
		Harness{Name: "wider", Bound: "documents of 1100 to 16385 (thorough 70000) members", Body: func(c *Ctx) {
			w := wideDocument(c)
			if w == nil {
				return
			}
			roundTrip(c, w.text(), w)
		}},
		Harness{Name: "key-pairs", Bound: "every ordered pair of 150 related keys, and of long ones that differ in one place, side by side and nested", Body: func(c *Ctx) {
			x, y, ok := keyPair(c)
			if !ok {
				return
			}
			w := mMap().set(x, mLit(false, 1)).set(y, mMap().set(x, mArr(mStr(y))).set(y, mMap())).set(x+y+"*", mStr(x))
			roundTrip(c, w.text(), w)
		}},
	)
	reg("C09",
		Harness{Name: "key-pairs", Bound: "every history of set x, set y, then 2 of set x, set y, remove x, remove y over every ordered pair of 150 related keys, and of long ones that differ in one place,", Body: func(c *Ctx) {
			x, y, ok := keyPair(c)
			if !ok {
				return
			}
			for h := 0; h < 16; h++ {
				m, w := json.NewMap(), mMap()
				mapSet(c, m, w, x, 0)
				mapSet(c, m, w, y, 1)
				for s, r := 0, h; s < 2; s, r = s+1, r/4 {
					k := []string{x, y}[r%2]
					if r%4 < 2 {
						mapSet(c, m, w, k, 1-s)
					} else {
						mapRemove(c, m, w, k)
					}
				}
				c.State(w.String())
				expectDoc(c, "map", m, w, 0)
				for _, k := range []string{x, y} {
					if w.idx(k) < 0 && (m.HasKey(k) || m.GetValue(k) != nil || !m.IsNull(k)) {
						c.Failf("absent key %q of %s is reported as present", k, w)
					}
				}
			}
		}},
		Harness{Name: "insertion-orders", Bound: "n keys inserted in ascending, descending, interleaved or scattered order, or of growing length, n of 3, 8, 9, 16, 17, 33, 64, 65, 66, 100, 129, 257 (thorough 1025): each (quick, n over 40: every seventh and the ends) replaced, removed, removed and put back", Body: func(c *Ctx) {
			sizes := []int{3, 8, 9, 16, 17, 33, 64, 65, 66, 100, 129, 257}
			if c.Thorough {
				sizes = append(sizes, 513, 1025)
			}
			n := sizes[c.Choose(len(sizes))]
			order := c.Choose(5)
			what := c.Choose(3)
			key := func(i int) string {
				j := i
				switch order {
				case 1:
					j = n - 1 - i
				case 2:
					j = i / 2
					if i%2 == 1 {
						j = n - 1 - i/2
					}
				case 3:
					j = (i*37 + 11) % 1511
				case 4:
					return strings.Repeat("x", i)
				}
				return "k" + strings.Repeat("0", 5-len(itoa(j))) + itoa(j)
			}
			m, w := json.NewMap(), mMap()
			for i := 0; i < n; i++ {
				m.SetUInt32Value(key(i), uint32(i))
				w.Keys, w.Vals = append(w.Keys, key(i)), append(w.Vals, mUintT("uint32", uint64(i)))
			}
			dictionary(c, m, w)
			last := -1
			for i := 0; i < n; i++ {
				if n > 40 && !c.Thorough && i%7 != 3 && i > 1 && i < n-2 {
					continue
				}
				if what == 0 {
					mapSet(c, m, w, key(i), i%7)
				} else {
					mapRemove(c, m, w, key(i))
					if what == 2 {
						mapSet(c, m, w, key(i), i%7)
					} else if i%3 != 0 && last >= 0 { // sometimes put an earlier one back
						mapSet(c, m, w, key(last), 0)
					}
				}
				last = i
				c.State(itoa(n), itoa(order), itoa(what), itoa(i))
				if n < 70 || i%5 == 0 || i > n-3 {
					dictionary(c, m, w)
				}
			}
			dictionary(c, m, w)
		}},
	)
	reg("C10",
		Harness{Name: "every-append", Bound: "every kind and form of object appended by value or pointer to a value, or put at an index, in lists which hold 0 to 9 elements or 16, 17, 33, 64, 65 of the same or another kind, then another append", Body: func(c *Ctx) {
			cat := smallCatalog()
			x := cat[c.Choose(len(cat))]
			n := []int{0, 1, 2, 3, 4, 5, 6, 7, 8, 9, 16, 17, 33, 64, 65}[c.Choose(15)]
			for _, y := range []cell{x, strCell("s", true), nilCell(), mapCell(mMap(), true)} {
				for how := 0; how < 3; how++ {
					a, w := json.NewArray(), mArr()
					for i := 0; i < n; i++ {
						a.AppendValue(json.NewValue(y.obj()))
						w.Vals = append(w.Vals, y.mv)
					}
					switch how {
					case 0:
						a.AppendValue(json.NewValue(x.obj()))
					case 1:
						a.AppendValueValue(json.NewValueValue(x.obj()))
					case 2:
						if n == 0 {
							continue
						}
						if ok, e := a.SetValueAtIndex(n/2, json.NewValue(x.obj())); !ok || e != nil {
							c.Failf("SetValueAtIndex(%d) = %v %v", n/2, ok, e)
						}
						w.Vals[n/2] = x.mv
					}
					if how < 2 {
						w.Vals = append(w.Vals, x.mv)
					}
					c.State(x.name, y.name, itoa(n), itoa(how))
					list(c, a, w)
					arrAppend(c, a, w, n%8)
					arrAppend(c, a, w, 2)
					list(c, a, w)
					arrRemove(c, a, w, n/2)
					list(c, a, w)
				}
			}
		}},
		Harness{Name: "larger", Bound: "lists of 1100 to 16385 (thorough 70000) elements: elements replaced and removed at both ends and around each power of two inside, appended", Body: func(c *Ctx) {
			sizes := widthSizes(c.Thorough)
			n := sizes[c.Choose(len(sizes))]
			a, w := filled(n)
			c.Op(n)
			what := c.Choose(3)
			c.State(itoa(n), itoa(what))
			for _, i := range []int{0, 1, 255, 256, 1023, 1024, 1025, 4095, 4096, 4097, 8192, 16383, 32768, n / 2, n - 3, n - 2, n - 1, n, n + 1, -1} {
				switch what {
				case 0:
					arrRemove(c, a, w, i)
				case 1:
					arrSetAt(c, a, w, i, i+3)
				case 2:
					arrRemove(c, a, w, i)
					arrAppend(c, a, w, (i+8)%8)
				}
			}
			list(c, a, w)
		}},
		Harness{Name: "long-histories", Bound: "periodic histories: every pattern of 4 operations out of append string, append null by value, replace first, remove first, remove middle, remove last, repeated 20 (thorough 80) times", Body: func(c *Ctx) {
			var pat [4]int
			for i := range pat {
				pat[i] = c.Choose(6)
			}
			reps := 20
			if c.Thorough {
				reps = 80
			}
			a, w := filled(3)
			for r := 0; r < reps; r++ {
				for j, op := range pat {
					n := len(w.Vals)
					switch op {
					case 0:
						arrAppend(c, a, w, 0)
					case 1:
						a.AppendValueValue(json.NewValueValue(nil))
						w.Vals = append(append([]*MV{}, w.Vals...), mNull())
					case 2:
						arrSetAt(c, a, w, 0, j)
					case 3:
						arrRemove(c, a, w, 0)
					case 4:
						arrRemove(c, a, w, n/2)
					case 5:
						arrRemove(c, a, w, n-1)
					}
				}
				if r < 3 || r%10 == 9 {
					list(c, a, w)
				}
			}
			c.State(w.String())
		}},
	)
	reg("C11",
		Harness{Name: "deeper", Bound: "documents 514 to 4097 (thorough 12000) deep in five patterns: the clone equal, and independent at the innermost, a middle and the outermost level", Body: func(c *Ctx) {
			w, n := deepDocument(c)
			m := buildMap(w)
			x := cloneMap(c, m)
			expectDoc(c, "clone", x, w, 0)
			v := w.clone()
			var path []int
			for at := v; at.K == 'm' || at.K == 'a'; {
				k := 0
				for i, y := range at.Vals {
					if y.K == 'm' || y.K == 'a' {
						k = i
					}
				}
				if y := at.Vals[k]; y.K != 'm' && y.K != 'a' {
					break
				}
				path = append(path, k)
				at = at.Vals[k]
			}
			for _, d := range []int{0, 1, n / 2, n - 1, n} {
				if d <= len(path) {
					mutate(c, x, v, path[:d], 0)
				}
			}
			expectDoc(c, "original", m, w, 0)
			expectDoc(c, "clone", x, v, 0)
			mutate(c, m, w, path, 0)
			expectDoc(c, "clone after a change of the original", x, v, 0)
		}},
		Harness{Name: "wider", Bound: "documents of 1100 to 16385 (thorough 70000) members: the clone equal and independent", Body: func(c *Ctx) {
			w := wideDocument(c)
			if w == nil {
				return
			}
			m := buildMap(w)
			x := cloneMap(c, m)
			expectDoc(c, "clone", x, w, 0)
			v := w.clone()
			n := len(w.Vals[1].Vals)
			for _, i := range []int{0, n / 2, n - 1} {
				mutate(c, x, v, []int{1, i}, 4)
			}
			mutate(c, x, v, []int{1}, 0)
			expectDoc(c, "original", m, w, 0)
			expectDoc(c, "clone", x, v, 0)
		}},
		Harness{Name: "key-pairs", Bound: "maps with every ordered pair of 150 related keys, and of long ones that differ in one place,: the clone equal, and edits of either under one of the keys stay there", Body: func(c *Ctx) {
			x, y, ok := keyPair(c)
			if !ok {
				return
			}
			w := mMap().set(x, mMap().set(y, mStr("1"))).set(y, mArr(mMap().set(x, mStr("2"))))
			m := buildMap(w)
			n := cloneMap(c, m)
			v := w.clone()
			c.State(w.String())
			expectDoc(c, "clone", n, w, 0)
			mutate(c, n, v, []int{0}, 1)
			mutate(c, n, v, []int{1}, 0)
			mutate(c, m, w, []int{0}, 2)
			expectDoc(c, "original", m, w, 0)
			expectDoc(c, "clone", n, v, 0)
		}},
	)
	reg("C12",
		Harness{Name: "key-pairs", Bound: "two values of each kind stored by typed setters under every ordered pair of 150 related keys, and of long ones that differ in one place,: each is returned under its own key, also after the other is stored again", Body: func(c *Ctx) {
			x, y, ok := keyPair(c)
			if !ok {
				return
			}
			m := json.NewMap()
			w := mMap()
			m.SetStringValue(x, "one")
			m.SetInt16Value(y, 2)
			w.set(x, mStr("one")).set(y, mIntT("int16", 2))
			expectDoc(c, "map", m, w, 1)
			m.SetBoolValue(x, true)
			w.set(x, mBool(true))
			expectDoc(c, "map", m, w, 1)
			m.SetFloat64Value(y, 1.5)
			w.set(y, mF64(1.5))
			m.SetMap(x, json.NewMap())
			w.set(x, mMap())
			expectDoc(c, "map", m, w, 1)
			c.State(x, y)
		}},
	)
	reg("C15",
		Harness{Name: "key-pairs", Bound: "a map with one of 150 related keys and any kind of value: every other related key is absent from it and from a map inside it", Body: func(c *Ctx) {
			ks := relatedKeys()
			x := ks[c.Choose(len(ks))]
			k := memberKinds(1)[c.Choose(7)]
			w := mMap().set(x, k).set("\x01m", mMap().set(x, k.clone()))
			m := buildMap(w)
			if c.Bool() {
				m = mustParse(c, w.text())
			}
			in, e := m.GetMap("\x01m")
			if e != nil || in == nil {
				c.Failf("no inner map: %s", errOf(e))
			}
			for _, y := range ks {
				if y == x {
					continue
				}
				c.State(x, y, k.String())
				for _, n := range []*json.Map{m, in} {
					c.Op(8)
					s, e1 := n.GetString(y)
					_, e2 := n.GetStringValue(y)
					i, e3 := n.GetInt(y)
					_, e4 := n.GetUInt8Value(y)
					o, e5 := n.GetMap(y)
					a, e6 := n.GetArray(y)
					if n.HasKey(y) || n.GetValue(y) != nil || !n.IsNull(y) || n.IsMap(y) || n.IsString(y) || s != nil || e1 != nil || e2 == nil || i != nil || e3 != nil || e4 == nil || o != nil || e5 != nil || a != nil || e6 != nil {
						c.Failf("the absent key %q of %s is reported as present", y, w)
					}
				}
			}
		}},
	)
	reg("C18",
		Harness{Name: "placed-values", Bound: "a value of each kind put by pointer over each kind of member or element, or appended, and then set to each of 9 kinds through the given value: seen in the document; the value that was there before is detached", Body: func(c *Ctx) {
			cells := smallCatalog()
			x := cells[c.Choose(len(cells))]
			before := leavesFull[c.Choose(len(leavesFull))].mk()
			kinds := []cell{nilCell(), strCell("new", false), intCell("int8", mIntT("int8", -3), true), boolCell(true, true), mapCell(mMap().set("n", mNull()), true), mapCell(mMap(), false), arrCell(mArr(mStr("n")), true), arrCell(mArr(), false), floatCell("float64", 2.5, false)}
			y := kinds[c.Choose(len(kinds))]
			where := c.Choose(4)
			w := mMap().set("m", mMap().set("p", mStr("p")).set("k", before).set("q", mNull())).set("l", mArr(mStr("p"), before.clone(), mNull()))
			root := handle{name: "root", m: cloneSource(c, c.Choose(2), w), is: lcOf(w)}
			mh, lh := acquire(c, root, 0, c.Choose(2)), acquire(c, root, 1, c.Choose(2))
			v := json.NewValue(x.obj())
			var old *json.Value
			slot := lbOf(x.mv.clone())
			switch where {
			case 0:
				old = mh.m.GetValue("k")
				mh.m.SetValue("k", v)
				mh.is.put("k", slot)
			case 1:
				old = (*lh.a.GetValues())[1]
				if ok, e := lh.a.SetValueAtIndex(1, v); !ok || e != nil {
					c.Failf("SetValueAtIndex = %v %v", ok, e)
				}
				lh.is.vals[1] = slot
			case 2:
				lh.a.AppendValue(v)
				lh.is.vals = append(lh.is.vals, slot)
			case 3:
				mh.m.SetValue("new", v)
				mh.is.put("new", slot)
			}
			checkAll(c, "after placing", root, mh, lh)
			_ = setValueTo(c, v, y)
			*slot = *lbOf(y.mv.clone())
			c.State(x.name, y.name, before.String(), itoa(where))
			checkAll(c, "after setting the value that was put in", root, mh, lh)
			if old != nil {
				old.SetStringValue("detached")
				checkAll(c, "after setting the value that was replaced", root, mh, lh)
			}
			if slot.c != nil {
				p, i := lh, len(lh.is.vals)-1
				switch where {
				case 0:
					p, i = mh, mh.is.idx("k")
				case 1:
					i = 1
				case 3:
					p, i = mh, mh.is.idx("new")
				}
				h := acquire(c, p, i, 2)
				edit(c, h, 0, 1)
				checkAll(c, "after editing what is there", root, mh, lh, h)
			}
		}},
		Harness{Name: "replaced-containers", Bound: "a map, list or text put over a map, list or text of 0 to 2 members by every setter (12 into a map, 6 over an element), while handles of the old one and its children are held: edits of the old and new ones stay apart", Body: func(c *Ctx) {
			n := c.Choose(3)
			mk := func(name string, k, n int) *MV {
				w := mMap()
				if k == 1 {
					w = mArr()
				}
				for i := 0; i < n; i++ {
					if k == 0 {
						w.set("x"+itoa(i), mMap().set(name, mStr("1")))
					} else {
						w.Vals = append(w.Vals, mMap().set(name, mStr("1")))
					}
				}
				return w
			}
			o := mk("old", c.Choose(2), n)
			w := mMap().set("p", mStr("p")).set("k", o)
			inList := c.Bool()
			if inList {
				w = mMap().set("l", mArr(mStr("p"), o))
			}
			root := handle{name: "root", m: cloneSource(c, c.Choose(2), w), is: lcOf(w)}
			parent := root
			if inList {
				parent = acquire(c, root, 0, 0)
			}
			old := acquire(c, parent, 1, c.Choose(2))
			hs := []handle{old}
			if n > 0 {
				hs = append(hs, acquire(c, old, 0, 0))
			}
			var fresh handle
			fk := c.Choose(2)
			fn := c.Choose(3)
			fw := mk("new", fk, fn)
			if fk == 0 {
				fresh = handle{name: "fresh", m: buildMap(fw), is: lcOf(fw)}
			} else {
				fresh = handle{name: "fresh", a: buildArr(fw), is: lcOf(fw)}
			}
			if inList {
				how := []int{6, 7, 8, 9}[c.Choose(4)]
				if !putInArr(c, parent, how, fresh) {
					return
				}
			} else if !putInMap(c, parent, "k", c.Choose(nMapPuts), fresh) {
				return
			}
			hs = append(hs, fresh, parent, root)
			if fn > 0 {
				hs = append(hs, acquire(c, fresh, fn-1, 1))
			}
			checkAll(c, "after the replacement", hs...)
			for i, h := range hs {
				if h.is != parent.is && h.is != root.is {
					edit(c, h, i%2*3, i)
					checkAll(c, "after an edit", hs...)
				}
			}
			c.State(root.is.mv().String(), old.is.mv().String())
		}},
		Harness{Name: "key-pairs", Bound: "containers under every ordered pair of 150 related keys, and of long ones that differ in one place,: an edit through a handle shows under its key only; replaced under one key, the other stays", Body: func(c *Ctx) {
			x, y, ok := keyPair(c)
			if !ok {
				return
			}
			w := mMap().set(x, mMap().set(y, mStr("1"))).set(y, mArr(mMap()))
			root := handle{name: "root", m: buildMap(w), is: lcOf(w)}
			a, b := acquire(c, root, 0, 0), acquire(c, root, 1, 2)
			edit(c, a, 0, 1)
			edit(c, b, 0, 2)
			checkAll(c, "after edits", root, a, b)
			root.m.SetStringValue(x, "s")
			root.is.put(x, lbOf(mStr("s")))
			edit(c, a, 0, 3)
			edit(c, b, 3, 4)
			c.State(root.is.mv().String())
			checkAll(c, "after a replacement", root, a, b)
		}},
	)
	reg("C19",
		Harness{Name: "separate-documents", Bound: "every tree of up to 2 nodes (thorough 3) over 6 kinds of leaf: two documents of it from any of 5 sources (parsed, built three ways, cloned), one changed at any node in any of 8 ways before or after the other is made, and a third made from it afterwards: the others are as if alone", Body: func(c *Ctx) {
			n := 2
			if c.Thorough {
				n = 3
			}
			w := genTree(c, n, leavesClone)
			mk := func(how int) *json.Map {
				if how == 4 {
					return cloneMap(c, mustParse(c, w.text()))
				}
				return cloneSource(c, how, w)
			}
			s1, s2 := c.Choose(5), c.Choose(5)
			late := c.Bool()
			m1 := mk(s1)
			var m2 *json.Map
			if !late {
				m2 = mk(s2)
			}
			v := w.clone()
			sites := sitesOf(w)
			ok, known := mutate(c, m1, v, sites[c.Choose(len(sites))], c.Choose(8))
			if !ok || !known {
				return
			}
			if late {
				m2 = mk(s2)
			}
			m3 := mk(s1)
			c.State(w.String(), v.String(), itoa(s1), itoa(s2))
			expectDoc(c, "the other document", m2, w, 0)
			expectDoc(c, "a third document", m3, w, 0)
			expectDoc(c, "the changed document", m1, v, 0)
			v2 := w.clone()
			if ok, known := mutate(c, m2, v2, []int{}, 0); ok && known {
				expectDoc(c, "the changed document after a change of the other", m1, v, 0)
				expectDoc(c, "the third document after a change of the other", m3, w, 0)
				expectDoc(c, "the other document", m2, v2, 0)
				expectText(c, "the other document", m2, v2)
			}
			expectText(c, "the third document", m3, w)
		}},
		Harness{Name: "many-documents", Bound: "n documents of one of 12 texts kept side by side, n of the size sweep up to 130 (thorough 1100), each changed in its own way: all as if alone", Body: func(c *Ctx) {
			max := 130
			if c.Thorough {
				max = 1100
			}
			sizes := sweep(max)
			n := sizes[c.Choose(len(sizes))]
			b := baseDocs()
			w := b[c.Choose(12)]
			how := c.Choose(2)
			var ms []*json.Map
			for i := 0; i < n; i++ {
				ms = append(ms, cloneSource(c, how, w))
				ms[i].SetIntValue("own", i)
			}
			c.State(itoa(n), w.String())
			for i, m := range ms {
				expectDoc(c, "document "+itoa(i), m, w.clone().set("own", mIntT("int", int64(i))), 0)
			}
		}},
	)
	reg("C20",
		Harness{Name: "key-pairs", Bound: "maps made from Go maps with every pair of 150 related keys: each value under its own key, and only there", Body: func(c *Ctx) {
			x, y, ok := keyPair(c)
			if !ok || x > y {
				return
			}
			g := map[string]interface{}{x: "one", y: 2, "\x01m": json.NewMap()}
			m := json.NewMapOfValues(&g)
			w := mMap().set(x, mStr("one")).set(y, mIntT("int", 2)).set("\x01m", mMap())
			ks := m.GetKeys()
			if len(ks) != 3 {
				c.Failf("keys %q from %q, %q and one more", ks, x, y)
			}
			o := mMap()
			for _, k := range ks {
				i := w.idx(k)
				if i < 0 {
					c.Failf("key %q out of nowhere", k)
				}
				o.set(k, w.Vals[i])
			}
			c.State(x, y)
			expectDoc(c, "map", m, o, 0)
			g[x] = "changed"
			delete(g, y)
			expectDoc(c, "map", m, o, 0)
		}},
	)
}
