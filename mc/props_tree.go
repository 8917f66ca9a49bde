package main

import (
	"math/big"
	"regexp"
	"strconv"
	"strings"

	json "github.com/matehaxor03/holistic_json/json"
)

// parsesTo: text must be accepted and give exactly w.
func parsesTo(c *Ctx, text string, w *MV, d int) *json.Map {
	if c.verbose {
		c.Logf("Parse(%s)", clipText(text))
	}
	m := mustParse(c, text)
	if s := checkMap(c, "", m, w, d); s != "" {
		c.Failf("document parsed from %q: %s", clipText(text), s)
	}
	return m
}

func cycleLeaf(i int) *MV { return leavesFull[i%len(leavesFull)].mk() }

func init() {
	reg("C02",
		Harness{Name: "trees", Bound: "every tree of up to 4 (thorough 5) nodes over 10 kinds of leaf", Body: func(c *Ctx) {
			n := 4
			if c.Thorough {
				n = 5
			}
			w := genTree(c, n, leavesFull)
			c.State(w.String())
			parsesTo(c, w.text(), w, 1)
		}},
		Harness{Name: "shapes", Bound: "every tree of up to 6 nodes with four kinds of leaf, and (thorough) up to 8 nodes with two", Body: func(c *Ctx) {
			var w *MV
			if c.Thorough && c.Bool() {
				w = genTree(c, 8, leavesTwo)
			} else {
				w = genTree(c, 6, leavesSmall)
			}
			c.State(w.String())
			parsesTo(c, w.text(), w, 0)
		}},
		Harness{Name: "duplicate-keys", Bound: "every sequence of up to 4 (thorough 5) members over keys a b c and six kinds of value, at top level, in a nested map and in a map inside an array", Body: func(c *Ctx) {
			max := 4
			if c.Thorough {
				max = 5
			}
			n := 2 + c.Choose(max-1)
			where := c.Choose(3)
			w := mMap()
			var t []string
			kinds := []*MV{mLit(false, 1), mStr("s"), mNull(), mMap().set("x", mLit(false, 2)), mArr(mLit(false, 3)), mMap()}
			keys := []string{"a", "b", "c"}
			for i := 0; i < n; i++ {
				k := keys[c.Choose(min(i+1, 3))] // names in order of first use
				v := kinds[c.Choose(len(kinds))]
				w.set(k, v.clone())
				t = append(t, quoteJSON(k)+":"+v.text())
			}
			text := "{" + strings.Join(t, ",") + "}"
			switch where {
			case 1:
				w, text = mMap().set("m", w).set("z", mLit(false, 9)), `{"m":`+text+`,"z":9}`
			case 2:
				w, text = mMap().set("l", mArr(w, mLit(false, 9))), `{"l":[`+text+`,9]}`
			}
			c.State(text)
			parsesTo(c, text, w, 0)
		}},
		Harness{Name: "widths", Bound: "objects and arrays of n members for every n of the size sweep up to 1025, of each leaf kind and mixed, at top level and nested", Body: func(c *Ctx) {
			sizes := sweep(1025)
			n := sizes[c.Choose(len(sizes))]
			kind := c.Choose(len(leavesFull) + 1)
			if n > 130 && kind > 1 && kind < len(leavesFull) && !c.Thorough {
				return
			}
			mk := func(i int) *MV {
				if kind < len(leavesFull) {
					return leavesFull[kind].mk()
				}
				return cycleLeaf(i)
			}
			o, a := mMap(), mArr()
			for i := 0; i < n; i++ {
				o.Keys = append(o.Keys, "k"+itoa(i))
				o.Vals = append(o.Vals, mk(i))
				a.Vals = append(a.Vals, mk(i))
			}
			c.State(itoa(n), itoa(kind))
			var w *MV
			switch c.Choose(4) {
			case 0:
				w = o
			case 1:
				w = mMap().set("a", a)
			case 2:
				w = mMap().set("l", mArr(mLit(false, 1), o, mStr("e"))).set("z", mNull())
			case 3:
				w = mMap().set("m", mMap().set("l", mArr(a, mMap()))).set("z", mNull())
			}
			parsesTo(c, w.text(), w, 0)
		}},
		Harness{Name: "many-duplicates", Bound: "n members over m distinct keys cycling, n and m of the size sweep up to 130, last value wins", Body: func(c *Ctx) {
			sizes := sweep(130)
			n := sizes[c.Choose(len(sizes))]
			mods := []int{1, 2, 3, 5, 16, 17, 33, 64, 65, 100}
			mod := mods[c.Choose(len(mods))]
			w := mMap()
			var t []string
			for i := 0; i < n; i++ {
				k := "k" + itoa(i%mod)
				v := cycleLeaf(i)
				w.set(k, v)
				t = append(t, quoteJSON(k)+":"+v.text())
			}
			c.State(itoa(n), itoa(mod))
			parsesTo(c, "{"+strings.Join(t, ",")+"}", w, 0)
		}},
		Harness{Name: "nesting", Bound: "every nesting pattern of objects and arrays to depth 7 (thorough 9) with and without members before and after", Body: func(c *Ctx) {
			max := 7
			if c.Thorough {
				max = 9
			}
			n := 1 + c.Choose(max)
			side := c.Choose(4)
			w := nest(n, side, func(int) bool { return c.Bool() })
			c.State(w.String())
			parsesTo(c, w.text(), w, 0)
		}},
		Harness{Name: "deep", Bound: "nesting of objects, arrays and alternations to every depth of the size sweep up to 513 (thorough 1025), with members before and after", Body: func(c *Ctx) {
			sizes := sweep(513)
			if c.Thorough {
				sizes = sweep(1025)
			}
			n := sizes[c.Choose(len(sizes))]
			if n == 0 {
				return
			}
			side := c.Choose(4)
			pat := c.Choose(4)
			w := nest(n, side, func(i int) bool {
				switch pat {
				case 0:
					return true
				case 1:
					return false
				case 2:
					return i%2 == 0
				}
				return i%3 == 0
			})
			c.State(itoa(n), itoa(side), itoa(pat))
			parsesTo(c, w.text(), w, 0)
		}},
		Harness{Name: "many-containers", Bound: "n sibling containers each with one or two members, n of the size sweep up to 257", Body: func(c *Ctx) {
			sizes := sweep(257)
			n := sizes[c.Choose(len(sizes))]
			k := c.Choose(4)
			w := mMap()
			l := mArr()
			for i := 0; i < n; i++ {
				var x *MV
				switch k {
				case 0:
					x = mMap().set("a", mLit(false, uint64(i)))
				case 1:
					x = mArr(mLit(false, uint64(i)), mStr("s"))
				case 2:
					x = mMap().set("a", mArr(mMap()))
				case 3:
					x = mArr(mMap().set("b", mNull()), mArr())
				}
				w.set("k"+itoa(i), x)
				l.Vals = append(l.Vals, x.clone())
			}
			w.set("list", l)
			c.State(itoa(n), itoa(k))
			parsesTo(c, w.text(), w, 0)
		}},
	)

	reg("C04",
		Harness{Name: "deviations", Bound: "every base document with up to two gaps filled with one of 9 whitespace runs", Body: func(c *Ctx) {
			bases := baseDocs()
			w := bases[c.Choose(len(bases))]
			toks := w.tokens(nil)
			runs := []string{"", " ", "\n", "\t", "\r", "\r\n", "  ", "\n\n\t ", " \t\r\n"}
			c.dev = 2
			var b strings.Builder
			for i, t := range toks {
				if i > 0 {
					b.WriteString(runs[c.ChooseDev(len(runs))])
				}
				b.WriteString(t)
			}
			c.State(b.String())
			parsesTo(c, b.String(), w, 0)
		}},
		Harness{Name: "uniform", Bound: "every base document and every tree of up to 3 (thorough 4) nodes with the same run in every gap: every run of up to 3 of the four whitespace characters", Body: func(c *Ctx) {
			var w *MV
			if c.Bool() {
				bases := baseDocs()
				w = bases[c.Choose(len(bases))]
			} else {
				n := 3
				if c.Thorough {
					n = 4
				}
				w = genTree(c, n, leavesFull)
			}
			toks := w.tokens(nil)
			var runs []string
			ws := []string{" ", "\n", "\t", "\r"}
			runs = append(runs, ws...)
			for _, x := range ws {
				for _, y := range ws {
					runs = append(runs, x+y)
				}
			}
			if len(toks) < 18 {
				for _, x := range ws {
					for _, y := range ws {
						for _, z := range ws {
							runs = append(runs, x+y+z)
						}
					}
				}
			}
			for _, r := range runs {
				t := strings.Join(toks, r)
				c.State(t)
				parsesTo(c, t, w, 0)
			}
		}},
		Harness{Name: "product", Bound: "small documents (up to 11 gaps) with every combination of none, newline or tab in the gaps", Body: func(c *Ctx) {
			docs := []*MV{
				mMap(), mMap().set("a", mLit(false, 1)), mMap().set("a", mStr("x")), mMap().set("a", mMap()), mMap().set("a", mArr()),
				mMap().set("a", mArr(mLit(false, 1), mStr("x"))), mMap().set("a", mArr(mArr())), mMap().set("a", mArr(mMap())),
				mMap().set("a", mMap().set("b", mNull())), mMap().set("a", mLit(true, 1)).set("b", mBool(true)), mMap().set("a", mArr(mNull(), mArr(mF32(1.5)))),
			}
			w := docs[c.Choose(len(docs))]
			toks := w.tokens(nil)
			runs := []string{"", "\n", "\t"}
			if len(toks) <= 8 {
				runs = []string{"", " ", "\n", "\t", "\r"}
			}
			var b strings.Builder
			for i, t := range toks {
				if i > 0 {
					b.WriteString(runs[c.Choose(len(runs))])
				}
				b.WriteString(t)
			}
			c.State(b.String())
			parsesTo(c, b.String(), w, 0)
		}},
		Harness{Name: "lengths", Bound: "one run of each whitespace character of every length of the size sweep up to 4097 in every gap of six documents", Body: func(c *Ctx) {
			bases := baseDocs()
			w := []*MV{bases[12], bases[14], bases[18], bases[22], bases[16], bases[19]}[c.Choose(6)]
			toks := w.tokens(nil)
			g := 1 + c.Choose(len(toks)-1)
			ch := []string{" ", "\n", "\t", "\r"}[c.Choose(4)]
			for _, n := range sweep(4097) {
				if n > 70 && !c.Thorough && n != 127 && n != 128 && n != 255 && n != 256 && n != 257 && n != 1024 && n != 4096 {
					continue
				}
				t := strings.Join(toks[:g], "") + strings.Repeat(ch, n) + strings.Join(toks[g:], "")
				c.State(w.text(), itoa(g), ch, itoa(n))
				parsesTo(c, t, w, 0)
			}
		}},
		Harness{Name: "pretty", Bound: "every tree of up to 4 nodes over 10 kinds of leaf printed with line breaks and indentation in three styles", Body: func(c *Ctx) {
			w := genTree(c, 4, leavesFull)
			for _, nl := range []string{"\n", "\r\n"} {
				for _, in := range []string{"  ", "\t"} {
					for _, sep := range []string{": ", " : "} {
						var b strings.Builder
						pretty(&b, w, nl, in, sep, 0)
						c.State(b.String())
						parsesTo(c, b.String(), w, 0)
					}
				}
			}
		}},
		Harness{Name: "string-neighbours", Bound: "whitespace next to and inside strings which themselves hold blanks, quotes and structural characters: strings of up to 2 nasty characters as keys and values", Body: func(c *Ctx) {
			s := genString(c, nasty, 2)
			for _, r := range []string{" ", "\n", "\t\r ", "   "} {
				w := mMap().set(s, mStr(s)).set("z"+s, mArr(mStr(s), mLit(false, 1), mStr(s)))
				t := strings.Join(w.tokens(nil), r)
				c.State(t)
				parsesTo(c, t, w, 0)
			}
		}},
	)
}

func pretty(b *strings.Builder, m *MV, nl, in, sep string, depth int) {
	if (m.K != 'm' && m.K != 'a') || len(m.Vals) == 0 {
		b.WriteString(m.text())
		return
	}
	open, shut := "{", "}"
	if m.K == 'a' {
		open, shut = "[", "]"
	}
	b.WriteString(open + nl)
	for i, v := range m.Vals {
		b.WriteString(strings.Repeat(in, depth+1))
		if m.K == 'm' {
			b.WriteString(quoteJSON(m.Keys[i]) + sep)
		}
		pretty(b, v, nl, in, sep, depth+1)
		if i < len(m.Vals)-1 {
			b.WriteString(",")
		}
		b.WriteString(nl)
	}
	b.WriteString(strings.Repeat(in, depth) + shut)
}

// nest builds n containers inside each other; side bit 0: a member before, bit 1: one after.
func nest(n, side int, isMap func(i int) bool) *MV {
	kinds := make([]bool, n)
	for i := range kinds {
		kinds[i] = isMap(i)
	}
	w := mLit(false, 1)
	for i := n - 1; i >= -1; i-- {
		if i < 0 || kinds[i] {
			x := mMap()
			if side&1 != 0 {
				x.set("b", mStr("before"))
			}
			x.set("in", w)
			if side&2 != 0 {
				x.set("z", mLit(true, 5))
			}
			w = x
		} else {
			x := mArr()
			if side&1 != 0 {
				x.Vals = append(x.Vals, mStr("before"))
			}
			x.Vals = append(x.Vals, w)
			if side&2 != 0 {
				x.Vals = append(x.Vals, mNull())
			}
			w = x
		}
	}
	return w
}

// ---- C05: number literals ----

// numberWant is what a JSON number literal denotes: the narrowest type, or nil when it must be an error.
// alt is a second acceptable answer (single or double precision for numbers too small for normal floats).
func numberWant(lit string) (want, alt *MV) {
	neg := strings.HasPrefix(lit, "-")
	body := strings.TrimPrefix(lit, "-")
	if !strings.ContainsAny(body, ".eE") {
		x, ok := new(big.Int).SetString(body, 10)
		if !ok {
			panic(lit)
		}
		if !x.IsUint64() || neg && x.Uint64() > 1<<63 {
			return nil, nil
		}
		return mLit(neg, x.Uint64()), nil
	}
	mant, exp := body, 0
	if i := strings.IndexAny(body, "eE"); i >= 0 {
		mant = body[:i]
		exp, _ = strconv.Atoi(body[i+1:])
	}
	frac := 0
	if i := strings.Index(mant, "."); i >= 0 {
		frac = len(mant) - i - 1
		mant = mant[:i] + mant[i+1:]
	}
	n, ok := new(big.Int).SetString(mant, 10)
	if !ok {
		panic(lit)
	}
	exp -= frac
	r := new(big.Rat).SetInt(n)
	p := new(big.Rat).SetInt(new(big.Int).Exp(big.NewInt(10), big.NewInt(int64(abs(exp))), nil))
	if exp < 0 {
		r.Quo(r, p)
	} else {
		r.Mul(r, p)
	}
	f32, _ := r.Float32()
	f64, _ := r.Float64()
	if neg {
		f32, f64 = -f32, -f64
	}
	inf := new(big.Rat).SetInt(new(big.Int).Lsh(big.NewInt(1), 20000))
	_ = inf
	isInf32 := f32 > 3.4028234663852886e38 || f32 < -3.4028234663852886e38
	isInf64 := f64 > 1.7976931348623157e308 || f64 < -1.7976931348623157e308
	switch {
	case isInf64:
		return nil, nil
	case isInf32:
		return mF64(f64), nil
	}
	want = mF32(f32)
	if n.Sign() != 0 && f64 < 1.17549435e-38 && f64 > -1.17549435e-38 {
		alt = mF64(f64)
	}
	return want, alt
}

func numberDoc(lit string, pos int) string {
	switch pos {
	case 0:
		return `{"a":` + lit + `}`
	case 1:
		return `{"a":[` + lit + `]}`
	case 2:
		return `{"a":` + lit + `,"b":1}`
	case 3:
		return `{"a":[` + lit + `,1]}`
	case 4:
		return `{"a":[1,` + lit + `]}`
	case 5:
		return "{\"a\": " + lit + "\n}"
	case 6:
		return "{\"a\":[ " + lit + " ]}"
	}
	panic("pos")
}

const nNumPos = 7

func numberVal(c *Ctx, m *json.Map, pos int) *json.Value {
	v := m.GetValue("a")
	if v == nil {
		c.Failf("no value")
	}
	if pos == 0 || pos == 2 || pos == 5 {
		return v
	}
	a, e := v.GetArray()
	want := 1
	if pos == 3 || pos == 4 {
		want = 2
	}
	if e != nil || a == nil || a.Len() != want {
		c.Failf("array lost elements")
	}
	if pos == 4 {
		return (*a.GetValues())[1]
	}
	return (*a.GetValues())[0]
}

// checkLiteral decides one literal in one position.
func checkLiteral(c *Ctx, lit string, pos int) {
	want, alt := numberWant(lit)
	text := numberDoc(lit, pos)
	c.State(text)
	m, errs := parseOutcome(c, text)
	if want == nil {
		if m != nil {
			c.Failf("%s: out of range but accepted", text)
		}
		return
	}
	if m == nil {
		c.Failf("%s rejected: %s", clipText(text), errOf(errs))
	}
	v := numberVal(c, m, pos)
	s := checkVal(c, lit, v, want, 1)
	if s != "" && alt != nil {
		s = checkVal(c, lit, v, alt, 1)
	}
	if s != "" {
		c.Failf("%s: %s", text, s)
	}
}

// batch parses many literals in one array or one map and checks each.
func checkBatch(c *Ctx, lits []string, inMap bool) {
	var b strings.Builder
	if inMap {
		b.WriteString("{")
	} else {
		b.WriteString(`{"a":[`)
	}
	for i, l := range lits {
		if i > 0 {
			b.WriteString(",")
		}
		if inMap {
			b.WriteString(`"` + itoa(i) + `":`)
		}
		b.WriteString(l)
	}
	if inMap {
		b.WriteString("}")
	} else {
		b.WriteString("]}")
	}
	m := mustParse(c, b.String())
	var vals []*json.Value
	if inMap {
		vals = *m.Values().GetValues()
	} else {
		a, e := m.GetArray("a")
		if e != nil || a == nil {
			c.Failf("array unreadable")
		}
		vals = *a.GetValues()
	}
	if len(vals) != len(lits) {
		c.Failf("%d values from %d literals", len(vals), len(lits))
	}
	for i, l := range lits {
		c.State(l)
		want, _ := numberWant(l)
		if s := checkVal(c, l, vals[i], want, 1); s != "" {
			c.Failf("%s", s)
		}
	}
}

var lenientNumber = regexp.MustCompile(`^[+-]?([0-9]+\.?[0-9]*|\.[0-9]+)([eE][+-]?[0-9]+)?$`)

func init() {
	reg("C05",
		Harness{Name: "every-integer", Bound: "every integer from -70000 to 70000 (thorough -300000 to 300000), as array element and as map member", Body: func(c *Ctx) {
			lim := 70000
			if c.Thorough {
				lim = 300000
			}
			const size = 100
			inMap := c.Bool()
			n := c.Choose(2 * lim / size)
			lo := -lim + n*size
			var lits []string
			for i := lo; i < lo+size; i++ {
				lits = append(lits, strconv.Itoa(i))
			}
			if lo == 0 {
				lits = append(lits, "-0")
			}
			checkBatch(c, lits, inMap)
		}},
		Harness{Name: "limits", Bound: "every integer within 130 of each power of two and of ten up to 2^66, both signs, in 7 positions", Body: func(c *Ctx) {
			var centre *big.Int
			if k := c.Choose(67 + 21); k < 67 {
				centre = new(big.Int).Lsh(big.NewInt(1), uint(k))
			} else {
				centre = new(big.Int).Exp(big.NewInt(10), big.NewInt(int64(k-67)), nil)
			}
			neg := c.Bool()
			pos := c.Choose(nNumPos)
			step := int64(1)
			rad := int64(130)
			if !c.Thorough && pos > 1 {
				rad = 3
			}
			for d := -rad; d <= rad; d += step {
				x := new(big.Int).Add(centre, big.NewInt(d))
				if x.Sign() < 0 {
					continue
				}
				l := x.String()
				if neg {
					l = "-" + l
				}
				checkLiteral(c, l, pos)
			}
		}},
		Harness{Name: "digits", Bound: "every integer of 1 to 25 digits made of one repeated digit, or of one leading digit and zeros or nines, both signs, 7 positions", Body: func(c *Ctx) {
			n := 1 + c.Choose(25)
			d := byte('1' + c.Choose(9))
			pos := c.Choose(nNumPos)
			for _, neg := range []string{"", "-"} {
				for _, l := range []string{strings.Repeat(string(d), n), string(d) + strings.Repeat("0", n-1), string(d) + strings.Repeat("9", n-1), "1" + strings.Repeat("0", n-1) + string(d)} {
					checkLiteral(c, neg+l, pos)
				}
			}
		}},
		Harness{Name: "long-integers", Bound: "integers of every number of digits of the size sweep up to 1025 are errors beyond the range", Body: func(c *Ctx) {
			sizes := sweep(1025)
			n := sizes[c.Choose(len(sizes))]
			if n == 0 {
				return
			}
			for _, d := range []string{"1", "9"} {
				checkLiteral(c, strings.Repeat(d, n), c.Choose(2))
				checkLiteral(c, "-"+strings.Repeat(d, n), 1)
			}
		}},
		Harness{Name: "fractions", Bound: "every i.f with i below 300 or at a limit and f every fraction of up to 3 digits (quick 2), both signs, member and element", Body: func(c *Ctx) {
			ints := []string{}
			for i := 0; i < 300; i++ {
				if i < 20 || c.Thorough || i%50 == 7 || i > 250 {
					ints = append(ints, itoa(i))
				}
			}
			ints = append(ints, "65535", "65536", "16777215", "16777216", "16777217", "4294967295", "4294967296", "9007199254740993", "18446744073709551615", "18446744073709551616", "340282346638528859811704183484516925440", "340282356779733661637539395458142568447", "340282356779733661637539395458142568448")
			l := ints[c.Choose(len(ints))]
			k := 2
			if c.Thorough {
				k = 3
			}
			neg := []string{"", "-"}[c.Choose(2)]
			for n := 1; n <= k; n++ {
				p := 1
				for i := 0; i < n; i++ {
					p *= 10
				}
				for f := 0; f < p; f++ {
					s := strconv.Itoa(f)
					s = strings.Repeat("0", n-len(s)) + s
					checkLiteral(c, neg+l+"."+s, (f+n)%2)
				}
			}
		}},
		Harness{Name: "exponents", Bound: "mantissas in 8 spellings with every exponent from -400 to 400 in 5 spellings, both signs", Body: func(c *Ctx) {
			mants := []string{"1", "9", "1.5", "0.1", "3.4028234663852886", "3.4028235677973366", "1.7976931348623157", "1.7976931348623159", "12345678901234567890", "0.000123", "1.17549435", "4.9406564584124654", "123.456"}
			m := mants[c.Choose(len(mants))]
			e := c.Choose(801) - 400
			neg := []string{"", "-"}[c.Choose(2)]
			var forms []string
			a := strconv.Itoa(abs(e))
			if e < 0 {
				forms = []string{"e-" + a, "E-" + a, "e-0" + a}
			} else {
				forms = []string{"e" + a, "E" + a, "e+" + a, "E+" + a, "e0" + a}
			}
			for i, f := range forms {
				if i > 1 && e%10 != 0 && !c.Thorough {
					continue
				}
				checkLiteral(c, neg+m+f, (i+abs(e))%2)
			}
		}},
		Harness{Name: "mantissas", Bound: "every literal d.ddd...e-n with 1 to 60 fractional digits of five patterns, both signs, in 7 positions", Body: func(c *Ctx) {
			n := 1 + c.Choose(60)
			pat := []string{"0", "9", "1", "3", "5", "12", "16", "0625", "009"}[c.Choose(9)]
			f := strings.Repeat(pat, n)[:n]
			for pos := 0; pos < nNumPos; pos++ {
				for _, i := range []string{"0", "1", "7", "255", "16777216"} {
					checkLiteral(c, i+"."+f, pos)
					checkLiteral(c, "-"+i+"."+f, pos)
				}
			}
		}},
		Harness{Name: "neighbours", Bound: "every ordered pair of 30 literals side by side in an array and in a map", Body: func(c *Ctx) {
			lits := []string{"0", "1", "-1", "127", "128", "-128", "-129", "255", "256", "-32768", "-32769", "65535", "65536", "-2147483648", "-2147483649", "4294967295", "4294967296",
				"9223372036854775807", "9223372036854775808", "-9223372036854775808", "18446744073709551615", "1.5", "-1.5", "0.0", "1e3", "-2E-2", "1e39", "3.5e38", "1e300", "0.1"}
			x, y := lits[c.Choose(len(lits))], lits[c.Choose(len(lits))]
			for _, s := range []string{",", " ,\n"} {
				t := `{"a":` + x + s + `"b":` + y + s + `"c":[` + x + s + y + s + x + `]}`
				c.State(t)
				nx, _ := numberWant(x)
				ny, _ := numberWant(y)
				parsesTo(c, t, mMap().set("a", nx).set("b", ny).set("c", mArr(nx, ny, nx)), 1)
			}
		}},
		Harness{Name: "malformed", Bound: "every word of up to 5 (thorough 6) characters of 1 0 . - + e: a word that is not a number is an error, and a JSON number literal is exact", Body: func(c *Ctx) {
			n := 5
			if c.Thorough {
				n = 6
			}
			l := genString(c, []string{"1", "0", ".", "-", "+", "e"}, n)
			if l == "" {
				return
			}
			strict := regexpJSON.MatchString(l)
			for pos := 0; pos < 2; pos++ {
				if strict {
					checkLiteral(c, l, pos)
					continue
				}
				c.State(l)
				m, _ := parseOutcome(c, numberDoc(l, pos))
				if m != nil && !lenientNumber.MatchString(l) {
					c.Failf("%s: not a number but accepted", numberDoc(l, pos))
				}
			}
		}},
	)
}

var regexpJSON = regexp.MustCompile(`^-?(0|[1-9][0-9]*)(\.[0-9]+)?([eE][+-]?[0-9]+)?$`)
