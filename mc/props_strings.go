package main

import (
	"strconv"
	"strings"

	json "github.com/matehaxor03/holistic_json/json"
)

// strPositions: the ways a string can stand in a document. lit is the literal, s what it denotes.
const nStrPos = 12

func strDoc(pos int, lit, s string) (string, *MV) {
	one := mLit(false, 1)
	switch pos {
	case 0:
		return `{"k":` + lit + `}`, mMap().set("k", mStr(s))
	case 1:
		return `{` + lit + `:1}`, mMap().set(s, one)
	case 2:
		return `{"k":[` + lit + `]}`, mMap().set("k", mArr(mStr(s)))
	case 3:
		return `{` + lit + `:{}}`, mMap().set(s, mMap())
	case 4:
		return `{` + lit + `:[]}`, mMap().set(s, mArr())
	case 5:
		return `{` + lit + `:` + lit + `}`, mMap().set(s, mStr(s))
	case 6:
		return `{"k":[1,` + lit + `,` + lit + `,1]}`, mMap().set("k", mArr(one, mStr(s), mStr(s), one))
	case 7:
		return `{"k":` + lit + `,"k2":1}`, mMap().set("k", mStr(s)).set("k2", one)
	case 8:
		return `{` + lit + `:{"x":1},"\u0001z":1}`, mMap().set(s, mMap().set("x", one)).set("\x01z", one)
	case 9:
		return `{` + lit + `:[1,2],"\u0001z":1}`, mMap().set(s, mArr(one, mLit(false, 2))).set("\x01z", one)
	case 10:
		return `{"k":[{` + lit + `:` + lit + `},[` + lit + `]],"k2":null}`, mMap().set("k", mArr(mMap().set(s, mStr(s)), mArr(mStr(s)))).set("k2", mNull())
	case 11:
		return "{\n " + lit + " : " + lit + " ,\n \"\\u0001z\" : [ " + lit + " ]\n}", mMap().set(s, mStr(s)).set("\x01z", mArr(mStr(s)))
	}
	panic("pos")
}

// runePieces returns every spelling of a character.
func runePieces(r rune) []string {
	seen := map[string]bool{}
	var out []string
	for st := 0; st < 5; st++ {
		p := spellRune(r, st)
		if !seen[p] {
			seen[p] = true
			out = append(out, p)
		}
	}
	return out
}

func init() {
	reg("C03",
		Harness{Name: "contents", Bound: "every string of up to 3 characters from 30 special ones, in 3 spellings and with raw control characters, in 12 positions (length 3: 12 special characters in every position, all 30 in the thorough tier)", Body: func(c *Ctx) {
			n := c.Choose(4)
			alpha := nasty
			if n == 3 && !c.Thorough {
				alpha = nastySmall
			}
			var b strings.Builder
			for i := 0; i < n; i++ {
				b.WriteString(alpha[c.Choose(len(alpha))])
			}
			s := b.String()
			for st := 0; st < 5; st++ {
				if st == 2 || st == 4 && spell(s, 4) == spell(s, 0) {
					continue
				}
				for pos := 0; pos < nStrPos; pos++ {
					t, w := strDoc(pos, spell(s, st), s)
					c.State(t)
					parsesTo(c, t, w, 0)
				}
			}
		}},
		Harness{Name: "long-contents", Bound: "every string of 4 characters from a quote, a backslash, an opening brace, a blank, a letter n and an accented letter (thorough also of 5), in raw spelling, in 12 positions", Body: func(c *Ctx) {
			n := 4
			if c.Thorough && c.Bool() {
				n = 5
			}
			alpha := []string{`"`, `\`, "{", " ", "n", "é"}
			var b strings.Builder
			for i := 0; i < n; i++ {
				b.WriteString(alpha[c.Choose(len(alpha))])
			}
			s := b.String()
			for pos := 0; pos < nStrPos; pos++ {
				t, w := strDoc(pos, spell(s, 0), s)
				c.State(t)
				parsesTo(c, t, w, 0)
			}
		}},
		Harness{Name: "spellings", Bound: "every mixture of spellings (raw, raw control characters, short escape, \\u in lower and upper case) of every string of up to 3 from 12 characters, as value, key and element", Body: func(c *Ctx) {
			runes := []rune{'"', '\\', '/', '\n', '\b', '\r', 'a', 'u', 'é', '€', '😀', '{'}
			n := 1 + c.Choose(3)
			var lit, s strings.Builder
			lit.WriteByte('"')
			for i := 0; i < n; i++ {
				r := runes[c.Choose(len(runes))]
				p := runePieces(r)
				lit.WriteString(p[c.Choose(len(p))])
				s.WriteRune(r)
			}
			lit.WriteByte('"')
			for _, pos := range []int{5, 6} {
				t, w := strDoc(pos, lit.String(), s.String())
				c.State(t)
				parsesTo(c, t, w, 0)
			}
		}},
		Harness{Name: "code-points-values", Bound: "every Unicode scalar value (quick: each of the basic plane alone, the others in strings of 64; thorough: each alone), raw and as \\u escapes, as value and array element", Body: func(c *Ctx) {
			const blk = 512
			n := c.Choose(0x110000 / blk)
			st := c.Choose(4)
			lo := rune(n * blk)
			if (st == 2 || st == 3) && lo > 0x3000 && !c.Thorough {
				return
			}
			var lits, want []string
			if lo < 0x10000 || c.Thorough {
				allRunes(lo, lo+blk, func(r rune) {
					s := "x" + string(r) + "y"
					if r%2 == 0 {
						s = string(r)
					}
					lits, want = append(lits, spell(s, st)), append(want, s)
				})
			} else {
				for k := lo; k < lo+blk; k += 64 {
					var b strings.Builder
					allRunes(k, k+64, func(r rune) { b.WriteRune(r) })
					lits, want = append(lits, spell(b.String(), st)), append(want, b.String())
				}
			}
			if len(lits) == 0 {
				return
			}
			c.State(itoa(n), itoa(st))
			m := mustParse(c, `{"a":[`+strings.Join(lits, ",")+`],"v":`+lits[0]+`}`)
			a, e := m.GetArray("a")
			if e != nil || a == nil || a.Len() != len(want) {
				c.Failf("block at U+%04X style %d: wrong number of strings", lo, st)
			}
			for i, v := range *a.GetValues() {
				s, e := v.GetStringValue()
				c.Op(1)
				if e != nil || s != want[i] {
					c.Failf("string %q (style %d) read as %q %s", want[i], st, s, errOf(e))
				}
			}
			if s, e := m.GetStringValue("v"); e != nil || s != want[0] {
				c.Failf("value %q read as %q", want[0], s)
			}
		}},
		Harness{Name: "code-points-keys", Bound: "every scalar value of the basic plane (and every 64th beyond) as a key of scalar, map and array members, raw and escaped", Body: func(c *Ctx) {
			const blk = 64
			n := c.Choose(0x110000 / blk)
			st := c.Choose(2)
			lo := rune(n * blk)
			var b strings.Builder
			b.WriteString("{")
			w := mMap()
			vals := []*MV{mLit(false, 1), mMap(), mArr(), mStr("s")}
			allRunes(lo, lo+blk, func(r rune) {
				if r >= 0x10000 && r%64 != 5 && !c.Thorough {
					return
				}
				k := string(r)
				if len(w.Keys) > 0 {
					b.WriteString(",")
				}
				v := vals[int(r)%len(vals)]
				b.WriteString(spell(k, st) + ":" + v.text())
				w.Keys, w.Vals = append(w.Keys, k), append(w.Vals, v)
			})
			b.WriteString("}")
			c.State(itoa(n), itoa(st))
			m := mustParse(c, b.String())
			keys := m.GetKeys()
			if len(keys) != len(w.Keys) {
				c.Failf("block at U+%04X: %d keys, want %d", lo, len(keys), len(w.Keys))
			}
			for i, k := range w.Keys {
				if keys[i] != k {
					c.Failf("key %q read as %q", k, keys[i])
				}
				if s := checkVal(c, k, m.GetValue(k), w.Vals[i], 0); s != "" {
					c.Failf("%s", s)
				}
			}
		}},
		Harness{Name: "lengths", Bound: "strings of n repeated characters of 14 kinds for every n of the size sweep up to 4097 (thorough 32769), and with a different character at the start, end, or either side of the middle, as value, key and element", Body: func(c *Ctx) {
			max := 4097
			if c.Thorough {
				max = 16385
			}
			sizes := sweep(max)
			n := sizes[c.Choose(len(sizes))]
			fills := []string{"a", `\`, `"`, "é", "😀", " ", "\n", "{", "]", ",", "0", "\x01", ":", "/"}
			f := fills[c.Choose(len(fills))]
			mark := []string{"", "Z", `"`, `\`}[c.Choose(4)]
			if n > 300 && mark != "" && !c.Thorough {
				return
			}
			base := strings.Repeat(f, n)
			half := strings.Repeat(f, n/2)
			forms := []string{base}
			if mark != "" {
				forms = []string{mark + base, base + mark, half + mark + half}
			}
			for _, s := range forms {
				c.State(itoa(n), f, mark, itoa(len(s)))
				for _, pos := range []int{5, 6, 8} {
					t, w := strDoc(pos, spell(s, 0), s)
					parsesTo(c, t, w, 0)
					if u, w := strDoc(pos, spell(s, 4), s); u != t {
						parsesTo(c, u, w, 0)
					}
				}
			}
		}},
		Harness{Name: "backslashes", Bound: "0 to 70 backslashes followed by each of 12 special characters or the end, preceded by nothing or a letter, in 12 positions", Body: func(c *Ctx) {
			n := c.Choose(71)
			after := append([]string{""}, nastySmall...)[c.Choose(13)]
			pre := []string{"", "x", "é"}[c.Choose(3)]
			s := pre + strings.Repeat(`\`, n) + after
			for pos := 0; pos < nStrPos; pos++ {
				if n > 20 && pos > 5 && !c.Thorough {
					break
				}
				t, w := strDoc(pos, spell(s, 0), s)
				c.State(t)
				parsesTo(c, t, w, 0)
			}
		}},
		Harness{Name: "neighbours", Bound: "every ordered pair of strings of up to 2 of 12 special characters, as key and value, as neighbouring elements, and as value and next key", Body: func(c *Ctx) {
			x := genString(c, nastySmall, 2)
			y := genString(c, nastySmall, 2)
			lx, ly := spell(x, 0), spell(y, 0)
			c.State(x, y)
			parsesTo(c, `{`+lx+`:`+ly+`,"\u0001z":[`+lx+`,`+ly+`]}`, mMap().set(x, mStr(y)).set("\x01z", mArr(mStr(x), mStr(y))), 0)
			if x != y {
				parsesTo(c, `{"\u0001k":`+lx+`,`+ly+`:{`+lx+`:[`+ly+`]}}`, mMap().set("\x01k", mStr(x)).set(y, mMap().set(x, mArr(mStr(y)))), 0)
			}
		}},
		Harness{Name: "lookalikes", Bound: "80 strings that look like other literals, placeholders or nulls, in 4 spellings, in 12 positions", Body: func(c *Ctx) {
			s := lookalikes[c.Choose(len(lookalikes))]
			st := c.Choose(4)
			pos := c.Choose(nStrPos)
			t, w := strDoc(pos, spell(s, st), s)
			c.State(t)
			m := parsesTo(c, t, w, 1)
			c.Op(2)
			if pos == 2 || pos == 6 {
				checkBulkStrings(c, m, w)
			}
		}},
		Harness{Name: "many-strings", Bound: "n strings of up to 3 special characters in one document, n of the size sweep up to 257", Body: func(c *Ctx) {
			sizes := sweep(257)
			n := sizes[c.Choose(len(sizes))]
			shift := c.Choose(len(nasty))
			w, l := mMap(), mArr()
			for i := 0; i < n; i++ {
				s := nasty[(i+shift)%len(nasty)] + strconv.Itoa(i) + nasty[(i*7+shift)%len(nasty)]
				w.set(s, mStr(nasty[(i*3+shift)%len(nasty)]))
				l.Vals = append(l.Vals, mStr(s))
			}
			w.set("list", l)
			c.State(itoa(n), itoa(shift))
			parsesTo(c, w.text(), w, 0)
		}},
	)
}

func checkBulkStrings(c *Ctx, m *json.Map, w *MV) {
	want := (w.Vals[0])
	a, e := m.GetArray("k")
	if e != nil || a == nil {
		c.Failf("array unreadable")
	}
	allStrings := true
	for _, v := range want.Vals {
		allStrings = allStrings && v.K == 's'
	}
	got, e := a.GetArrayOfStringValue()
	if !allStrings {
		return
	}
	if e != nil || len(got) != len(want.Vals) {
		c.Failf("GetArrayOfStringValue: %d strings %s, want %d", len(got), errOf(e), len(want.Vals))
	}
	for i, v := range want.Vals {
		if got[i] != v.S {
			c.Failf("GetArrayOfStringValue[%d] = %q, want %q", i, got[i], v.S)
		}
	}
}

// ---- C06 ----

type scan struct {
	bad     string // must be rejected because
	unknown bool   // no claim
}

// scanText decides from the text alone whether it must be rejected. It claims nothing about texts with a
// backslash outside strings.
func scanText(t string) scan {
	if t == "" || t[0] != '{' {
		return scan{bad: "does not start with {"}
	}
	if t[len(t)-1] != '}' {
		return scan{bad: "does not end with }"}
	}
	var stack []byte
	for i := 0; i < len(t); i++ {
		ch := t[i]
		if i > 0 && len(stack) == 0 {
			return scan{bad: "content after the closing brace"}
		}
		switch ch {
		case '\\':
			return scan{unknown: true}
		case '"':
			i++
			for i < len(t) && t[i] != '"' {
				if t[i] == '\\' {
					i++
				}
				i++
			}
			if i >= len(t) {
				return scan{bad: "unterminated string"}
			}
		case '{', '[':
			stack = append(stack, ch)
		case '}', ']':
			if stack[len(stack)-1] != ch-2 {
				return scan{bad: "improper nesting"}
			}
			stack = stack[:len(stack)-1]
		}
	}
	if len(stack) > 0 {
		return scan{bad: "unclosed container"}
	}
	return scan{}
}

func mustReject(c *Ctx, text, why string) {
	if c.verbose {
		c.Logf("Parse(%q) must be rejected: %s", clipText(text), why)
	}
	c.State(text)
	m, _ := parseOutcome(c, text)
	if m != nil {
		c.Failf("accepted although %s: %q", why, clipText(text))
	}
}

// judge applies the scanner's verdict.
func judge(c *Ctx, text string) {
	s := scanText(text)
	if s.unknown {
		return
	}
	if s.bad != "" {
		mustReject(c, text, s.bad)
		return
	}
	c.State(text)
	parseOutcome(c, text)
}

func damageDocs() []*MV { return baseDocs() }

func init() {
	truncate := func(c *Ctx, t string) {
		for i := 0; i < len(t); i++ {
			mustReject(c, t[:i], "it is a proper prefix of a document")
		}
	}
	reg("C06",
		Harness{Name: "truncations", Bound: "every proper prefix of every base document and of every tree of up to 4 nodes over 10 kinds of leaf, compact and indented", Body: func(c *Ctx) {
			var w *MV
			if c.Bool() {
				b := damageDocs()
				w = b[c.Choose(len(b))]
			} else {
				w = genTree(c, 4, leavesFull[:8])
			}
			truncate(c, w.text())
			if len(w.Vals) < 3 || c.Thorough {
				var b strings.Builder
				pretty(&b, w, "\n", " ", ": ", 0)
				truncate(c, b.String())
			}
		}},
		Harness{Name: "string-truncations", Bound: "every proper prefix of documents whose keys and values are every string of up to 2 special characters", Body: func(c *Ctx) {
			s := genString(c, nasty, 2)
			for _, pos := range []int{5, 6, 8, 9, 10} {
				t, _ := strDoc(pos, spell(s, 0), s)
				truncate(c, t)
			}
		}},
		Harness{Name: "long-truncations", Bound: "every proper prefix of documents with n levels or n members, n of the size sweep up to 65", Body: func(c *Ctx) {
			n := 1 + c.Choose(65)
			switch c.Choose(4) {
			case 0:
				truncate(c, nest(n, 3, func(i int) bool { return i%2 == 0 }).text())
			case 1:
				truncate(c, nest(n, 0, func(i int) bool { return false }).text())
			case 2:
				truncate(c, nest(n, 0, func(i int) bool { return true }).text())
			case 3:
				w, a := mMap(), mArr()
				for i := 0; i < n; i++ {
					a.Vals = append(a.Vals, mMap().set("a", mArr()))
					w.set("k"+itoa(i), mArr(mMap()))
				}
				truncate(c, w.set("l", a).text())
			}
		}},
		Harness{Name: "one-edit", Bound: "every deletion, duplication, insertion or substitution of a structural character and every swap of neighbours in every base document", Body: func(c *Ctx) {
			b := damageDocs()
			t := b[c.Choose(len(b))].text()
			chars := []string{"{", "}", "[", "]", `"`, ",", ":"}
			p := c.Choose(len(t) + 1)
			for _, ch := range chars {
				judge(c, t[:p]+ch+t[p:])
				if p < len(t) {
					judge(c, t[:p]+ch+t[p+1:])
				}
			}
			if p < len(t) {
				judge(c, t[:p]+t[p+1:])
				judge(c, t[:p+1]+t[p:])
			}
			if p+1 < len(t) {
				judge(c, t[:p]+t[p+1:p+2]+t[p:p+1]+t[p+2:])
			}
		}},
		Harness{Name: "two-edits", Bound: "every pair of: delete, insert or substitute a bracket, brace or quote, at any two positions of every small base document (thorough: every base document)", Body: func(c *Ctx) {
			b := damageDocs()
			if !c.Thorough {
				b = b[:17]
			}
			t := b[c.Choose(len(b))].text()
			chars := []string{"{", "}", "[", "]", `"`}
			p := c.Choose(len(t))
			q := p + c.Choose(len(t)-p)
			first := c.Choose(len(chars) * 2)
			ed := func(k int, at string) string { // replaces one character by an edit of it
				if k == 2*len(chars) {
					return ""
				}
				if k < len(chars) {
					return chars[k]
				}
				return chars[k-len(chars)] + at
			}
			for k := 0; k <= 2*len(chars); k++ {
				if q == p {
					judge(c, t[:p]+ed(first, "")+ed(k, t[p:p+1])+t[p+1:])
				} else {
					judge(c, t[:p]+ed(first, t[p:p+1])+t[p+1:q]+ed(k, t[q:q+1])+t[q+1:])
					judge(c, t[:p]+t[p+1:q]+ed(k, t[q:q+1])+t[q+1:])
				}
			}
		}},
		Harness{Name: "swaps", Bound: "every exchange of two characters, and every move of one, in every base document", Body: func(c *Ctx) {
			b := damageDocs()
			t := b[c.Choose(len(b))].text()
			p := c.Choose(len(t))
			for q := 0; q < len(t); q++ {
				if q > p && t[p] != t[q] {
					judge(c, t[:p]+t[q:q+1]+t[p+1:q]+t[p:p+1]+t[q+1:])
				}
				without := t[:p] + t[p+1:]
				if q <= len(without) {
					judge(c, without[:q]+t[p:p+1]+without[q:])
				}
			}
		}},
		Harness{Name: "joined", Bound: "every ordered pair of base documents joined by nothing, whitespace, a comma or a stray token, and every base document followed by each printable character and }", Body: func(c *Ctx) {
			b := damageDocs()
			x := b[c.Choose(len(b))].text()
			if k := c.Choose(len(b) + 1); k < len(b) {
				y := b[k].text()
				for _, s := range []string{"", " ", "\n", ",", ":", "null", "]", "}", "[", `"`, `""`} {
					mustReject(c, x+s+y, "content follows the closing brace")
				}
				return
			}
			for ch := 33; ch < 127; ch++ {
				mustReject(c, x+string(rune(ch))+"}", "content follows the closing brace")
				mustReject(c, x+" "+string(rune(ch))+" }", "content follows the closing brace")
				if ch != '{' {
					mustReject(c, string(rune(ch))+x, "content precedes the opening brace")
				}
				if ch != '}' {
					mustReject(c, x+string(rune(ch)), "content follows the closing brace")
				}
			}
		}},
		Harness{Name: "token-strings", Bound: "every sequence of up to 6 (thorough 7) tokens of \"a\": { } [ ] , 1 \"x\" between braces, judged by an independent scanner", Body: func(c *Ctx) {
			n := 6
			if c.Thorough {
				n = 7
			}
			judge(c, "{"+genString(c, []string{`"a":`, "{", "}", "[", "]", ",", "1", `"x"`}, n)+"}")
		}},
		Harness{Name: "character-strings", Bound: "every sequence of up to 5 (thorough 6) of { } [ ] \" : , a between braces, judged by an independent scanner", Body: func(c *Ctx) {
			n := 5
			if c.Thorough {
				n = 6
			}
			judge(c, "{"+genString(c, []string{"{", "}", "[", "]", `"`, ":", ",", "a"}, n)+"}")
		}},
		Harness{Name: "depth-mismatch", Bound: "n openers against m closers, every n and m up to 40 and n-1, n, n+1 for the size sweep up to 513, for four nesting patterns", Body: func(c *Ctx) {
			sizes := sweep(513)
			n := sizes[c.Choose(len(sizes))]
			pat := c.Choose(4)
			opens := [][]string{{`[`}, {`{"a":`}, {`[`, `{"a":`}, {`{"a":`, `[`}}[pat]
			shut := map[byte]string{'[': "]", '{': "}"}
			mk := func(n, m int) string {
				var o strings.Builder
				var cl []string
				o.WriteString(`{"r":`)
				for i := 0; i < n; i++ {
					x := opens[i%len(opens)]
					o.WriteString(x)
					cl = append(cl, shut[x[0]])
				}
				o.WriteString("1")
				for i := 0; i < m; i++ {
					j := n - 1 - i
					if j < 0 {
						j = (j%len(cl) + len(cl)) % max(len(cl), 1)
					}
					if len(cl) > 0 {
						o.WriteString(cl[j])
					} else {
						o.WriteString("]")
					}
				}
				o.WriteString("}")
				return o.String()
			}
			var ms []int
			if n <= 40 {
				for m := 0; m <= 41; m++ {
					ms = append(ms, m)
				}
			} else {
				ms = []int{n - 2, n - 1, n, n + 1, n / 2, 1}
			}
			for _, m := range ms {
				if n == 0 && m > 0 {
					mustReject(c, `{"r":1`+strings.Repeat("]", m)+"}", "closers without openers")
					continue
				}
				t := mk(n, m)
				if m != n {
					if s := scanText(t); s.bad == "" {
						panic("depth-mismatch: scanner finds nothing in " + t)
					}
				}
				judge(c, t)
			}
		}},
		Harness{Name: "wrong-closer", Bound: "for nesting to depth n (every n up to 20, then 33 and 65, thorough 128, 129) each single closer replaced by the other kind, removed or doubled", Body: func(c *Ctx) {
			ns := []int{}
			for i := 1; i <= 20; i++ {
				ns = append(ns, i)
			}
			ns = append(ns, 33, 65)
			if c.Thorough {
				ns = append(ns, 128, 129)
			}
			n := ns[c.Choose(len(ns))]
			pat := c.Choose(3)
			side := c.Choose(2) * 2
			t := nest(n, side, func(i int) bool { return pat == 0 || pat == 1 && i%2 == 0 }).text()
			for i := 0; i < len(t); i++ {
				if t[i] != '}' && t[i] != ']' && t[i] != '{' && t[i] != '[' {
					continue
				}
				other := map[byte]string{'}': "]", ']': "}", '{': "[", '[': "{"}[t[i]]
				judge(c, t[:i]+other+t[i+1:])
				judge(c, t[:i]+t[i+1:])
				judge(c, t[:i]+t[i:i+1]+t[i:])
				judge(c, t[:i]+other+t[i:])
			}
		}},
		Harness{Name: "words", Bound: "every word of up to 4 characters from 15 as a value: a word that is neither literal nor number is rejected, as member and as element", Body: func(c *Ctx) {
			w := genString(c, []string{"t", "r", "u", "e", "n", "l", "f", "a", "0", "1", "-", ".", "E", "x", "N"}, 4)
			judgeWord(c, w)
		}},
		Harness{Name: "near-words", Bound: "every one-character deletion, insertion, substitution, case change and repetition of true, false, null and of 12 numbers, with every printable character", Body: func(c *Ctx) {
			words := []string{"true", "false", "null", "12", "-12", "1.5", "-1.5", "1e5", "1.5E-3", "255", "0.25", "18446744073709551615", "1e+10", "-0", "1000000"}
			w := words[c.Choose(len(words))]
			p := c.Choose(len(w) + 1)
			for ch := 33; ch < 127; ch++ {
				if strings.ContainsRune(`{}[]",:\`, rune(ch)) {
					continue
				}
				judgeWord(c, w[:p]+string(rune(ch))+w[p:])
				if p < len(w) {
					judgeWord(c, w[:p]+string(rune(ch))+w[p+1:])
				}
			}
			if p < len(w) {
				judgeWord(c, w[:p]+w[p+1:])
				judgeWord(c, w[:p]+strings.ToUpper(w[p:p+1])+w[p+1:])
			}
			if p != 0 {
				return
			}
			judgeWord(c, strings.ToUpper(w))
			judgeWord(c, w+w)
			for _, x := range []string{"NaN", "Infinity", "-Infinity", "Inf", "-Inf", "inf", "nan", "0x10", "0b1", "0o7", "1_000", "undefined", "nil", "None", "True", "FALSE", "Null", "'a'", "1f", "1.0f", "1u", "1n", "é", "１", "−1", "1e", "1e+", "--1", "+-1", "1-", "1-1", "1+1", "1.2.3", "..1", "1..", "-", "+", ".", "e", "e5", "-e5", "0x1p-2", "1e5e5", "1e5.5", "0X1", "<nil>", "map()", "true1", "1true"} {
				judgeWord(c, x)
			}
		}},
		Harness{Name: "bad-neighbours", Bound: "a bad word at every position of arrays and maps of up to 6 members among good values, and at the innermost of n levels", Body: func(c *Ctx) {
			bad := []string{"x", "tru", "1x", "--1", "nul", "1.2.3", "18446744073709551616", "-9223372036854775809", "1e999", "nan"}[c.Choose(10)]
			n := 1 + c.Choose(6)
			p := c.Choose(n)
			var a, m []string
			for i := 0; i < n; i++ {
				g := leavesFull[i%len(leavesFull)].mk().text()
				if i == p {
					g = bad
				}
				a = append(a, g)
				m = append(m, `"k`+itoa(i)+`":`+g)
			}
			mustReject(c, `{"a":[`+strings.Join(a, ",")+`]}`, "an element is not a value")
			mustReject(c, `{`+strings.Join(m, ",")+`}`, "a member is not a value")
			mustReject(c, `{"a":[{`+strings.Join(m, ",")+`},[`+strings.Join(a, ",")+`]]}`, "a nested member is not a value")
			for _, d := range []int{1, 2, 3, 5, 10, 33, 65} {
				mustReject(c, `{"a":`+strings.Repeat("[", d)+bad+strings.Repeat("]", d)+`}`, "the innermost element is not a value")
				mustReject(c, strings.Repeat(`{"a":`, d)+bad+strings.Repeat("}", d), "the innermost member is not a value")
				mustReject(c, `{"a":`+strings.Repeat("[1,", d)+bad+strings.Repeat(",2]", d)+`,"z":1}`, "the innermost element is not a value")
			}
		}},
	)
}

func judgeWord(c *Ctx, w string) {
	ok := w == "" || w == "true" || w == "false" || w == "null" || lenientNumber.MatchString(w)
	for _, t := range []string{`{"a":` + w + `}`, `{"a":[` + w + `]}`, `{"a":[1,` + w + `,2],"b":1}`, `{"a":` + w + `,"b":1}`} {
		if ok {
			c.State(t)
			parseOutcome(c, t)
		} else {
			mustReject(c, t, strconv.Quote(w)+" is not a value")
		}
	}
}
