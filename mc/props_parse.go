package main

import (
	"strings"

	json "github.com/matehaxor03/holistic_json/json"
)

// parseOutcome runs Parse and checks the shape of its result.
func parseOutcome(c *Ctx, text string) (*json.Map, []error) {
	c.Op(1)
	m, errs := json.Parse(text)
	if m != nil && len(errs) > 0 {
		c.Failf("both a document and errors for %q", clipText(text))
	}
	if m == nil && len(errs) == 0 {
		c.Failf("neither a document nor an error for %q", clipText(text))
	}
	for _, e := range errs {
		if e == nil {
			c.Failf("a nil error among the errors for %q", clipText(text))
		}
	}
	return m, errs
}

func walk(c *Ctx, m *json.Map, depth int) {
	c.Op(2)
	keys := m.GetKeys()
	if m.Values().Len() != len(keys) {
		c.Failf("accepted document has %d keys but %d values", len(keys), m.Values().Len())
	}
	for _, k := range keys {
		walkVal(c, m.GetValue(k), depth)
	}
}

func walkVal(c *Ctx, v *json.Value, depth int) {
	if v == nil {
		c.Failf("accepted document holds a missing value")
	}
	switch {
	case v.IsMap():
		m, e := v.GetMap()
		if e != nil || m == nil {
			c.Failf("accepted document holds an unreadable map")
		}
		walk(c, m, depth+1)
	case v.IsArray():
		a, e := v.GetArray()
		if e != nil || a == nil {
			c.Failf("accepted document holds an unreadable array")
		}
		for _, x := range *a.GetValues() {
			walkVal(c, x, depth+1)
		}
	}
}

// totality is the C01 oracle for one input: a result of the right shape, twice the same, usable if accepted.
func totality(c *Ctx, text string) {
	if c.verbose {
		c.Logf("Parse(%q)", clipText(text))
	}
	c.State(text)
	m, _ := parseOutcome(c, text)
	m2, _ := parseOutcome(c, text)
	if (m == nil) != (m2 == nil) {
		c.Failf("parsing %q twice gives different outcomes", clipText(text))
	}
	if m == nil {
		c.Logf("rejected")
		return
	}
	walk(c, m, 0)
	var b, b2 strings.Builder
	c.Op(2)
	if e := m.ToJSONString(&b); e != nil {
		c.Failf("the document accepted from %q cannot be written: %s", clipText(text), errOf(e))
	}
	if e := m2.ToJSONString(&b2); e != nil || b.String() != b2.String() {
		c.Failf("parsing %q twice gives different documents", clipText(text))
	}
	c.Logf("accepted: %s", b.String())
}

func init() {
	alphaA := []string{"{", "}", "[", "]", `"`, ":", ",", `\`, "a", "1", "-", " "}
	alphaB := []string{`"a":`, "{", "}", "[", "]", ",", "1", `"x"`, "null", `\`, `"`, "\n", "é"}
	tokens := func(name string, alpha []string, quick, thorough int) Harness {
		return Harness{Name: name, Bound: "every sequence of up to " + itoa(quick) + " (thorough " + itoa(thorough) + ") tokens of " + strings.Join(alpha, " ") + " between { and }",
			Body: func(c *Ctx) {
				n := quick
				if c.Thorough {
					n = thorough
				}
				totality(c, "{"+genString(c, alpha, n)+"}")
			}}
	}
	bases := baseDocs()
	reg("C01",
		Harness{Name: "any-short-text", Bound: "every sequence of up to 5 tokens of { } [ ] \" : , \\ a 1, with no frame", Body: func(c *Ctx) {
			totality(c, genString(c, []string{"{", "}", "[", "]", `"`, ":", ",", `\`, "a", "1"}, 5))
		}},
		tokens("tokens", alphaA, 5, 6),
		tokens("macro-tokens", alphaB, 5, 6),
		Harness{Name: "every-byte", Bound: "each of the 256 bytes inserted at or substituted for every position of every base document", Body: func(c *Ctx) {
			d := bases[c.Choose(len(bases))]
			t := d.text()
			p := c.Choose(len(t) + 1)
			ins := c.Bool()
			for b := 0; b < 256; b++ {
				x := string([]byte{byte(b)})
				if ins {
					totality(c, t[:p]+x+t[p:])
				} else if p < len(t) {
					totality(c, t[:p]+x+t[p+1:])
				}
			}
		}},
		Harness{Name: "two-edits", Bound: "two structural characters inserted anywhere in every small base document", Body: func(c *Ctx) {
			small := bases[:12]
			t := small[c.Choose(len(small))].text()
			chars := []string{"{", "}", "[", "]", `"`, `\`, ":", ","}
			p := c.Choose(len(t) + 1)
			q := p + c.Choose(len(t)-p+1)
			a, b := chars[c.Choose(len(chars))], chars[c.Choose(len(chars))]
			totality(c, t[:p]+a+t[p:q]+b+t[q:])
		}},
		Harness{Name: "runs", Bound: "runs of n equal tokens for every n of the size sweep up to 2049, in 7 surroundings", Body: func(c *Ctx) {
			toks := []string{"{", "}", "[", "]", `"`, `\`, ":", ",", "1", "a", " ", "-", ".", "\n", "é", "\x00", "\xff", `"a":{`, `"a":[`, `[{`, `{"a":[`, `},`, `],`, `\"`, `""`, `"",`, `1,`, `"a":1,`, "null,", "e", "0", `\u`, `"a" `}
			tok := toks[c.Choose(len(toks))]
			sizes := sweep(2049)
			n := sizes[c.Choose(len(sizes))]
			if len(tok)*n > 4100 {
				return
			}
			r := strings.Repeat(tok, n)
			for _, t := range []string{r, "{" + r + "}", `{"a":` + r + "}", `{"a":[` + r + "]}", `{"a":"` + r + `"}`, `{"` + r + `":1}`, `{"a":` + r + `1}`} {
				totality(c, t)
			}
		}},
		Harness{Name: "depth-and-size", Bound: "balanced and unbalanced nesting to depth 1025 (thorough 3000), strings of up to 8 times and member lists of that length, sizes of the sweep", Body: func(c *Ctx) {
			kind := c.Choose(6)
			max := 1025
			if c.Thorough {
				max = 3000
			}
			sizes := sweep(max)
			n := sizes[c.Choose(len(sizes))]
			switch kind {
			case 0:
				totality(c, `{"a":`+strings.Repeat("[", n)+strings.Repeat("]", n)+"}")
			case 1:
				totality(c, strings.Repeat(`{"a":`, n)+"1"+strings.Repeat("}", n))
			case 2:
				totality(c, `{"a":`+strings.Repeat("[", n)+strings.Repeat("]", n/2)+"}")
			case 3:
				totality(c, strings.Repeat(`{"a":[`, n)+strings.Repeat("]}", n))
			case 4:
				totality(c, strings.Repeat(`{"a":`, n)+strings.Repeat("}", n)+strings.Repeat("]", n))
			case 5:
				totality(c, `{"a":"`+strings.Repeat("x", n*8)+`","b":[`+strings.Repeat("1,", n)+`1]}`)
			}
		}},
	)
}
