package main

import (
	"fmt"
	"math"
	"strconv"
	"strings"
	"unicode/utf8"
)

var registry = map[string][]Harness{}

func reg(prop string, hs ...Harness) { registry[prop] = append(registry[prop], hs...) }

// ---- trees ----

type leaf struct {
	name string
	mk   func() *MV
}

var leavesFull = []leaf{
	{"1", func() *MV { return mLit(false, 1) }},
	{`"s"`, func() *MV { return mStr("s") }},
	{"null", mNull},
	{"true", func() *MV { return mBool(true) }},
	{"{}", mMap},
	{"[]", func() *MV { return mArr() }},
	{`""`, func() *MV { return mStr("") }},
	{"-200", func() *MV { return mLit(true, 200) }},
	{"1.5", func() *MV { return mF32(1.5) }},
	{"false", func() *MV { return mBool(false) }},
}

// few leaf kinds for larger shapes
var leavesSmall = []leaf{leavesFull[0], leavesFull[1], leavesFull[4], leavesFull[5]}
var leavesTwo = []leaf{leavesFull[0], leavesFull[1]}

// genForest builds every forest of exactly n nodes below a root of the given kind. Members of maps
// are named k0, k1, ... in order. Empty containers come from the leaf list only.
func genForest(c *Ctx, root byte, n int, leaves []leaf) *MV {
	m := &MV{K: root}
	i := 0
	for n > 0 {
		size := 1 + c.Choose(n) // nodes of this child
		var child *MV
		if size == 1 {
			child = leaves[c.Choose(len(leaves))].mk()
		} else if c.Choose(2) == 0 {
			child = genForest(c, 'm', size-1, leaves)
		} else {
			child = genForest(c, 'a', size-1, leaves)
		}
		if root == 'm' {
			m.Keys = append(m.Keys, "k"+strconv.Itoa(i))
		}
		m.Vals = append(m.Vals, child)
		i++
		n -= size
	}
	return m
}

func genTree(c *Ctx, maxNodes int, leaves []leaf) *MV {
	return genForest(c, 'm', c.Choose(maxNodes+1), leaves)
}

// ---- positions: where a value is put in a document ----

const nPositions = 10

// place puts v somewhere in a document; keyed positions use the key.
func place(pos int, key string, v *MV) *MV {
	one, two := mLit(false, 1), mStr("z")
	switch pos {
	case 0:
		return mMap().set(key, v)
	case 1:
		return mMap().set("a", mArr(v))
	case 2:
		return mMap().set("p", one).set(key, v)
	case 3:
		return mMap().set(key, v).set("q", one)
	case 4:
		return mMap().set("a", mArr(one, v))
	case 5:
		return mMap().set("a", mArr(v, two))
	case 6:
		return mMap().set("m", mMap().set(key, v)).set("q", two)
	case 7:
		return mMap().set("a", mArr(mMap().set(key, v), one))
	case 8:
		return mMap().set("a", mArr(mArr(v), mMap()))
	case 9:
		return mMap().set("p", mArr()).set(key, v).set("q", mMap())
	}
	panic("position")
}

// sizes used by every sweep over lengths, widths and counts: everything small, then the edges of
// the usual powers of two and some round numbers.
func sweep(max int) []int {
	var out []int
	for i := 0; i <= 70 && i <= max; i++ {
		out = append(out, i)
	}
	for _, i := range []int{71, 72, 80, 90, 96, 99, 100, 101, 110, 120, 126, 127, 128, 129, 130, 150, 160, 190, 192, 199, 200, 201,
		224, 250, 254, 255, 256, 257, 258, 299, 300, 301, 319, 320, 321, 383, 384, 385, 399, 400, 401, 499, 500, 501, 510, 511, 512, 513,
		599, 600, 639, 640, 700, 767, 768, 769, 800, 900, 999, 1000, 1001, 1022, 1023, 1024, 1025, 1026, 1500, 1999, 2000, 2001,
		2047, 2048, 2049, 3000, 4000, 4095, 4096, 4097, 5000, 8000, 8191, 8192, 8193, 9999, 10000, 10001, 16383, 16384, 16385,
		20000, 32767, 32768, 32769, 50000, 65534, 65535, 65536, 65537} {
		if i <= max {
			out = append(out, i)
		}
	}
	return out
}

// ---- strings ----

// nasty characters: structural, quoting, blank, control, multi-byte, letters that follow a backslash
var nasty = []string{"a", `"`, `\`, "{", "}", "[", "]", ":", ",", " ", "\n", "\t", "\r", "/", "n", "u", "é", "€", "😀", "\u00a0",
	"\x01", "\x1f", "\x7f", "'", "`", "0", "\b", "\f", "\u2028", "%"}
var nastySmall = []string{"a", `"`, `\`, "{", "]", ":", ",", " ", "\n", "é", "u", "n"}

// strings which look like something else
var lookalikes = []string{"", " ", "  ", "true", "false", "null", "nil", "<nil>", "map[]", "&map[value:<nil>]", "%!s(*json.Value=<nil>)",
	"%!s(string=<nil>)", "%!s(*string=<nil>)", "0", "1", "-1", "1.5", "1e5", "NaN", "{}", "[]", "{", "}", "[", "]", `""`, `"`, `"a"`,
	`\`, `\\`, `\"`, `\n`, `\u0041`, `\u`, `{"a":1}`, `[1,2]`, "a:b", "a,b", ",", ":", "undefined", "%s", "%d", "%!s(MISSING)", "json.Map", "*json.Value",
	"NULL", "None", "'", "`", "//", "/*", "#", "\ufeff", "\x00", "a\x00b", "ab\n", "\tab", " ab", "ab ", "a b", "\u00a0ab\u00a0", "nilx", "xnil", "<NIL>", "nil ", "key", "value", "é", "éé", "日本語", "😀😀"}

// spell writes a string literal. style 0: raw where JSON allows it, 1: everything as \u escapes in lower
// case, 2: upper case, 3: short escapes where there are any, 4: raw, control characters too
// (not JSON, but read by this library as what it says).
func spell(s string, style int) string {
	var b strings.Builder
	b.WriteByte('"')
	for _, r := range s {
		b.WriteString(spellRune(r, style))
	}
	b.WriteByte('"')
	return b.String()
}

func spellRune(r rune, style int) string {
	hex := func(f string) string {
		if r > 0xffff {
			x := r - 0x10000
			return fmt.Sprintf(f, 0xd800+(x>>10)) + fmt.Sprintf(f, 0xdc00+(x&0x3ff))
		}
		return fmt.Sprintf(f, r)
	}
	switch style {
	case 1:
		return hex(`\u%04x`)
	case 2:
		return hex(`\u%04X`)
	}
	switch r {
	case '"':
		return `\"`
	case '\\':
		return `\\`
	}
	if style == 4 {
		return string(r)
	}
	switch r {
	case '/':
		if style == 3 {
			return `\/`
		}
		return "/"
	case '\b':
		return `\b`
	case '\f':
		return `\f`
	case '\n':
		return `\n`
	case '\r':
		return `\r`
	case '\t':
		return `\t`
	}
	if r < 0x20 {
		return hex(`\u%04x`)
	}
	return string(r)
}

func genString(c *Ctx, alphabet []string, max int) string {
	n := c.Choose(max + 1)
	var b strings.Builder
	for i := 0; i < n; i++ {
		b.WriteString(alphabet[c.Choose(len(alphabet))])
	}
	return b.String()
}

// allRunes calls f with every Unicode scalar value in [lo,hi).
func allRunes(lo, hi rune, f func(r rune)) {
	for r := lo; r < hi; r++ {
		if utf8.ValidRune(r) {
			f(r)
		}
	}
}

// ---- numbers ----

var uintLimits = []uint64{0, 1, 9, 10, 99, 100, 127, 128, 255, 256, 32767, 32768, 65535, 65536, 1<<31 - 1, 1 << 31, 1<<32 - 1, 1 << 32,
	1<<53 - 1, 1 << 53, 1<<53 + 1, 1<<63 - 1, 1 << 63, 1<<63 + 1, math.MaxUint64 - 1, math.MaxUint64}
