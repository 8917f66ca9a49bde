package main

import (
	"math"
	"reflect"
	"strconv"

	json "github.com/matehaxor03/holistic_json/json"
)

// wraps: the ways a scalar can be given to the conversion
const nWraps = 7

func wrapped1(x interface{}, how int) interface{} {
	switch how {
	case 0:
		return x
	case 1:
		return json.NewValue(x)
	case 2:
		return json.NewValueValue(x)
	case 3:
		v := json.NewValue("before")
		v.SetObject(x)
		return v
	case 4:
		m := json.NewMap()
		m.SetObjectForMap("k", x)
		return m.GetValue("k")
	case 5:
		l := []interface{}{x}
		return (*json.NewArrayOfValues(&l).GetValues())[0]
	case 6:
		m := json.NewMap()
		m.SetValue("k", json.NewValue(x))
		c, e := m.Clone()
		if e != nil {
			return nil
		}
		return c.GetValue("k")
	}
	panic("wrap")
}

// plain checks the plain text of one scalar given one way.
func plain(c *Ctx, what string, o interface{}, w *MV) {
	c.Op(1)
	s, e := json.ConvertInterfaceValueToStringValue(o)
	if e != nil {
		c.Failf("%s: no text: %s", what, errOf(e))
	}
	ok := false
	switch w.K {
	case 's':
		ok = s == w.S
	case 'i':
		ok = s == w.digits()
	case 'f':
		bits := bitsOf(w.T)
		f, err := strconv.ParseFloat(s, bits)
		ok = err == nil && f == w.F
	case 'b':
		ok = s == strconv.FormatBool(w.B)
	case 'n':
		ok = s == "null"
	}
	if !ok {
		c.Failf("%s: plain text %q, want %s", what, clipText(s), clipText(w.String()))
	}
}

func plainCell(c *Ctx, x cell, hows []int) {
	if x.typ == "string" && !x.ptr && nilLike(x.mv.S) {
		return // known finding
	}
	for _, how := range hows {
		c.State(x.name, itoa(how))
		plain(c, x.name+" given in way "+itoa(how), wrapped1(x.obj(), how), x.mv)
	}
}

var allWraps = []int{0, 1, 2, 3, 4, 5, 6}

func init() {
	reg("C22",
		Harness{Name: "every-kind", Bound: "every scalar kind, both forms, given in 7 ways: directly, as a value, as a pointer to a value, as a member, as an element, cloned", Body: func(c *Ctx) {
			cat := catalog()
			x := cat[c.Choose(len(cat))]
			if x.mv.K == 'm' || x.mv.K == 'a' {
				return
			}
			plainCell(c, x, allWraps)
		}},
		Harness{Name: "small-integers", Bound: "all values of int8, uint8, int16 and uint16, both forms, given in 3 ways", Body: func(c *Ctx) {
			t := []string{"int8", "uint8", "int16", "uint16"}[c.Choose(4)]
			block := c.Choose(256)
			ptr := c.Bool()
			lo := int64(0)
			if isSigned(t) {
				lo = -1 << (bitsOf(t) - 1)
			}
			n := int64(1)
			if bitsOf(t) == 16 {
				n = 256
			}
			for i := int64(0); i < n; i++ {
				v := lo + int64(block)*n + i
				m := &MV{K: 'i', Neg: v < 0, U: uint64(v)}
				if v < 0 {
					m.U = uint64(-v)
				}
				plainCell(c, intCell(t, m, ptr), []int{0, 1, 2})
			}
		}},
		Harness{Name: "integers", Bound: "the values around every limit, power of two and power of ten, in every integer type that holds them, both forms, 7 ways", Body: func(c *Ctx) {
			pts := intPoints()
			p := pts[c.Choose(len(pts))]
			t := intTypes[c.Choose(len(intTypes))]
			if !fits(t, p) {
				return
			}
			plainCell(c, intCell(t, p, c.Bool()), allWraps)
		}},
		Harness{Name: "digits", Bound: "all integers of up to 5 (thorough 6) digits, each sign, as int32, int64, int and uint64", Body: func(c *Ctx) {
			block := c.Choose(100)
			neg := c.Bool()
			t := []string{"int32", "int64", "int", "uint64"}[c.Choose(4)]
			n := 1000
			if c.Thorough {
				n = 10000
			}
			for i := 0; i < n; i++ {
				m := &MV{K: 'i', U: uint64(block*n + i)}
				m.Neg = neg && m.U != 0
				if fits(t, m) {
					plainCell(c, intCell(t, m, i%2 == 0), []int{i % 2})
				}
			}
		}},
		Harness{Name: "floats", Bound: "the floating-point points of both types, and for every exponent and sign 24 mantissas, both forms, given in 7 and 2 ways", Body: func(c *Ctx) {
			t := []string{"float32", "float64"}[c.Choose(2)]
			if c.Bool() {
				pts := floatsOf(t)
				plainCell(c, floatCell(t, pts[c.Choose(len(pts))], c.Bool()), allWraps)
				return
			}
			exps, mant := 255, uint(23)
			if t == "float64" {
				exps, mant = 2047, 52
			}
			e := c.Choose(exps)
			neg := c.Bool()
			for i := uint(0); i < 24; i++ {
				var m uint64
				switch {
				case i < 8:
					m = uint64(i)
				case i < 16:
					m = 1<<mant - 1 - uint64(i-8)
				default:
					m = 1 << (mant - 1 - (i-16)*mant/9)
				}
				var f float64
				if t == "float32" {
					b := uint32(e)<<23 | uint32(m)
					if neg {
						b |= 1 << 31
					}
					f = float64(math.Float32frombits(b))
				} else {
					b := uint64(e)<<52 | m
					if neg {
						b |= 1 << 63
					}
					f = math.Float64frombits(b)
				}
				plainCell(c, floatCell(t, f, i%2 == 0), []int{0, 1})
			}
		}},
		Harness{Name: "decimals", Bound: "every decimal of up to 3 digits before and 3 (thorough 4) after the point, as float32 and float64", Body: func(c *Ctx) {
			whole := c.Choose(1000)
			t := []string{"float32", "float64"}[c.Choose(2)]
			places := 3
			if c.Thorough {
				places = 4
			}
			n := int(math.Pow10(places))
			for i := 0; i < n; i++ {
				f, _ := strconv.ParseFloat(itoa(whole)+"."+strconv.Itoa(n + i)[1:], bitsOf(t))
				if i%2 == 1 {
					f = -f
				}
				c.State(t, strconv.FormatFloat(f, 'g', -1, 64))
				plain(c, t+" "+strconv.FormatFloat(f, 'g', -1, 64), floatCell(t, f, i%4 < 2).obj(), &MV{K: 'f', T: t, F: f})
			}
		}},
		Harness{Name: "strings", Bound: "every string of up to 4 of 12 nasty characters and up to 2 (thorough 3) of 30, both forms, 3 ways", Body: func(c *Ctx) {
			var s string
			if c.Bool() {
				s = genString(c, nastySmall, 4)
			} else if c.Thorough {
				s = genString(c, nasty, 3)
			} else {
				s = genString(c, nasty, 2)
			}
			for _, ptr := range []bool{false, true} {
				plainCell(c, strCell(s, ptr), []int{0, 1, 4})
			}
		}},
		Harness{Name: "lookalikes", Bound: "80 strings that look like something else, alone, doubled and with each of 30 characters before and after, both forms, 7 ways", Body: func(c *Ctx) {
			s := lookalikes[c.Choose(len(lookalikes))]
			switch k := c.Choose(2 + 2*len(nasty)); {
			case k == 1:
				s += s
			case k > 1 && k%2 == 0:
				s += nasty[(k-2)/2]
			case k > 1:
				s = nasty[(k-2)/2] + s
			}
			for _, ptr := range []bool{false, true} {
				plainCell(c, strCell(s, ptr), allWraps)
			}
		}},
		Harness{Name: "characters", Bound: "every Unicode character as a one-character string", Body: func(c *Ctx) {
			n := rune(0x110000)
			const step = 2000
			lo := rune(c.Choose(int(n)/step+1)) * step
			allRunes(lo, min(lo+step, n), func(r rune) {
				s := string(r)
				plain(c, "string of "+strconv.QuoteRuneToASCII(r), &s, mStr(s))
				plain(c, "plain string of "+strconv.QuoteRuneToASCII(r), s, mStr(s))
				c.State(s)
			})
		}},
		Harness{Name: "lengths", Bound: "strings of every length of the size sweep up to 70000 of 5 units, both forms", Body: func(c *Ctx) {
			sizes := sweep(70000)
			n := sizes[c.Choose(len(sizes))]
			u := []string{"a", `"`, `\`, "é", "😀"}[c.Choose(5)]
			b := make([]byte, 0, n*len(u))
			for i := 0; i < n; i++ {
				b = append(b, u...)
			}
			plainCell(c, strCell(string(b), c.Bool()), []int{0, 1})
		}},
		Harness{Name: "unsupported", Bound: "maps, arrays, lists, functions, channels, structs, complex numbers and numbers that are none, given in 6 ways: an error and no text", Body: func(c *Ctx) {
			nan, inf, ninf := math.NaN(), math.Inf(1), math.Inf(-1)
			n32, i32 := float32(nan), float32(inf)
			type point struct{ X, Y int }
			objs := []interface{}{json.NewMap(), json.NewMapValue(), buildMap(mMap().set("a", mStr("b"))), *buildMap(mMap().set("a", mStr("b"))),
				json.NewArray(), json.NewArrayValue(), buildArr(mArr(mStr("b"))), *buildArr(mArr(mStr("b"))),
				[]string{"a"}, &[]string{"a"}, []string{}, []int{1}, []interface{}{1}, [2]int{1, 2}, map[string]int{"a": 1}, map[string]interface{}{"a": 1},
				func() {}, make(chan int), complex(1, 2), complex64(1), point{1, 2}, &point{1, 2}, nan, inf, ninf, &nan, &inf, &ninf, n32, i32, &n32, &i32, uintptr(5)}
			o := objs[c.Choose(len(objs))]
			how := c.Choose(6)
			c.Op(1)
			s, e := json.ConvertInterfaceValueToStringValue(wrapped1(o, how))
			c.State(reflect.TypeOf(o).String(), itoa(how))
			if len(e) == 0 || s != "" {
				c.Failf("%T given in way %d: text %q, errors %s", o, how, clipText(s), errOf(e))
			}
		}},
		Harness{Name: "nulls", Bound: "every kind of nil, given in 6 ways", Body: func(c *Ctx) {
			objs := []interface{}{nil, (*string)(nil), (*bool)(nil), (*int)(nil), (*int8)(nil), (*uint64)(nil), (*float32)(nil), (*float64)(nil), (*json.Value)(nil), (*json.Map)(nil), (*json.Array)(nil), json.NewValue(nil), json.NewValueValue(nil)}
			k := c.Choose(len(objs))
			how := 0
			if k < 8 {
				how = c.Choose(6)
			}
			c.State(itoa(k), itoa(how))
			plain(c, "nil of kind "+itoa(k)+" in way "+itoa(how), wrapped1(objs[k], how), mNull())
		}},
		Harness{Name: "after-histories", Bound: "a value set through every pair of two scalar cells of the small catalogue: the text is that of the last", Body: func(c *Ctx) {
			cells := smallCatalog()
			x, y := cells[c.Choose(len(cells))], cells[c.Choose(len(cells))]
			v := json.NewValue(nil)
			setValueTo(c, v, x)
			if x.mv.K != 'm' && x.mv.K != 'a' {
				plain(c, x.name, v, x.mv)
			}
			setValueTo(c, v, y)
			c.State(x.name, y.name)
			if y.mv.K != 'm' && y.mv.K != 'a' {
				plain(c, x.name+" then "+y.name, v, y.mv)
				plain(c, x.name+" then "+y.name, *v, y.mv)
			}
		}},
	)
}
