package main

import (
	"errors"
	"fmt"
	"strings"
	"time"

	json "github.com/matehaxor03/holistic_json/json"
)

// Twins are two programs which take the same paths through the package with different data, so that whatever one
// of them leaves behind in a place both use shows in the other. They are explored in pairs, not with all others.

var nBase int // programs[nBase:] are twins: 2i and 2i+1 belong together

func pick[T any](d int, a, b T) T {
	if d == 1 {
		return b
	}
	return a
}

func twin(mk func(d int) program) {
	for d := 0; d < 2; d++ {
		p := mk(d)
		p.name += " " + itoa(d+1)
		p.cost = 9
		programs = append(programs, p)
	}
}

func twinTexts(name, a, b string) {
	twin(func(d int) program { return parser(name, 9, pick(d, a, b)) })
}

func init() {
	nBase = len(programs)
	twinTexts("text", `{"a":"b"}`, `{"c":"d"}`)
	twinTexts("list", `{"a":[1,2]}`, `{"b":[3,4]}`)
	twinTexts("nest", `{"a":{"b":[{"c":1}]}}`, `{"d":{"e":[{"f":2}]}}`)
	twinTexts("words", `{"a":true,"b":[null,false]}`, `{"a":false,"b":[true,null]}`)
	twinTexts("escapes", `{"q\"":"a\\\"\n\u00e9\ud83d\ude00/"}`, `{"w\\":"b\"\\\t\u20ac\ud834\udd1e\/"}`)
	twinTexts("raw", "{\"é\x01\":\"\x1f😀\t\"}", "{\"ü\x02\":\"\x1e€\n\"}")
	twinTexts("fractions", `{"a":[0.1,1.5e-7,1e3,1e300]}`, `{"a":[0.7,2.5e-9,2e5,3e200]}`)
	twinTexts("long numbers", `{"a":340282350000000000000000000000000000001.5,"b":18446744073709551615}`, `{"a":123456789012345678901234567890123456789.5,"b":18446744073709551614}`)
	twinTexts("negatives", `{"a":[-1,-200,-40000,-3000000000]}`, `{"a":[-2,-300,-50000,-4000000000]}`)
	twinTexts("long text", `{"k":"`+strings.Repeat("a", 70)+`"}`, `{"k":"`+strings.Repeat("b", 70)+`"}`)
	twinTexts("repeats", `{"a":1,"b":2,"a":3}`, `{"a":4,"b":5,"a":6}`)
	twinTexts("blanks", "{ \"a\" :\t[ 1 , \"x\" ] }", "{\n\"b\"\r: [\t2 , \"y\" ] }")
	twinTexts("good and bad word", `{"a":tru}`, `{"a":true}`)
	twinTexts("good and bad number", `{"a":1-2}`, `{"a":1e2}`)
	twinTexts("good and cut", `{"a":["b`, `{"a":["b"]}`)
	twinTexts("good and misnested", `{"a":[1}`, `{"a":[1]}`)
	twinTexts("good and too large", `{"a":18446744073709551616}`, `{"a":18446744073709551615}`)
	twinTexts("bad escapes", `{"a":"x\u12"}`, `{"a":"x\u0041"}`)

	twin(func(d int) program {
		return program{"write scalars", 9, func() []func() string {
			xs := pick(d, []interface{}{0.1, float32(1e-7), int8(-128), uint64(1 << 63), "a\"b\x01\n", true, nil, errors.New("bad \"3\"")},
				[]interface{}{0.3, float32(3e-6), int8(-127), uint64(1 << 62), "c\"d\x02\t", false, "nothing", errors.New("bad \"4\"")})
			return []func() string{func() string {
				var b strings.Builder
				for _, x := range xs {
					e := json.ConvertInterfaceValueToJSONStringValue(&b, x)
					t, f := json.ConvertInterfaceValueToStringValue(x)
					fmt.Fprint(&b, len(e) > 0, t, len(f) > 0, ";")
				}
				return b.String()
			}}
		}}
	})
	twin(func(d int) program {
		return program{"write times", 9, func() []func() string {
			t := pick(d, time.Date(2021, 2, 3, 4, 5, 6, 7000, time.UTC), time.Date(2022, 12, 31, 23, 59, 58, 999999000, time.UTC))
			m := json.NewMap()
			return []func() string{
				func() string { m.SetTime("t", &t); m.SetObjectForMap("u", t); return written(m) },
				func() string {
					x, e := m.GetTime("t")
					if x == nil {
						return fmt.Sprint(nil, len(e) > 0)
					}
					return x.Format(time.RFC3339Nano)
				},
				func() string {
					m.SetStringValue("t", t.Format("2006-01-02 15:04:05.000000"))
					x, e := m.GetTime("t")
					if x == nil {
						return fmt.Sprint(nil, len(e) > 0)
					}
					return x.Format(time.RFC3339Nano)
				},
			}
		}}
	})
	twin(func(d int) program {
		return program{"clone all", 9, func() []func() string {
			s, n, f, b := pick(d, "x", "y"), pick(d, 5, 6), pick(d, 1.5, 2.5), pick(d, true, false)
			t := pick(d, time.Date(2021, 2, 3, 4, 5, 6, 7000, time.UTC), time.Date(2022, 12, 31, 23, 59, 58, 999999000, time.UTC))
			m, k := json.NewMap(), json.NewMap()
			a := json.NewArrayOfValues(&[]interface{}{s, n, nil})
			return []func() string{
				func() string {
					m.SetString("s", &s)
					m.SetInt("n", &n)
					m.SetFloat64("f", &f)
					m.SetBool("b", &b)
					m.SetTime("t", &t)
					m.SetErrors("e", []error{errors.New(s + "1"), errors.New(s + "2")})
					k.SetArray("a", a)
					m.SetMap("m", k)
					m.SetNil("z")
					return ""
				},
				func() string {
					x, e := m.Clone()
					if len(e) > 0 {
						return errOf(e)
					}
					return observed(x) + written(x)
				},
				func() string { return observed(m) },
			}
		}}
	})
	twin(func(d int) program {
		return program{"map history", 9, func() []func() string {
			m := json.NewMap()
			k := pick(d, []string{"a", "b", "c"}, []string{"c", "a", "d"})
			return []func() string{
				func() string {
					for i, x := range k {
						m.SetIntValue(x, i+10*d)
					}
					return strings.Join(m.GetKeys(), ",")
				},
				func() string { _, e := m.RemoveKey(k[0]); return fmt.Sprint(e == nil, m.Values().Len(), m.GetKeys()) },
				func() string { m.SetStringValue(k[0], k[1]); m.SetNil(k[1]); return written(m) },
				func() string { _, e := m.RemoveKey("absent"); return fmt.Sprint(e == nil, m.HasKey(k[2]), m.HasKey("a")) },
			}
		}}
	})
	twin(func(d int) program {
		return program{"array history", 9, func() []func() string {
			a := json.NewArray()
			return []func() string{
				func() string {
					for i := 0; i < 3; i++ {
						a.AppendIntValue(i + 10*d)
					}
					a.AppendStringValue(pick(d, "x", "y"))
					return writtenArr(a)
				},
				func() string { ok, e := a.RemoveValueAtIndex(1); return fmt.Sprint(ok, e == nil, writtenArr(a)) },
				func() string {
					ok, e := a.SetValueAtIndex(0, json.NewValue(pick(d, "p", "q")))
					return fmt.Sprint(ok, e == nil, writtenArr(a))
				},
				func() string { ok, e := a.SetValueAtIndex(9, nil); return fmt.Sprint(ok, e == nil, a.Len()) },
			}
		}}
	})
	twin(func(d int) program {
		return program{"conversions", 9, func() []func() string {
			m := json.NewMap()
			return []func() string{
				func() string {
					m.SetStringValue("s", pick(d, "-12", "-13"))
					m.SetUInt64Value("u", pick(d, uint64(200), uint64(201)))
					m.SetStringValue("b", pick(d, "true", "0"))
					m.SetFloat64Value("f", pick(d, 2.5, 3.5))
					m.SetStringValue("t", pick(d, "1.25", "2.75"))
					return ""
				},
				func() string {
					a, e := m.GetInt8Value("s")
					b, f := m.GetUInt8Value("u")
					x, g := m.GetInt64Value("u")
					return fmt.Sprint(a, len(e) > 0, b, len(f) > 0, x, len(g) > 0)
				},
				func() string {
					a, e := m.GetBoolValue("b")
					b, f := m.GetFloat64Value("t")
					x, g := m.GetFloat32Value("f")
					y, h := m.GetStringValue("s")
					return fmt.Sprint(a, len(e) > 0, b, len(f) > 0, x, len(g) > 0, y, len(h) > 0)
				},
			}
		}}
	})
	twin(func(d int) program {
		return program{"bulk reads", 9, func() []func() string {
			m := json.NewMap()
			return []func() string{
				func() string {
					m.SetArray("i", json.NewArrayOfValues(&[]interface{}{pick(d, 1, 4), "2", uint8(3)}))
					m.SetArray("s", json.NewArrayOfValues(&[]interface{}{pick(d, "x", "y"), nil}))
					m.SetArray("b", json.NewArrayOfValues(&[]interface{}{d == 0, "true"}))
					return written(m)
				},
				func() string {
					return read(&Ctx{}, m, "GetArrayOfInt16", "i").String() + read(&Ctx{}, m, "GetArrayOfString", "s").String()
				},
				func() string {
					return read(&Ctx{}, m, "GetArrayOfBool", "b").String() + read(&Ctx{}, m, "GetArrayOfFloat64Value", "i").String() + read(&Ctx{}, m, "GetArrayOfUInt8", "s").String()
				},
			}
		}}
	})
	twin(func(d int) program {
		return program{"from collections", 9, func() []func() string {
			var m *json.Map
			return []func() string{
				func() string { m = json.NewMapOfValues(&map[string]interface{}{"k": pick(d, "v", "w")}); return written(m) },
				func() string { m.SetErrors("e", []error{errors.New(pick(d, "one", "two"))}); return written(m) },
				func() string { m.SetObjectForMap("o", pick(d, int16(-5), int16(-6))); return fmt.Sprint(m.GetObjectForMap("o")) },
				func() string { e, f := m.GetErrors("e"); return fmt.Sprint(e, len(f) > 0) },
				func() string { r, f := m.GetRunes("k"); return fmt.Sprint(len(f) > 0, r != nil && len(*r) == 1 && *(*r)[0] == rune(pick(d, 'v', 'w'))) },
			}
		}}
	})
	twin(func(d int) program {
		return program{"nested edits", 9, func() []func() string {
			m, n, a := json.NewMap(), json.NewMap(), json.NewArray()
			return []func() string{
				func() string { m.SetMap("m", n); m.SetArray("a", a); return written(m) },
				func() string { n.SetFloat64Value("f", pick(d, 0.1, 0.2)); a.AppendStringValue(pick(d, "x", "y")); return written(m) },
				func() string {
					x, _ := m.GetMap("m")
					x.SetStringValue("g", pick(d, "h", "i"))
					y, _ := m.GetArray("a")
					y.AppendMap(n)
					return observed(m)
				},
			}
		}}
	})

	// every kind in both forms, cloned, written and read, in groups so that the schedules stay short
	groups := [][]func(d int) interface{}{}
	var g []func(d int) interface{}
	add := func(plain func(d int) interface{}) {
		g = append(g, plain, func(d int) interface{} { return pointerTo(plain(d)) })
		if len(g) == 6 {
			groups, g = append(groups, g), nil
		}
	}
	for _, t := range intTypes {
		add(func(d int) interface{} { return plainOf(intCell(t, mUintT(t, uint64(pick(d, 41, 42))), false)) })
	}
	add(func(d int) interface{} { return pick(d, float32(1.5), float32(2.5)) })
	add(func(d int) interface{} { return pick(d, 0.1, 0.2) })
	add(func(d int) interface{} { return pick(d, "x", "y") })
	add(func(d int) interface{} { return d == 0 })
	add(func(d int) interface{} {
		return pick(d, time.Date(2021, 2, 3, 4, 5, 6, 7000, time.UTC), time.Date(2022, 12, 31, 23, 59, 58, 999999000, time.UTC))
	})
	add(func(d int) interface{} { return []error{errors.New(pick(d, "one", "two"))} })
	g = append(g, func(d int) interface{} { return errors.New(pick(d, "one", "two")) })
	groups = append(groups, g)
	for i, g := range groups {
		doc := func(d int) *json.Map {
			m, a := json.NewMap(), json.NewArray()
			for j, f := range g {
				m.SetValue("k"+itoa(j), json.NewValue(f(d)))
				a.AppendValue(json.NewValue(f(d)))
			}
			m.SetArray("a", a)
			return m
		}
		twin(func(d int) program {
			return program{"clone kinds " + itoa(i), 9, func() []func() string {
				m := doc(d)
				return []func() string{func() string {
					x, e := m.Clone()
					if len(e) > 0 {
						return errOf(e)
					}
					return observed(x)
				}}
			}}
		})
		twin(func(d int) program {
			return program{"write kinds " + itoa(i), 9, func() []func() string {
				m := doc(d)
				return []func() string{func() string { return written(m) }, func() string {
					s := ""
					for _, f := range g {
						t, e := json.ConvertInterfaceValueToStringValue(f(d))
						s += t + errOf(e) + ";"
					}
					return s
				}}
			}}
		})
		twin(func(d int) program {
			return program{"read kinds " + itoa(i), 9, func() []func() string {
				m := doc(d)
				return []func() string{func() string {
					s := ""
					for j := range g {
						v := m.GetValue("k" + itoa(j))
						for _, name := range []string{"GetString", "GetInt64", "GetUInt8Value", "GetFloat64", "GetFloat32Value", "GetBool", "GetTime", "GetErrors"} {
							s += read(&Ctx{}, v, name).String() + ";"
						}
					}
					return s
				}}
			}}
		})
	}

	pair := func(c *Ctx) []int {
		i := nBase + 2*c.Choose((len(programs)-nBase)/2)
		return []int{i, i + 1}
	}
	what := itoa((len(programs)-nBase)/2) + " pairs of programs that do the same with different data (parsing, histories of maps and arrays, bulk reads; cloning, writing and reading every kind in both forms)"
	reg("C19",
		Harness{Name: "twins", Bound: what + ": every order in which their 1-5 steps can alternate, and every sequence of 5 runs of the two", Body: func(c *Ctx) {
			ids := pair(c)
			if c.Bool() {
				alternate(c, ids, [][]func() string{programs[ids[0]].mk(), programs[ids[1]].mk()})
				return
			}
			names := ""
			for i := 0; i < 5; i++ {
				id := ids[c.Choose(2)]
				c.Op(1)
				c.sameRun("after"+names, id, programs[id].run())
				names += ", " + programs[id].name
			}
			c.State(names)
		}},
		Harness{Name: "twin-goroutines", Serial: true, Loose: true, Bound: what + ": in two goroutines, every schedule with at most one preemption at any statement of the package", Body: func(c *Ctx) {
			together(c, pair(c), 1)
		}},
		Harness{Name: "race-twins", Race: true, Bound: what + ", in two goroutines and two of each at once, under the happens-before race detector", Body: func(c *Ctx) {
			ids := pair(c)
			if c.Bool() {
				ids = append(ids, ids...)
			}
			freely(c, ids)
		}},
	)
}
