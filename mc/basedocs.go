package main

import "strconv"

func itoa(i int) string { return strconv.Itoa(i) }

// baseDocs: documents to be damaged, spaced, truncated; every construct next to every other one.
func baseDocs() []*MV {
	o := func(kv ...interface{}) *MV {
		m := mMap()
		for i := 0; i < len(kv); i += 2 {
			m.set(kv[i].(string), kv[i+1].(*MV))
		}
		return m
	}
	i := func(n int) *MV { return mLit(n < 0, uint64(abs(n))) }
	s := mStr
	a := mArr
	return []*MV{
		o(),
		o("a", i(1)),
		o("a", s("x")),
		o("a", o()),
		o("a", a()),
		o("a", mNull()),
		o("", s("")),
		o("a", a(i(1), i(2))),
		o("a", a(s("x"))),
		o("a", a(a())),
		o("a", a(o())),
		o("a", o("b", i(1))),
		// the first twelve are the small ones
		o("a", i(-12), "b", mBool(true)),
		o("a", i(1), "b", s("y"), "c", mNull()),
		o("a", a(i(1), s("x"), mNull(), mBool(false))),
		o("a", a(a(i(1)), a(i(2), i(3)))),
		o("a", a(o("b", i(1)), o("c", i(2)))),
		o("a", o("b", o("c", o()))),
		o("a", o("b", a(o("c", a(s("d")))))),
		o("a", a(), "b", o(), "c", a()),
		o("a", o("b", i(1)), "c", o("d", i(2))),
		o("a", o("b", i(1)), "c", i(2)),
		o("a", a(s("x"), a(s("y")), o("z", s("w"))), "e", s("f")),
		o("a{", s("}"), "b]", s("[")),
		o("a\"b", s("c\"d"), "e\\", s("\\")),
		o("a", mF32(1.5), "b", mF32(-0.25)),
		o("a", a(a(a(a())))),
		o("a", a(o("b", a()), o()), "c", a(o("d", o()))),
		o("a", i(1), "b", a(i(2)), "c", o("d", i(3)), "e", a(o("f", i(4)))),
		o("key", s("value"), "list", a(s("p"), s("q"), s("r")), "obj", o("k1", s("v1"), "k2", s("v2"))),
		o("a", a(i(1), o("b", i(2)), a(i(3)), i(4), o("c", a(i(5))), s("6"))),
	}
}

func abs(n int) int {
	if n < 0 {
		return -n
	}
	return n
}
