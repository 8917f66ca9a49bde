package main

import (
	"errors"
	"fmt"
	"math"
	"net/url"
	"reflect"
	"strconv"
	"time"

	json "github.com/matehaxor03/holistic_json/json"
)

// cell is one storable object together with its meaning.
type cell struct {
	name string
	typ  string // base Go type
	ptr  bool
	mv   *MV
	obj  func() interface{} // a fresh object every time
}

var intTypes = []string{"int8", "int16", "int32", "int64", "int", "uint8", "uint16", "uint32", "uint64", "uint"}
var numTypes = append(append([]string{}, intTypes...), "float32", "float64")

func bitsOf(t string) int {
	switch t {
	case "int8", "uint8":
		return 8
	case "int16", "uint16":
		return 16
	case "int32", "uint32", "float32":
		return 32
	}
	return 64
}

var reflectTypes = map[string]reflect.Type{
	"int8": reflect.TypeOf(int8(0)), "int16": reflect.TypeOf(int16(0)), "int32": reflect.TypeOf(int32(0)), "int64": reflect.TypeOf(int64(0)), "int": reflect.TypeOf(int(0)),
	"uint8": reflect.TypeOf(uint8(0)), "uint16": reflect.TypeOf(uint16(0)), "uint32": reflect.TypeOf(uint32(0)), "uint64": reflect.TypeOf(uint64(0)), "uint": reflect.TypeOf(uint(0)),
	"float32": reflect.TypeOf(float32(0)), "float64": reflect.TypeOf(float64(0)), "string": reflect.TypeOf(""), "bool": reflect.TypeOf(false),
}

// methodName is the name used in getters and setters: Int8, UInt16, Float32, ...
func methodName(t string) string {
	switch {
	case isUnsigned(t):
		return "UInt" + t[4:]
	case isSigned(t):
		return "Int" + t[3:]
	}
	return string(t[0]-32) + t[1:]
}

// fits says whether an integer model value is representable in the type.
func fits(t string, m *MV) bool {
	b := bitsOf(t)
	if isUnsigned(t) {
		if m.Neg {
			return false
		}
		return b == 64 || m.U < 1<<b
	}
	if m.Neg {
		return m.U <= 1<<(b-1)
	}
	return m.U < 1<<(b-1)
}

// goInt makes a Go value of an integer type (caller has checked fits).
func goInt(t string, m *MV) reflect.Value {
	v := reflect.New(reflectTypes[t]).Elem()
	if isUnsigned(t) {
		v.SetUint(m.U)
	} else {
		i, err := strconv.ParseInt(m.digits(), 10, 64)
		if err != nil {
			panic(err)
		}
		v.SetInt(i)
	}
	return v
}

// intPoints are the integers tried everywhere: around every limit of every type, 0, small, powers of ten.
func intPoints() []*MV {
	seen := map[string]bool{}
	var out []*MV
	add := func(neg bool, u uint64) {
		m := &MV{K: 'i', Neg: neg && u != 0, U: u}
		if neg && u > 1<<63 || seen[m.digits()] {
			return
		}
		seen[m.digits()] = true
		out = append(out, m)
	}
	for _, u := range uintLimits {
		for _, d := range []uint64{0, 1, ^uint64(0)} {
			if (d == 1 && u == math.MaxUint64) || (d == ^uint64(0) && u == 0) {
				continue
			}
			add(false, u+d)
			add(true, u+d)
		}
	}
	for p := uint64(1); ; p *= 10 {
		add(false, p)
		add(true, p)
		if p > math.MaxUint64/10 {
			break
		}
	}
	for b := 0; b < 64; b++ {
		add(false, 1<<b)
		add(true, 1<<b)
		add(false, 1<<b+1)
		add(true, 1<<b+1)
		add(false, 1<<b-1)
		add(true, 1<<b-1)
	}
	for _, u := range []uint64{42, 200, 1000, 40000, 70000, 123456789, 3000000000, 5000000000, 12345678901234567, 16777217, 33554433, 9007199254740993} {
		add(false, u)
		add(true, u)
	}
	return out
}

var floatPoints = []float64{0, 1, -1, 1.5, -2.25, 0.5, 0.1, 0.25, 0.000001, 0.0000005, 1e-7, -1e-9, 3, 100, 255, 256, 65535.5, 1e6, 16777216, 16777217, 123456.789, 9007199254740992, 1e15, 1e16, 1e17, 1e20, 1e21, 1e22,
	0.3, 2.0 / 3, math.Pi, -math.E, 12345.678901, 0.7654321, -0.7654321, 99999.999999, 1e10 + 0.5, math.MaxFloat32, -math.MaxFloat32, math.MaxFloat32 * 2, math.SmallestNonzeroFloat32, 1.17549435e-38, 1e-30, 1e-45, 1e-300, 1e300, -1e300, math.MaxFloat64, -math.MaxFloat64, math.SmallestNonzeroFloat64, 5e-324, 2.5e-310}

func floatsOf(t string) []float64 {
	var out []float64
	seen := map[float64]bool{}
	for _, f := range floatPoints {
		if t == "float32" {
			f = float64(float32(f))
			if math.IsInf(f, 0) {
				continue
			}
		}
		if !seen[f] {
			seen[f] = true
			out = append(out, f)
		}
	}
	return out
}

func boxed(v reflect.Value, ptr bool) interface{} {
	if !ptr {
		return v.Interface()
	}
	p := reflect.New(v.Type())
	p.Elem().Set(v)
	return p.Interface()
}

func form(ptr bool) string {
	if ptr {
		return "*"
	}
	return ""
}

func intCell(t string, m *MV, ptr bool) cell {
	w := *m
	w.T = t
	return cell{form(ptr) + t + "(" + m.digits() + ")", t, ptr, &w, func() interface{} { return boxed(goInt(t, m), ptr) }}
}

func floatCell(t string, f float64, ptr bool) cell {
	return cell{fmt.Sprintf("%s%s(%v)", form(ptr), t, f), t, ptr, &MV{K: 'f', T: t, F: f}, func() interface{} {
		v := reflect.New(reflectTypes[t]).Elem()
		v.SetFloat(f)
		return boxed(v, ptr)
	}}
}

func strCell(s string, ptr bool) cell {
	return cell{fmt.Sprintf("%sstring(%q)", form(ptr), clipS(s)), "string", ptr, mStr(s), func() interface{} { return boxed(reflect.ValueOf(s), ptr) }}
}

func boolCell(b bool, ptr bool) cell {
	return cell{fmt.Sprintf("%sbool(%v)", form(ptr), b), "bool", ptr, mBool(b), func() interface{} { return boxed(reflect.ValueOf(b), ptr) }}
}

func nilCell() cell {
	return cell{"nil", "nil", false, mNull(), func() interface{} { return nil }}
}

func mapCell(m *MV, ptr bool) cell {
	return cell{form(ptr) + "Map" + clipS(m.String()), "json.Map", ptr, m, func() interface{} {
		x := buildMap(m)
		if ptr {
			return x
		}
		return *x
	}}
}

func arrCell(m *MV, ptr bool) cell {
	return cell{form(ptr) + "Array" + clipS(m.String()), "json.Array", ptr, m, func() interface{} {
		x := buildArr(m)
		if ptr {
			return x
		}
		return *x
	}}
}

var someStrings = []string{"x", "", "12", "true", "a\"b\\c\n", "é😀", " "}

// catalog: every storable kind of JSON value in both storage forms with a few values each.
func catalog() []cell {
	out := []cell{nilCell()}
	for _, ptr := range []bool{false, true} {
		for _, t := range intTypes {
			top := uint64(1)<<(bitsOf(t)-1) - 1
			if isUnsigned(t) {
				top = top*2 + 1
			}
			out = append(out, intCell(t, mUintT(t, 0), ptr), intCell(t, mUintT(t, 1), ptr), intCell(t, mUintT(t, 100), ptr), intCell(t, mUintT(t, top), ptr))
			if isSigned(t) {
				out = append(out, intCell(t, mIntT(t, -1), ptr), intCell(t, &MV{K: 'i', Neg: true, U: top + 1}, ptr))
			}
		}
		for _, t := range []string{"float32", "float64"} {
			for _, f := range []float64{0, 1, 1.5, -2.25, float64(float32(0.1))} {
				out = append(out, floatCell(t, f, ptr))
			}
		}
		out = append(out, floatCell("float32", math.MaxFloat32, ptr), floatCell("float64", 1e300, ptr), floatCell("float64", 0.1, ptr))
		for _, s := range someStrings {
			out = append(out, strCell(s, ptr))
		}
		out = append(out, boolCell(true, ptr), boolCell(false, ptr))
		out = append(out, mapCell(mMap(), ptr), mapCell(mMap().set("x", mLit(false, 1)).set("y", mArr(mNull())), ptr))
		out = append(out, arrCell(mArr(), ptr), arrCell(mArr(mLit(false, 1), mStr("s"), mMap().set("x", mNull())), ptr))
	}
	return out
}

// smallCatalog: one or two cells of every kind and form, for products.
func smallCatalog() []cell {
	out := []cell{nilCell()}
	for _, ptr := range []bool{false, true} {
		for _, t := range intTypes {
			m := mUintT(t, 7)
			if isSigned(t) {
				m = mIntT(t, -7)
			}
			out = append(out, intCell(t, m, ptr))
		}
		out = append(out, floatCell("float32", 1.5, ptr), floatCell("float64", -2.25, ptr), strCell("x", ptr), strCell("", ptr), boolCell(true, ptr), boolCell(false, ptr),
			mapCell(mMap().set("x", mLit(false, 1)), ptr), mapCell(mMap(), ptr), arrCell(mArr(mStr("s"), mNull()), ptr), arrCell(mArr(), ptr))
	}
	return out
}

// ---- non-JSON kinds the package also stores ----

type wrapped struct{ msg string }

func (w wrapped) Error() string { return w.msg }

type errCell struct {
	name string
	msgs []string // expected messages
	list bool
	obj  func() interface{}
}

func errorCells() []errCell {
	e := func(s string) error { return errors.New(s) }
	p := func(x error) *error { return &x }
	msgs := []string{"boom", "", "a \"q\" \\ b\nc", "100%", "%s %d", "é😀", "ends with nil"}
	var out []errCell
	for _, m := range msgs {
		m := m
		out = append(out,
			errCell{"errors.New(" + m + ")", []string{m}, false, func() interface{} { return e(m) }},
			errCell{"*error(" + m + ")", []string{m}, false, func() interface{} { return p(e(m)) }},
			errCell{"wrapped(" + m + ")", []string{"w: " + m}, false, func() interface{} { return fmt.Errorf("w: %w", e(m)) }},
			errCell{"*error wrapped(" + m + ")", []string{"w: " + m}, false, func() interface{} { return p(fmt.Errorf("w: %w", e(m))) }},
			errCell{"custom(" + m + ")", []string{"c" + m}, false, func() interface{} { return wrapped{"c" + m} }},
			errCell{"*custom(" + m + ")", []string{"c" + m}, false, func() interface{} { return &wrapped{"c" + m} }},
		)
	}
	out = append(out, errCell{"url.Error", []string{(&url.Error{Op: "Get", URL: "http://x", Err: e("u")}).Error()}, false, func() interface{} {
		return &url.Error{Op: "Get", URL: "http://x", Err: e("u")}
	}}, errCell{"joined", []string{"a\nb"}, false, func() interface{} { return errors.Join(e("a"), e("b")) }})
	return out
}

func errorListCells() []errCell {
	e := func(s string) error { return errors.New(s) }
	var out []errCell
	for _, l := range [][]string{{}, {"a"}, {"a", "b"}, {"a \"q\"", "", "100% %s"}, {"x", "x", "y", "é\n"}} {
		l := l
		mk := func() []error {
			r := []error{}
			for _, s := range l {
				r = append(r, e(s))
			}
			return r
		}
		out = append(out, errCell{fmt.Sprintf("[]error%q", l), l, true, func() interface{} { return mk() }},
			errCell{fmt.Sprintf("*[]error%q", l), l, true, func() interface{} { x := mk(); return &x }})
	}
	return out
}

var timePoints = []time.Time{
	time.Date(2023, 1, 2, 3, 4, 5, 678901000, time.UTC),
	time.Date(2023, 1, 2, 3, 4, 5, 0, time.UTC),
	time.Date(1999, 12, 31, 23, 59, 59, 999999000, time.UTC),
	time.Date(2000, 2, 29, 0, 0, 0, 1000, time.UTC),
	time.Date(1970, 1, 1, 0, 0, 0, 0, time.UTC),
	time.Date(1, 1, 1, 0, 0, 0, 0, time.UTC),
	time.Date(9999, 12, 31, 12, 0, 0, 500000000, time.UTC),
	time.Date(2024, 10, 10, 10, 10, 10, 100000000, time.UTC),
	time.Date(2024, 10, 10, 10, 10, 10, 120000, time.UTC),
}

// ---- building real objects from a model ----

func buildMap(m *MV) *json.Map {
	x := json.NewMap()
	for i, k := range m.Keys {
		x.SetValue(k, buildVal(m.Vals[i]))
	}
	return x
}

func buildArr(m *MV) *json.Array {
	a := json.NewArray()
	for _, v := range m.Vals {
		a.AppendValue(buildVal(v))
	}
	return a
}

func buildVal(m *MV) *json.Value {
	switch m.K {
	case 'n':
		return json.NewValue(nil)
	case 's':
		s := m.S
		return json.NewValue(&s)
	case 'b':
		return json.NewValue(m.B)
	case 'i':
		t := m.T
		if t == "" {
			t = mLit(m.Neg, m.U).T
		}
		return json.NewValue(goInt(t, m).Interface())
	case 'f':
		if m.T == "float32" {
			return json.NewValue(float32(m.F))
		}
		return json.NewValue(m.F)
	case 'm':
		return json.NewValue(buildMap(m))
	case 'a':
		return json.NewValue(buildArr(m))
	}
	panic("kind")
}
