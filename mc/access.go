package main

// Calling every read operation of the package by reflection, and what each must answer.

import (
	"fmt"
	"math"
	"reflect"
	"regexp"
	"sort"
	"strconv"
	"strings"
	"time"

	json "github.com/matehaxor03/holistic_json/json"
)

var tValue, tMap, tArray = reflect.TypeOf(json.Value{}), reflect.TypeOf(json.Map{}), reflect.TypeOf(json.Array{})
var tErrors = reflect.TypeOf([]error{})
var tBuilder = reflect.TypeOf(&strings.Builder{})
var tTime = reflect.TypeOf(time.Time{})
var tStringPtr = reflect.TypeOf((*string)(nil))

// method is one operation (a function field) of a struct of the package.
type method struct {
	owner reflect.Type
	name  string
	idx   int
	typ   reflect.Type
}

func methodsOf(t reflect.Type, keep func(name string) bool) []method {
	var out []method
	for i := 0; i < t.NumField(); i++ {
		f := t.Field(i)
		if f.PkgPath == "" && f.Type.Kind() == reflect.Func && keep(f.Name) {
			out = append(out, method{t, f.Name, i, f.Type})
		}
	}
	return out
}

func isRead(name string) bool {
	for _, p := range []string{"Get", "Is", "Has", "Len", "Values", "Clone", "ToJSONString"} {
		if strings.HasPrefix(name, p) {
			return true
		}
	}
	return false
}

var valueReads, mapReads, arrayReads = methodsOf(tValue, isRead), methodsOf(tMap, isRead), methodsOf(tArray, isRead)
var methodIndex = map[reflect.Type]map[string]method{}

func init() {
	for _, t := range []reflect.Type{tValue, tMap, tArray} {
		methodIndex[t] = map[string]method{}
		for _, m := range methodsOf(t, func(string) bool { return true }) {
			methodIndex[t][m.name] = m
		}
	}
}

func has(t reflect.Type, name string) bool {
	_, ok := methodIndex[t][name]
	return ok
}

// outcome of a read, with pointers followed
type outcome struct {
	val    reflect.Value // the result, dereferenced; invalid when there is none
	null   bool          // a nil pointer, slice or interface
	err    bool
	hasErr bool
	zero   bool // the raw result is nil or the zero value
}

func (o outcome) String() string {
	s := ""
	if o.null {
		s = "nil"
	} else if o.val.IsValid() {
		s = render(o.val)
	}
	if o.err {
		s += " with an error"
	}
	return s
}

func callField(target reflect.Value, m method, args ...interface{}) []reflect.Value {
	f := target.Field(m.idx)
	if f.IsNil() {
		panic(violation{m.owner.Name() + "." + m.name + " is declared but there is no such operation"})
	}
	in := make([]reflect.Value, len(args))
	for i, a := range args {
		if a == nil {
			in[i] = reflect.Zero(m.typ.In(i))
		} else {
			in[i] = reflect.ValueOf(a)
		}
	}
	return f.Call(in)
}

func asOutcome(out []reflect.Value) outcome {
	o := outcome{}
	if len(out) == 0 {
		return o
	}
	v := out[0]
	if v.Type() == tErrors && len(out) == 1 {
		o.hasErr, o.err = true, v.Len() > 0
		return o
	}
	if len(out) > 1 {
		o.hasErr = true
		o.err = !out[1].IsNil()
	}
	switch v.Kind() {
	case reflect.Ptr, reflect.Slice, reflect.Interface:
		if v.IsNil() {
			o.null, o.zero = true, true
			return o
		}
		if v.Kind() == reflect.Ptr {
			o.val = v.Elem()
		} else if v.Kind() == reflect.Interface {
			o.val = v.Elem()
		} else {
			o.val = v
		}
	default:
		o.val = v
		switch v.Type() {
		case tMap:
			o.zero = len(v.Interface().(json.Map).GetKeys()) == 0
		case tArray:
			o.zero = v.Interface().(json.Array).Len() == 0
		case tTime:
			t := v.Interface().(time.Time)
			o.zero = t.IsZero() || t.Year() <= 1
		default:
			o.zero = v.IsZero()
		}
	}
	return o
}

// read performs one operation on a *json.Value, *json.Map or *json.Array.
func read(c *Ctx, target interface{}, name string, args ...interface{}) outcome {
	v := reflect.ValueOf(target).Elem()
	m, ok := methodIndex[v.Type()][name]
	if !ok {
		panic("no operation " + name)
	}
	c.Op(1)
	return asOutcome(callField(v, m, args...))
}

// render writes any result in a canonical way, free of addresses.
func render(v reflect.Value) string {
	if !v.IsValid() {
		return "nothing"
	}
	switch v.Kind() {
	case reflect.Ptr:
		if v.IsNil() {
			return "nil"
		}
		return "&" + render(v.Elem())
	case reflect.Interface:
		if v.IsNil() {
			return "nil"
		}
		if e, ok := v.Interface().(error); ok {
			return "error:" + e.Error()
		}
		return v.Elem().Type().String() + ":" + render(v.Elem())
	case reflect.Slice:
		var b strings.Builder
		b.WriteByte('[')
		for i := 0; i < v.Len(); i++ {
			b.WriteString(render(v.Index(i)))
			b.WriteByte(',')
		}
		b.WriteByte(']')
		return b.String()
	case reflect.Func:
		if v.IsNil() {
			return "nil func"
		}
		return "func"
	}
	switch x := v.Interface().(type) {
	case json.Map:
		var b strings.Builder
		e := x.ToJSONString(&b)
		return fmt.Sprintf("Map%q%s%v", x.GetKeys(), b.String(), len(e) > 0)
	case json.Array:
		var b strings.Builder
		e := x.ToJSONString(&b)
		return fmt.Sprintf("Array%d%s%v", x.Len(), b.String(), len(e) > 0)
	case json.Value:
		o := x.GetObject()
		return "Value:" + x.GetType() + ":" + render(reflect.ValueOf(&o).Elem())
	case time.Time:
		return x.Format(time.RFC3339Nano)
	case string:
		return strconv.Quote(x)
	case error:
		return "error:" + x.Error()
	}
	switch v.Kind() {
	case reflect.Bool, reflect.Int, reflect.Int8, reflect.Int16, reflect.Int32, reflect.Int64, reflect.Uint, reflect.Uint8, reflect.Uint16, reflect.Uint32, reflect.Uint64, reflect.Float32, reflect.Float64:
		return fmt.Sprint(v.Interface())
	}
	return v.Type().String()
}

func renderAll(out []reflect.Value) string {
	s := ""
	for i, v := range out {
		if v.Type() == tErrors && i == len(out)-1 {
			s += fmt.Sprintf(" err=%v", v.Len() > 0)
		} else {
			s += render(v)
		}
	}
	return s
}

// ---- what a read must give ----

var strictInt = regexp.MustCompile(`^-?(0|[1-9][0-9]*)$`)
var strictNum = regexp.MustCompile(`^-?(0|[1-9][0-9]*)(\.[0-9]+)?([eE][-+]?[0-9]+)?$`)

// answer is the set of allowed answers of a conversion.
type answer struct {
	vals  []*MV // any of these
	err   bool  // an error is allowed
	null  bool  // nil without an error is allowed (pointer form), error in plain form
	claim bool  // false: anything but a panic
}

func exactly(m *MV) answer { return answer{vals: []*MV{m}, claim: true} }
func mustErr() answer      { return answer{err: true, claim: true} }

// single precision readings of a double: to six decimal places, or exact
func singles(f float64, text string) answer {
	a := answer{claim: true}
	add := func(s string) {
		g, err := strconv.ParseFloat(s, 32)
		if err != nil {
			a.err = true
			return
		}
		a.vals = append(a.vals, &MV{K: 'f', T: "float32", F: g})
	}
	add(fmt.Sprintf("%f", f))
	add(strconv.FormatFloat(f, 'f', -1, 64))
	if text != "" {
		add(text)
	}
	return a
}

// convert says what reading m as the target type must give.
func convert(m *MV, target string) answer {
	isInt := isSigned(target) || isUnsigned(target)
	switch m.K {
	case 'n':
		return answer{null: true, claim: true}
	case 'i':
		switch {
		case isInt && fits(target, m):
			w := *m
			w.T = target
			return exactly(&w)
		case isInt:
			return mustErr()
		case target == "float64":
			f, _ := strconv.ParseFloat(m.digits(), 64)
			return exactly(mF64(f))
		case target == "float32":
			f, _ := strconv.ParseFloat(m.digits(), 64)
			return singles(f, m.digits())
		}
	case 'f':
		switch {
		case target == "float64":
			return exactly(mF64(m.F))
		case target == "float32":
			return singles(m.F, "")
		}
	case 'b':
		if target == "bool" {
			return exactly(m)
		}
	case 'm':
		if target == "Map" {
			return exactly(m)
		}
	case 'a':
		if target == "Array" {
			return exactly(m)
		}
	case 's':
		switch {
		case target == "string":
			return exactly(m)
		case target == "bool":
			switch m.S {
			case "1", "true":
				return exactly(mBool(true))
			case "0", "false":
				return exactly(mBool(false))
			}
			return mustErr()
		case isInt:
			if m.S == "NULL" && isUnsigned(target) {
				return answer{null: true, claim: true}
			}
			w := textInt(m.S)
			if w == nil {
				return mustErr()
			}
			a := mustErr()
			if fits(target, w) {
				w.T = target
				a = exactly(w)
			}
			if !strictInt.MatchString(m.S) || m.S == "-0" {
				a.err = true // other spellings may be refused but not misread
			}
			return a
		case target == "float64" || target == "float32":
			if m.S == "NULL" {
				return answer{null: true, err: true, claim: true}
			}
			f, err := strconv.ParseFloat(m.S, 64)
			if err != nil {
				return mustErr()
			}
			if strings.ContainsAny(m.S, "xXpP_") || math.IsInf(f, 0) || math.IsNaN(f) {
				return answer{}
			}
			a := exactly(mF64(f))
			if target == "float32" {
				a = singles(f, m.S)
			}
			if !strictNum.MatchString(m.S) {
				a.err = true
			}
			return a
		}
	}
	return mustErr()
}

// textInt reads [+-]?digits of at most 64 bits; nil when the text is anything else.
func textInt(s string) *MV {
	neg := strings.HasPrefix(s, "-")
	d := strings.TrimPrefix(strings.TrimPrefix(s, "-"), "+")
	if len(s)-len(d) > 1 || d == "" {
		return nil
	}
	for _, r := range d {
		if r < '0' || r > '9' {
			return nil
		}
	}
	u, err := strconv.ParseUint(d, 10, 64)
	if err != nil || neg && u > 1<<63 {
		return nil
	}
	return &MV{K: 'i', Neg: neg && u != 0, U: u}
}

// sameGo compares a Go value returned by a getter with a model value.
func sameGo(v reflect.Value, w *MV) bool {
	switch w.K {
	case 'i':
		return v.Type() == reflectTypes[w.T] && fmt.Sprint(v.Interface()) == w.digits()
	case 'f':
		return v.Type() == reflectTypes[w.T] && v.Float() == w.F
	case 's':
		return v.Kind() == reflect.String && v.String() == w.S
	case 'b':
		return v.Kind() == reflect.Bool && v.Bool() == w.B
	case 'm':
		x, ok := v.Interface().(json.Map)
		return ok && strings.Join(x.GetKeys(), "\x00") == strings.Join(w.Keys, "\x00")
	case 'a':
		x, ok := v.Interface().(json.Array)
		return ok && x.Len() == len(w.Vals)
	}
	return false
}

// checkRead compares one reading with the answers allowed. plain: the getter without pointers.
func checkRead(c *Ctx, what string, o outcome, a answer, plain bool) {
	if !a.claim {
		return
	}
	if o.err {
		if !o.zero {
			c.Failf("%s: an error together with a result: %s", what, o)
		}
		if a.err || a.null && plain {
			return
		}
		c.Failf("%s: error, want %s", what, a)
	}
	if o.null {
		if a.null && !plain {
			return
		}
		c.Failf("%s: nil without an error, want %s", what, a)
	}
	for _, w := range a.vals {
		if o.val.IsValid() && sameGo(o.val, w) {
			return
		}
	}
	c.Failf("%s = %s, want %s", what, o, a)
}

func (a answer) String() string {
	var s []string
	for _, v := range a.vals {
		s = append(s, v.String())
	}
	if a.err {
		s = append(s, "an error")
	}
	if a.null {
		s = append(s, "nil (an error in plain form)")
	}
	return strings.Join(s, " or ")
}

var scalarTargets = append(append([]string{}, numTypes...), "string", "bool")

func getterName(target string) string {
	if target == "Map" || target == "Array" {
		return "Get" + target
	}
	return "Get" + methodName(target)
}

// readEveryWay reads v (held in an own map under k and in an own array as well) as the target by
// every route the package offers.
type holders struct {
	v *json.Value
	m *json.Map
	a *json.Array // holds just v
	h *json.Map   // holds the array under k
}

func hold(v *json.Value) holders {
	h := holders{v: v, m: json.NewMap(), a: json.NewArray(), h: json.NewMap()}
	h.m.SetValue("k", v)
	h.a.AppendValue(v)
	h.h.SetArray("k", h.a)
	return h
}

func (h holders) readAs(c *Ctx, name string, target string, a answer) {
	g := getterName(target)
	checkRead(c, name+".Value."+g, read(c, h.v, g), a, false)
	checkRead(c, name+".Value."+g+"Value", read(c, h.v, g+"Value"), a, true)
	checkRead(c, name+".Map."+g, read(c, h.m, g, "k"), a, false)
	checkRead(c, name+".Map."+g+"Value", read(c, h.m, g+"Value", "k"), a, true)
	h.bulk(c, name, target, a)
}

func (h holders) bulk(c *Ctx, name string, target string, a answer) {
	if target == "Map" || target == "Array" {
		return
	}
	g := "GetArrayOf" + methodName(target)
	for _, plain := range []bool{false, true} {
		n := g
		if plain {
			n += "Value"
		}
		if has(tArray, n) {
			checkBulk1(c, name+".Array."+n, read(c, h.a, n), a, plain)
		}
		if has(tMap, n) {
			checkBulk1(c, name+".Map."+n, read(c, h.h, n, "k"), a, plain)
		}
	}
}

// checkBulk1 checks a list of one entry.
func checkBulk1(c *Ctx, what string, o outcome, a answer, plain bool) {
	if !a.claim {
		return
	}
	if o.err {
		checkRead(c, what, o, a, plain)
		return
	}
	if o.null || !o.val.IsValid() || o.val.Kind() != reflect.Slice || o.val.Len() != 1 {
		c.Failf("%s = %s, want one entry", what, o)
	}
	checkRead(c, what, asOutcome([]reflect.Value{o.val.Index(0)}), a, plain)
}

// ---- predicates ----

var predicateNames = []string{"IsNil", "IsMap", "IsArray", "IsString", "IsBool", "IsNumber", "IsInteger", "IsFloat", "IsFloat32", "IsFloat64",
	"IsInt", "IsInt8", "IsInt16", "IsInt32", "IsInt64", "IsUInt", "IsUInt8", "IsUInt16", "IsUInt32", "IsUInt64", "IsBoolTrue", "IsBoolFalse", "IsEmptyString"}

func predicate(name string, w *MV) bool {
	switch name {
	case "IsNil", "IsNull":
		return w.K == 'n'
	case "IsMap":
		return w.K == 'm'
	case "IsArray":
		return w.K == 'a'
	case "IsString":
		return w.K == 's'
	case "IsBool":
		return w.K == 'b'
	case "IsNumber":
		return w.K == 'i' || w.K == 'f'
	case "IsInteger":
		return w.K == 'i'
	case "IsFloat":
		return w.K == 'f'
	case "IsInt":
		return isSigned(w.T)
	case "IsUInt":
		return isUnsigned(w.T)
	case "IsBoolTrue":
		return w.K == 'b' && w.B
	case "IsBoolFalse":
		return w.K == 'b' && !w.B
	case "IsEmptyString":
		return w.K == 's' && w.S == ""
	}
	return strings.ToLower(name[2:]) == w.T
}

// checkPredicates asks every predicate of the value, and of the map holding it under k.
func checkPredicates(c *Ctx, what string, v *json.Value, m *json.Map, k string, w *MV) {
	for _, p := range predicateNames {
		want := predicate(p, w)
		if v != nil {
			if o := read(c, v, p); o.val.Bool() != want {
				c.Failf("%s: Value.%s is %v, want %v", what, p, !want, want)
			}
		}
		n := p
		if p == "IsNil" {
			n = "IsNull"
		}
		if m != nil && has(tMap, n) {
			if o := read(c, m, n, k); o.val.Bool() != want {
				c.Failf("%s: Map.%s is %v, want %v", what, n, !want, want)
			}
		}
	}
	if m != nil {
		want := "nil"
		if w.K != 'n' {
			want = map[byte]string{'m': "json.Map", 'a': "json.Array", 's': "string", 'b': "bool"}[w.K]
			if w.T != "" {
				want = w.T
			}
		}
		if t := base(m.GetType(k)); t != want {
			c.Failf("%s: Map.GetType is %s, want %s", what, t, want)
		}
	}
}

func sortedKeys(m map[string]func() interface{}) []string {
	var out []string
	for k := range m {
		out = append(out, k)
	}
	sort.Strings(out)
	return out
}
