package main

import (
	"errors"
	"fmt"
	"reflect"
	"strings"
	"time"

	json "github.com/matehaxor03/holistic_json/json"
)

// subject is anything that can be stored, JSON or not.
type subject struct {
	name string
	kind string // json, time, error, errors, func, odd
	mv   *MV    // for json
	obj  func() interface{}
}

func jsonSubjects() []subject {
	var out []subject
	for _, x := range catalog() {
		x := x
		out = append(out, subject{x.name, "json", x.mv, x.obj})
	}
	for _, s := range append([]string{"2023-01-02 03:04:05.678901", "2023-01-02", "2023-13-45 99:99:99", "NULL", "0", "false", "-5", "1e3", "300", "-129"}, lookalikes...) {
		x := strCell(s, true)
		out = append(out, subject{x.name, "json", x.mv, x.obj})
		if !nilLike(s) {
			y := strCell(s, false)
			out = append(out, subject{y.name, "json", y.mv, y.obj})
		}
	}
	for _, p := range []interface{}{(*string)(nil), (*bool)(nil), (*int)(nil), (*int8)(nil), (*int64)(nil), (*uint8)(nil), (*uint64)(nil), (*float32)(nil), (*float64)(nil), (*json.Map)(nil), (*json.Array)(nil), (*time.Time)(nil)} {
		p := p
		out = append(out, subject{fmt.Sprintf("%T(nil)", p), "json", mNull(), func() interface{} { return p }})
	}
	return out
}

func otherSubjects() []subject {
	var out []subject
	for _, t := range timePoints[:4] {
		t := t
		out = append(out, subject{"time " + t.String(), "time", nil, func() interface{} { return t }}, subject{"*time " + t.String(), "time", nil, func() interface{} { u := t; return &u }})
	}
	for _, e := range errorCells() {
		out = append(out, subject{e.name, "error", nil, e.obj})
	}
	for _, e := range errorListCells() {
		out = append(out, subject{e.name, "errors", nil, e.obj})
	}
	f := func(s string) []error { return []error{errors.New(s)} }
	out = append(out, subject{"func", "func", nil, func() interface{} { return f }}, subject{"*func", "func", nil, func() interface{} { return &f }})
	return out
}

func oddSubjects() []subject {
	odd := map[string]func() interface{}{
		"[]string":         func() interface{} { return []string{"a", "b"} },
		"*[]string":        func() interface{} { return &[]string{"a"} },
		"map[string]any":   func() interface{} { return map[string]interface{}{"a": 1} },
		"[]any":            func() interface{} { return []interface{}{1, "a"} },
		"struct":           func() interface{} { return struct{ A int }{1} },
		"*struct":          func() interface{} { return &struct{ A int }{1} },
		"chan":             func() interface{} { return make(chan int) },
		"complex":          func() interface{} { return complex(1, 2) },
		"[]byte":           func() interface{} { return []byte("x") },
		"array":            func() interface{} { return [2]int{1, 2} },
		"func()":           func() interface{} { return func() {} },
		"**int":            func() interface{} { x := 5; p := &x; return &p },
		"Value of string":  func() interface{} { return json.NewValueValue("s") },
		"*Value of int":    func() interface{} { return json.NewValue(5) },
		"*Value of text":   func() interface{} { return json.NewValue("7") },
		"*Value of nil":    func() interface{} { return json.NewValue(nil) },
		"*Value of map":    func() interface{} { return json.NewValue(json.NewMap()) },
		"*Value of list":   func() interface{} { return json.NewValue(json.NewArray()) },
		"duration":         func() interface{} { return time.Second },
		"month":            func() interface{} { return time.May },
		"stringer":         func() interface{} { return errText("x") },
		"empty struct":     func() interface{} { return struct{}{} },
		"nil func pointer": func() interface{} { return (*func(string) []error)(nil) },
		"nil errors":       func() interface{} { return (*[]error)(nil) },
		"nil error ptr":    func() interface{} { return (*error)(nil) },
		"empty errors":     func() interface{} { return []error{} },
		"nil in errors":    func() interface{} { return []error{nil, errors.New("a")} },
	}
	var out []subject
	for _, k := range sortedKeys(odd) {
		out = append(out, subject{"odd " + k, "odd", nil, odd[k]})
	}
	return out
}

type errText string

func (e errText) String() string { return string(e) }

// variants of the arguments of a read operation
func argVariants(m method, key string) [][]interface{} {
	var out [][]interface{}
	n := m.typ.NumIn()
	switch {
	case n == 0:
		return [][]interface{}{{}}
	case n == 1 && m.typ.In(0).Kind() == reflect.String:
		if m.owner == tValue {
			return [][]interface{}{{""}, {"x"}, {"12"}, {"nil"}}
		}
		return [][]interface{}{{key}}
	case n == 1 && m.typ.In(0) == tStringPtr:
		x, e := "x", ""
		return [][]interface{}{{nil}, {&x}, {&e}}
	case n == 1 && m.typ.In(0).Kind() == reflect.Int:
		if m.owner == tArray {
			return [][]interface{}{{0}, {1}, {2}, {3}, {-1}}
		}
		for _, d := range []int{0, 1, 2, 3, 4, 5, 6, 7, 8, 9, 10, -1, 100} {
			out = append(out, []interface{}{d})
		}
		return out
	case n == 2 && m.typ.In(1).Kind() == reflect.Int:
		for _, d := range []int{0, 3, 6, 9, -1, 100} {
			out = append(out, []interface{}{key, d})
		}
		return out
	case n == 1 && m.typ.In(0) == tBuilder:
		var b strings.Builder
		return [][]interface{}{{&b}, {nil}}
	}
	return nil // an operation of a kind not known here is not judged
}

// targetOfGetter: GetInt8Value -> int8, GetArrayOfUInt -> "" ...
var targetOfGetter = map[string]string{}

func init() {
	for _, t := range append(append([]string{}, scalarTargets...), "Map", "Array") {
		targetOfGetter[getterName(t)] = t
		targetOfGetter[getterName(t)+"Value"] = t
	}
}

// judgeRead says whether the outcome of reading the subject by an operation of Value or (by key) of Map is
// right as far as absence, null and kind are concerned. mv is nil for subjects that are not JSON.
func judgeRead(c *Ctx, what string, m method, args []interface{}, o outcome, s subject) {
	name := m.name
	plain := strings.HasSuffix(name, "Value") && name != "GetValue"
	null := s.mv != nil && s.mv.K == 'n'
	if o.hasErr && o.err && !o.zero && o.val.IsValid() {
		c.Failf("%s: an error together with a result", what)
	}
	switch {
	case strings.HasPrefix(name, "IsValueEqualTo"):
		if null {
			want := args[0] == nil
			if o.val.Bool() != want {
				c.Failf("%s(%v) of null is %v", what, args[0] != nil, !want)
			}
		} else if s.mv != nil && s.mv.K != 's' && o.val.Bool() {
			c.Failf("%s is true", what)
		}
	case strings.HasPrefix(name, "Is"):
		if s.kind == "odd" {
			return
		}
		if s.mv == nil {
			if o.val.Bool() {
				c.Failf("%s of a %s is true", what, s.kind)
			}
			return
		}
		if want := predicate(name, s.mv); o.val.Bool() != want {
			c.Failf("%s is %v, want %v", what, !want, want)
		}
	case targetOfGetter[name] != "":
		t := targetOfGetter[name]
		if s.kind == "odd" {
			return
		}
		if s.mv == nil {
			if !o.err {
				c.Failf("%s of a %s: no error", what, s.kind)
			}
			return
		}
		checkRead(c, what, o, convert(s.mv, t), plain)
	case strings.HasPrefix(name, "GetArrayOf"):
		if s.kind == "odd" || s.mv != nil && s.mv.K == 'a' {
			return
		}
		if null {
			if plain && !o.err || !plain && (o.err || !o.null) {
				c.Failf("%s of null: %s", what, o)
			}
		} else if !o.err {
			c.Failf("%s: no error", what)
		}
	case strings.HasPrefix(name, "GetTime"):
		switch {
		case s.kind == "time":
			if o.err || o.null {
				c.Failf("%s: %s", what, o)
			}
		case null:
			if plain && !o.err || !plain && (o.err || !o.null) {
				c.Failf("%s of null: %s", what, o)
			}
		case s.kind == "odd":
		case s.mv != nil && s.mv.K == 's':
			if !o.err && o.null {
				c.Failf("%s: neither a time nor an error", what)
			}
			if !o.err && noTime(s.mv.S) {
				c.Failf("%s of %.60q, which is no time: no error", what, s.mv.S)
			}
		default:
			if !o.err {
				c.Failf("%s: no error: %s", what, o)
			}
		}
	case name == "GetRunes":
		if s.kind == "odd" {
			return
		}
		switch {
		case null:
			if o.err || !o.null {
				c.Failf("%s of null: %s", what, o)
			}
		case s.mv != nil && s.mv.K == 's':
			if o.err || o.null {
				c.Failf("%s: %s", what, o)
			}
		default:
			if !o.err {
				c.Failf("%s: no error", what)
			}
		}
	case name == "GetErrors" || name == "GetFunc":
		if s.kind == "odd" || s.mv != nil && s.mv.K == 'a' && name == "GetErrors" {
			return
		}
		switch {
		case null:
			if o.err || !o.null {
				c.Failf("%s of null: %s", what, o)
			}
		case s.kind == "errors" && name == "GetErrors", s.kind == "func" && name == "GetFunc":
			if o.err {
				c.Failf("%s: an error", what)
			}
		default:
			if !o.err || !o.null {
				c.Failf("%s: no error", what)
			}
		}
	case name == "GetType":
		if got := o.val.String(); null && got != "nil" && !strings.HasPrefix(got, "*") {
			c.Failf("%s of null is %q", what, got)
		}
	}
}

// noTime: a text which no reading of times could take for one.
func noTime(t string) bool {
	n := 0
	for i := range t {
		if t[i] >= '0' && t[i] <= '9' {
			n++
		}
	}
	return n < 4 && t != "now" && t != "zero"
}

// full is a complete observation of a value in a document: every read operation once.
func fullValue(v *json.Value, b *strings.Builder) {
	if v == nil {
		b.WriteString("none;")
		return
	}
	r := reflect.ValueOf(v).Elem()
	for _, m := range valueReads {
		for i, args := range argVariants(m, "") {
			if i > 1 && m.typ.In(0).Kind() == reflect.Int && i%3 != 0 {
				continue
			}
			b.WriteString(renderAll(callField(r, m, args...)))
			b.WriteByte(';')
		}
	}
}

func fullMap(m *json.Map, keys []string, b *strings.Builder) {
	r := reflect.ValueOf(m).Elem()
	for _, f := range mapReads {
		ks := keys
		if f.typ.NumIn() == 0 || f.typ.In(0) == tBuilder {
			ks = keys[:1]
		}
		for _, k := range ks {
			for _, args := range argVariants(f, k) {
				b.WriteString(renderAll(callField(r, f, args...)))
				if len(args) == 1 && f.typ.In(0) == tBuilder && args[0] != nil {
					b.WriteString(args[0].(*strings.Builder).String())
				}
				b.WriteByte(';')
			}
		}
	}
}

func fullArray(a *json.Array, b *strings.Builder) {
	r := reflect.ValueOf(a).Elem()
	for _, f := range arrayReads {
		for _, args := range argVariants(f, "") {
			b.WriteString(renderAll(callField(r, f, args...)))
			if len(args) == 1 && f.typ.In(0) == tBuilder && args[0] != nil {
				b.WriteString(args[0].(*strings.Builder).String())
			}
			b.WriteByte(';')
		}
	}
}

// small observation: text, keys, types
func glance(m *json.Map, a *json.Array) string {
	return render(reflect.ValueOf(*m)) + render(reflect.ValueOf(*a)) + render(reflect.ValueOf(m.GetKeys()))
}

func quietly(f func()) (msg string) {
	defer func() {
		if r := recover(); r != nil {
			if v, ok := r.(violation); ok {
				panic(v)
			}
			msg = fmt.Sprintf("panic: %v\n%s", r, stackTop())
		}
	}()
	f()
	return ""
}

func init() {
	reg("C15",
		Harness{Name: "every-read-of-every-kind", Bound: "every read operation of Value, Map and Array with every argument variant on every kind of stored object (JSON, texts, nil pointers, times, errors, functions, foreign Go objects)", Body: func(c *Ctx) {
			subs := append(append(jsonSubjects(), otherSubjects()...), oddSubjects()...)
			s := subs[c.Choose(len(subs))]
			owner := c.Choose(3)
			m, a := json.NewMap(), json.NewArray()
			m.SetIntValue("p", 1)
			m.SetObjectForMap("k", s.obj())
			m.SetStringValue("q", "2")
			a.AppendBoolValue(true)
			a.AppendValue(json.NewValue(s.obj()))
			a.AppendNil()
			c.State(s.name, itoa(owner))
			before := ""
			if s.kind != "odd" {
				before = glance(m, a)
			}
			var target interface{} = m.GetValue("k")
			reads := valueReads
			if owner == 1 {
				target, reads = m, mapReads
			} else if owner == 2 {
				target, reads = a, arrayReads
			}
			r := reflect.ValueOf(target).Elem()
			for _, f := range reads {
				for _, args := range argVariants(f, "k") {
					c.Op(1)
					what := fmt.Sprintf("%s.%s of %s", r.Type().Name(), f.name, s.name)
					var o outcome
					if msg := quietly(func() { o = asOutcome(callField(r, f, args...)) }); msg != "" {
						c.Failf("%s: %s", what, msg)
					}
					if owner < 2 && f.name != "Clone" && f.name != "ToJSONString" && f.name != "IsNil" || owner == 0 && f.name == "IsNil" {
						judgeRead(c, what, f, args, o, s)
					}
					if o.hasErr && o.err && !o.zero && f.name != "GetMapValue" && f.name != "GetArrayValue" && f.name != "ToJSONString" {
						c.Failf("%s: an error together with %s", what, o)
					}
				}
			}
			if s.kind != "odd" && glance(m, a) != before {
				c.Failf("reading %s changed the document from %s to %s", s.name, before, glance(m, a))
			}
		}},
		Harness{Name: "absent-keys", Bound: "every read operation of Map for absent keys (8 spellings) in an empty map, a full map, a map the key was removed from, and a parsed map", Body: func(c *Ctx) {
			m := json.NewMap()
			switch c.Choose(4) {
			case 1:
				for i, x := range smallCatalog() {
					m.SetValue("x"+itoa(i), json.NewValue(x.obj()))
				}
			case 2:
				for i, k := range []string{"k", "", "zz", "K", "nil", " "} {
					m.SetIntValue(k, i)
				}
				for _, k := range []string{"k", "", "zz", "K", "nil", " "} {
					m.RemoveKey(k)
				}
			case 3:
				m = mustParse(c, `{"kk":1,"l":null,"m":{"k":1},"é":[1]}`)
			}
			k := []string{"k", "", "zz", "K", "nil", " ", "kkk", "e"}[c.Choose(8)]
			var b strings.Builder
			m.ToJSONString(&b)
			keys := len(m.GetKeys())
			c.State(k, b.String())
			r := reflect.ValueOf(m).Elem()
			s := subject{"absent " + k, "json", mNull(), nil}
			for _, f := range mapReads {
				if f.typ.NumIn() == 0 || f.typ.In(0) == tBuilder {
					continue
				}
				for _, args := range argVariants(f, k) {
					c.Op(1)
					what := "Map." + f.name + " of an absent key"
					var o outcome
					if msg := quietly(func() { o = asOutcome(callField(r, f, args...)) }); msg != "" {
						c.Failf("%s: %s", what, msg)
					}
					judgeRead(c, what, f, args, o, s)
					switch f.name {
					case "HasKey":
						if o.val.Bool() {
							c.Failf("HasKey of an absent key is true")
						}
					case "GetValue", "GetObjectForMap":
						if !o.null {
							c.Failf("%s is %s", what, o)
						}
					}
				}
			}
			var after strings.Builder
			m.ToJSONString(&after)
			if after.String() != b.String() || len(m.GetKeys()) != keys {
				c.Failf("reading absent keys changed the map from %s to %s", b.String(), after.String())
			}
		}},
		Harness{Name: "nil-values", Bound: "nil *Value as member and element, alone and between others: every read operation", Body: func(c *Ctx) {
			m, a := json.NewMap(), json.NewArray()
			w, wa := mMap(), mArr()
			n := c.Choose(4)
			at := c.Choose(4)
			for i := 0; i <= n; i++ {
				if i == at {
					m.SetValue("k", nil)
					a.AppendValue(nil)
					w.set("k", mNull())
					wa.Vals = append(wa.Vals, mNull())
				}
				m.SetIntValue("x"+itoa(i), i)
				a.AppendIntValue(i)
				w.set("x"+itoa(i), mIntT("int", int64(i)))
				wa.Vals = append(wa.Vals, mIntT("int", int64(i)))
			}
			m.SetArray("a", a)
			w.set("a", wa)
			c.State(itoa(n), itoa(at))
			s := subject{"nil *Value", "json", mNull(), nil}
			r, ra := reflect.ValueOf(m).Elem(), reflect.ValueOf(a).Elem()
			for _, k := range []string{"k", "absent"} {
				for _, f := range mapReads {
					for _, args := range argVariants(f, k) {
						c.Op(1)
						var o outcome
						if msg := quietly(func() { o = asOutcome(callField(r, f, args...)) }); msg != "" {
							c.Failf("Map.%s of a nil value: %s", f.name, msg)
						}
						if f.typ.NumIn() > 0 && f.typ.In(0) != tBuilder {
							judgeRead(c, "Map."+f.name+" of a nil value", f, args, o, s)
						}
					}
				}
			}
			for _, f := range arrayReads {
				for _, args := range argVariants(f, "") {
					c.Op(1)
					if msg := quietly(func() { callField(ra, f, args...) }); msg != "" {
						c.Failf("Array.%s of a nil element: %s", f.name, msg)
					}
				}
			}
			expectDoc(c, "document", m, w, 0)
			expectText(c, "document", m, w)
			x, e := m.Clone()
			if e != nil {
				c.Failf("clone: %s", errOf(e))
			}
			expectDoc(c, "clone", x, w, 0)
		}},
		Harness{Name: "reads-by-kind-pairs", Bound: "every getter for a kind on a member of every kind, twice in a row and after a failing read of every other getter", Body: func(c *Ctx) {
			cat := smallCatalog()
			x := cat[c.Choose(len(cat))]
			gets := append(append([]string{}, scalarTargets...), "Map", "Array")
			t1, t2 := gets[c.Choose(len(gets))], gets[c.Choose(len(gets))]
			m := json.NewMap()
			m.SetValue("k", json.NewValue(x.obj()))
			v := m.GetValue("k")
			c.State(x.name, t1, t2)
			for _, t := range []string{t1, t2, t1} {
				a := convert(x.mv, t)
				g := getterName(t)
				checkRead(c, x.name+"."+g, read(c, v, g), a, false)
				checkRead(c, x.name+"."+g+"Value", read(c, v, g+"Value"), a, true)
				checkRead(c, x.name+"."+g, read(c, m, g, "k"), a, false)
				checkRead(c, x.name+"."+g+"Value", read(c, m, g+"Value", "k"), a, true)
			}
			expectDoc(c, "document", m, mMap().set("k", x.mv), 1)
		}},
		Harness{Name: "parsed-kinds", Bound: "every read operation on every member and element of parsed documents of every leaf kind", Body: func(c *Ctx) {
			n := 2
			if c.Thorough {
				n = 4
			}
			w := genTree(c, n, leavesFull)
			m := mustParse(c, w.text())
			c.State(w.String())
			r := reflect.ValueOf(m).Elem()
			for i, k := range w.Keys {
				s := subject{"parsed " + w.Vals[i].String(), "json", w.Vals[i], nil}
				for _, f := range mapReads {
					if f.typ.NumIn() == 0 || f.typ.In(0) == tBuilder {
						continue
					}
					for _, args := range argVariants(f, k) {
						c.Op(1)
						judgeRead(c, "Map."+f.name+" of "+s.name, f, args, asOutcome(callField(r, f, args...)), s)
					}
				}
				rv := reflect.ValueOf(m.GetValue(k)).Elem()
				for _, f := range valueReads {
					for _, args := range argVariants(f, k) {
						c.Op(1)
						o := asOutcome(callField(rv, f, args...))
						if f.name != "Clone" {
							judgeRead(c, "Value."+f.name+" of "+s.name, f, args, o, s)
						}
					}
				}
			}
			expectDoc(c, "document", m, w, 0)
		}},
	)

	reg("C15", Harness{Name: "texts-as-anything", Bound: "every text of up to 4 characters over digits, signs, separators and letters of times, and a time text with every character deleted, doubled or replaced by each of 8: every read operation", Body: func(c *Ctx) {
		var s string
		if c.Bool() {
			s = genString(c, []string{"0", "2", "-", ":", ".", " ", "T", "Z", "%"}, 4)
		} else {
			s = []string{"2023-01-02 03:04:05.678901", "2023-01-02T03:04:05Z", "2023-01-02", "03:04:05"}[c.Choose(4)]
			i := c.Choose(len(s))
			switch k := c.Choose(10); k {
			case 0:
				s = s[:i] + s[i+1:]
			case 1:
				s = s[:i] + s[i:i+1] + s[i:]
			default:
				s = s[:i] + []string{"0", "9", "-", ":", ".", " ", "x", "é"}[k-2] + s[i+1:]
			}
		}
		c.State(s)
		for _, ptr := range []bool{true, false} {
			x := strCell(s, ptr)
			m := json.NewMap()
			m.SetValue("k", json.NewValue(x.obj()))
			sub := subject{x.name, "json", x.mv, x.obj}
			for o, target := range []interface{}{m.GetValue("k"), m} {
				r := reflect.ValueOf(target).Elem()
				for _, f := range [][]method{valueReads, mapReads}[o] {
					for _, args := range argVariants(f, "k") {
						c.Op(1)
						what := r.Type().Name() + "." + f.name + " of " + sub.name
						var out outcome
						if msg := quietly(func() { out = asOutcome(callField(r, f, args...)) }); msg != "" {
							c.Failf("%s: %s", what, msg)
						}
						if f.name != "Clone" && f.name != "ToJSONString" && !(o == 1 && f.name == "IsNil") {
							judgeRead(c, what, f, args, out, sub)
						}
					}
				}
			}
			expectDoc(c, "after the reads", m, mMap().set("k", x.mv), 0)
		}
	}})

	reg("C16",
		Harness{Name: "mixed", Bound: "every array of up to 3 (thorough 4) elements of 18 kinds including null and nil: all 26 bulk getters through the array and through the map against the single getters", Body: func(c *Ctx) {
			n := 3
			if c.Thorough {
				n = 4
			}
			n = c.Choose(n + 1)
			el := bulkCells()
			var xs []cell
			for i := 0; i < n; i++ {
				xs = append(xs, el[c.Choose(len(el))])
			}
			bulkAll(c, xs, nil)
		}},
		Harness{Name: "kinds", Bound: "every kind and form alone, after a null, before a null and twice", Body: func(c *Ctx) {
			cat := catalog()
			x := cat[c.Choose(len(cat))]
			switch c.Choose(4) {
			case 0:
				bulkAll(c, []cell{x}, nil)
			case 1:
				bulkAll(c, []cell{nilCell(), x}, nil)
			case 2:
				bulkAll(c, []cell{x, nilCell()}, nil)
			case 3:
				bulkAll(c, []cell{x, x}, nil)
			}
		}},
		Harness{Name: "sizes", Bound: "arrays of n elements of each type, n of the size sweep up to 1026 (thorough 10001), all good, or one null or one unreadable element at the first, second, middle, last but one and last place", Body: func(c *Ctx) {
			max := 1026
			if c.Thorough {
				max = 10001
			}
			sizes := sweep(max)
			n := sizes[c.Choose(len(sizes))]
			t := scalarTargets[c.Choose(len(scalarTargets))]
			good := func(i int) cell {
				switch t {
				case "string":
					return strCell("s"+itoa(i), i%2 == 0)
				case "bool":
					return boolCell(i%3 == 0, i%2 == 0)
				case "float32", "float64":
					return floatCell(t, float64(i)+0.5, i%2 == 0)
				}
				return intCell(t, mUintT(t, uint64(i%100)), i%2 == 0)
			}
			var bad *cell
			at := -1
			if what := c.Choose(3); what > 0 {
				if n == 0 {
					return
				}
				places := []int{0, 1, n / 2, n - 2, n - 1}
				if n > 130 && !c.Thorough {
					places = []int{n / 2, n - 1}
				}
				at = places[c.Choose(len(places))]
				if at < 0 || at >= n {
					return
				}
				x := nilCell()
				if what == 2 {
					x = mapCell(mMap(), true)
				}
				bad = &x
			}
			var xs []cell
			for i := 0; i < n; i++ {
				if i == at {
					xs = append(xs, *bad)
				} else {
					xs = append(xs, good(i))
				}
			}
			c.State(t, itoa(n), itoa(at))
			bulkAll(c, xs, []string{t})
		}},
		Harness{Name: "parsed", Bound: "every parsed array of up to 3 elements of 10 leaf kinds", Body: func(c *Ctx) {
			n := c.Choose(4)
			w := mArr()
			for i := 0; i < n; i++ {
				w.Vals = append(w.Vals, leavesFull[c.Choose(len(leavesFull))].mk())
			}
			m := mustParse(c, mMap().set("k", w).text())
			a, e := m.GetArray("k")
			if e != nil || a == nil {
				c.Failf("no array: %s", errOf(e))
			}
			c.State(w.String())
			bulk(c, a, m, w.Vals, nil)
		}},
		Harness{Name: "after-edits", Bound: "every history of 4 of: append a number, text, null; replace; remove; the bulk getters after each", Body: func(c *Ctx) {
			a := json.NewArray()
			m := json.NewMap()
			m.SetArray("k", a)
			w := mArr()
			for i := 0; i < 4; i++ {
				switch c.Choose(5) {
				case 0:
					a.AppendUInt8Value(uint8(i))
					w.Vals = append(w.Vals, mUintT("uint8", uint64(i)))
				case 1:
					a.AppendStringValue("1")
					w.Vals = append(w.Vals, mStr("1"))
				case 2:
					a.AppendNil()
					w.Vals = append(w.Vals, mNull())
				case 3:
					ok, _ := a.SetValueAtIndex(0, json.NewValue(int16(-5)))
					if ok {
						w.Vals[0] = mIntT("int16", -5)
					}
				case 4:
					ok, _ := a.RemoveValueAtIndex(len(w.Vals) / 2)
					if ok {
						w.delAt(len(w.Vals) / 2)
					}
				}
				bulk(c, a, m, w.Vals, nil)
			}
			c.State(w.String())
		}},
	)
}

func bulkCells() []cell {
	i := func(t string, v int64) cell { return intCell(t, mIntT(t, v), false) }
	nilValue := nilCell()
	nilValue.name = "nil *Value"
	return []cell{nilCell(), nilValue, i("uint8", 7), i("int8", -7), intCell("uint64", mUintT("uint64", 1<<64-1), true), i("int32", 300), i("int", 70000),
		floatCell("float32", 1.5, false), floatCell("float64", 1e300, true), strCell("s", true), strCell("12", false), strCell("true", true), strCell("", true), boolCell(true, false), boolCell(false, true),
		mapCell(mMap(), true), arrCell(mArr(mLit(false, 1)), true), strCell("NULL", true)}
}

func bulkAll(c *Ctx, xs []cell, targets []string) {
	a := json.NewArray()
	h := json.NewMap()
	var w []*MV
	name := ""
	for _, x := range xs {
		if x.name == "nil *Value" {
			a.AppendValue(nil)
		} else {
			a.AppendValue(json.NewValue(x.obj()))
		}
		w = append(w, x.mv)
		if len(name) < 200 {
			name += x.name + ","
		}
	}
	h.SetStringValue("before", "x")
	h.SetArray("k", a)
	c.State(name)
	c.Logf("%s", name)
	bulk(c, a, h, w, targets)
}

// bulk compares every bulk getter with the single getters and with the model.
func bulk(c *Ctx, a *json.Array, h *json.Map, w []*MV, targets []string) {
	if targets == nil {
		targets = scalarTargets
	}
	vals := *a.GetValues()
	if len(vals) != len(w) {
		c.Failf("%d elements, want %d", len(vals), len(w))
	}
	for _, t := range targets {
		for _, plain := range []bool{false, true} {
			g := getterName(t)
			n := "GetArrayOf" + methodName(t)
			if plain {
				g += "Value"
				n += "Value"
			}
			fail := false
			single := make([]outcome, len(w))
			for i, v := range vals {
				an := convert(w[i], t)
				if v == nil {
					single[i] = outcome{null: true, err: plain, zero: true}
				} else {
					single[i] = read(c, v, g)
				}
				checkRead(c, fmt.Sprintf("[%d].%s", i, g), single[i], an, plain)
				fail = fail || single[i].err
			}
			for k := 0; k < 2; k++ {
				var o outcome
				if k == 0 {
					if !has(tArray, n) {
						continue
					}
					o = read(c, a, n)
				} else {
					if !has(tMap, n) {
						continue
					}
					o = read(c, h, n, "k")
				}
				who := []string{"Array.", "Map."}[k] + n
				if fail {
					if !o.err || !o.null {
						c.Failf("%s: %s although an element cannot be read", who, o)
					}
					continue
				}
				if o.err {
					c.Failf("%s: an error although every element can be read", who)
				}
				got := 0
				if !o.null {
					got = o.val.Len()
				}
				if got != len(w) {
					c.Failf("%s has %d entries for %d elements", who, got, len(w))
				}
				for i := range single {
					e := asOutcome([]reflect.Value{o.val.Index(i)})
					if e.null != single[i].null || !e.null && render(e.val) != render(single[i].val) {
						c.Failf("%s[%d] = %s, the single getter gives %s", who, i, e, single[i])
					}
				}
			}
		}
	}
}
