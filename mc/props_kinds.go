package main

import (
	"errors"
	"fmt"
	"os/exec"
	"reflect"
	"strings"
	"time"

	json "github.com/matehaxor03/holistic_json/json"
)

const timeLayout = "2006-01-02 15:04:05.000000"

// ---- where a time, error, list of errors or function is put ----

const nStashes = 13

// stash puts an object of kind time, error, errors or func somewhere; false when there is no such way.
func stash(c *Ctx, how int, kind string, o interface{}) (stored, bool) {
	c.Op(1)
	c.Logf("stash %d of %s", how, kind)
	p := reflect.ValueOf(o)
	ptr := p.Kind() == reflect.Ptr && kind != "error"
	if kind == "error" {
		_, ptr = o.(*error)
	}
	switch how {
	case 0:
		return stored{v: json.NewValue(o)}, true
	case 1:
		v := json.NewValueValue(o)
		return stored{v: &v}, true
	case 2:
		v := json.NewValue("old")
		v.SetObject(o)
		return stored{v: v}, true
	case 3:
		v := json.NewValue(1)
		switch {
		case kind == "time" && ptr:
			v.SetTime(o.(*time.Time))
		case kind == "time":
			v.SetTimeValue(o.(time.Time))
		case kind == "errors" && ptr:
			v.SetErrors(o.(*[]error))
		case kind == "errors":
			v.SetErrorsValue(o.([]error))
		case kind == "error" && ptr:
			v.SetError(o.(*error))
		case kind == "error":
			v.SetErrorValue(o.(error))
		default:
			return stored{}, false
		}
		return stored{v: v}, true
	case 4:
		m := json.NewMap()
		m.SetStringValue("p", "before")
		switch {
		case kind == "time" && ptr:
			m.SetTime("k", o.(*time.Time))
		case kind == "errors" && !ptr:
			m.SetErrors("k", o.([]error))
		case kind == "func" && ptr:
			m.SetFunc("k", o.(*func(string) []error))
		default:
			return stored{}, false
		}
		m.SetStringValue("q", "after")
		return stored{v: m.GetValue("k"), m: m}, true
	case 5:
		m := json.NewMap()
		m.SetObjectForMap("k", o)
		return stored{v: m.GetValue("k"), m: m}, true
	case 6:
		m := json.NewMap()
		m.SetStringValue("k", "replaced")
		m.SetValue("k", json.NewValue(o))
		return stored{v: m.GetValue("k"), m: m}, true
	case 7:
		a := json.NewArray()
		a.AppendNil()
		a.AppendValue(json.NewValue(o))
		return stored{v: (*a.GetValues())[1], a: a}, true
	case 8:
		a := json.NewArray()
		a.AppendValueValue(json.NewValueValue(o))
		return stored{v: (*a.GetValues())[0], a: a}, true
	case 9:
		l := []interface{}{o}
		a := json.NewArrayOfValues(&l)
		return stored{v: (*a.GetValues())[0], a: a}, true
	case 10:
		g := map[string]interface{}{"k": o}
		m := json.NewMapOfValues(&g)
		return stored{v: m.GetValue("k"), m: m}, true
	case 11:
		a := json.NewArray()
		a.AppendStringValue("replaced")
		a.SetValueAtIndex(0, json.NewValue(o))
		return stored{v: (*a.GetValues())[0], a: a}, true
	case 12:
		m := json.NewMap()
		m.SetStringValue("k", "replaced")
		m.GetValue("k").SetObject(o)
		return stored{v: m.GetValue("k"), m: m}, true
	}
	panic("stash")
}

// present: the thing is there and is none of the JSON kinds.
func present(c *Ctx, what string, s stored) {
	if s.v == nil {
		c.Failf("%s: nothing was stored", what)
	}
	c.Op(8)
	if s.v.IsNil() {
		c.Failf("%s: IsNil is true", what)
	}
	if s.v.IsMap() || s.v.IsArray() || s.v.IsBool() || s.v.IsNumber() || s.v.IsString() {
		c.Failf("%s is reported as a map, array, bool, number or string", what)
	}
	if s.m != nil {
		if s.m.IsNull("k") || !s.m.HasKey("k") {
			c.Failf("%s: the map reports it as absent", what)
		}
		if s.m.IsMap("k") || s.m.IsArray("k") || s.m.IsBool("k") || s.m.IsString("k") || s.m.IsInteger("k") || s.m.IsFloat("k") {
			c.Failf("%s: the map reports it as a map, array, bool, number or string", what)
		}
		if o := s.m.GetObjectForMap("k"); o == nil {
			c.Failf("%s: the map has no object for it", what)
		}
	}
}

func sameTime(a, b time.Time) bool {
	an, ao := a.Zone()
	bn, bo := b.Zone()
	return a.Equal(b) && an == bn && ao == bo && a.Nanosecond() == b.Nanosecond() && a.Format(time.RFC3339Nano) == b.Format(time.RFC3339Nano)
}

// isTime: every getter of a time gives t.
func isTime(c *Ctx, what string, s stored, t time.Time) {
	present(c, what, s)
	ok := func(name string, g *time.Time, e []error) {
		if e != nil || g == nil {
			c.Failf("%s: %s gives nothing: %s", what, name, errOf(e))
		}
		if !sameTime(*g, t) {
			c.Failf("%s: %s gives %v, want %v", what, name, *g, t)
		}
	}
	c.Op(5)
	g, e := s.v.GetTime()
	ok("GetTime", g, e)
	gv, e := s.v.GetTimeValue()
	ok("GetTimeValue", &gv, e)
	for _, d := range []int{0, 6, 9} {
		g, e = s.v.GetTimeWithDecimalPlaces(d)
		ok("GetTimeWithDecimalPlaces", g, e)
	}
	if s.m != nil {
		g, e = s.m.GetTime("k")
		ok("map.GetTime", g, e)
		g, e = s.m.GetTimeWithDecimalPlaces("k", 6)
		ok("map.GetTimeWithDecimalPlaces", g, e)
	}
}

// textOf writes the value as JSON and checks that the text is one JSON value.
func textOf(c *Ctx, what string, v *json.Value) *MV {
	var b strings.Builder
	c.Op(1)
	if e := json.ConvertInterfaceValueToJSONStringValue(&b, v); e != nil {
		c.Failf("%s cannot be written: %s", what, errOf(e))
	}
	got, err := decodeStd(b.String())
	if err != nil {
		c.Failf("%s is written as %s: %v", what, clipText(b.String()), err)
	}
	return got
}

// texts gives the model of the text of s by every writing operation; they must agree.
func texts(c *Ctx, what string, s stored) *MV {
	t := textOf(c, what, s.v)
	if s.m != nil {
		d, err := decodeStd(mustWrite(c, s.m))
		if err != nil {
			c.Failf("map with %s: %v", what, err)
		}
		if i := d.idx("k"); i < 0 || d.Vals[i].String() != t.String() {
			c.Failf("the map writes %s as %s, alone it is %s", what, d, t)
		}
	}
	if s.a != nil {
		var b strings.Builder
		if e := s.a.ToJSONString(&b); e != nil {
			c.Failf("array with %s cannot be written: %s", what, errOf(e))
		}
		d, err := decodeStd(b.String())
		if err != nil {
			c.Failf("array with %s: %v", what, err)
		}
		if n := len(d.Vals); n == 0 || d.Vals[n-1].String() != t.String() {
			c.Failf("the array writes %s as %s, alone it is %s", what, d, t)
		}
	}
	return t
}

// timeText: the time is written to the microsecond and the text read as a time is that instant in UTC.
func timeText(c *Ctx, what string, s stored, t time.Time) {
	x := texts(c, what, s)
	if want := t.Format(timeLayout); x.K != 's' || x.S != want {
		c.Failf("%s is written as %s, want %q", what, x, want)
	}
	p, e := json.ConvertInterfaceValueToStringValue(s.v)
	if e != nil || p != x.S {
		c.Failf("plain text of %s is %q %s, want %q", what, p, errOf(e), x.S)
	}
	if t.Location() == time.UTC {
		readBack(c, what, x.S, t)
	}
}

// readBack: the text of a time, met in every place, read as a time.
func readBack(c *Ctx, what, text string, t time.Time) {
	want := t.Truncate(time.Microsecond)
	c.Op(4)
	m := mustParse(c, `{"k":"`+text+`","l":["`+text+`"]}`)
	l, e := m.GetArray("l")
	if e != nil || l == nil {
		c.Failf("%s: no list", what)
	}
	plain := text
	for i, v := range []*json.Value{m.GetValue("k"), (*l.GetValues())[0], json.NewValue(&plain), json.NewValue(plain)} {
		g, e := v.GetTime()
		if e != nil || g == nil || !g.Equal(want) || g.Location() != time.UTC {
			c.Failf("%s: %q read as a time (place %d) is %v %s, want %v", what, text, i, g, errOf(e), want)
		}
		gv, e := v.GetTimeValue()
		if e != nil || !gv.Equal(want) || gv.Location() != time.UTC {
			c.Failf("%s: %q read as a time value (place %d) is %v %s, want %v", what, text, i, gv, errOf(e), want)
		}
		g, e = v.GetTimeWithDecimalPlaces(6)
		if e != nil || g == nil || !g.Equal(want) {
			c.Failf("%s: %q read with 6 decimal places (place %d) is %v %s, want %v", what, text, i, g, errOf(e), want)
		}
	}
	g, e := m.GetTime("k")
	if e != nil || g == nil || !g.Equal(want) {
		c.Failf("%s: %q read as a time from the map is %v %s, want %v", what, text, g, errOf(e), want)
	}
}

// clones of a stored thing by every cloning operation
func clones(c *Ctx, s stored) []stored {
	out := []stored{{v: cloneVal(c, s.v)}}
	if s.m != nil {
		m := cloneMap(c, s.m)
		out = append(out, stored{v: m.GetValue("k"), m: m})
		n := cloneMap(c, m)
		out = append(out, stored{v: n.GetValue("k"), m: n})
	}
	if s.a != nil {
		a := cloneArr(c, s.a)
		out = append(out, stored{v: (*a.GetValues())[a.Len()-1], a: a})
	}
	return out
}

func messages(es []error) []string {
	out := []string{}
	for _, e := range es {
		if e == nil {
			out = append(out, "<none>")
		} else {
			out = append(out, e.Error())
		}
	}
	return out
}

// listText: a list of errors is written as the list of its messages.
func listText(c *Ctx, what string, s stored, es []error) {
	w := mArr()
	for _, e := range es {
		if e == nil {
			w.Vals = append(w.Vals, mNull())
		} else {
			w.Vals = append(w.Vals, mStr(e.Error()))
		}
	}
	x := texts(c, what, s)
	if d := sameText("", x, w); d != "" {
		c.Failf("%s is written as %s: %s", what, x, d)
	}
}

func isErrors(c *Ctx, what string, s stored, es []error, same bool) {
	present(c, what, s)
	check := func(name string, g []error, e []error) {
		if e != nil || len(g) != len(es) {
			c.Failf("%s: %s gives %d errors, want %d: %s", what, name, len(g), len(es), errOf(e))
		}
		for i := range g {
			if (g[i] == nil) != (es[i] == nil) || g[i] != nil && g[i].Error() != es[i].Error() {
				c.Failf("%s: %s gives %q, want %q", what, name, messages(g), messages(es))
			}
			if same && g[i] != es[i] {
				c.Failf("%s: %s gives another error than the stored one at %d", what, name, i)
			}
		}
	}
	c.Op(1)
	g, e := s.v.GetErrors()
	check("GetErrors", g, e)
	if s.m != nil {
		g, e = s.m.GetErrors("k")
		check("map.GetErrors", g, e)
	}
}

// wholeErrors checks one list of errors in one place and form.
func wholeErrors(c *Ctx, how int, ptr bool, es []error) {
	for _, e := range es {
		if e != nil && nilMessage(e.Error()) {
			return // known finding
		}
	}
	if len(es) == 0 && es == nil {
		return
	}
	var o interface{} = es
	if ptr {
		l := append([]error{}, es...)
		o = &l
	}
	s, ok := stash(c, how, "errors", o)
	if !ok {
		return
	}
	what := fmt.Sprintf("error list %q (pointer %v, way %d)", messages(es), ptr, how)
	c.State(what)
	isErrors(c, what, s, es, true)
	listText(c, what, s, es)
	isErrors(c, what+" after writing", s, es, true)
	for i, x := range clones(c, s) {
		isErrors(c, fmt.Sprintf("clone %d of %s", i, what), x, es, false)
		listText(c, fmt.Sprintf("clone %d of %s", i, what), x, es)
		s2 := s
		if i == 0 {
			s2.v.SetNil()
			isErrors(c, "clone after the original was set to nil of "+what, x, es, false)
			s2.v.SetObject(o)
		}
	}
}

func wholeError(c *Ctx, how int, x errCell) {
	o := x.obj()
	s, ok := stash(c, how, "error", o)
	if !ok {
		return
	}
	what := fmt.Sprintf("%s in way %d", x.name, how)
	c.State(what)
	check := func(what string, s stored) {
		present(c, what, s)
		t := texts(c, what, s)
		if t.K != 's' || t.S != x.msgs[0] {
			c.Failf("%s is written as %s, want %q", what, t, x.msgs[0])
		}
		p, e := json.ConvertInterfaceValueToStringValue(s.v)
		if e != nil || p != x.msgs[0] {
			c.Failf("plain text of %s is %q %s, want %q", what, p, errOf(e), x.msgs[0])
		}
	}
	check(what, s)
	held := s.v.GetObject()
	if reflect.TypeOf(held) != reflect.TypeOf(o) || reflect.TypeOf(o).Comparable() && held != o {
		c.Failf("%s: GetObject gives %T", what, held)
	}
	cl := clones(c, s)
	s.v.SetNil()
	for i, y := range cl {
		check(fmt.Sprintf("clone %d of %s", i, what), y)
	}
}

func oneTime(c *Ctx, t time.Time, how int, ptr bool) {
	var o interface{} = t
	if ptr {
		u := t
		o = &u
	}
	s, ok := stash(c, how, "time", o)
	if !ok {
		return
	}
	what := fmt.Sprintf("time %s (pointer %v, way %d)", t.Format(time.RFC3339Nano), ptr, how)
	c.State(what)
	isTime(c, what, s, t)
	timeText(c, what, s, t)
	isTime(c, what+" after writing", s, t)
	cl := clones(c, s)
	isTime(c, what+" after cloning", s, t)
	s.v.SetNil()
	for i, y := range cl {
		isTime(c, fmt.Sprintf("clone %d of %s", i, what), y, t)
		timeText(c, fmt.Sprintf("clone %d of %s", i, what), y, t)
	}
}

var zones = []*time.Location{time.FixedZone("", 0), time.FixedZone("A", 3600), time.FixedZone("B", -5*3600-1800), time.FixedZone("nil", 14*3600), time.FixedZone("C", -12*3600), time.FixedZone("odd", 1234)}

func daysIn(y int, m time.Month) int { return time.Date(y, m+1, 0, 0, 0, 0, 0, time.UTC).Day() }

// keepFunc checks a stored function by calling it.
func keepFunc(c *Ctx, what string, s stored, f func(string) []error) {
	present(c, what, s)
	check := func(name string, g *func(string) []error, e []error) {
		if e != nil || g == nil || *g == nil {
			c.Failf("%s: %s gives nothing: %s", what, name, errOf(e))
		}
		for _, in := range []string{"", "x", "yy"} {
			a, b := (*g)(in), f(in)
			if fmt.Sprint(messages(a)) != fmt.Sprint(messages(b)) {
				c.Failf("%s: the function %s gives answers %q to %q, want %q", what, name, messages(a), in, messages(b))
			}
		}
	}
	c.Op(1)
	g, e := s.v.GetFunc()
	check("GetFunc", g, e)
	if s.m != nil {
		g, e = s.m.GetFunc("k")
		check("map.GetFunc", g, e)
	}
}

func init() {
	reg("C21",
		Harness{Name: "times", Bound: "9 chosen instants and 26 with other zones and nanoseconds, plain and by pointer, in 13 places: present, same by every getter, text to the microsecond, read back, cloned", Body: func(c *Ctx) {
			var pts []time.Time
			pts = append(pts, timePoints...)
			for _, z := range zones {
				pts = append(pts, time.Date(2021, 6, 7, 8, 9, 10, 11, z), time.Date(2021, 6, 7, 23, 59, 59, 999999999, z), time.Date(1, 1, 1, 0, 0, 0, 1, z))
			}
			for _, n := range []int{1, 10, 100, 499, 500, 999, 1000, 999999999} {
				pts = append(pts, time.Date(2021, 6, 7, 8, 9, 10, n, time.UTC))
			}
			oneTime(c, pts[c.Choose(len(pts))], c.Choose(nStashes), c.Bool())
		}},
		Harness{Name: "dates", Bound: "every day of 24 years from 1 to 9999, and every hour, minute and second of it for some: text and back", Body: func(c *Ctx) {
			years := []int{1, 2, 4, 99, 100, 400, 999, 1000, 1582, 1600, 1752, 1900, 1969, 1970, 1972, 1999, 2000, 2001, 2023, 2024, 2038, 2100, 9998, 9999}
			y := years[c.Choose(len(years))]
			m := time.Month(1 + c.Choose(12))
			for d := 1; d <= daysIn(y, m); d++ {
				t := time.Date(y, m, d, (d*7)%24, (d*11)%60, (d*13)%60, d*32123000, time.UTC)
				c.State(t.String())
				s, _ := stash(c, []int{0, 4, 6, 8}[d%4], "time", &t)
				timeText(c, t.String(), s, t)
				isTime(c, t.String(), s, t)
			}
		}},
		Harness{Name: "clock", Bound: "every hour and minute of a day, and every second and every power-of-ten and shifted microsecond", Body: func(c *Ctx) {
			h, mi := c.Choose(24), c.Choose(60)
			sec := (h*60 + mi) % 60
			for _, us := range []int{0, 1, 9, 10, 99, 100, 999, 1000, 9999, 10000, 99999, 100000, 123456, 500000, 900000, 999999, (h*60 + mi) * 694} {
				t := time.Date(2024, 2, 29, h, mi, sec, us*1000, time.UTC)
				c.State(t.String())
				s, _ := stash(c, 0, "time", t)
				timeText(c, t.String(), s, t)
			}
		}},
		Harness{Name: "microseconds", Bound: "every microsecond fraction of a second in steps of 101 (thorough: every one)", Body: func(c *Ctx) {
			block := c.Choose(1000)
			step := 101
			if c.Thorough {
				step = 1
			}
			for us := block * 1000; us < block*1000+1000; us++ {
				if us%step != 0 {
					continue
				}
				t := time.Date(2024, 2, 29, 12, 34, 56, us*1000, time.UTC)
				c.State(t.String())
				text := t.Format(timeLayout)
				s, _ := stash(c, us%3, "time", t)
				if x := textOf(c, t.String(), s.v); x.S != text {
					c.Failf("%v is written as %s", t, x)
				}
				g, e := json.NewValue(&text).GetTime()
				if e != nil || g == nil || !g.Equal(t) {
					c.Failf("%q is read as %v %s", text, g, errOf(e))
				}
			}
		}},
		Harness{Name: "errors", Bound: "every kind of error object with 7 messages, in 13 places: present, kept, written as its message, cloned with it", Body: func(c *Ctx) {
			cells := errorCells()
			if err := exec.Command("/bin/false").Run(); err != nil && err.Error() == "exit status 1" && c.Choose(2) == 1 {
				cells = []errCell{{"exec.ExitError", []string{"exit status 1"}, false, func() interface{} { return err }}}
			}
			x := cells[c.Choose(len(cells))]
			wholeError(c, c.Choose(nStashes), x)
		}},
		Harness{Name: "error-messages", Bound: "errors whose message is any string of up to 3 of 14 nasty characters and format letters, or a lookalike, alone and in lists", Body: func(c *Ctx) {
			var s string
			if c.Bool() {
				s = genString(c, append(append([]string{}, nastySmall...), "%", "s"), 3)
			} else {
				s = lookalikes[c.Choose(len(lookalikes))]
			}
			if nilMessage(s) {
				return // known finding
			}
			e := errors.New(s)
			kind := c.Choose(4)
			c.State(s, itoa(kind))
			switch kind {
			case 0:
				wholeError(c, 0, errCell{"error " + s, []string{s}, false, func() interface{} { return e }})
			case 1:
				wholeError(c, 5, errCell{"*error " + s, []string{s}, false, func() interface{} { return &e }})
			case 2:
				wholeErrors(c, 4, false, []error{errors.New("first"), e})
			case 3:
				wholeErrors(c, 3, true, []error{e, wrapped{s + "!"}})
			}
		}},
		Harness{Name: "error-lists", Bound: "every list of up to 3 of 8 errors (plain, wrapped, custom, repeated, nil), plain and by pointer, in 13 places", Body: func(c *Ctx) {
			base := errors.New("base")
			pool := []error{base, errors.New(""), errors.New("a \"q\" \\ b\n"), fmt.Errorf("w: %w", base), wrapped{"custom"}, &wrapped{"ptr"}, errors.New("100% %s %d"), nil}
			n := c.Choose(4)
			es := []error{}
			for i := 0; i < n; i++ {
				es = append(es, pool[c.Choose(len(pool))])
			}
			how := c.Choose(nStashes)
			if n == 3 && how > 4 && !c.Thorough {
				return
			}
			wholeErrors(c, how, c.Bool(), es)
		}},
		Harness{Name: "error-list-sizes", Bound: "lists of n errors, n of the size sweep up to 520", Body: func(c *Ctx) {
			sizes := sweep(520)
			n := sizes[c.Choose(len(sizes))]
			es := []error{}
			for i := 0; i < n; i++ {
				es = append(es, errors.New("error number "+itoa(i)))
			}
			wholeErrors(c, c.Choose(5), c.Bool(), es)
		}},
		Harness{Name: "text-as-errors", Bound: "arrays of up to 3 strings of 17, built by pointer or plain or parsed, and Go lists of them, plain or by pointer, read as a list of errors with those messages", Body: func(c *Ctx) {
			pool := []string{"boom", "", "a \"q\" \\ b\n", "100%", "%s %d", "nil", "<nil>", "true", "null", "{}", "é😀", " x ", "12", "%!s(string=<nil>)", "100%d", "%%", "%v%"}
			n := c.Choose(4)
			w := mArr()
			for i := 0; i < n; i++ {
				w.Vals = append(w.Vals, mStr(pool[c.Choose(len(pool))]))
			}
			form := c.Choose(6)
			var m *json.Map
			switch form {
			case 0, 1, 2:
				m = cloneSource(c, []int{0, 2, 3}[form], mMap().set("l", w))
				for _, x := range w.Vals {
					if form == 2 && nilLike(x.S) {
						return // known finding
					}
				}
			default:
				l := []string{}
				for _, x := range w.Vals {
					l = append(l, x.S)
				}
				m = json.NewMap()
				switch form {
				case 3:
					m.SetObjectForMap("l", l)
				case 4:
					m.SetValue("l", json.NewValue(&l))
				case 5:
					v := json.NewValue(nil)
					v.SetObject(l)
					m.SetValue("l", v)
				}
			}
			c.State(w.String(), itoa(form))
			g, e := m.GetErrors("l")
			v, e2 := m.GetValue("l").GetErrors()
			if e != nil || e2 != nil || len(g) != n || len(v) != n {
				c.Failf("%s read as errors: %q %q %s %s", w, messages(g), messages(v), errOf(e), errOf(e2))
			}
			for i := range g {
				if g[i] == nil || v[i] == nil || g[i].Error() != w.Vals[i].S || v[i].Error() != w.Vals[i].S {
					c.Failf("%s read as errors: %q", w, messages(g))
				}
			}
			if form < 3 {
				expectDoc(c, "map", m, mMap().set("l", w), 0)
			}
		}},
		Harness{Name: "functions", Bound: "functions plain and by pointer in 13 places: present, same by every getter, also after writing, sibling edits and replacement", Body: func(c *Ctx) {
			id := c.Choose(3)
			f := func(s string) []error {
				switch id {
				case 0:
					return nil
				case 1:
					return []error{errors.New(s)}
				}
				return []error{errors.New(s + s), errors.New("two")}
			}
			var o interface{} = f
			ptr := c.Bool()
			if ptr {
				o = &f
			}
			how := c.Choose(nStashes)
			s, ok := stash(c, how, "func", o)
			if !ok {
				return
			}
			what := fmt.Sprintf("function (pointer %v, way %d)", ptr, how)
			c.State(what, itoa(id))
			keepFunc(c, what, s, f)
			texts(c, what, s)
			keepFunc(c, what+" after writing", s, f)
			if s.m != nil {
				s.m.SetStringValue("other", "x")
				s.m.RemoveKey("p")
				keepFunc(c, what+" after edits beside it", s, f)
				s.m.SetStringValue("k", "replaced")
				if g, _ := s.m.GetFunc("k"); g != nil {
					c.Failf("%s: a function is still there after it was replaced", what)
				}
			}
		}},
		Harness{Name: "documents", Bound: "maps and arrays holding up to 3 of a time, an error, an error list, a function, a string and a null in any order: each is as it was, in the text and the clone too", Body: func(c *Ctx) {
			t := timePoints[0]
			f := func(s string) []error { return []error{errors.New(s)} }
			n := 1 + c.Choose(3)
			m := json.NewMap()
			a := json.NewArray()
			var kinds []int
			withFunc := false
			for i := 0; i < n; i++ {
				k := c.Choose(6)
				kinds = append(kinds, k)
				withFunc = withFunc || k == 3
				o := []interface{}{&t, errors.New("boom"), []error{errors.New("p"), errors.New("q")}, &f, "text", nil}[k]
				m.SetObjectForMap("k"+itoa(i), o)
				a.AppendValue(json.NewValue(o))
			}
			m.SetArray("list", a)
			c.State(fmt.Sprint(kinds))
			check := func(what string, m *json.Map) {
				l, e := m.GetArray("list")
				if e != nil || l == nil || l.Len() != n {
					c.Failf("%s: list of %d: %s", what, n, errOf(e))
				}
				d, err := decodeStd(mustWrite(c, m))
				if err != nil || len(d.Keys) != n+1 {
					c.Failf("%s: text %s %v", what, d, err)
				}
				for i, k := range kinds {
					for j, v := range []*json.Value{m.GetValue("k" + itoa(i)), (*l.GetValues())[i]} {
						w := fmt.Sprintf("%s: kind %d at %d/%d", what, k, i, j)
						x := d.Vals[i]
						if j == 1 {
							x = d.Vals[n].Vals[i]
						}
						s := stored{v: v}
						switch k {
						case 0:
							isTime(c, w, s, t)
							if x.S != t.Format(timeLayout) {
								c.Failf("%s is written as %s", w, x)
							}
						case 1:
							present(c, w, s)
							if x.S != "boom" {
								c.Failf("%s is written as %s", w, x)
							}
						case 2:
							isErrors(c, w, s, []error{errors.New("p"), errors.New("q")}, false)
							if sameText("", x, mArr(mStr("p"), mStr("q"))) != "" {
								c.Failf("%s is written as %s", w, x)
							}
						case 3:
							keepFunc(c, w, s, f)
						case 4:
							if g, e := v.GetStringValue(); e != nil || g != "text" || x.S != "text" {
								c.Failf("%s is %q", w, g)
							}
						case 5:
							if !v.IsNil() || x.K != 'n' {
								c.Failf("%s is not null", w)
							}
						}
					}
				}
			}
			check("document", m)
			if !withFunc {
				x := cloneMap(c, m)
				check("clone", x)
				check("document after cloning", m)
				check("clone of the clone", cloneMap(c, x))
			}
		}},
		Harness{Name: "histories", Bound: "every history of 4 operations on two keys: set a time, an error list, a function, a string, or remove; every key read by every getter after each step", Body: func(c *Ctx) {
			t := timePoints[0]
			es := []error{errors.New("p"), errors.New("q")}
			f := func(s string) []error { return []error{errors.New(s)} }
			m := json.NewMap()
			now := map[string]int{}
			for i := 0; i < 4; i++ {
				k := []string{"a", "b"}[c.Choose(2)]
				op := c.Choose(5)
				c.Op(1)
				switch op {
				case 0:
					m.SetTime(k, &t)
				case 1:
					m.SetErrors(k, es)
				case 2:
					m.SetFunc(k, &f)
				case 3:
					m.SetStringValue(k, "s")
				case 4:
					m.RemoveKey(k)
					delete(now, k)
				}
				if op < 4 {
					now[k] = op
				}
				for _, k := range []string{"a", "b"} {
					op, ok := now[k]
					gt, _ := m.GetTime(k)
					ge, _ := m.GetErrors(k)
					gf, _ := m.GetFunc(k)
					c.Op(3)
					if (gt != nil) != (ok && op == 0) || (len(ge) > 0) != (ok && op == 1) || (gf != nil) != (ok && op == 2) || m.IsNull(k) == ok {
						c.Failf("after %v: key %s has time %v, errors %v, function %v, null %v", now, k, gt, messages(ge), gf != nil, m.IsNull(k))
					}
					if gt != nil && !sameTime(*gt, t) || len(ge) > 0 && fmt.Sprint(messages(ge)) != "[p q]" {
						c.Failf("after %v: key %s has time %v, errors %v", now, k, gt, messages(ge))
					}
				}
			}
			c.State(fmt.Sprint(now))
		}},
	)
}
