package main

// Reference model: a tagged tree with ordered members. Deliberately boring.

import (
	stdjson "encoding/json"
	"fmt"
	"io"
	"math"
	"strconv"
	"strings"

	json "github.com/matehaxor03/holistic_json/json"
)

type MV struct {
	K    byte   // n null, s string, b bool, i integer, f float, m map, a array
	T    string // numeric type: int8 ... uint64, int, uint, float32, float64
	S    string
	B    bool
	Neg  bool
	U    uint64 // magnitude
	F    float64
	Keys []string
	Vals []*MV
}

func mNull() *MV                    { return &MV{K: 'n'} }
func mStr(s string) *MV             { return &MV{K: 's', S: s} }
func mBool(b bool) *MV              { return &MV{K: 'b', B: b} }
func mArr(v ...*MV) *MV             { return &MV{K: 'a', Vals: v} }
func mMap() *MV                     { return &MV{K: 'm'} }
func mF32(f float32) *MV            { return &MV{K: 'f', T: "float32", F: float64(f)} }
func mF64(f float64) *MV            { return &MV{K: 'f', T: "float64", F: f} }
func mUintT(t string, u uint64) *MV { return &MV{K: 'i', T: t, U: u} }
func mIntT(t string, i int64) *MV {
	if i < 0 {
		return &MV{K: 'i', T: t, Neg: true, U: uint64(-(i + 1)) + 1}
	}
	return &MV{K: 'i', T: t, U: uint64(i)}
}

// narrowest type of an integer literal: unsigned without, signed with a minus sign
func mLit(neg bool, u uint64) *MV {
	v := &MV{K: 'i', Neg: neg && u != 0, U: u}
	if neg {
		switch {
		case u <= 1<<7:
			v.T = "int8"
		case u <= 1<<15:
			v.T = "int16"
		case u <= 1<<31:
			v.T = "int32"
		default:
			v.T = "int64"
		}
	} else {
		switch {
		case u < 1<<8:
			v.T = "uint8"
		case u < 1<<16:
			v.T = "uint16"
		case u < 1<<32:
			v.T = "uint32"
		default:
			v.T = "uint64"
		}
	}
	return v
}

func (m *MV) digits() string {
	s := strconv.FormatUint(m.U, 10)
	if m.Neg {
		return "-" + s
	}
	return s
}

func (m *MV) idx(k string) int {
	for i, x := range m.Keys {
		if x == k {
			return i
		}
	}
	return -1
}

// set has dictionary semantics: a repeated key keeps its position.
func (m *MV) set(k string, v *MV) *MV {
	if i := m.idx(k); i >= 0 {
		m.Vals[i] = v
		return m
	}
	m.Keys = append(m.Keys, k)
	m.Vals = append(m.Vals, v)
	return m
}

func (m *MV) del(k string) bool {
	i := m.idx(k)
	if i < 0 {
		return false
	}
	m.delAt(i)
	return true
}

func (m *MV) delAt(i int) {
	if m.K == 'm' {
		m.Keys = append(append([]string{}, m.Keys[:i]...), m.Keys[i+1:]...)
	}
	m.Vals = append(append([]*MV{}, m.Vals[:i]...), m.Vals[i+1:]...)
}

func (m *MV) clone() *MV {
	x := *m
	x.Keys = append([]string{}, m.Keys...)
	x.Vals = nil
	for _, v := range m.Vals {
		x.Vals = append(x.Vals, v.clone())
	}
	return &x
}

func (m *MV) canon(b *strings.Builder) {
	switch m.K {
	case 'n':
		b.WriteString("null")
	case 's':
		b.WriteString(strconv.Quote(m.S))
	case 'b':
		fmt.Fprint(b, m.B)
	case 'i':
		b.WriteString(m.digits() + ":" + m.T)
	case 'f':
		b.WriteString(strconv.FormatFloat(m.F, 'g', -1, 64) + ":" + m.T)
	case 'm':
		b.WriteByte('{')
		for i, k := range m.Keys {
			b.WriteString(strconv.Quote(k) + ":")
			m.Vals[i].canon(b)
			b.WriteByte(',')
		}
		b.WriteByte('}')
	case 'a':
		b.WriteByte('[')
		for _, v := range m.Vals {
			v.canon(b)
			b.WriteByte(',')
		}
		b.WriteByte(']')
	}
}

func (m *MV) String() string {
	var b strings.Builder
	m.canon(&b)
	return b.String()
}

// ---- writing a model as JSON text (compact), independent of the code under test ----

func quoteJSON(s string) string {
	var b strings.Builder
	b.WriteByte('"')
	for _, r := range s {
		switch {
		case r == '"' || r == '\\':
			b.WriteByte('\\')
			b.WriteRune(r)
		case r < 0x20:
			fmt.Fprintf(&b, "\\u%04x", r)
		default:
			b.WriteRune(r)
		}
	}
	b.WriteByte('"')
	return b.String()
}

func (m *MV) tokens(out []string) []string {
	switch m.K {
	case 'n':
		return append(out, "null")
	case 's':
		return append(out, quoteJSON(m.S))
	case 'b':
		return append(out, strconv.FormatBool(m.B))
	case 'i':
		return append(out, m.digits())
	case 'f':
		bits := 64
		if m.T == "float32" {
			bits = 32
		}
		s := strconv.FormatFloat(m.F, 'f', -1, bits)
		if !strings.Contains(s, ".") {
			s += ".0"
		}
		return append(out, s)
	case 'm':
		out = append(out, "{")
		for i, k := range m.Keys {
			if i > 0 {
				out = append(out, ",")
			}
			out = append(out, quoteJSON(k), ":")
			out = m.Vals[i].tokens(out)
		}
		return append(out, "}")
	case 'a':
		out = append(out, "[")
		for i, v := range m.Vals {
			if i > 0 {
				out = append(out, ",")
			}
			out = v.tokens(out)
		}
		return append(out, "]")
	}
	panic("kind")
}

func (m *MV) text() string { return strings.Join(m.tokens(nil), "") }

// ---- reading JSON text with the standard library, keeping member order ----

func decodeStd(text string) (*MV, error) {
	if !stdjson.Valid([]byte(text)) {
		return nil, fmt.Errorf("not valid JSON")
	}
	d := stdjson.NewDecoder(strings.NewReader(text))
	d.UseNumber()
	v, err := decodeNext(d)
	if err != nil {
		return nil, err
	}
	if _, err := d.Token(); err != io.EOF {
		return nil, fmt.Errorf("trailing content")
	}
	return v, nil
}

func decodeNext(d *stdjson.Decoder) (*MV, error) {
	t, err := d.Token()
	if err != nil {
		return nil, err
	}
	switch x := t.(type) {
	case nil:
		return mNull(), nil
	case string:
		return mStr(x), nil
	case bool:
		return mBool(x), nil
	case stdjson.Number:
		return &MV{K: 'N', S: string(x)}, nil
	case stdjson.Delim:
		if x == '{' {
			m := mMap()
			for d.More() {
				kt, err := d.Token()
				if err != nil {
					return nil, err
				}
				k := kt.(string)
				if m.idx(k) >= 0 {
					return nil, fmt.Errorf("duplicate key %q", k)
				}
				v, err := decodeNext(d)
				if err != nil {
					return nil, err
				}
				m.Keys = append(m.Keys, k)
				m.Vals = append(m.Vals, v)
			}
			d.Token()
			return m, nil
		}
		a := mArr()
		for d.More() {
			v, err := decodeNext(d)
			if err != nil {
				return nil, err
			}
			a.Vals = append(a.Vals, v)
		}
		d.Token()
		return a, nil
	}
	return nil, fmt.Errorf("token %T", t)
}

// sameText compares a decoded text with the model.
func sameText(path string, got, want *MV) string {
	switch want.K {
	case 'i':
		if got.K != 'N' || got.S != want.digits() {
			return fmt.Sprintf("%s: number %q, want %s", path, got.S, want.digits())
		}
		return ""
	case 'f':
		bits := 64
		if want.T == "float32" {
			bits = 32
		}
		f, err := strconv.ParseFloat(got.S, bits)
		if got.K != 'N' || err != nil || f != want.F {
			return fmt.Sprintf("%s: number %q, want %v", path, got.S, want.F)
		}
		return ""
	}
	if got.K != want.K {
		return fmt.Sprintf("%s: %c, want %c", path, got.K, want.K)
	}
	switch want.K {
	case 's':
		if got.S != want.S {
			return fmt.Sprintf("%s: %q, want %q", path, got.S, want.S)
		}
	case 'b':
		if got.B != want.B {
			return fmt.Sprintf("%s: %v, want %v", path, got.B, want.B)
		}
	case 'm', 'a':
		if len(got.Vals) != len(want.Vals) {
			return fmt.Sprintf("%s: %d members, want %d", path, len(got.Vals), len(want.Vals))
		}
		for i := range want.Vals {
			p := fmt.Sprintf("%s[%d]", path, i)
			if want.K == 'm' {
				if got.Keys[i] != want.Keys[i] {
					return fmt.Sprintf("%s: key %q, want %q", p, got.Keys[i], want.Keys[i])
				}
			}
			if d := sameText(p, got.Vals[i], want.Vals[i]); d != "" {
				return d
			}
		}
	}
	return ""
}

// ---- comparing real objects with the model through many redundant routes ----

func errOf(e []error) string {
	if len(e) == 0 {
		return ""
	}
	return fmt.Sprint(e)
}

func base(t string) string { return strings.TrimPrefix(t, "*") }

var sized = []string{"int8", "int16", "int32", "int64", "uint8", "uint16", "uint32", "uint64"}

func isSigned(t string) bool   { return strings.HasPrefix(t, "int") }
func isUnsigned(t string) bool { return strings.HasPrefix(t, "uint") }

type predicates struct {
	name string
	got  bool
	want bool
}

func checkKind(path string, v *json.Value, w *MV) string {
	for _, p := range []predicates{
		{"IsNil", v.IsNil(), w.K == 'n'},
		{"IsMap", v.IsMap(), w.K == 'm'},
		{"IsArray", v.IsArray(), w.K == 'a'},
		{"IsString", v.IsString(), w.K == 's'},
		{"IsBool", v.IsBool(), w.K == 'b'},
		{"IsNumber", v.IsNumber(), w.K == 'i' || w.K == 'f'},
	} {
		if p.got != p.want {
			return fmt.Sprintf("%s.%s is %v, want %v", path, p.name, p.got, p.want)
		}
	}
	return ""
}

// checkVal compares one value; d is the level of detail (0 basic, 1 all predicates).
func checkVal(c *Ctx, path string, v *json.Value, w *MV, d int) string {
	if v == nil {
		if w.K == 'n' {
			return ""
		}
		return path + ": no value"
	}
	c.Op(8)
	if s := checkKind(path, v, w); s != "" {
		return s
	}
	wantType := map[byte]string{'n': "nil", 'm': "json.Map", 'a': "json.Array", 's': "string", 'b': "bool"}[w.K]
	if w.T != "" {
		wantType = w.T
	}
	if t := base(v.GetType()); t != wantType {
		return fmt.Sprintf("%s: type %s, want %s", path, t, wantType)
	}
	if d > 0 {
		c.Op(16)
		for _, p := range []predicates{
			{"IsInteger", v.IsInteger(), w.K == 'i'},
			{"IsFloat", v.IsFloat(), w.K == 'f'},
			{"IsFloat32", v.IsFloat32(), w.T == "float32"},
			{"IsFloat64", v.IsFloat64(), w.T == "float64"},
			{"IsInt", v.IsInt(), isSigned(w.T)},
			{"IsInt8", v.IsInt8(), w.T == "int8"},
			{"IsInt16", v.IsInt16(), w.T == "int16"},
			{"IsInt32", v.IsInt32(), w.T == "int32"},
			{"IsInt64", v.IsInt64(), w.T == "int64"},
			{"IsUInt", v.IsUInt(), isUnsigned(w.T)},
			{"IsUInt8", v.IsUInt8(), w.T == "uint8"},
			{"IsUInt16", v.IsUInt16(), w.T == "uint16"},
			{"IsUInt32", v.IsUInt32(), w.T == "uint32"},
			{"IsUInt64", v.IsUInt64(), w.T == "uint64"},
			{"IsBoolTrue", v.IsBoolTrue(), w.K == 'b' && w.B},
			{"IsBoolFalse", v.IsBoolFalse(), w.K == 'b' && !w.B},
			{"IsEmptyString", v.IsEmptyString(), w.K == 's' && w.S == ""},
		} {
			if p.got != p.want {
				return fmt.Sprintf("%s.%s is %v, want %v", path, p.name, p.got, p.want)
			}
		}
	}
	switch w.K {
	case 's':
		s, e := v.GetStringValue()
		if e != nil || s != w.S {
			return fmt.Sprintf("%s: GetStringValue = %q %s, want %q", path, s, errOf(e), w.S)
		}
		p, e := v.GetString()
		if e != nil || p == nil || *p != w.S {
			return fmt.Sprintf("%s: GetString wrong, want %q %s", path, w.S, errOf(e))
		}
	case 'b':
		b, e := v.GetBoolValue()
		if e != nil || b != w.B {
			return fmt.Sprintf("%s: GetBoolValue = %v %s, want %v", path, b, errOf(e), w.B)
		}
		p, e := v.GetBool()
		if e != nil || p == nil || *p != w.B {
			return fmt.Sprintf("%s: GetBool wrong, want %v %s", path, w.B, errOf(e))
		}
	case 'i':
		if !w.Neg {
			u, e := v.GetUInt64Value()
			if e != nil || u != w.U {
				return fmt.Sprintf("%s: GetUInt64Value = %d %s, want %s", path, u, errOf(e), w.digits())
			}
		}
		if w.Neg || w.U <= math.MaxInt64 {
			i, e := v.GetInt64Value()
			if e != nil || strconv.FormatInt(i, 10) != w.digits() {
				return fmt.Sprintf("%s: GetInt64Value = %d %s, want %s", path, i, errOf(e), w.digits())
			}
		}
	case 'f':
		f, e := v.GetFloat64Value()
		if e != nil || f != w.F {
			return fmt.Sprintf("%s: GetFloat64Value = %v %s, want %v", path, f, errOf(e), w.F)
		}
	case 'm':
		m, e := v.GetMap()
		if e != nil || m == nil {
			return fmt.Sprintf("%s: GetMap failed %s", path, errOf(e))
		}
		if s := checkMap(c, path, m, w, d); s != "" {
			return s
		}
		mv, e := v.GetMapValue()
		if e != nil || len(mv.GetKeys()) != len(w.Keys) {
			return fmt.Sprintf("%s: GetMapValue wrong %s", path, errOf(e))
		}
	case 'a':
		a, e := v.GetArray()
		if e != nil || a == nil {
			return fmt.Sprintf("%s: GetArray failed %s", path, errOf(e))
		}
		if s := checkArr(c, path, a, w, d); s != "" {
			return s
		}
		av, e := v.GetArrayValue()
		if e != nil || av.Len() != len(w.Vals) {
			return fmt.Sprintf("%s: GetArrayValue wrong %s", path, errOf(e))
		}
	case 'n':
		if o := v.GetObject(); d > 0 {
			if s, isString := o.(string); isString {
				return fmt.Sprintf("%s: null holds string %q", path, s)
			}
		}
	}
	return ""
}

func checkMap(c *Ctx, path string, m *json.Map, w *MV, d int) string {
	if m == nil {
		return path + ": nil map"
	}
	c.Op(3)
	keys := m.GetKeys()
	if len(keys) != len(w.Keys) {
		return fmt.Sprintf("%s: keys %q, want %q", path, clip(keys), clip(w.Keys))
	}
	vals := m.Values()
	if vals == nil || vals.Len() != len(w.Keys) {
		return fmt.Sprintf("%s: Values has the wrong length", path)
	}
	vs := *vals.GetValues()
	if len(vs) != len(keys) {
		return fmt.Sprintf("%s: Values().GetValues() has the wrong length", path)
	}
	for i, k := range w.Keys {
		if keys[i] != k {
			return fmt.Sprintf("%s: keys %q, want %q", path, clip(keys), clip(w.Keys))
		}
		p := path + "/" + clipS(k)
		x := w.Vals[i]
		c.Op(6)
		if !m.HasKey(k) {
			return p + ": HasKey is false"
		}
		v := m.GetValue(k)
		if s := checkVal(c, p, v, x, d); s != "" {
			return s
		}
		if vs[i] != v {
			if s := checkVal(c, p+"(Values)", vs[i], x, 0); s != "" {
				return s
			}
		}
		for _, q := range []predicates{
			{"IsNull", m.IsNull(k), x.K == 'n'},
			{"IsMap", m.IsMap(k), x.K == 'm'},
			{"IsArray", m.IsArray(k), x.K == 'a'},
			{"IsString", m.IsString(k), x.K == 's'},
			{"IsBool", m.IsBool(k), x.K == 'b'},
			{"IsInteger", m.IsInteger(k), x.K == 'i'},
			{"IsFloat", m.IsFloat(k), x.K == 'f'},
		} {
			if q.got != q.want {
				return fmt.Sprintf("%s: map.%s is %v, want %v", p, q.name, q.got, q.want)
			}
		}
		switch x.K {
		case 's':
			s, e := m.GetStringValue(k)
			if e != nil || s != x.S {
				return fmt.Sprintf("%s: map.GetStringValue = %q %s, want %q", p, s, errOf(e), x.S)
			}
		case 'm':
			sub, e := m.GetMap(k)
			if e != nil || sub == nil || len(sub.GetKeys()) != len(x.Keys) {
				return fmt.Sprintf("%s: map.GetMap wrong %s", p, errOf(e))
			}
		case 'a':
			sub, e := m.GetArray(k)
			if e != nil || sub == nil || sub.Len() != len(x.Vals) {
				return fmt.Sprintf("%s: map.GetArray wrong %s", p, errOf(e))
			}
		case 'b':
			b, e := m.GetBool(k)
			if e != nil || b == nil || *b != x.B {
				return fmt.Sprintf("%s: map.GetBool wrong %s", p, errOf(e))
			}
		}
	}
	return ""
}

func checkArr(c *Ctx, path string, a *json.Array, w *MV, d int) string {
	if a == nil {
		return path + ": nil array"
	}
	c.Op(2)
	if a.Len() != len(w.Vals) {
		return fmt.Sprintf("%s: %d elements, want %d", path, a.Len(), len(w.Vals))
	}
	vs := *a.GetValues()
	if len(vs) != len(w.Vals) {
		return fmt.Sprintf("%s: GetValues has %d elements, want %d", path, len(vs), len(w.Vals))
	}
	for i, x := range w.Vals {
		p := path + "/" + strconv.Itoa(i)
		if s := checkVal(c, p, vs[i], x, d); s != "" {
			return s
		}
		c.Op(1)
		switch x.K {
		case 's':
			s, e := a.GetStringValue(i)
			if e != nil || s != x.S {
				return fmt.Sprintf("%s: array.GetStringValue = %q %s, want %q", p, s, errOf(e), x.S)
			}
		case 'm':
			sub, e := a.GetMap(i)
			if e != nil || sub == nil || len(sub.GetKeys()) != len(x.Keys) {
				return fmt.Sprintf("%s: array.GetMap wrong %s", p, errOf(e))
			}
		}
	}
	return ""
}

func clip(k []string) []string {
	if len(k) > 12 {
		return append(append([]string{}, k[:12]...), fmt.Sprintf("...(%d)", len(k)))
	}
	return k
}

func clipS(s string) string {
	if len(s) > 40 {
		return s[:40] + "..."
	}
	return s
}

// ---- the operations on real documents used everywhere ----

func mustParse(c *Ctx, text string) *json.Map {
	c.Op(1)
	m, e := json.Parse(text)
	if e != nil || m == nil {
		c.Failf("well-formed document rejected: %s\n%s", clipText(text), errOf(e))
	}
	return m
}

func mustWrite(c *Ctx, m *json.Map) string {
	var b strings.Builder
	c.Op(1)
	if e := m.ToJSONString(&b); e != nil {
		c.Failf("document cannot be written: %s", errOf(e))
	}
	return b.String()
}

func clipText(s string) string {
	if len(s) > 300 {
		return s[:150] + fmt.Sprintf("...(%d bytes)...", len(s)) + s[len(s)-100:]
	}
	return s
}

// expectDoc fails unless the real document equals the model by every route and in its text.
func expectDoc(c *Ctx, what string, m *json.Map, w *MV, d int) {
	if s := checkMap(c, "", m, w, d); s != "" {
		c.Failf("%s: %s", what, s)
	}
}

func expectText(c *Ctx, what string, m *json.Map, w *MV) string {
	t := mustWrite(c, m)
	got, err := decodeStd(t)
	if err != nil {
		c.Failf("%s: written text is wrong: %v: %s", what, err, clipText(t))
	}
	if s := sameText("", got, w); s != "" {
		c.Failf("%s: written text differs: %s in %s", what, s, clipText(t))
	}
	return t
}

func expectArrText(c *Ctx, what string, a *json.Array, w *MV) string {
	var b strings.Builder
	c.Op(1)
	if e := a.ToJSONString(&b); e != nil {
		c.Failf("%s: array cannot be written: %s", what, errOf(e))
	}
	got, err := decodeStd(b.String())
	if err != nil {
		c.Failf("%s: written array is wrong: %v: %s", what, err, clipText(b.String()))
	}
	if s := sameText("", got, w); s != "" {
		c.Failf("%s: written array differs: %s in %s", what, s, clipText(b.String()))
	}
	return b.String()
}
