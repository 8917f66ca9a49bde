package main

import (
	"fmt"

	common "github.com/matehaxor03/holistic_common/common"
	json "github.com/matehaxor03/holistic_json/json"
)

// selfCheck compares the fast IsNil with the original on a corpus of everything the package stores.
func selfCheck() string {
	var objs []interface{}
	for _, s := range lookalikes {
		t := s
		objs = append(objs, s, &t, fmt.Errorf("%s", s))
	}
	for _, a := range []string{"&", "m", "map[]", "nil", "<nil>", " ", "&map[value:%!s(", "=&{})]", "value"} {
		for _, b := range []string{"", "&", "m", "map[]", "nil", "<nil>", " ", "=&{})]", "int=<nil>)]", "string=<nil>)]"} {
			for _, d := range []string{"", " ", "=&{})]", "<nil>"} {
				objs = append(objs, a+b+d)
			}
		}
	}
	objs = append(objs, nil, (*json.Map)(nil), (*json.Array)(nil), (*json.Value)(nil), json.NewMap(), json.NewArray(), json.NewMapValue(), json.NewArrayValue(),
		json.NewValue(nil), json.NewValue(1), json.NewValue("nil"), json.NewValueValue(nil), (*string)(nil), (*int)(nil), (*bool)(nil), (*float32)(nil),
		[]string{}, []string(nil), []error{}, []error(nil), []error{nil}, &[]error{}, &[]*json.Value{}, (*[]*json.Value)(nil), map[string]interface{}{}, &map[string]interface{}{}, &map[string]interface{}{"value": nil},
		struct{}{}, &struct{}{}, func() {}, make(chan int), complex(1, 2))
	for _, c := range catalog() {
		objs = append(objs, c.obj())
	}
	for _, o := range objs {
		if a, b := common.IsNil(o), common.IsNilSlow(o); a != b {
			return fmt.Sprintf("fast IsNil(%T %#v) = %v, original %v", o, o, a, b)
		}
	}
	return ""
}

// a known finding: a specific input whose behaviour is wrong and recorded
type finding struct {
	Prop  string
	What  string
	Fails func() bool
}

func knownFindings(prop string) []finding {
	loadFindings()
	var out []finding
	for _, f := range findings {
		if f.Prop == prop {
			out = append(out, f)
		}
	}
	return out
}
