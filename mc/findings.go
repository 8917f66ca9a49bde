package main

import (
	"errors"
	"os"
	"path/filepath"
	"regexp"
	"strconv"
	"strings"
	"sync"

	json "github.com/matehaxor03/holistic_json/json"
)

// Known findings: the inputs listed in known_findings.txt, and for each property what it means that
// the input still fails.

var findingLine = regexp.MustCompile(`^finding: property=(C\d\d) input=("(?:[^"\\]|\\.)*") (.*)$`)

var findingsOnce sync.Once
var findings []finding
var knownInputs = map[string]map[string]bool{}

func loadFindings() {
	findingsOnce.Do(func() {
		b, err := os.ReadFile(filepath.Join(*flagVerif, "known_findings.txt"))
		if err != nil {
			return
		}
		for _, l := range strings.Split(string(b), "\n") {
			g := findingLine.FindStringSubmatch(l)
			if g == nil {
				continue
			}
			s, err := strconv.Unquote(g[2])
			f := stillFails[g[1]]
			if err != nil || f == nil {
				continue
			}
			if knownInputs[g[1]] == nil {
				knownInputs[g[1]] = map[string]bool{}
			}
			knownInputs[g[1]][s] = true
			findings = append(findings, finding{g[1], "input " + g[2] + ": " + g[3], func() bool { return f(s) }})
		}
	})
}

// nilLike: plain strings which the package takes for null when they are not stored by pointer.
func nilLike(s string) bool {
	loadFindings()
	return knownInputs["C12"][s]
}

// nilMessage: messages which make the package take an error for null.
func nilMessage(s string) bool {
	loadFindings()
	return knownInputs["C21"][s]
}

func reads(v *json.Value, s string) bool {
	g, e := v.GetStringValue()
	return e == nil && g == s && !v.IsNil()
}

var stillFails = map[string]func(s string) bool{
	"C07": func(s string) bool {
		a := json.NewArray()
		a.AppendValue(json.NewValue(s))
		var b strings.Builder
		e := a.ToJSONString(&b)
		return e != nil || b.String() == "[null]"
	},
	"C11": func(s string) bool {
		v, e := json.NewValue(s).Clone()
		return e != nil || !reads(v, s)
	},
	"C12": func(s string) bool { return !reads(json.NewValue(s), s) },
	"C14": func(s string) bool {
		_, e := json.NewValue(s).GetInt64()
		return e == nil
	},
	"C15": func(s string) bool { return json.NewValue(s).IsNil() },
	"C20": func(s string) bool {
		a := *json.NewArrayOfValues(&[]interface{}{s}).GetValues()
		return len(a) != 1 || !reads(a[0], s)
	},
	"C21": func(s string) bool { return json.NewValue(errors.New(s)).IsNil() },
	"C22": func(s string) bool {
		t, e := json.ConvertInterfaceValueToStringValue(s)
		return e != nil || t != s
	},
}
