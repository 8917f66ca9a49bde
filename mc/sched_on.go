//go:build sched

package main

import json "github.com/matehaxor03/holistic_json/json"

const (
	schedBuild = true
	schedHasGo = json.VerifHasGo
	schedStmts = json.VerifPoints
)

func setHook(f func()) { json.VerifSchedHook = f }
