//go:build !sched

package main

const (
	schedBuild = false
	schedHasGo = false
	schedStmts = 0
)

func setHook(func()) {}
