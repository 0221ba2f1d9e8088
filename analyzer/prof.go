package main

import (
	"os"
	"runtime/pprof"
)

func profile() func() {
	n := os.Getenv("VERIFAN_PROF")
	if n == "" {
		return func() {}
	}
	f, err := os.Create(n)
	if err != nil {
		return func() {}
	}
	pprof.StartCPUProfile(f)
	return pprof.StopCPUProfile
}
