package main

import (
	"os"
	"runtime/pprof"
	"time"
)

func init() {
	if f := os.Getenv("NJ_PROF"); f != "" {
		w, _ := os.Create(f)
		pprof.StartCPUProfile(w)
		go func() { time.Sleep(20 * time.Second); pprof.StopCPUProfile(); w.Close(); os.Exit(3) }()
	}
}
