package main

import (
	"runtime/debug"
	"runtime/metrics"
	"sync/atomic"
	"time"
)

// maxEvents bounds the synchronization operations of one path.
const maxEvents = 20000

// memFull makes all engines give up their current instance (which then counts as
// incomplete) when the process has grown too big.
var memFull atomic.Bool

func guardMemory() {
	debug.SetMemoryLimit(16 << 30)
	s := []metrics.Sample{{Name: "/memory/classes/heap/objects:bytes"}}
	for range time.Tick(100 * time.Millisecond) {
		metrics.Read(s)
		used := s[0].Value.Uint64()
		switch {
		case used > 14<<30 && !memFull.Load():
			memFull.Store(true)
			time.Sleep(200 * time.Millisecond)
			debug.FreeOSMemory()
		case used < 8<<30:
			memFull.Store(false)
		}
	}
}
