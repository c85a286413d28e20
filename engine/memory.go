package main

import (
	"runtime"
	"runtime/debug"
	"runtime/metrics"
	"sync"
	"sync/atomic"
	"time"
)

// The jobs of a check share the memory of the machine.

const (
	memAdmit = 9 << 30  // no further job is started beyond
	memLimit = 16 << 30 // the garbage collector works harder beyond
	memKill  = 23 << 30 // the newest job is given up beyond
)

var (
	memMu      sync.Mutex
	memRunning []*Interp
)

func heapBytes() uint64 {
	s := []metrics.Sample{{Name: "/memory/classes/total:bytes"}, {Name: "/memory/classes/heap/released:bytes"}}
	metrics.Read(s)
	return s[0].Value.Uint64() - s[1].Value.Uint64()
}

func liveBytes() uint64 {
	s := []metrics.Sample{{Name: "/gc/heap/live:bytes"}}
	metrics.Read(s)
	return s[0].Value.Uint64()
}

func memInit() {
	debug.SetMemoryLimit(memLimit)
	go func() {
		for {
			time.Sleep(200 * time.Millisecond)
			if heapBytes() < memKill {
				continue
			}
			runtime.GC()
			if liveBytes() < memKill*3/4 {
				debug.FreeOSMemory()
				continue
			}
			memMu.Lock()
			if n := len(memRunning); n > 0 {
				atomic.StoreInt32(&memRunning[n-1].outOfMem, 1)
			}
			memMu.Unlock()
			time.Sleep(time.Second)
			debug.FreeOSMemory()
		}
	}()
}

// memEnter waits until there is room for another job.
func memEnter() {
	for i := 0; i < 1500; i++ {
		memMu.Lock()
		n := len(memRunning)
		memMu.Unlock()
		if n == 0 || liveBytes() < memAdmit {
			return
		}
		time.Sleep(200 * time.Millisecond)
	}
}

func memAdd(in *Interp) {
	memMu.Lock()
	memRunning = append(memRunning, in)
	memMu.Unlock()
}

// release drops what is not needed for reporting.
func (in *Interp) release() {
	memMu.Lock()
	for i, x := range memRunning {
		if x == in {
			memRunning = append(memRunning[:i:i], memRunning[i+1:]...)
			break
		}
	}
	memMu.Unlock()
	in.sol.Close()
	in.sol = &Solver{Stats: in.sol.Stats}
	in.c, in.work, in.layouts, in.fns, in.globals, in.redirects, in.methCache = nil, nil, nil, nil, nil, nil, nil
}
