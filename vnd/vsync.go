// Package vsync replaces package sync when a counterexample that depends on
// the schedule is replayed: one goroutine runs at a time and the scheduling
// decisions are those of the counterexample (or random ones).  The scheduling
// points are those of the engine: after releasing a lock, after starting a
// goroutine, and where a goroutine blocks or ends.
package vsync

import (
	"fmt"
	"os"
	"sync"

	"github.com/bwesterb/go-xmssmt/internal/vnd"
)

type Locker = sync.Locker
type Map = sync.Map
type Pool = sync.Pool

const (
	run = iota
	onMutex
	onCond
	onWG
	done
)

type gor struct {
	status int
	wait   interface{}
	ch     chan struct{}
}

type world struct {
	gs     []*gor
	cur    int
	on     bool
	max    int
	pre    int
	nth    int
	closed bool
}

var w *world

func init() {
	vnd.OnReset = func() { w = &world{gs: []*gor{{ch: make(chan struct{}, 1)}}} }
	vnd.OnPreempt = func(n int) { w.on, w.max, w.pre = n >= 0, n, 0 }
	vnd.OnYield = point
}

func fatal(s string) {
	fmt.Println("fatal error: " + s)
	os.Exit(2)
}

func point() { w.pick(false) }

func (w *world) block(status int, wait interface{}) {
	g := w.gs[w.cur]
	g.status, g.wait = status, wait
	w.pick(true)
}

func (w *world) pick(blocking bool) {
	if !blocking && !w.on {
		return
	}
	var rs []int
	for i, g := range w.gs {
		if g.status == run {
			rs = append(rs, i)
		}
	}
	if len(rs) == 0 {
		fatal("all goroutines are asleep - deadlock!")
	}
	if !blocking && (len(rs) == 1 || w.pre >= w.max && !vnd.Random()) {
		return
	}
	next := rs[0]
	if blocking && !w.on {
		for _, r := range rs {
			if r > w.cur {
				next = r
				break
			}
		}
	} else if len(rs) > 1 {
		next = vnd.Sched(w.nth, rs, w.cur)
		w.nth++
		if !blocking && next != w.cur {
			w.pre++
		}
	}
	if next == w.cur {
		return
	}
	me := w.gs[w.cur]
	over := me.status == done
	w.cur = next
	w.gs[next].ch <- struct{}{}
	if !over {
		<-me.ch
	}
}

func (w *world) wake(status int, wait interface{}, all bool) {
	for _, g := range w.gs {
		if g.status == status && g.wait == wait {
			g.status = run
			if !all {
				return
			}
		}
	}
}

// Go starts a goroutine.
func Go(f func()) {
	me := w
	g := &gor{ch: make(chan struct{}, 1)}
	me.gs = append(me.gs, g)
	go func() {
		<-g.ch
		defer func() {
			if e := recover(); e != nil {
				if x, ok := e.(vnd.Fail); ok {
					fatal("fail: " + x.Label)
				}
				fatal(fmt.Sprintf("panic: %v", e))
			}
			g.status = done
			me.pick(true)
		}()
		f()
	}()
	me.pick(false)
}

type Mutex struct{ held bool }

func (m *Mutex) Lock() {
	for m.held {
		w.block(onMutex, m)
	}
	m.held = true
}

func (m *Mutex) unlock() {
	if !m.held {
		fatal("sync: unlock of unlocked mutex")
	}
	m.held = false
	w.wake(onMutex, m, true)
}

func (m *Mutex) Unlock() {
	m.unlock()
	point()
}

func (m *Mutex) TryLock() bool {
	if m.held {
		return false
	}
	m.held = true
	return true
}

type RWMutex struct{ Mutex }

func (m *RWMutex) RLock()   { m.Lock() }
func (m *RWMutex) RUnlock() { m.Unlock() }

type Cond struct{ L Locker }

func NewCond(l Locker) *Cond { return &Cond{l} }

func (c *Cond) Wait() {
	m, ok := c.L.(interface{ unlock() })
	if !ok {
		fatal("cond of an unknown lock")
	}
	m.unlock()
	w.block(onCond, c)
	c.L.Lock()
}
func (c *Cond) Broadcast() { w.wake(onCond, c, true) }
func (c *Cond) Signal()    { w.wake(onCond, c, false) }

type WaitGroup struct{ n int }

func (g *WaitGroup) Add(d int) {
	g.n += d
	if g.n < 0 {
		panic("sync: negative WaitGroup counter")
	}
	if g.n == 0 {
		w.wake(onWG, g, true)
	}
}
func (g *WaitGroup) Done() {
	g.Add(-1)
	point()
}
func (g *WaitGroup) Wait() {
	for g.n != 0 {
		w.block(onWG, g)
	}
}
func (g *WaitGroup) Go(f func()) {
	g.Add(1)
	Go(func() {
		defer g.Done()
		f()
	})
}

type Once struct{ over bool }

func (o *Once) Do(f func()) {
	if !o.over {
		o.over = true
		f()
	}
}
