//go:build go1.21

// Package h holds random concurrent programs that compare the reduced search
// with the enumeration of all schedules (tools/dpor_test.py).
package h

import (
	"fmt"
	"sync"
	"sync/atomic"

	"github.com/exascience/pargo/zz_verif/sym"
)

type rnd uint32

func (r *rnd) n(k int) int {
	*r = *r*1664525 + 1013904223
	return int(uint32(*r)>>16) % k
}

// Rand: threads goroutines with ops random operations each.
func Rand() {
	r := rnd(sym.P("seed")*7919 + 12345)
	r.n(2)
	threads, ops, set := sym.P("threads"), sym.P("ops"), sym.P("set")
	chans := []chan int{make(chan int), make(chan int, 1), make(chan int, 2)}
	var mu sync.Mutex
	var rw sync.RWMutex
	var wg sync.WaitGroup
	var once sync.Once
	cond := sync.NewCond(&mu)
	wg.Add(2)
	var x, y int32
	var v int
	flag := false
	logs := make([][]int, threads)
	for t := 0; t < threads; t++ {
		t := t
		var prog []int
		for i := 0; i < ops; i++ {
			switch set {
			case 0: // channels, one case
				prog = append(prog, []int{0, 1, 2, 3, 4, 5, 6, 19}[r.n(8)])
			case 1: // channels, several cases
				prog = append(prog, []int{0, 1, 2, 3, 4, 5, 7, 8, 9, 10, 19}[r.n(11)])
			case 2: // locks and atomics
				prog = append(prog, []int{6, 11, 12, 13, 14, 15, 16, 17, 18}[r.n(9)])
			default:
				prog = append(prog, r.n(20))
			}
		}
		go func() {
			log := func(k int) { logs[t] = append(logs[t], k) }
			for i, op := range prog {
				id := 10*(t+1) + i
				switch op {
				case 0, 1, 2:
					chans[op] <- id
					log(id)
				case 3, 4, 5:
					k, ok := <-chans[op-3]
					log(k)
					if !ok {
						log(-3)
					}
				case 6:
					log(int(atomic.AddInt32(&x, 1)))
				case 7:
					select {
					case k := <-chans[0]:
						log(k)
					case k := <-chans[1]:
						log(k)
					}
				case 8:
					select {
					case chans[1] <- id:
						log(id)
					default:
						log(-1)
					}
				case 9:
					select {
					case k := <-chans[2]:
						log(k)
					default:
						log(-1)
					}
				case 10:
					select {
					case k := <-chans[0]:
						log(k)
					case chans[2] <- id:
						log(id)
					}
				case 11:
					mu.Lock()
					v++
					log(v)
					mu.Unlock()
				case 12:
					rw.RLock()
					log(int(atomic.LoadInt32(&y)))
					rw.RUnlock()
				case 13:
					rw.Lock()
					atomic.AddInt32(&y, 1)
					log(int(atomic.AddInt32(&y, 1)))
					rw.Unlock()
				case 14:
					atomic.StoreInt32(&x, 7)
				case 15:
					if t < 2 {
						wg.Done()
					}
					wg.Wait()
					log(int(atomic.LoadInt32(&x)))
				case 16:
					once.Do(func() { log(int(atomic.AddInt32(&x, 3))) })
					log(99)
				case 17:
					mu.Lock()
					for !flag {
						cond.Wait()
					}
					log(v)
					mu.Unlock()
				case 18:
					mu.Lock()
					flag = true
					v += 5
					cond.Broadcast()
					mu.Unlock()
				case 19:
					if t == 0 {
						close(chans[1])
					}
				}
			}
			log(-2)
		}()
	}
	sym.Drain()
	sym.Reach(fmt.Sprint(logs))
}
