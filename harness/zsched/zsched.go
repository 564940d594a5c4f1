// Package zsched runs functions one at a time, as threads, and changes from one to another where it is told to.
package zsched

import (
	"fmt"
	"runtime"
	"sync/atomic"
	"time"
)

// Schedule says which thread runs when: the threads in the given order, one after the other; at a step of Switch
// another thread is put first.
type Schedule struct {
	Order  []int `json:"order"`
	Switch []At  `json:"switch"`
}

// At step Step (counted from 1 over all threads) thread To goes first.
type At struct {
	Step int `json:"step"`
	To   int `json:"to"`
}

type thread struct {
	id      int
	wake    chan struct{}
	done    bool
	blocked func() bool // may it go on?
}

// Outcome of a run: the number of steps, and whether it came to an end.
type Outcome struct {
	Steps    int
	Deadlock bool // everybody waits for a lock
	Stuck    bool // a thread waits for something else, or runs on without end
}

type run struct {
	threads []*thread
	order   []int
	at      []At
	next    int // step of the next switch
	step    int
	since   int // step at which the current thread was chosen
	cur     *thread
	moves   atomic.Int64
	end     chan Outcome
}

var cur atomic.Pointer[run]

const tooLong = 2_000_000

// Run makes the functions threads and carries out the schedule.
func Run(fns []func(), s Schedule) Outcome {
	r := &run{order: append([]int{}, s.Order...), at: s.Switch, end: make(chan Outcome, 1)}
	r.arm()
	for i, f := range fns {
		t := &thread{id: i, wake: make(chan struct{}, 1)}
		r.threads = append(r.threads, t)
		go func() {
			<-t.wake
			f()
			t.done = true
			r.move(t, true)
		}()
	}
	cur.Store(r)
	r.move(nil, false)
	defer cur.Store(nil)
	last, still := int64(-1), 0
	for {
		select {
		case o := <-r.end:
			return o
		case <-time.After(500 * time.Millisecond):
			if m := r.moves.Load(); m != last {
				last, still = m, 0
			} else if still++; still > 40 {
				return Outcome{Steps: r.step, Stuck: true}
			}
		}
	}
}

func (r *run) arm() {
	r.next = -1
	if len(r.at) > 0 {
		r.next = r.at[0].Step
	}
}

// Y is a point at which another thread may come.
func Y() {
	r := cur.Load()
	if r == nil {
		return
	}
	r.step++
	if r.step&0xfff == 0 {
		r.moves.Add(1)
	}
	if r.step == r.next {
		to := r.at[0].To
		r.at = r.at[1:]
		r.arm()
		r.first(to)
		if r.cur.id != to {
			r.move(r.cur, false)
		}
	} else if r.step-r.since > tooLong {
		r.since = r.step
		r.last(r.cur.id)
		r.move(r.cur, false)
	}
}

func (r *run) first(t int) {
	o := []int{t}
	for _, x := range r.order {
		if x != t {
			o = append(o, x)
		}
	}
	r.order = o
}

func (r *run) last(t int) {
	o := []int{}
	for _, x := range r.order {
		if x != t {
			o = append(o, x)
		}
	}
	r.order = append(o, t)
}

// move lets the first thread run that can; t, if it is not ending, waits until it is its turn again.
func (r *run) move(t *thread, ending bool) {
	r.moves.Add(1)
	for {
		for _, i := range r.order {
			n := r.threads[i]
			if n.done || n.blocked != nil && !n.blocked() {
				continue
			}
			n.blocked = nil
			r.since = r.step
			if n == t {
				r.cur = n
				return
			}
			r.cur = n
			n.wake <- struct{}{}
			if t != nil && !ending {
				<-t.wake
			}
			return
		}
		o := Outcome{Steps: r.step}
		for _, n := range r.threads {
			o.Deadlock = o.Deadlock || !n.done
		}
		r.end <- o
		if o.Deadlock {
			select {} // the threads stay where they are
		}
		return
	}
}

// Block waits until may says yes.
func Block(may func() bool) {
	r := cur.Load()
	if r == nil {
		for end := time.Now().Add(time.Minute); !may(); runtime.Gosched() {
			if time.Now().After(end) {
				panic(fmt.Sprint("zsched: a lock is never released"))
			}
		}
		return
	}
	for !may() {
		r.cur.blocked = may
		r.move(r.cur, false)
	}
}
