package main

import (
	"math/rand"
	"runtime"
	"sync"
	"sync/atomic"
	"time"

	"github.com/moov-io/dukpt/zz_verif/zsched"
)

// controlled makes calls of a batch in threads of zsched, which change in the middle of calls.  Without instrumented
// packages the calls just come in other orders.
func controlled(cs []libCall, n int, r *rand.Rand, call func(int)) {
	steps := make([]int, len(cs))
	run := func(threads [][]int, s zsched.Schedule) bool {
		since.Store(time.Now().UnixNano())
		fns := []func(){}
		for _, t := range threads {
			fns = append(fns, func() {
				for _, i := range t {
					call(i)
				}
			})
		}
		out := zsched.Run(fns, s)
		if len(threads) == 1 && len(threads[0]) == 1 {
			steps[threads[0][0]] = out.Steps
		}
		return !out.Stuck && !out.Deadlock
	}
	for i := range cs {
		if !run([][]int{{i}}, zsched.Schedule{Order: []int{0}}) {
			return
		}
	}
	for ; n > 0; n-- {
		// A call is left in the middle, others are made, and it goes on; or they take turns.
		k := 2 + r.Intn(2)
		threads := make([][]int, k)
		for t := range threads {
			for c := 1 + r.Intn(2); c > 0; c-- {
				threads[t] = append(threads[t], r.Intn(len(cs)))
			}
		}
		s := zsched.Schedule{Order: r.Perm(k)}
		at := 0
		for _, t := range s.Order {
			if st := steps[threads[t][0]]; st > 0 && r.Intn(3) > 0 {
				at += 1 + r.Intn(st)
				s.Switch = append(s.Switch, zsched.At{Step: at, To: (t + 1 + r.Intn(k-1)) % k})
			}
		}
		if !run(threads, s) {
			return
		}
	}
}

// together makes the first calls of the process: all threads make one of the same operation at the same moment, for
// one operation after the other.
func together(ops [][]int, threads int, r *rand.Rand, call func(int)) {
	for _, is := range ops {
		since.Store(time.Now().UnixNano())
		var here atomic.Int64
		var wg sync.WaitGroup
		for g := 0; g < threads; g++ {
			wg.Add(1)
			go func(i int) {
				defer wg.Done()
				here.Add(1)
				for n := 0; here.Load() < int64(threads); n++ {
					if n > 20000 {
						runtime.Gosched()
					}
				}
				call(i)
			}(is[r.Intn(len(is))])
		}
		wg.Wait()
	}
}

// interrupted makes the first calls of the process in threads of zsched: one is left in the middle, others are made.
func interrupted(ops [][]int, r *rand.Rand, call func(int)) {
	for _, is := range ops {
		since.Store(time.Now().UnixNano())
		a, b, c := is[r.Intn(len(is))], is[r.Intn(len(is))], is[r.Intn(len(is))]
		fns := []func(){func() { call(a) }, func() { call(b) }, func() { call(c) }}
		at := 1 + int(float64(int(1)<<r.Intn(9))*(1+r.Float64()))
		s := zsched.Schedule{Order: []int{0, 1, 2}, Switch: []zsched.At{{Step: at, To: 1}}}
		if r.Intn(3) == 0 {
			s.Switch = append(s.Switch, zsched.At{Step: at + 1 + r.Intn(40), To: 2})
		}
		if out := zsched.Run(fns, s); out.Stuck || out.Deadlock {
			return
		}
	}
}

// parLine makes a batch of calls: one after the other, then all of them at the same time from several goroutines,
// each in an order of its own, then one after the other again.  Calls that are given equal bytes share one slice.
// Every call becomes one line of the trace, with all the different answers it gave.
func parLine(o obj) []obj {
	calls := o["calls"].([]any)
	size := 65536
	for _, c := range calls {
		for _, f := range byteFields {
			if v, ok := c.(obj)[f].([]any); ok {
				size += len(v) + pad + spare
			}
		}
	}
	ar := newArena(size)
	defer ar.free()
	shared := map[string][]byte{}
	slice := func(b []byte) []byte {
		if s, ok := shared[string(b)]; ok && flag(o, "share") {
			return s
		}
		s := ar.slice(b)
		shared[string(b)] = s
		return s
	}
	cs := make([]libCall, len(calls))
	var objects *ciphers
	if flag(o, "share") {
		objects = &ciphers{has: map[string]blockCipher{}}
	}
	for i, c := range calls {
		craft(c.(obj))
		cs[i] = place(c.(obj), slice)
		cs[i].ciphers = objects
	}
	before := ar.snapshot()

	answers := make([][]answer, len(cs))
	var mu sync.Mutex
	note := func(i int, a answer) {
		mu.Lock()
		defer mu.Unlock()
		for _, s := range answers[i] {
			if s.same(a) {
				return
			}
		}
		same := 0 // answers of the kind
		for _, s := range answers[i] {
			if (s.err == nil) == (a.err == nil) && s.panicked == a.panicked {
				same++
			}
		}
		if same < 6 {
			answers[i] = append(answers[i], a)
		}
	}
	type kept struct {
		i    int
		live []byte
		copy answer
	}
	var held []kept
	once := func(i int, keep bool) {
		a := cs[i].run()
		live := a.out
		a.out = append([]byte{}, live...)
		note(i, a)
		if keep {
			held = append(held, kept{i, live, a})
			return
		}
		for k := range live { // the result is the caller's: what it does with it must not show in other answers
			live[k] ^= 0x5C
		}
	}

	if first, _ := o["first"].(string); first != "" {
		r := rand.New(rand.NewSource(int64(num(o, "seed", 1))))
		at, ops := map[string]int{}, [][]int{}
		for i := range cs {
			k, ok := at[cs[i].op]
			if !ok {
				k = len(ops)
				at[cs[i].op] = k
				ops = append(ops, nil)
			}
			ops[k] = append(ops[k], i)
		}
		r.Shuffle(len(ops), func(i, j int) { ops[i], ops[j] = ops[j], ops[i] })
		if first == "interrupted" {
			interrupted(ops, r, func(i int) { once(i, false) })
		} else {
			together(ops, 4, r, func(i int) { once(i, false) })
		}
	}
	for i := range cs {
		once(i, true)
	}
	if n := num(o, "schedules", 0); n > 0 {
		controlled(cs, n, rand.New(rand.NewSource(int64(num(o, "seed", 1)))), func(i int) { once(i, false) })
	}
	threads, rounds := num(o, "threads", 8), num(o, "rounds", 3)
	var start, wg sync.WaitGroup
	start.Add(1)
	for g := 0; g < threads; g++ {
		wg.Add(1)
		go func(r *rand.Rand) {
			defer wg.Done()
			start.Wait()
			for k := 0; k < rounds; k++ {
				since.Store(time.Now().UnixNano())
				for _, i := range r.Perm(len(cs)) {
					once(i, false)
				}
			}
		}(rand.New(rand.NewSource(int64(g)*7919 + at.Load())))
	}
	start.Done()
	wg.Wait()
	for i := len(cs) - 1; i >= 0; i-- {
		once(i, false)
	}
	for _, h := range held { // results that were handed out earlier are still what they were
		a := h.copy
		a.out = append([]byte{}, h.live...)
		note(h.i, a)
	}
	after := ar.snapshot()

	lines := []obj{}
	for i := range cs {
		l := cs[i].o
		l["res"] = answers[i][0].obj()
		again := []obj{}
		for _, a := range answers[i][1:] {
			again = append(again, a.obj())
		}
		l["again"], l["heap"] = again, [][3][]int{}
		if i == 0 {
			for k := range before {
				if string(before[k]) != string(after[k]) {
					l["heap"] = [][3][]int{{ints(before[k]), ints(after[k]), ints(after[k])}}
				}
			}
		}
		lines = append(lines, l)
	}
	return lines
}
