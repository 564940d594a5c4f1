package main

import (
	"encoding/json"
	"errors"
	"math/rand"
	"net/http"
	"net/http/httptest"
	"runtime"
	"sync"
	"sync/atomic"
	"time"

	"github.com/moov-io/base/log"
	"github.com/moov-io/dukpt/pkg/server"
	"github.com/moov-io/dukpt/zz_verif/zsched"
)

// A scenario: some operations to set the scene, then several threads of operations at the same time, on one fresh
// service.  It is carried out many times; every different history that comes out is one line of the trace.
//
//	how "stress"  threads are goroutines; the repository takes its time now and then
//	how "sched"   threads are zsched's, for drivers built with instrumented packages: one after the other, one or two
//	              changes from one thread to another at every step or pair of steps, and at random steps
//	how "spin"    see spinLine

type concRun struct {
	bases []any
	iks   map[int]string
	clock atomic.Int64
	repo  server.Repository
	svc   server.Service
	web   http.Handler
}

// The initial keys that the base keys will have.
func initialKeys(bases []any) map[int]string {
	iks := map[int]string{}
	for i, b := range bases {
		m := server.NewMachine(baseKey(b.(obj)))
		guarded(func() ([]byte, error) {
			if newService().CreateMachine(m) == nil {
				iks[i] = m.InitialKey
			}
			return nil, nil
		})
	}
	return iks
}

type client struct {
	c   *concRun
	svc *svcRun
	web *httpRun
}

func (c *concRun) client() *client {
	iks := func() map[int]string {
		m := map[int]string{}
		for k, v := range c.iks {
			m[k] = v
		}
		return m
	}
	return &client{c,
		&svcRun{svc: c.svc, repo: &repository{Repository: c.repo}, bases: c.bases, iks: iks(), cts: map[string]string{}},
		&httpRun{root: "http://dukpt.test", iks: iks(), cts: map[string]string{}, send: func(q *http.Request) (*http.Response, error) {
			w := httptest.NewRecorder()
			_, _, p, _ := guarded(func() ([]byte, error) { c.web.ServeHTTP(w, q); return nil, nil })
			if p {
				return nil, errors.New("panic")
			}
			return w.Result(), nil
		}}}
}

func (k *client) do(o obj) obj {
	inv := k.c.clock.Add(1)
	var l obj
	if _, ok := o["path"]; ok {
		l = k.web.request(o)
	} else {
		l = k.svc.step(o)
	}
	l["inv"], l["res"] = inv, k.c.clock.Add(1)
	return l
}

// slowRepository takes its time now and then.
type slowRepository struct {
	server.Repository
	often int
}

func (r slowRepository) dawdle() {
	switch n := rand.Intn(100); {
	case n < r.often:
		time.Sleep(time.Duration(rand.Intn(40)) * time.Microsecond)
	case n < 3*r.often:
		runtime.Gosched()
	}
}
func (r slowRepository) StoreMachine(m *server.Machine) error {
	r.dawdle()
	defer r.dawdle()
	return r.Repository.StoreMachine(m)
}
func (r slowRepository) FindMachine(ik string) (*server.Machine, error) {
	r.dawdle()
	defer r.dawdle()
	return r.Repository.FindMachine(ik)
}
func (r slowRepository) FindAllMachines() []*server.Machine {
	r.dawdle()
	defer r.dawdle()
	return r.Repository.FindAllMachines()
}
func (r slowRepository) DeleteMachine(ik string) error {
	r.dawdle()
	defer r.dawdle()
	return r.Repository.DeleteMachine(ik)
}

func concLine(o obj) []obj {
	if str(o, "how") == "spin" {
		return spinLine(o)
	}
	c := &concRun{bases: o["bases"].([]any)}
	first := flag(o, "first") // nothing may have been called in this process yet
	c.iks = map[int]string{}
	if !first {
		c.iks = initialKeys(c.bases)
	}
	threads := o["threads"].([]any)
	lines, seen := []obj{}, map[string]bool{}
	most := num(o, "most", 300)

	// one run, with the threads carried out by together
	once := func(often int, together func(fns []func()) zsched.Outcome) zsched.Outcome {
		since.Store(time.Now().UnixNano())
		c.clock.Store(0)
		repo := server.NewRepositoryInMemory(log.NewNopLogger())
		if often > 0 {
			repo = slowRepository{repo, often}
		}
		c.repo = repo
		c.svc = server.NewService(repo)
		c.web = server.MakeHTTPHandler(c.svc)
		did := make([][]obj, len(threads)+1)
		k := c.client()
		did[0] = []obj{}
		for _, s := range o["setup"].([]any) {
			did[0] = append(did[0], k.do(s.(obj)))
		}
		for b, ik := range k.svc.iks {
			c.iks[b] = ik
		}
		for b, ik := range k.web.iks {
			c.iks[b] = ik
		}
		fns := []func(){}
		for i, t := range threads {
			t, k0 := t, k
			k := c.client()
			for what, ct := range k0.svc.cts { // cipher texts of the setup serve all threads
				k.svc.cts[what] = ct
			}
			for what, ct := range k0.web.cts {
				k.web.cts[what] = ct
			}
			did[i+1] = []obj{}
			fns = append(fns, func() {
				for _, s := range t.([]any) {
					did[i+1] = append(did[i+1], k.do(s.(obj)))
				}
			})
		}
		out := together(fns)
		if out.Stuck {
			return out
		}
		if out.Deadlock {
			lines = append(lines, obj{"from": at.Load(), "threads": did, "hang": true})
			return out
		}
		key, err := json.Marshal(did)
		check(err)
		if !seen[string(key)] && len(lines) < most {
			seen[string(key)] = true
			lines = append(lines, obj{"from": at.Load(), "threads": did, "hang": false})
		}
		return out
	}
	bad := func(out zsched.Outcome) bool { return out.Stuck || out.Deadlock }

	r := rand.New(rand.NewSource(int64(num(o, "seed", 1))))
	runs := 0
	stuck := false
	switch str(o, "how") {
	case "stress":
		for n := num(o, "rounds", 50); runs < n; runs++ {
			once([]int{0, 3, 12, 30}[runs%4], func(fns []func()) zsched.Outcome {
				var ready atomic.Int32
				var wg sync.WaitGroup
				for _, f := range fns {
					wg.Add(1)
					go func() {
						defer wg.Done()
						ready.Add(1)
						for int(ready.Load()) < len(fns) {
							runtime.Gosched()
						}
						f()
					}()
				}
				wg.Wait()
				return zsched.Outcome{}
			})
		}
	case "sched":
		n := len(threads)
		run := func(s zsched.Schedule) zsched.Outcome {
			runs++
			out := once(0, func(fns []func()) zsched.Outcome { return zsched.Run(fns, s) })
			stuck = stuck || out.Stuck
			return out
		}
		order := func(first int) []int {
			o := []int{first}
			for _, i := range r.Perm(n) {
				if i != first {
					o = append(o, i)
				}
			}
			return o
		}
		budget := num(o, "budget", 1000)
		steps := 0
		if first {
			for ; runs < budget && !stuck; steps = 0 {
				at := 1 + int(float64(int(1)<<r.Intn(11))*(1+r.Float64()))
				s := zsched.Schedule{Order: r.Perm(n), Switch: []zsched.At{{Step: at, To: r.Intn(n)}}}
				if r.Intn(3) == 0 {
					s.Switch = append(s.Switch, zsched.At{Step: at + 1 + r.Intn(60), To: r.Intn(n)})
				}
				if bad(run(s)) {
					break
				}
			}
			n = 0
		}
	all:
		for f := 0; f < n; f++ {
			o := order(f)
			out := run(zsched.Schedule{Order: o})
			if bad(out) {
				break all
			}
			if out.Steps > steps {
				steps = out.Steps
			}
			// every single change, as far as the budget goes
			every := 1 + out.Steps*(n-1)*n*3/budget
			for s := 1 + r.Intn(every); s <= out.Steps; s += every {
				for t := 0; t < n; t++ {
					if t != f && bad(run(zsched.Schedule{Order: o, Switch: []zsched.At{{Step: s, To: t}}})) {
						break all
					}
				}
			}
		}
		// every pair of changes, if there are few; else, and for more changes, at random
		if n == 2 && steps*steps <= budget && !stuck {
			for s := 1; s <= steps; s++ {
				for u := s + 1; u <= steps; u++ {
					for f := 0; f < 2; f++ {
						if bad(run(zsched.Schedule{Order: []int{f, 1 - f}, Switch: []zsched.At{{Step: s, To: 1 - f}, {Step: u, To: f}}})) {
							u, s = steps, steps
							break
						}
					}
				}
			}
		}
		for runs < budget && steps > 0 && !stuck {
			s := zsched.Schedule{Order: r.Perm(n)}
			step := 0
			for k := 1 + r.Intn(4); k > 0; k-- {
				step += 1 + r.Intn(1+steps*2/(3*k))
				s.Switch = append(s.Switch, zsched.At{Step: step, To: r.Intn(n)})
			}
			if bad(run(s)) {
				break
			}
		}
	default:
		fatal("unknown how")
	}
	if stuck {
		return []obj{{"from": at.Load(), "stuck": true}}
	}
	if len(lines) > 0 {
		lines[0]["runs"] = runs
	}
	return lines
}

// spinLine lets readers look at one machine all the time while writers advance it.  A reader's look is recorded with
// the number of advances that had succeeded before it began (lo) and had begun before it ended (hi); looks at an equal
// machine one after the other are recorded once, with the largest lo and the smallest hi of them.
func spinLine(o obj) []obj {
	since.Store(time.Now().UnixNano())
	b := o["bases"].([]any)[0].(obj)
	svc := newService()
	m := server.NewMachine(baseKey(b))
	if svc.CreateMachine(m) != nil {
		return []obj{{"from": at.Load(), "b": b, "made": false, "m": machineObj(m), "writes": [][]obj{}, "reads": [][]obj{}}}
	}
	first := machineObj(m)
	ik := m.InitialKey
	var begun, ended atomic.Int64
	nw, nr, n := num(o, "writers", 2), num(o, "readers", 4), num(o, "n", 100)
	writes, reads := make([][]obj, nw), make([][]obj, nr)
	var ready atomic.Int32
	barrier := func() {
		ready.Add(1)
		for int(ready.Load()) < nw+nr {
			runtime.Gosched()
		}
	}
	var ww, rw sync.WaitGroup
	var stop atomic.Bool
	for i := range writes {
		writes[i] = []obj{}
		ww.Add(1)
		go func() {
			defer ww.Done()
			barrier()
			for k := 0; k < n; k++ {
				begun.Add(1)
				var got *server.Machine
				_, err, p, _ := guarded(func() ([]byte, error) {
					x, err := svc.MakeNextKSN(ik)
					got = x
					return nil, err
				})
				if err == nil && !p { // one that fails is no advance
					ended.Add(1)
				}
				l := obj{"kind": kindOf(err), "m": machineObj(got)}
				if p {
					l["kind"] = "panic"
				}
				writes[i] = append(writes[i], l)
			}
		}()
	}
	for i := range reads {
		reads[i] = []obj{}
		rw.Add(1)
		go func() {
			defer rw.Done()
			barrier()
			var last server.Machine
			var lo, hi int64
			put := func() {
				if len(reads[i]) < 1000 {
					reads[i] = append(reads[i], obj{"m": machineObj(&last), "lo": lo, "hi": hi})
				}
			}
			none := true
			for !stop.Load() {
				l := ended.Load()
				var got *server.Machine
				guarded(func() ([]byte, error) {
					if i%2 == 0 {
						got, _ = svc.GetMachine(ik)
					} else if ms := svc.GetMachines(); len(ms) == 1 {
						got = ms[0]
					}
					return nil, nil
				})
				if got == nil {
					got = &server.Machine{}
				}
				now := *got
				h := begun.Load()
				if !none && now == last {
					if l > lo {
						lo = l
					}
					if h < hi {
						hi = h
					}
					continue
				}
				if !none {
					put()
				}
				none, last, lo, hi = false, now, l, h
			}
			if !none { // it may have come too late to look
				put()
			}
		}()
	}
	ww.Wait()
	stop.Store(true)
	rw.Wait()
	return []obj{{"from": at.Load(), "b": b, "made": true, "m": first, "writes": writes, "reads": reads}}
}
