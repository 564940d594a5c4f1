package main

import (
	"errors"
	"fmt"
	"slices"
	"strings"

	"github.com/moov-io/base/log"
	"github.com/moov-io/dukpt/pkg/server"
)

// A history of service operations, carried out one after the other on a fresh service.
//
// Operations refer to machines by the base key they were created from ("base", an index into the history's
// "bases"), because the script cannot know the initial keys; an "ik" given in the script is used as it is.

type svcRun struct {
	svc   server.Service
	repo  *repository // nil: the service's own
	bases []any
	iks   map[int]string    // base -> initial key, once a creation told
	cts   map[string]string // base/op -> last cipher text
	held  []*server.Machine
	slice []*server.Machine // the last list handed out
}

func newService() server.Service {
	return server.NewService(server.NewRepositoryInMemory(log.NewNopLogger()))
}

// repository is one that fails when told to.
type repository struct {
	server.Repository
	fail  string // how calls fail, if at all
	after int    // how many do not before the first that does
	once  bool   // only one does
	met   bool   // one has
}

func (r *repository) failure() error {
	if r.fail == "" {
		return nil
	}
	if r.after > 0 {
		r.after--
		return nil
	}
	if r.met && r.once {
		return nil
	}
	r.met = true
	switch r.fail {
	case "notfound":
		return server.ErrNotFound
	case "exists":
		return server.ErrAlreadyExists
	case "wrapped":
		return fmt.Errorf("store: %w", server.ErrAlreadyExists)
	}
	return errors.New("the store is out of order")
}

func (r *repository) StoreMachine(m *server.Machine) error {
	if err := r.failure(); err != nil {
		return err
	}
	return r.Repository.StoreMachine(m)
}

func (r *repository) FindMachine(ik string) (*server.Machine, error) {
	if err := r.failure(); err != nil {
		return nil, err
	}
	return r.Repository.FindMachine(ik)
}

func (r *repository) DeleteMachine(ik string) error {
	if err := r.failure(); err != nil {
		return err
	}
	return r.Repository.DeleteMachine(ik)
}

func svcLine(o obj) []obj {
	repo := &repository{Repository: server.NewRepositoryInMemory(log.NewNopLogger())}
	r := &svcRun{svc: server.NewService(repo), repo: repo, bases: o["bases"].([]any), iks: map[int]string{}, cts: map[string]string{}}
	lines := []obj{{"op": "start"}}
	for _, s := range o["ops"].([]any) {
		rest(s.(obj))
		if l := r.step(s.(obj)); l != nil {
			lines = append(lines, l)
		}
	}
	return lines
}

func kindOf(err error) string {
	switch {
	case err == nil:
		return "ok"
	case errors.Is(err, server.ErrNotFound):
		return "notfound"
	case errors.Is(err, server.ErrAlreadyExists):
		return "exists"
	}
	return "other"
}

func machineObj(m *server.Machine) obj {
	if m == nil {
		return obj{"alg": "nil", "akey": "", "bdk": codes(""), "ksn0": codes(""), "ik": codes(""), "ksn": codes(""), "tk": codes("")}
	}
	return obj{"alg": m.Algorithm, "akey": m.AlgorithmKey, "bdk": codes(m.BaseDerivativeKey), "ksn0": codes(m.KeySerialNumber),
		"ik": codes(m.InitialKey), "ksn": codes(m.CurrentKSN), "tk": codes(m.TransactionKey)}
}

func machineObjs(ms []*server.Machine) []obj {
	out := []obj{}
	for _, m := range ms {
		out = append(out, machineObj(m))
	}
	return out
}

func baseKey(b obj) server.BaseKey {
	return server.BaseKey{Algorithm: str(b, "alg"), AlgorithmKey: str(b, "akey"), BaseDerivativeKey: text(b, "bdk"), KeySerialNumber: text(b, "ksn")}
}

// ikOf is the initial key an operation names.
func (r *svcRun) ikOf(o obj) string {
	if _, ok := o["ik"]; ok {
		return text(o, "ik")
	}
	ik, ok := r.iks[num(o, "base", -1)]
	if !ok {
		return "unknown"
	}
	return changed(ik, opt(o, "mod"))
}

// changed is a text that is nearly ik.
func changed(ik, how string) string {
	n := len(ik)
	if n < 4 {
		return ik
	}
	switch how {
	case "upper":
		return strings.ToUpper(ik)
	case "title":
		return strings.ToUpper(ik[:n/2]) + ik[n/2:]
	case "swap":
		b := []byte(ik)
		for i, c := range b {
			if c >= 'a' && c <= 'f' {
				b[i] = c - 32
				break
			}
		}
		return string(b)
	case "cut":
		return ik[:n-1]
	case "cut2":
		return ik[:n-2]
	case "half":
		return ik[:n/2]
	case "head":
		return ik[1:]
	case "tail":
		return ik[n-n/2:]
	case "pad0":
		return ik + "0"
	case "pad00":
		return ik + "00"
	case "space":
		return ik + " "
	case "lead":
		return " " + ik
	case "newline":
		return ik + "\n"
	case "nul":
		return ik + "\x00"
	case "twice":
		return ik + ik
	case "reverse":
		b := []byte(ik)
		slices.Reverse(b)
		return string(b)
	case "0x":
		return "0x" + ik
	case "left32":
		return ik[:min(n, 32)]
	case "left16":
		return ik[:min(n, 16)]
	case "left48":
		return ik[:min(n, 48)]
	case "right32":
		return ik[n-min(n, 32):]
	case "first", "middle":
		b := []byte(ik)
		i := 0
		if how == "middle" {
			i = n / 2
		}
		b[i] = "0123456789abcdef0"[strings.IndexByte("0123456789abcdef", b[i])+1]
		return string(b)
	case "parity": // the lowest bit of every byte
		b := []byte(ik)
		for i := 1; i < n; i += 2 {
			b[i] = "1032547698badcfe"[strings.IndexByte("0123456789abcdef", b[i])&15]
		}
		return string(b)
	case "halves":
		return ik[n/2:] + ik[:n/2]
	case "last":
		return ik[:n-1] + string("0123456789abcdef0"[strings.IndexByte("0123456789abcdef", ik[n-1])+1])
	}
	return ik
}

func (r *svcRun) step(o obj) (l obj) {
	op := str(o, "op")
	l = obj{"op": op, "kind": "", "said": []int{}, "ms": []obj{}, "panic": false}
	switch op {
	case "create", "createnil", "list", "poke", "peek", "store", "storenil", "all":
	default:
		l["ik"] = codes(r.ikOf(o))
	}
	var held []*server.Machine
	if r.repo != nil {
		r.repo.fail, r.repo.after, r.repo.once, r.repo.met = opt(o, "fail"), num(o, "after", 0), flag(o, "once"), false
	}
	_, _, panicked, _ := guarded(func() ([]byte, error) {
		held = r.do(op, o, l)
		return nil, nil
	})
	if r.repo != nil {
		if r.repo.met {
			l["fail"] = r.repo.fail
		}
		r.repo.fail = ""
	}
	if panicked {
		l["panic"], l["kind"] = true, "panic"
		return l
	}
	if l["op"] == "skip" {
		return nil
	}
	if len(held) > 0 {
		l["ms"] = machineObjs(held)
		_, again := l["h"] // held already
		switch {
		case again, op == "find", op == "all": // no snapshots
		default:
			r.held = append(r.held, held...)
		}
	}
	if flag(o, "list") {
		l["list"] = machineObjs(r.svc.GetMachines())
	}
	return l
}

// do carries out an operation and returns the machines it hands out.
func (r *svcRun) do(op string, o, l obj) []*server.Machine {
	one := func(m *server.Machine, err error) []*server.Machine {
		l["kind"] = kindOf(err)
		if err != nil {
			return nil
		}
		return []*server.Machine{m}
	}
	said := func(s string, err error) []*server.Machine {
		l["kind"] = kindOf(err)
		if err == nil {
			l["said"] = codes(s)
		}
		return nil
	}
	ik := ""
	if v, ok := l["ik"].([]int); ok {
		for _, c := range v {
			ik += string([]byte{byte(c)})
		}
	}
	ct := func(what string) string {
		key := string(rune(num(o, "base", -1))) + what
		s, ok := r.cts[key]
		if _, given := o["ct"]; given || !ok {
			s = text(o, "ctelse")
			if given {
				s = text(o, "ct")
			}
		}
		l["ct"] = codes(s)
		return s
	}
	keep := func(what, s string, err error) (string, error) {
		if err == nil {
			r.cts[string(rune(num(o, "base", -1)))+what] = s
		}
		return s, err
	}
	copyArgs := func(names ...string) {
		for _, n := range names {
			l[n] = o[n]
		}
	}

	switch op {
	case "create":
		n := num(o, "base", 0)
		b := r.bases[n].(obj)
		m := server.NewMachine(baseKey(b))
		if flag(o, "junk") {
			m.InitialKey, m.CurrentKSN, m.TransactionKey = "junk", "junk", "junk"
		}
		with := opt(o, "with") // a machine that a caller holds, or a copy of one
		if with != "" {
			h := num(o, "h", 0) % max(len(r.held), 1)
			if len(r.held) == 0 || r.held[h] == nil {
				l["op"] = "skip"
				return nil
			}
			if with == "same" {
				m = r.held[h]
				l["h"] = h + 1
			} else {
				*m = *r.held[h]
			}
			b = obj{"alg": m.Algorithm, "akey": m.AlgorithmKey, "bdk": codes(m.BaseDerivativeKey), "ksn": codes(m.KeySerialNumber)}
		}
		key := m.BaseKey
		l["b"] = b
		l["sub"] = machineObj(m)
		err := r.svc.CreateMachine(m)
		l["kind"] = kindOf(err)
		if err == nil {
			for i, other := range r.bases {
				if i == n && with == "" || with != "" && baseKey(other.(obj)) == key {
					r.iks[i] = m.InitialKey
				}
			}
		}
		return []*server.Machine{m}
	case "createnil":
		l["kind"] = kindOf(r.svc.CreateMachine(nil))
		return nil
	case "store": // past the service
		v := o["m"].(obj)
		l["m"] = v
		l["kind"] = kindOf(r.repo.StoreMachine(&server.Machine{
			BaseKey:    server.BaseKey{Algorithm: str(v, "alg"), AlgorithmKey: str(v, "akey"), BaseDerivativeKey: text(v, "bdk"), KeySerialNumber: text(v, "ksn0")},
			InitialKey: text(v, "ik"), CurrentKSN: text(v, "ksn"), TransactionKey: text(v, "tk")}))
		return nil
	case "storenil":
		l["kind"] = kindOf(r.repo.StoreMachine(nil))
		return nil
	case "find":
		return one(r.repo.FindMachine(ik))
	case "drop":
		l["kind"] = kindOf(r.repo.DeleteMachine(ik))
		return nil
	case "all":
		l["kind"] = "ok"
		return r.repo.FindAllMachines()
	case "get":
		return one(r.svc.GetMachine(ik))
	case "next":
		return one(r.svc.MakeNextKSN(ik))
	case "delete":
		l["kind"] = kindOf(r.svc.DeleteMachine(ik))
		return nil
	case "list":
		ms := r.svc.GetMachines()
		l["kind"] = "ok"
		out := append([]*server.Machine{}, ms...)
		if flag(o, "smash") { // the slice is the caller's, too
			for i := range ms {
				ms[i] = nil
			}
			ms = append(ms[:0], &server.Machine{InitialKey: "smashed"})
			_ = ms
		}
		return out
	case "peek", "poke":
		if len(r.held) == 0 {
			l["op"] = "skip"
			return nil
		}
		h := num(o, "h", 0) % len(r.held)
		l["h"] = h + 1
		m := r.held[h]
		if op == "poke" && m != nil {
			*m = server.Machine{BaseKey: server.BaseKey{Algorithm: "aes", AlgorithmKey: "AES128", BaseDerivativeKey: "poked", KeySerialNumber: "poked"},
				InitialKey: "poked", CurrentKSN: "poked", TransactionKey: "poked"}
		}
		return []*server.Machine{m}
	case "ep":
		copyArgs("pin", "pan", "fmt")
		s, err := r.svc.EncryptPin(ik, text(o, "pin"), text(o, "pan"), text(o, "fmt"))
		return said(keep("p", s, err))
	case "dp":
		copyArgs("pan", "fmt")
		return said(r.svc.DecryptPin(ik, ct("p"), text(o, "pan"), text(o, "fmt")))
	case "mac":
		copyArgs("text", "action", "mactype")
		return said(r.svc.GenerateMac(ik, text(o, "text"), str(o, "action"), str(o, "mactype")))
	case "en":
		copyArgs("text", "action", "iv")
		s, err := r.svc.EncryptData(ik, text(o, "text"), str(o, "action"), text(o, "iv"))
		return said(keep("d", s, err))
	case "de":
		copyArgs("action", "iv")
		return said(r.svc.DecryptData(ik, ct("d"), str(o, "action"), text(o, "iv")))
	}
	fatal("unknown operation " + op)
	return nil
}
