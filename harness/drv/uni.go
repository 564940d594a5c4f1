package main

import (
	"math/rand"
	"sync"

	"github.com/moov-io/dukpt/pkg/server"
)

// uniLine makes a batch of unified operations, which take their values by name and as texts: one after the other,
// at the same time from several goroutines, and one after the other again.  Every call is a line of the trace, with
// all the different answers it gave, and what undoing its first answer gave.
func uniLine(o obj) []obj {
	calls := o["calls"].([]any)
	answers := make([][]answer, len(calls))
	var mu sync.Mutex
	once := func(i int) {
		c := calls[i].(obj)
		a := unified(str(c, "op"), uniParams(c["p"].(obj)))
		mu.Lock()
		defer mu.Unlock()
		for _, s := range answers[i] {
			if s.same(a) {
				return
			}
		}
		if len(answers[i]) < 6 {
			answers[i] = append(answers[i], a)
		}
	}
	for i := range calls {
		once(i)
	}
	var wg sync.WaitGroup
	for g := 0; g < num(o, "threads", 4); g++ {
		wg.Add(1)
		go func(r *rand.Rand) {
			defer wg.Done()
			for _, i := range r.Perm(len(calls)) {
				once(i)
			}
		}(rand.New(rand.NewSource(int64(g)*7919 + at.Load())))
	}
	wg.Wait()
	for i := len(calls) - 1; i >= 0; i-- {
		once(i)
	}
	lines := []obj{}
	for i := range calls {
		c := calls[i].(obj)
		c["res"] = answers[i][0].obj()
		again := []obj{}
		for _, a := range answers[i][1:] {
			again = append(again, a.obj())
		}
		c["again"] = again
		if a := answers[i][0]; a.err == nil && !a.panicked {
			p := uniParams(c["p"].(obj))
			switch c["op"] {
			case "ep":
				p.PIN = string(a.out)
				c["back"] = unified("dp", p).obj()
			case "en":
				p.Ciphertext = string(a.out)
				c["back"] = unified("de", p).obj()
			}
		}
		lines = append(lines, c)
	}
	return lines
}

func uniParams(p obj) server.UnifiedParams {
	return server.UnifiedParams{Algorithm: str(p, "alg"), AlgorithmKey: str(p, "keytype"), BKD: text(p, "bdk"), KSN: text(p, "ksn"),
		IK: text(p, "ik"), TK: text(p, "tk"), PIN: text(p, "pin"), PAN: text(p, "pan"), Format: text(p, "fmt"), MacType: str(p, "mactype"),
		Plaintext: text(p, "text"), Ciphertext: text(p, "ct"), Action: str(p, "action"), IV: text(p, "iv")}
}

func unified(op string, p server.UnifiedParams) answer {
	calls := map[string]server.WrapperCall{"ik": server.InitialKey, "tk": server.TransactionKey, "ep": server.EncryptPin, "dp": server.DecryptPin,
		"mac": server.GenerateMac, "en": server.EncryptData, "de": server.DecryptData}
	out, err, panicked, wrote := guarded(func() ([]byte, error) {
		if op == "valid" {
			return []byte{}, p.ValidateAlgorithm()
		}
		return str2(calls[op](p))
	})
	if err != nil {
		out = nil
	}
	return answer{out, err, panicked, wrote}
}
