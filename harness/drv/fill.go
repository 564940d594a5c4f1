package main

import (
	"encoding/hex"
	"encoding/json"
	"net/http/httptest"
	"strings"
	"sync"
	"sync/atomic"
	"time"

	"github.com/moov-io/base/log"
	"github.com/moov-io/dukpt/pkg/server"
)

// fillLine encrypts PINs n times over: the calls of the line in turn, again and again, by one goroutine or by several
// at the same time, through one of the layers.  What came out is recorded in the order in which it came out, or, for
// several goroutines, their first ones, then their second ones, and so on; with the number (from 0) of the call that each is of.
func fillLine(o obj) []obj {
	calls, n, threads := o["calls"].([]any), num(o, "n", 100), num(o, "threads", 1)
	repo := server.NewRepositoryInMemory(log.NewNopLogger())
	svc := server.NewService(repo)
	web := server.MakeHTTPHandler(svc)
	iks := make([]string, len(calls))
	layer := str(o, "layer")
	if layer == "svc" || layer == "http" {
		for i, c := range calls {
			m := server.NewMachine(server.BaseKey{Algorithm: alg(c.(obj)), AlgorithmKey: str(c.(obj), "type"),
				BaseDerivativeKey: hex.EncodeToString(bytesOf(c.(obj)["bdk"])), KeySerialNumber: hex.EncodeToString(bytesOf(c.(obj)["ksn"]))})
			svc.CreateMachine(m) // where that fails, nothing will come out
			iks[i] = m.InitialKey
		}
	}
	once := func(i int) []int {
		c := calls[i].(obj)
		since.Store(time.Now().UnixNano())
		out, err, p, _ := guarded(func() ([]byte, error) {
			pin, pan, fmt := text(c, "pin"), text(c, "pan"), text(c, "fmt")
			switch layer {
			case "lib":
				return place(c, func(b []byte) []byte { return b }).call()
			case "uni":
				s, err := server.EncryptPin(server.UnifiedParams{Algorithm: alg(c), AlgorithmKey: str(c, "type"), KSN: hex.EncodeToString(bytesOf(c["ksn"])),
					TK: hex.EncodeToString(bytesOf(c["key"])), PIN: pin, PAN: pan, Format: fmt})
				return dehex(s), err
			case "svc":
				s, err := svc.EncryptPin(iks[i], pin, pan, fmt)
				return dehex(s), err
			case "http":
				body, err := json.Marshal(obj{"pin": pin, "pan": pan, "format": fmt})
				check(err)
				w := httptest.NewRecorder()
				web.ServeHTTP(w, httptest.NewRequest("POST", "/encrypt_pin/"+iks[i], strings.NewReader(string(body))))
				var a struct{ Encrypted string }
				json.Unmarshal(w.Body.Bytes(), &a)
				return dehex(a.Encrypted), nil
			case "cli":
				t := func(n string, v []byte) obj { return obj{"kind": "text", "n": "ep." + n, "v": anys(ints(v))} }
				fl := []any{obj{"kind": "name", "n": "algorithm", "v": alg(c)}, obj{"kind": "bool", "n": "ep", "v": ""},
					t("tk", []byte(hex.EncodeToString(bytesOf(c["key"])))), t("ksn", []byte(hex.EncodeToString(bytesOf(c["ksn"])))),
					t("pin", []byte(pin)), t("pan", []byte(pan)), t("format", []byte(fmt))}
				if alg(c) == "aes" {
					fl = append(fl, obj{"kind": "name", "n": "algorithm.key_type", "v": str(c, "type")})
				}
				said := bytesFrom(invoke(obj{"flags": fl}, "")["e"].(obj)["said"].([]int))
				return dehex(strings.TrimSuffix(strings.TrimPrefix(string(said), "RESULT: "), "\n")), nil
			}
			fatal("unknown layer " + layer)
			return nil, nil
		})
		if err != nil || p {
			return []int{}
		}
		return ints(out)
	}
	all := make([][][]int, threads)
	var here atomic.Int64
	var wg sync.WaitGroup
	for g := range all {
		wg.Add(1)
		go func() {
			defer wg.Done()
			here.Add(1)
			for here.Load() < int64(threads) {
			}
			for k := 0; k < (n+threads-1)/threads; k++ {
				all[g] = append(all[g], once((g+k)%len(calls)))
			}
		}()
	}
	wg.Wait()
	outs, of := [][]int{}, []int{}
	for k := range all[0] {
		for g := range all {
			outs = append(outs, all[g][k])
			of = append(of, (g+k)%len(calls))
		}
	}
	o["outs"], o["of"] = outs, of
	return []obj{o}
}

func alg(c obj) string { return str(c, "op")[:3] }

func dehex(s string) []byte {
	b, _ := hex.DecodeString(s)
	return b
}

func anys(v []int) []any {
	out := make([]any, len(v))
	for i := range v {
		out[i] = float64(v[i])
	}
	return out
}
