package main

import (
	"bytes"
	"sync"

	"github.com/moov-io/dukpt/encryption"
	"github.com/moov-io/dukpt/pkg"
	"github.com/moov-io/dukpt/pkg/aes"
	"github.com/moov-io/dukpt/pkg/des"
)

// A libCall is a call with its byte arguments already placed in memory.
type libCall struct {
	op      string
	o       obj
	args    map[string][]byte
	ciphers *ciphers // nil: every call makes its own
}

var byteFields = []string{"bdk", "ksn", "ik", "key", "ct", "iv", "block", "data"}

func place(o obj, slice func([]byte) []byte) libCall {
	c := libCall{op: str(o, "op"), o: o, args: map[string][]byte{}}
	for _, f := range byteFields {
		v, ok := o[f]
		if !ok {
			continue
		}
		b := bytesOf(v)
		if len(b) == 0 && flag(o, "nil") {
			c.args[f] = nil
			continue
		}
		c.args[f] = slice(b)
	}
	return c
}

func (c libCall) run() answer {
	out, err, p, w := guarded(func() ([]byte, error) { return c.call() })
	if err != nil {
		out = nil
	}
	return answer{out, err, p, w}
}

func str2(s string, err error) ([]byte, error) { return []byte(s), err }

func u32(v uint32) []byte { return []byte{byte(v >> 24), byte(v >> 16), byte(v >> 8), byte(v)} }

func (c libCall) call() ([]byte, error) {
	a, o := c.args, c.o
	switch c.op {
	case "des.ik":
		return des.DerivationOfInitialKey(a["bdk"], a["ksn"])
	case "des.tk":
		return des.DeriveCurrentTransactionKey(a["ik"], a["ksn"])
	case "des.ep":
		return des.EncryptPin(a["key"], text(o, "pin"), text(o, "pan"), text(o, "fmt"))
	case "des.dp":
		return str2(des.DecryptPin(a["key"], a["ct"], text(o, "pan"), text(o, "fmt")))
	case "des.mac":
		return des.GenerateMac(a["key"], text(o, "text"), str(o, "action"))
	case "des.en":
		return des.EncryptData(a["key"], a["iv"], text(o, "text"), str(o, "action"))
	case "des.de":
		return str2(des.DecryptData(a["key"], a["ct"], a["iv"], str(o, "action")))
	case "aes.ik":
		return aes.DerivationOfInitialKey(a["bdk"], a["ksn"])
	case "aes.tk":
		return aes.DeriveCurrentTransactionKey(a["ik"], a["ksn"])
	case "aes.ep":
		return aes.EncryptPin(a["key"], a["ksn"], text(o, "pin"), text(o, "pan"), str(o, "type"))
	case "aes.dp":
		return str2(aes.DecryptPin(a["key"], a["ksn"], a["ct"], text(o, "pan"), str(o, "type")))
	case "aes.cmac":
		return aes.GenerateCMAC(a["key"], a["ksn"], text(o, "text"), str(o, "type"), str(o, "action"))
	case "aes.hmac":
		return aes.GenerateHMAC(a["key"], a["ksn"], text(o, "text"), str(o, "type"), str(o, "action"))
	case "aes.en":
		return aes.EncryptData(a["key"], a["ksn"], a["iv"], text(o, "text"), str(o, "type"), str(o, "action"))
	case "aes.de":
		return str2(aes.DecryptData(a["key"], a["ksn"], a["ct"], a["iv"], str(o, "type"), str(o, "action")))
	case "ksn.des":
		return pkg.GenerateNextDesKsn(a["ksn"])
	case "ksn.aes":
		return pkg.GenerateNextAesKsn(a["ksn"])
	case "ksn.valid":
		if pkg.IsValidAesKsn(a["ksn"]) {
			return []byte{1}, nil
		}
		return []byte{0}, nil
	case "ksn.tcdes":
		return u32(pkg.GetDesTcFromKsn(a["ksn"])), nil
	case "ksn.tcaes":
		return u32(pkg.GetAesTcFromKsn(a["ksn"])), nil
	case "hex.dec":
		return pkg.HexDecode(text(o, "text")), nil
	case "hex.enc":
		return []byte(pkg.HexEncode(a["data"])), nil
	case "hex.decrow", "hex.encrow": // every last byte
		var out []byte
		for b := 0; b < 256; b++ {
			t := append(bytes.Clone(a["data"]), byte(b))
			var r []byte
			if c.op == "hex.decrow" {
				r = pkg.HexDecode(string(t))
			} else {
				r = []byte(pkg.HexEncode(t))
			}
			out = append(append(out, byte(len(r))), r...)
		}
		return out, nil
	case "ecb.aes.seq", "ecb.des.seq", "ecb.tdes.seq":
		return c.sequence()
	case "ecb.aes.enc", "ecb.aes.dec":
		e, err := encryption.NewAesECB(a["key"])
		if err != nil {
			return nil, err
		}
		if c.op == "ecb.aes.enc" {
			return e.Encrypt(a["block"])
		}
		return e.Decrypt(a["block"])
	case "ecb.des.enc", "ecb.des.dec", "ecb.tdes.enc", "ecb.tdes.dec":
		var e *encryption.DesECB
		var err error
		if c.op[:5] == "ecb.d" {
			e, err = encryption.NewDesECB(a["key"])
		} else {
			e, err = encryption.NewTripleDesECB(a["key"])
		}
		if err != nil {
			return nil, err
		}
		if c.op[len(c.op)-3:] == "enc" {
			return e.Encrypt(a["block"])
		}
		return e.Decrypt(a["block"])
	}
	fatal("unknown operation " + c.op)
	return nil, nil
}

// blockCipher is what the primitives offer.
type blockCipher interface {
	Encrypt([]byte) ([]byte, error)
	Decrypt([]byte) ([]byte, error)
}

// sequence makes several calls on one cipher object and looks at the results only after the last of them.
func (c libCall) sequence() ([]byte, error) {
	e, err := c.cipher()
	if err != nil {
		return nil, err
	}
	block, at := c.args["block"], 0
	dirs := c.o["dirs"].([]any)
	var outs [][]byte
	for i, n := range c.o["lens"].([]any) {
		to := min(at+int(n.(float64)), len(block))
		var out []byte
		if dirs[i].(float64) == 1 {
			out, err = e.Decrypt(block[at:to])
		} else {
			out, err = e.Encrypt(block[at:to])
		}
		if err != nil {
			out = nil
		} else if out == nil {
			out = []byte{}
		}
		outs = append(outs, out)
		at = to
	}
	all := []byte{}
	for _, o := range outs {
		if o == nil {
			all = append(all, 0)
		} else {
			all = append(append(all, 1), o...)
		}
	}
	return all, nil
}

func newCipher(op string, key []byte) (blockCipher, error) {
	switch op {
	case "ecb.aes.seq":
		return encryption.NewAesECB(key)
	case "ecb.des.seq":
		return encryption.NewDesECB(key)
	}
	return encryption.NewTripleDesECB(key)
}

// cipher is a new cipher object, or the one that the calls of a batch share.
func (c libCall) cipher() (blockCipher, error) {
	if c.ciphers == nil {
		return newCipher(c.op, c.args["key"])
	}
	return c.ciphers.get(c.op, c.args["key"])
}

// ciphers are cipher objects shared by the calls of a batch.
type ciphers struct {
	mu  sync.Mutex
	has map[string]blockCipher
}

func (s *ciphers) get(op string, key []byte) (blockCipher, error) {
	id := op + string(key)
	s.mu.Lock()
	e, ok := s.has[id]
	s.mu.Unlock()
	if ok {
		return e, nil
	}
	e, err := newCipher(op, key) // not under the lock: the caller may be held up in it
	if err != nil {
		return nil, err
	}
	s.mu.Lock()
	defer s.mu.Unlock()
	if first, ok := s.has[id]; ok {
		return first, nil
	}
	s.has[id] = e
	return e, nil
}

// decrypting returns the call that undoes c, for the operations that can be undone.
func (c libCall) decrypting(out []byte, slice func([]byte) []byte) (libCall, bool) {
	d := libCall{o: c.o, args: map[string][]byte{}}
	for _, f := range []string{"key", "ksn", "iv"} {
		if v, ok := c.args[f]; ok {
			d.args[f] = v
		}
	}
	switch c.op {
	case "des.ep", "aes.ep":
		d.op = c.op[:4] + "dp"
	case "des.en", "aes.en":
		d.op = c.op[:4] + "de"
	default:
		return d, false
	}
	d.args["ct"] = slice(out)
	return d, true
}

// libLine makes one call several times over:
//  1. with its arguments in read-only memory (a write is "wrote"),
//  2. again in writable memory; the result is then scribbled over, and must not show in the caller's memory,
//  3. again after that scribbling, which must not show in the answer,
//  4. with "par", from many goroutines that share the argument slices.
func libLine(o obj) []obj {
	craft(o)
	size := 4096
	for _, f := range byteFields {
		if v, ok := o[f].([]any); ok {
			size += len(v) + pad + spare
		}
	}
	if v, ok := o["text"].([]any); ok {
		size += len(v)
	}
	ar := newArena(size + 65536)
	defer ar.free()
	c := place(o, ar.slice)
	before := ar.snapshot()

	ar.protect(true)
	first := c.run()
	if !first.wrote {
		// what has been built from read-only memory may still alias it; leave it alone
		first.out = append([]byte{}, first.out...)
	}
	ar.protect(false)

	second := c.run()
	after := ar.snapshot()
	keep := append([]byte{}, second.out...)
	for i := range second.out {
		second.out[i] ^= 0x5C
	}
	scribbled := ar.snapshot()
	second.out = keep
	for i, r := range ar.args {
		copy(ar.mem[r.from:r.to], before[i])
	}

	random := c.op == "des.ep" || c.op == "aes.ep"
	again := []obj{}
	seen := []answer{first}
	note := func(a answer) {
		for _, s := range seen {
			if s.same(a) {
				return
			}
		}
		if len(seen) < 6 {
			seen = append(seen, a)
			again = append(again, a.obj())
		}
	}
	note(second)
	third := c.run()
	note(third)
	if n := num(o, "par", 0); n > 0 && !random {
		var wg sync.WaitGroup
		res := make([][]answer, n)
		for g := 0; g < n; g++ {
			wg.Add(1)
			go func(g int) {
				defer wg.Done()
				for k := 0; k < 40; k++ {
					a := c.run()
					if len(res[g]) == 0 || !res[g][len(res[g])-1].same(a) {
						res[g] = append(res[g], a)
					}
				}
			}(g)
		}
		wg.Wait()
		for g := range res {
			for _, a := range res[g] {
				note(a)
			}
		}
	}

	o["res"] = first.obj()
	o["again"] = again
	heap := [][3][]int{}
	for i := range before {
		h := [3][]int{ints(before[i]), ints(after[i]), ints(scribbled[i])}
		if flag(o, "heap") || string(before[i]) != string(after[i]) || string(before[i]) != string(scribbled[i]) {
			heap = append(heap, h)
		}
	}
	o["heap"] = heap
	if first.err == nil && !first.panicked {
		if d, ok := c.decrypting(first.out, ar.slice); ok {
			o["back"] = d.run().obj()
		}
	}
	return []obj{o}
}

// walkLine starts from a KSN and asks for the next one again and again, deriving the transaction key each time.
func walkLine(o obj) []obj {
	alg := str(o, "alg")
	ik, ksn := bytesOf(o["ik"]), bytesOf(o["ksn"])
	keys := flag(o, "keys")
	var lines []obj
	head := obj{"ev": "start", "alg": alg, "ik": ints(ik), "ksn": ints(ksn), "keys": keys}
	lines = append(lines, head)
	for n := num(o, "steps", 0); n > 0; n-- {
		next := answer{}
		next.out, next.err, next.panicked, _ = guarded(func() ([]byte, error) {
			if alg == "des" {
				return pkg.GenerateNextDesKsn(ksn)
			}
			return pkg.GenerateNextAesKsn(ksn)
		})
		l := obj{"ev": "next", "ok": next.err == nil && !next.panicked, "panic": next.panicked, "ksn": ints(next.out), "key": []int{}}
		if next.err != nil || next.panicked {
			l["ksn"] = []int{}
			lines = append(lines, l)
			continue
		}
		ksn = next.out
		if keys {
			k, err, p, _ := guarded(func() ([]byte, error) {
				if alg == "des" {
					return des.DeriveCurrentTransactionKey(ik, ksn)
				}
				return aes.DeriveCurrentTransactionKey(ik, ksn)
			})
			if err == nil && !p {
				l["key"] = ints(k)
			}
		}
		lines = append(lines, l)
	}
	return lines
}
