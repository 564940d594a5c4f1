package main

import (
	"bytes"

	"github.com/moov-io/dukpt/pkg"
	"github.com/moov-io/dukpt/pkg/aes"
	"github.com/moov-io/dukpt/pkg/des"
)

// sweepLine asks for the next KSN of each of a run of counters, reads the counters, and asks which are valid.
func sweepLine(o obj) []obj {
	alg, ksn := str(o, "alg"), bytesOf(o["ksn"])
	hi, lo, n := num(o, "hi", 0), num(o, "lo", 0), num(o, "n", 0)
	at := len(ksn) - 4
	if alg == "des" {
		at = len(ksn) - 3
	}
	// the counter's bits of a KSN, and the KSN without them
	split := func(k []byte) (uint32, []byte) {
		id, c := bytes.Clone(k), uint32(0)
		for i := max(0, len(k)-len(ksn)+at); i < len(k); i++ {
			b := k[i]
			if alg == "des" && i == len(k)-3 {
				b &= 0x1f
				id[i] &= 0xe0
			} else {
				id[i] = 0
			}
			c = c<<8 | uint32(b)
		}
		return c, id
	}
	with := func(c uint32) []byte {
		k := bytes.Clone(ksn)
		for i := len(k) - 1; i >= at; i-- {
			k[i] |= byte(c)
			c >>= 8
		}
		return k
	}
	nhi, nlo, valid, ids, runs := make([]int, n), make([]int, n), []int{}, [][]byte{}, [][]int{}
	panics := 0
	for i := 0; i < n; i++ {
		c := uint32(hi)<<16 + uint32(lo+i)
		k := with(c)
		out, err, panicked, _ := guarded(func() ([]byte, error) {
			if alg == "des" {
				return pkg.GenerateNextDesKsn(k)
			}
			return pkg.GenerateNextAesKsn(k)
		})
		switch {
		case panicked:
			panics++
			nhi[i] = -2
		case err != nil:
			nhi[i] = -1
		default:
			d, id := split(out)
			nhi[i], nlo[i] = int(d>>16), int(d&0xffff)
			known := false
			for _, x := range ids {
				known = known || bytes.Equal(x, id)
			}
			if !known && len(ids) < 5 {
				ids = append(ids, id)
			}
		}
		k = with(c)
		_, _, panicked, _ = guarded(func() ([]byte, error) {
			var tc uint32
			if alg == "des" {
				tc = pkg.GetDesTcFromKsn(k)
			} else {
				tc = pkg.GetAesTcFromKsn(k)
				v := 0
				if pkg.IsValidAesKsn(k) {
					v = 1
				}
				valid = append(valid, v)
			}
			if l := len(runs) - 1; l >= 0 && uint32(runs[l][0])<<16+uint32(runs[l][1])+uint32(runs[l][2]) == tc {
				runs[l][2]++
			} else {
				runs = append(runs, []int{int(tc >> 16), int(tc & 0xffff), 1})
			}
			return nil, nil
		})
		if panicked {
			panics++
		}
	}
	other := [][]int{}
	for _, id := range ids {
		other = append(other, ints(id))
	}
	return []obj{{"alg": alg, "ksn": ints(ksn), "hi": hi, "lo": lo, "n": n, "nhi": nhi, "nlo": nlo, "valid": valid,
		"ids": other, "read": runs, "panics": panics}}
}

// cubeLine derives the transaction keys for all choices of some bits of a counter.
func cubeLine(o obj) []obj {
	alg, ik, ksn := str(o, "alg"), bytesOf(o["ik"]), bytesOf(o["ksn"])
	free := o["free"].([]any)
	width := 32
	if alg == "des" {
		width = 21
	}
	keys := make([][]int, 1<<len(free))
	panics := 0
	for j := range keys {
		k := bytes.Clone(ksn)
		for i, f := range free {
			if j>>(len(free)-1-i)&1 == 1 {
				at := width - int(f.(float64)) // from the right
				k[len(k)-1-at/8] |= 1 << (at % 8)
			}
		}
		out, err, panicked, _ := guarded(func() ([]byte, error) {
			if alg == "des" {
				return des.DeriveCurrentTransactionKey(ik, k)
			}
			return aes.DeriveCurrentTransactionKey(ik, k)
		})
		if panicked {
			panics++
		}
		if err != nil || panicked {
			out = nil
		}
		keys[j] = ints(out)
	}
	return []obj{{"alg": alg, "ik": ints(ik), "ksn": ints(ksn), "free": free, "keys": keys, "panics": panics}}
}
