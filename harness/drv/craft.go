package main

import (
	"crypto/aes"
	"crypto/des"
	"encoding/binary"
)

// craft fills in the cipher text of a PIN decryption from the clear block the script chose for it ("clear"), so
// that decoders meet blocks of every shape.  It uses Go's ciphers, not the code under test; what the cipher text
// means is decided by the specification, which decrypts it itself.
func craft(o obj) {
	if _, ok := o["clear"]; !ok {
		return
	}
	clear, key := bytesOf(o["clear"]), bytesOf(o["key"])
	delete(o, "clear")
	var ct []byte
	if str(o, "op") == "des.dp" {
		k := append([]byte{}, key...)
		k[7] ^= 0xFF
		k[15] ^= 0xFF
		b, err := des.NewTripleDESCipher(append(k, k[:8]...))
		check(err)
		ct = make([]byte, 8)
		b.Encrypt(ct, clear)
	} else {
		ksn, pan := bytesOf(o["ksn"]), text(o, "pan")
		b, err := aes.NewCipher(key)
		check(err)
		var wk []byte
		for i := 1; len(wk) < len(key); i++ {
			d := make([]byte, 16)
			d[0], d[1] = 1, byte(i)
			binary.BigEndian.PutUint16(d[2:], 0x1000)
			binary.BigEndian.PutUint16(d[4:], map[int]uint16{16: 2, 24: 3, 32: 4}[len(key)])
			binary.BigEndian.PutUint16(d[6:], uint16(8*len(key)))
			copy(d[8:], ksn[4:])
			b.Encrypt(d, d)
			wk = append(wk, d...)
		}
		b, err = aes.NewCipher(wk[:len(key)])
		check(err)
		ct = make([]byte, 16)
		b.Encrypt(ct, clear)
		for i, c := range append([]byte{byte(len(pan) - 12)}, nibbles(pan)...) {
			ct[i/2] ^= c << (4 * (1 - i%2))
		}
		b.Encrypt(ct, ct)
	}
	list := make([]any, len(ct))
	for i := range ct {
		list[i] = float64(ct[i])
	}
	o["ct"] = list
}

func nibbles(t string) []byte {
	out := make([]byte, len(t))
	for i := range t {
		out[i] = t[i] & 15
	}
	return out
}
