// Command drv runs calls and histories on the real code and records what it answers.
//
//	drv MODE SCRIPT TRACE
//
// SCRIPT holds one JSON call or history per line; TRACE gets the same lines with the outcomes added.
// The specification (spec/*Trace.tla) decides about the outcomes, this program does not.
package main

import (
	"bufio"
	"encoding/json"
	"fmt"
	"os"
	"runtime"
	"sync/atomic"
	"time"

	"github.com/moov-io/dukpt/zz_verif/ztime"
)

type obj = map[string]any

func main() {
	if len(os.Args) < 4 {
		fatal("usage: drv MODE SCRIPT TRACE")
	}
	mode, ok := modes[os.Args[1]]
	if !ok {
		fatal("unknown mode " + os.Args[1])
	}
	in, err := os.Open(os.Args[2])
	check(err)
	out, err := os.Create(os.Args[3])
	check(err)
	w := bufio.NewWriterSize(out, 1<<20)
	enc := json.NewEncoder(w)
	enc.SetEscapeHTML(false)
	sc := bufio.NewScanner(in)
	sc.Buffer(make([]byte, 1<<20), 1<<26)
	go watch()
	for sc.Scan() {
		var line obj
		at.Add(1)
		since.Store(time.Now().UnixNano())
		check(json.Unmarshal(sc.Bytes(), &line))
		for _, o := range mode(line) {
			check(enc.Encode(o))
		}
	}
	check(sc.Err())
	check(w.Flush())
	check(out.Close())
}

// A call that does not come back is an answer, too: the watchdog says where it hangs and ends the process.
var at, since atomic.Int64

const patience = 60 * time.Second

func watch() {
	for {
		time.Sleep(time.Second)
		if t := since.Load(); t != 0 && time.Since(time.Unix(0, t)) > patience {
			buf := make([]byte, 1<<20)
			n := runtime.Stack(buf, true)
			fmt.Fprintf(os.Stderr, "LINE %d\nno answer within %s\n%s\n", at.Load(), patience, buf[:n])
			os.Exit(4)
		}
	}
}

// rest lets time go by: hours of it, by moving the clock of the packages under test, or what can be waited for.
func rest(o obj) {
	ms := num(o, "rest", 0)
	if ms == 0 {
		return
	}
	if os.Getenv("VERIF_REST") == "sleep" {
		if !rested { // once will have to do
			rested = true
			for end := time.Now().Add(65 * time.Second); time.Now().Before(end); time.Sleep(time.Second) {
				since.Store(time.Now().UnixNano())
			}
		}
		return
	}
	ztime.Jump(time.Duration(ms) * time.Millisecond)
}

var rested bool

var modes = map[string]func(obj) []obj{
	"lib":   libLine,
	"walk":  walkLine,
	"sweep": sweepLine,
	"cube":  cubeLine,
	"par":   parLine,
	"uni":   uniLine,
	"cli":   cliLine,
	"svc":   svcLine,
	"http":  httpLine,
	"conc":  concLine,
	"proc":  procLine,
	"fill":  fillLine,
}

func fatal(s string) {
	fmt.Fprintln(os.Stderr, "drv:", s)
	os.Exit(3)
}

func check(err error) {
	if err != nil {
		fatal(err.Error())
	}
}

// bytesOf reads a JSON array of byte values.
func bytesOf(v any) []byte {
	a, ok := v.([]any)
	if !ok {
		fatal(fmt.Sprintf("not a byte array: %v", v))
	}
	b := make([]byte, len(a))
	for i := range a {
		b[i] = byte(a[i].(float64))
	}
	return b
}

func text(o obj, f string) string { return string(bytesOf(o[f])) }

func str(o obj, f string) string {
	s, ok := o[f].(string)
	if !ok {
		fatal("no string " + f)
	}
	return s
}

// ints turns bytes into what bytesOf reads; never null.
func ints(b []byte) []int {
	out := make([]int, len(b))
	for i := range b {
		out[i] = int(b[i])
	}
	return out
}

func codes(s string) []int { return ints([]byte(s)) }

func num(o obj, f string, def int) int {
	if v, ok := o[f].(float64); ok {
		return int(v)
	}
	return def
}

func flag(o obj, f string) bool { b, _ := o[f].(bool); return b }
