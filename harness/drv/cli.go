package main

import (
	"bytes"
	"errors"
	"os"
	"os/exec"
	"strings"
	"sync"
	"time"
)

// cliLine invokes the command line tool: chains of invocations, the chains at the same time.  In a chain, a value
// {"prev": true} is what the last invocation of the chain printed as its result.
func cliLine(o obj) []obj {
	chains := o["chains"].([]any)
	out := make([][]obj, len(chains))
	var wg sync.WaitGroup
	slots := make(chan bool, 8)
	for i := range chains {
		wg.Add(1)
		slots <- true
		go func(i int) {
			defer func() { <-slots; wg.Done() }()
			prev := ""
			for _, q := range chains[i].([]any) {
				l := invoke(q.(obj), prev)
				out[i] = append(out[i], l)
				prev = ""
				said := bytesFrom(l["e"].(obj)["said"].([]int))
				if s, ok := strings.CutPrefix(string(said), "RESULT: "); ok {
					prev = strings.TrimSuffix(s, "\n")
				}
			}
		}(i)
	}
	wg.Wait()
	var lines []obj
	for i := range out {
		lines = append(lines, out[i]...)
	}
	return lines
}

func bytesFrom(v []int) []byte {
	b := make([]byte, len(v))
	for i := range v {
		b[i] = byte(v[i])
	}
	return b
}

func invoke(q obj, prev string) obj {
	argv := []string{}
	put := func(flag, val string, style int) {
		dash := "-"
		if style&1 != 0 {
			dash = "--"
		}
		if style&2 != 0 {
			argv = append(argv, dash+flag, val)
		} else {
			argv = append(argv, dash+flag+"="+val)
		}
	}
	args := []obj{}
	for _, a := range q["flags"].([]any) {
		a := a.(obj)
		name, style := str(a, "n"), num(a, "style", 0)
		switch str(a, "kind") {
		case "bool": // v is "", "true", "false", ...
			if v := str(a, "v"); v == "" {
				argv = append(argv, "-"+name)
			} else {
				argv = append(argv, "-"+name+"="+v)
			}
		case "name":
			put(name, str(a, "v"), style)
		case "text":
			v := text(a, "v")
			if flag(a, "prev") {
				v = prev
			}
			args = append(args, obj{"n": name, "t": codes(v)})
			put(name, v, style)
		case "raw":
			argv = append(argv, str(a, "v"))
		}
	}
	c := exec.Command(os.Getenv("VERIF_CLI"), argv...)
	c.Dir = os.Getenv("VERIF_WORK")
	var so, se bytes.Buffer
	c.Stdout, c.Stderr = &so, &se
	if err := c.Start(); err != nil {
		fatal("dukptcli: " + err.Error())
	}
	done := make(chan error, 1)
	go func() { done <- c.Wait() }()
	var err error
	hung := false
	select {
	case err = <-done:
	case <-time.After(40 * time.Second):
		hung = true
		c.Process.Kill()
		err = <-done
	}
	exit := 0
	var ee *exec.ExitError
	if errors.As(err, &ee) {
		exit = ee.ExitCode()
	} else if err != nil {
		fatal("dukptcli: " + err.Error())
	}
	crash := hung || exit < 0 || strings.HasPrefix(se.String(), "panic:") || strings.Contains(se.String(), "fatal error:")
	if crash { // exit code 2 is the runtime's for a panic, too
		exit = -1
	}
	return obj{"q": obj{"version": q["version"], "known": q["known"], "sel": q["sel"], "alg": q["alg"], "keytype": q["keytype"],
		"macname": q["macname"], "action": q["action"], "args": args}, "crash": crash,
		"e": obj{"exit": exit, "said": codes(so.String())}, "argv": argv, "stderr": firstLine(se.String())}
}

func firstLine(s string) string {
	if i := strings.IndexByte(s, '\n'); i >= 0 {
		s = s[:i]
	}
	return strings.ToValidUTF8(s, "?")
}
