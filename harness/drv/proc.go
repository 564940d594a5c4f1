package main

import (
	"bufio"
	"bytes"
	"crypto/ecdsa"
	"crypto/elliptic"
	crand "crypto/rand"
	"crypto/tls"
	"crypto/x509"
	"crypto/x509/pkix"
	"encoding/json"
	"encoding/pem"
	"errors"
	"fmt"
	"io"
	"math/big"
	"math/rand"
	"net"
	"net/http"
	"os"
	"os/exec"
	"path/filepath"
	"strings"
	"sync"
	"syscall"
	"time"

	"github.com/moov-io/dukpt"
)

// A scenario is the life of one server process: how it is configured, and what happens to it.  The scenarios of a script
// line are carried out at the same time; each gives a start event and then one for every step.
//
// Addresses have names (they stand for free loopback ports); "x" names none.

func procLine(o obj) []obj {
	ss := o["scenarios"].([]any)
	out := make([][]obj, len(ss))
	var wg sync.WaitGroup
	slots := make(chan bool, num(o, "atonce", 8))
	for i := range ss {
		wg.Add(1)
		slots <- true
		since.Store(time.Now().UnixNano())
		go func() {
			defer func() { since.Store(time.Now().UnixNano()); <-slots; wg.Done() }()
			for try := 0; try < 3; try++ { // a port may have been taken in between
				var surprised bool
				out[i], surprised = scenario(ss[i].(obj), i+1)
				if !surprised {
					break
				}
			}
		}()
	}
	wg.Wait()
	lines := []obj{}
	for _, l := range out {
		lines = append(lines, l...)
	}
	return lines
}

var ports struct {
	sync.Mutex
	next int
}

// quietPort is a loopback address that nothing listens on, outside the range of ports that connections get.
func quietPort() string {
	ports.Lock()
	defer ports.Unlock()
	for i := 0; i < 500; i++ {
		if ports.next == 0 {
			ports.next = 11000 + rand.Intn(18000)
		}
		ports.next++
		if ports.next > 30000 {
			ports.next = 11000
		}
		a := fmt.Sprintf("127.0.0.1:%d", ports.next)
		if l, err := net.Listen("tcp", a); err == nil {
			l.Close()
			return a
		}
	}
	fatal("no free port")
	return ""
}

type life struct {
	cmd     *exec.Cmd
	addr    map[string]string
	out     safeBuffer
	errs    safeBuffer
	done    chan struct{}
	open    map[int]*openRequest
	idle    []net.Conn
	main    string // an address it may serve at
	secure  bool
	taken   []net.Listener
	secrets []string
	ik      string
	watched []*watched
	watch   sync.WaitGroup
}

type safeBuffer struct {
	sync.Mutex
	b bytes.Buffer
}

func (s *safeBuffer) Write(p []byte) (int, error) { s.Lock(); defer s.Unlock(); return s.b.Write(p) }
func (s *safeBuffer) String() string              { s.Lock(); defer s.Unlock(); return s.b.String() }

type openRequest struct {
	c    net.Conn
	r    *bufio.Reader
	body []byte
}

var certificate struct {
	sync.Once
	dir string
}

// certDir makes a certificate, its key, and bad versions of both.
func certDir() string {
	certificate.Do(func() {
		d, err := os.MkdirTemp(os.Getenv("VERIF_WORK"), "cert")
		check(err)
		k, err := ecdsa.GenerateKey(elliptic.P256(), crand.Reader)
		check(err)
		t := &x509.Certificate{SerialNumber: big.NewInt(1), Subject: pkix.Name{CommonName: "127.0.0.1"}, NotBefore: time.Now().Add(-time.Hour),
			NotAfter: time.Now().Add(24 * time.Hour), IPAddresses: []net.IP{net.IPv4(127, 0, 0, 1)}}
		der, err := x509.CreateCertificate(crand.Reader, t, t, &k.PublicKey, k)
		check(err)
		kd, err := x509.MarshalECPrivateKey(k)
		check(err)
		put := func(n string, b []byte) { check(os.WriteFile(filepath.Join(d, n), b, 0o600)) }
		put("good.crt", pem.EncodeToMemory(&pem.Block{Type: "CERTIFICATE", Bytes: der}))
		put("good.key", pem.EncodeToMemory(&pem.Block{Type: "EC PRIVATE KEY", Bytes: kd}))
		put("bad.crt", []byte("no certificate\n"))
		put("bad.key", []byte("no key\n"))
		certificate.dir = d
	})
	return certificate.dir
}

func scenario(o obj, n int) ([]obj, bool) {
	c := o["config"].(obj)
	p := &life{addr: map[string]string{}, done: make(chan struct{}), open: map[int]*openRequest{}}
	for _, a := range []string{"a", "b", "c", "d"} {
		p.addr[a] = quietPort()
	}
	args, env := []string{}, []string{}
	give := func(flag, variable, name string) {
		if v := str(c, name+"flag"); v != "" {
			args = append(args, "-"+flag+"="+p.value(v))
		}
		if v := str(c, name+"env"); v != "" {
			env = append(env, variable+"="+p.value(v))
		}
	}
	give("http.addr", "HTTP_BIND_ADDRESS", "http")
	give("admin.addr", "HTTP_ADMIN_BIND_ADDRESS", "admin")
	give("log.format", "LOG_FORMAT", "log")
	for f, v := range map[string]string{"cert": "HTTPS_CERT_FILE", "key": "HTTPS_KEY_FILE"} {
		ext := map[string]string{"cert": ".crt", "key": ".key"}[f]
		if w := str(c, f); w != "" {
			env = append(env, v+"="+filepath.Join(certDir(), w+ext))
		}
	}
	for _, a := range c["taken"].([]any) {
		l, err := net.Listen("tcp", p.addr[a.(string)])
		for i := 0; err != nil && i < 100; i++ { // a process being started may still hold quietPort's
			time.Sleep(20 * time.Millisecond)
			l, err = net.Listen("tcp", p.addr[a.(string)])
		}
		check(err)
		p.taken = append(p.taken, l)
		go func() {
			for {
				k, err := l.Accept()
				if err != nil {
					return
				}
				k.Close()
			}
		}()
	}
	p.cmd = exec.Command(os.Getenv("VERIF_SERVER"), args...)
	for _, e := range os.Environ() {
		switch k, _, _ := strings.Cut(e, "="); k {
		case "HTTP_BIND_ADDRESS", "HTTP_ADMIN_BIND_ADDRESS", "LOG_FORMAT", "HTTPS_CERT_FILE", "HTTPS_KEY_FILE":
		default:
			p.cmd.Env = append(p.cmd.Env, e)
		}
	}
	p.cmd.Env = append(p.cmd.Env, env...)
	p.cmd.Dir = os.Getenv("VERIF_WORK")
	p.cmd.Stdout, p.cmd.Stderr = &p.out, &p.errs
	if err := p.cmd.Start(); err != nil {
		fatal("server: " + err.Error())
	}
	go func() { p.cmd.Wait(); close(p.done) }()
	defer p.end()
	events := []obj{{"ev": "start", "from": n, "config": c}}
	p.secure = str(c, "cert") != "" && str(c, "key") != ""
	p.await(c)
	for _, s := range o["steps"].([]any) {
		since.Store(time.Now().UnixNano())
		e := p.step(s.(obj))
		e["ev"] = str(s.(obj), "do")
		events = append(events, e)
	}
	_, serves := o["serves"]
	return events, serves && strings.Contains(p.out.String()+p.errs.String(), "address already in use")
}

func (p *life) value(v string) string {
	if a, ok := p.addr[v]; ok {
		return a
	}
	return v
}

func (p *life) ended() bool {
	select {
	case <-p.done:
		return true
	default:
		return false
	}
}

func (p *life) end() {
	for _, r := range p.open {
		r.c.Close()
	}
	for _, c := range p.idle {
		c.Close()
	}
	for _, l := range p.taken {
		l.Close()
	}
	p.cmd.Process.Kill()
	<-p.done
}

// await waits until the process has ended, or answers at an address for requests and at one for administration.
func (p *life) await(c obj) {
	up := func(name string) bool {
		some := false
		for _, by := range []string{"env", "flag"} {
			a, ok := p.addr[str(c, name+by)]
			if !ok {
				continue
			}
			some = true
			k, err := net.DialTimeout("tcp", a, time.Second)
			if err == nil {
				k.Close()
				return true
			}
		}
		return !some
	}
	for end := time.Now().Add(15 * time.Second); time.Now().Before(end) && !p.ended(); time.Sleep(5 * time.Millisecond) {
		if len(p.taken) == 0 && up("http") && up("admin") {
			return
		}
		if len(p.taken) > 0 && time.Until(end) < 7*time.Second {
			return
		}
	}
}

func webClient(tlsMax uint16) *http.Client {
	return &http.Client{Timeout: 20 * time.Second, Transport: &http.Transport{DisableKeepAlives: true,
		DialContext:     (&net.Dialer{Timeout: 10 * time.Second}).DialContext,
		TLSClientConfig: &tls.Config{InsecureSkipVerify: true, MinVersion: tls.VersionTLS10, MaxVersion: tlsMax}}}
}

func fetch(c *http.Client, url string) (int, string, error) {
	r, err := c.Get(url)
	if err != nil {
		return 0, "", err
	}
	defer r.Body.Close()
	b, err := io.ReadAll(r.Body)
	return r.StatusCode, string(b), err
}

// probe tells what answers at an address.
func (p *life) probe(name string) string {
	a := p.addr[name]
	c, err := net.DialTimeout("tcp", a, 5*time.Second)
	if err != nil {
		return "none"
	}
	c.Close()
	s, b, err := fetch(webClient(0), "http://"+a+"/ping")
	if err == nil && s == 200 && b == "PONG" {
		p.main = a
		return "http"
	}
	if v, _, err := fetch(webClient(0), "http://"+a+"/version"); err == nil && v == 200 {
		return "admin"
	}
	if s, b, err := fetch(webClient(0), "https://"+a+"/ping"); err == nil && s == 200 && b == "PONG" {
		p.main = a
		return "https"
	}
	return "other"
}

func (p *life) scheme() string {
	if p.secure {
		return "https://"
	}
	return "http://"
}

func (p *life) dial() (net.Conn, error) {
	if p.main == "" {
		return nil, errors.New("no address")
	}
	d := &net.Dialer{Timeout: 10 * time.Second}
	var c net.Conn
	var err error
	if p.secure {
		c, err = tls.DialWithDialer(d, "tcp", p.main, &tls.Config{InsecureSkipVerify: true})
	} else {
		c, err = d.Dial("tcp", p.main)
	}
	if err == nil {
		c.SetDeadline(time.Now().Add(40 * time.Second))
	}
	return c, err
}

// learn collects what an answer says that a log must not: the keys in it, and what was decrypted.
func (p *life) learn(b []byte, keys bool) {
	var v any
	if json.Unmarshal(b, &v) != nil {
		return
	}
	var walk func(n string, v any)
	walk = func(n string, v any) {
		switch x := v.(type) {
		case map[string]any:
			for n, v := range x {
				walk(strings.ToLower(n), v)
			}
		case []any:
			for _, v := range x {
				walk(n, v)
			}
		case string:
			if n == "ik" || n == "initialkey" {
				p.ik = x
			}
			if len(x) >= 8 && n != "error" && (!keys || n == "basederivativekey" || n == "initialkey" || n == "transactionkey" || n == "ik") {
				p.secrets = append(p.secrets, x)
			}
		}
	}
	walk("", v)
}

func (p *life) step(s obj) obj {
	e := obj{}
	switch do := str(s, "do"); do {
	case "probe":
		e["at"], e["what"] = str(s, "at"), p.probe(str(s, "at"))
	case "version":
		st, b, err := fetch(webClient(0), "http://"+p.addr[str(s, "at")]+"/version")
		e["at"], e["right"] = str(s, "at"), err == nil && st == 200 && b == dukpt.Version
	case "tls":
		v := map[string]uint16{"1.0": tls.VersionTLS10, "1.1": tls.VersionTLS11, "1.2": tls.VersionTLS12, "1.3": tls.VersionTLS13}[str(s, "max")]
		st, b, err := fetch(webClient(v), "https://"+p.main+"/ping")
		e["max"], e["served"] = str(s, "max"), err == nil && st == 200 && b == "PONG"
	case "ask": // a whole request with its answer
		body := text(s, "body")
		for _, t := range s["secrets"].([]any) {
			p.secrets = append(p.secrets, string(bytesOf(t)))
		}
		r, err := webClient(0).Post(p.scheme()+p.main+str(s, "path"), "application/json", strings.NewReader(body))
		e["r"], e["answered"] = 0, err == nil
		if err == nil {
			b, err := io.ReadAll(r.Body)
			r.Body.Close()
			e["answered"] = err == nil && json.Valid(b)
			p.learn(b, !strings.Contains(str(s, "path"), "decrypt"))
		}
		if err == nil && flag(s, "follow") && p.ik != "" { // ask for the machine, too
			for _, q := range []string{"GET /machine/", "POST /generate_ksn/", "GET /machines"} {
				m, path, _ := strings.Cut(q, " ")
				if strings.HasSuffix(path, "/") {
					path += p.ik
				}
				q, err := http.NewRequest(m, p.scheme()+p.main+path, nil)
				if err == nil {
					if r, err := webClient(0).Do(q); err == nil {
						b, _ := io.ReadAll(r.Body)
						r.Body.Close()
						p.learn(b, true)
					}
				}
			}
		}
	case "idle": // a connection with nothing on it, or with a request behind it
		c, err := p.dial()
		e["served"] = err == nil
		if err == nil {
			p.idle = append(p.idle, c)
			if flag(s, "used") {
				fmt.Fprintf(c, "GET /ping HTTP/1.1\r\nHost: x\r\n\r\n")
				r, err := http.ReadResponse(bufio.NewReader(c), nil)
				e["served"] = err == nil && r.StatusCode == 200
				if err == nil {
					io.Copy(io.Discard, r.Body)
				}
			}
		}
	case "garbage": // something that is no request
		if c, err := p.dial(); err == nil {
			c.Write(bytesOf(s["bytes"]))
			c.SetDeadline(time.Now().Add(100 * time.Millisecond))
			io.ReadAll(c)
			c.Close()
		}
	case "begin": // a request whose body is still to come, after the server asked for it
		n := num(s, "r", 1)
		e["r"], e["taken"] = n, false
		c, err := p.dial()
		if err != nil {
			return e
		}
		body := text(s, "body")
		fmt.Fprintf(c, "POST %s HTTP/1.1\r\nHost: x\r\nContent-Length: %d\r\nExpect: 100-continue\r\n\r\n", str(s, "path"), len(body))
		r := bufio.NewReader(c)
		l, err := r.ReadString('\n')
		if err == nil && strings.Contains(l, " 100 ") {
			_, err = r.ReadString('\n')
			e["taken"] = err == nil
		}
		h := len(body) / 2
		c.Write([]byte(body[:h]))
		p.open[n] = &openRequest{c, r, []byte(body[h:])}
	case "finish":
		n := num(s, "r", 1)
		e["r"], e["answered"] = n, false
		q, ok := p.open[n]
		if !ok {
			return e
		}
		delete(p.open, n)
		q.c.SetDeadline(time.Now().Add(20 * time.Second))
		q.c.Write(q.body)
		r, err := http.ReadResponse(q.r, nil)
		if err == nil {
			b, err := io.ReadAll(r.Body)
			e["answered"] = err == nil && json.Valid(b)
		}
		q.c.Close()
	case "drop":
		n := num(s, "r", 1)
		e["r"] = n
		if q, ok := p.open[n]; ok {
			q.c.Close()
			delete(p.open, n)
		}
	case "signal":
		sig := syscall.SIGTERM
		if str(s, "sig") == "INT" {
			sig = syscall.SIGINT
		}
		for _, w := range p.watched {
			w.say("told", obj{})
		}
		p.cmd.Process.Signal(sig)
		e["sig"] = str(s, "sig")
	case "closed": // does it stop taking connections?
		e["closed"] = false
		for end := time.Now().Add(15 * time.Second); time.Now().Before(end); time.Sleep(5 * time.Millisecond) {
			c, err := net.DialTimeout("tcp", p.main, 5*time.Second)
			if err != nil {
				e["closed"] = true
				break
			}
			c.Close()
		}
	case "alive":
		time.Sleep(time.Duration(num(s, "ms", 100)) * time.Millisecond)
		e["alive"] = !p.ended()
	case "exit":
		select {
		case <-p.done:
			e["code"] = p.cmd.ProcessState.ExitCode()
		case <-time.After(time.Duration(num(s, "ms", 30000)) * time.Millisecond):
			e["code"] = -2 // still there
		}
		t := p.errs.String()
		e["crash"] = strings.Contains(t, "panic:") || strings.Contains(t, "fatal error:") || strings.Contains(t, "goroutine ")
	case "connect": // connections with a course of their own, all at the same time
		for _, l := range s["list"].([]any) {
			w := &watched{start: time.Now(), log: []obj{}, o: l.(obj)}
			p.watched = append(p.watched, w)
			p.watch.Add(1)
			go func() { defer p.watch.Done(); p.follow(w) }()
		}
		e["n"] = len(s["list"].([]any))
	case "reap": // and what became of them
		end := make(chan struct{})
		go func() { p.watch.Wait(); close(end) }()
		for waiting := true; waiting; {
			select {
			case <-end:
				waiting = false
			case <-time.After(time.Second):
				since.Store(time.Now().UnixNano())
			}
		}
		logs := []obj{}
		for _, w := range p.watched {
			logs = append(logs, obj{"hello": flag(w.o, "hello"), "makes": flag(w.o, "makes"), "log": w.log})
		}
		e["conns"] = logs
		p.watched = nil
	case "machines": // how many there are
		st, b, err := fetch(webClient(0), p.scheme()+p.main+"/machines")
		var l struct{ Machines []json.RawMessage }
		e["n"] = -1
		if err == nil && st == 200 && json.Unmarshal([]byte(b), &l) == nil {
			e["n"] = len(l.Machines)
		}
	case "log":
		said := p.out.String()
		lines := strings.Split(strings.TrimSuffix(said, "\n"), "\n")
		js := said != ""
		for _, l := range lines {
			var m map[string]any
			js = js && json.Unmarshal([]byte(l), &m) == nil
		}
		leak := ""
		for _, t := range p.secrets {
			if len(t) >= 4 && strings.Contains(said+p.errs.String(), t) {
				leak = t
			}
		}
		e["json"], e["version"], e["leak"] = js, strings.Contains(said, dukpt.Version), leak != ""
		if leak != "" {
			e["what"] = leak
		}
	default:
		fatal("unknown step " + do)
	}
	return e
}

// watched is a connection, and what happened on it when (in milliseconds).
type watched struct {
	sync.Mutex
	start time.Time
	log   []obj
	o     obj
	over  bool
}

func (w *watched) say(what string, o obj) {
	w.Lock()
	defer w.Unlock()
	if w.over {
		return
	}
	o["what"], o["t"] = what, int(time.Since(w.start).Milliseconds())
	w.over = what == "closed" || what == "end"
	w.log = append(w.log, o)
}

// follow carries out a connection's plan: it sends what it is to send when it is to, and notes the answers and the end.
func (p *life) follow(w *watched) {
	var d net.Dialer
	d.Timeout = 10 * time.Second
	var c net.Conn
	raw, err := d.Dial("tcp", p.main)
	if err != nil {
		w.say("refused", obj{})
		return
	}
	defer raw.Close()
	c = raw
	if p.secure && !flag(w.o, "hello") {
		t := tls.Client(raw, &tls.Config{InsecureSkipVerify: true})
		raw.SetDeadline(time.Now().Add(20 * time.Second))
		if t.Handshake() != nil {
			w.say("refused", obj{})
			return
		}
		raw.SetDeadline(time.Time{})
		c = t
	}
	w.Lock()
	w.start = time.Now()
	w.Unlock()
	until := time.Duration(num(w.o, "until", 60000)) * time.Millisecond
	end := time.AfterFunc(until, func() { w.say("end", obj{}); raw.Close() })
	defer end.Stop()
	read := make(chan bool, 1)
	expect := func(i int) int { // of the answer to its i-th request
		if l, ok := w.o["expect"].([]any); ok && i <= len(l) {
			return int(l[i-1].(float64))
		}
		return 200
	}
	var reader sync.WaitGroup
	reader.Add(1)
	go func() {
		defer reader.Done()
		r := bufio.NewReader(c)
		n := 0
		if flag(w.o, "small") {
			if _, ok := <-read; !ok {
				return
			}
			n = num(w.o, "flood", 0)
		}
		got := 0
		for {
			a, err := http.ReadResponse(r, nil)
			var b []byte
			if err == nil {
				b, err = io.ReadAll(a.Body)
			}
			if err != nil {
				if got < n {
					w.say("got", obj{"k": got})
				}
				w.say("closed", obj{})
				return
			}
			if got++; n > 0 && got < n {
				continue
			} else if got == n {
				w.say("got", obj{"k": got})
				continue
			}
			w.say("answer", obj{"right": a.StatusCode == expect(got) && (json.Valid(b) || string(b) == "PONG")})
		}
	}()
	for _, q := range w.o["plan"].([]any) {
		q := q.(obj)
		wait := time.Duration(num(q, "at", 0))*time.Millisecond - time.Since(w.start)
		if wait > 0 {
			time.Sleep(wait)
		}
		switch what := str(q, "what"); what {
		case "read":
			w.say("read", obj{})
			read <- true
		case "flood":
			w.say("flood", obj{"n": num(w.o, "flood", 0)})
			all := bytes.Repeat(bytesOf(q["bytes"]), num(w.o, "flood", 0))
			go c.Write(all)
		default:
			w.say(what, obj{})
			c.Write(bytesOf(q["bytes"]))
		}
	}
	if flag(w.o, "small") {
		defer close(read)
	}
	reader.Wait()
}
