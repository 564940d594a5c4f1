package main

import (
	"bytes"
	"encoding/json"
	"errors"
	"fmt"
	"io"
	"math/rand"
	"mime"
	"net"
	"net/http"
	"net/http/httptest"
	"net/url"
	"os"
	"os/exec"
	gopath "path"
	"reflect"
	"sort"
	"strings"
	"sync"
	"time"

	"github.com/moov-io/base/log"
	"github.com/moov-io/dukpt/pkg/server"
)

// A history of HTTP requests, carried out one after the other on a fresh service: through the handler, or ("proc")
// through a started server process.  Requests refer to machines by the base key they were created from.

type httpRun struct {
	send func(*http.Request) (*http.Response, error)
	root string
	svc  server.Service // nil: out of reach
	repo *repository    // the store behind it, likewise
	iks  map[int]string
	cts  map[string]string
}

func httpLine(o obj) []obj {
	r := &httpRun{iks: map[int]string{}, cts: map[string]string{}}
	lines := []obj{{"ev": "start"}}
	if flag(o, "proc") {
		p, err := startServer(str(o, "how"))
		if err != nil {
			q := obj{"method": "GET", "path": "ping", "segs": 1, "ik": codes(""), "clean": true, "good": true, "fields": []obj{}, "origin": codes(""), "alg": "", "akey": ""}
			return append(lines, obj{"ev": "req", "q": q, "a": noResponse(), "panic": true, "why": err.Error()})
		}
		defer p.stop()
		c := &http.Client{Timeout: 50 * time.Second, CheckRedirect: func(*http.Request, []*http.Request) error { return http.ErrUseLastResponse }}
		defer c.CloseIdleConnections()
		r.send, r.root = c.Do, "http://"+p.addr
	} else {
		r.repo = &repository{Repository: server.NewRepositoryInMemory(log.NewNopLogger())}
		r.svc = server.NewService(r.repo)
		h := server.MakeHTTPHandler(r.svc)
		r.root = "http://dukpt.test"
		r.send = func(q *http.Request) (*http.Response, error) {
			w := httptest.NewRecorder()
			_, _, p, _ := guarded(func() ([]byte, error) { h.ServeHTTP(w, q); return nil, nil })
			if p {
				return nil, errors.New("panic")
			}
			return w.Result(), nil
		}
	}
	for _, s := range o["reqs"].([]any) {
		rest(s.(obj))
		lines = append(lines, r.request(s.(obj)))
	}
	if ts, ok := o["together"].([]any); ok {
		lines = append(lines, r.together(ts, num(o, "rounds", 1))...)
	}
	return lines
}

// together sends requests that change nothing at the same time from several clients, again and again; every
// different response to a request is a line.
func (r *httpRun) together(ts []any, rounds int) []obj {
	found := make([][]obj, len(ts))
	var mu sync.Mutex
	note := func(i int, l obj) {
		mu.Lock()
		defer mu.Unlock()
		for _, o := range found[i] {
			if reflect.DeepEqual(o["a"], l["a"]) && o["panic"] == l["panic"] {
				return
			}
		}
		if len(found[i]) < 8 {
			found[i] = append(found[i], l)
		}
	}
	var start, wg sync.WaitGroup
	start.Add(1)
	for g := 0; g < 8; g++ {
		wg.Add(1)
		c := *r
		c.cts = map[string]string{}
		for k, v := range r.cts {
			c.cts[k] = v
		}
		go func(rnd *rand.Rand) {
			defer wg.Done()
			start.Wait()
			for k := 0; k < rounds; k++ {
				since.Store(time.Now().UnixNano())
				for _, i := range rnd.Perm(len(ts)) {
					note(i, c.request(ts[i].(obj)))
				}
			}
		}(rand.New(rand.NewSource(int64(g)*7919 + at.Load())))
	}
	start.Done()
	wg.Wait()
	lines := []obj{}
	for _, ls := range found {
		lines = append(lines, ls...)
	}
	return lines
}

func noResponse() obj {
	return obj{"status": 0, "json": false, "text": codes(""), "fields": []obj{}, "ctype": "", "acao": codes(""), "acam": codes(""), "acah": codes(""), "acac": codes("")}
}

// brokenBody ends in an error instead of io.EOF.
type brokenBody struct{ io.Reader }

func (b brokenBody) Read(p []byte) (int, error) {
	n, err := b.Reader.Read(p)
	if err == io.EOF {
		err = errors.New("broken off")
	}
	return n, err
}
func (b brokenBody) Close() error { return nil }

// pieces comes in small pieces.
type pieces struct{ io.Reader }

func (p pieces) Read(b []byte) (int, error) { return p.Reader.Read(b[:min(len(b), 7)]) }

func (r *httpRun) request(s obj) obj {
	base := num(s, "base", -1)
	key := func(what string) string { return fmt.Sprint(base, "/", what) }
	ik := ""
	segs := num(s, "segs", 1)
	if segs >= 2 {
		var ok bool
		if _, given := s["ik"]; given {
			ik = text(s, "ik")
		} else if ik, ok = r.iks[base]; !ok {
			ik = "unknown"
		} else {
			ik = changed(ik, opt(s, "mod"))
		}
	}
	// the body
	fields := []obj{}
	names, vals := []string{}, []string{}
	if fs, ok := s["fields"].([]any); ok {
		for _, f := range fs {
			f := f.(obj)
			v := text(f, "v")
			if what, ok := f["ct"].(string); ok {
				if c, ok := r.cts[key(what)]; ok {
					v = c
				}
			}
			names, vals = append(names, str(f, "n")), append(vals, v)
			fields = append(fields, obj{"n": strings.ToLower(str(f, "n")), "t": codes(v)})
		}
	}
	var body []byte
	good := true // only told of requests that come with a body
	if _, ok := s["raw"]; ok {
		body, good = []byte(text(s, "raw")), false
		fields = []obj{}
	} else if _, ok := s["fields"]; ok {
		typed := -1
		if opt(s, "spoil") == "typed" && len(names) > 0 {
			typed = num(s, "at", 0) % len(names)
		}
		body = jsonBody(names, vals, num(s, "style", 0), typed, num(s, "at", 0)/max(len(names), 1))
		if n := num(s, "pad", 0); n > 0 { // what JSON lets one add
			if fill := bytes.Repeat([]byte(" "), n); flag(s, "padfield") && len(names) > 0 {
				body = append([]byte(`{"unrelated":"`+string(fill)+`",`), body[bytes.IndexByte(body, '{')+1:]...)
			} else {
				body = append(fill, body...)
			}
		}
		if k := opt(s, "spoil"); k != "" && len(bytes.TrimSpace(body)) > 2 { // a good one that is no JSON object any more
			body, good, fields = spoiled(body, k, typed >= 0), false, []obj{}
		}
	} else {
		good = false
	}
	path := "/" + str(s, "path")
	if segs >= 2 {
		path += "/" + escaped(ik, s["esc"])
	}
	for i := 2; i < segs; i++ {
		path += "/more"
	}
	if b := opt(s, "bent"); b != "" {
		real, ok := r.iks[base]
		if !ok {
			real = "unknown"
		}
		path = strings.ReplaceAll(b, "{ik}", url.PathEscape(real))
	}
	if t := opt(s, "query"); t != "" {
		path += "?" + t
	}
	var rd io.Reader = bytes.NewReader(body)
	if flag(s, "broken") {
		rd, good = brokenBody{rd}, false
	}
	frame := opt(s, "frame")
	if strings.Contains(frame, "pieces") {
		rd = pieces{rd}
	}
	q, err := http.NewRequest(str(s, "method"), r.root+path, rd)
	check(err)
	if len(body) > 0 && frame != "" {
		if q.ContentLength = int64(len(body)); strings.Contains(frame, "chunks") { // the length is left open
			q.ContentLength, q.TransferEncoding = -1, []string{"chunked"}
		}
	}
	if o := text(s, "origin"); o != "" {
		q.Header.Set("Origin", o)
	}
	if t := opt(s, "ctype"); t != "" {
		q.Header.Set("Content-Type", t)
	}
	if hs, ok := s["headers"].([]any); ok {
		for _, h := range hs {
			kv := h.([]any)
			q.Header.Set(kv[0].(string), kv[1].(string))
		}
	}
	// what the server gets to see of the path
	seg := strings.Split(strings.TrimPrefix(q.URL.Path, "/"), "/")
	segs, ik = len(seg), ""
	if segs >= 2 {
		ik = seg[1]
	}
	clean := gopath.Clean(q.URL.Path)
	l := obj{"ev": "req", "panic": false, "q": obj{"method": str(s, "method"), "path": seg[0], "segs": segs, "ik": codes(ik),
		"clean": clean == q.URL.Path || clean+"/" == q.URL.Path, "good": good, "fields": fields, "origin": s["origin"], "alg": opt(s, "alg"), "akey": opt(s, "akey")}}
	if r.repo != nil {
		r.repo.fail, r.repo.after, r.repo.once, r.repo.met = opt(s, "fail"), num(s, "after", 0), flag(s, "once"), false
	}
	res, err := r.send(q)
	if r.repo != nil {
		if r.repo.met {
			l["fail"] = r.repo.fail
		}
		r.repo.fail = ""
	}
	if err != nil {
		l["panic"], l["why"], l["a"] = true, err.Error(), noResponse()
		return l
	}
	b, err := io.ReadAll(res.Body)
	res.Body.Close()
	if err != nil {
		l["panic"], l["why"], l["a"] = true, err.Error(), noResponse()
		return l
	}
	a, said := responseObj(res, b)
	l["a"] = a
	if res.StatusCode == 200 {
		switch seg[0] {
		case "machine":
			if v, ok := said["ik"]; ok && segs == 1 {
				r.iks[base] = v
			}
		case "encrypt_pin":
			r.cts[key("p")] = said["encrypted"]
		case "encrypt_data":
			r.cts[key("d")] = said["encrypted"]
		}
	}
	if r.svc != nil && flag(s, "list") {
		l["list"] = machineObjs(r.svc.GetMachines())
	}
	return l
}

// escaped is a path segment in which the characters at some places are written as escapes though they need not be.
func escaped(t string, places any) string {
	at, _ := places.([]any)
	var b strings.Builder
	for i := 0; i < len(t); i++ {
		c := url.PathEscape(t[i : i+1])
		for _, p := range at {
			if n, _ := p.(float64); int(n) == i && len(c) == 1 {
				c = fmt.Sprintf([]string{"%%%02x", "%%%02X"}[i%2], t[i])
			}
		}
		b.WriteString(c)
	}
	return b.String()
}

func opt(o obj, f string) string { s, _ := o[f].(string); return s }

// spoiled makes of a body one that is not the object expected.
func spoiled(body []byte, how string, typed bool) []byte {
	t := strings.TrimSpace(string(body))
	inner, end := strings.TrimSpace(t[:len(t)-1]), ""
	if inner != "{" {
		end = ","
	}
	switch how {
	case "cut":
		t = inner
	case "comma":
		t = inner + ",}"
	case "array":
		t = "[" + t + "]"
	case "text":
		e, err := json.Marshal(t)
		check(err)
		t = string(e)
	case "comment":
		t = inner + "/* */}"
	case "unquoted":
		t = inner + end + "x:1}"
	case "single":
		t = inner + end + "'x':'y'}"
	case "nan":
		t = inner + end + `"x":NaN}`
	case "control":
		t = inner + end + "\"x\":\"\n\"}"
	case "escape":
		t = inner + end + `"x":"\x41"}`
	case "before":
		t = "x" + t
	case "typed":
		if !typed {
			t += "x"
		}
	default:
		t += how
	}
	return []byte(t)
}

// jsonBody writes an object of texts in one of several ways.
func jsonBody(names, vals []string, style, typed, how int) []byte {
	var b bytes.Buffer
	sp, nl := "", ""
	if style&1 != 0 {
		sp, nl = " ", "\n\t"
	}
	enc := func(s string) string {
		e, err := json.Marshal(s)
		check(err)
		if style&2 != 0 { // every ASCII character escaped
			var u strings.Builder
			u.WriteByte('"')
			for _, c := range s {
				if c < 0x10000 {
					fmt.Fprintf(&u, "\\u%04x", c)
				} else {
					fmt.Fprintf(&u, "\\u%04X\\u%04X", 0xD800+(c-0x10000)>>10, 0xDC00+(c-0x10000)&0x3FF)
				}
			}
			u.WriteByte('"')
			return u.String()
		}
		return string(e)
	}
	b.WriteString(sp + "{" + nl)
	for i := range names {
		if i > 0 {
			b.WriteString("," + nl)
		}
		v := enc(vals[i])
		if i == typed { // no text
			if v = strings.TrimLeft(vals[i], "0"); v == "" || strings.Trim(v, "0123456789") != "" {
				v = []string{"[" + enc(vals[i]) + "]", "true", "{}", "1e3", "[]", "false", "0"}[how%7]
			}
		}
		b.WriteString(`"` + names[i] + `"` + sp + ":" + sp + v)
	}
	if style&4 != 0 {
		if len(names) > 0 {
			b.WriteString(",")
		}
		b.WriteString(`"unrelated":{"pin":["1",2,null,true]}`)
	}
	b.WriteString(nl + "}" + nl)
	return b.Bytes()
}

// responseObj puts a response into the form of the specification, and returns the texts in it by name.
func responseObj(res *http.Response, body []byte) (obj, map[string]string) {
	h := res.Header
	a := obj{"status": res.StatusCode, "json": false, "text": codes(string(body)), "fields": []obj{}, "ctype": contentType(h.Get("Content-Type")),
		"acao": codes(h.Get("Access-Control-Allow-Origin")), "acam": codes(h.Get("Access-Control-Allow-Methods")),
		"acah": codes(h.Get("Access-Control-Allow-Headers")), "acac": codes(h.Get("Access-Control-Allow-Credentials"))}
	said := map[string]string{}
	var m map[string]json.RawMessage
	if json.Unmarshal(body, &m) != nil || m == nil {
		return a, said
	}
	a["json"], a["text"] = true, codes("")
	names := []string{}
	for n := range m {
		names = append(names, n)
	}
	sort.Strings(names)
	fs := []obj{}
	for _, n := range names {
		f := obj{"n": n, "k": "other", "t": codes(""), "ms": []obj{}}
		var v any
		check(json.Unmarshal(m[n], &v))
		switch v := v.(type) {
		case nil:
			f["k"] = "null"
		case string:
			f["k"], f["t"] = "text", codes(v)
			said[n] = v
		case obj:
			if o, ok := jsonMachine(v); ok {
				f["k"], f["ms"] = "machine", []obj{o}
			}
		case []any:
			ms, all := []obj{}, true
			for _, x := range v {
				x, _ := x.(obj)
				o, ok := jsonMachine(x)
				all = all && ok
				ms = append(ms, o)
			}
			if all {
				f["k"], f["ms"] = "machines", ms
			}
		}
		fs = append(fs, f)
	}
	a["fields"] = fs
	return a, said
}

// contentType is a media type without its parameters.
func contentType(s string) string {
	t, _, err := mime.ParseMediaType(s)
	if err != nil {
		return s
	}
	return t
}

func jsonMachine(v obj) (obj, bool) {
	get := func(n string) (string, bool) { s, ok := v[n].(string); return s, ok }
	alg, ok1 := get("Algorithm")
	akey, ok2 := get("AlgorithmKey")
	o := obj{"alg": alg, "akey": akey}
	all := ok1 && ok2
	for f, n := range map[string]string{"bdk": "BaseDerivativeKey", "ksn0": "KeySerialNumber", "ik": "InitialKey", "ksn": "CurrentKSN", "tk": "TransactionKey"} {
		s, ok := get(n)
		all = all && ok
		o[f] = codes(s)
	}
	return o, all
}

// -- the server process

type proc struct {
	cmd  *exec.Cmd
	addr string
}

func freePort() (string, error) {
	l, err := net.Listen("tcp", "127.0.0.1:0")
	if err != nil {
		return "", err
	}
	defer l.Close()
	return l.Addr().String(), nil
}

// startServer starts the built server; its address comes as a flag, from the environment, or both (then the
// environment's counts).
func startServer(how string) (*proc, error) {
	var last error
	for try := 0; try < 3; try++ {
		addr, err := freePort()
		check(err) // no loopback network: nothing can be said
		adm, err := freePort()
		check(err)
		other, err := freePort()
		check(err)
		args, env := []string{"-http.addr", addr, "-admin.addr", adm}, []string{}
		switch how {
		case "env":
			args, env = nil, []string{"HTTP_BIND_ADDRESS=" + addr, "HTTP_ADMIN_BIND_ADDRESS=" + adm}
		case "both":
			args[1] = other
			env = []string{"HTTP_BIND_ADDRESS=" + addr}
		}
		c := exec.Command(os.Getenv("VERIF_SERVER"), args...)
		c.Env = append(os.Environ(), env...)
		c.Dir = os.Getenv("VERIF_WORK")
		if err := c.Start(); err != nil {
			fatal("server: " + err.Error())
		}
		p := &proc{c, addr}
		if last = p.up(); last == nil {
			return p, nil
		}
		p.stop()
	}
	return nil, last
}

func (p *proc) up() error {
	end := time.Now().Add(15 * time.Second)
	for {
		c, err := net.DialTimeout("tcp", p.addr, time.Second)
		if err == nil {
			c.Close()
			return nil
		}
		if time.Now().After(end) {
			return fmt.Errorf("the server does not answer at %s: %v", p.addr, err)
		}
		time.Sleep(10 * time.Millisecond)
	}
}

func (p *proc) stop() {
	p.cmd.Process.Kill()
	p.cmd.Wait()
}
