package checks

import (
	"bufio"
	"bytes"
	"context"
	"crypto/sha256"
	"encoding/base64"
	"encoding/hex"
	"fmt"
	"io"
	"math/rand"
	"net"
	"net/http"
	"net/netip"
	"net/url"
	"path/filepath"
	"strconv"
	"strings"
	"sync"
	"sync/atomic"
	"testing"
	"time"

	"github.com/dropmorepackets/haproxy-go/pkg/encoding"
	"github.com/dropmorepackets/haproxy-go/spop"

	"verif/mon"
	"verif/ref"
)

// Variables that the handlers may set: one name per scope and slot.
const c25Slots = 2

var scopeNames = []string{"proc", "sess", "txn", "req", "res"}

func c25Var(scope byte, slot int) string { return fmt.Sprintf("v%d%d", scope, slot) }

// e2eMsg is what one message of a request must look like and what its handler does.
type e2eMsg struct {
	name  string
	args  []ref.KV
	steps []step
	calls int
}

// e2eReq is one HTTP request.
type e2eReq struct {
	id   string
	msgs map[string]*e2eMsg
}

type e2eWorld struct {
	c    *mon.C
	mu   sync.Mutex
	reqs map[string]*e2eReq
	// messages of a session, by the session's source
	consts []ref.KV
	sess   int
	noargs int
	other  map[string]int

	gaveUp atomic.Bool
}

// handle checks the arguments against those of the request with the id and
// performs its actions.
func (w *e2eWorld) handle(_ context.Context, aw *encoding.ActionWriter, m *encoding.Message) {
	name := string(m.NameBytes())
	var args []ref.KV
	e := encoding.AcquireKVEntry()
	for m.KV.Next(e) {
		args = append(args, ref.KV{Name: string(e.NameBytes()), V: entryVal(e)})
	}
	err := m.KV.Error()
	encoding.ReleaseKVEntry(e)
	if err != nil {
		w.c.Violate("arguments", "", "message %q: %v", name, err)
		return
	}
	w.mu.Lock()
	var want []ref.KV
	var steps []step
	switch name {
	case "session":
		w.sess++
		want = w.consts
		steps = []step{setStep(1, "sessinfo", ref.Val{T: ref.TString, Bytes: []byte("session")})}
	case "noargs":
		w.noargs++
		steps = []step{setStep(2, "noargs", ref.Val{T: ref.TString, Bytes: []byte("noargs")})}
	default:
		if len(args) == 0 || args[0].Name != "id" || args[0].V.T != ref.TString {
			w.mu.Unlock()
			w.c.Violate("arguments", "", "message %q with arguments %v, want an id first", name, args)
			return
		}
		q := w.reqs[string(args[0].V.Bytes)]
		if q == nil || q.msgs[name] == nil {
			w.mu.Unlock()
			w.c.Violate("arguments", "", "message %q for the unknown request %v", name, args[0])
			return
		}
		q.msgs[name].calls++
		want, steps = q.msgs[name].args, q.msgs[name].steps
	}
	w.mu.Unlock()
	if len(args) != len(want) {
		w.c.Violate("arguments", "", "message %q: %v, want %v", name, args, want)
		return
	}
	for i := range want {
		if args[i].Name != want[i].Name || !args[i].V.Equal(want[i].V) {
			w.c.Violate("arguments", "", "message %q, argument %d: %v, want %v", name, i, args[i], want[i])
			return
		}
		w.c.Count(fmt.Sprintf("args_type_%d", want[i].V.T), 1)
	}
	for _, s := range steps {
		if err := s.do(aw); err != nil {
			w.c.Violate("action-verdict", "", "%v: %v", s, err)
		}
		w.c.Count("actions_"+s.call, 1)
	}
}

// e2eStep sets or unsets one of the slots.
func e2eStep(r *rand.Rand, maxLen int, scopeSet []byte) step {
	for {
		s := genStep(r, maxLen, false)
		sc := scopeSet[r.Intn(len(scopeSet))]
		name := c25Var(sc, r.Intn(c25Slots))
		a := ref.Action{Scope: sc, Name: name, V: s.act.V, Unset: s.act.Unset}
		v := a.V
		scope := scopes[sc]
		switch s.call {
		case "SetString":
			str := string(v.Bytes)
			s.do = func(w *encoding.ActionWriter) error { return w.SetString(scope, name, str) }
		case "SetStringBytes":
			s.do = func(w *encoding.ActionWriter) error { return w.SetStringBytes(scope, name, v.Bytes) }
		case "SetBinary":
			s.do = func(w *encoding.ActionWriter) error { return w.SetBinary(scope, name, v.Bytes) }
		case "SetBool":
			s.do = func(w *encoding.ActionWriter) error { return w.SetBool(scope, name, v.Bool) }
		case "SetUInt32":
			s.do = func(w *encoding.ActionWriter) error { return w.SetUInt32(scope, name, uint32(v.Int)) }
		case "SetInt32":
			s.do = func(w *encoding.ActionWriter) error { return w.SetInt32(scope, name, int32(v.Int)) }
		case "SetInt64":
			s.do = func(w *encoding.ActionWriter) error { return w.SetInt64(scope, name, int64(v.Int)) }
		case "SetUInt64":
			if int64(v.Int) < 0 { // HAProxy has no such integers
				continue
			}
			s.do = func(w *encoding.ActionWriter) error { return w.SetUInt64(scope, name, v.Int) }
		case "SetAddr":
			s.do = func(w *encoding.ActionWriter) error { return w.SetAddr(scope, name, addrOf(v.Bytes)) }
		case "Unset":
			s.do = func(w *encoding.ActionWriter) error { return w.Unset(scope, name) }
		default:
			continue
		}
		s.act = a
		return s
	}
}

// e2eShow is what HAProxy shows of a variable: whether it is found, its text
// (for all but strings) and the hash of its content.
func e2eShow(v *ref.Val) string {
	if v == nil {
		return "0|"
	}
	text := ""
	switch v.T {
	case ref.TBool:
		text = "0"
		if v.Bool {
			text = "1"
		}
	case ref.TInt64:
		text = strconv.FormatInt(int64(v.Int), 10)
	case ref.TIPv4, ref.TIPv6:
		a, _ := netip.AddrFromSlice(v.Bytes)
		text = a.String()
	default:
		h := sha256.Sum256(v.Bytes)
		return fmt.Sprintf("1|%s", strings.ToUpper(hex.EncodeToString(h[:])))
	}
	return "1|" + text
}

// c25Run exercises one HAProxy configuration.
// c25Run tells whether HAProxy gave up requests of its own accord.
func c25Run(c *mon.C, cfg c25Config) (again bool) {
	r := rand.New(rand.NewSource(cfg.seed))
	w := &e2eWorld{c: c, reqs: map[string]*e2eReq{}, other: map[string]int{}}
	base, cancel := context.WithCancel(context.Background())
	agent := &spop.Agent{Handler: spop.HandlerFunc(w.handle), BaseContext: base}
	al, err := net.Listen("tcp", "127.0.0.1:0")
	if err != nil {
		c.HarnessError("%v", err)
		cancel()
		return
	}
	served := make(chan struct{})
	go func() { agent.Serve(al); close(served) }()
	defer func() { cancel(); al.Close(); <-served }()

	var show []string
	for sc := range scopeNames {
		for k := 0; k < c25Slots; k++ {
			v := fmt.Sprintf("%s.e.%s", scopeNames[sc], c25Var(byte(sc), k))
			dir := []string{"http-request set-header x-q-", "http-response set-header x-p-"}
			for d, set := range dir {
				if d == 1 && sc == 3 || d == 0 && sc == 4 {
					continue
				}
				show = append(show, fmt.Sprintf("%sf-%d%d 1 if { var(%s) -m found }", set, sc, k, v))
				show = append(show, fmt.Sprintf("%st-%d%d %%[var(%s),url_enc,bytes(0,60)]", set, sc, k, v))
				show = append(show, fmt.Sprintf("%sh-%d%d %%[var(%s),sha2(256),hex]", set, sc, k, v))
			}
		}
	}
	consts := []ref.KV{{"str", ref.Val{T: ref.TString, Bytes: []byte("con stant")}}, {"", ref.Val{T: ref.TInt64, Int: uint64(1<<64 - 5)}},
		{"t", ref.Val{T: ref.TBool, Bool: true}}, {"f", ref.Val{T: ref.TBool}},
		{"four", ref.Val{T: ref.TIPv4, Bytes: []byte{192, 0, 2, 7}}},
		{"six", ref.Val{T: ref.TIPv6, Bytes: netip.MustParseAddr("2001:db8::7").AsSlice()}},
		{"bin", ref.Val{T: ref.TBinary, Bytes: []byte{0, 0xFF, 1, 2}}}, {"max", ref.Val{T: ref.TInt64, Int: 1<<63 - 1}}}
	w.consts = consts
	spoe := `[engine]
spoe-agent a
	messages session noargs req1 req2 res1
	option var-prefix e
	option set-on-error err
	` + cfg.agentOpts + `
	timeout hello 30s
	timeout idle ` + cfg.idle + `
	timeout processing 25s
	use-backend agents
	log global
spoe-message session
	args str=str("con stant") int(-5) t=bool(true) f=bool(false) four=ipv4(192.0.2.7) six=ipv6(2001:db8::7) bin=bin(00FF0102) max=int(9223372036854775807)
	event on-client-session
spoe-message req1
	args id=req.hdr(x-id) s=req.hdr(x-s) i=req.hdr(x-i),add(0) b=req.hdr(x-b),bool
	event on-frontend-http-request
spoe-message noargs
	event on-frontend-http-request
spoe-message req2
	args id=req.hdr(x-id) four=req.hdr_ip(x-4) six=req.hdr_ip(x-6) bin=req.hdr(x-bin),b64dec missing=req.hdr(x-missing) m=method p=path body=req.body
	event on-frontend-http-request
spoe-message res1
	args id=var(txn.id) status=status s=res.hdr(x-r) missing=res.hdr(x-missing)
	event on-http-response
`
	hcfg := `	tune.bufsize ` + strconv.Itoa(cfg.bufsize) + `
	` + cfg.global + `
defaults
	mode http
	option http-buffer-request
	timeout client 90s
	timeout server 90s
	timeout connect 30s
	timeout http-keep-alive 90s
frontend fe
	bind unix@DIR/fe
	filter spoe engine engine config DIR/spoe.cfg
	http-request set-var(txn.id) req.hdr(x-id)
	` + strings.Join(show, "\n\t") + `
	http-response set-header x-err %[var(txn.e.err)] if { var(txn.e.err) -m found }
	http-response set-header x-noargs %[var(txn.e.noargs)]
	http-response set-header x-sess %[var(sess.e.sessinfo)]
	use_backend be
backend be
	server s unix@DIR/be
backend agents
	mode tcp
	` + cfg.backend + `
	timeout server 3m
	timeout check 20s
	server a ` + al.Addr().String() + ` ` + cfg.check + `
`
	h := startHAProxy(c, hcfg, map[string]string{"spoe.cfg": spoe})
	if h == nil {
		return
	}
	defer h.stop()

	// the server behind HAProxy sends what the request header says and returns
	// the variables it was told about
	bl, err := net.Listen("unix", filepath.Join(h.dir, "be"))
	if err != nil {
		c.HarnessError("%v", err)
		return
	}
	srv := &http.Server{Handler: http.HandlerFunc(func(rw http.ResponseWriter, q *http.Request) {
		io.Copy(io.Discard, q.Body)
		for k, v := range q.Header {
			if strings.HasPrefix(strings.ToLower(k), "x-q-") {
				rw.Header()[k] = v
			}
		}
		rw.Header().Set("x-r", q.Header.Get("x-r"))
		st, _ := strconv.Atoi(q.Header.Get("x-status"))
		rw.WriteHeader(st)
	})}
	go srv.Serve(bl)
	defer srv.Close()

	var ids atomic.Int64
	run := func(r *rand.Rand, n int, scopeSet []byte, conn int) {
		proc := map[string]*ref.Val{}
		for i := 0; i < n && !c.Stop() && !w.gaveUp.Load(); {
			nc, err := net.Dial("unix", filepath.Join(h.dir, "fe"))
			if err != nil {
				c.HarnessError("%v", err)
				return
			}
			br := bufio.NewReaderSize(nc, 1<<17)
			sess := map[string]*ref.Val{}
			for k := 1 + r.Intn(8); k > 0 && i < n && !c.Stop() && !w.gaveUp.Load(); k-- {
				i++
				id := fmt.Sprintf("q%d", ids.Add(1))
				if !w.exchange(r, nc, br, id, cfg, scopeSet, proc, sess) {
					break
				}
			}
			nc.Close()
		}
	}
	all := []byte{0, 1, 2, 3, 4}
	run(r, cfg.seq, all, 0)
	var wg sync.WaitGroup
	for g := 0; g < cfg.conc; g++ {
		wg.Add(1)
		r := rand.New(rand.NewSource(cfg.seed + int64(g) + 1))
		go func() {
			defer wg.Done()
			run(r, cfg.seq/2, all[1:], g)
		}()
	}
	wg.Wait()
	c.Count("haproxy_runs", 1)
	if h.gone() {
		c.HarnessError("haproxy ended: %s", h.logs)
	}
	return w.gaveUp.Load()
}

// c25Idle is an idle timeout that ends connections to the agent now and then.
const c25Idle = "200ms"

type c25Config struct {
	seed                                    int64
	bufsize, maxVal                         int
	global, agentOpts, idle, check, backend string
	seq, conc                               int
}

func (w *e2eWorld) exchange(r *rand.Rand, nc net.Conn, br *bufio.Reader, id string, cfg c25Config, scopeSet []byte, proc, sess map[string]*ref.Val) bool {
	c := w.c
	// inputs
	printable := func(n int) string {
		const al = "abcdefghijklmnopqrstuvwxyzABCDEFGHIJKLMNOPQRSTUVWXYZ0123456789-_./=+*!"
		b := make([]byte, n)
		for i := range b {
			b[i] = al[r.Intn(len(al))]
		}
		return string(b)
	}
	str := ref.Val{T: ref.TString, Bytes: []byte(printable(1 + genLen(r, cfg.maxVal)))}
	num := int64(genInt(r))
	flag := r.Intn(2)
	four, six := genVal(r, ref.TIPv4, 0), genVal(r, ref.TIPv6, 0)
	if six.Bytes[0] == 0 { // avoid the forms that HAProxy turns into IPv4
		six.Bytes[0] = 0x20
	}
	bin := genVal(r, ref.TBinary, cfg.maxVal/2)
	if len(bin.Bytes) == 0 {
		bin.Bytes = []byte{0}
	}
	a4, _ := netip.AddrFromSlice(four.Bytes)
	a6, _ := netip.AddrFromSlice(six.Bytes)
	body := genVal(r, ref.TBinary, cfg.maxVal/2)
	method := []string{"GET", "POST", "PUT", "DELETE", "FROB"}[r.Intn(5)]
	path := "/" + printable(r.Intn(40))
	path = strings.NewReplacer("?", "", "#", "", "//", "/").Replace(path)
	status := 200 + r.Intn(4)
	resp := printable(1 + genLen(r, cfg.maxVal/2))
	present := r.Intn(5) > 0

	opt := func(v ref.Val) ref.Val {
		if present {
			return v
		}
		return ref.Val{T: ref.TNull}
	}
	idv := ref.KV{Name: "id", V: ref.Val{T: ref.TString, Bytes: []byte(id)}}
	tstr := func(s string) ref.Val { return ref.Val{T: ref.TString, Bytes: []byte(s)} }
	mk := func(name string, args ...ref.KV) *e2eMsg {
		m := &e2eMsg{name: name, args: append([]ref.KV{idv}, args...)}
		for k := r.Intn(5); k > 0; k-- {
			m.steps = append(m.steps, e2eStep(r, cfg.maxVal/2, scopeSet))
		}
		return m
	}
	q := &e2eReq{id: id, msgs: map[string]*e2eMsg{}}
	add := func(m *e2eMsg) { q.msgs[m.name] = m }
	add(mk("req1", ref.KV{Name: "s", V: opt(str)}, ref.KV{Name: "i", V: opt(ref.Val{T: ref.TInt64, Int: uint64(num)})},
		ref.KV{Name: "b", V: opt(ref.Val{T: ref.TBool, Bool: flag == 1})}))
	add(mk("req2", ref.KV{Name: "four", V: opt(four)}, ref.KV{Name: "six", V: opt(six)}, ref.KV{Name: "bin", V: opt(bin)},
		ref.KV{Name: "missing"}, ref.KV{Name: "m", V: tstr(method)}, ref.KV{Name: "p", V: tstr(path)}, ref.KV{Name: "body", V: body}))
	add(mk("res1", ref.KV{Name: "status", V: ref.Val{T: ref.TInt64, Int: uint64(status)}}, ref.KV{Name: "s", V: tstr(resp)}, ref.KV{Name: "missing"}))
	w.mu.Lock()
	w.reqs[id] = q
	w.mu.Unlock()
	defer func() {
		w.mu.Lock()
		delete(w.reqs, id)
		w.mu.Unlock()
	}()
	cas := fmt.Sprintf("%+v\nrequest %s: %v / %v / %v", cfg, id, q.msgs["req1"], q.msgs["req2"], q.msgs["res1"])
	if cfg.conc == 0 {
		c.Case("%s", cas)
	}

	var b bytes.Buffer
	fmt.Fprintf(&b, "%s %s HTTP/1.1\r\nhost: h\r\nx-id: %s\r\nx-r: %s\r\nx-status: %d\r\ncontent-length: %d\r\n", method, path, id, resp, status, len(body.Bytes))
	if present {
		fmt.Fprintf(&b, "x-s: %s\r\nx-i: %d\r\nx-b: %d\r\nx-4: %s\r\nx-6: %s\r\nx-bin: %s\r\n", str.Bytes, num, flag, a4, a6, base64.StdEncoding.EncodeToString(bin.Bytes))
	}
	b.WriteString("\r\n")
	b.Write(body.Bytes)
	nc.SetDeadline(time.Now().Add(80 * time.Second))
	if _, err := nc.Write(b.Bytes()); err != nil {
		c.HarnessError("request: %v", err)
		return false
	}
	res, err := http.ReadResponse(br, &http.Request{Method: method})
	if err != nil {
		c.HarnessError("response: %v (%s)", err, cas)
		return false
	}
	io.Copy(io.Discard, res.Body)
	res.Body.Close()

	if e := res.Header.Get("x-err"); cfg.idle == c25Idle && (e == "257" || e == "258" || e == "" && res.Header.Get("x-sess") == "") {
		// HAProxy gives up what is queued when its last connection to the
		// agent ends just then, because it was idle
		w.gaveUp.Store(true)
		return false
	} else if e != "" {
		c.Violate("processing-error", cas, "HAProxy reports error %s for the offload of the request", e)
		return false
	}
	if res.StatusCode != status {
		c.HarnessError("status %d, want %d", res.StatusCode, status)
		return false
	}
	if res.Header.Get("x-noargs") != "noargs" || res.Header.Get("x-sess") != "session" {
		c.Violate("variables", cas, "variables of the messages without request: %q %q", res.Header.Get("x-noargs"), res.Header.Get("x-sess"))
	}
	w.mu.Lock()
	for _, m := range q.msgs {
		if m.calls != 1 {
			c.Violate("not-exactly-once", cas, "message %s was handled %d times", m.name, m.calls)
		}
	}
	w.mu.Unlock()

	vars := map[string]*ref.Val{}
	apply := func(m *e2eMsg) {
		for _, s := range m.steps {
			dst := vars
			switch s.act.Scope {
			case 0:
				dst = proc
			case 1:
				dst = sess
			}
			k := c25Var(s.act.Scope, int(s.act.Name[2]-'0'))
			if s.act.Unset {
				dst[k] = nil
				continue
			}
			v := s.act.V
			dst[k] = &v
		}
	}
	check := func(prefix string, skip int) {
		for sc := range scopeNames {
			if sc == skip || sc == 0 && scopeSet[0] != 0 {
				continue
			}
			for k := 0; k < c25Slots; k++ {
				n := c25Var(byte(sc), k)
				v := vars[n]
				if sc == 0 {
					v = proc[n]
				} else if sc == 1 {
					v = sess[n]
				}
				hn := func(t string) string { return res.Header.Get(fmt.Sprintf("%s%s-%d%d", prefix, t, sc, k)) }
				got := "0|"
				if hn("f") != "" {
					got = "1|" + hn("t")
					if v != nil && (v.T == ref.TString || v.T == ref.TBinary) {
						got = "1|" + hn("h")
					}
					got, _ = url.PathUnescape(got)
				}
				want := e2eShow(v)
				if got != want {
					c.Violate("variables", cas, "%s.%s at %s: HAProxy has %q (text %q, content %q), the handlers made it %v: %q",
						scopeNames[sc], n, prefix, got, hn("t"), hn("h"), v, want)
				}
				c.Count("variables_compared", 1)
				if v != nil {
					c.Count(fmt.Sprintf("variables_type_%d", v.T), 1)
				}
			}
		}
	}
	// state at the time of the request rules
	apply(q.msgs["req1"])
	apply(q.msgs["req2"])
	check("x-q-", 4)
	for sc := byte(3); sc <= 4; sc++ { // HAProxy drops both when the response arrives
		for k := 0; k < c25Slots; k++ {
			delete(vars, c25Var(sc, k))
		}
	}
	apply(q.msgs["res1"])
	check("x-p-", 3)
	c.Count("requests", 1)
	var key strings.Builder
	for _, n := range []string{"req1", "req2", "res1"} {
		for _, s := range q.msgs[n].steps {
			fmt.Fprintf(&key, "%s%d%s%d,", s.call, s.act.Scope, s.act.Name, len(s.act.V.Bytes))
		}
	}
	c.Eval(fmt.Sprintf("%d %d %d %d %s", len(str.Bytes), len(bin.Bytes), len(body.Bytes), len(resp), key.String()))
	return !res.Close
}

func (m *e2eMsg) String() string { return fmt.Sprintf("%s %v -> %v", m.name, m.args, m.steps) }

func TestC25(t *testing.T) {
	c := mon.Start(t, "C25", "HTTP requests through a real HAProxy whose SPOE filter sends five messages per request/session to the library's agent: arguments of every type HAProxy has (string, integer, boolean, IPv4/6, binary, null, unnamed) computed from generated request data and compared in the handler, and generated set/unset calls of every setter and scope that HAProxy echoes by hash and text. Sequential, keep-alive and concurrent connections, several configurations. Non-trivial: distinct argument lengths and calls.")
	defer c.Finish()
	r := c.Rng
	for i := 0; i < c.N(3, 40) && !c.Stop() && c.TimeLeft(); i++ {
		cfg := c25Config{seed: r.Int63(), bufsize: 16384, maxVal: 2400, idle: "2m", seq: c.N(120, 400), conc: c.N(6, 16)}
		switch (i + c.Proc()) % 4 {
		case 1:
			cfg.bufsize, cfg.maxVal, cfg.idle = 65536, 12000, c25Idle
			cfg.check = "check inter 50ms fall 60"
			cfg.global = "nbthread 1"
		case 2:
			cfg.agentOpts = "max-frame-size 16000"
			cfg.check, cfg.backend = "check inter 50ms fall 60", "option spop-check"
		case 3:
			cfg.agentOpts = "no option pipelining\n\tno option async"
			cfg.maxVal = 300
		}
		for try := 1; c25Run(c, cfg) && !c.Stop(); try++ {
			c.Count("cases_haproxy_gave_up", 1)
			if try == 8 {
				c.Violate("processing-error", fmt.Sprintf("%+v", cfg), "HAProxy loses its connections to the agent each time")
				break
			}
			cfg.seed++
		}
	}
}
