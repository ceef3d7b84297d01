package checks

import (
	"bytes"
	"errors"
	"fmt"
	"io"
	"math"
	"math/rand"
	"net"
	"os"
	"path/filepath"
	"strings"
	"sync"
	"testing"
	"time"

	"github.com/dropmorepackets/haproxy-go/peers"
	"github.com/dropmorepackets/haproxy-go/pkg/encoding"
	"github.com/dropmorepackets/haproxy-go/spop"

	"verif/mon"
	"verif/ref"
)

var errSink = errors.New("sink is full")

// sink takes so many bytes and then fails, for ever.
type sink struct {
	b      []byte
	limit  int // -1: none
	failed bool
	after  int // writes after the failure
}

func (s *sink) Write(b []byte) (int, error) {
	if s.failed {
		s.after++
		return 0, errSink
	}
	n := len(b)
	if s.limit >= 0 && len(s.b)+n > s.limit {
		n = s.limit - len(s.b)
		s.failed = true
	}
	s.b = append(s.b, b[:n]...)
	if s.failed {
		return n, errSink
	}
	return n, nil
}

// wireMsg is something that writes itself. want nil means that it cannot be
// encoded; either means that both is right.
type wireMsg struct {
	what   string
	w      io.WriterTo
	want   []byte
	refuse bool // must be refused
	either bool // may be refused
	err    error
}

func genCaps(r *rand.Rand) (s []string) {
	for k := r.Intn(4); k > 0; k-- {
		s = append(s, []string{"pipelining", "async", "fragmentation", string(genBytes(r, r.Intn(5)))}[r.Intn(4)])
	}
	return s
}

var errCallback = errors.New("callback")

func genWireMsg(r *rand.Rand) wireMsg {
	str := func(b string) ref.Val { return ref.Val{T: ref.TString, Bytes: []byte(b)} }
	switch k := r.Intn(10); k {
	case 0, 1, 2: // handshake
		h := genHandshake(r)
		if r.Intn(3) == 0 {
			h.PID, h.RelPID = []int{0, -1, math.MaxInt32, math.MaxInt64, math.MinInt64, r.Int()}[r.Intn(6)], r.Intn(5)-2
		}
		if r.Intn(4) == 0 {
			h.Remote = strings.Repeat("r", r.Intn(9000))
		}
		m := &peers.Handshake{ProtocolIdentifier: h.Proto, Version: h.Version, RemotePeer: h.Remote, LocalPeerIdentifier: h.Local, ProcessID: h.PID, RelativeProcessID: h.RelPID}
		return wireMsg{what: fmt.Sprintf("handshake %d", len(h.Bytes())), w: m, want: h.Bytes()}
	case 3: // AGENT-HELLO
		v, caps, size := []string{"2.0", "", "1.0", string(genBytes(r, r.Intn(300)))}[r.Intn(4)], genCaps(r), uint32(genInt(r))
		m := &spop.AgentHelloFrame{Version: v, Capabilities: caps, MaxFrameSize: size}
		want := ref.Frame{Type: ref.FAgentHello, Flags: 1, Payload: ref.KVs(
			ref.KV{Name: "version", V: str(v)},
			ref.KV{Name: "max-frame-size", V: ref.Val{T: ref.TUint32, Int: uint64(size)}},
			ref.KV{Name: "capabilities", V: str(strings.Join(caps, ","))})}
		return wireMsg{what: fmt.Sprintf("AGENT-HELLO %d", want.Len()), w: m, want: want.Bytes()}
	case 4: // AGENT-HELLO that does not fit
		v := strings.Repeat("v", 30000+r.Intn(60000))
		caps := []string{strings.Repeat("c", r.Intn(60000))}
		m := &spop.AgentHelloFrame{Version: v, Capabilities: caps, MaxFrameSize: 1}
		want := ref.Frame{Type: ref.FAgentHello, Flags: 1, Payload: ref.KVs(
			ref.KV{Name: "version", V: str(v)},
			ref.KV{Name: "max-frame-size", V: ref.Val{T: ref.TUint32, Int: 1}},
			ref.KV{Name: "capabilities", V: str(caps[0])})}
		return wireMsg{what: fmt.Sprintf("AGENT-HELLO %d", want.Len()), w: m, want: want.Bytes(), either: want.Len() > 60000}
	case 5: // AGENT-DISCONNECT
		f := &spop.AgentDisconnectFrame{}
		code := 0
		switch r.Intn(5) {
		case 0:
			f.ErrCode, code = spop.ErrorNone, 0
		case 1:
			f.ErrCode, code = spop.ErrorTooBig, 3
		case 2:
			f.ErrCode, code = spop.ErrorUnknown, 99
		case 3:
			f.ErrCode, code = spop.ErrorRes, 13
		case 4:
			f.ErrCode, code = 77, 77 // not defined
		}
		want := ref.Frame{Type: ref.FAgentDisconnect, Flags: 1, Payload: ref.KVs(
			ref.KV{Name: "status-code", V: ref.Val{T: ref.TUint32, Int: uint64(code)}},
			ref.KV{Name: "message", V: str(f.ErrCode.String())})}
		return wireMsg{what: fmt.Sprintf("AGENT-DISCONNECT %d", code), w: f, want: want.Bytes()}
	default: // ACK
		req := genRequest(r, "m", genInt(r), genInt(r), reqOpts{maxMsgs: 2, maxArgs: 1, maxLen: 40, maxActs: 6, invalid: true})
		f := &spop.AckFrame{FrameID: req.fid, StreamID: req.sid}
		m := wireMsg{w: f}
		var steps []step
		for _, p := range req.plans {
			steps = append(steps, p.steps...)
		}
		if r.Intn(3) == 0 { // around the limit of a frame
			n := 65535 - 12 - r.Intn(60)
			if r.Intn(3) == 0 {
				n = 65000 + r.Intn(80000)
			}
			steps = append(steps, setStep(2, "big", ref.Val{T: ref.TString, Bytes: make([]byte, n)}))
		}
		fail := r.Intn(6) == 0
		f.ActionWriterCallback = func(w *encoding.ActionWriter) error {
			for _, s := range steps {
				_ = s.do(w)
			}
			if fail {
				return errCallback
			}
			return nil
		}
		var acts []byte
		for _, s := range steps {
			if !s.invalid {
				acts = ref.AppendAction(acts, s.act)
			}
		}
		want := ref.Frame{Type: ref.FAck, Flags: 1, StreamID: req.sid, FrameID: req.fid, Payload: acts}
		m.what, m.want = fmt.Sprintf("ACK %d", want.Len()), want.Bytes()
		m.refuse = fail || want.Len() > 65535
		if fail {
			m.err = errCallback
		}
		return m
	}
}

// write checks one message written to a sink with a limit.
func (m wireMsg) write(c *mon.C, cas string, limit int) {
	s := &sink{limit: limit}
	n, err := m.w.WriteTo(s)
	cas = fmt.Sprintf("%s %s limit %d", cas, m.what, limit)
	if n != int64(len(s.b)) {
		c.Violate("count", cas, "WriteTo returned %d, %d bytes were written", n, len(s.b))
	}
	if s.after > 0 {
		c.Violate("write-after-failure", cas, "%d writes after the failure", s.after)
	}
	switch {
	case m.refuse || m.either && err != nil && len(s.b) == 0 && !s.failed:
		c.Count("refused", 1)
		if err == nil {
			c.Violate("no-error", cas, "no error")
		} else if m.err != nil && !errors.Is(err, m.err) {
			c.Violate("other-error", cas, "got %v, want %v", err, m.err)
		}
		if len(s.b) > 0 {
			c.Violate("refused-written", cas, "error %v, but %x was written", err, tailOf(s.b))
		}
	case s.failed:
		c.Count("failed_writes", 1)
		if err == nil {
			c.Violate("no-error", cas, "the writer failed after %d bytes, WriteTo did not", limit)
		} else if !errors.Is(err, errSink) {
			c.Violate("other-error", cas, "got %v", err)
		}
		if !bytes.HasPrefix(m.want, s.b) {
			c.Violate("bytes", cas, "got %x, not the start of %x", tailOf(s.b), tailOf(m.want))
		}
	default:
		c.Count("written", 1)
		if err != nil {
			c.Violate("error", cas, "%v", err)
		}
		if !bytes.Equal(s.b, m.want) {
			c.Violate("bytes", cas, "got  %d %x\nwant %d %x", len(s.b), tailOf(s.b), len(m.want), tailOf(m.want))
		}
	}
}

func TestC31(t *testing.T) {
	c := mon.Start(t, "C31", "handshakes, AGENT-HELLOs, AGENT-DISCONNECTs and ACKs with generated fields, including ones at and above the frame limit and failing callbacks, written to working writers and to ones that fail after any number of bytes, alone and from several goroutines at once; handshakes are read back; NewHandshake is presented to a real HAProxy. Non-trivial: distinct message and limit.")
	defer c.Finish()
	r := c.Rng
	for i := 0; i < c.N(3000, 80000) && !c.Stop() && c.TimeLeft(); i++ {
		m := genWireMsg(r)
		cas := fmt.Sprintf("seed %d message %d", c.Seed, i)
		c.Case("%s %s", cas, m.what)
		if i < 6 {
			c.Sample("%s: %x", m.what, tailOf(m.want))
		}
		c.Guard("panic", cas, func() {
			m.write(c, cas, -1)
			c.Eval(m.what)
			limits := []int{r.Intn(len(m.want) + 1), r.Intn(20), len(m.want), len(m.want) - 1}
			for _, l := range limits[:1+r.Intn(4)] {
				m.write(c, cas, l)
				c.Eval(fmt.Sprint(m.what, l))
			}
			m.write(c, cas, -1)
			if h, ok := m.w.(*peers.Handshake); ok {
				var back peers.Handshake
				rest := genBytes(r, r.Intn(20))
				in := bytes.NewReader(append(append([]byte{}, m.want...), rest...))
				n, err := back.ReadFrom(in)
				if err != nil || n != int64(len(m.want)) || in.Len() != len(rest) || back != *h {
					c.Violate("handshake-back", cas, "%+v read back as %+v, n=%d of %d, %d left of %d, %v", *h, back, n, len(m.want), in.Len(), len(rest), err)
				}
			}
		})
	}
	// side by side, with callbacks that panic in between
	var wg sync.WaitGroup
	for g := 0; g < 8; g++ {
		rr := rand.New(rand.NewSource(r.Int63()))
		wg.Add(1)
		go func() {
			defer wg.Done()
			for i := 0; i < c.N(300, 8000) && !c.Stop() && c.TimeLeft(); i++ {
				m := genWireMsg(rr)
				cas := fmt.Sprintf("goroutine %d message %d", g, i)
				c.Guard("panic", cas, func() {
					m.write(c, cas, -1)
					if rr.Intn(4) == 0 {
						m.write(c, cas, rr.Intn(len(m.want)+1))
					}
				})
				if rr.Intn(10) == 0 {
					func() {
						defer func() { recover() }()
						(&spop.AckFrame{ActionWriterCallback: func(w *encoding.ActionWriter) error {
							w.SetString(encoding.VarScopeSession, "lost", "value")
							panic("callback")
						}}).WriteTo(io.Discard)
					}()
				}
				c.Count("written_concurrently", 1)
			}
		}()
	}
	wg.Wait()
	if !c.Stop() {
		c31HAProxy(c, r)
	}
}

// c31HAProxy shows NewHandshake to a real HAProxy.
func c31HAProxy(c *mon.C, r *rand.Rand) {
	host, err := os.Hostname()
	if err != nil || host == "" || strings.ContainsAny(host, " \t\r\n\"'\\#$") {
		c.HarnessError("hostname %q %v", host, err)
		return
	}
	name := fmt.Sprintf("hap-%d", r.Intn(1000000))
	cfg := "\tlocalpeer " + name + "\ndefaults\n\tmode http\n\ttimeout client 90s\n\ttimeout server 90s\n\ttimeout connect 30s\n" +
		"peers mypeers\n\tpeer " + name + " unix@DIR/peer\n"
	if host != name {
		cfg += "\tpeer " + host + " 127.0.0.1:9\n"
	}
	cfg += "backend t1\n\tstick-table type ip size 1k expire 60s store gpc0 peers mypeers\n"
	h := startHAProxy(c, cfg, nil)
	if h == nil {
		return
	}
	defer h.stop()
	for i := 0; i < c.N(6, 60) && !c.Stop(); i++ {
		remote := []string{name, name, name + "x", "nobody"}[r.Intn(4)]
		hs := peers.NewHandshake(remote)
		if hs.ProtocolIdentifier != "HAProxyS" || hs.RemotePeer != remote || hs.LocalPeerIdentifier != host || hs.ProcessID != os.Getpid() {
			c.Violate("new-handshake", remote, "got %+v", hs)
		}
		nc, err := net.Dial("unix", filepath.Join(h.dir, "peer"))
		if err != nil {
			c.HarnessError("dial: %v", err)
			return
		}
		nc.SetDeadline(time.Now().Add(60 * time.Second))
		if _, err := hs.WriteTo(nc); err != nil {
			c.HarnessError("writing to HAProxy: %v", err)
		}
		b := make([]byte, 4)
		_, err = io.ReadFull(nc, b)
		nc.Close()
		want := "200\n"
		if remote != name {
			want = "503\n" // not the name of this peer
		}
		if string(b) != want {
			c.Violate("haproxy-status", remote, "HAProxy answered %q (%v), want %q; %s", b, err, want, h.logs)
		}
		c.Count("haproxy_handshakes", 1)
		c.Eval("haproxy " + remote)
	}
}
