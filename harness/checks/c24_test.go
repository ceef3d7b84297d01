package checks

import (
	"context"
	"errors"
	"fmt"
	"io"
	"math/rand"
	"net"
	"os"
	"runtime"
	"sync"
	"sync/atomic"
	"syscall"
	"testing"
	"testing/synctest"
	"time"

	"github.com/dropmorepackets/haproxy-go/peers"
	"github.com/dropmorepackets/haproxy-go/peers/sticktable"
	"github.com/dropmorepackets/haproxy-go/pkg/encoding"
	"github.com/dropmorepackets/haproxy-go/pkg/testutil"
	"github.com/dropmorepackets/haproxy-go/spop"

	"verif/mon"
	"verif/ref"
)

// Locks and channels of a harness order the goroutines of the library and hide
// their races. The connections here share nothing between reading and writing:
// what is read is prepared in advance, what is written is dropped.

type scriptStep struct {
	data  []byte
	pause time.Duration // before it
}

type scriptConn struct {
	steps []scriptStep
	end   error // after the last step
	stay  bool  // or nothing, until the connection is closed
	close chan struct{}
	once  sync.Once
	fail  atomic.Bool
}

func newScriptConn() *scriptConn { return &scriptConn{end: io.EOF, close: make(chan struct{})} }

func (s *scriptConn) Read(b []byte) (int, error) {
	for len(s.steps) > 0 && len(s.steps[0].data) == 0 {
		s.steps = s.steps[1:]
	}
	if len(s.steps) == 0 {
		if s.stay {
			<-s.close
			return 0, net.ErrClosed
		}
		return 0, s.end
	}
	st := &s.steps[0]
	if st.pause > 0 {
		t := time.NewTimer(st.pause)
		select {
		case <-t.C:
		case <-s.close:
			return 0, net.ErrClosed
		}
		st.pause = 0
	} else {
		select {
		case <-s.close:
			return 0, net.ErrClosed
		default:
		}
	}
	n := copy(b, st.data)
	st.data = st.data[n:]
	return n, nil
}

func (s *scriptConn) Write(b []byte) (int, error) {
	select {
	case <-s.close:
		return 0, net.ErrClosed
	default:
	}
	var sum byte
	for _, x := range b { // a buffer that is reused too early shows up here
		sum += x
	}
	if sum == 77 {
		runtime.Gosched()
	}
	if s.fail.Load() {
		return 0, syscall.EPIPE
	}
	return len(b), nil
}

func (s *scriptConn) Close() error {
	s.once.Do(func() { close(s.close) })
	return nil
}
func (s *scriptConn) LocalAddr() net.Addr                { return &net.TCPAddr{} }
func (s *scriptConn) RemoteAddr() net.Addr               { return &net.TCPAddr{} }
func (s *scriptConn) SetDeadline(t time.Time) error      { return nil }
func (s *scriptConn) SetReadDeadline(t time.Time) error  { return nil }
func (s *scriptConn) SetWriteDeadline(t time.Time) error { return nil }

type scriptListener struct {
	ch    chan net.Conn
	close chan struct{}
	once  sync.Once
}

func newScriptListener() *scriptListener {
	return &scriptListener{ch: make(chan net.Conn, 64), close: make(chan struct{})}
}

func (l *scriptListener) Accept() (net.Conn, error) {
	select {
	case c := <-l.ch:
		return c, nil
	case <-l.close:
		return nil, net.ErrClosed
	}
}
func (l *scriptListener) Close() error   { l.once.Do(func() { close(l.close) }); return nil }
func (l *scriptListener) Addr() net.Addr { return &net.TCPAddr{} }

// raceStats are only counted, atomically.
type raceStats struct {
	conns, calls, updates, pushes, closes, heartbeats atomic.Int64
}

// stressHandler does everything a handler may do, without any lock.
func stressHandler(st *raceStats) spop.HandlerFunc {
	return func(ctx context.Context, w *encoding.ActionWriter, m *encoding.Message) {
		st.calls.Add(1)
		mode := 0
		if n := m.NameBytes(); len(n) > 0 {
			mode = int(n[0])
		}
		switch mode % 9 {
		case 0: // read slowly
			e := encoding.AcquireKVEntry()
			var sum int
			for m.KV.Next(e) {
				runtime.Gosched()
				for _, b := range e.NameBytes() {
					sum += int(b)
				}
				runtime.Gosched()
				v := e.Value()
				runtime.Gosched()
				if b, ok := v.([]byte); ok {
					for _, x := range b {
						sum += int(x)
					}
				}
				_ = w.SetInt64(encoding.VarScopeTransaction, string(e.NameBytes()), int64(sum))
			}
			encoding.ReleaseKVEntry(e)
		case 1:
			var dst struct {
				A string `spoe:"a"`
				B []byte `spoe:"b"`
				C *int64 `spoe:"c"`
			}
			_ = m.KV.Unmarshal(&dst)
			runtime.Gosched()
			_ = w.SetString(encoding.VarScopeSession, "a", dst.A)
			_ = w.SetStringBytes(encoding.VarScopeSession, "b", dst.B)
		case 2:
			time.Sleep(time.Duration(mode) * time.Microsecond)
			_ = w.Unset(encoding.VarScopeRequest, "x")
		case 3:
			panic("stress")
		case 4:
			select {
			case <-ctx.Done():
			case <-time.After(3 * time.Millisecond):
			}
		case 5:
			go func() { // the context may be kept
				select {
				case <-ctx.Done():
				case <-time.After(20 * time.Millisecond):
				}
				_ = context.Cause(ctx)
			}()
			_ = w.SetBool(encoding.VarScopeProcess, "b", true)
		case 6:
			b := make([]byte, 300*mode)
			for i := 0; i < 4; i++ {
				_ = w.SetStringBytes(encoding.VarScopeTransaction, "big", b)
				runtime.Gosched()
			}
			_ = w.SetBinary(encoding.VarScopeResponse, "bin", b)
		case 7:
			kw := encoding.AcquireKVWriter(make([]byte, 200), 0)
			_ = kw.SetString("k", "v")
			s := encoding.AcquireKVScanner(kw.Bytes(), 1)
			_ = s.Discard()
			encoding.ReleaseKVScanner(s)
			encoding.ReleaseKVWriter(kw)
		case 8:
			var dst raceStruct
			_ = m.KV.Unmarshal(&dst)
			setAll(rand.New(rand.NewSource(int64(mode))), w)
		}
	}
}

func spoeScript(r *rand.Rand) *scriptConn {
	s := newScriptConn()
	max := []uint32{256, 1000, 16380, 65535, 1 << 20}[r.Intn(5)]
	var extra []ref.KV // what HAProxy says and what a stranger might
	if r.Intn(2) == 0 {
		extra = append(extra, ref.KV{Name: "engine-id", V: ref.Val{T: ref.TString, Bytes: []byte(engineID)}})
	}
	if r.Intn(4) == 0 {
		extra = append(extra, genKVs(r, 1+r.Intn(3), 20)...)
	}
	s.steps = append(s.steps, scriptStep{data: ref.Hello(max, extra...).Bytes()})
	for k := r.Intn(40); k > 0; k-- {
		var b []byte
		switch r.Intn(12) {
		case 0:
			b, _ = hostileFrame(r, max)
			if r.Intn(3) > 0 { // mostly ones that go on
				b = nil
			}
		default:
			ms := genMsgs(r, 1+r.Intn(3), 6, 40)
			for i := range ms {
				ms[i].Name = string(rune('A'+r.Intn(40))) + ms[i].Name
			}
			b = ref.Notify(genInt(r), genInt(r), ms...).Bytes()
			if len(b) > int(max) {
				continue
			}
		}
		p := time.Duration(0)
		if r.Intn(6) == 0 {
			p = time.Duration(r.Intn(2000)) * time.Microsecond
		}
		s.steps = append(s.steps, scriptStep{b, p})
	}
	switch r.Intn(6) {
	case 0:
		s.steps = append(s.steps, scriptStep{ref.Disconnect(0, "bye").Bytes(), 0})
	case 1:
		s.end = &net.OpError{Op: "read", Err: os.NewSyscallError("read", syscall.ECONNRESET)}
	case 2:
		b := ref.Hello(300)
		s.steps[0].data = b.Bytes()
	case 3:
		time.AfterFunc(time.Duration(r.Intn(3000))*time.Microsecond, func() { s.fail.Store(true) })
	case 4:
		s.stay = true
		time.AfterFunc(time.Duration(r.Intn(20))*time.Millisecond, func() { s.Close() })
	}
	return s
}

// stressPeer is a peer handler without any lock.
type stressPeer struct {
	st     *raceStats
	shared []*sticktable.EntryUpdate
	def    *sticktable.Definition
	seed   int64
	every  time.Duration
	last   *sticktable.EntryUpdate // only used by callbacks, which never overlap
	closed int
}

func (h *stressPeer) HandleHandshake(ctx context.Context, hs *peers.Handshake) {
	_ = hs.RemotePeer + hs.LocalPeerIdentifier
	w := peers.WriterFromContext(ctx)
	_ = peers.Connection(ctx).RemoteAddr()
	_ = w.SendTableDefinition(h.def)
	for g := 0; g < 2; g++ {
		go func() { // pushes from other goroutines, shared entries included
			r := rand.New(rand.NewSource(h.seed + int64(g)))
			for i := 0; i < 30 && ctx.Err() == nil; i++ {
				h.st.pushes.Add(1)
				switch r.Intn(5) {
				case 0:
					_ = w.SendEntries(h.shared)
				case 1:
					_ = w.SendTableSwitch(7)
				case 2:
					_ = w.SendTableDefinition(h.def)
				case 3:
					_ = w.Flush()
				default:
					_ = w.SendEntry(h.shared[r.Intn(len(h.shared))])
				}
				if h.every > 0 {
					time.Sleep(time.Duration(r.Int63n(int64(h.every))))
				} else {
					runtime.Gosched()
				}
			}
		}()
	}
}

func (h *stressPeer) HandleUpdate(ctx context.Context, u *sticktable.EntryUpdate) {
	n := h.st.updates.Add(1)
	if h.last != nil && n%4 == 0 {
		old := h.last
		go func() { _ = old.String(); _ = refDef(old.StickTable); refUpdate(old) }() // kept by the application
	}
	h.last = u
	if n%7 == 0 {
		_ = peers.WriterFromContext(ctx).SendEntry(h.shared[0])
	}
	if n%50 == 0 {
		time.Sleep(time.Millisecond)
	}
}

func (h *stressPeer) Close() error {
	h.closed++
	h.st.closes.Add(1)
	return errors.New("closed")
}

func newStressPeer(r *rand.Rand, st *raceStats, every time.Duration) *stressPeer {
	d := genDef(r, 5)
	h := &stressPeer{st: st, def: libDef(d), seed: r.Int63(), every: every}
	for i := 0; i < 4; i++ {
		h.shared = append(h.shared, libUpdate(h.def, genUpdate(r, d)))
	}
	return h
}

func peerScript(r *rand.Rand, pause time.Duration) *scriptConn {
	s := newScriptConn()
	s.steps = append(s.steps, scriptStep{data: genHandshake(r).Bytes()})
	for _, m := range genPSession(r, psOpts{msgs: r.Intn(60), maxTypes: 8, control: true, maxTabs: 3}) {
		p := time.Duration(0)
		if r.Intn(4) == 0 {
			p = time.Duration(r.Int63n(int64(pause)))
		}
		s.steps = append(s.steps, scriptStep{m.Bytes(), p})
	}
	switch r.Intn(6) {
	case 0:
		s.steps = append(s.steps, scriptStep{hostilePeer(r), 0})
	case 1:
		s.end = &net.OpError{Op: "read", Err: os.NewSyscallError("read", syscall.ECONNRESET)}
	case 2:
		s.stay = true
	case 3:
		time.AfterFunc(time.Duration(r.Int63n(int64(pause)*10)), func() { s.fail.Store(true) })
	case 4:
		s.stay = true
		time.AfterFunc(time.Duration(r.Int63n(int64(pause)*10)), func() { s.Close() })
	}
	return s
}

func TestC24(t *testing.T) {
	c := mon.Start(t, "C24", "agents and peer servers under the race detector with connections that share no synchronisation with the harness: scripted input, dropped output; handlers read slowly, panic, wait, keep contexts and updates; several goroutines push shared entries while heartbeats, timeouts, failing writes, disconnects, hostile input and base cancellation overlap; in real time, in virtual time (hours of timers), over TCP and over the shipped pipes; several GOMAXPROCS values; all exported codecs, writers and text forms used by goroutines that share only objects they read. Evaluations are connections; non-trivial: distinct script.")
	defer c.Finish()
	r := c.Rng
	var st raceStats
	// peers that stay silent for real while everything else goes on
	quiet := newScriptListener()
	qctx, qcancel := context.WithCancel(context.Background())
	defer qcancel()
	quietPeer := &peers.Peer{HandlerSource: func() peers.Handler { return newStressPeer(rand.New(rand.NewSource(1)), &st, time.Second) }, BaseContext: qctx}
	go quietPeer.Serve(quiet)
	for i := 0; i < 12; i++ {
		s := newScriptConn()
		s.steps = []scriptStep{{data: genHandshake(r).Bytes()}}
		for k := 0; k < i%4; k++ {
			s.steps = append(s.steps, scriptStep{ref.Heartbeat.Bytes(), time.Second})
		}
		s.stay = true
		quiet.ch <- s
	}
	start := time.Now()
	c24Codecs(c, rand.New(rand.NewSource(r.Int63())))
	for e := 0; e < c.N(12, 400) && c.TimeLeft() && !c.Stop(); e++ {
		c24Epoch(c, r, &st, e)
	}
	for b := 0; b < c.N(20, 400) && c.TimeLeft() && !c.Stop(); b++ {
		bubble(c, t, fmt.Sprintf("bubble %d", b), func() { c24Virtual(c, r, &st) })
	}
	if d := 6500*time.Millisecond - time.Since(start); d > 0 && c.Proc() < 2 {
		time.Sleep(d)
	}
	c.Count("handler_calls", int(st.calls.Load()))
	c.Count("updates_delivered", int(st.updates.Load()))
	c.Count("pushes", int(st.pushes.Load()))
	c.Count("peer_sessions_closed", int(st.closes.Load()))
	if st.calls.Load() == 0 || st.updates.Load() == 0 || st.pushes.Load() == 0 {
		c.HarnessError("the load did not reach the handlers")
	}
}

// c24Epoch runs one agent and one peer server from start to cancellation.
func c24Epoch(c *mon.C, r *rand.Rand, st *raceStats, e int) {
	base, cancel := context.WithCancel(context.Background())
	defer cancel()
	agent := &spop.Agent{Handler: stressHandler(st), BaseContext: base}
	hr := rand.New(rand.NewSource(r.Int63()))
	peer := &peers.Peer{HandlerSource: func() peers.Handler { return newStressPeer(hr, st, 2*time.Millisecond) }, BaseContext: base}
	al, pl := newScriptListener(), newScriptListener()
	tcpA, err1 := net.Listen("tcp", "127.0.0.1:0")
	tcpP, err2 := net.Listen("tcp", "127.0.0.1:0")
	if err1 != nil || err2 != nil {
		c.HarnessError("listen: %v %v", err1, err2)
		return
	}
	agentT := &spop.Agent{Handler: stressHandler(st), BaseContext: base}
	hr2 := rand.New(rand.NewSource(r.Int63()))
	peerT := &peers.Peer{HandlerSource: func() peers.Handler { return newStressPeer(hr2, st, 2*time.Millisecond) }, BaseContext: base}
	var servers sync.WaitGroup
	for _, f := range []func() error{
		func() error { return agent.Serve(al) }, func() error { return peer.Serve(pl) },
		func() error { return agentT.Serve(tcpA) }, func() error { return peerT.Serve(tcpP) },
	} {
		servers.Add(1)
		go func() { defer servers.Done(); f() }()
	}
	n := 60 + r.Intn(60)
	var clients sync.WaitGroup
	for i := 0; i < n; i++ {
		s, p := spoeScript(r), peerScript(r, 3*time.Millisecond)
		h := uint64(0)
		for _, x := range append(s.steps[:len(s.steps):len(s.steps)], p.steps...) {
			h = h*1099511628211 ^ hashBytes(x.data)
		}
		c.EvalHash(h)
		if i%10 == 0 { // over TCP
			clients.Add(1)
			seed := r.Int63()
			go func() {
				defer clients.Done()
				tcpScript(tcpA.Addr().String(), s, seed)
				tcpScript(tcpP.Addr().String(), p, seed)
			}()
			continue
		}
		al.ch <- s
		pl.ch <- p
		c.Count("connections", 2)
		if i%16 == 0 {
			a, b := testutil.PipeConn()
			al.ch <- b
			clients.Add(1)
			go func() {
				defer clients.Done()
				defer a.Close()
				go func() {
					b := make([]byte, 1000)
					for {
						if _, err := a.Read(b); err != nil {
							return
						}
					}
				}()
				for _, x := range [][]byte{ref.Hello(16380).Bytes(), ref.Notify(1, 1, ref.Msg{Name: "Apipe"}).Bytes(), ref.Disconnect(0, "").Bytes()} {
					if _, err := a.Write(x); err != nil {
						return
					}
				}
			}()
			c.Count("pipe_connections", 1)
		}
	}
	if e%2 == 0 {
		time.Sleep(time.Duration(r.Intn(20)) * time.Millisecond)
	}
	cancel()
	ok := make(chan struct{})
	go func() {
		servers.Wait()
		for _, ch := range []chan net.Conn{al.ch, pl.ch} { // what was never accepted
			for len(ch) > 0 {
				(<-ch).Close()
			}
		}
		clients.Wait()
		close(ok)
	}()
	select {
	case <-ok:
	case <-time.After(60 * time.Second):
		c.Count("slow_epochs", 1) // C23 is about that
	}
	for { // what was not accepted any more
		select {
		case <-al.ch:
			continue
		case <-pl.ch:
			continue
		default:
		}
		break
	}
}

func tcpScript(addr string, s *scriptConn, seed int64) {
	nc, err := net.Dial("tcp", addr)
	if err != nil {
		return
	}
	defer nc.Close()
	go io.Copy(io.Discard, nc)
	for _, x := range s.steps {
		time.Sleep(x.pause)
		if _, err := nc.Write(x.data); err != nil {
			return
		}
	}
	if seed%3 == 0 {
		nc.(*net.TCPConn).SetLinger(0)
	}
}

// c24Virtual lets timers fire in virtual time.
func c24Virtual(c *mon.C, r *rand.Rand, st *raceStats) {
	base, cancel := context.WithCancel(context.Background())
	defer cancel()
	hr := rand.New(rand.NewSource(r.Int63()))
	p := &peers.Peer{HandlerSource: func() peers.Handler { return newStressPeer(hr, st, 4*time.Second) }, BaseContext: base}
	l := newScriptListener()
	go p.Serve(l)
	for i := 0; i < 25; i++ {
		s := peerScript(r, 5200*time.Millisecond)
		l.ch <- s
		c.EvalHash(uint64(r.Int63()))
		c.Count("virtual_time_connections", 1)
	}
	time.Sleep(time.Duration(r.Intn(600)) * time.Second)
	cancel()
	synctest.Wait()
	time.Sleep(time.Minute)
}
