package checks

import (
	"bufio"
	"bytes"
	"context"
	"fmt"
	"io"
	"math/rand"
	"net"
	"sync"
	"testing"
	"testing/iotest"
	"testing/synctest"
	"time"

	"github.com/dropmorepackets/haproxy-go/peers"

	"verif/mon"
	"verif/ref"
)

// badHandshake makes three or fewer lines that are no handshake.
func badHandshake(r *rand.Rand) []byte {
	h := string(genHandshake(r).Bytes())
	lines := bytes.SplitAfter([]byte(h), []byte("\n"))
	switch r.Intn(6) {
	case 0:
		return []byte("HAProxyS\nme\nyou 1 2\n") // no version
	case 1:
		return []byte("\n\n\n")
	case 2:
		return []byte("HAProxyS 2.1\nme\nyou 1\n") // no relative pid
	case 3:
		return []byte("HAProxyS 2.1\nme\nyou x 1\n")
	case 4:
		return []byte("HAProxyS 2.1\nme\n\n")
	}
	return bytes.Join([][]byte{lines[0], lines[1], []byte("just-a-name\n")}, nil)
}

func TestC22(t *testing.T) {
	c := mon.Start(t, "C22", "connections that end by EOF, EOF in a message, reset, protocol error, inactivity, failing writes or base cancellation, before or within the handshake, right behind it, inside of the handshake callback or of an update callback, or later; handlers of any duration, waiting for their context, or pushing from the handshake callback; own handlers per connection or one shared handler; in virtual time and over TCP. The callback trace is compared with the model of the stream. Evaluations are connections; non-trivial: distinct (moment, ending, stream).")
	defer c.Finish()
	r := c.Rng
	if c.Proc() == 0 {
		manyUpdates(c, t)
	}
	n := c.N(100, 2500)
	c22Codec(c, r)
	for b := 0; b < n && !c.Stop() && c.TimeLeft(); b++ {
		bubble(c, t, fmt.Sprintf("bubble %d", b), func() {
			w := newPWorld(c)
			defer w.cancel()
			for s := 0; s < 4 && !c.Stop(); s++ {
				c22Round(c, r, w, fmt.Sprintf("seed %d bubble %d round %d", c.Seed, b, s), s == 3)
			}
			if b%3 == 0 {
				c22Shared(c, r)
			}
		})
	}
	if !c.Stop() && c.TimeLeft() {
		c22TCP(c, r)
	}
}

type lifeConn struct {
	*pclient
	what    string
	hs      []byte
	good    bool
	pushes  int
	delay   time.Duration // of the callback the connection ends in
	waitCtx bool
	broken  bool
	talk    bool // heartbeats until the end
	moment  int
}

func c22Round(c *mon.C, r *rand.Rand, w *pworld, cas string, cancel bool) {
	var cls []*lifeConn
	for k := 1 + r.Intn(8); k > 0; k-- {
		l := &lifeConn{moment: r.Intn(7)}
		if r.Intn(3) == 0 {
			l.pushes = 1 + r.Intn(20)
		}
		hsSleep := time.Duration(0)
		if l.moment == 4 {
			l.delay = time.Duration(1+r.Intn(20000)) * time.Millisecond
			hsSleep = l.delay
			l.waitCtx = cancel && r.Intn(2) == 0
		} else if r.Intn(4) == 0 {
			hsSleep = time.Duration(r.Intn(2000)) * time.Millisecond
		}
		if l.moment == 5 {
			l.delay = time.Duration(1+r.Intn(20000)) * time.Millisecond
			l.waitCtx = cancel && r.Intn(2) == 0
		}
		var once sync.Once
		pr := rand.New(rand.NewSource(r.Int63()))
		l.pclient = w.dial(func(mc *mon.Conn) {
			if r.Intn(4) > 0 { // otherwise it may share its address with others
				mc.Addr = fmt.Sprintf("mem:%s %d", cas, k)
			}
			if r.Intn(2) == 0 {
				mc.BeforeWrite = mon.Yielder(r.Int63(), 30)
			}
			if r.Intn(3) == 0 {
				_, mc.Chunk = chunker(rand.New(rand.NewSource(r.Int63())))
			}
		}, func(h *phandler) {
			h.onHS = func(ctx context.Context) {
				pw := peers.WriterFromContext(ctx)
				g := &pushGen{r: pr}
				for i := 0; i < l.pushes; i++ {
					g.push().do(pw, nil)
				}
				if l.moment == 4 && l.waitCtx {
					<-ctx.Done()
				} else {
					time.Sleep(hsSleep)
				}
			}
			h.onUpd = func(ctx context.Context) {
				if l.moment != 5 {
					return
				}
				once.Do(func() {
					if l.waitCtx {
						<-ctx.Done()
						return
					}
					time.Sleep(l.delay)
				})
			}
		})
		switch l.moment {
		case 0:
			l.what = "before anything"
		case 1:
			b := genHandshake(r).Bytes()
			l.send(b[:r.Intn(len(b))])
			l.what = "within the handshake"
		case 2:
			l.send(badHandshake(r))
			if r.Intn(2) == 0 {
				l.send(pbytes(genPSession(r, psOpts{msgs: 3, maxTypes: 2, maxTabs: 1})))
			}
			l.what = "bad handshake"
		default:
			l.good = true
			l.send(genHandshake(r).Bytes())
			l.what = []string{"right behind the handshake", "inside of the handshake callback", "inside of an update", "later"}[l.moment-3]
			if l.moment == 5 {
				d := genDef(r, 3)
				u := genUpdate(r, d)
				u.HasID = true
				l.send(ref.DefMsg(d).Bytes())
				l.send(ref.UpdateMsg(u).Bytes())
			}
			if l.moment == 6 || r.Intn(2) == 0 {
				l.send(pbytes(genPSession(r, psOpts{msgs: r.Intn(20), maxTypes: 3, control: true, maxTabs: 2})))
			}
		}
		if l.moment != 3 || r.Intn(2) == 0 {
			synctest.Wait()
			if r.Intn(3) == 0 {
				time.Sleep(time.Duration(r.Intn(300)) * time.Millisecond)
			}
		}
		cls = append(cls, l)
	}
	// nothing has ended yet, except for bad handshakes
	for _, l := range cls {
		if l.moment == 2 {
			continue
		}
		for _, e := range l.h.events() {
			if e.kind == 'c' {
				c.Violate("early-close", cas+" "+l.what, "the handler was closed while the connection was alive")
			}
			if e.ctx != nil && e.ctx.Err() != nil {
				c.Violate("cancelled-early", cas+" "+l.what, "the context of %v is cancelled (%v) while the connection is alive", e, context.Cause(e.ctx))
			}
		}
	}
	for _, l := range cls {
		if cancel {
			l.what += ", base cancelled"
			continue
		}
		k := r.Intn(9)
		if k >= 6 && !l.good {
			k = r.Intn(6) // an incomplete handshake does not time out
		}
		switch k {
		case 0, 1:
			l.EOF()
			l.what += ", EOF"
		case 2:
			d := genDef(r, 1)
			b := ref.DefMsg(d).Bytes()
			l.send(b[:1+r.Intn(len(b)-1)])
			l.EOF()
			l.what += ", EOF in a message"
		case 3:
			l.Reset()
			l.broken = true
			l.what += ", reset"
		case 4, 5:
			m := [][]byte{{1, 0}, {1, 1}, {1, 7}, {0, 5}, {3, 1}, {255, 200, 0}, {10, 0x90, 0}, {10, 0x82, 1, 0xff}, {10, 0x83, 0}}[r.Intn(9)]
			l.send(m)
			l.what += fmt.Sprintf(", protocol error %x", m)
			if !l.good {
				l.EOF()
			}
		case 6:
			l.what += ", silence"
		case 7:
			l.FailWrites()
			l.broken = true
			l.what += ", failing writes"
			if r.Intn(2) == 0 {
				l.talk = true
				l.what += " while the peer keeps talking"
			}
		case 8:
			l.FailWrites()
			l.broken = true
			l.send(ref.Control(0).Bytes())
			l.what += ", failing reply"
		}
	}
	if cancel {
		w.cancel()
	}
	// everything is over after the longest callback, the time for a heartbeat
	// to fail, and the time of inactivity
	synctest.Wait()
	for i := 0; i < 30; i++ {
		time.Sleep(1500 * time.Millisecond)
		for _, l := range cls {
			if l.talk {
				l.Send(ref.Heartbeat.Bytes())
			}
		}
	}
	synctest.Wait()
	for _, l := range cls {
		cas := fmt.Sprintf("%s: %s, delay %v, %d pushes, stream %x", cas, l.what, l.delay, l.pushes, tailOf(l.raw))
		c.Case("%s", cas)
		c.Eval(fmt.Sprint(l.what, l.raw))
		c.Sample("%s", l.what)
		c.Count(fmt.Sprintf("moment_%d", l.moment), 1)
		sim := simulate(l.raw)
		ev := l.h.events()
		var kinds []byte
		for _, e := range ev {
			kinds = append(kinds, e.kind)
			if !e.returned {
				c.Violate("callback-stuck", cas, "%v has not returned", e)
			}
		}
		c.Count("callbacks_observed", len(ev))
		if n := bytes.Count(kinds, []byte("c")); n != 1 {
			c.Violate("close-count", cas, "the handler was closed %d times, trace %s", n, kinds)
			continue
		}
		if kinds[len(kinds)-1] != 'c' {
			c.Violate("close-last", cas, "the handler was called after Close, trace %s", kinds)
			continue
		}
		if !l.IsClosed() {
			c.Violate("not-closed", cas, "the connection is still open, trace %s", kinds)
			continue
		}
		for _, e := range ev {
			ctx := e.ctx
			if ctx == nil {
				continue
			}
			c.Count("contexts_judged", 1)
			if ctx.Err() == nil {
				c.Violate("not-cancelled", cas, "the context of %v is still alive after the end", e)
			}
			if a := peers.Connection(ctx).RemoteAddr().String(); a != l.RemoteAddr().String() {
				c.Violate("connection", cas, "the context leads to the connection of %s instead of %s", a, l.RemoteAddr())
			}
		}
		nh := bytes.Count(kinds, []byte("h"))
		out := l.Out()
		if sim.hs == nil {
			if nh != 0 {
				c.Violate("no-handshake", cas, "told about a handshake that did not take place: %v", ev[0])
			}
			if len(out) > 0 && !sim.unknown {
				c.Violate("status", cas, "%q was sent without a handshake", tailOf(out))
			}
			continue
		}
		if nh > 1 {
			c.Violate("handshake-count", cas, "told about %d handshakes, trace %s", nh, kinds)
			continue
		}
		if len(out) > 0 && !bytes.HasPrefix(out, []byte("200\n")) {
			c.Violate("status", cas, "the output starts with %q", tailOf(out[:min(len(out), 40)]))
		}
		if nh == 0 {
			// acceptable only when the session could not begin
			if !(l.broken || cancel) || len(out) > 0 && l.moment > 3 {
				c.Violate("handshake-count", cas, "never told about the handshake, trace %s, output %q", kinds, tailOf(out))
			}
			continue
		}
		if kinds[0] != 'h' {
			c.Violate("handshake-first", cas, "trace %s", kinds)
			continue
		}
		if len(out) < 4 {
			c.Violate("status", cas, "handshake callback without a status line")
		}
		if ev[0].hs != *sim.hs {
			c.Violate("handshake-fields", cas, "got %+v, sent %+v", ev[0].hs, *sim.hs)
		}
		c.Count("sessions_with_handshake", 1)
		sim.checkUpdates(c, cas, ev, !l.broken && !cancel)
		if _, err := parsePOut(out); err != nil && !l.broken {
			c.Violate("stream", cas, "%v", err)
		}
	}
	w.forget()
}

// c22Shared uses one handler for all connections.
func c22Shared(c *mon.C, r *rand.Rand) {
	w := &pworld{c: c, l: mon.NewListener()}
	w.base, w.cancel = context.WithCancel(context.Background())
	defer w.cancel()
	sh := &sharedHandler{}
	p := &peers.Peer{Handler: sh, BaseContext: w.base}
	go p.Serve(w.l)
	n, good := 1+r.Intn(12), 0
	var cls []*mon.Conn
	var hs []ref.Handshake
	for i := 0; i < n; i++ {
		cl := w.l.Dial(nil)
		if r.Intn(4) > 0 {
			h := genHandshake(r)
			h.PID = i + 1 // all different
			cl.Send(h.Bytes())
			hs = append(hs, h)
			good++
		} else if r.Intn(2) == 0 {
			cl.Send(badHandshake(r))
		}
		cls = append(cls, cl)
	}
	synctest.Wait()
	for _, cl := range cls {
		if r.Intn(2) == 0 {
			cl.EOF()
		} else {
			cl.Reset()
		}
	}
	synctest.Wait()
	time.Sleep(10 * time.Second)
	synctest.Wait()
	sh.mu.Lock()
	defer sh.mu.Unlock()
	if len(sh.hs) != good || sh.closes != n {
		c.Violate("shared-handler", "", "%d connections (%d with a handshake): %d handshakes and %d closes", n, good, len(sh.hs), sh.closes)
	}
	for _, h := range hs {
		if sh.hs[h] != 1 {
			c.Violate("shared-handler", "", "handshake %+v was announced %d times", h, sh.hs[h])
		}
	}
	c.Count("connections_of_shared_handlers", n)
}

type sharedHandler struct {
	peers.HandlerFunc
	mu     sync.Mutex
	hs     map[ref.Handshake]int
	closes int
}

func (s *sharedHandler) HandleHandshake(ctx context.Context, h *peers.Handshake) {
	s.mu.Lock()
	defer s.mu.Unlock()
	if s.hs == nil {
		s.hs = map[ref.Handshake]int{}
	}
	s.hs[ref.Handshake{Proto: h.ProtocolIdentifier, Version: h.Version, Remote: h.RemotePeer, Local: h.LocalPeerIdentifier, PID: h.ProcessID, RelPID: h.RelativeProcessID}]++
}

func (s *sharedHandler) Close() error {
	s.mu.Lock()
	defer s.mu.Unlock()
	s.closes++
	return nil
}

// c22Codec checks the exported handshake codec.
func c22Codec(c *mon.C, r *rand.Rand) {
	for i := 0; i < c.N(2000, 50000) && !c.Stop(); i++ {
		h := genHandshake(r)
		lib := peers.Handshake{ProtocolIdentifier: h.Proto, Version: h.Version, RemotePeer: h.Remote, LocalPeerIdentifier: h.Local, ProcessID: h.PID, RelativeProcessID: h.RelPID}
		var out bytes.Buffer
		n, err := lib.WriteTo(&out)
		if err != nil || n != int64(out.Len()) || !bytes.Equal(out.Bytes(), h.Bytes()) {
			c.Violate("handshake-codec", fmt.Sprintf("%+v", h), "WriteTo gives %q, %d, %v", out.Bytes(), n, err)
			return
		}
		behind := genBytes(r, r.Intn(50))
		if !readHandshake(c, r, h, behind) {
			return
		}
		cut := h.Bytes()[:r.Intn(len(h.Bytes()))]
		if _, err = new(peers.Handshake).ReadFrom(bytes.NewReader(cut)); err == nil {
			c.Violate("handshake-codec", fmt.Sprintf("%q", cut), "an incomplete handshake was accepted")
			return
		}
		c.Count("handshake_codec_cases", 1)
	}
}

// readHandshake reads a handshake from readers that hand it out differently and
// checks that nothing behind it is consumed.
func readHandshake(c *mon.C, r *rand.Rand, h ref.Handshake, behind []byte) bool {
	lib := peers.Handshake{ProtocolIdentifier: h.Proto, Version: h.Version, RemotePeer: h.Remote, LocalPeerIdentifier: h.Local, ProcessID: h.PID, RelativeProcessID: h.RelPID}
	all := append(h.Bytes(), behind...)
	readers := []struct {
		name string
		r    io.Reader
	}{
		{"bytes", bytes.NewReader(all)},
		{"bufio", bufio.NewReaderSize(bytes.NewReader(all), 16+r.Intn(100))},
		{"plain", struct{ io.Reader }{bytes.NewReader(all)}},
		{"one byte", iotest.OneByteReader(bytes.NewReader(all))},
		{"half", iotest.HalfReader(bytes.NewReader(all))},
		{"data and error", iotest.DataErrReader(bytes.NewReader(all))},
		{"one byte and error", iotest.DataErrReader(iotest.OneByteReader(bytes.NewReader(all)))},
		{"idle", &idleReader{r: bytes.NewReader(all)}},
	}
	for _, x := range readers {
		var got peers.Handshake
		n, err := got.ReadFrom(x.r)
		rest, err2 := io.ReadAll(x.r)
		if err != nil || err2 != nil || got != lib || n != int64(len(h.Bytes())) || !bytes.Equal(rest, behind) {
			c.Violate("handshake-codec", fmt.Sprintf("%+v from a reader of kind %s", h, x.name), "ReadFrom gives %+v, %d, %v and leaves %d of %d bytes", got, n, err, len(rest), len(behind))
			return false
		}
		c.Count("handshakes_read", 1)
	}
	return true
}

// idleReader returns nothing every second time.
type idleReader struct {
	r io.Reader
	n int
}

func (i *idleReader) Read(b []byte) (int, error) {
	if i.n++; i.n%2 == 1 {
		return 0, nil
	}
	return i.r.Read(b)
}

// c22TCP ends real connections.
func c22TCP(c *mon.C, r *rand.Rand) {
	l, err := net.Listen("tcp", "127.0.0.1:0")
	if err != nil {
		c.HarnessError("listen: %v", err)
		return
	}
	w, p := barePWorld(c)
	defer w.cancel()
	go p.Serve(l)
	n := c.N(80, 600)
	good := map[ref.Handshake]bool{}
	addr := map[ref.Handshake]string{}
	var mayMiss = map[ref.Handshake]bool{}
	for i := 0; i < n; i++ {
		nc, err := net.Dial("tcp", l.Addr().String())
		if err != nil {
			c.Violate("not-accepting", "tcp", "dial: %v", err)
			return
		}
		h := genHandshake(r)
		h.Local = fmt.Sprintf("c%d", i)
		addr[h] = nc.LocalAddr().String()
		good[h] = true
		b := append(h.Bytes(), pbytes(genPSession(r, psOpts{msgs: r.Intn(6), maxTypes: 3, control: true, maxTabs: 1}))...)
		nc.Write(b)
		switch r.Intn(3) {
		case 0:
			nc.(*net.TCPConn).CloseWrite()
			defer nc.Close()
		case 1: // data that was sent is still delivered before the FIN
			nc.(*net.TCPConn).CloseWrite()
			nc.SetReadDeadline(time.Now().Add(60 * time.Second))
			st := make([]byte, 4)
			if n, _ := nc.Read(st); n > 0 && string(st[:n]) != "200\n"[:n] {
				c.Violate("status", "tcp", "output starts with %q", st[:n])
			}
			nc.Close()
		case 2:
			mayMiss[h] = true
			nc.(*net.TCPConn).SetLinger(0)
			nc.Close()
		}
		c.Eval("")
	}
	deadline := time.Now().Add(60 * time.Second)
	for {
		hs := w.handlers()
		closed := 0
		for _, h := range hs {
			ev := h.events()
			if len(ev) > 0 && ev[len(ev)-1].kind == 'c' {
				closed++
			}
		}
		if closed == n {
			break
		}
		if time.Now().After(deadline) {
			c.Violate("close-count", "tcp", "%d handlers for %d ended connections, %d of them closed within a minute", len(hs), n, closed)
			return
		}
		time.Sleep(5 * time.Millisecond)
	}
	seen := map[ref.Handshake]int{}
	for _, h := range w.handlers() {
		ev := h.events()
		for i, e := range ev {
			switch {
			case e.kind == 'h' && i > 0, e.kind == 'c' && i < len(ev)-1:
				c.Violate("trace", "tcp", "callback %d of %d is %v", i, len(ev), e)
			case e.kind == 'h':
				seen[e.hs]++
				a := peers.Connection(h.context()).RemoteAddr()
				if want, ok := addr[e.hs]; ok && a != nil && a.String() != want {
					c.Violate("connection", "tcp", "the context leads to the connection of %s instead of %s", a, want)
				}
			}
		}
	}
	for h := range good {
		if k := seen[h]; k > 1 || k == 0 && !mayMiss[h] {
			c.Violate("handshake-count", "tcp", "handshake %+v was announced %d times", h, k)
		}
	}
	c.Count("tcp_connections", n)
}
