package checks

import (
	"fmt"
	"math/rand"
	"net"
	"runtime"
	"sync"
	"testing"
	"testing/synctest"
	"time"

	"github.com/dropmorepackets/haproxy-go/spop"

	"verif/mon"
	"verif/ref"
)

// hostileFrame is something that ends the connection, or at least a request.
func hostileFrame(r *rand.Rand, max uint32) (b []byte, what string) {
	switch r.Intn(9) {
	case 0:
		b = genBytes(r, r.Intn(60))
		return b, fmt.Sprintf("bytes %x", tailOf(b))
	case 1: // too short for a header
		n := r.Intn(5)
		b = append([]byte{0, 0, 0, byte(n)}, genBytes(r, n)...)
		return b, fmt.Sprintf("short frame %x", b)
	case 2: // longer than negotiated
		f := ref.Frame{Type: ref.FNotify, Flags: 1, StreamID: 1, FrameID: 1, Payload: genBytes(r, int(max))}
		return f.Bytes(), "oversized frame"
	case 3: // unknown type
		f := ref.Frame{Type: byte(r.Intn(256)), Flags: 1, Payload: genBytes(r, r.Intn(40))}
		return f.Bytes(), fmt.Sprintf("frame type %d", f.Type)
	case 4: // unterminated ids
		f := ref.Frame{Type: ref.FNotify, Flags: 1}.Bytes()
		f[3] -= byte(1 + r.Intn(2))
		f = f[:4+int(f[3])]
		return f, "frame without ids"
	case 5: // malformed messages
		m := hostile(r, ref.Msgs(genMsgs(r, 3, 4, 20)...))
		return ref.Frame{Type: ref.FNotify, Flags: 1, StreamID: 1 << 40, FrameID: genInt(r), Payload: m}.Bytes(), "malformed NOTIFY"
	case 6:
		b := hostile(r, ref.Disconnect(0, "bye").Payload)
		return ref.Frame{Type: ref.FDisconnect, Flags: 1, Payload: b}.Bytes(), fmt.Sprintf("DISCONNECT %x", b)
	case 7:
		b := ref.Hello(max).Payload
		if r.Intn(2) == 0 {
			b = hostile(r, b)
		}
		return ref.Frame{Type: ref.FHello, Flags: 1, Payload: b}.Bytes(), "second HELLO"
	}
	b = hostile(r, ref.Notify(1<<40, 1, genMsgs(r, 2, 3, 20)...).Bytes())
	return b, "mutated NOTIFY"
}

// teardown ends the connection of cl in one of many ways.
func teardown(r *rand.Rand, cl *client) string {
	switch r.Intn(8) {
	case 0:
		cl.EOF()
		return "EOF"
	case 1:
		f := ref.Notify(9, 9, ref.Msg{Name: "cut", Args: genKVs(r, 3, 30)}).Bytes()
		cl.Send(f[:r.Intn(len(f))])
		cl.EOF()
		return "EOF inside of a frame"
	case 2:
		cl.cut = true
		cl.Reset()
		return "reset"
	case 3:
		code := uint32(r.Intn(3))
		if r.Intn(4) == 0 {
			code = uint32(genInt(r))
		}
		cl.Send(ref.Disconnect(code, "bye").Bytes())
		return fmt.Sprintf("DISCONNECT %d", code)
	case 4:
		cl.cut = true
		cl.FailWrites()
		cl.EOF()
		return "write failure and EOF"
	}
	cl.loose = true
	b, what := hostileFrame(r, cl.max)
	cl.Send(b)
	cl.EOF()
	return what
}

func TestC10(t *testing.T) {
	c := mon.Start(t, "C10", "several connections with concurrent requests whose handlers are released together or at the moment the connection ends; every end (EOF, EOF in a frame, reset, DISCONNECT, hostile and oversized frames, failing writes after any byte, no HELLO); the transport yields between writes; plus slow readers over TCP. Everything written is parsed strictly. Evaluations are connections; non-trivial: distinct history.")
	defer c.Finish()
	r := c.Rng
	stalledAgentPeer(c, r)
	if c.Proc() == 0 {
		bigFrames(c, t)
	}
	hugeBesideSmall(c, t)
	n := c.N(60, 900)
	id := 0
	for b := 0; b < n && !c.Stop() && c.TimeLeft(); b++ {
		bubble(c, t, fmt.Sprintf("bubble %d", b), func() {
			w := newWorld(c)
			defer w.cancel()
			w.fallback = &plan{read: -1}
			for s := 0; s < 12 && !c.Stop(); s++ {
				cas := fmt.Sprintf("seed %d bubble %d session %d", c.Seed, b, s)
				c.Case("%s", cas)
				var conns []*client
				var gates []chan struct{}
				for k := 1 + r.Intn(4); k > 0; k-- {
					y := mon.Yielder(r.Int63(), 8)
					fail := 0
					if r.Intn(6) == 0 {
						fail = 1 + r.Intn(600)
					}
					var slow func()
					if r.Intn(2) == 0 { // handlers can finish behind the AGENT-DISCONNECT
						slow = func() { time.Sleep(time.Millisecond) }
					}
					cl := w.dial(func(m *mon.Conn) { m.BeforeWrite = y; m.FailWriteAt = fail; m.BeforeClose = slow })
					cl.cut = fail > 0
					hello := 256 + r.Intn(3000)
					if r.Intn(12) > 0 {
						cl.hello(uint32(hello))
					}
					conns = append(conns, cl)
				}
				synctest.Wait()
				desc := ""
				for _, cl := range conns {
					gate := make(chan struct{})
					open := false
					pairs := newIDs(r)
					for q := r.Intn(12); q > 0; q-- {
						id++
						sid, fid := pairs.next(uint64(q), uint64(s))
						req := genRequest(r, fmt.Sprintf("m%d-", id), sid, fid, reqOpts{maxMsgs: 2, maxArgs: 3, maxLen: 30, maxActs: 4, invalid: true, panics: r.Intn(5) == 0, yields: 5})
						if req.frame().Len() > int(cl.max) {
							continue
						}
						if r.Intn(2) == 0 && len(req.plans) > 0 && !open {
							req.plans[0].gate = gate
						}
						cl.send(req)
						desc += req.shape()
						if id < 3 {
							c.Sample("%v", req)
						}
					}
					gates = append(gates, gate)
				}
				if r.Intn(2) == 0 {
					synctest.Wait()
				}
				// release the handlers and end the connections at the same time
				var wg sync.WaitGroup
				ends := make([]string, len(conns))
				for k, cl := range conns {
					rr := rand.New(rand.NewSource(r.Int63()))
					wg.Add(2)
					go func() {
						defer wg.Done()
						for i := rr.Intn(30); i > 0; i-- {
							runtime.Gosched()
						}
						ends[k] = teardown(rr, cl)
					}()
					y := r.Intn(30)
					go func() {
						defer wg.Done()
						for i := 0; i < y; i++ {
							runtime.Gosched()
						}
						close(gates[k])
					}()
				}
				wg.Wait()
				time.Sleep(10 * time.Millisecond)
				synctest.Wait()
				for k, cl := range conns {
					cas := cas + " end " + ends[k]
					c.Count("replies_checked", cl.checkReplies(cas, true))
					st, err := parseStream(cl.Out())
					if err == nil {
						if st.disconnect != nil {
							c.Count("agent_disconnects", 1)
						}
						if st.partial > 0 {
							c.Count("cut_frames", 1)
						}
						if st.hello != nil {
							c.Count("agent_hellos", 1)
						}
					}
					c.Count("writes", len(cl.WriteRecs()))
					c.Count("bytes", cl.OutLen())
					c.Eval(ends[k] + desc)
				}
				w.forget()
				for _, cl := range conns {
					cl.EOF()
				}
				synctest.Wait()
			}
		})
	}
	if !c.Stop() && c.TimeLeft() {
		c10TCP(c)
	}
}

// c10TCP parses what slow and leaving readers receive over loopback TCP, with
// replies bigger than the socket buffers.
func c10TCP(c *mon.C) {
	l, err := net.Listen("tcp", "127.0.0.1:0")
	if err != nil {
		c.HarnessError("listen: %v", err)
		return
	}
	w := bareWorld(c)
	w.fallback = &plan{read: -1}
	defer w.cancel()
	a := &spop.Agent{Handler: spop.HandlerFunc(w.handle), BaseContext: w.base}
	go a.Serve(l)
	defer l.Close()
	var wg sync.WaitGroup
	for k := 0; k < 6; k++ {
		wg.Add(1)
		go func(k int) {
			defer wg.Done()
			r := rand.New(rand.NewSource(c.Seed + int64(k)))
			for round := 0; round < c.N(4, 60) && !c.Stop() && c.TimeLeft(); round++ {
				cas := fmt.Sprintf("tcp seed %d connection %d round %d", c.Seed, k, round)
				nc, err := net.Dial("tcp", l.Addr().String())
				if err != nil {
					c.HarnessError("dial: %v", err)
					return
				}
				// frames above 1 MiB beside small ones now and then
				max, huge := uint32(1<<20), round%4 == 1
				if huge {
					max = 1 << 30
				}
				cl := &client{Conn: mon.NewConn(), w: w, max: max}
				out := ref.Hello(max).Bytes()
				for q := 0; q < 12; q++ {
					req := genRequest(r, fmt.Sprintf("t%d-%d-%d-", k, round, q), uint64(q), uint64(round), reqOpts{maxMsgs: 1, maxArgs: 3, maxLen: 30, maxActs: 2, yields: 4})
					for _, p := range req.plans {
						size := 1000 + r.Intn(200000)
						if huge {
							size = []int{1, 20000, 200000, 1<<20 + r.Intn(1<<20), 3 << 20}[r.Intn(5)]
						}
						v := ref.Val{T: ref.TString, Bytes: genBytes(r, size)}
						p.steps = append(p.steps, setStep(2, "big", v))
					}
					w.register(req)
					cl.reqs = append(cl.reqs, req)
					out = append(out, req.frame().Bytes()...)
				}
				whole := r.Intn(2) == 0
				if !whole && r.Intn(2) == 0 {
					cl.loose = true
					b, _ := hostileFrame(r, min(max, 1<<20))
					out = append(out, b...)
				}
				go func() {
					nc.Write(out)
					if !whole {
						nc.(*net.TCPConn).CloseWrite()
					}
				}()
				limit := -1
				if !whole && r.Intn(2) == 0 {
					limit = r.Intn(600000)
				}
				var got []byte
				buf := make([]byte, 1+r.Intn(20000))
				if huge {
					buf = make([]byte, 1000+r.Intn(60000))
				}
				nc.SetReadDeadline(time.Now().Add(60 * time.Second))
				for limit < 0 || len(got) < limit {
					n, err := nc.Read(buf)
					got = append(got, buf[:n]...)
					if whole && frameCount(got) >= 13 {
						break
					}
					if err != nil {
						if ne, ok := err.(net.Error); ok && ne.Timeout() {
							c.Violate("missing-reply", cas, "%d of 13 frames after a minute", frameCount(got))
						}
						break
					}
				}
				nc.Close()
				cl.Write(got)
				cl.cut = true
				c.Count("tcp_replies_checked", cl.checkReplies(cas, !whole))
				c.Count("tcp_bytes", len(got))
				c.Eval(cas)
			}
		}(k)
	}
	wg.Wait()
}

// hugeBesideSmall lets huge and small replies of one connection be written at
// the same moment, with a transport that gives way to the others before every
// write.
func hugeBesideSmall(c *mon.C, t *testing.T) {
	r := c.Rng
	for round := 0; round < c.N(8, 80) && !c.Stop(); round++ {
		cas := fmt.Sprintf("seed %d huge beside small %d", c.Seed, round)
		c.Case("%s", cas)
		bubble(c, t, cas, func() {
			w := newWorld(c)
			defer w.cancel()
			yield := func([]byte) {
				for range 20 {
					runtime.Gosched()
				}
			}
			cl := w.dial(func(m *mon.Conn) { m.BeforeWrite = yield })
			cl.hello(1 << 30)
			synctest.Wait()
			gate := make(chan struct{})
			for q := range 24 {
				req := genRequest(r, fmt.Sprintf("h%d-%d-", round, q), uint64(q), uint64(round), reqOpts{maxMsgs: 1, maxArgs: 2, maxLen: 20, maxActs: 2})
				size := 1 + r.Intn(100)
				if q%2 == 0 {
					size = []int{70000, 300000, 1<<20 + r.Intn(1<<19), 2 << 20}[r.Intn(4)]
				}
				for _, p := range req.plans {
					v := ref.Val{T: ref.TString, Bytes: genBytes(r, size)}
					p.steps = append(p.steps, setStep(2, "big", v))
					p.gate = gate
				}
				cl.send(req)
			}
			synctest.Wait()
			close(gate)
			synctest.Wait()
			c.Count("huge_beside_small_replies", cl.checkReplies(cas, false))
			c.Eval(cas)
			w.forget()
			cl.EOF()
			synctest.Wait()
		})
	}
}
