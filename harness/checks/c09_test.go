package checks

import (
	"encoding/binary"
	"fmt"
	"math/rand"
	"net"
	"runtime"
	"slices"
	"sync"
	"testing"
	"testing/synctest"
	"time"

	"github.com/dropmorepackets/haproxy-go/spop"

	"verif/mon"
	"verif/ref"
)

// netConn drives a real connection to an agent: it reads frames in the
// background until the connection ends.
type netConn struct {
	net.Conn
	mu   sync.Mutex
	cond *sync.Cond
	out  []byte
	err  error
}

func newNetConn(nc net.Conn, chunk int) *netConn {
	c := &netConn{Conn: nc}
	c.cond = sync.NewCond(&c.mu)
	go func() {
		buf := make([]byte, chunk)
		for {
			n, err := nc.Read(buf)
			c.mu.Lock()
			c.out = append(c.out, buf[:n]...)
			if err != nil {
				c.err = err
			}
			c.cond.Broadcast()
			c.mu.Unlock()
			if err != nil {
				return
			}
		}
	}()
	return c
}

// wait waits until cond holds for the bytes received so far, or the
// connection ends, or the (generous) limit passes.
func (c *netConn) wait(limit time.Duration, cond func([]byte) bool) bool {
	t := time.AfterFunc(limit, func() { c.mu.Lock(); c.cond.Broadcast(); c.mu.Unlock() })
	defer t.Stop()
	end := time.Now().Add(limit)
	c.mu.Lock()
	defer c.mu.Unlock()
	for !cond(c.out) {
		if c.err != nil || time.Now().After(end) {
			return false
		}
		c.cond.Wait()
	}
	return true
}

func (c *netConn) Out() []byte {
	c.mu.Lock()
	defer c.mu.Unlock()
	return append([]byte(nil), c.out...)
}

func (c *netConn) ended() bool {
	c.mu.Lock()
	defer c.mu.Unlock()
	return c.err != nil
}

// frameCount counts the whole frames in a stream.
func frameCount(b []byte) int {
	n := 0
	for len(b) >= 4 {
		l := int(binary.BigEndian.Uint32(b))
		if len(b)-4 < l {
			break
		}
		b = b[4+l:]
		n++
	}
	return n
}

func TestC09(t *testing.T) {
	c := mon.Start(t, "C09", "many connections to one agent with many requests in flight on each, equal stream/frame ids on different connections and any 64 bit ids, unique names and values per request, handlers that yield between reading, acting and returning, panicking and oversized requests in between, writes that yield; in memory at quiescence and over real TCP. Evaluations are requests; non-trivial: distinct request.")
	defer c.Finish()
	r := c.Rng
	stalledAgentPeer(c, r)
	n := c.N(14, 250)
	id := 0
	for b := 0; b < n && !c.Stop() && c.TimeLeft(); b++ {
		bubble(c, t, fmt.Sprintf("bubble %d", b), func() {
			w := newWorld(c)
			defer w.cancel()
			for s := 0; s < 10 && !c.Stop(); s++ {
				cas := fmt.Sprintf("seed %d bubble %d session %d", c.Seed, b, s)
				c.Case("%s", cas)
				var conns []*client
				for k := 1 + r.Intn(12); k > 0; k-- {
					max := uint32(16380)
					if r.Intn(4) == 0 {
						max = 256 + uint32(r.Intn(2000))
					}
					y := mon.Yielder(r.Int63(), 6)
					cl := w.dial(func(m *mon.Conn) { m.BeforeWrite = y })
					cl.hello(max)
					conns = append(conns, cl)
				}
				synctest.Wait()
				// all requests are generated first and then sent by one
				// goroutine per connection, so that they are in flight together
				batches := make([][]*request, len(conns))
				for k, cl := range conns {
					pairs := newIDs(r)
					for q := 1 + r.Intn(25); q > 0; q-- {
						id++
						o := reqOpts{maxMsgs: 3, maxArgs: 5, maxLen: 60, maxActs: 5, invalid: true, panics: r.Intn(6) == 0, yields: 6}
						sid, fid := pairs.next(uint64(q), uint64(s))
						req := genRequest(r, fmt.Sprintf("%d-%d-", k, id), sid, fid, o)
						if req.frame().Len() > int(cl.max) {
							continue
						}
						batches[k] = append(batches[k], req)
						c.Eval(cas + req.shape())
						if id < 4 {
							c.Sample("%v", req)
						}
					}
				}
				var wg sync.WaitGroup
				for k, cl := range conns {
					wg.Add(1)
					go func() {
						defer wg.Done()
						for i, q := range batches[k] {
							cl.send(q)
							if i%3 == 0 {
								runtime.Gosched()
							}
						}
					}()
				}
				wg.Wait()
				synctest.Wait()
				c.Max("max_handlers_running_together", w.maxRun)
				for _, cl := range conns {
					for _, q := range cl.reqs {
						w.checkCalls(q, cas)
					}
					c.Count("replies_checked", cl.checkReplies(cas, false))
					c.Count("requests", len(cl.reqs))
				}
				idsAgain(c, r, w, conns, cas)
				for _, cl := range conns {
					cl.EOF()
				}
				synctest.Wait()
				w.forget()
			}
		})
	}
	if c.Proc() == 0 && !c.Stop() {
		manyRequests(c, t)
		bigFrames(c, t)
	}
	if !c.Stop() && c.TimeLeft() {
		c09TCP(c)
	}
}

// c09TCP sends pipelined requests over loopback TCP with real parallelism.
func c09TCP(c *mon.C) {
	l, err := net.Listen("tcp", "127.0.0.1:0")
	if err != nil {
		c.HarnessError("listen: %v", err)
		return
	}
	w := bareWorld(c)
	defer w.cancel()
	a := &spop.Agent{Handler: spop.HandlerFunc(w.handle), BaseContext: w.base}
	go a.Serve(l)
	conns := c.N(8, 16)
	rounds := c.N(6, 60)
	var wg sync.WaitGroup
	for k := 0; k < conns; k++ {
		wg.Add(1)
		go func(k int) {
			defer wg.Done()
			r := rand.New(rand.NewSource(c.Seed + int64(k)))
			for round := 0; round < rounds && !c.Stop() && c.TimeLeft(); round++ {
				cas := fmt.Sprintf("tcp seed %d connection %d round %d", c.Seed, k, round)
				nc, err := net.Dial("tcp", l.Addr().String())
				if err != nil {
					c.HarnessError("dial: %v", err)
					return
				}
				conn := newNetConn(nc, 1+r.Intn(3000))
				cl := &client{Conn: mon.NewConn(), w: w, max: 16380}
				out := ref.Hello(16380).Bytes()
				want := 1
				pairs := newIDs(r)
				for q := 0; q < 40; q++ {
					sid, fid := pairs.next(uint64(q), uint64(round))
					req := genRequest(r, fmt.Sprintf("t%d-%d-%d-", k, round, q), sid, fid, reqOpts{maxMsgs: 3, maxArgs: 5, maxLen: 60, maxActs: 5, invalid: true, yields: 4})
					w.register(req)
					cl.reqs = append(cl.reqs, req)
					out = append(out, req.frame().Bytes()...)
					if req.ackLen() <= 16380 {
						want++
					}
					c.Eval(cas + req.shape())
				}
				cut := rand.New(rand.NewSource(r.Int63()))
				go func() {
					for len(out) > 0 {
						n := 1 + cut.Intn(len(out))
						if _, err := nc.Write(out[:n]); err != nil {
							return
						}
						out = out[n:]
					}
				}()
				ok := conn.wait(60*time.Second, func(b []byte) bool { return frameCount(b) >= want })
				time.Sleep(time.Millisecond)
				got := conn.Out()
				if !ok {
					c.Violate("missing-reply", cas, "%d of %d frames after a minute (ended %v %v)", frameCount(got), want, conn.ended(), conn.err)
				}
				cl.Conn.Write(got) // reuse the in-memory checker for the received bytes
				c.Count("tcp_replies_checked", cl.checkReplies(cas, false))
				if s, _ := parseStream(got); s.disconnect != nil {
					c.Violate("disconnected", cas, "agent disconnected")
				}
				nc.Close()
				for _, q := range cl.reqs {
					w.checkCalls(q, cas)
				}
			}
		}(k)
	}
	wg.Wait()
	l.Close()
}

// idsAgain sends other requests with identifiers that were used and answered
// before on the same connection.
func idsAgain(c *mon.C, r *rand.Rand, w *world, conns []*client, cas string) {
	cas += ", identifiers used again"
	var again []*client
	for k, cl := range conns {
		out := cl.Out()
		_, hello, err := ref.ParseFrame(out)
		if len(cl.reqs) == 0 || err != nil || hello == 0 || r.Intn(2) == 0 {
			continue
		}
		old := cl.reqs
		cl.reqs = nil
		cl.Discard()
		for range 1 + r.Intn(4) {
			q := old[r.Intn(len(old))]
			req := genRequest(r, fmt.Sprintf("again-%d-%d-", k, len(cl.reqs)), q.sid, q.fid, reqOpts{maxMsgs: 2, maxArgs: 3, maxLen: 30, maxActs: 4})
			if req.frame().Len() > int(cl.max) || slices.ContainsFunc(cl.reqs, func(o *request) bool { return o.sid == q.sid && o.fid == q.fid }) {
				continue
			}
			cl.send(req)
		}
		// the AGENT-HELLO stays in front for the parser of the stream
		again = append(again, &client{Conn: mon.NewConn(), w: w, max: cl.max, reqs: cl.reqs})
		again[len(again)-1].Write(out[:hello])
		synctest.Wait()
		again[len(again)-1].Write(cl.Out())
	}
	for _, cl := range again {
		for _, q := range cl.reqs {
			w.checkCalls(q, cas)
		}
		c.Count("identifiers_used_again", cl.checkReplies(cas, false))
	}
}
