package checks

import (
	"encoding/binary"
	"errors"
	"fmt"
	"math/rand"
	"net"
	"runtime"
	"runtime/debug"
	"sync"
	"testing"
	"testing/synctest"
	"time"

	"github.com/dropmorepackets/haproxy-go/spop"

	"verif/mon"
	"verif/ref"
)

type evilError struct{}

func (evilError) Error() string { panic("panic inside of Error()") }

// panicValues are thrown by handlers.
func panicValue(r *rand.Rand) any {
	switch r.Intn(7) {
	case 0:
		return "a string"
	case 1:
		return errors.New("an error")
	case 2:
		return 42
	case 3:
		return evilError{}
	case 4:
		return struct{ a, b []byte }{make([]byte, 10), nil}
	case 5:
		return &net.OpError{Op: "read", Err: errors.New("looks like a network error")}
	}
	return runtimePanic{}
}

// runtimePanic makes the handler fail with a runtime error instead.
type runtimePanic struct{}

func TestC12(t *testing.T) {
	c := mon.Start(t, "C12", "victim connections exchange requests while attackers open connections and fail in every way: hostile bytes before and after the HELLO, panicking handlers (many values, far more than workers and queue slots), malformed arguments, resets, half frames; new connections after every round; allocation metered while huge frames are only announced; in memory at quiescence, and over TCP with real resets. Evaluations are attacks plus victim requests; non-trivial: distinct attack or request.")
	defer c.Finish()
	r := c.Rng
	stalledAgentPeer(c, r)
	if c.Proc() == 0 {
		manyFailures(c, t)
		brokenAccepts(c, 0)
	}
	debug.SetGCPercent(100)
	n := c.N(25, 600)
	id := 0
	for b := 0; b < n && !c.Stop() && c.TimeLeft(); b++ {
		bubble(c, t, fmt.Sprintf("bubble %d", b), func() {
			w := newWorld(c)
			defer w.cancel()
			w.fallback = &plan{read: -1}
			var victims []*client
			for k := 0; k < 3; k++ {
				cl := w.dial()
				cl.hello(16380)
				victims = append(victims, cl)
			}
			synctest.Wait()
			for s := 0; s < 25 && !c.Stop(); s++ {
				cas := fmt.Sprintf("seed %d bubble %d round %d", c.Seed, b, s)
				c.Case("%s", cas)
				var attackers []*client
				var victimReqs [][]*request
				for range victims {
					victimReqs = append(victimReqs, nil)
				}
				for k := 1 + r.Intn(20); k > 0; k-- {
					switch r.Intn(6) {
					case 0, 1: // a panicking handler on a victim's connection
						v := r.Intn(len(victims))
						id++
						req := genRequest(r, fmt.Sprintf("p%d-", id), uint64(id), 2, reqOpts{maxMsgs: 2, maxArgs: 3, maxLen: 20, maxActs: 2})
						if len(req.plans) == 0 {
							break
						}
						req.plans[r.Intn(len(req.plans))].panics = panicValue(r)
						c.Count("handler_panics", 1)
						c.Eval(fmt.Sprintf("%s %T", req.shape(), req.plans[0].panics))
						victims[v].send(req)
						victimReqs[v] = append(victimReqs[v], req)
					case 2: // malformed arguments on a connection of their own
						cl := w.dial()
						cl.hello(16380)
						what := hostile(r, ref.Msgs(genMsgs(r, 3, 4, 20)...))
						cl.Send(ref.Frame{Type: ref.FNotify, Flags: 1, StreamID: 1, FrameID: 1, Payload: what}.Bytes())
						attackers = append(attackers, cl)
						c.Eval(fmt.Sprintf("args %x", what))
					default:
						cl := w.dial()
						what := ""
						if r.Intn(3) > 0 {
							cl.hello(256 + uint32(r.Intn(20000)))
						} else {
							cl.max = 70000
						}
						for q := 1 + r.Intn(3); q > 0; q-- {
							hb, h := hostileFrame(r, cl.max)
							cl.Send(hb)
							what += h + ", "
						}
						switch r.Intn(4) {
						case 0:
							cl.EOF()
						case 1:
							cl.Reset()
						case 2:
							cl.FailWrites()
						}
						attackers = append(attackers, cl)
						c.Eval(what)
						if b == 0 && s < 2 {
							c.Sample("attack: %s", what)
						}
					}
					if r.Intn(3) == 0 {
						v := r.Intn(len(victims))
						id++
						req := genRequest(r, fmt.Sprintf("v%d-", id), uint64(id), 1, reqOpts{maxMsgs: 2, maxArgs: 3, maxLen: 20, maxActs: 3})
						victims[v].send(req)
						victimReqs[v] = append(victimReqs[v], req)
						c.Eval(req.shape())
					}
					if r.Intn(4) == 0 {
						synctest.Wait()
					}
				}
				c.Count("attacks", len(attackers))
				synctest.Wait()
				for k, v := range victims {
					id++
					req := genRequest(r, fmt.Sprintf("v%d-", id), uint64(id), 1, reqOpts{maxMsgs: 2, maxArgs: 3, maxLen: 20, maxActs: 3})
					v.send(req)
					victimReqs[k] = append(victimReqs[k], req)
				}
				fresh := w.dial()
				fresh.hello(16380)
				id++
				fresh.send(genRequest(r, fmt.Sprintf("f%d-", id), 1, 1, reqOpts{maxMsgs: 2, maxArgs: 3, maxLen: 20, maxActs: 3}))
				synctest.Wait()
				for k, v := range victims {
					for _, q := range victimReqs[k] {
						w.checkCalls(q, cas)
					}
					c.Count("victim_replies", v.checkReplies(cas, false))
					if v.IsClosed() {
						c.Violate("victim-closed", cas, "the connection of a victim was closed")
					}
					// answered requests need not be compared again
					v.reqs = nil
					v.Drop()
				}
				w.checkCalls(fresh.reqs[0], cas)
				if fresh.checkReplies(cas, false); fresh.IsClosed() {
					c.Violate("fresh-closed", cas, "a new connection was closed")
				}
				if done, err := w.isServed(); done {
					c.Violate("serve-returned", cas, "Serve returned %v", err)
				}
				attackers = append(attackers, fresh)
				for _, a := range attackers {
					a.EOF()
				}
				synctest.Wait()
				w.forget()
			}
			if b%5 == 0 {
				c12Memory(c, r, w)
			}
		})
	}
	if !c.Stop() && c.TimeLeft() {
		c12TCP(c)
	}
}

// c12Memory announces big frames, lengths and counts without sending them.
func c12Memory(c *mon.C, r *rand.Rand, w *world) {
	const conns, announced = 4, 512 << 20
	var cs []*client
	for k := 0; k < conns; k++ {
		cl := w.dial()
		cl.hello(1<<31 - 1)
		cs = append(cs, cl)
	}
	synctest.Wait()
	got := allocated(func() {
		for k, cl := range cs {
			b := binary.BigEndian.AppendUint32(nil, uint32(announced+r.Intn(1<<30)))
			switch k {
			case 0:
			case 1:
				b = append(b, ref.Notify(1, 1).Bytes()[4:]...)
			case 2: // a string of that length inside of a complete frame
				p := append([]byte{1, 'm', 1, 1, 'k', 8}, ref.PutVarint(nil, announced)...)
				b = ref.Frame{Type: ref.FNotify, Flags: 1, Payload: p}.Bytes()
			case 3:
				b = append(b, genBytes(r, 70000)...)
			}
			cl.Send(b)
		}
		synctest.Wait()
	})
	c.Max("max_bytes_allocated_for_announcements", int(got))
	c.Count("metered_announcements", conns)
	if got > 64<<20 {
		c.Violate("allocation", "", "%d connections that announced %d bytes each made the agent allocate %d bytes", conns, announced, got)
	}
	for _, cl := range cs {
		cl.Reset()
	}
	synctest.Wait()
}

// c12TCP resets real connections.
func c12TCP(c *mon.C) {
	l, err := net.Listen("tcp", "127.0.0.1:0")
	if err != nil {
		c.HarnessError("listen: %v", err)
		return
	}
	w := bareWorld(c)
	w.fallback = &plan{read: -1}
	defer w.cancel()
	a := &spop.Agent{Handler: spop.HandlerFunc(w.handle), BaseContext: w.base}
	go a.Serve(l)
	defer l.Close()
	var wg sync.WaitGroup
	for k := 0; k < 6; k++ {
		wg.Add(1)
		go func(k int) {
			defer wg.Done()
			r := rand.New(rand.NewSource(c.Seed + int64(k)))
			for i := 0; i < c.N(40, 600) && !c.Stop() && c.TimeLeft(); i++ {
				nc, err := net.Dial("tcp", l.Addr().String())
				if err != nil {
					c.Violate("not-accepting", "", "dial: %v", err)
					return
				}
				if r.Intn(3) > 0 {
					nc.Write(ref.Hello(16380).Bytes())
				}
				for q := r.Intn(4); q > 0; q-- {
					b, _ := hostileFrame(r, 16380)
					nc.Write(b)
				}
				if r.Intn(2) == 0 {
					time.Sleep(time.Duration(r.Intn(300)) * time.Microsecond)
				}
				nc.(*net.TCPConn).SetLinger(0)
				nc.Close()
				c.Count("tcp_resets", 1)
			}
		}(k)
	}
	nc, err := net.Dial("tcp", l.Addr().String())
	if err != nil {
		c.HarnessError("dial: %v", err)
		return
	}
	conn := newNetConn(nc, 4000)
	nc.Write(ref.Hello(16380).Bytes())
	r := rand.New(rand.NewSource(c.Seed))
	cl := &client{Conn: mon.NewConn(), w: w, max: 16380}
	for i := 0; i < c.N(150, 2000) && !c.Stop() && c.TimeLeft(); i++ {
		req := genRequest(r, fmt.Sprintf("tv%d-", i), uint64(i), 1, reqOpts{maxMsgs: 2, maxArgs: 3, maxLen: 20, maxActs: 3})
		w.register(req)
		cl.reqs = append(cl.reqs, req)
		nc.Write(req.frame().Bytes())
		if !conn.wait(60*time.Second, func(b []byte) bool { return frameCount(b) >= i+2 }) {
			c.Violate("victim-starved", "", "no reply on a TCP connection within a minute while others were reset (connection ended: %v)", conn.ended())
			break
		}
		c.Count("tcp_victim_replies", 1)
		runtime.Gosched()
	}
	wg.Wait()
	cl.Conn.Write(conn.Out())
	cl.checkReplies("tcp victim", c.Stop() || !c.TimeLeft())
	nc.Close()
}
