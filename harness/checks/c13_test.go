package checks

import (
	"context"
	"fmt"
	"math/rand"
	"net"
	"runtime"
	"syscall"
	"testing"
	"testing/synctest"
	"time"

	"github.com/dropmorepackets/haproxy-go/spop"

	"verif/mon"
	"verif/ref"
)

// endConn ends a connection in one of the ways the property names, or by
// something that makes the agent close it.
func endConn(r *rand.Rand, cl *client) string {
	switch r.Intn(8) {
	case 0, 1, 2:
		code := uint32(r.Intn(3))
		if r.Intn(5) == 0 {
			code = uint32(r.Intn(100))
		}
		f := ref.Disconnect(code, "bye")
		if r.Intn(3) == 0 { // the items may come in any order
			f.Payload = ref.KVs(
				ref.KV{Name: "message", V: ref.Val{T: ref.TString, Bytes: genBytes(r, r.Intn(60))}},
				ref.KV{Name: "status-code", V: ref.Val{T: ref.TUint32, Int: uint64(code)}})
		}
		cl.Send(f.Bytes())
		return fmt.Sprintf("DISCONNECT %d", code)
	case 3, 4:
		cl.EOF()
		return "EOF"
	case 5:
		cl.Reset()
		return "reset"
	case 6:
		b := ref.Notify(1, 1, ref.Msg{Name: "cut", Args: genKVs(r, 2, 20)}).Bytes()
		cl.Send(b[:1+r.Intn(len(b)-1)])
		cl.EOF()
		return "EOF inside of a frame"
	}
	cl.Send([]byte{0xFF, 0xFF, 0xFF, 0xFF, 1, 2, 3})
	return "oversized frame"
}

func TestC13(t *testing.T) {
	c := mon.Start(t, "C13", "several connections with handlers that finish, wait for their context, panic, fail or were told to finish later, on an idle agent or with as many waiting handlers as workers (on one or several connections) or more; connections end one after the other by DISCONNECT, EOF, reset or error, or all by base cancellation; up to hours of virtual time pass in between; at every quiescent point the context of every handler ever called must be alive exactly when its connection is. Plus a TCP peer that half-closes without reading. Evaluations are (context, quiescent point) verdicts; non-trivial: distinct scenario.")
	defer c.Finish()
	r := c.Rng
	if c.Proc() == 0 {
		manyRequests(c, t)
	}
	// leave room in the internal queue, the property is about workers
	workers := runtime.NumCPU()
	n := c.N(150, 2500)
	id := 0
	for b := 0; b < n && !c.Stop() && c.TimeLeft(); b++ {
		bubble(c, t, fmt.Sprintf("bubble %d", b), func() {
			w := newWorld(c)
			type cstate struct {
				*client
				names   []string
				waiting int
				ended   string
			}
			rounds := 6
			for s := 0; s < rounds && !c.Stop(); s++ {
				nc := 1 + r.Intn(5)
				var conns []*cstate
				for k := 0; k < nc; k++ {
					cl := w.dial()
					cl.hello(16380)
					conns = append(conns, &cstate{client: cl})
				}
				synctest.Wait()
				waiting := 0
				switch r.Intn(5) {
				case 0: // idle
				case 1:
					waiting = r.Intn(workers + 1)
				case 2, 3:
					waiting = workers
				case 4:
					waiting = workers + r.Intn(workers+1)
				}
				only := -1 // all on one connection
				if r.Intn(2) == 0 {
					only = r.Intn(nc)
				}
				desc := fmt.Sprintf("%d connections, %d waiting handlers on %d, %d workers:", nc, waiting, only, workers)
				cas := fmt.Sprintf("seed %d bubble %d round %d %s", c.Seed, b, s, desc)
				c.Case("%s", cas)
				send := func(k int, p *plan) {
					id++
					m := ref.Msg{Name: fmt.Sprintf("c%d-%d", k, id)}
					q := &request{sid: uint64(id), fid: 1, msgs: []ref.Msg{m}, plans: []*plan{p}}
					conns[k].names = append(conns[k].names, m.Name)
					conns[k].send(q)
				}
				// handlers that finish, their contexts are kept
				for k := range conns {
					for q := r.Intn(3); q > 0; q-- {
						send(k, &plan{read: -1})
					}
				}
				synctest.Wait()
				// requests that fail and leave their connection alive
				failing := func() {
					k := r.Intn(nc)
					if conns[k].ended != "" {
						return
					}
					c.Count("failing_requests", 1)
					switch r.Intn(4) {
					case 0, 1:
						send(k, &plan{read: -1, panics: fmt.Sprint("panic ", id)})
					case 2: // no reply, for it is too long
						send(k, &plan{read: -1, steps: []step{setStep(1, "v", ref.Val{T: ref.TString, Bytes: make([]byte, 17000)})}})
					case 3: // malformed, which may end the connection
						id++
						m := ref.Msg{Name: fmt.Sprintf("bad%d-%d", k, id), Args: genKVs(r, 2, 20)}
						w.add(m.Name, &plan{read: -1})
						conns[k].names = append(conns[k].names, m.Name)
						f := ref.Notify(uint64(id), 3, m)
						f.Payload = append(f.Payload, 5, 'a')
						conns[k].Send(f.Bytes())
						synctest.Wait()
						if conns[k].IsClosed() {
							conns[k].ended = "malformed NOTIFY"
						}
					}
				}
				if r.Intn(3) == 0 {
					failing()
				}
				for q := 0; q < waiting; q++ {
					k := r.Intn(nc)
					if only >= 0 {
						k = only
					}
					send(k, &plan{waitCtx: true})
					conns[k].waiting++
				}
				synctest.Wait()
				check := func(when string) {
					alive, dead := 0, 0
					for k, cs := range conns {
						for _, name := range cs.names {
							for _, cl := range w.get(name) {
								if cl.ctx.Value(baseKey{}) != any(w) {
									c.Violate("base-values", cas, "the context of a handler does not carry the values of the base context")
								}
								switch err := cl.ctx.Err(); {
								case cs.ended == "" && err != nil:
									c.Violate("cancelled-early", cas, "%s: the context of a handler of connection %d is cancelled (%v), but its connection is alive", when, k, context.Cause(cl.ctx))
								case cs.ended != "" && err == nil:
									c.Violate("not-cancelled", cas, "%s: the context of a handler of connection %d is not cancelled after %s", when, k, cs.ended)
								case cs.ended != "" && cl.end == 0:
									c.Violate("not-cancelled", cas, "%s: a handler of connection %d is still running after %s", when, k, cs.ended)
								}
								if cs.ended == "" {
									alive++
								} else {
									dead++
								}
							}
						}
						if cs.ended == "" && cs.IsClosed() {
							c.Violate("closed", cas, "%s: connection %d was closed by the agent", when, k)
						}
					}
					c.Count("live_context_verdicts", alive)
					c.Count("cancelled_context_verdicts", dead)
					for i := alive + dead; i > 0; i-- {
						c.Eval("")
					}
					c.Max("max_waiting_handlers", w.runningNow())
				}
				check("before any end")
				for waiting < workers && r.Intn(2) == 0 {
					failing()
					synctest.Wait()
					check("after a request that failed")
				}
				left := r.Perm(nc)
				if r.Intn(6) == 0 {
					left = left[:r.Intn(nc)]
				}
				for _, k := range left {
					if conns[k].ended != "" {
						continue
					}
					if r.Intn(2) == 0 {
						d := time.Duration(r.Intn(100)) * time.Minute
						time.Sleep(d)
						c.Count("virtual_minutes", int(d/time.Minute))
						synctest.Wait()
						check("after a while")
					}
					what := endConn(r, conns[k].client)
					desc += fmt.Sprintf(" %d:%s", k, what)
					cas = fmt.Sprintf("seed %d bubble %d round %d %s", c.Seed, b, s, desc)
					conns[k].ended = what
					synctest.Wait()
					check(fmt.Sprintf("after connection %d ended by %s", k, what))
				}
				if len(left) == nc {
					// everything has ended, so the agent is idle again
					if w.runningNow() != 0 {
						c.Violate("not-cancelled", cas, "%d handlers are still running after all connections ended", w.runningNow())
						return
					}
				} else if s < rounds-1 {
					s = rounds - 1 // the world ends with the base context
				}
				if s == rounds-1 {
					w.cancel()
					synctest.Wait()
					for _, cs := range conns {
						if cs.ended == "" {
							cs.ended = "cancellation of the base context"
						}
					}
					desc += " base cancelled"
					cas = fmt.Sprintf("seed %d bubble %d round %d %s", c.Seed, b, s, desc)
					check("after the base context was cancelled")
				}
				c.Eval(desc)
				if b < 3 {
					c.Sample("%s", desc)
				}
				for _, cs := range conns {
					cs.EOF()
				}
				synctest.Wait()
				w.forget()
			}
			w.cancel()
		})
	}
	if !c.Stop() && c.TimeLeft() && workers > 1 {
		for i := 0; i < c.N(3, 20) && !c.Stop(); i++ {
			c13TCP(c, i, workers)
		}
	}
}

// c13TCP half-closes a connection whose replies nobody reads.
func c13TCP(c *mon.C, i, workers int) {
	l, err := net.Listen("tcp", "127.0.0.1:0")
	if err != nil {
		c.HarnessError("listen: %v", err)
		return
	}
	w := bareWorld(c)
	a := &spop.Agent{Handler: spop.HandlerFunc(w.handle), BaseContext: w.base}
	go a.Serve(l)
	defer w.cancel()
	d := net.Dialer{Control: func(_, _ string, rc syscall.RawConn) error {
		return rc.Control(func(fd uintptr) { syscall.SetsockoptInt(int(fd), syscall.SOL_SOCKET, syscall.SO_RCVBUF, 4096) })
	}}
	nc, err := d.Dial("tcp", l.Addr().String())
	if err != nil {
		c.HarnessError("dial: %v", err)
		return
	}
	defer nc.Close()
	big := setStep(1, "v", ref.Val{T: ref.TString, Bytes: make([]byte, 8<<20)})
	out := ref.Hello(16 << 20).Bytes()
	for k := 0; k < 1+i%workers && k < workers-1; k++ {
		name := fmt.Sprintf("big%d", k)
		w.add(name, &plan{steps: []step{big}})
		out = append(out, ref.Notify(uint64(k), 1, ref.Msg{Name: name}).Bytes()...)
	}
	w.add("wait", &plan{waitCtx: true})
	out = append(out, ref.Notify(100, 1, ref.Msg{Name: "wait"}).Bytes()...)
	nc.Write(out)
	// until the waiting handler runs, and one reply is stuck in the socket
	deadline := time.Now().Add(60 * time.Second)
	for len(w.get("wait")) == 0 {
		if time.Now().After(deadline) {
			c.Violate("not-handled", "", "a request was not handled within a minute while the replies of %d others were not read", 1+i%workers)
			return
		}
		time.Sleep(time.Millisecond)
	}
	time.Sleep(20 * time.Millisecond)
	if err := w.get("wait")[0].ctx.Err(); err != nil {
		c.Violate("cancelled-early", "", "context cancelled (%v) on a live TCP connection", err)
	}
	nc.(*net.TCPConn).CloseWrite()
	deadline = time.Now().Add(60 * time.Second)
	for w.get("wait")[0].end == 0 {
		if time.Now().After(deadline) {
			c.Violate("not-cancelled", "", "the context was not cancelled within a minute after a peer that does not read closed its side of the connection")
			return
		}
		time.Sleep(time.Millisecond)
	}
	c.Count("half_closed_tcp_peers", 1)
	c.Eval(fmt.Sprintf("tcp %d", i))
}
