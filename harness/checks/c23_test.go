package checks

import (
	"context"
	"errors"
	"fmt"
	"math/rand"
	"net"
	"os"
	"runtime"
	"sync"
	"syscall"
	"testing"
	"testing/synctest"
	"time"

	"github.com/dropmorepackets/haproxy-go/peers"
	"github.com/dropmorepackets/haproxy-go/peers/sticktable"
	"github.com/dropmorepackets/haproxy-go/pkg/encoding"
	"github.com/dropmorepackets/haproxy-go/spop"

	"verif/mon"
	"verif/ref"
)

// stopper makes a base context and a way of ending it.
func stopper(r *rand.Rand, parent context.Context) (ctx context.Context, end func(), what string) {
	switch r.Intn(4) {
	case 0:
		d := time.Duration(1+r.Intn(5000)) * time.Millisecond
		ctx, _ = context.WithTimeout(parent, d)
		return ctx, func() { time.Sleep(d) }, "deadline"
	case 1:
		p, cancel := context.WithCancel(parent)
		ctx, _ = context.WithCancel(context.WithValue(p, new(int), 1))
		return ctx, cancel, "parent cancelled"
	case 2:
		ctx, cancel := context.WithCancelCause(parent)
		return ctx, func() { cancel(errors.New("because")) }, "cancelled with a cause"
	}
	ctx, cancel := context.WithCancel(parent)
	return ctx, cancel, "cancelled"
}

// served runs a Serve function and records its result.
type served struct {
	mu   sync.Mutex
	done bool
	err  error
	at   time.Time
}

func (s *served) run(fn func() error) {
	go func() {
		err := fn()
		s.mu.Lock()
		s.done, s.err, s.at = true, err, time.Now()
		s.mu.Unlock()
	}()
}

func (s *served) get() (bool, error) {
	s.mu.Lock()
	defer s.mu.Unlock()
	return s.done, s.err
}

func TestC23(t *testing.T) {
	c := mon.Start(t, "C23", "agents and peer servers with connections in every state (silent, partial opening, idle, handlers waiting for their context or ignoring it, overload, callbacks of every kind) whose base context is cancelled, runs out or is cancelled through its parent: before Serve, right behind its start, with connections not yet accepted, or at any time later, after many connections came and went; accept errors that pass, and listeners that end by themselves. In virtual time and over TCP (ListenAndServe, without a base context, peers that do not read, exhausted file descriptors). Evaluations are connections at the moment of cancellation; non-trivial: distinct scenario.")
	defer c.Finish()
	r := c.Rng
	if c.Proc() == 0 {
		manyAccepts(c, t)
		c23Again(c, t)
		brokenAccepts(c, 0, 1, 2)
	}
	n := c.N(150, 3000)
	for b := 0; b < n && !c.Stop() && c.TimeLeft(); b++ {
		cas := fmt.Sprintf("seed %d bubble %d", c.Seed, b)
		bubble(c, t, cas, func() {
			switch {
			case b%6 == 5:
				c23Listener(c, r, cas)
			case b%2 == 0:
				c23Agent(c, r, cas)
			default:
				c23Peers(c, r, cas)
			}
		})
	}
	for i := 0; i < c.N(3, 30) && !c.Stop() && c.TimeLeft(); i++ {
		c23TCP(c, r, i)
	}
	if !c.Stop() && c.TimeLeft() {
		c23Package(c, r)
		c23Misused(c)
	}
	if c.Proc() == 0 && !c.Stop() && c.TimeLeft() {
		c23Files(c)
	}
}

// when is the moment of the cancellation.
var when = []string{"before Serve", "right behind the start", "with connections in the queue", "at rest", "later", "later"}

func c23After(c *mon.C, cas string, l *mon.Listener, s *served) bool {
	done, err := s.get()
	if !done {
		c.Violate("not-returned", cas, "Serve has not returned after the cancellation")
	} else if err == nil {
		c.Violate("no-error", cas, "Serve returned without an error")
	}
	if !l.Closed() {
		c.Violate("listener-open", cas, "the listener was not closed")
	}
	return done
}

func c23Before(c *mon.C, cas string, l *mon.Listener, s *served) {
	if done, err := s.get(); done {
		c.Violate("returned-early", cas, "Serve returned %v before the cancellation", err)
	}
	if l.Closed() {
		c.Violate("listener-closed-early", cas, "the listener was closed before the cancellation")
	}
}

type tempErr struct{ error }

func (tempErr) Timeout() bool   { return false }
func (tempErr) Temporary() bool { return true }

func acceptError(r *rand.Rand) error {
	e := []error{syscall.EMFILE, syscall.ENFILE}[r.Intn(2)]
	if r.Intn(3) == 0 {
		return tempErr{errors.New("temporary")}
	}
	return &net.OpError{Op: "accept", Net: "mem", Err: os.NewSyscallError("accept4", e)}
}

func c23Agent(c *mon.C, r *rand.Rand, cas string) {
	w := bareWorld(c)
	w.l = mon.NewListener()
	defer w.cancel()
	base, end, how := stopper(r, w.base)
	a := &spop.Agent{Handler: spop.HandlerFunc(w.handle), BaseContext: base}
	s := &served{}
	moment := r.Intn(len(when))
	cas = fmt.Sprintf("%s agent, %s, %s", cas, when[moment], how)
	var cls []*client
	gate := make(chan struct{})
	id := 0
	request := func(cl *client, p *plan) {
		id++
		q := &request{sid: uint64(id), fid: 1, msgs: []ref.Msg{{Name: fmt.Sprintf("m%d", id)}}, plans: []*plan{p}}
		cl.send(q)
	}
	open := func(state int) {
		cl := w.dial()
		cls = append(cls, cl)
		switch state {
		case 0:
			return
		case 1:
			b := ref.Hello(16380).Bytes()
			cl.Send(b[:r.Intn(len(b))])
			return
		}
		cl.hello(16380)
		switch state {
		case 2:
		case 3:
			request(cl, &plan{waitCtx: true})
		case 4:
			request(cl, &plan{gate: gate})
		case 5:
			for k := r.Intn(30); k > 0; k-- {
				if r.Intn(2) == 0 {
					request(cl, &plan{waitCtx: true})
				} else {
					request(cl, &plan{gate: gate})
				}
			}
		case 6:
			b := ref.Notify(1, 1, ref.Msg{Name: "cut"}).Bytes()
			cl.Send(b[:r.Intn(len(b))])
		case 7:
			request(cl, &plan{read: -1})
		}
	}
	if moment == 0 {
		end()
	}
	if moment == 2 {
		for k := r.Intn(5); k > 0; k-- {
			open(r.Intn(8))
		}
	}
	s.run(func() error { return a.Serve(w.l) })
	if moment >= 3 {
		synctest.Wait()
		for k := r.Intn(60); k > 0; k-- { // come and go
			if r.Intn(4) == 0 {
				w.l.Fail(acceptError(r))
			}
			cl := w.dial()
			if r.Intn(2) == 0 {
				cl.hello(16380)
			}
			cl.EOF()
			c.Count("connections_that_came_and_went", 1)
		}
		if how == "deadline" {
			synctest.Wait() // time may not pass
		} else {
			time.Sleep(time.Minute)
		}
		for k := r.Intn(8); k > 0; k-- {
			open(r.Intn(8))
		}
		synctest.Wait()
		if how != "deadline" {
			time.Sleep(time.Duration(r.Intn(10)) * time.Second)
		}
		if moment == 5 { // overload leaves nothing free
			open(5)
			open(5)
			synctest.Wait()
		}
		if moment < 5 {
			for _, cl := range cls {
				if cl.IsClosed() {
					c.Violate("closed-early", cas, "a connection was closed before the cancellation")
				}
			}
		}
		if how != "deadline" {
			c23Before(c, cas, w.l, s)
		}
	}
	c.Case("%s: %d connections", cas, len(cls))
	c.Sample("%s: %d connections", cas, len(cls))
	if moment > 0 {
		end()
	}
	synctest.Wait()
	time.Sleep(250 * time.Millisecond)
	synctest.Wait()
	c.Eval(cas)
	c.Count("agents_cancelled", 1)
	c23After(c, cas, w.l, s)
	late := w.l.Dial(nil)
	contexts := func() {
		w.mu.Lock()
		defer w.mu.Unlock()
		for name, calls := range w.calls {
			for _, k := range calls {
				c.Count("handler_contexts", 1)
				if k.ctx.Err() == nil {
					c.Violate("context", cas, "the context of the handler of %s is still alive", name)
				}
			}
		}
	}
	contexts()
	close(gate)
	synctest.Wait()
	time.Sleep(time.Minute)
	synctest.Wait()
	contexts()
	for range cls {
		c.Eval("")
	}
	if late.Reads > 0 {
		c.Violate("still-accepting", cas, "a connection was accepted after the cancellation")
	}
	if n := w.runningNow(); n > 0 {
		c.Violate("handler-stuck", cas, "%d handlers did not finish", n)
	}
}

func c23Peers(c *mon.C, r *rand.Rand, cas string) {
	w, p := barePWorld(c)
	w.l = mon.NewListener()
	defer w.cancel()
	base, end, how := stopper(r, w.base)
	p.BaseContext = base
	s := &served{}
	moment := r.Intn(len(when))
	cas = fmt.Sprintf("%s peer server, %s, %s", cas, when[moment], how)
	gate := make(chan struct{})
	var cls []*mon.Conn
	open := func(state int) {
		w.mu.Lock()
		w.setup = append(w.setup, func(h *phandler) {
			block := func(ctx context.Context, wait bool) {
				if wait {
					<-ctx.Done()
				} else {
					<-gate
				}
			}
			switch state {
			case 3, 4:
				h.onHS = func(ctx context.Context) { block(ctx, state == 3) }
			case 5, 6:
				h.onUpd = func(ctx context.Context) { block(ctx, state == 5) }
			}
		})
		w.mu.Unlock()
		cl := w.l.Dial(nil)
		cls = append(cls, cl)
		hs := genHandshake(r).Bytes()
		switch state {
		case 0:
			return
		case 1:
			cl.Send(hs[:r.Intn(len(hs))])
			return
		}
		cl.Send(hs)
		if state >= 3 {
			d := genDef(r, 2)
			u := genUpdate(r, d)
			u.HasID = true
			cl.Send(ref.DefMsg(d).Bytes())
			cl.Send(ref.UpdateMsg(u).Bytes())
		}
	}
	if moment == 0 {
		end()
	}
	if moment == 2 {
		for k := r.Intn(5); k > 0; k-- {
			open(r.Intn(7))
		}
	}
	s.run(func() error { return p.Serve(w.l) })
	if moment >= 3 {
		synctest.Wait()
		for k := r.Intn(60); k > 0; k-- {
			if r.Intn(4) == 0 {
				w.l.Fail(acceptError(r))
			}
			cl := w.l.Dial(nil)
			if r.Intn(2) == 0 {
				cl.Send(genHandshake(r).Bytes())
			}
			cl.EOF()
			c.Count("connections_that_came_and_went", 1)
		}
		if how == "deadline" {
			synctest.Wait()
		} else {
			time.Sleep(time.Minute)
		}
		for k := r.Intn(8); k > 0; k-- {
			open(r.Intn(7))
			synctest.Wait()
		}
		if how != "deadline" {
			time.Sleep(time.Duration(r.Intn(4500)) * time.Millisecond)
			c23Before(c, cas, w.l, s)
			for _, cl := range cls {
				if cl.IsClosed() {
					c.Violate("closed-early", cas, "a connection was closed before the cancellation")
				}
			}
		}
	}
	c.Case("%s: %d connections", cas, len(cls))
	c.Sample("%s: %d connections", cas, len(cls))
	if moment > 0 {
		end()
	}
	synctest.Wait()
	time.Sleep(250 * time.Millisecond)
	synctest.Wait()
	c.Eval(cas)
	c.Count("peer_servers_cancelled", 1)
	c23After(c, cas, w.l, s)
	contexts := func() {
		for _, h := range w.handlers() {
			if ctx := h.context(); ctx != nil {
				c.Count("handler_contexts", 1)
				if ctx.Err() == nil {
					c.Violate("context", cas, "the context of a connection is still alive")
				}
			}
		}
	}
	contexts()
	close(gate)
	synctest.Wait()
	time.Sleep(250 * time.Millisecond)
	synctest.Wait()
	contexts()
	for range cls {
		c.Eval("")
	}
	for _, h := range w.handlers() {
		ev := h.events()
		if len(ev) == 0 || ev[len(ev)-1].kind != 'c' {
			c.Violate("not-closed", cas, "the handler of a connection was not closed")
		}
	}
}

// c23Listener lets the listener end while the base context is alive.
func c23Listener(c *mon.C, r *rand.Rand, cas string) {
	cas += ", the listener ends"
	base, cancel := context.WithCancel(context.Background())
	defer cancel()
	l := mon.NewListener()
	s := &served{}
	if r.Intn(2) == 0 {
		cas += " agent"
		w := bareWorld(c)
		defer w.cancel()
		a := &spop.Agent{Handler: spop.HandlerFunc(w.handle), BaseContext: base}
		s.run(func() error { return a.Serve(l) })
	} else {
		cas += " peers"
		w, p := barePWorld(c)
		defer w.cancel()
		p.BaseContext = base
		s.run(func() error { return p.Serve(l) })
	}
	synctest.Wait()
	var cls []*mon.Conn
	for k := r.Intn(4); k > 0; k-- {
		cls = append(cls, l.Dial(nil))
		if r.Intn(2) == 0 {
			l.Fail(acceptError(r))
		}
	}
	time.Sleep(time.Duration(r.Intn(3)) * time.Second)
	synctest.Wait()
	if done, err := s.get(); done {
		c.Violate("returned-early", cas, "Serve returned %v before the listener was closed", err)
	}
	if r.Intn(2) == 0 {
		l.Close()
	} else {
		cas += " with an error"
		l.Fail(errors.New("broken for good"))
	}
	synctest.Wait()
	time.Sleep(250 * time.Millisecond)
	synctest.Wait()
	if done, err := s.get(); !done || err == nil {
		c.Violate("not-returned", cas, "the listener has ended: Serve returned %v, error %v", done, err)
		l.Close()
	}
	for _, cl := range cls {
		cl.EOF()
	}
	cancel()
	synctest.Wait()
	time.Sleep(time.Minute)
	synctest.Wait()
	c.Count("listeners_ended", 1)
	c.Eval(cas)
}

// within waits in real time.
func eventually(limit time.Duration, cond func() bool) bool {
	for end := time.Now().Add(limit); !cond(); time.Sleep(time.Millisecond) {
		if time.Now().After(end) {
			return cond()
		}
	}
	return true
}

// c23TCP cancels ListenAndServe of both servers while real peers do not read.
func c23TCP(c *mon.C, r *rand.Rand, i int) {
	free, err := net.Listen("tcp", "127.0.0.1:0")
	if err != nil {
		c.HarnessError("listen: %v", err)
		return
	}
	addr := free.Addr().String()
	free.Close()
	s := &served{}
	var conns []net.Conn
	defer func() {
		for _, nc := range conns {
			nc.Close()
		}
	}()
	dial := func() net.Conn {
		var nc net.Conn
		if !eventually(60*time.Second, func() bool {
			var err error
			nc, err = net.Dial("tcp", addr)
			return err == nil
		}) {
			if done, err := s.get(); done && errors.Is(err, syscall.EADDRINUSE) {
				c.Count("port_taken", 1)
			} else {
				c.Violate("not-accepting", "tcp", "no connection within a minute; Serve returned: %v %v", done, err)
			}
			return nil
		}
		conns = append(conns, nc)
		return nc
	}
	var alive func() int
	var cancel func()
	var waiting func() bool
	what := "agent"
	if i%2 == 0 {
		w := bareWorld(c)
		defer w.cancel()
		cancel = w.cancel
		a := &spop.Agent{Addr: addr, Handler: spop.HandlerFunc(w.handle), BaseContext: w.base}
		s.run(a.ListenAndServe)
		w.add("big", &plan{steps: []step{setStep(1, "v", ref.Val{T: ref.TString, Bytes: make([]byte, 8<<20)})}})
		w.add("wait", &plan{waitCtx: true})
		workers := runtime.NumCPU() // all of the handlers must be running
		bigs, waits := 1, 2
		if workers < 3 {
			waits = 1
		}
		if workers < 2 {
			bigs = 0
		}
		for k := 1 - bigs; k <= waits; k++ {
			nc := dial()
			if nc == nil {
				return
			}
			nc.Write(ref.Hello(16 << 20).Bytes())
			if k == 0 {
				nc.Write(ref.Notify(1, 1, ref.Msg{Name: "big"}).Bytes())
			} else {
				nc.Write(ref.Notify(1, 1, ref.Msg{Name: "wait"}).Bytes())
			}
		}
		waiting = func() bool { return len(w.get("wait")) == waits && len(w.get("big")) == bigs }
		alive = func() (n int) {
			for _, name := range []string{"wait", "big"} {
				for _, k := range w.get(name) {
					if k.ctx.Err() == nil || name == "wait" && k.end == 0 {
						n++
					}
				}
			}
			return n
		}
	} else {
		what = "peer server"
		w, p := barePWorld(c)
		defer w.cancel()
		cancel = w.cancel
		p.Addr = addr
		s.run(p.ListenAndServe)
		pushing := make(chan struct{}, 10)
		for k := 0; k < 3; k++ {
			w.mu.Lock()
			w.setup = append(w.setup, func(h *phandler) {
				h.onHS = func(ctx context.Context) {
					pushing <- struct{}{}
					g := &pushGen{r: rand.New(rand.NewSource(int64(i)))}
					pw := peers.WriterFromContext(ctx)
					for h.context().Err() == nil { // until the peer, who does not read, blocks it
						if e, _ := g.entry(30000); pw.SendEntry(e) != nil {
							return
						}
					}
				}
			})
			w.mu.Unlock()
			nc := dial()
			if nc == nil {
				return
			}
			nc.Write(ref.DefaultHandshake.Bytes())
		}
		waiting = func() bool { return len(pushing) == 3 }
		alive = func() (n int) {
			for _, h := range w.handlers() {
				ev := h.events()
				if ctx := h.context(); ctx == nil || ctx.Err() == nil || ev[len(ev)-1].kind != 'c' {
					n++
				}
			}
			return n
		}
	}
	if !eventually(60*time.Second, waiting) {
		c.Violate("not-handled", "tcp "+what, "no callbacks within a minute")
		return
	}
	time.Sleep(time.Duration(r.Intn(100)) * time.Millisecond)
	if done, err := s.get(); done {
		c.Violate("returned-early", "tcp "+what, "ListenAndServe returned %v", err)
	}
	cancel()
	if !eventually(60*time.Second, func() bool { done, _ := s.get(); return done }) {
		c.Violate("not-returned", "tcp "+what, "ListenAndServe has not returned a minute after the cancellation")
		return
	}
	if _, err := s.get(); err == nil {
		c.Violate("no-error", "tcp "+what, "ListenAndServe returned without an error")
	}
	if !eventually(60*time.Second, func() bool { return alive() == 0 }) {
		c.Violate("context", "tcp "+what, "%d connections are not over a minute after the cancellation", alive())
	}
	if nc, err := net.DialTimeout("tcp", addr, 5*time.Second); err == nil {
		nc.Close()
		c.Violate("listener-open", "tcp "+what, "a connection was still accepted after ListenAndServe returned")
	}
	c.Count("tcp_servers_cancelled", 1)
	c.Eval(fmt.Sprint("tcp", i))
}

// c23Package runs the servers without a base context.
func c23Package(c *mon.C, r *rand.Rand) {
	for _, what := range []string{"agent", "peer server"} {
		free, err := net.Listen("tcp", "127.0.0.1:0")
		if err != nil {
			c.HarnessError("listen: %v", err)
			return
		}
		addr := free.Addr().String()
		free.Close()
		var mu sync.Mutex
		var ctxs []context.Context
		seen := func(ctx context.Context) {
			mu.Lock()
			defer mu.Unlock()
			ctxs = append(ctxs, ctx)
		}
		calls := func() (n, ended int) {
			mu.Lock()
			defer mu.Unlock()
			for _, ctx := range ctxs {
				if ctx.Err() != nil {
					ended++
				}
			}
			return len(ctxs), ended
		}
		spoe := spop.HandlerFunc(func(ctx context.Context, _ *encoding.ActionWriter, _ *encoding.Message) { seen(ctx) })
		peer := peers.HandlerFunc(func(ctx context.Context, _ *sticktable.EntryUpdate) { seen(ctx) })
		d := genDef(r, 2)
		u := genUpdate(r, d)
		u.HasID = true
		s := &served{}
		var b []byte
		if what == "agent" {
			s.run(func() error { return spop.ListenAndServe(addr, spoe) })
			b = append(ref.Hello(16380).Bytes(), ref.Notify(1, 1, ref.Msg{Name: "m"}).Bytes()...)
		} else {
			s.run(func() error { return peers.ListenAndServe(addr, peer) })
			b = append(ref.DefaultHandshake.Bytes(), pbytes([]ref.PMsg{ref.DefMsg(d), ref.UpdateMsg(u)})...)
		}
		var conns []net.Conn
		for k := 0; k < 5; k++ {
			var nc net.Conn
			if !eventually(60*time.Second, func() bool {
				nc, err = net.Dial("tcp", addr)
				return err == nil
			}) {
				if done, err := s.get(); done && errors.Is(err, syscall.EADDRINUSE) {
					c.Count("port_taken", 1)
				} else {
					c.Violate("not-accepting", "no base context, "+what, "no connection within a minute; ListenAndServe returned: %v %v", done, err)
				}
				return
			}
			conns = append(conns, nc)
			nc.Write(b)
			if !eventually(60*time.Second, func() bool { n, _ := calls(); return n == k+1 }) {
				n, _ := calls()
				c.Violate("not-handled", "no base context, "+what, "%d callbacks for %d connections", n, k+1)
				return
			}
			if k < 3 {
				nc.Close()
				if !eventually(60*time.Second, func() bool { _, e := calls(); return e == k+1 }) {
					c.Violate("context", "no base context, "+what, "the context of an ended connection is alive")
				}
			}
			c.Count("connections_without_base_context", 1)
			c.Eval(fmt.Sprint(what, k))
		}
		if _, e := calls(); e != 3 {
			c.Violate("context", "no base context, "+what, "%d contexts are over, 3 connections have ended", e)
		}
		if done, err := s.get(); done {
			c.Violate("returned-early", "no base context, "+what, "ListenAndServe returned %v", err)
		}
		// the address is taken, which is no reason to wait
		s2 := &served{}
		s2.run(func() error {
			if what == "agent" {
				return spop.ListenAndServe(addr, spoe)
			}
			return peers.ListenAndServe(addr, peer)
		})
		if !eventually(60*time.Second, func() bool { done, _ := s2.get(); return done }) {
			c.Violate("not-returned", what, "ListenAndServe on an address that is taken has not returned")
		} else if _, err := s2.get(); err == nil {
			c.Violate("no-error", what, "ListenAndServe on an address that is taken returned no error")
		}
		for _, nc := range conns {
			nc.Close()
		}
	}
}

// c23Misused starts a peer server that cannot serve: it returns an error and
// does not keep the address.
func c23Misused(c *mon.C) {
	free, err := net.Listen("tcp", "127.0.0.1:0")
	if err != nil {
		c.HarnessError("listen: %v", err)
		return
	}
	addr := free.Addr().String()
	free.Close()
	h := peers.HandlerFunc(func(context.Context, *sticktable.EntryUpdate) {})
	s := &served{}
	p := &peers.Peer{Addr: addr, Handler: h, HandlerSource: func() peers.Handler { return h }}
	s.run(p.ListenAndServe)
	if !eventually(60*time.Second, func() bool { done, _ := s.get(); return done }) {
		c.Violate("not-returned", "handler and source", "ListenAndServe has not returned")
		return
	}
	if _, err := s.get(); err == nil {
		c.Violate("no-error", "handler and source", "ListenAndServe returned no error")
	}
	if nc, err := net.Dial("tcp", addr); err == nil {
		nc.Close()
		c.Violate("listener-open", "handler and source", "the address still accepts connections after ListenAndServe has returned")
	}
	c.Eval("handler and source")
}

// c23Files lets the file descriptors run out for a while.
func c23Files(c *mon.C) {
	var old syscall.Rlimit
	if err := syscall.Getrlimit(syscall.RLIMIT_NOFILE, &old); err != nil {
		c.HarnessError("getrlimit: %v", err)
		return
	}
	for _, what := range []string{"agent", "peer server"} {
		l, err := net.Listen("tcp", "127.0.0.1:0")
		if err != nil {
			c.HarnessError("listen: %v", err)
			return
		}
		ctx, cancel := context.WithCancel(context.Background())
		defer cancel()
		s := &served{}
		probe, want := ref.DefaultHandshake.Bytes(), 4
		if what == "agent" {
			a := &spop.Agent{Handler: spop.HandlerFunc(bareWorld(c).handle), BaseContext: ctx}
			s.run(func() error { return a.Serve(l) })
			probe, want = ref.Hello(16380).Bytes(), 10
		} else {
			p := &peers.Peer{HandlerSource: func() peers.Handler { return peers.HandlerFunc(nil) }, BaseContext: ctx}
			s.run(func() error { return p.Serve(l) })
		}
		works := func() bool {
			nc, err := net.Dial("tcp", l.Addr().String())
			if err != nil {
				return false
			}
			defer nc.Close()
			nc.SetDeadline(time.Now().Add(20 * time.Second))
			nc.Write(probe)
			b := make([]byte, want)
			n, _ := nc.Read(b)
			return n > 0
		}
		if !works() {
			c.HarnessError("%s does not work over TCP", what)
			return
		}
		files, err := os.ReadDir("/proc/self/fd")
		if err != nil {
			c.HarnessError("%v", err)
			return
		}
		low := old
		low.Cur = uint64(len(files) + 40)
		if err := syscall.Setrlimit(syscall.RLIMIT_NOFILE, &low); err != nil {
			c.HarnessError("setrlimit: %v", err)
			return
		}
		var conns []net.Conn
		for len(conns) < 200 {
			nc, err := net.Dial("tcp", l.Addr().String())
			if err != nil {
				break
			}
			conns = append(conns, nc)
		}
		time.Sleep(50 * time.Millisecond)
		for _, nc := range conns {
			nc.Close()
		}
		syscall.Setrlimit(syscall.RLIMIT_NOFILE, &old)
		if !eventually(60*time.Second, works) {
			done, err := s.get()
			c.Violate("not-accepting", what, "%d connections exhausted the file descriptors; after they were closed new ones are not served (Serve returned: %v %v)", len(conns), done, err)
		}
		c.Count("exhausted_descriptors", 1)
	}
}
