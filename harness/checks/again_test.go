package checks

import (
	"context"
	"errors"
	"fmt"
	"net"
	"sync"
	"testing"
	"testing/synctest"
	"time"

	"github.com/dropmorepackets/haproxy-go/peers"
	"github.com/dropmorepackets/haproxy-go/peers/sticktable"
	"github.com/dropmorepackets/haproxy-go/pkg/encoding"
	"github.com/dropmorepackets/haproxy-go/spop"

	"verif/mon"
	"verif/ref"
)

// countHandler is one handler for all connections of a peer server.
type countHandler struct {
	mu      sync.Mutex
	updates int
	closes  int
}

func (h *countHandler) HandleUpdate(context.Context, *sticktable.EntryUpdate) {
	h.mu.Lock()
	h.updates++
	h.mu.Unlock()
}
func (h *countHandler) HandleHandshake(context.Context, *peers.Handshake) {}
func (h *countHandler) Close() error {
	h.mu.Lock()
	h.closes++
	h.mu.Unlock()
	return nil
}

// server is an agent or a peer server that can be served again and again.
type server struct {
	what    string
	serve   func(net.Listener) error
	open    []byte
	openOut int
	ask     func(i int) []byte // one more callback
	handled func() int         // callbacks
}

func servers(base context.Context) []*server {
	var mu sync.Mutex
	calls := 0
	a := &spop.Agent{BaseContext: base, Handler: spop.HandlerFunc(func(context.Context, *encoding.ActionWriter, *encoding.Message) {
		mu.Lock()
		calls++
		mu.Unlock()
	})}
	agent := &server{what: "agent", serve: a.Serve, open: ref.Hello(16380).Bytes(), openOut: 10,
		ask:     func(i int) []byte { return ref.Notify(uint64(i), 1, ref.Msg{Name: "m"}).Bytes() },
		handled: func() int { mu.Lock(); defer mu.Unlock(); return calls }}
	d := ref.Def{ID: 1, Name: "t", KeyType: ref.KeySint, KeyLen: 4, Types: []ref.DT{{Type: 1}}}
	ask := func(i int) []byte {
		u := ref.Update{HasID: true, ID: uint32(i), Key: ref.Key{Type: ref.KeySint, B: []byte{0, 0, 0, 1}}, Data: []ref.DVal{{Kind: ref.KUint, I: 1}}}
		return append(ref.DefMsg(d).Bytes(), ref.UpdateMsg(u).Bytes()...)
	}
	out := []*server{agent}
	for k := range 2 {
		h := &countHandler{}
		p := &peers.Peer{BaseContext: base, Handler: h}
		what := "peer server with a handler"
		if k == 1 {
			p = &peers.Peer{BaseContext: base, HandlerSource: func() peers.Handler { return h }}
			what = "peer server with a source of handlers"
		}
		out = append(out, &server{what: what, serve: p.Serve, open: ref.DefaultHandshake.Bytes(), openOut: 4, ask: ask,
			handled: func() int { h.mu.Lock(); defer h.mu.Unlock(); return h.updates }})
	}
	return out
}

// c23Again serves a server again after its listener has ended; connections of
// all its listeners go on.
func c23Again(c *mon.C, t *testing.T) {
	r := c.Rng
	for which := range 3 {
		cas := fmt.Sprintf("seed %d served again %d", c.Seed, which)
		bubble(c, t, cas, func() {
			base, cancel := context.WithCancel(context.Background())
			defer cancel()
			sv := servers(base)[which]
			cas := cas + ", " + sv.what
			c.Case("%s", cas)
			var open []*mon.Conn
			asked := 0
			for round := range 4 {
				l := mon.NewListener()
				s := &served{}
				s.run(func() error { return sv.serve(l) })
				x := l.Dial(nil)
				x.Send(sv.open)
				open = append(open, x)
				synctest.Wait()
				if done, err := s.get(); done {
					c.Violate("not-served-again", cas, "Serve call %d returned %v", round+1, err)
					return
				}
				if x.OutLen() < sv.openOut {
					c.Violate("not-accepting", cas, "a connection of Serve call %d is not served", round+1)
					return
				}
				for i, x := range open {
					x.Send(sv.ask(asked))
					asked++
					synctest.Wait()
					if sv.handled() != asked || x.IsClosed() {
						c.Violate("not-handled", cas, "connection %d, in Serve call %d: %d of %d were handled, closed %v", i+1, round+1, sv.handled(), asked, x.IsClosed())
						return
					}
				}
				if r.Intn(2) == 0 {
					l.Close()
				} else {
					l.Fail(errors.New("broken for good"))
				}
				synctest.Wait()
				if done, err := s.get(); !done || err == nil {
					c.Violate("not-returned", cas, "the listener has ended: Serve returned %v, error %v", done, err)
					return
				}
				c.Count("serve_calls_of_one_server", 1)
				c.Eval(fmt.Sprint(cas, round))
			}
			cancel()
			synctest.Wait()
			for _, x := range open {
				x.EOF()
			}
			time.Sleep(time.Minute)
		})
	}
}

// brokenListener hands over real connections, some of them already closed.
type brokenListener struct {
	net.Listener
	mu     sync.Mutex
	breaks func() bool
}

func (l *brokenListener) Accept() (net.Conn, error) {
	nc, err := l.Listener.Accept()
	if err != nil {
		return nil, err
	}
	l.mu.Lock()
	defer l.mu.Unlock()
	if l.breaks() {
		nc.Close()
	}
	return nc, nil
}

// brokenAccepts checks that connections which are broken when they are
// accepted cost only themselves.
func brokenAccepts(c *mon.C, which ...int) {
	r := c.Rng
	for _, k := range which {
		base, cancel := context.WithCancel(context.Background())
		defer cancel()
		sv := servers(base)[k]
		cas := fmt.Sprintf("seed %d broken when accepted, %s", c.Seed, sv.what)
		c.Case("%s", cas)
		tcp, err := net.Listen("tcp", "127.0.0.1:0")
		if err != nil {
			c.HarnessError("listen: %v", err)
			return
		}
		n := 0
		pattern := r.Int63()
		l := &brokenListener{Listener: tcp, breaks: func() bool { n++; return pattern>>(n%60)&1 == 1 }}
		s := &served{}
		s.run(func() error { return sv.serve(l) })
		ok, broken := 0, 0
		for i := 0; i < 60; i++ {
			if done, err := s.get(); done {
				c.Violate("serve-returned", cas, "Serve returned %v after %d connections that were broken when they were accepted", err, broken)
				return
			}
			nc, err := net.Dial("tcp", tcp.Addr().String())
			if err != nil {
				if done, err := s.get(); done {
					c.Violate("serve-returned", cas, "Serve returned %v after %d connections that were broken when they were accepted", err, broken)
				} else {
					c.Violate("not-accepting", cas, "dial: %v", err)
				}
				return
			}
			nc.SetDeadline(time.Now().Add(60 * time.Second))
			nc.Write(sv.open)
			b := make([]byte, sv.openOut)
			if m, _ := nc.Read(b); m > 0 {
				ok++
			} else {
				broken++
			}
			nc.Close()
		}
		want := 0
		for i := 1; i <= 60; i++ {
			if pattern>>(i%60)&1 == 0 {
				want++
			}
		}
		if ok != want {
			c.Violate("not-accepting", cas, "%d of %d connections that are in order were served", ok, want)
		}
		c.Count("connections_broken_when_accepted", broken)
		c.Eval(cas)
		cancel()
	}
}
