package checks

import (
	"context"
	"fmt"
	"math/rand"
	"net"
	"os"
	"runtime"
	"runtime/debug"
	"strings"
	"sync"
	"testing"
	"testing/synctest"
	"time"
	"unsafe"
	"weak"

	"github.com/dropmorepackets/haproxy-go/peers"
	"github.com/dropmorepackets/haproxy-go/peers/sticktable"
	"github.com/dropmorepackets/haproxy-go/pkg/encoding"
	"github.com/dropmorepackets/haproxy-go/spop"

	"verif/mon"
	"verif/ref"
)

// regBase is a base context that counts what is registered with it. A context
// derived from it directly registers once and has to be stopped again.
type regBase struct {
	context.Context
	done chan struct{}
	mu   sync.Mutex
	next int
	fns  map[int]func()
}

func newRegBase() *regBase {
	return &regBase{Context: context.Background(), done: make(chan struct{}), fns: map[int]func(){}}
}

func (b *regBase) Done() <-chan struct{} { return b.done }

func (b *regBase) Err() error {
	select {
	case <-b.done:
		return context.Canceled
	default:
		return nil
	}
}

func (b *regBase) AfterFunc(f func()) func() bool {
	b.mu.Lock()
	defer b.mu.Unlock()
	k := b.next
	b.next++
	b.fns[k] = f
	return func() bool {
		b.mu.Lock()
		defer b.mu.Unlock()
		_, ok := b.fns[k]
		delete(b.fns, k)
		return ok
	}
}

func (b *regBase) registered() int {
	b.mu.Lock()
	defer b.mu.Unlock()
	return len(b.fns)
}

func (b *regBase) cancel() {
	b.mu.Lock()
	close(b.done)
	fns := b.fns
	b.fns = map[int]func(){}
	b.mu.Unlock()
	for _, f := range fns {
		go f()
	}
}

// leakBase makes a base context; reg is nil for an ordinary one.
func leakBase(r *rand.Rand) (ctx context.Context, cancel func(), reg *regBase) {
	if r.Intn(2) == 0 {
		b := newRegBase()
		return b, b.cancel, b
	}
	ctx, cancel = context.WithCancel(context.Background())
	return ctx, cancel, nil
}

// ghosts are weak references to what has to become garbage.
type ghosts struct {
	mu sync.Mutex
	m  map[string][]weak.Pointer[byte]
}

func (g *ghosts) add(what string, p unsafe.Pointer) {
	g.mu.Lock()
	if g.m == nil {
		g.m = map[string][]weak.Pointer[byte]{}
	}
	g.m[what] = append(g.m[what], weak.Make((*byte)(p)))
	g.mu.Unlock()
}

// addCtx references the value behind a context.
func (g *ghosts) addCtx(ctx context.Context) {
	type iface struct{ tab, data unsafe.Pointer }
	g.add("context", (*iface)(unsafe.Pointer(&ctx)).data)
}

// check collects garbage and reports what is still there.
func (g *ghosts) check(c *mon.C, cas string, slack int) {
	for i := 0; i < 3; i++ {
		runtime.GC()
	}
	g.mu.Lock()
	defer g.mu.Unlock()
	for what, ps := range g.m {
		alive := 0
		once := map[weak.Pointer[byte]]bool{}
		for _, p := range ps {
			if !once[p] && p.Value() != nil {
				alive++
			}
			once[p] = true
		}
		c.Count("collectable_"+what, len(once))
		c.Count("collected_"+what, len(once)-alive)
		if alive > slack {
			c.Violate("retained", cas, "%d of %d values of kind %q of ended connections are still reachable", alive, len(once), what)
		}
	}
	g.m = nil
}

// goroutines is the number of goroutines once those about to exit are gone.
func goroutines(want int) (n int) {
	for i := 0; i < 200; i++ {
		if n = runtime.NumGoroutine(); n <= want {
			return n
		}
		runtime.Gosched()
	}
	return n
}

// libStacks lists the stacks that the library is part of, without the many
// identical ones.
func libStacks() string {
	b := make([]byte, 4<<20)
	b = b[:runtime.Stack(b, true)]
	seen := map[string]int{}
	var order []string
	for _, s := range strings.Split(string(b), "\n\n") {
		if !strings.Contains(s, "haproxy-go") {
			continue
		}
		if i := strings.Index(s, "\n"); i > 0 {
			s = s[i+1:]
		}
		if len(s) > 500 {
			s = s[:500]
		}
		if seen[s] == 0 {
			order = append(order, s)
		}
		seen[s]++
	}
	out := ""
	for _, s := range order {
		out += fmt.Sprintf("%d times:\n%s\n", seen[s], s)
	}
	if len(out) > 3500 {
		out = out[:3500]
	}
	return out
}

func heap() int {
	for i := 0; i < 3; i++ {
		runtime.GC()
	}
	var m runtime.MemStats
	runtime.ReadMemStats(&m)
	return int(m.HeapAlloc)
}

func TestC29(t *testing.T) {
	c := mon.Start(t, "C29", "rounds of dozens of connections of one class to a long-running agent or peer server: silent, partly opened, refused, idle, with answered, panicking, malformed, waiting or outlasting requests, with callbacks, pushes and failing writes; ended by disconnect, end of stream, reset, error, inactivity. Afterwards, at quiescence: transports closed, number of goroutines and of registrations with the base context as before, connections, handlers and contexts collected by the garbage collector (weak pointers). Long sessions with tens of thousands of requests, updates and pushes, whose live heap must not grow. Over TCP: file descriptors. Evaluations are connections; non-trivial: distinct (class, ending).")
	defer c.Finish()
	r := c.Rng
	n := c.N(10, 120)
	for b := 0; b < n && !c.Stop() && c.TimeLeft(); b++ {
		bubble(c, t, fmt.Sprintf("agent bubble %d", b), func() { c29Agent(c, r, fmt.Sprintf("seed %d agent bubble %d", c.Seed, b)) })
		bubble(c, t, fmt.Sprintf("peer bubble %d", b), func() { c29Peers(c, r, fmt.Sprintf("seed %d peer bubble %d", c.Seed, b)) })
		if b%3 == 0 {
			bubble(c, t, "agent session", func() { c29AgentLong(c, r) })
			bubble(c, t, "peer session", func() { c29PeersLong(c, r) })
		}
	}
	for i := 0; i < c.N(2, 8) && !c.Stop() && c.TimeLeft(); i++ {
		c29TCP(c, r)
	}
}

// The queue and the workers of an agent may refer to what they saw last.
var (
	leakConns = 40 + 4*runtime.NumCPU()
	leakSlack = 8 + 3*runtime.NumCPU()
)

// leakHandler does what the message name says.
type leakHandler struct {
	g    *ghosts
	gate chan struct{}
}

func (h *leakHandler) HandleSPOE(ctx context.Context, aw *encoding.ActionWriter, m *encoding.Message) {
	if h.g != nil {
		h.g.addCtx(ctx)
	}
	e := encoding.AcquireKVEntry()
	for m.KV.Next(e) {
	}
	encoding.ReleaseKVEntry(e)
	_ = aw.SetInt64(encoding.VarScopeTransaction, "v", 1)
	switch m.NameBytes()[0] {
	case 'p':
		panic("handler panic")
	case 'w':
		<-ctx.Done()
	case 'g':
		<-h.gate
	}
}

func c29Agent(c *mon.C, r *rand.Rand, cas string) {
	base, cancel, reg := leakBase(r)
	defer cancel()
	g := &ghosts{}
	h := &leakHandler{g: g}
	l := mon.NewListener()
	a := &spop.Agent{Handler: h, BaseContext: base}
	go a.Serve(l)
	workers := runtime.NumCPU()
	goro, regs := 0, 0
	for round := 0; round < 8 && !c.Stop(); round++ {
		class := r.Intn(9)
		if round == 0 {
			class = 2 // fill the pools
		}
		ending := r.Int63()
		what := ""
		func() {
			h.gate = make(chan struct{})
			var cls []*client
			waiting := 0
			for k := 0; k < leakConns; k++ {
				cl := &client{Conn: mon.NewConn()}
				l.Dial(cl.Conn)
				g.add("connection", unsafe.Pointer(cl.Conn))
				msg := func(kind string, fid uint64) {
					cl.Send(ref.Notify(uint64(k), fid, ref.Msg{Name: kind, Args: genKVs(r, 2, 20)}).Bytes())
				}
				if class >= 2 && class != 7 {
					cl.hello(16380)
				}
				switch class {
				case 0:
					what = "silent"
				case 1:
					what = "part of a HELLO"
					b := ref.Hello(16380).Bytes()
					cl.Send(b[:1+r.Intn(len(b)-1)])
				case 2:
					what = "answered requests"
					for i := r.Intn(4); i >= 0; i-- {
						msg("ok", uint64(i))
					}
				case 3:
					what = "panicking handlers"
					for i := r.Intn(4); i >= 0; i-- {
						msg("panic", uint64(i))
					}
				case 4:
					what = "malformed arguments"
					f := ref.Notify(1, 1, ref.Msg{Name: "ok", Args: genKVs(r, 2, 20)})
					f.Payload = f.Payload[:len(f.Payload)-1]
					cl.Send(f.Bytes())
				case 5:
					what = "handlers waiting for their context"
					if waiting < workers {
						waiting++
						msg("wait", 1)
					}
				case 6:
					what = "handlers that outlast the connection"
					if waiting < 2*workers {
						waiting++
						msg("gate", 1)
					}
				case 7:
					what = "refused or health check"
					if r.Intn(2) == 0 {
						cl.Send(ref.Hello(5).Bytes())
					} else {
						cl.Send(ref.Hello(16380, ref.KV{Name: "healthcheck", V: ref.Val{T: ref.TBool, Bool: true}}).Bytes())
					}
				case 8:
					what = "replies that cannot be written"
					synctest.Wait()
					cl.FailWrites()
					msg("ok", 1)
				}
				if r.Intn(8) == 0 {
					synctest.Wait()
				}
				cls = append(cls, cl)
			}
			synctest.Wait()
			for _, cl := range cls {
				end := ""
				if class < 2 { // a DISCONNECT would complete what was begun
					cl.EOF()
					end = "EOF"
				} else {
					end = endConn(rand.New(rand.NewSource(ending)), cl)
				}
				what2 := what + ", " + end
				c.Eval("agent " + what2)
				if cl == cls[0] {
					what = what2
					c.Sample("agent: %s", what)
				}
			}
			synctest.Wait()
			close(h.gate)
			synctest.Wait()
			time.Sleep(time.Minute)
			synctest.Wait()
			for k, cl := range cls {
				if !cl.IsClosed() {
					c.Violate("not-closed", cas+": "+what, "connection %d is still open", k)
					break
				}
			}
		}()
		cas := fmt.Sprintf("%s round %d: %d connections, %s, counting base %v", cas, round, leakConns, what, reg != nil)
		c.Case("%s", cas)
		g.check(c, cas, leakSlack)
		if round == 0 {
			goro = goroutines(0)
			if reg != nil {
				regs = reg.registered()
			}
			continue
		}
		if n := goroutines(goro); n > goro {
			c.Violate("goroutines", cas, "%d goroutines, %d before the connections\n%s", n, goro, libStacks())
		}
		if reg != nil && reg.registered() > regs {
			c.Violate("registrations", cas, "%d registrations with the base context, %d before the connections", reg.registered(), regs)
		}
		c.Count("rounds_checked", 1)
	}
	// still in service
	cl := &client{Conn: mon.NewConn()}
	l.Dial(cl.Conn)
	cl.hello(16380)
	cl.Send(ref.Notify(7, 7, ref.Msg{Name: "ok"}).Bytes())
	synctest.Wait()
	if s, err := parseStream(cl.Out()); err != nil || len(s.acks) != 1 {
		c.Violate("out-of-service", cas, "no reply after the rounds: %v", err)
	}
}

// c29AgentLong sends many requests over one connection.
func c29AgentLong(c *mon.C, r *rand.Rand) {
	base, cancel, reg := leakBase(r)
	defer cancel()
	l := mon.NewListener()
	a := &spop.Agent{Handler: &leakHandler{}, BaseContext: base}
	go a.Serve(l)
	conn := mon.NewConn()
	l.Dial(conn)
	conn.Send(ref.Hello(16380).Bytes())
	ids := uint64(0)
	kind := r.Intn(4)
	run := func(n int) {
		for ; n > 0; n-- {
			ids++
			msg := ref.Msg{Name: "ok", Args: genKVs(r, r.Intn(3), 20)}
			if kind == 1 && r.Intn(2) == 0 {
				msg.Name = "panic"
			}
			f := ref.Notify(ids*2654435761, ids, msg)
			if kind == 2 && r.Intn(2) == 0 && len(f.Payload) > 0 {
				f.Payload = f.Payload[:len(f.Payload)-1]
			}
			if kind == 3 {
				f.StreamID, f.FrameID = ids%7, ids
			}
			conn.Send(f.Bytes())
			if n%50 == 0 {
				synctest.Wait()
				conn.Discard()
			}
		}
		synctest.Wait()
		conn.Discard()
	}
	c29Growth(c, fmt.Sprintf("one agent connection, kind of requests %d", kind), reg, run)
	if conn.IsClosed() {
		c.HarnessError("the long session was closed")
	}
}

// c29Growth compares the resources in use after some and after many more steps.
func c29Growth(c *mon.C, cas string, reg *regBase, run func(n int)) {
	const segments = 5
	n := c.N(2500, 15000)
	c.Case("%s", cas)
	run(2000)
	goro, hs, regs := goroutines(0), []int{heap()}, 0
	if reg != nil {
		regs = reg.registered()
	}
	for i := 0; i < segments; i++ {
		run(n)
		hs = append(hs, heap())
		if g := goroutines(goro); g > goro {
			c.Violate("goroutines", cas, "from %d to %d goroutines within %d steps\n%s", goro, g, n*(i+1), libStacks())
			return
		}
		if reg != nil && reg.registered() > regs {
			c.Violate("registrations", cas, "from %d to %d registrations with the base context within %d steps", regs, reg.registered(), n*(i+1))
			return
		}
	}
	c.Eval(cas)
	c.Count("long_session_steps", segments*n)
	c.Max("max_heap_growth_bytes", max(0, hs[segments]-hs[0]))
	// something is left behind by every step only if the heap grows in all segments
	grows := hs[segments]-hs[0] > 256<<10
	for i := range segments {
		grows = grows && hs[i+1]-hs[i] > 20*n
	}
	if grows {
		c.Violate("heap-growth", cas, "live heap every %d steps: %v bytes", n, hs)
	}
}

// leakPeer is the handler of one peer connection.
type leakPeer struct {
	g      *ghosts
	push   int
	wait   bool
	sleep  time.Duration
	panics bool
	closed func()
}

func (h *leakPeer) seen(ctx context.Context) {
	if h.g != nil {
		h.g.addCtx(ctx)
	}
}

func (h *leakPeer) HandleHandshake(ctx context.Context, _ *peers.Handshake) {
	h.seen(ctx)
	w := peers.WriterFromContext(ctx)
	if h.g != nil {
		h.g.add("writer", unsafe.Pointer(w))
	}
	if h.push > 0 {
		d := leakTable()
		_ = w.SendTableDefinition(d)
		for i := 0; i < h.push; i++ {
			_ = w.SendEntry(leakEntry(d, i))
		}
	}
}

func (h *leakPeer) HandleUpdate(ctx context.Context, _ *sticktable.EntryUpdate) {
	h.seen(ctx)
	if h.wait {
		<-ctx.Done()
	}
	if h.sleep > 0 {
		time.Sleep(h.sleep)
	}
}

func (h *leakPeer) Close() error {
	if h.closed != nil {
		h.closed()
	}
	return nil
}

func leakTable() *sticktable.Definition {
	d := ref.Def{ID: 1, Name: "t", KeyType: 2, KeyLen: 4, Expiry: 60000, Types: []ref.DT{{Type: 1}}}
	return libDef(d)
}

func leakEntry(d *sticktable.Definition, i int) *sticktable.EntryUpdate {
	k, v := sticktable.SignedIntegerKey(i), sticktable.UnsignedIntegerData(i)
	return &sticktable.EntryUpdate{StickTable: d, Key: &k, Data: []sticktable.MapData{&v}}
}

func c29Peers(c *mon.C, r *rand.Rand, cas string) {
	base, cancel, reg := leakBase(r)
	defer cancel()
	g := &ghosts{}
	l := mon.NewListener()
	var cur leakPeer
	p := &peers.Peer{BaseContext: base, HandlerSource: func() peers.Handler {
		h := new(leakPeer)
		*h = cur
		g.add("handler", unsafe.Pointer(h))
		return h
	}}
	go p.Serve(l)
	goro, regs := 0, 0
	for round := 0; round < 8 && !c.Stop(); round++ {
		class := r.Intn(8)
		if round == 0 {
			class = 3
		}
		ending := r.Intn(6)
		if class < 2 {
			ending %= 2
		}
		what := []string{"silent", "part of a handshake", "bad handshake", "updates", "pushes", "callbacks waiting for their context",
			"slow callbacks", "failing writes"}[class]
		endWhat := []string{"EOF", "reset", "protocol error", "inactivity", "EOF in a message", "unreadable message"}[ending]
		cur = leakPeer{g: g, wait: class == 5}
		if class == 4 {
			cur.push = 1 + r.Intn(20)
		}
		if class == 6 {
			cur.sleep = time.Duration(r.Intn(15000)) * time.Millisecond
		}
		func() {
			var cls []*mon.Conn
			for k := 0; k < leakConns; k++ {
				cn := mon.NewConn()
				l.Dial(cn)
				g.add("connection", unsafe.Pointer(cn))
				switch {
				case class == 1:
					b := genHandshake(r).Bytes()
					cn.Send(b[:r.Intn(len(b))])
				case class == 2:
					cn.Send(badHandshake(r))
				case class > 2:
					cn.Send(genHandshake(r).Bytes())
					d := genDef(r, 3)
					u := genUpdate(r, d)
					u.HasID = true
					cn.Send(ref.DefMsg(d).Bytes())
					cn.Send(ref.UpdateMsg(u).Bytes())
					if class == 3 {
						cn.Send(pbytes(genPSession(r, psOpts{msgs: r.Intn(10), maxTypes: 3, control: true, maxTabs: 2})))
					}
				}
				if class == 7 {
					synctest.Wait()
					cn.FailWrites()
					if r.Intn(2) == 0 {
						cn.Send(ref.Control(0).Bytes())
					}
				}
				cls = append(cls, cn)
			}
			synctest.Wait()
			time.Sleep(time.Duration(r.Intn(4000)) * time.Millisecond)
			for _, cn := range cls {
				switch ending {
				case 0:
					cn.EOF()
				case 1:
					cn.Reset()
				case 2:
					cn.Send([]byte{1, 1})
				case 4:
					cn.Send([]byte{10, 0x82, 20, 1, 2})
					cn.EOF()
				case 5:
					cn.Send([]byte{10, 0x82, 1, 0xff})
				}
				if class == 5 {
					// a callback that waits is only told by the base context
					// or a failing heartbeat
					cn.FailWrites()
				}
				c.Eval("peer " + what + ", " + endWhat)
			}
			c.Sample("peer: %s, %s", what, endWhat)
			synctest.Wait()
			time.Sleep(2 * time.Minute)
			synctest.Wait()
			for k, cn := range cls {
				if !cn.IsClosed() {
					c.Violate("not-closed", cas+": "+what+", "+endWhat, "connection %d is still open", k)
					break
				}
			}
		}()
		cas := fmt.Sprintf("%s round %d: %d connections, %s, %s, counting base %v", cas, round, leakConns, what, endWhat, reg != nil)
		c.Case("%s", cas)
		g.check(c, cas, 4)
		if round == 0 {
			goro = goroutines(0)
			if reg != nil {
				regs = reg.registered()
			}
			continue
		}
		if n := goroutines(goro); n > goro {
			c.Violate("goroutines", cas, "%d goroutines, %d before the connections\n%s", n, goro, libStacks())
		}
		if reg != nil && reg.registered() > regs {
			c.Violate("registrations", cas, "%d registrations with the base context, %d before the connections", reg.registered(), regs)
		}
		c.Count("rounds_checked", 1)
	}
}

// c29PeersLong sends many messages over one peer connection and pushes back.
func c29PeersLong(c *mon.C, r *rand.Rand) {
	base, cancel, reg := leakBase(r)
	defer cancel()
	l := mon.NewListener()
	var ctx context.Context
	updates := 0
	p := &peers.Peer{BaseContext: base, Handler: peers.HandlerFunc(func(cx context.Context, _ *sticktable.EntryUpdate) {
		ctx = cx
		updates++
	})}
	go p.Serve(l)
	conn := mon.NewConn()
	l.Dial(conn)
	conn.Send(genHandshake(r).Bytes())
	d := genDef(r, 3)
	u := genUpdate(r, d)
	u.HasID = true
	conn.Send(ref.DefMsg(d).Bytes())
	conn.Send(ref.UpdateMsg(u).Bytes())
	synctest.Wait()
	kind := r.Intn(3)
	table := leakTable()
	run := func(n int) {
		for ; n > 0; n-- {
			switch k := r.Intn(8); {
			case kind == 1 && k > 0: // mostly pushes
				w := peers.WriterFromContext(ctx)
				if r.Intn(4) == 0 {
					_ = w.SendTableDefinition(table)
				}
				_ = w.SendEntry(leakEntry(table, n))
			case kind == 2 && k > 3: // the table again and again
				conn.Send(ref.DefMsg(d).Bytes())
			case k == 0:
				conn.Send(ref.Control(byte(r.Intn(5))).Bytes())
			default:
				u := genUpdate(r, d)
				u.HasID = r.Intn(2) == 0
				conn.Send(ref.UpdateMsg(u).Bytes())
			}
			if n%50 == 0 {
				synctest.Wait()
				conn.Discard()
				if n%400 == 0 {
					time.Sleep(time.Second)
				}
			}
		}
		conn.Send(ref.Control(4).Bytes())
		synctest.Wait()
		conn.Discard()
	}
	c29Growth(c, fmt.Sprintf("one peer connection, kind of messages %d", kind), reg, run)
	if conn.IsClosed() {
		c.Violate("closed", "one peer connection", "the session was closed after %d updates", updates)
	}
}

func openFiles() int {
	d, err := os.ReadDir("/proc/self/fd")
	if err != nil {
		return -1
	}
	return len(d)
}

// c29TCP counts file descriptors and goroutines around real connections. The
// garbage collector, which would close forgotten ones, is off meanwhile.
func c29TCP(c *mon.C, r *rand.Rand) {
	defer debug.SetGCPercent(debug.SetGCPercent(-1))
	base, cancel := context.WithCancel(context.Background())
	defer cancel()
	for _, which := range []string{"agent", "peer"} {
		l, err := net.Listen("tcp", "127.0.0.1:0")
		if err != nil {
			c.HarnessError("listen: %v", err)
			return
		}
		var open []byte
		if which == "agent" {
			a := &spop.Agent{Handler: &leakHandler{}, BaseContext: base}
			go a.Serve(l)
			open = append(ref.Hello(16380).Bytes(), ref.Notify(1, 1, ref.Msg{Name: "ok"}).Bytes()...)
		} else {
			p := &peers.Peer{HandlerSource: func() peers.Handler { return &leakPeer{push: 2} }, BaseContext: base}
			go p.Serve(l)
			open = genHandshake(r).Bytes()
		}
		files, goro := 0, 0
		for round := 0; round < 3; round++ {
			how := map[int]int{}
			var keep []net.Conn
			for k := 0; k < 60; k++ {
				nc, err := net.Dial("tcp", l.Addr().String())
				if err != nil {
					c.HarnessError("dial: %v", err)
					return
				}
				keep = append(keep, nc)
				e := r.Intn(6)
				if round == 0 {
					e = 3
				}
				how[e]++
				switch e {
				case 0: // closed at once
				case 1:
					nc.Write(open[:r.Intn(len(open))])
				case 2: // reset
					nc.Write(open)
					nc.(*net.TCPConn).SetLinger(0)
				default:
					nc.Write(open)
					nc.SetReadDeadline(time.Now().Add(10 * time.Second))
					nc.Read(make([]byte, 1))
					if e == 4 { // the server closes first
						if which == "agent" {
							nc.Write([]byte{0xff, 0xff, 0xff, 0xff})
						} else {
							nc.Write([]byte{1, 1})
						}
						b := make([]byte, 4096)
						for err == nil {
							_, err = nc.Read(b)
						}
					}
					if e == 5 {
						nc.(*net.TCPConn).CloseWrite()
						b := make([]byte, 4096)
						for err == nil {
							_, err = nc.Read(b)
						}
					}
				}
				c.Eval(fmt.Sprintf("tcp %s %d", which, e))
			}
			for _, nc := range keep {
				nc.Close()
			}
			if round == 0 {
				time.Sleep(300 * time.Millisecond)
				files, goro = openFiles(), runtime.NumGoroutine()
				continue
			}
			cas := fmt.Sprintf("60 TCP connections to the %s, ended as %v", which, how)
			if !eventually(20*time.Second, func() bool { return openFiles() <= files && runtime.NumGoroutine() <= goro }) {
				c.Violate("leak", cas, "%d open files (%d before), %d goroutines (%d before)\n%s", openFiles(), files, runtime.NumGoroutine(), goro, libStacks())
			}
			c.Count("tcp_rounds_checked", 1)
			c.Max("max_open_files_after", openFiles())
		}
		l.Close()
	}
}
