package checks

import (
	"bytes"
	"context"
	"encoding/binary"
	"errors"
	"fmt"
	"math/rand"
	"runtime"
	"sync"
	"sync/atomic"
	"time"

	"github.com/dropmorepackets/haproxy-go/pkg/encoding"
	"github.com/dropmorepackets/haproxy-go/spop"

	"verif/mon"
	"verif/ref"
)

// plan is what the handler does with one message. Messages are identified by
// their name, which is unique within a world.
type plan struct {
	read    int // arguments to read, -1: all until Next fails
	steps   []step
	panics  any           // panic value after the steps
	gate    chan struct{} // wait for it to be closed before returning
	waitCtx bool          // wait for the context before returning
	yields  int           // scheduling points between reading and acting
}

// call is one handler invocation.
type call struct {
	name       string
	args       []ref.KV
	more       bool // Next was called until it returned false
	kvErr      error
	ctx        context.Context
	start, end int // position in the world's event sequence, end 0: not returned
	panicked   bool
	ctxAtEnd   error
	nameLost   bool // the name changed while the handler was running
}

type baseKey struct{}

// ownContext is a context of a type of its own.
type ownContext struct{ context.Context }

var baseKinds atomic.Int64

// genBase makes base contexts of all kinds that carry v.
func genBase(v any) (context.Context, context.CancelFunc) {
	bg := context.Background()
	switch baseKinds.Add(1) % 6 {
	case 0: // a deadline that is far away
		ctx, cancel := context.WithCancel(context.WithValue(bg, baseKey{}, v))
		ctx, stop := context.WithTimeout(ctx, 100*365*24*time.Hour)
		return ctx, func() { cancel(); stop() }
	case 1: // the value is added last
		ctx, cancel := context.WithCancel(bg)
		return context.WithValue(ctx, baseKey{}, v), cancel
	case 2:
		ctx, cancel := context.WithCancelCause(context.WithValue(bg, baseKey{}, v))
		return ctx, func() { cancel(errors.New("told to end")) }
	case 3:
		ctx, cancel := context.WithCancel(context.WithValue(bg, baseKey{}, v))
		return ownContext{ctx}, cancel
	}
	return context.WithCancel(context.WithValue(bg, baseKey{}, v))
}

// world is one running agent with a programmable handler.
type world struct {
	c      *mon.C
	l      *mon.Listener
	base   context.Context
	cancel context.CancelFunc

	mu       sync.Mutex
	seq      int
	plans    map[string]*plan
	fallback *plan // for messages without a plan; nil: report them
	calls    map[string][]*call
	running  int
	maxRun   int
	served   bool
	serveErr error
}

func newWorld(c *mon.C) *world {
	w := &world{c: c, l: mon.NewListener(), plans: map[string]*plan{}, calls: map[string][]*call{}}
	w.base, w.cancel = genBase(w)
	a := &spop.Agent{Handler: spop.HandlerFunc(w.handle), BaseContext: w.base}
	go func() {
		err := a.Serve(w.l)
		w.mu.Lock()
		w.served, w.serveErr = true, err
		w.mu.Unlock()
	}()
	return w
}

// bareWorld is a world whose agent and listener are made by the caller.
func bareWorld(c *mon.C) *world {
	w := &world{c: c, plans: map[string]*plan{}, calls: map[string][]*call{}}
	w.base, w.cancel = genBase(w)
	return w
}

func (w *world) add(name string, p *plan) {
	w.mu.Lock()
	w.plans[name] = p
	w.mu.Unlock()
}

func (w *world) get(name string) []*call {
	w.mu.Lock()
	defer w.mu.Unlock()
	var out []*call
	for _, x := range w.calls[name] {
		y := *x
		out = append(out, &y)
	}
	return out
}

func (w *world) totalCalls() (n int) {
	w.mu.Lock()
	defer w.mu.Unlock()
	for _, x := range w.calls {
		n += len(x)
	}
	return n
}

func (w *world) runningNow() int {
	w.mu.Lock()
	defer w.mu.Unlock()
	return w.running
}

func (w *world) isServed() (bool, error) {
	w.mu.Lock()
	defer w.mu.Unlock()
	return w.served, w.serveErr
}

// forget drops finished bookkeeping between episodes.
func (w *world) forget() {
	w.mu.Lock()
	w.plans, w.calls, w.maxRun = map[string]*plan{}, map[string][]*call{}, 0
	w.mu.Unlock()
}

func (w *world) handle(ctx context.Context, aw *encoding.ActionWriter, m *encoding.Message) {
	cl := &call{name: string(m.NameBytes()), ctx: ctx}
	w.mu.Lock()
	p := w.plans[cl.name]
	if p == nil {
		p = w.fallback
	}
	w.seq++
	cl.start = w.seq
	w.calls[cl.name] = append(w.calls[cl.name], cl)
	w.running++
	w.maxRun = max(w.maxRun, w.running)
	w.mu.Unlock()
	if p == nil {
		w.c.Violate("unsent-message", "", "the handler got message %q that nobody sent", cl.name)
		p = &plan{}
	}
	defer func() {
		w.mu.Lock()
		w.seq++
		cl.end = w.seq
		cl.panicked = p.panics != nil
		cl.ctxAtEnd = ctx.Err()
		w.running--
		w.mu.Unlock()
	}()
	for i := 0; i < p.yields; i++ {
		runtime.Gosched()
	}
	if p.read != 0 {
		e := encoding.AcquireKVEntry()
		for i := 0; p.read < 0 || i < p.read; i++ {
			if !m.KV.Next(e) {
				cl.more = true
				cl.kvErr = m.KV.Error()
				break
			}
			kv := ref.KV{Name: string(e.NameBytes()), V: entryVal(e)}
			if p.yields > 0 {
				runtime.Gosched()
				if string(e.NameBytes()) != kv.Name || !entryVal(e).Equal(kv.V) {
					cl.nameLost = true
				}
			}
			cl.args = append(cl.args, kv)
		}
		encoding.ReleaseKVEntry(e)
	}
	for _, s := range p.steps {
		if err := s.do(aw); (err != nil) != s.invalid {
			w.c.Violate("action-verdict", "", "%v: %v", s, err)
		}
		if p.yields > 0 {
			runtime.Gosched()
		}
	}
	if p.gate != nil {
		<-p.gate
	}
	if p.waitCtx {
		<-ctx.Done()
	}
	if string(m.NameBytes()) != cl.name {
		cl.nameLost = true
	}
	if p.panics != nil {
		if _, ok := p.panics.(runtimePanic); ok {
			var none map[string]int
			none[cl.name] = 1
		}
		panic(p.panics)
	}
}

// setStep sets a string.
func setStep(scope byte, name string, v ref.Val) step {
	return step{"SetStringBytes", ref.Action{Scope: scope, Name: name, V: v}, false,
		func(w *encoding.ActionWriter) error { return w.SetStringBytes(scopes[scope], name, v.Bytes) }}
}

// --- requests

type request struct {
	sid, fid uint64
	msgs     []ref.Msg
	plans    []*plan
}

func (q *request) frame() ref.Frame { return ref.Notify(q.sid, q.fid, q.msgs...) }

// reply is the ACK payload the handler calls of the request must produce, ok
// is false when the request gets no reply because a handler panics.
func (q *request) reply() (b []byte, ok bool) {
	for _, p := range q.plans {
		for _, s := range p.steps {
			if !s.invalid {
				b = ref.AppendAction(b, s.act)
			}
		}
		if p.panics != nil {
			return nil, false
		}
	}
	return b, true
}

func (q *request) ackLen() int {
	b, _ := q.reply()
	return ref.Frame{Type: ref.FAck, StreamID: q.sid, FrameID: q.fid, Payload: b}.Len()
}

func (q *request) shape() string {
	s := fmt.Sprintf("%d.%d", q.sid, q.fid)
	for i, m := range q.msgs {
		s += fmt.Sprintf(" %d/%d:%d%v", len(m.Name), len(m.Args), q.plans[i].read, len(q.plans[i].steps))
		if q.plans[i].panics != nil {
			s += "!"
		}
	}
	return s
}

func (q *request) String() string {
	s := fmt.Sprintf("NOTIFY %d.%d", q.sid, q.fid)
	for i, m := range q.msgs {
		s += fmt.Sprintf(" [%q %v read %d acts %v panics %v]", m.Name, m.Args, q.plans[i].read, q.plans[i].steps, q.plans[i].panics)
	}
	return s
}

type reqOpts struct {
	maxMsgs, maxArgs, maxLen, maxActs int
	panics, invalid                   bool
	yields                            int
}

// genRequest makes a request whose message names start with the tag.
func genRequest(r *rand.Rand, tag string, sid, fid uint64, o reqOpts) *request {
	q := &request{sid: sid, fid: fid}
	n := r.Intn(o.maxMsgs + 1)
	if n == 0 && r.Intn(4) > 0 {
		n = 1
	}
	for i := 0; i < n; i++ {
		nargs := 0
		if r.Intn(5) > 0 {
			nargs = r.Intn(o.maxArgs + 1)
		}
		m := ref.Msg{Name: fmt.Sprintf("%s.%d.", tag, i), Args: genKVs(r, nargs, o.maxLen)}
		if r.Intn(6) == 0 {
			m.Name += string(genBytes(r, genLen(r, o.maxLen)))
		}
		p := &plan{read: -1}
		switch r.Intn(4) {
		case 0:
			p.read = 0
		case 1:
			p.read = r.Intn(nargs + 2)
		}
		for k := r.Intn(o.maxActs + 1); k > 0; k-- {
			p.steps = append(p.steps, genStep(r, o.maxLen, o.invalid))
		}
		if o.panics && r.Intn(4) == 0 {
			p.panics = fmt.Sprintf("handler panic %s", m.Name)
		}
		if o.yields > 0 {
			p.yields = r.Intn(o.yields)
		}
		q.msgs = append(q.msgs, m)
		q.plans = append(q.plans, p)
	}
	return q
}

// register makes the plans known to the handler before the request is sent.
func (w *world) register(q *request) {
	for i, m := range q.msgs {
		w.add(m.Name, q.plans[i])
	}
}

// checkCalls compares the handler calls with what was sent. It must be called
// at quiescence when all handlers of the request can have finished.
func (w *world) checkCalls(q *request, cas string) {
	last := 0
	dead := false
	for i, m := range q.msgs {
		p := q.plans[i]
		calls := w.get(m.Name)
		if dead {
			// after a panic the rest of the request is lost
			continue
		}
		if len(calls) != 1 {
			w.c.Violate("not-exactly-once", cas, "message %d %q of %v was handled %d times", i, m.Name, q, len(calls))
			return
		}
		cl := calls[0]
		if cl.end == 0 {
			w.c.Violate("not-finished", cas, "the handler of message %d of %v has not returned", i, q)
			return
		}
		if cl.start < last {
			w.c.Violate("order", cas, "message %d of %v was handled before its predecessor had finished", i, q)
		}
		last = cl.end
		if cl.nameLost {
			w.c.Violate("data-changed", cas, "name or argument of message %d of %v changed while its handler was running", i, q)
		}
		want := m.Args
		if p.read >= 0 && p.read < len(want) {
			want = want[:p.read]
		}
		if p.read == 0 {
			want = nil
		}
		if len(cl.args) != len(want) || cl.kvErr != nil {
			w.c.Violate("arguments", cas, "message %d of %v: the handler saw %d arguments %v (error %v), want %v", i, q, len(cl.args), cl.args, cl.kvErr, want)
			return
		}
		for k := range want {
			if cl.args[k].Name != want[k].Name || !cl.args[k].V.Equal(want[k].V) {
				w.c.Violate("arguments", cas, "message %d of %v: argument %d is %v, want %v", i, q, k, cl.args[k], want[k])
				return
			}
		}
		if (p.read < 0 || p.read > len(m.Args)) && !cl.more {
			w.c.Violate("arguments", cas, "message %d of %v: more arguments than sent", i, q)
		}
		dead = p.panics != nil
	}
}

// ids hands out the stream and frame ids of one connection: any pair of 64 bit
// numbers, but never the same pair twice.
type ids struct {
	r    *rand.Rand
	used map[[2]uint64]bool
	last [2]uint64
}

func newIDs(r *rand.Rand) *ids { return &ids{r: r, used: map[[2]uint64]bool{}} }

func (x *ids) next(q, s uint64) (sid, fid uint64) {
	p := [2]uint64{q, s}
	for try := 0; ; try++ {
		switch k := x.r.Intn(8); {
		case k == 0 || try > 3:
			p[0] = genInt(x.r)
		case k == 1:
			p[1] = genInt(x.r)
		case k == 2:
			p = [2]uint64{genInt(x.r), genInt(x.r)}
		case k == 3: // the next frame of a stream
			p = [2]uint64{x.last[0], x.last[1] + 1}
		case k == 4: // the other way round
			p = [2]uint64{x.last[1], x.last[0]}
		case k == 5: // differs in one bit only
			p = x.last
			p[x.r.Intn(2)] ^= 1 << x.r.Intn(64)
		}
		if !x.used[p] {
			x.used[p] = true
			x.last = p
			return p[0], p[1]
		}
	}
}

// --- client side

// client is one connection with a parser for what the agent sent.
type client struct {
	*mon.Conn
	w    *world
	max  uint32
	reqs []*request
	cut  bool // the transport fails writes, so a frame may end early
	// loose is set when malformed frames were sent, which may or may not be
	// answered without actions
	loose bool
}

func (w *world) dial(setup ...func(*mon.Conn)) *client {
	c := mon.NewConn()
	for _, s := range setup {
		s(c)
	}
	w.l.Dial(c)
	return &client{Conn: c, w: w}
}

const engineID = "2f9b6b3c-8f0a-4d7e-9a60-1f5d3c1f8a11"

func (c *client) hello(maxFrame uint32) {
	c.max = maxFrame
	c.Send(ref.Hello(maxFrame, ref.KV{Name: "engine-id", V: ref.Val{T: ref.TString, Bytes: []byte(engineID)}}).Bytes())
}

func (c *client) send(q *request) {
	c.w.register(q)
	c.reqs = append(c.reqs, q)
	c.Send(q.frame().Bytes())
}

// stream is the parsed outbound stream of a connection.
type stream struct {
	hello      *ref.Frame
	helloKVs   map[string]ref.Val
	acks       []ref.Frame
	disconnect *ref.Frame
	partial    int // bytes of an incomplete last frame
}

// parseStream checks the outbound grammar: at most one AGENT-HELLO first, ACKs,
// at most one AGENT-DISCONNECT last, all of them well-formed.
func parseStream(out []byte) (s stream, err error) {
	n := 0
	for len(out) > 0 {
		f, k, err := ref.ParseFrame(out)
		if err != nil {
			return s, fmt.Errorf("frame %d: %v (%x)", n, err, tailOf(out))
		}
		if k == 0 {
			// an incomplete frame must at least look like the start of one
			if len(out) >= 4 && (out[0] != 0 || out[1] > 0x40) {
				return s, fmt.Errorf("frame %d: implausible length %x", n, out[:4])
			}
			if len(out) >= 5 {
				switch out[4] {
				case ref.FAgentHello, ref.FAgentDisconnect, ref.FAck:
				default:
					return s, fmt.Errorf("frame %d: incomplete frame of type %d", n, out[4])
				}
			}
			s.partial = len(out)
			return s, nil
		}
		out = out[k:]
		if f.Flags != 1 {
			return s, fmt.Errorf("frame %d: flags %#x", n, f.Flags)
		}
		if s.disconnect != nil {
			return s, fmt.Errorf("frame %d: type %d behind AGENT-DISCONNECT", n, f.Type)
		}
		f2 := f
		switch f.Type {
		case ref.FAgentHello:
			if n != 0 {
				return s, fmt.Errorf("frame %d: AGENT-HELLO", n)
			}
			s.hello = &f2
			if s.helloKVs, err = kvMap(f.Payload); err != nil {
				return s, fmt.Errorf("AGENT-HELLO: %v", err)
			}
			if f.StreamID != 0 || f.FrameID != 0 {
				return s, fmt.Errorf("AGENT-HELLO with ids %d %d", f.StreamID, f.FrameID)
			}
		case ref.FAck:
			if s.hello == nil {
				return s, fmt.Errorf("frame %d: ACK without AGENT-HELLO", n)
			}
			if _, err := ref.ParseActions(f.Payload); err != nil {
				return s, fmt.Errorf("frame %d: ACK %d.%d: %v (%x)", n, f.StreamID, f.FrameID, err, tailOf(f.Payload))
			}
			s.acks = append(s.acks, f2)
		case ref.FAgentDisconnect:
			s.disconnect = &f2
			kvs, err := kvMap(f.Payload)
			if err != nil {
				return s, fmt.Errorf("AGENT-DISCONNECT: %v", err)
			}
			code, ok1 := kvs["status-code"]
			msg, ok2 := kvs["message"]
			if !ok1 || !ok2 || code.T != ref.TUint32 || msg.T != ref.TString || len(kvs) != 2 {
				return s, fmt.Errorf("AGENT-DISCONNECT with %v", kvs)
			}
			if f.StreamID != 0 || f.FrameID != 0 {
				return s, fmt.Errorf("AGENT-DISCONNECT with ids %d %d", f.StreamID, f.FrameID)
			}
		default:
			return s, fmt.Errorf("frame %d: type %d", n, f.Type)
		}
		n++
	}
	return s, nil
}

func kvMap(b []byte) (map[string]ref.Val, error) {
	kvs, _, err := ref.ParseKVs(b, -1)
	if err != nil {
		return nil, err
	}
	m := map[string]ref.Val{}
	for _, kv := range kvs {
		if _, dup := m[kv.Name]; dup {
			return nil, fmt.Errorf("duplicate key %q", kv.Name)
		}
		m[kv.Name] = kv.V
	}
	return m, nil
}

// Drop forgets the output of a connection so far, except for the AGENT-HELLO.
func (c *client) Drop() {
	out := c.Out()
	if len(out) < 4 {
		return
	}
	n := 4 + int(binary.BigEndian.Uint32(out))
	c.Conn.Cut(min(n, len(out)))
}

// checkReplies verifies that every request got exactly its own reply. With
// mayMiss the replies may be missing (connection ended early), never wrong.
func (c *client) checkReplies(cas string, mayMiss bool) (answered int) {
	s, err := parseStream(c.Out())
	if err != nil {
		c.w.c.Violate("stream", cas, "%v", err)
		return 0
	}
	if s.partial > 0 && !c.IsClosed() && !c.cut {
		c.w.c.Violate("stream", cas, "%d bytes of an incomplete frame at quiescence", s.partial)
	}
	type id struct{ s, f uint64 }
	want := map[id]*request{}
	for _, q := range c.reqs {
		if _, ok := q.reply(); ok && q.ackLen() <= int(c.max) {
			want[id{q.sid, q.fid}] = q
		}
	}
	for _, a := range s.acks {
		q := want[id{a.StreamID, a.FrameID}]
		if c.loose && len(a.Payload) == 0 {
			if q == nil {
				continue
			}
			if b, _ := q.reply(); len(b) > 0 {
				continue
			}
		}
		if q == nil {
			c.w.c.Violate("unexpected-reply", cas, "ACK %d.%d (payload %x): never asked, already answered, too big or its handler panicked", a.StreamID, a.FrameID, tailOf(a.Payload))
			continue
		}
		delete(want, id{a.StreamID, a.FrameID})
		answered++
		if b, _ := q.reply(); !bytes.Equal(b, a.Payload) {
			c.w.c.Violate("wrong-reply", cas, "ACK of %v\n got %x\nwant %x", q, tailOf(a.Payload), tailOf(b))
		}
		if c.max > 0 && a.Len() > int(c.max) {
			c.w.c.Violate("oversized-reply", cas, "ACK of %d bytes, negotiated %d", a.Len(), c.max)
		}
	}
	if !mayMiss {
		for _, q := range want {
			c.w.c.Violate("missing-reply", cas, "no ACK for %v (%d of %d answered, closed %v)", q, answered, len(c.reqs), c.IsClosed())
		}
	}
	return answered
}
