package checks

import (
	"context"
	"encoding/binary"
	"fmt"
	"io"
	"math/rand"
	"net"
	"runtime"
	"sync"
	"testing"
	"testing/synctest"
	"time"

	"github.com/dropmorepackets/haproxy-go/peers"
	"github.com/dropmorepackets/haproxy-go/peers/sticktable"

	"verif/mon"
	"verif/ref"
)

// push is one call of the Writer.
type push struct {
	g, seq int
	kind   string
	items  []string // message type and content without the update id
	run    func(w *peers.Writer) error
	must   bool // it has to succeed on a healthy connection
	sleep  time.Duration

	err  error
	done bool
	out  int // bytes on the wire when it returned
}

func (p *push) String() string {
	s := ""
	if len(p.items) > 0 {
		s = fmt.Sprintf(" %q", tailOf([]byte(p.items[0])))
	}
	return fmt.Sprintf("goroutine %d call %d %s (%d items)%s", p.g, p.seq, p.kind, len(p.items), s)
}

// pushGen makes pushes whose items are all different, unless again is used.
type pushGen struct {
	r      *rand.Rand
	next   uint32
	big    bool // many entries about as large as the writer's buffers
	batch  bool // many batches larger than the writer's buffer
	shared []*sticktable.Definition
	defs   []ref.Def
	zero   bool
}

func (g *pushGen) token() uint32 { g.next++; return g.next }

// entry makes an entry with a unique key and returns what is on the wire
// behind the update id.
func (g *pushGen) entry(keyLen int) (*sticktable.EntryUpdate, string) {
	r := g.r
	if len(g.defs) == 0 || r.Intn(8) == 0 {
		d := genDef(r, 6)
		for d.KeyType == ref.KeyBinary && d.KeyLen < 4 {
			d = genDef(r, 6)
		}
		g.defs = append(g.defs, d)
		g.shared = append(g.shared, libDef(d))
	}
	i := r.Intn(len(g.defs))
	d, ld := g.defs[i], g.shared[i]
	if keyLen > 0 {
		d.KeyType, d.KeyLen = ref.KeyString, uint64(keyLen)+1
		ld = libDef(d)
	}
	u := genUpdate(r, d)
	u.HasID = true
	switch {
	case keyLen > 0:
		u.Key.B = genBytes(r, keyLen)
	case d.KeyType == ref.KeyString && len(u.Key.B) < 4:
		u.Key.B = genBytes(r, 4+r.Intn(20))
	case d.KeyType == ref.KeyIPv6:
		u.Key.B = append([]byte{0x20, 1, 0xd, 0xb8}, genBytes(r, 12)...)
	}
	u.Key.B = append([]byte(nil), u.Key.B...)
	binary.BigEndian.PutUint32(u.Key.B[len(u.Key.B)-4:], g.token())
	return libUpdate(ld, u), string([]byte{u.Type()}) + string(u.Bytes()[4:])
}

// again repeats a call of the same goroutine, if it can be told apart by count.
func (g *pushGen) again(l []*push) *push {
	if len(l) == 0 || g.r.Intn(10) > 0 {
		return nil
	}
	p := l[len(l)-1-g.r.Intn(min(len(l), 3))]
	if len(p.items) != 1 || !p.must {
		return nil
	}
	return &push{kind: p.kind, items: p.items, run: p.run, must: p.must}
}

func (g *pushGen) push() *push {
	r := g.r
	p := &push{must: true}
	k := r.Intn(40)
	if g.big && r.Intn(2) == 0 {
		e, it := g.entry(65450 + r.Intn(100))
		p.kind, p.items, p.must = "SendEntry(big)", []string{it}, false
		p.run = func(w *peers.Writer) error { return w.SendEntry(e) }
		return p
	}
	if g.batch && r.Intn(3) == 0 {
		k = 28
	}
	switch {
	case k < 22:
		e, it := g.entry(0)
		p.kind, p.items = "SendEntry", []string{it}
		p.run = func(w *peers.Writer) error { return w.SendEntry(e) }
	case k < 28, k == 28 && (g.batch || r.Intn(4) == 0):
		n := r.Intn(20)
		if k == 28 {
			n = 200 + r.Intn(300)
			if g.batch {
				n = 1000 + r.Intn(1500)
			}
		}
		p.kind = "SendEntries"
		var es []*sticktable.EntryUpdate
		for ; n > 0; n-- {
			e, it := g.entry(0)
			es = append(es, e)
			p.items = append(p.items, it)
			for n > 1 && r.Intn(10) == 0 { // the same again
				es = append(es, e)
				p.items = append(p.items, it)
				n--
			}
		}
		p.run = func(w *peers.Writer) error { return w.SendEntries(es) }
	case k < 32:
		d := genDef(r, 10)
		if r.Intn(4) == 0 {
			d.Name = string(genBytes(r, 3500))
		}
		d.Name = fmt.Sprintf("%s-%d", d.Name, g.token())
		ld := libDef(d)
		p.kind, p.items = "SendTableDefinition", []string{string([]byte{ref.MDef}) + string(d.Bytes())}
		p.run = func(w *peers.Writer) error { return w.SendTableDefinition(ld) }
	case k < 35:
		id := uint64(g.token())<<uint(r.Intn(32)) | uint64(r.Intn(2))<<63
		id = id&^0xFFFFFFFF | uint64(g.token())
		if !g.zero { // table 0, which can be told apart only once
			g.zero, id = true, 0
		}
		p.kind, p.items = "SendTableSwitch", []string{string([]byte{ref.MSwitch}) + string(ref.PutVarint(nil, id))}
		p.run = func(w *peers.Writer) error { return w.SendTableSwitch(id) }
	case k == 35:
		p.kind = "Flush"
		p.run = func(w *peers.Writer) error { return w.Flush() }
	case k == 36: // may not fit
		e, it := g.entry([]int{65000, 65500, 65530, 65536, 66000, 70000, 90000}[r.Intn(7)] + r.Intn(30))
		p.kind, p.items, p.must = "SendEntry(big)", []string{it}, false
		p.run = func(w *peers.Writer) error { return w.SendEntry(e) }
	case k == 37: // a batch with something that may not fit
		n := 1 + r.Intn(12)
		if g.batch || r.Intn(4) == 0 {
			n = 100 + r.Intn(400)
		}
		bad := r.Intn(n)
		p.kind, p.must = "SendEntries(big)", false
		var es []*sticktable.EntryUpdate
		for i := 0; i < n; i++ {
			l := 0
			if i == bad {
				l = []int{60000, 65530, 66000, 100000}[r.Intn(4)]
			}
			e, it := g.entry(l)
			es = append(es, e)
			p.items = append(p.items, it)
		}
		p.run = func(w *peers.Writer) error { return w.SendEntries(es) }
	case k == 38:
		d := genDef(r, 3)
		d.Name = fmt.Sprintf("%s-%d", genBytes(r, []int{3900, 4060, 4080, 4096, 5000, 70000}[r.Intn(6)]+r.Intn(30)), g.token())
		ld := libDef(d)
		p.kind, p.items, p.must = "SendTableDefinition(big)", []string{string([]byte{ref.MDef}) + string(d.Bytes())}, false
		p.run = func(w *peers.Writer) error { return w.SendTableDefinition(ld) }
	default: // data that can not be encoded, behind data that can
		e, it := g.entry(0)
		e.Data = append(e.Data, &sticktable.DictData{ID: 1, Value: genBytes(r, 66000+r.Intn(70000))})
		p.kind, p.items, p.must = "SendEntry(huge data)", []string{it + "?"}, false
		p.run = func(w *peers.Writer) error { return w.SendEntry(e) }
	}
	if !p.must && p.kind != "SendEntry(huge data)" {
		// what the writer has room for has to be accepted
		p.must = true
		for _, it := range p.items {
			n := len(it) - 1
			switch p.items[0][0] {
			case ref.MDef:
				p.must = p.must && n <= 4096
			default:
				p.must = p.must && n+4 <= 65536
			}
		}
	}
	return p
}

func (p *push) do(w *peers.Writer, out func() int) {
	if p.sleep > 0 {
		time.Sleep(p.sleep)
	} else if p.sleep < 0 {
		runtime.Gosched()
	}
	p.err = p.run(w)
	if out != nil {
		p.out = out()
	}
	p.done = true
}

// checkPushes compares what is on the wire with the calls. broken means that
// writing to the connection failed at some point.
func checkPushes(c *mon.C, cas string, out []byte, ps []*push, broken bool) (partials int) {
	type where struct {
		p *push
		i int
	}
	items := map[string][]where{} // one after the other if a goroutine repeats itself
	for _, p := range ps {
		for i, it := range p.items {
			if ws := items[it]; len(ws) > 0 {
				w := ws[len(ws)-1]
				if w.p == p && p.items[i-1] == it {
					continue // repeated within a batch
				}
				if w.p == p || w.p.g != p.g || len(p.items) != 1 || len(w.p.items) != 1 {
					c.HarnessError("%s: an item is not unique", cas)
					return
				}
			}
			items[it] = append(items[it], where{p, i})
		}
	}
	type seen struct{ pos, end int }
	got := map[*push][]seen{}
	rest := out
	if len(out) < 4 || string(out[:4]) != "200\n" {
		c.Violate("status", cas, "output starts with %q", tailOf(out[:min(len(out), 20)]))
		return
	}
	rest = out[4:]
	off, pos := 4, 0
	var last uint32
	known := false
	for len(rest) > 0 {
		m, n := ref.ParsePMsg(rest)
		if n == 0 {
			if !broken {
				c.Violate("cut-message", cas, "%d bytes of an incomplete message at the end: %x", len(rest), tailOf(rest))
			}
			break
		}
		rest = rest[n:]
		off += n
		if m.Class == ref.ClsControl {
			switch m.Type {
			case 2:
				partials++
				continue
			case 4:
				c.Count("heartbeats", 1)
				continue
			}
		}
		key := string([]byte{m.Type}) + string(m.Data)
		if m.Type == ref.MEntry || m.Type == ref.MTimed {
			if len(m.Data) < 4 {
				c.Violate("garbage", cas, "message %v at %d was never pushed", m, off-n)
				return
			}
			id := binary.BigEndian.Uint32(m.Data)
			if known && id != last+1 {
				c.Violate("update-id", cas, "update id %d follows %d", id, last)
				return
			}
			last, known = id, true
			key = string([]byte{m.Type}) + string(m.Data[4:])
		}
		ws := items[key]
		if m.Class != ref.ClsTable || len(ws) == 0 {
			c.Violate("garbage", cas, "message %v at %d was never pushed", m, off-n)
			return
		}
		w := ws[len(ws)-1]
		if len(ws) > 1 { // the first that is missing, one that succeeded if there is one
			for _, good := range []bool{false, true} {
				for i := len(ws) - 1; i >= 0; i-- {
					if x := ws[i]; len(got[x.p]) == 0 && (x.p.err == nil || !good) {
						w = x
					}
				}
			}
			c.Count("repeated_pushes_seen", 1)
		}
		s := got[w.p]
		if i := len(s); i < len(w.p.items) && w.p.items[i] == key {
			w.i = i
		}
		if len(s) != w.i {
			c.Violate("duplicate", cas, "%v: item %d is on the wire at the place of item %d", w.p, w.i, len(s))
			return
		}
		if len(s) > 0 && s[len(s)-1].pos != pos-1 {
			c.Violate("split-batch", cas, "%v: %d other pushes within the batch", w.p, pos-1-s[len(s)-1].pos)
			return
		}
		got[w.p] = append(s, seen{pos, off})
		pos++
	}
	order := map[int]*push{}
	for _, p := range ps {
		s := got[p]
		switch {
		case !p.done:
			c.Violate("blocked", cas, "%v did not return", p)
			return
		case p.err == nil && len(s) != len(p.items):
			c.Violate("lost", cas, "%v succeeded, but only %d items are on the wire", p, len(s))
			return
		case p.err == nil && p.out > 0 && len(s) > 0 && s[len(s)-1].end > p.out:
			c.Violate("not-flushed", cas, "%v returned when %d bytes were on the wire, its last one is byte %d", p, p.out, s[len(s)-1].end)
			return
		case p.err != nil && !broken && len(s) > 0:
			c.Violate("failed-but-sent", cas, "%v failed (%v), but %d items are on the wire", p, p.err, len(s))
			return
		case p.err != nil && !broken && p.must:
			c.Violate("refused", cas, "%v failed on a healthy connection: %v", p, p.err)
			return
		}
		if p.err != nil {
			c.Count("failed_pushes", 1)
		} else {
			c.Count("successful_pushes", 1)
			c.Count("items_on_the_wire", len(s))
		}
		if len(s) > 0 {
			if q := order[p.g]; q != nil && got[q][0].pos > s[0].pos {
				c.Violate("order", cas, "%v is on the wire before %v", p, q)
				return
			}
			order[p.g] = p
		}
	}
	return
}

func TestC20(t *testing.T) {
	c := mon.Start(t, "C20", "1..8 goroutines push unique entries, batches, definitions, switches and things that can not be encoded over one connection, with yields between the writes of the library, while heartbeats fall due (virtual time), the peer asks for synchronisation, handlers push from callbacks, and in some rounds writing fails or the connection ends in between; the wire is parsed and compared with the calls. Also over TCP with a slow reader. Evaluations are pushes; non-trivial: distinct wire order.")
	defer c.Finish()
	r := c.Rng
	n := c.N(32, 1200)
	for b := 0; b < n && !c.Stop() && c.TimeLeft(); b++ {
		bubble(c, t, fmt.Sprintf("bubble %d", b), func() {
			w := newPWorld(c)
			defer w.cancel()
			for s := 0; s < 6 && !c.Stop(); s++ {
				c20Round(c, r, w, fmt.Sprintf("seed %d bubble %d round %d", c.Seed, b, s))
			}
		})
	}
	if c.Proc() == 0 && !c.Stop() {
		manyPushes(c, t)
		manyEntries(c, t)
	}
	for i := 0; i < c.N(4, 40) && !c.Stop() && c.TimeLeft(); i++ {
		c20TCP(c, r, i)
	}
}

func c20Round(c *mon.C, r *rand.Rand, w *pworld, cas string) {
	g := &pushGen{r: r}
	mode := "healthy"
	failAt := 0
	switch r.Intn(6) {
	case 0:
		mode, failAt = "failing write", 5+r.Intn(20000)
	case 1:
		mode = "ends in between"
	}
	var inCallback []*push
	slow := r.Intn(2) == 0 // virtual time passes between the pushes
	nextG := 100
	hsetup := func(h *phandler) {
		if r.Intn(3) > 0 {
			return
		}
		var mu sync.Mutex
		cb := &pushGen{r: rand.New(rand.NewSource(r.Int63())), next: 1 << 30, zero: true}
		ctxPush := func(kind int) {
			mu.Lock()
			p := cb.push()
			p.g, p.seq = nextG, len(inCallback)
			inCallback = append(inCallback, p)
			mu.Unlock()
			_ = kind
			p.do(peers.WriterFromContext(h.context()), nil)
		}
		h.onUpd = func(context.Context) { ctxPush(0) }
		h.onHS = func(context.Context) { ctxPush(1) }
	}
	cl := w.dial(func(mc *mon.Conn) {
		mc.BeforeWrite = mon.Yielder(r.Int63(), r.Intn(40))
		mc.FailWriteAt = failAt
	}, hsetup)
	cl.send(genHandshake(r).Bytes())
	d := genDef(r, 2)
	cl.send(ref.DefMsg(d).Bytes())
	synctest.Wait()
	ctx := cl.h.context()
	if ctx == nil {
		c.Violate("no-handshake", cas, "no handshake callback")
		return
	}
	pw := peers.WriterFromContext(ctx)
	ng := 1 + r.Intn(8)
	per := 1 + r.Intn(30)
	var all []*push
	var lists [][]*push
	for k := 0; k < ng; k++ {
		var l []*push
		for i := 0; i < per; i++ {
			p := g.again(l)
			if p == nil {
				p = g.push()
			}
			p.g, p.seq = k, i
			p.sleep = -1
			if slow {
				p.sleep = time.Duration(r.Intn(1500)) * time.Millisecond
			}
			l = append(l, p)
		}
		lists = append(lists, l)
		all = append(all, l...)
	}
	cas = fmt.Sprintf("%s: %d goroutines x %d calls, %s, slow=%v", cas, ng, per, mode, slow)
	c.Case("%s", cas)
	c.Sample("%s; first: %v", cas, all[0])
	var wg sync.WaitGroup
	for _, l := range lists {
		wg.Add(1)
		go func() {
			defer wg.Done()
			for _, p := range l {
				p.do(pw, cl.OutLen)
			}
		}()
	}
	stop := make(chan struct{})
	syncs := 0
	var feeder sync.WaitGroup
	fr := rand.New(rand.NewSource(r.Int63()))
	feeder.Add(1)
	go func() { // the peer keeps talking
		defer feeder.Done()
		for i := 0; ; i++ {
			select {
			case <-stop:
				return
			default:
			}
			switch fr.Intn(3) {
			case 0:
				cl.Send(ref.Control(0).Bytes())
				syncs++
			case 1:
				cl.Send(ref.Heartbeat.Bytes())
			default:
				u := genUpdate(fr, d)
				u.HasID = true
				cl.Send(ref.UpdateMsg(u).Bytes())
			}
			time.Sleep(time.Duration(fr.Intn(2500)) * time.Millisecond)
		}
	}()
	var ender chan struct{}
	if mode == "ends in between" {
		ender = make(chan struct{})
		d := time.Duration(0)
		if slow {
			d = time.Duration(r.Intn(per*700+1)) * time.Millisecond
		}
		how := r.Intn(3)
		go func() {
			defer close(ender)
			time.Sleep(d)
			switch how {
			case 0:
				cl.EOF()
			case 1:
				cl.Reset()
			case 2:
				cl.Send([]byte{99, 1})
			}
		}()
	}
	done := make(chan struct{})
	go func() { wg.Wait(); close(done) }()
	select {
	case <-done:
	case <-time.After(2 * time.Hour):
	}
	close(stop)
	feeder.Wait()
	if ender != nil {
		<-ender
	}
	synctest.Wait()
	for range inCallback {
		c.Count("pushes_from_callbacks", 1)
	}
	broken := mode != "healthy"
	partials := checkPushes(c, cas, cl.Out(), append(all, inCallback...), broken)
	if !broken && partials != syncs {
		c.Violate("sync-replies", cas, "%d answers to %d synchronisation requests", partials, syncs)
	}
	if !broken && cl.IsClosed() {
		c.Violate("closed", cas, "the connection was closed")
	}
	for range all {
		c.Eval("")
	}
	c.EvalHash(hashBytes(cl.Out()))
	cl.EOF()
	time.Sleep(10 * time.Second)
	synctest.Wait()
	// the connection is over: a push must say so
	if !cl.IsClosed() {
		return // C22
	}
	for i := 0; i < 3; i++ {
		p := g.push()
		if !p.must || len(p.items) == 0 {
			continue
		}
		n := cl.OutLen()
		if p.do(pw, nil); p.err == nil && cl.OutLen() == n {
			c.Violate("lost", cas, "%v succeeded on a closed connection", p)
		}
		c.Count("pushes_after_the_end", 1)
	}
	w.forget()
}

// c20TCP pushes over a real connection.
func c20TCP(c *mon.C, r *rand.Rand, i int) {
	l, err := net.Listen("tcp", "127.0.0.1:0")
	if err != nil {
		c.HarnessError("listen: %v", err)
		return
	}
	w, p := barePWorld(c)
	defer w.cancel()
	ready := make(chan *peers.Writer, 1)
	w.setup = append(w.setup, func(h *phandler) {
		h.onHS = func(ctx context.Context) { ready <- peers.WriterFromContext(ctx) }
	})
	go p.Serve(l)
	nc, err := net.Dial("tcp", l.Addr().String())
	if err != nil {
		c.HarnessError("dial: %v", err)
		return
	}
	defer nc.Close()
	nc.Write(ref.DefaultHandshake.Bytes())
	var pw *peers.Writer
	select {
	case pw = <-ready:
	case <-time.After(60 * time.Second):
		c.Violate("no-handshake", "tcp", "no handshake callback within a minute")
		return
	}
	g := &pushGen{r: r, big: i%4 == 1, batch: i%4 == 2}
	var all []*push
	var wg sync.WaitGroup
	for k := 0; k < 8; k++ {
		var l []*push
		calls := c.N(60, 300)
		if g.batch {
			calls /= 5
		}
		for i := 0; i < calls; i++ {
			p := g.again(l)
			if p == nil {
				p = g.push()
			}
			p.g, p.seq = k, i
			p.sleep = time.Duration(-r.Intn(2))
			l = append(l, p)
		}
		all = append(all, l...)
		wg.Add(1)
		go func() {
			defer wg.Done()
			for _, p := range l {
				p.do(pw, nil)
			}
		}()
	}
	syncs := 0
	for i := 0; i < 20; i++ {
		nc.Write(ref.Control(0).Bytes())
		syncs++
	}
	var out []byte
	res := make(chan struct{})
	rr := rand.New(rand.NewSource(r.Int63()))
	go func() {
		defer close(res)
		b := make([]byte, 1<<16)
		for {
			n, err := nc.Read(b[:1+rr.Intn(len(b))])
			out = append(out, b[:n]...)
			if err != nil {
				return
			}
			if rr.Intn(20) == 0 {
				time.Sleep(time.Duration(rr.Intn(300)) * time.Microsecond)
			}
		}
	}()
	done := make(chan struct{})
	go func() { wg.Wait(); close(done) }()
	select {
	case <-done:
	case <-time.After(90 * time.Second):
		c.Violate("blocked", "tcp", "pushes still blocked after 90 seconds although the peer reads")
		return
	}
	// everything pushed is written; the end of input ends the session
	nc.(*net.TCPConn).CloseWrite()
	select {
	case <-res:
	case <-time.After(60 * time.Second):
		c.Violate("not-closed", "tcp", "the connection was not closed within a minute of the end of input")
		return
	}
	if err != nil && err != io.EOF {
		c.HarnessError("read: %v", err)
	}
	partials := checkPushes(c, fmt.Sprintf("seed %d tcp %d", c.Seed, i), out, all, false)
	if partials > syncs {
		c.Violate("sync-replies", "tcp", "%d answers to %d synchronisation requests", partials, syncs)
	}
	for range all {
		c.Eval("")
	}
	c.EvalHash(hashBytes(out))
	c.Count("tcp_pushes", len(all))
}
