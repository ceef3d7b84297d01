package checks

import (
	"context"
	"encoding/binary"
	"fmt"
	"math/rand"
	"runtime"
	"sync"
	"testing"
	"testing/synctest"
	"time"

	"github.com/dropmorepackets/haproxy-go/peers"
	"github.com/dropmorepackets/haproxy-go/peers/sticktable"
	"github.com/dropmorepackets/haproxy-go/pkg/encoding"
	"github.com/dropmorepackets/haproxy-go/spop"

	"verif/mon"
	"verif/ref"
)

// The rounds here are about numbers: more requests, updates and pushes on one
// connection, and more connections at a time, than any small counter, table or
// semaphore could stand, and connections older than any timer.

// manyRequests sends more requests over one connection than 16 bits count,
// and then opens many connections at once, which get old before they go on.
func manyRequests(c *mon.C, t *testing.T) {
	cas := fmt.Sprintf("seed %d many requests", c.Seed)
	c.Case("%s", cas)
	bubble(c, t, cas, func() {
		var mu sync.Mutex
		calls := map[int64]int{}
		base, cancel := context.WithCancel(context.Background())
		defer cancel()
		var ctxs []context.Context
		l := mon.NewListener()
		a := &spop.Agent{BaseContext: base, Handler: spop.HandlerFunc(func(ctx context.Context, w *encoding.ActionWriter, m *encoding.Message) {
			k := encoding.AcquireKVEntry()
			defer encoding.ReleaseKVEntry(k)
			n := int64(-1)
			for m.KV.Next(k) {
				n = k.ValueInt()
			}
			mu.Lock()
			calls[n]++
			if n < 0 || n%500 == 0 || len(ctxs) < 2000 {
				ctxs = append(ctxs, ctx)
			}
			mu.Unlock()
			w.SetInt64(encoding.VarScopeSession, "r", n)
		})}
		go a.Serve(l)
		next := int64(0)
		notify := func() ([]byte, int64) {
			next++
			return ref.Notify(uint64(next), 1, ref.Msg{Name: "m", Args: []ref.KV{{Name: "n", V: ref.Val{T: ref.TInt64, Int: uint64(next)}}}}).Bytes(), next
		}
		check := func(out []byte, from, to int64, hello bool) bool {
			seen := make([]bool, to-from+1)
			k := 0
			for len(out) > 0 {
				f, n, err := ref.ParseFrame(out)
				if err != nil || n == 0 {
					c.Violate("frame", cas, "%d bytes that are no frame: %v", len(out), err)
					return false
				}
				out = out[n:]
				if hello {
					hello = false
					continue
				}
				as, err := ref.ParseActions(f.Payload)
				if f.Type != ref.FAck || err != nil || len(as) != 1 || as[0].V.Int != f.StreamID || f.FrameID != 1 {
					c.Violate("reply", cas, "%v with %v (%v)", f, as, err)
					return false
				}
				i := int64(f.StreamID) - from
				if i < 0 || i >= int64(len(seen)) || seen[i] {
					c.Violate("reply", cas, "%v is sent again or was never asked for", f)
					return false
				}
				seen[i] = true
				k++
			}
			if k != len(seen) {
				c.Violate("no-reply", cas, "%d of %d requests were answered", k, len(seen))
				return false
			}
			return true
		}
		// one connection
		cn := mon.NewConn()
		l.Dial(cn)
		cn.Send(ref.Hello(16380).Bytes())
		total := c.N(70000, 150000)
		first, hello := next+1, true
		for i := 1; i <= total; i++ {
			b, n := notify()
			cn.Send(b)
			if i%5000 == 0 || i == total {
				synctest.Wait()
				if !check(cn.Out(), first, n, hello) {
					return
				}
				cn.Discard()
				first, hello = n+1, false
				time.Sleep(time.Minute)
			}
		}
		c.Count("requests_on_one_connection", total)
		// many connections at a time
		width := c.N(1200, 1500) // the race detector can not stand 8000 goroutines
		var cs []*mon.Conn
		for range width {
			x := mon.NewConn()
			x.Addr = "@"
			l.Dial(x)
			cs = append(cs, x)
			x.Send(ref.Hello(16380, ref.KV{Name: "engine-id", V: ref.Val{T: ref.TString, Bytes: []byte(engineID)}}).Bytes())
		}
		for _, age := range []time.Duration{0, 20 * time.Minute, 50 * time.Hour, 100 * 24 * time.Hour} {
			time.Sleep(age)
			synctest.Wait()
			var ns []int64
			for _, x := range cs {
				b, n := notify()
				ns = append(ns, n)
				x.Send(b)
			}
			synctest.Wait()
			for i, x := range cs {
				if x.IsClosed() {
					c.Violate("closed", cas, "one of %d connections was closed although it is in order, after %v", width, age)
					return
				}
				if !check(x.Out(), ns[i], ns[i], age == 0) {
					return
				}
				x.Discard()
			}
			mu.Lock()
			for i, ctx := range ctxs {
				if ctx.Err() != nil {
					c.Violate("cancelled", cas, "handler context %d was cancelled (%v) although its connection is alive, after %v", i, context.Cause(ctx), age)
					mu.Unlock()
					return
				}
			}
			mu.Unlock()
		}
		mu.Lock()
		for n := int64(1); n <= next; n++ {
			if calls[n] != 1 {
				c.Violate("calls", cas, "request %d was handled %d times", n, calls[n])
				break
			}
		}
		mu.Unlock()
		c.Count("connections_open_at_once", width)
		c.Eval(cas)
		for _, x := range cs {
			x.EOF()
		}
		cn.EOF()
		synctest.Wait()
	})
}

// manyUpdates is the same for peer sessions.
func manyUpdates(c *mon.C, t *testing.T) {
	cas := fmt.Sprintf("seed %d many updates", c.Seed)
	c.Case("%s", cas)
	bubble(c, t, cas, func() {
		type got struct {
			key int64
			id  uint32
		}
		var mu sync.Mutex
		type session struct {
			gs   []got
			ctxs []context.Context // the first and the last
		}
		var per []*session
		base, cancel := context.WithCancel(context.Background())
		defer cancel()
		l := mon.NewListener()
		p := &peers.Peer{BaseContext: base, HandlerSource: func() peers.Handler {
			ss := &session{}
			mu.Lock()
			per = append(per, ss)
			mu.Unlock()
			return peers.HandlerFunc(func(ctx context.Context, u *sticktable.EntryUpdate) {
				k := int64(-1)
				if x, ok := u.Key.(*sticktable.SignedIntegerKey); ok {
					k = int64(*x)
				}
				mu.Lock()
				ss.gs = append(ss.gs, got{k, u.LocalUpdateID})
				ss.ctxs = append(ss.ctxs[:min(len(ss.ctxs), 1)], ctx)
				mu.Unlock()
			})
		}}
		go p.Serve(l)
		d := ref.Def{ID: 1, Name: "t", KeyType: ref.KeySint, KeyLen: 4, Expiry: 60000, Types: []ref.DT{{Type: 1}}}
		update := func(i int, id uint32, explicit bool) []byte {
			b := binary.BigEndian.AppendUint32(nil, uint32(i))
			return ref.UpdateMsg(ref.Update{HasID: explicit, ID: id, Key: ref.Key{Type: ref.KeySint, B: b}, Data: []ref.DVal{{Kind: ref.KUint, I: uint64(i)}}}).Bytes()
		}
		open := func() *mon.Conn {
			x := mon.NewConn()
			l.Dial(x)
			x.Send(ref.DefaultHandshake.Bytes())
			x.Send(ref.DefMsg(d).Bytes())
			return x
		}
		cn := open()
		total := c.N(70000, 150000)
		id := uint32(1<<32 - 40000)
		var want []got
		for i := 0; i < total; i++ {
			id++
			explicit := i == 0 || i%100 == 99 && i < total/2
			if explicit && i > 0 {
				id += 7
			}
			cn.Send(update(i, id, explicit))
			want = append(want, got{int64(i), id})
			if i%5000 == 0 {
				synctest.Wait()
				cn.Discard()
				time.Sleep(4900 * time.Millisecond)
			}
		}
		synctest.Wait()
		mu.Lock()
		for _, ss := range per {
			gs := ss.gs
			for i := range min(len(gs), len(want)) {
				if gs[i] != want[i] {
					c.Violate("update", cas, "update %d is %v instead of %v", i, gs[i], want[i])
					break
				}
			}
			if len(gs) != len(want) {
				c.Violate("lost", cas, "%d of %d updates of one session were delivered", len(gs), len(want))
			}
		}
		mu.Unlock()
		if c.Violations() > 0 {
			return
		}
		c.Count("updates_in_one_session", total)
		// many peers at a time, with the same name from the same address
		width := c.N(1000, 1500)
		cs := []*mon.Conn{cn}
		for range width {
			cs = append(cs, open())
		}
		synctest.Wait()
		mu.Lock()
		for _, ss := range per {
			ss.gs = nil
		}
		mu.Unlock()
		rounds := c.N(60, 150)
		for k := range rounds {
			for i, x := range cs {
				if k%20 == 0 || k == rounds-1 {
					x.Send(update(i, uint32(k), true))
				} else {
					x.Send(ref.Heartbeat.Bytes())
				}
			}
			time.Sleep(4900 * time.Millisecond)
		}
		synctest.Wait()
		n := (rounds+19)/20 + 1
		if (rounds-1)%20 == 0 {
			n--
		}
		for _, x := range cs {
			if x.IsClosed() {
				c.Violate("closed", cas, "one of %d sessions was closed although it is in order", width)
				return
			}
		}
		// everything is at rest, the sessions need no lock
		if len(per) != len(cs) {
			c.Violate("handler-source", cas, "%d handlers were obtained for %d sessions", len(per), len(cs))
		}
		intact := func(ss *session) bool {
			for _, ctx := range ss.ctxs {
				if ctx.Err() != nil {
					c.Violate("cancelled", cas, "the context of a live session is cancelled: %v", context.Cause(ctx))
					return false
				}
			}
			return true
		}
		for _, ss := range per {
			if len(ss.gs) != n {
				c.Violate("lost", cas, "%d of %d updates of one of %d sessions were delivered", len(ss.gs), n, len(cs))
				return
			}
			for _, g := range ss.gs {
				if g.key != ss.gs[0].key {
					c.Violate("mixed", cas, "session %d got an update of session %d", ss.gs[0].key, g.key)
					return
				}
			}
			if !intact(ss) {
				return
			}
		}
		c.Count("sessions_open_at_once", len(cs))
		c.Eval(cas)
		for _, x := range cs[2:] {
			x.EOF()
		}
		// more than a day
		cs = cs[:2]
		days := c.N(18000, 60000)
		for k := range days {
			for _, x := range cs {
				x.Send(ref.Heartbeat.Bytes())
				if k%1000 == 0 {
					x.Discard()
				}
			}
			time.Sleep(4900 * time.Millisecond)
		}
		for i, x := range cs {
			x.Send(update(i, 77, true))
		}
		synctest.Wait()
		for _, x := range cs {
			if x.IsClosed() {
				c.Violate("closed", cas, "a session was closed at %v although it is in order", x.ClosedAt)
				return
			}
		}
		found := 0
		for _, ss := range per {
			if k := len(ss.gs); k > 0 && ss.gs[k-1].id == 77 {
				found++
				intact(ss)
			}
		}
		if found != len(cs) {
			c.Violate("lost", cas, "an update was not delivered in a session of %d heartbeats", days)
		}
		for _, x := range cs {
			x.EOF()
		}
		c.Max("longest_session_s", int(float64(days)*4.9))
		time.Sleep(time.Minute)
	})
}

// manyPushes pushes more entries over one connection than 16 bits count.
func manyPushes(c *mon.C, t *testing.T) {
	cas := fmt.Sprintf("seed %d many pushes", c.Seed)
	c.Case("%s", cas)
	bubble(c, t, cas, func() {
		w := newPWorld(c)
		defer w.cancel()
		cl := w.dial(nil, nil)
		cl.send(ref.DefaultHandshake.Bytes())
		synctest.Wait()
		ctx := cl.h.context()
		if ctx == nil {
			c.Violate("no-handshake", cas, "no handshake callback")
			return
		}
		pw := peers.WriterFromContext(ctx)
		ld := libDef(ref.Def{ID: 1, Name: "t", KeyType: ref.KeySint, KeyLen: 4, Expiry: 60000, Types: []ref.DT{{Type: 1}}})
		const gs = 4
		per := c.N(18000, 80000)
		var fail [gs]error
		var wg sync.WaitGroup
		for g := range gs {
			wg.Add(1)
			go func() {
				defer wg.Done()
				entry := func(i int) *sticktable.EntryUpdate {
					k, v := sticktable.SignedIntegerKey(i*gs+g), sticktable.UnsignedIntegerData(i)
					return &sticktable.EntryUpdate{StickTable: ld, Key: &k, Data: []sticktable.MapData{&v}}
				}
				for i := 0; i < per && fail[g] == nil; i++ {
					if g == 0 && i+10 <= per && i%10 == 0 {
						var es []*sticktable.EntryUpdate
						for j := range 10 {
							es = append(es, entry(i+j))
						}
						fail[g] = pw.SendEntries(es)
						i += 9
						continue
					}
					fail[g] = pw.SendEntry(entry(i))
				}
			}()
		}
		wg.Wait()
		out := cl.Out()
		for g, err := range fail {
			if err != nil {
				c.Violate("refused", cas, "a push of goroutine %d failed: %v", g, err)
				return
			}
		}
		out = out[min(len(out), 4):]
		var next [gs]int
		n := 0
		var last uint32
		for len(out) > 0 {
			m, k := ref.ParsePMsg(out)
			if k == 0 {
				c.Violate("cut-message", cas, "%d bytes at the end are no message", len(out))
				return
			}
			out = out[k:]
			if m.Class == ref.ClsControl {
				continue
			}
			if m.Type != ref.MEntry || len(m.Data) < 8 {
				c.Violate("garbage", cas, "%v", m)
				return
			}
			id := binary.BigEndian.Uint32(m.Data)
			if n > 0 && id != last+1 {
				c.Violate("update-id", cas, "update id %d follows %d after %d pushes", id, last, n)
				return
			}
			last = id
			key := int(binary.BigEndian.Uint32(m.Data[4:]))
			if g := key % gs; key/gs != next[g] {
				c.Violate("order", cas, "entry %d of goroutine %d is on the wire at the place of %d", key/gs, g, next[g])
				return
			}
			next[key%gs]++
			n++
		}
		if n != gs*per {
			c.Violate("lost", cas, "%d of %d entries are on the wire", n, gs*per)
		}
		c.Count("pushes_on_one_connection", n)
		c.Eval(cas)
		cl.EOF()
		time.Sleep(time.Minute)
	})
}

// stalledAgentPeer occupies all workers of an agent but one with replies that
// are not read, and then sends requests on other connections. It takes place
// in real time: who waits for a lock does not let virtual time pass.
func stalledAgentPeer(c *mon.C, r *rand.Rand) {
	const limit = 60 * time.Second
	workers := runtime.NumCPU()
	for i := 0; workers > 1 && i < c.N(6, 60) && !c.Stop(); i++ {
		w := bareWorld(c)
		w.l = mon.NewListener()
		a := &spop.Agent{Handler: spop.HandlerFunc(w.handle), BaseContext: w.base}
		go a.Serve(w.l)
		n := 1 + r.Intn(workers-1)
		each := 1 + r.Intn(n) // on one connection
		cas := fmt.Sprintf("seed %d stalled %d: %d of %d workers wait for peers that do not read, %d each", c.Seed, i, n, workers, each)
		c.Case("%s", cas)
		w.fallback = &plan{read: -1, steps: []step{setStep(1, "v", ref.Val{T: ref.TInt64, Int: 1})}}
		var stuck []*mon.Conn
		for k := 0; k < n; k++ {
			if k%each == 0 {
				x := w.l.Dial(nil)
				x.Send(ref.Hello(16380).Bytes())
				if !x.WaitOut(limit, func(b []byte) bool { return len(b) > 4 }) {
					c.Violate("no-hello", cas, "no AGENT-HELLO within a minute")
					return
				}
				x.Stall(true)
				stuck = append(stuck, x)
			}
			stuck[len(stuck)-1].Send(ref.Notify(uint64(k), 1, ref.Msg{Name: "x"}).Bytes())
		}
		if !eventually(limit, func() bool {
			for _, x := range stuck {
				if x.Stuck() == 0 {
					return false
				}
			}
			return w.totalCalls() == n
		}) {
			c.Violate("progress", cas, "%d of %d requests were handled within a minute", w.totalCalls(), n)
			return
		}
		for k := 0; k < 3; k++ {
			x := w.l.Dial(nil)
			x.Send(ref.Hello(16380).Bytes())
			cl := &client{Conn: x, w: w, max: 16380}
			for q := 0; q < 10; q++ {
				cl.send(genRequest(r, fmt.Sprintf("st%d-%d-%d-", i, k, q), uint64(q), 3, reqOpts{maxMsgs: 2, maxArgs: 3, maxLen: 20, maxActs: 3}))
			}
			if !x.WaitOut(limit, func(b []byte) bool { return frameCount(b) >= 11 }) {
				c.Violate("progress", cas, "%d replies to 10 requests on another connection within a minute", frameCount(x.Out())-1)
				return
			}
			cl.checkReplies(cas, false)
			x.EOF()
		}
		for _, x := range stuck {
			x.Stall(false)
			if !x.WaitOut(limit, func(b []byte) bool { return frameCount(b) > 1 }) {
				c.Violate("no-reply", cas, "no reply within a minute after the peer began to read")
			}
		}
		total := 0
		if !eventually(limit, func() bool {
			total = 0
			for _, x := range stuck {
				total += frameCount(x.Out()) - 1
			}
			return total == n
		}) {
			c.Violate("no-reply", cas, "%d of %d replies within a minute after the peers began to read", total, n)
		}
		for _, x := range stuck {
			st, err := parseStream(x.Out())
			if err != nil || len(st.acks) == 0 {
				c.Violate("frame", cas, "output is no sequence of frames: %v", err)
			}
			x.EOF()
		}
		c.Eval(cas)
		c.Count("workers_waiting_for_peers_that_do_not_read", n)
		w.cancel()
	}
}
