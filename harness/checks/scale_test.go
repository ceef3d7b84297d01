package checks

import (
	"context"
	"fmt"
	"strings"
	"sync"
	"testing"
	"testing/synctest"
	"time"

	"github.com/dropmorepackets/haproxy-go/peers"
	"github.com/dropmorepackets/haproxy-go/peers/sticktable"
	"github.com/dropmorepackets/haproxy-go/pkg/encoding"
	"github.com/dropmorepackets/haproxy-go/spop"

	"verif/mon"
	"verif/ref"
)

// The rounds here are about sizes: frames with more messages, replies with
// more actions and values with more bytes than any small counter or buffer
// could stand, in between of small requests on the same connection.

// bigItem is a frame and the reply it must get.
type bigItem struct {
	what string
	msgs []ref.Msg
	want []ref.Action
}

func bigFrames(c *mon.C, t *testing.T) {
	cas := fmt.Sprintf("seed %d big frames", c.Seed)
	c.Case("%s", cas)
	r := c.Rng
	num := func(n int) ref.Val { return ref.Val{T: ref.TInt64, Int: uint64(n)} }
	const scope = 1
	bubble(c, t, cas, func() {
		var mu sync.Mutex
		order := map[int][]int{} // the messages of each frame as they came
		base, cancel := context.WithCancel(context.Background())
		defer cancel()
		l := mon.NewListener()
		a := &spop.Agent{BaseContext: base, Handler: spop.HandlerFunc(func(ctx context.Context, w *encoding.ActionWriter, m *encoding.Message) {
			k := encoding.AcquireKVEntry()
			defer encoding.ReleaseKVEntry(k)
			q, i, acts := -1, -1, -1
			for m.KV.Next(k) {
				switch name := k.NameBytes(); {
				case string(name) == "q":
					q = int(k.ValueInt())
				case string(name) == "i":
					i = int(k.ValueInt())
				case string(name) == "acts":
					acts = int(k.ValueInt())
				case len(name) > 1000: // the name is the value
					w.SetStringBytes(encoding.VarScopeSession, "name", name)
				default:
					w.SetBinary(encoding.VarScopeSession, "data", k.ValueBytes())
				}
			}
			if err := m.KV.Error(); err != nil {
				c.Violate("args", cas, "arguments of a well-formed message: %v", err)
			}
			mu.Lock()
			order[q] = append(order[q], i)
			mu.Unlock()
			if acts < 0 {
				w.SetInt64(encoding.VarScopeSession, "r", int64(i))
			}
			for j := range acts {
				if j%2 == 0 {
					w.SetInt64(encoding.VarScopeSession, "v", int64(j))
				} else {
					w.Unset(encoding.VarScopeSession, "u")
				}
			}
			if n := m.NameBytes(); len(n) > 1000 {
				w.SetStringBytes(encoding.VarScopeSession, "msg", n)
				if err := w.SetInt64(encoding.VarScopeSession, string(n), 1); err != nil {
					c.Violate("action", cas, "a variable name of %d bytes: %v", len(n), err)
				}
			}
		})}
		go a.Serve(l)

		var items []bigItem
		add := func(what string, msgs []ref.Msg, want []ref.Action) {
			items = append(items, bigItem{what, msgs, want})
		}
		reply := func(i int) ref.Action { return ref.Action{Scope: scope, Name: "r", V: num(i)} }
		for _, n := range []int{255, 256, 257, 300, 1025, 5000, c.N(66000, 300000)} {
			it := bigItem{what: fmt.Sprintf("%d messages", n)}
			for i := range n {
				it.msgs = append(it.msgs, ref.Msg{Name: "m", Args: []ref.KV{{Name: "q", V: num(len(items))}, {Name: "i", V: num(i)}}})
				it.want = append(it.want, reply(i))
			}
			items = append(items, it)
		}
		for _, n := range []int{255, 256, 1025, 5000, c.N(66000, 300000)} {
			q := len(items)
			var want []ref.Action
			for j := range n {
				if j%2 == 0 {
					want = append(want, ref.Action{Scope: scope, Name: "v", V: num(j)})
				} else {
					want = append(want, ref.Action{Unset: true, Scope: scope, Name: "u"})
				}
			}
			want = append(want, reply(1))
			add(fmt.Sprintf("%d actions", n), []ref.Msg{
				{Name: "m", Args: []ref.KV{{Name: "q", V: num(q)}, {Name: "i", V: num(0)}, {Name: "acts", V: num(n)}}},
				{Name: "m", Args: []ref.KV{{Name: "q", V: num(q)}, {Name: "i", V: num(1)}}}}, want)
		}
		big := make([]byte, c.N(20<<20, 200<<20))
		r.Read(big)
		for _, n := range []int{16384, 65535, 65536, 70000, 300000, 1<<20 + 5, 5 << 20, len(big)} {
			q := len(items)
			b := big[:n]
			add(fmt.Sprintf("a value of %d bytes", n), []ref.Msg{
				{Name: "m", Args: []ref.KV{{Name: "q", V: num(q)}, {Name: "i", V: num(0)}, {Name: "data", V: ref.Val{T: ref.TBinary, Bytes: b}}}},
				{Name: "m", Args: []ref.KV{{Name: "q", V: num(q)}, {Name: "i", V: num(1)}}}},
				[]ref.Action{{Scope: scope, Name: "data", V: ref.Val{T: ref.TBinary, Bytes: b}}, reply(0), reply(1)})
		}
		for _, n := range []int{5000, 65535, 65536, 70001, 1<<20 + 3} {
			q := len(items)
			text := make([]byte, n)
			for i := range text {
				text[i] = 'a' + big[i]&15
			}
			b := string(text)
			add(fmt.Sprintf("names of %d bytes", n), []ref.Msg{
				{Name: b, Args: []ref.KV{{Name: "q", V: num(q)}, {Name: "i", V: num(0)}, {Name: b, V: num(9)}}},
				{Name: "m", Args: []ref.KV{{Name: "q", V: num(q)}, {Name: "i", V: num(1)}}}},
				[]ref.Action{{Scope: scope, Name: "name", V: ref.Val{T: ref.TString, Bytes: []byte(b)}}, reply(0),
					{Scope: scope, Name: "msg", V: ref.Val{T: ref.TString, Bytes: []byte(b)}}, {Scope: scope, Name: b, V: num(1)}, reply(1)})
		}
		for _, n := range []int{5, 1, 3, 2, 1, 1, 4} { // small frames
			it := bigItem{what: fmt.Sprintf("%d messages", n)}
			for i := range n {
				it.msgs = append(it.msgs, ref.Msg{Name: "m", Args: []ref.KV{{Name: "q", V: num(len(items))}, {Name: "i", V: num(i)}}})
				it.want = append(it.want, reply(i))
			}
			items = append(items, it)
		}
		// one by one and all together, small ones in between
		for _, maxFrame := range []uint32{1<<31 - 1, uint32(len(big) + 1000)} {
			for together := range 2 {
				mu.Lock()
				clear(order)
				mu.Unlock()
				cn := mon.NewConn()
				if together == 1 {
					cn.BeforeWrite = mon.Yielder(r.Int63(), 30)
				}
				l.Dial(cn)
				cn.Send(ref.Hello(maxFrame).Bytes())
				synctest.Wait()
				cn.Discard()
				answers := map[uint64]ref.Frame{}
				collect := func() bool {
					out := append([]byte(nil), cn.Out()...)
					cn.Discard()
					for len(out) > 0 {
						f, n, err := ref.ParseFrame(out)
						if err != nil || n == 0 {
							c.Violate("frame", cas, "%d bytes of the output are no frame: %v", len(out), err)
							return false
						}
						out = out[n:]
						if _, twice := answers[f.StreamID]; twice || f.Type != ref.FAck {
							c.Violate("reply", cas, "%v of type %d comes a second time or is no ACK", f.StreamID, f.Type)
							return false
						}
						answers[f.StreamID] = f
					}
					return true
				}
				for q, it := range items {
					cn.Send(ref.Notify(uint64(q), 1, it.msgs...).Bytes())
					if together == 0 {
						synctest.Wait()
						if !collect() {
							return
						}
					}
				}
				synctest.Wait()
				if !collect() {
					return
				}
				if cn.IsClosed() {
					c.Violate("closed", cas, "the connection was closed, frames of %d bytes were negotiated", maxFrame)
					return
				}
				mu.Lock()
				for q, it := range items {
					got := order[q]
					ok := len(got) == len(it.msgs)
					for i := 0; ok && i < len(got); i++ {
						ok = got[i] == i
					}
					if !ok {
						c.Violate("calls", cas, "%s: %d messages were handled, or not in order, instead of %d", it.what, len(got), len(it.msgs))
						continue
					}
					f, found := answers[uint64(q)]
					if !found {
						c.Violate("no-reply", cas, "%s: no ACK", it.what)
						continue
					}
					as, err := ref.ParseActions(f.Payload)
					if err != nil || len(as) != len(it.want) {
						c.Violate("actions", cas, "%s: %d actions instead of %d: %v", it.what, len(as), len(it.want), err)
						continue
					}
					for i := range as {
						if !as[i].Equal(it.want[i]) {
							c.Violate("actions", cas, "%s: action %d is %v instead of %v", it.what, i, as[i], it.want[i])
							break
						}
					}
					c.Max("messages_in_one_frame", len(it.msgs))
					c.Max("actions_in_one_reply", len(as))
					c.Max("bytes_in_one_reply", len(f.Payload))
					c.Eval(fmt.Sprint(cas, maxFrame, together, it.what))
				}
				mu.Unlock()
				cn.EOF()
				synctest.Wait()
				if c.Violations() > 0 {
					return
				}
			}
		}
	})
}

// manyFailures lets more requests, frames and connections fail than any
// counter of failures could stand, while victims are served.
func manyFailures(c *mon.C, t *testing.T) {
	cas := fmt.Sprintf("seed %d many failures", c.Seed)
	c.Case("%s", cas)
	r := c.Rng
	bubble(c, t, cas, func() {
		w := newWorld(c)
		defer w.cancel()
		victim := w.dial()
		victim.hello(16380)
		attacker := w.dial()
		attacker.hello(16380)
		synctest.Wait()
		id := 0
		served := func(after string) bool {
			id++
			req := genRequest(r, fmt.Sprintf("v%d-", id), uint64(id), 2, reqOpts{maxMsgs: 3, maxArgs: 3, maxLen: 20, maxActs: 2})
			victim.reqs = nil
			victim.Discard()
			victim.send(req)
			fresh := w.dial()
			fresh.hello(16380)
			fresh.send(genRequest(r, fmt.Sprintf("f%d-", id), uint64(id), 2, reqOpts{maxMsgs: 3, maxArgs: 3, maxLen: 20, maxActs: 2}))
			synctest.Wait()
			what := cas + ", after " + after
			if victim.IsClosed() || fresh.IsClosed() {
				c.Violate("closed", what, "a connection that is in order was closed")
				return false
			}
			n := 0
			for out := victim.Out(); ; n++ {
				f, k, err := ref.ParseFrame(out)
				if k == 0 || err != nil {
					break
				}
				if f.StreamID != req.sid || f.Type != ref.FAck {
					c.Violate("reply", what, "%v", f)
				}
				out = out[k:]
			}
			if n != 1 {
				c.Violate("victim-not-answered", what, "%d replies to a request of the victim", n)
				return false
			}
			w.checkCalls(req, what)
			w.checkCalls(fresh.reqs[0], what)
			fresh.checkReplies(what, false)
			if done, err := w.isServed(); done {
				c.Violate("serve-returned", what, "Serve returned %v", err)
			}
			c.Eval(what)
			fresh.EOF()
			synctest.Wait()
			w.forget()
			return c.Violations() == 0
		}
		total := c.N(20000, 200000)
		for i := 1; i <= total; i++ {
			if i%2000 == 1 {
				w.mu.Lock()
				w.fallback = &plan{panics: panicValue(r)}
				w.mu.Unlock()
			}
			attacker.Send(ref.Notify(uint64(i), 1, ref.Msg{Name: "p"}).Bytes())
			if i%2000 == 0 {
				synctest.Wait()
				attacker.Discard()
				if n := len(w.get("p")); n != 2000 {
					c.Violate("calls", cas, "%d of 2000 messages whose handler panics were handled, after %d", n, i)
				}
				if !served(fmt.Sprintf("%d panics", i)) {
					return
				}
			}
		}
		c.Count("handler_panics", total)
		for i := 1; i <= total; i++ { // one argument is announced that is not there
			p := ref.Msgs(ref.Msg{Name: "p"})
			p[len(p)-1]++
			attacker.Send(ref.Frame{Type: ref.FNotify, Flags: 1, StreamID: uint64(i), FrameID: 1, Payload: p}.Bytes())
			if i%5000 == 0 {
				w.mu.Lock()
				w.fallback = &plan{read: -1}
				w.mu.Unlock()
				synctest.Wait()
				attacker.Discard()
				if !served(fmt.Sprintf("%d malformed messages", i)) {
					return
				}
			}
		}
		c.Count("malformed_frames", total)
		conns := c.N(10000, 40000)
		for i := 1; i <= conns; i++ {
			x := w.dial()
			hb, _ := hostileFrame(r, 70000)
			switch r.Intn(3) {
			case 0:
				x.hello(16380)
				x.Send(hb)
			case 1:
				x.Send(hb)
			case 2:
				x.hello(16380)
				x.Send(ref.Hello(16380).Bytes()[:r.Intn(20)])
			}
			if r.Intn(2) == 0 {
				x.Reset()
			} else {
				x.EOF()
			}
			if i%100 == 0 {
				synctest.Wait()
			}
			if i%1000 == 0 && !served(fmt.Sprintf("%d failed connections", i)) {
				return
			}
		}
		c.Count("failed_connections", conns)
	})
}

// manyHostilePeers is the same for the peer server.
func manyHostilePeers(c *mon.C, t *testing.T) {
	cas := fmt.Sprintf("seed %d many hostile peers", c.Seed)
	c.Case("%s", cas)
	r := c.Rng
	bubble(c, t, cas, func() {
		w := newPWorld(c)
		defer w.cancel()
		victim := w.dial(nil, nil)
		d := genDef(r, 4)
		victim.send(genHandshake(r).Bytes())
		victim.send(ref.DefMsg(d).Bytes())
		synctest.Wait()
		conns := c.N(10000, 40000)
		for i := 1; i <= conns; i++ {
			x := w.dial(nil, nil)
			x.Send(hostilePeer(r))
			if r.Intn(2) == 0 {
				x.Reset()
			} else {
				x.EOF()
			}
			if i%100 == 0 {
				synctest.Wait()
			}
			if i%500 == 0 {
				u := genUpdate(r, d)
				u.HasID = true
				victim.send(ref.UpdateMsg(u).Bytes())
				fresh := w.dial(nil, nil)
				fresh.send(genHandshake(r).Bytes())
				fresh.send(ref.DefMsg(d).Bytes())
				fresh.send(ref.UpdateMsg(u).Bytes())
				synctest.Wait()
				what := fmt.Sprintf("%s, after %d connections", cas, i)
				for _, cl := range []*pclient{victim, fresh} {
					if cl.IsClosed() {
						c.Violate("victim-closed", what, "a session that is in order was closed")
						return
					}
					if cl.h == nil {
						c.Violate("not-accepting", what, "a session that is in order got no handler")
						return
					}
					sim := simulate(cl.raw)
					c.Count("victim_updates", sim.checkUpdates(c, what, cl.h.events(), true))
				}
				if done, err := w.isServed(); done {
					c.Violate("serve-returned", what, "Serve returned %v", err)
				}
				fresh.EOF()
				synctest.Wait()
				if c.Violations() > 0 {
					return
				}
				c.Eval(what)
			}
		}
		c.Count("hostile_connections", conns)
	})
}

// manyControls sends more control messages of each kind in one session than 16
// bits count, with updates in between.
func manyControls(c *mon.C, t *testing.T) {
	cas := fmt.Sprintf("seed %d many control messages", c.Seed)
	c.Case("%s", cas)
	r := c.Rng
	bubble(c, t, cas, func() {
		w := newPWorld(c)
		defer w.cancel()
		d := genDef(r, 3)
		kinds := []struct {
			what string
			m    func(i int) ref.PMsg
		}{
			{"synchronisation requests", func(int) ref.PMsg { return ref.Control(0) }},
			{"heartbeats", func(int) ref.PMsg { return ref.Heartbeat }},
			{"confirmations", func(i int) ref.PMsg { return ref.Control(byte(1 + i%3)) }},
			{"acknowledgements", func(i int) ref.PMsg { return ref.AckMsg(d.ID, uint32(i)) }},
			{"definitions", func(i int) ref.PMsg { return ref.DefMsg(d) }},
			{"switches", func(i int) ref.PMsg { return ref.SwitchMsg(d.ID) }},
		}
		total := c.N(70000, 200000)
		for _, k := range kinds {
			cl := w.dial(nil, nil)
			cl.Send(ref.DefaultHandshake.Bytes())
			cl.Send(ref.DefMsg(d).Bytes())
			n, id := 0, uint32(0)
			u := genUpdate(r, d)
			answers := 0
			for i := 1; i <= total; i++ {
				cl.Send(k.m(i).Bytes())
				if i%2000 == 0 {
					u.HasID = true
					id++
					u.ID = id
					n++
					cl.Send(ref.UpdateMsg(u).Bytes())
					synctest.Wait()
					if cl.IsClosed() {
						c.Violate("closed", cas, "the session was closed after %d %s", i, k.what)
						return
					}
					ev := cl.h.events()
					if len(ev) != n+1 || ev[n].upd.ID != id {
						c.Violate("update", cas, "%d of %d updates were delivered after %d %s", len(ev)-1, n, i, k.what)
						return
					}
					out := cl.Out()
					cl.Discard()
					if i == 2000 {
						out = out[min(4, len(out)):]
					}
					for ; len(out) >= 2 && out[0] == 0 && (out[1] == 2 || out[1] == 4); out = out[2:] {
						if out[1] == 2 {
							answers++
						}
					}
					if len(out) > 0 {
						c.Violate("output", cas, "%x after %d %s", tailOf(out), i, k.what)
						return
					}
					time.Sleep(time.Second)
				}
			}
			want := 0
			if k.what == kinds[0].what {
				want = total / 2000 * 2000
			}
			if answers != want {
				c.Violate("replies", cas, "%d answers to %d synchronisation requests (%d %s)", answers, want, total, k.what)
			}
			c.Count("control_messages", total)
			c.Eval(cas + k.what)
			cl.EOF()
			synctest.Wait()
		}
	})
}

// bigSession is a session with large messages, many tables and wide entries.
func bigSession(c *mon.C, t *testing.T) {
	cas := fmt.Sprintf("seed %d big session", c.Seed)
	c.Case("%s", cas)
	r := c.Rng
	bubble(c, t, cas, func() {
		w := newPWorld(c)
		defer w.cancel()
		cl := w.dial(nil, nil)
		cl.send(ref.DefaultHandshake.Bytes())
		wide := genDef(r, 24)
		for len(wide.Types) < 20 {
			wide = genDef(r, 24)
		}
		wide.ID, wide.Name = 1<<40, strings.Repeat("n", 70000)
		long := ref.Def{ID: 3, Name: "long", KeyType: ref.KeyString, KeyLen: 1 << 30, Types: []ref.DT{{Type: 1}, {Type: 19}}}
		id := uint32(r.Intn(1 << 30))
		update := func(d ref.Def) ref.Update {
			u := genUpdate(r, d)
			id++
			u.HasID, u.ID = true, id
			return u
		}
		for _, d := range []ref.Def{wide, long} {
			cl.send(ref.DefMsg(d).Bytes())
			for range 3 {
				cl.send(ref.UpdateMsg(update(d)).Bytes())
			}
		}
		text := make([]byte, c.N(20<<20, 100<<20))
		for i := range text {
			text[i] = 'a' + byte(i*7>>3)&15
		}
		for _, n := range []int{65535, 65536, 1 << 20, 1<<20 + 9, len(text)} {
			u := update(long)
			u.Key = ref.Key{Type: ref.KeyString, B: text[:n]}
			cl.send(ref.UpdateMsg(u).Bytes())
			u = update(long)
			for i := range u.Data {
				if u.Data[i].Kind == ref.KDict {
					u.Data[i].ID, u.Data[i].Val = 77, text[:n]
				}
			}
			cl.send(ref.UpdateMsg(u).Bytes())
			cl.send(ref.UpdateMsg(update(long)).Bytes())
			synctest.Wait()
		}
		// many tables, each of them used again
		tables := c.N(3000, 20000)
		ds := make([]ref.Def, tables)
		for i := range ds {
			ds[i] = ref.Def{ID: uint64(1000 + i), Name: fmt.Sprint("t", i), KeyType: ref.KeySint, KeyLen: 4, Types: []ref.DT{{Type: i % 2 * 2}}}
			cl.send(ref.DefMsg(ds[i]).Bytes())
		}
		for _, i := range r.Perm(tables) {
			cl.send(ref.SwitchMsg(ds[i].ID).Bytes())
			cl.send(ref.UpdateMsg(update(ds[i])).Bytes())
		}
		cl.send(ref.SwitchMsg(wide.ID).Bytes())
		cl.send(ref.UpdateMsg(update(wide)).Bytes())
		synctest.Wait()
		if cl.IsClosed() {
			c.Violate("closed", cas, "the session was closed although it is in order")
		}
		sim := simulate(cl.raw)
		c.Count("updates_of_big_sessions", sim.checkUpdates(c, cas, cl.h.events(), true))
		c.Max("tables_in_one_session", tables)
		c.Max("bytes_in_one_update", len(text))
		c.Eval(cas)
		cl.EOF()
		synctest.Wait()
	})
}

// manyEntries pushes several thousand entries in one call while others push.
func manyEntries(c *mon.C, t *testing.T) {
	cas := fmt.Sprintf("seed %d many entries", c.Seed)
	c.Case("%s", cas)
	bubble(c, t, cas, func() {
		w := newPWorld(c)
		defer w.cancel()
		cl := w.dial(nil, nil)
		cl.send(ref.DefaultHandshake.Bytes())
		synctest.Wait()
		ctx := cl.h.context()
		if ctx == nil {
			c.Violate("no-handshake", cas, "no handshake callback")
			return
		}
		pw := peers.WriterFromContext(ctx)
		ld := libDef(ref.Def{ID: 1, Name: "t", KeyType: ref.KeySint, KeyLen: 4, Expiry: 60000, Types: []ref.DT{{Type: 1}}})
		entry := func(call, i int) *sticktable.EntryUpdate {
			k, v := sticktable.SignedIntegerKey(call), sticktable.UnsignedIntegerData(i)
			return &sticktable.EntryUpdate{StickTable: ld, Key: &k, Data: []sticktable.MapData{&v}}
		}
		lens := []int{4095, 4096, 4097, 9000, c.N(20000, 70000), 1, 2, 300, 5000, 1, 1, 70}
		errs := make([]error, len(lens))
		var wg sync.WaitGroup
		for call, n := range lens {
			var es []*sticktable.EntryUpdate
			for i := range n {
				es = append(es, entry(call, i))
			}
			wg.Add(1)
			go func() {
				defer wg.Done()
				errs[call] = pw.SendEntries(es)
			}()
		}
		wg.Wait()
		for call, err := range errs {
			if err != nil {
				c.Violate("refused", cas, "SendEntries of %d entries failed: %v", lens[call], err)
				return
			}
		}
		out := cl.Out()
		out = out[min(len(out), 4):]
		at, current, id, n := make([]int, len(lens)), -1, uint32(0), 0
		for len(out) > 0 {
			m, k := ref.ParsePMsg(out)
			if k == 0 {
				c.Violate("cut-message", cas, "%d bytes at the end are no message", len(out))
				return
			}
			out = out[k:]
			if m.Class == ref.ClsControl {
				continue
			}
			u, _, err := ref.ParseUpdate(ref.Def{KeyType: ref.KeySint, KeyLen: 4, Types: []ref.DT{{Type: 1}}}, true, false, m.Data)
			if m.Type != ref.MEntry || err != nil {
				c.Violate("garbage", cas, "%v: %v", m, err)
				return
			}
			call := int(u.Key.B[3])
			if call >= len(lens) || int(u.Data[0].I) != at[call] || current >= 0 && current != call && at[current] < lens[current] {
				c.Violate("order", cas, "entry %d of call %d follows entry %d of call %d, of %d", u.Data[0].I, call, at[max(current, 0)]-1, current, lens[max(current, 0)])
				return
			}
			if u.ID != id+1 && n > 0 {
				c.Violate("update-id", cas, "update id %d follows %d", u.ID, id)
				return
			}
			id = u.ID
			at[call]++
			current = call
			n++
		}
		for call := range lens {
			if at[call] != lens[call] {
				c.Violate("lost", cas, "%d of %d entries of a call are on the wire", at[call], lens[call])
			}
			c.Max("entries_of_one_call", lens[call])
		}
		c.Eval(cas)
		cl.EOF()
		synctest.Wait()
	})
}

// manyAccepts lets accepting fail, and connections come and go, more often than
// any counter could stand.
func manyAccepts(c *mon.C, t *testing.T) {
	for _, what := range []string{"agent", "peer server"} {
		cas := fmt.Sprintf("seed %d many connections, %s", c.Seed, what)
		c.Case("%s", cas)
		r := c.Rng
		bubble(c, t, cas, func() {
			base, cancel := context.WithCancel(context.Background())
			defer cancel()
			l := mon.NewListener()
			s := &served{}
			open, want := ref.DefaultHandshake.Bytes(), 4
			if what == "agent" {
				open, want = ref.Hello(16380).Bytes(), 10
				a := &spop.Agent{Handler: spop.HandlerFunc(bareWorld(c).handle), BaseContext: base}
				s.run(func() error { return a.Serve(l) })
			} else {
				p := &peers.Peer{HandlerSource: func() peers.Handler { return peers.HandlerFunc(nil) }, BaseContext: base}
				s.run(func() error { return p.Serve(l) })
			}
			synctest.Wait()
			works := func(after string) bool {
				x := l.Dial(nil)
				x.Send(open)
				synctest.Wait()
				time.Sleep(time.Minute) // a pause after an error may pass
				synctest.Wait()
				if done, err := s.get(); done {
					c.Violate("returned-early", cas, "Serve returned %v after %s", err, after)
					return false
				}
				if x.OutLen() < want || l.Closed() {
					c.Violate("not-accepting", cas, "a new connection is not served after %s", after)
					return false
				}
				x.EOF()
				synctest.Wait()
				c.Eval(cas + after)
				return true
			}
			for _, n := range []int{1, 50, 300, c.N(3000, 70000)} { // in a row
				for range n {
					l.Fail(acceptError(r))
					time.Sleep(time.Second)
				}
				if !works(fmt.Sprintf("%d errors in a row", n)) {
					return
				}
				c.Count("temporary_errors", n)
			}
			total := c.N(7000, 70000)
			for i := 1; i <= total; i++ {
				x := l.Dial(nil)
				if r.Intn(2) == 0 {
					x.Send(open)
				}
				if r.Intn(50) == 0 {
					l.Fail(acceptError(r))
				}
				x.EOF()
				if i%100 == 0 {
					synctest.Wait()
				}
				if i%1000 == 0 && !works(fmt.Sprintf("%d connections", i)) {
					return
				}
			}
			c.Count("connections_that_came_and_went", total)
			cancel()
			synctest.Wait()
			time.Sleep(time.Second)
			if done, err := s.get(); !done || err == nil || !l.Closed() {
				c.Violate("not-returned", cas, "after the cancellation: returned %v, error %v, listener closed %v", done, err, l.Closed())
			}
			time.Sleep(time.Minute)
		})
	}
}
