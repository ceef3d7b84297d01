package checks

import (
	"fmt"
	"testing"
	"testing/synctest"
	"time"

	"verif/mon"
	"verif/ref"
)

func TestC18(t *testing.T) {
	c := mon.Start(t, "C18", "1..6 peer sessions side by side, each a generated sequence of definitions (new, repeated, changed), table switches, entry updates of all four kinds (explicit ids around the wrap, incremental runs), acknowledgements and control messages over every key and data type, interleaved and cut arbitrarily; the callback trace of each session is compared with an executable model of the byte stream, and every update object again at the end. Evaluations are updates; non-trivial: distinct session.")
	defer c.Finish()
	r := c.Rng
	if c.Proc() == 0 {
		manyUpdates(c, t)
		bigSession(c, t)
		foreignTables(c, t)
	}
	n := c.N(30, 600)
	for b := 0; b < n && !c.Stop() && c.TimeLeft(); b++ {
		bubble(c, t, fmt.Sprintf("bubble %d", b), func() {
			w := newPWorld(c)
			defer w.cancel()
			for s := 0; s < 8 && !c.Stop(); s++ {
				var cls []*pclient
				var todo [][]byte
				cas := fmt.Sprintf("seed %d bubble %d round %d", c.Seed, b, s)
				c.Case("%s", cas)
				hs, shared := genHandshake(r), r.Intn(2) == 0 // all of one peer
				for k := 1 + r.Intn(6); k > 0; k-- {
					cl := w.dial(nil, nil)
					o := psOpts{msgs: 1 + r.Intn(80), maxTypes: []int{0, 2, 6, 24}[r.Intn(4)], control: r.Intn(3) > 0, maxTabs: 4}
					switch r.Intn(100) {
					case 0: // more tables than a byte can count
						o.msgs, o.maxTypes, o.maxTabs = 5000, 1, 400
						c.Count("sessions_with_many_tables", 1)
					case 1, 2, 3, 4: // long messages
						o.big = true
						c.Count("sessions_with_long_messages", 1)
					}
					ms := genPSession(r, o)
					if b == 0 && s < 2 {
						c.Sample("%v", ms)
					}
					cls = append(cls, cl)
					if !shared {
						hs = genHandshake(r)
					}
					todo = append(todo, append(hs.Bytes(), pbytes(ms)...))
				}
				whole := r.Intn(2) == 0 // message by message, or in any pieces
				for left := true; left; {
					left = false
					for k, cl := range cls {
						if len(todo[k]) == 0 {
							continue
						}
						left = true
						n := 1 + r.Intn(len(todo[k]))
						slow := len(todo[k]) < 10000
						if whole && slow && r.Intn(3) > 0 {
							n = min(len(todo[k]), 1+r.Intn(40))
						}
						cl.send(todo[k][:n])
						todo[k] = todo[k][n:]
						switch r.Intn(6) {
						case 0:
							synctest.Wait()
						case 1:
							time.Sleep(time.Duration(r.Intn(50)) * time.Millisecond)
							synctest.Wait()
						}
					}
				}
				synctest.Wait()
				var before [][]pev
				for k, cl := range cls {
					cas := fmt.Sprintf("%s session %d", cas, k)
					sim := simulate(cl.raw)
					if sim.ended || sim.unknown || sim.rest > 0 {
						c.HarnessError("%s: generated session is not valid: %+v", cas, sim)
						return
					}
					ev := cl.h.events()
					before = append(before, ev)
					got := sim.checkUpdates(c, cas, ev, true)
					for i := 0; i < got; i++ {
						c.Eval("")
					}
					c.Eval(string(cl.raw))
					c.Count("updates_checked", got)
					c.Count("messages_sent", sim.msgs)
					if cl.IsClosed() {
						c.Violate("closed", cas, "the connection was closed during a valid session")
					}
				}
				// let other sessions overwrite whatever might be shared
				junk := w.dial(nil, nil)
				junk.send(append(genHandshake(r).Bytes(), pbytes(genPSession(r, psOpts{msgs: 60, maxTypes: 24, maxTabs: 3}))...))
				for _, cl := range cls {
					cl.EOF()
				}
				synctest.Wait()
				for k := range cls {
					for i, e := range before[k] {
						if e.kind != 'u' {
							continue
						}
						now := e
						now.snap()
						if updString(now.upd) != updString(e.upd) || defString(now.def) != defString(e.def) {
							c.Violate("altered", fmt.Sprintf("%s session %d", cas, k), "update %d was altered after its delivery:\n was %v\n now %v", i, e, now)
						}
						c.Count("retained_updates_rechecked", 1)
					}
				}
				junk.EOF()
				synctest.Wait()
				w.forget()
			}
		})
	}
}

// foreignTables lets a session use a table that only another session of the
// same peer, ended or not, has defined.
func foreignTables(c *mon.C, t *testing.T) {
	r := c.Rng
	for i := range 24 {
		cas := fmt.Sprintf("seed %d table of another session %d", c.Seed, i)
		c.Case("%s", cas)
		bubble(c, t, cas, func() {
			w := newPWorld(c)
			defer w.cancel()
			hs := genHandshake(r)
			d := genDef(r, 3)
			update := func() []byte {
				u := genUpdate(r, d)
				u.HasID = true
				return ref.UpdateMsg(u).Bytes()
			}
			updates := func(cl *pclient) (n int) {
				for _, e := range cl.h.events() {
					if e.kind == 'u' {
						n++
					}
				}
				return
			}
			a := w.dial(nil, nil)
			a.send(hs.Bytes())
			a.send(ref.DefMsg(d).Bytes())
			a.send(update())
			synctest.Wait()
			if i%3 == 0 {
				a.EOF()
				synctest.Wait()
			}
			b := w.dial(nil, nil)
			b.send(hs.Bytes())
			if i%4 > 1 { // a table of its own
				own := d
				own.ID, own.Name = d.ID+1, "own"
				b.send(ref.DefMsg(own).Bytes())
			}
			if i%4 > 0 {
				b.send(ref.PMsg{Class: ref.ClsTable, Type: ref.MSwitch, Data: ref.PutVarint(nil, d.ID)}.Bytes())
			}
			b.send(update())
			synctest.Wait()
			if n := updates(b); n != 0 {
				c.Violate("foreign-table", cas, "an update for a table that only another session has defined was delivered")
			}
			if i%3 != 0 {
				a.send(update())
				synctest.Wait()
				if n := updates(a); n != 2 {
					c.Violate("lost", cas, "%d of 2 updates of the other session were delivered", n)
				}
			}
			c.Eval(cas)
			a.EOF()
			b.EOF()
			synctest.Wait()
		})
	}
}
