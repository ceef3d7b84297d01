package checks

import (
	"fmt"
	"math"
	"math/rand"
	"net"
	"sync"
	"testing"
	"testing/synctest"
	"time"

	"verif/mon"
	"verif/ref"
)

// hostilePeer makes bytes a broken or malicious peer could send.
func hostilePeer(r *rand.Rand) []byte {
	hs := genHandshake(r).Bytes()
	ms := genPSession(r, psOpts{msgs: 1 + r.Intn(12), maxTypes: 6, control: true, maxTabs: 2})
	huge := []uint64{1 << 16, 1 << 20, 1 << 31, 1 << 32, 1 << 40, 1 << 62, 1<<63 - 1, 1 << 63, math.MaxUint64 - 1, math.MaxUint64}
	switch r.Intn(13) {
	case 9, 10: // a message of a known type that is cut short, anywhere
		i := r.Intn(len(ms) + 1)
		d := genDef(r, 4)
		u := genUpdate(r, d)
		u.HasID = true
		m := []ref.PMsg{ref.DefMsg(d), ref.UpdateMsg(u), ref.SwitchMsg(genInt(r)), ref.AckMsg(genInt(r), uint32(genInt(r)))}[r.Intn(4)]
		n := r.Intn(len(m.Data) + 1)
		if r.Intn(2) == 0 {
			n = min(n, r.Intn(8))
		}
		m.Data = m.Data[:n]
		x := []ref.PMsg{m}
		if m.Type != ref.MDef && r.Intn(2) == 0 {
			x = []ref.PMsg{ref.DefMsg(d), m}
		}
		ms = append(ms[:i:i], append(x, ms[i:]...)...)
		return append(hs, pbytes(ms)...)
	case 11: // a known type with any content
		i := r.Intn(len(ms) + 1)
		x := ref.PMsg{Class: ref.ClsTable, Type: byte(0x80 + r.Intn(7)), Data: genBytes(r, r.Intn(10))}
		ms = append(ms[:i:i], append([]ref.PMsg{x}, ms[i:]...)...)
		return append(hs, pbytes(ms)...)
	case 0: // before or inside of the handshake
		return genBytes(r, r.Intn(300))
	case 1:
		return hostile(r, hs)
	case 2:
		h := hs[:r.Intn(len(hs))]
		return append(append([]byte{}, h...), genBytes(r, r.Intn(40))...)
	case 3: // a huge length
		t := byte(0x80 + r.Intn(8))
		b := append(hs, pbytes(ms)...)
		b = append(b, ref.ClsTable, t)
		b = ref.PutVarint(b, huge[r.Intn(len(huge))])
		return append(b, genBytes(r, r.Intn(100))...)
	case 4: // a message that is hostile inside
		i := r.Intn(len(ms) + 1)
		d := genDef(r, 8)
		u := genUpdate(r, d)
		u.HasID = true
		m := ref.UpdateMsg(u)
		m.Data = hostile(r, m.Data)
		ms = append(ms[:i:i], append([]ref.PMsg{ref.DefMsg(d), m}, ms[i:]...)...)
		return append(hs, pbytes(ms)...)
	case 5: // a hostile definition, with updates behind
		d := genDef(r, 8)
		u := genUpdate(r, d)
		m := ref.DefMsg(d)
		m.Data = hostile(r, m.Data)
		ms = append(ms, m, ref.UpdateMsg(u), ref.UpdateMsg(u))
		return append(hs, pbytes(ms)...)
	case 6: // huge lengths inside of a definition that make a small message
		d := genDef(r, 4)
		d.KeyType = []int{ref.KeyBinary, ref.KeyString, ref.KeyIPv4, ref.KeyIPv6, ref.KeySint, 0, 1, 3, 8, 200}[r.Intn(10)]
		d.KeyLen = huge[r.Intn(len(huge))]
		if r.Intn(3) == 0 {
			d.KeyLen = uint64(r.Intn(40))
		}
		ms = append(ms, ref.DefMsg(d), ref.PMsg{Class: ref.ClsTable, Type: []byte{ref.MEntry, ref.MInc, ref.MTimed, ref.MIncTimed}[r.Intn(4)], Data: genBytes(r, r.Intn(60))})
		return append(hs, pbytes(ms)...)
	case 7: // any class and type
		i := r.Intn(len(ms) + 1)
		x := ref.PMsg{Class: []byte{0, 1, 10, 255, byte(r.Intn(256))}[r.Intn(5)], Type: byte(r.Intn(256)), Data: genBytes(r, r.Intn(30))}
		ms = append(ms[:i:i], append([]ref.PMsg{x}, ms[i:]...)...)
		return append(hs, pbytes(ms)...)
	case 8: // cut anywhere
		b := append(hs, pbytes(ms)...)
		return b[:r.Intn(len(b))]
	}
	return append(hs, hostile(r, pbytes(ms))...)
}

func TestC19(t *testing.T) {
	c := mon.Start(t, "C19", "attackers send hostile streams (random bytes, mutated and cut handshakes, sessions with malformed, unknown and mutated messages, huge lengths) and leave by EOF, reset or staying silent, while victim sessions exchange updates; new peers connect after every round; allocation is metered while data is only announced; the updates of an attacker are compared with a tolerant model of its stream. Evaluations are attacks; non-trivial: distinct stream.")
	defer c.Finish()
	r := c.Rng
	if c.Proc() == 0 {
		manyHostilePeers(c, t)
		brokenAccepts(c, 1)
	}
	n := c.N(40, 800)
	for b := 0; b < n && !c.Stop() && c.TimeLeft(); b++ {
		bubble(c, t, fmt.Sprintf("bubble %d", b), func() {
			w := newPWorld(c)
			defer w.cancel()
			type victim struct {
				*pclient
				d    ref.Def
				seen int
			}
			var victims []*victim
			for k := 0; k < 3; k++ {
				v := &victim{pclient: w.dial(nil, nil), d: genDef(r, 6)}
				v.send(genHandshake(r).Bytes())
				v.send(ref.DefMsg(v.d).Bytes())
				victims = append(victims, v)
			}
			for s := 0; s < 12 && !c.Stop(); s++ {
				cas := fmt.Sprintf("seed %d bubble %d round %d", c.Seed, b, s)
				var attackers []*pclient
				for k := 1 + r.Intn(14); k > 0; k-- {
					a := w.dial(nil, nil)
					in := hostilePeer(r)
					c.Case("%s attacker %x", cas, in)
					if b == 0 && s < 2 {
						c.Sample("attack %x", in)
					}
					cut := len(in)
					if r.Intn(3) == 0 {
						cut = r.Intn(len(in) + 1)
					}
					a.send(in[:cut])
					if r.Intn(2) == 0 {
						synctest.Wait()
					}
					a.send(in[cut:])
					for _, v := range victims {
						if r.Intn(4) == 0 {
							u := genUpdate(r, v.d)
							u.HasID = true
							v.send(ref.UpdateMsg(u).Bytes())
						}
					}
					attackers = append(attackers, a)
					c.EvalHash(hashBytes(in))
				}
				synctest.Wait()
				for k, a := range attackers {
					cas := fmt.Sprintf("%s attacker %d %x", cas, k, a.raw)
					sim := simulate(a.raw)
					n := sim.checkUpdates(c, cas, a.h.events(), true)
					c.Count("attacker_updates", n)
					if sim.ended && !sim.unknown {
						c.Count("malformed_sessions", 1)
						if !a.IsClosed() {
							c.Violate("not-closed", cas, "the connection of a peer that sent something malformed is still open")
						}
					} else if !sim.unknown && !sim.doomed {
						c.Count("incomplete_or_valid_sessions", 1)
						if a.IsClosed() {
							c.Violate("closed", cas, "closed although nothing malformed was sent (%d bytes of an incomplete message)", sim.rest)
						}
					}
					if _, err := parsePOut(a.Out()); err != nil {
						c.Violate("stream", cas, "%v", err)
					}
					switch r.Intn(3) {
					case 0:
						a.EOF()
					case 1:
						a.Reset()
					}
				}
				// time for silent attackers to time out, victims keep talking
				for i := r.Intn(5); i > 0; i-- {
					time.Sleep(3 * time.Second)
					for _, v := range victims {
						v.send(ref.Heartbeat.Bytes())
					}
					synctest.Wait()
				}
				for k, v := range victims {
					u := genUpdate(r, v.d)
					u.HasID = true
					v.send(ref.UpdateMsg(u).Bytes())
					synctest.Wait()
					sim := simulate(v.raw)
					vc := fmt.Sprintf("%s victim %d", cas, k)
					c.Count("victim_updates", sim.checkUpdates(c, vc, v.h.events(), true))
					if v.IsClosed() {
						c.Violate("victim-closed", vc, "the session of a victim was closed")
						return
					}
				}
				fresh := w.dial(nil, nil)
				d := genDef(r, 6)
				u := genUpdate(r, d)
				u.HasID = true
				fresh.send(genHandshake(r).Bytes())
				fresh.send(ref.DefMsg(d).Bytes())
				fresh.send(ref.UpdateMsg(u).Bytes())
				synctest.Wait()
				sim := simulate(fresh.raw)
				sim.checkUpdates(c, cas+" new peer", fresh.h.events(), true)
				if done, err := w.isServed(); done {
					c.Violate("serve-returned", cas, "Serve returned %v", err)
				}
				attackers = append(attackers, fresh)
				for _, a := range attackers {
					a.EOF()
				}
				synctest.Wait()
			}
			if b%4 == 0 {
				c19Memory(c, r, w)
			}
		})
	}
	if !c.Stop() && c.TimeLeft() {
		c19TCP(c)
	}
}

// c19Memory announces data without sending it.
func c19Memory(c *mon.C, r *rand.Rand, w *pworld) {
	const announced = 512 << 20
	var cs []*pclient
	var ins [][]byte
	for k := 0; k < 5; k++ {
		cl := w.dial(nil, nil)
		cl.send(ref.DefaultHandshake.Bytes())
		d := ref.Def{ID: 1, Name: "t", KeyType: ref.KeyString, KeyLen: 20, Types: []ref.DT{{Type: 19}}}
		b := ref.DefMsg(d).Bytes()
		long := func(p []byte) []byte { return ref.PutVarint(p, announced+uint64(r.Intn(1<<30))) }
		switch k {
		case 0: // message length
			b = append(b, ref.ClsTable, ref.MEntry)
			b = long(b)
			b = append(b, 0, 0, 0, 1)
		case 1: // key length
			b = append(b, ref.PMsg{Class: ref.ClsTable, Type: ref.MEntry, Data: long([]byte{0, 0, 0, 1})}.Bytes()...)
		case 2: // binary key size of the table
			d.KeyType, d.KeyLen = ref.KeyBinary, announced+uint64(r.Intn(1<<30))
			b = append(ref.DefMsg(d).Bytes(), ref.PMsg{Class: ref.ClsTable, Type: ref.MEntry, Data: []byte{0, 0, 0, 1, 5, 5}}.Bytes()...)
		case 3: // dictionary value
			b = append(b, ref.PMsg{Class: ref.ClsTable, Type: ref.MEntry, Data: long([]byte{0, 0, 0, 1, 1, 'k'})}.Bytes()...)
		case 4: // table name
			b = ref.PMsg{Class: ref.ClsTable, Type: ref.MDef, Data: long([]byte{1})}.Bytes()
		}
		cs = append(cs, cl)
		ins = append(ins, b)
	}
	synctest.Wait()
	got := allocated(func() {
		for k, cl := range cs {
			cl.Send(ins[k])
		}
		synctest.Wait()
	})
	c.Max("max_bytes_allocated_for_announcements", int(got))
	c.Count("metered_announcements", len(cs))
	if got > 64<<20 {
		c.Violate("allocation", "", "%d peers that announced at least %d bytes each made the server allocate %d bytes", len(cs), announced, got)
	}
	for _, cl := range cs {
		cl.Reset()
	}
	synctest.Wait()
}

// c19TCP resets real connections.
func c19TCP(c *mon.C) {
	l, err := net.Listen("tcp", "127.0.0.1:0")
	if err != nil {
		c.HarnessError("listen: %v", err)
		return
	}
	w, p := barePWorld(c)
	defer w.cancel()
	go p.Serve(l)
	vc, err := net.Dial("tcp", l.Addr().String())
	if err != nil {
		c.HarnessError("dial: %v", err)
		return
	}
	defer vc.Close()
	raw := ref.DefaultHandshake.Bytes()
	vc.Write(raw)
	for deadline := time.Now().Add(60 * time.Second); len(w.handlers()) == 0; {
		if time.Now().After(deadline) {
			c.Violate("not-accepting", "", "no handler within a minute")
			return
		}
		time.Sleep(time.Millisecond)
	}
	h := w.handlers()[0]
	var wg sync.WaitGroup
	for k := 0; k < 6; k++ {
		wg.Add(1)
		go func(k int) {
			defer wg.Done()
			r := rand.New(rand.NewSource(c.Seed + int64(k)))
			for i := 0; i < c.N(40, 600) && !c.Stop() && c.TimeLeft(); i++ {
				nc, err := net.Dial("tcp", l.Addr().String())
				if err != nil {
					c.Violate("not-accepting", "", "dial: %v", err)
					return
				}
				nc.Write(hostilePeer(r))
				if r.Intn(2) == 0 {
					time.Sleep(time.Duration(r.Intn(300)) * time.Microsecond)
				}
				nc.(*net.TCPConn).SetLinger(int(r.Intn(2)) - 1)
				nc.Close()
				c.Count("tcp_resets", 1)
			}
		}(k)
	}
	r := rand.New(rand.NewSource(c.Seed))
	d := genDef(r, 6)
	b := ref.DefMsg(d).Bytes()
	vc.Write(b)
	raw = append(raw, b...)
	for i := 0; i < c.N(150, 1500) && !c.Stop() && c.TimeLeft(); i++ {
		u := genUpdate(r, d)
		u.HasID = true
		b := ref.UpdateMsg(u).Bytes()
		vc.Write(b)
		raw = append(raw, b...)
		deadline := time.Now().Add(60 * time.Second)
		for {
			if ev := h.events(); len(ev) >= i+2 {
				break
			}
			if time.Now().After(deadline) {
				c.Violate("victim-starved", "", "update %d not delivered within a minute", i)
				return
			}
			time.Sleep(50 * time.Microsecond)
		}
	}
	wg.Wait()
	sim := simulate(raw)
	c.Count("tcp_victim_updates", sim.checkUpdates(c, "tcp victim", h.events(), true))
}
