package checks

import (
	"fmt"
	"math/rand"
	"testing"
	"testing/synctest"

	"verif/mon"
	"verif/ref"
)

func TestC27(t *testing.T) {
	c := mon.Start(t, "C27", "a message of any class and type, with any payload, in the middle of a session with updates, heartbeats and synchronisation requests around it; long random runs of control messages; updates before any definition and after a switch to an unknown table; error messages. Replies, delivered updates and the end of the session are compared with the model of the stream. Evaluations are sessions; non-trivial: distinct stream.")
	defer c.Finish()
	r := c.Rng
	if c.Proc() == 0 {
		manyControls(c, t)
	}
	// every pair of class and type that means something, and samples of the rest
	type pair struct{ class, typ byte }
	var pairs []pair
	for _, class := range []int{0, 1, 2, 9, 10, 11, 100, 128, 254, 255} {
		for typ := 0; typ < 256; typ++ {
			pairs = append(pairs, pair{byte(class), byte(typ)})
		}
	}
	if c.Thorough {
		pairs = pairs[:0]
		for x := 0; x < 1<<16; x++ {
			pairs = append(pairs, pair{byte(x >> 8), byte(x)})
		}
		c.Exhaustive("all 65536 pairs of message class and type")
	} else {
		for i := 0; i < 500; i++ {
			pairs = append(pairs, pair{byte(r.Intn(256)), byte(r.Intn(256))})
		}
		c.Exhaustive("all 256 types of the classes 0, 1, 2, 9, 10, 11, 100, 128, 254 and 255")
	}
	// the processes share the pairs
	c.Rng.Shuffle(len(pairs), func(i, j int) { pairs[i], pairs[j] = pairs[j], pairs[i] })
	const batch = 120
	for b := 0; len(pairs) > 0 && !c.Stop() && c.TimeLeft(); b++ {
		n := min(batch, len(pairs))
		now := pairs[:n]
		pairs = pairs[n:]
		bubble(c, t, fmt.Sprintf("bubble %d", b), func() {
			w := newPWorld(c)
			defer w.cancel()
			var cls []*pclient
			for i, p := range now {
				m := ref.PMsg{Class: p.class, Type: p.typ}
				if r.Intn(4) > 0 {
					m.Data = genBytes(r, r.Intn(30))
				}
				var in []ref.PMsg
				in = append(in, around(r)...)
				in = append(in, m)
				in = append(in, around(r)...)
				cls = append(cls, c27Session(c, r, w, in, fmt.Sprintf("bubble %d: class %d type %d", b, p.class, p.typ), i%3 == 0))
				c.Count("class_type_pairs", 1)
			}
			c27Check(c, w, cls, fmt.Sprintf("seed %d bubble %d", c.Seed, b))
		})
	}
	for b := 0; b < c.N(30, 600) && !c.Stop() && c.TimeLeft(); b++ {
		bubble(c, t, fmt.Sprintf("run %d", b), func() {
			w := newPWorld(c)
			defer w.cancel()
			var cls []*pclient
			for i := 0; i < 12; i++ {
				in, what := controlRun(r)
				cls = append(cls, c27Session(c, r, w, in, what, i%2 == 0))
				c.Count("control_runs", 1)
			}
			c27Check(c, w, cls, fmt.Sprintf("seed %d run %d", c.Seed, b))
		})
	}
}

// around is traffic that is always valid.
func around(r *rand.Rand) []ref.PMsg {
	d := genDef(r, 3)
	u := func() ref.PMsg {
		x := genUpdate(r, d)
		x.HasID = true
		return ref.UpdateMsg(x)
	}
	control := func() (ms []ref.PMsg) {
		for k := r.Intn(4); k > 0; k-- {
			switch r.Intn(5) {
			case 0, 1:
				ms = append(ms, ref.Control(0))
			case 2:
				ms = append(ms, ref.Heartbeat)
			case 3:
				ms = append(ms, ref.AckMsg(d.ID, 7))
			case 4:
				ms = append(ms, ref.Control(byte(1+r.Intn(3))))
			}
		}
		return ms
	}
	ms := append(control(), ref.DefMsg(d))
	ms = append(ms, control()...)
	if r.Intn(4) == 0 { // definitions without updates
		o := genDef(r, 3)
		o.ID = d.ID + 1
		ms = append(ms, ref.DefMsg(o))
		ms = append(ms, control()...)
		ms = append(ms, ref.SwitchMsg(d.ID))
		ms = append(ms, control()...)
	}
	ms = append(ms, u())
	for k := r.Intn(3); k > 0; k-- {
		ms = append(append(ms, control()...), u())
	}
	return append(ms, control()...)
}

// controlRun is a long mixture, with or without something that ends it.
func controlRun(r *rand.Rand) (ms []ref.PMsg, what string) {
	what = "control messages"
	if r.Intn(2) == 0 {
		ms = around(r)
	}
	for k := r.Intn(200); k > 0; k-- {
		ms = append(ms, ref.Control(byte(r.Intn(5))))
		switch r.Intn(20) {
		case 0:
			ms = append(ms, around(r)...)
		case 1:
			ms = append(ms, ref.AckMsg(genInt(r), uint32(genInt(r))))
		}
	}
	d := genDef(r, 2)
	u := genUpdate(r, d)
	switch r.Intn(6) {
	case 0:
		what += ", then an update without any definition"
		var keep []ref.PMsg
		for _, m := range ms {
			if m.Class == ref.ClsControl {
				keep = append(keep, m)
			}
		}
		ms = append(keep, ref.UpdateMsg(u))
	case 1:
		what += ", then an update of a table that was switched to but never defined"
		d.ID = 1<<50 + uint64(r.Intn(1000))
		ms = append(ms, ref.SwitchMsg(d.ID), ref.UpdateMsg(u))
	case 2:
		what += ", then an error message"
		ms = append(ms, ref.PMsg{Class: ref.ClsError, Type: byte(r.Intn(3))})
	case 3:
		what += ", then an unknown class"
		ms = append(ms, ref.PMsg{Class: byte(2 + r.Intn(8)), Type: byte(r.Intn(256)), Data: genBytes(r, 3)})
	}
	ms = append(ms, around(r)...)
	return ms, what
}

func c27Session(c *mon.C, r *rand.Rand, w *pworld, ms []ref.PMsg, what string, slow bool) *pclient {
	c.Case("%s: %v", what, ms)
	c.Sample("%s: %v", what, ms)
	cl := w.dial(func(mc *mon.Conn) {
		if r.Intn(2) == 0 {
			mc.BeforeWrite = mon.Yielder(r.Int63(), 20)
		}
	}, nil)
	cl.send(genHandshake(r).Bytes())
	for _, m := range ms {
		cl.send(m.Bytes())
		if slow && r.Intn(3) == 0 {
			synctest.Wait()
		}
	}
	return cl
}

func c27Check(c *mon.C, w *pworld, cls []*pclient, cas string) {
	synctest.Wait()
	for k, cl := range cls {
		cas := fmt.Sprintf("%s session %d stream %x", cas, k, cl.raw)
		sim := simulate(cl.raw)
		c.EvalHash(hashBytes(cl.raw))
		c.Count("updates", sim.checkUpdates(c, cas, cl.h.events(), true))
		o, err := parsePOut(cl.Out())
		if err != nil || o.rest > 0 || len(o.tables) > 0 || o.heartbeats > 0 {
			c.Violate("stream", cas, "unexpected output %x: %v", tailOf(cl.Out()), err)
			continue
		}
		if sim.unknown {
			c.Count("unspecified", 1)
			continue
		}
		if o.partials != sim.replies {
			c.Violate("replies", cas, "%d answers to %d synchronisation requests", o.partials, sim.replies)
		}
		c.Count("synchronisation_requests", sim.replies)
		if sim.ended {
			c.Count("sessions_ended_by_the_message", 1)
		}
		if sim.ended != cl.IsClosed() && !sim.doomed {
			c.Violate("end", cas, "session ended: %v, connection closed: %v", sim.ended, cl.IsClosed())
		}
	}
	for _, cl := range cls {
		cl.EOF()
	}
	synctest.Wait()
	w.forget()
}
