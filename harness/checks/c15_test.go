package checks

import (
	"fmt"
	"math/rand"
	"testing"
	"testing/synctest"

	"verif/mon"
	"verif/ref"
)

// chunker decides how much one Read returns.
func chunker(r *rand.Rand) (string, func(int) int) {
	switch r.Intn(4) {
	case 0:
		return "whole", nil
	case 1:
		return "bytes", func(int) int { return 1 }
	case 2:
		m := 1 + r.Intn(8)
		rr := rand.New(rand.NewSource(r.Int63()))
		return fmt.Sprintf("up to %d", m), func(int) int { return 1 + rr.Intn(m) }
	}
	rr := rand.New(rand.NewSource(r.Int63()))
	return "any", func(n int) int { return 1 + rr.Intn(n) }
}

// deliver sends b in pieces, sometimes waiting for the server in between.
func deliver(r *rand.Rand, send func([]byte), b []byte) string {
	mode := r.Intn(4)
	if mode == 1 && len(b) > 3000 && r.Intn(4) > 0 {
		mode = 3
	}
	for len(b) > 0 {
		n := len(b)
		switch mode {
		case 1:
			n = 1
		case 2:
			n = min(n, 1+r.Intn(20))
		case 3:
			n = 1 + r.Intn(n)
		}
		send(b[:n])
		b = b[n:]
		if mode > 0 && r.Intn(3) == 0 {
			synctest.Wait()
		}
	}
	return []string{"at once", "bytewise", "small pieces", "pieces"}[mode]
}

// deliverAt sends b in pieces that end at the given offsets, each of which
// arrives on its own.
func deliverAt(send func([]byte), b []byte, at []int) string {
	done := 0
	for _, o := range append(at, len(b)) {
		if o > done && o <= len(b) {
			send(b[done:o])
			synctest.Wait()
			done = o
		}
	}
	return "at boundaries"
}

// some picks boundaries.
func some(r *rand.Rand, at []int) (out []int) {
	p := 1 + r.Intn(3)
	for _, o := range at {
		if r.Intn(p) == 0 {
			out = append(out, o)
		}
	}
	return out
}

func TestC15(t *testing.T) {
	c := mon.Start(t, "C15", "the same generated SPOE or peer session delivered at once, byte by byte and in random pieces by the sender and by the transport, HELLO and handshake merged with what follows, and cut at every offset, with the end of stream arriving together with the data or later; handshakes read from readers that hand them out in different ways; handler calls and answers must be those of the byte stream. Evaluations are deliveries; non-trivial: distinct (session, segmentation or cut).")
	defer c.Finish()
	r := c.Rng
	if c.Proc() == 0 {
		bigFrames(c, t)
	}
	n := c.N(12, 400)
	id := 0
	for b := 0; b < n && !c.Stop() && c.TimeLeft(); b++ {
		if b%2 == 0 {
			bubble(c, t, fmt.Sprintf("spoe bubble %d", b), func() {
				w := newWorld(c)
				defer w.cancel()
				for s := 0; s < 3 && !c.Stop(); s++ {
					id++
					c15SPOE(c, r, w, fmt.Sprintf("seed %d bubble %d session %d", c.Seed, b, s), id)
				}
			})
			continue
		}
		bubble(c, t, fmt.Sprintf("peers bubble %d", b), func() {
			w := newPWorld(c)
			defer w.cancel()
			for s := 0; s < 3 && !c.Stop(); s++ {
				c15Peers(c, r, w, fmt.Sprintf("seed %d bubble %d session %d", c.Seed, b, s))
			}
		})
	}
	for i := c.N(300, 5000); i > 0 && !c.Stop(); i-- {
		readHandshake(c, r, genHandshake(r), genBytes(r, r.Intn(50)))
	}
	if !c.Stop() {
		c.Exhaustive("every cut offset of every generated session (up to 600 bytes)")
	}
}

func c15SPOE(c *mon.C, r *rand.Rand, w *world, cas string, id int) {
	max := 300 + uint32(r.Intn(20000))
	maxLen := 25
	if r.Intn(4) == 0 {
		maxLen, max = 6000, 65000
	}
	stream := ref.Hello(max).Bytes()
	ends := []int{len(stream)} // offsets at which a frame is complete
	at := []int{1, 4, 5, 9}    // and boundaries within
	var reqs []*request
	pairs := newIDs(r)
	for q := 1 + r.Intn(5); q > 0; q-- {
		sid, fid := pairs.next(uint64(q), 1)
		req := genRequest(r, fmt.Sprintf("s%d-%d-", id, q), sid, fid, reqOpts{maxMsgs: 3, maxArgs: 4, maxLen: maxLen, maxActs: 3, invalid: true})
		if req.frame().Len() > int(max) || req.ackLen() > int(max) {
			continue
		}
		reqs = append(reqs, req)
		for _, o := range []int{0, 1, 4, 5, 9, 10, 11} {
			at = append(at, len(stream)+o)
		}
		stream = append(stream, req.frame().Bytes()...)
		ends = append(ends, len(stream))
	}
	bye := r.Intn(2) == 0
	if bye {
		stream = append(stream, ref.Disconnect(0, "bye").Bytes()...)
	}
	var kind string
	send := func(cl *client, b []byte) string {
		if len(b) > 0 && &b[0] == &stream[0] && r.Intn(4) == 0 {
			return deliverAt(cl.Send, b, some(r, at))
		}
		return deliver(r, cl.Send, b)
	}
	run := func(cas string, cut int, eof string) {
		c.Case("%s", cas)
		what, ch := chunker(r)
		cl := w.dial(func(m *mon.Conn) { m.Chunk = ch })
		cl.max = max
		for _, q := range reqs {
			w.register(q)
		}
		whole := 0
		for _, e := range ends {
			if e <= cut {
				whole++
			}
		}
		part := stream[:cut]
		if bye && cut == len(stream) && eof != "together" {
			// DISCONNECT may overtake requests that are still in work
			last := ends[len(ends)-1]
			what += " " + send(cl, part[:last])
			synctest.Wait()
			part = part[last:]
		}
		if eof == "together" {
			cl.Send(part)
			cl.EOF()
		} else {
			what += " " + send(cl, part)
			synctest.Wait()
		}
		cas = fmt.Sprintf("%s, %s, cut %d of %d, EOF %s", cas, what, cut, len(stream), eof)
		judge := func() {
			if eof == "together" {
				synctest.Wait()
			}
			n := max0(whole - 1)
			cl.reqs = reqs[:n]
			for _, q := range cl.reqs {
				w.checkCalls(q, cas)
			}
			for _, q := range reqs[n:] {
				for _, m := range q.msgs {
					if len(w.get(m.Name)) > 0 {
						c.Violate("incomplete-handled", cas, "message %q of an incomplete frame was handled", m.Name)
					}
				}
			}
			// an end that comes together with requests may prevent replies
			cl.checkReplies(cas, eof == "together")
			st, err := parseStream(cl.Out())
			if err == nil && (st.hello != nil) != (whole > 0) {
				c.Violate("hello", cas, "AGENT-HELLO sent: %v, HELLO complete: %v", st.hello != nil, whole > 0)
			}
		}
		judge()
		if eof == "later" {
			cl.EOF()
			synctest.Wait()
			judge()
		}
		if !cl.IsClosed() {
			if eof != "never" || bye && cut == len(stream) {
				c.Violate("not-closed", cas, "still open after its end")
			}
			cl.EOF()
			synctest.Wait()
		} else if eof == "never" && !(bye && cut == len(stream)) {
			c.Violate("closed", cas, "closed without a reason")
		}
		c.Eval(fmt.Sprintf("%d %s %s", id, kind, cas))
		c.Count("spoe_"+kind, 1)
		w.forget()
	}
	kind = "segmentations"
	for i := 0; i < 12 && !c.Stop(); i++ {
		run(cas, len(stream), []string{"never", "later", "together"}[r.Intn(3)])
	}
	kind = "cuts"
	step := 1
	if len(stream) > 3000 {
		step = 1 + len(stream)/40
	} else if len(stream) > 600 {
		step = 1 + len(stream)/600
	}
	for cut := r.Intn(step); cut < len(stream) && !c.Stop(); cut += step {
		run(cas, cut, []string{"later", "together"}[r.Intn(2)])
	}
}

func max0(a int) int {
	if a < 0 {
		return 0
	}
	return a
}

func c15Peers(c *mon.C, r *rand.Rand, w *pworld, cas string) {
	ms := genPSession(r, psOpts{msgs: 1 + r.Intn(14), maxTypes: 4, control: true, maxTabs: 3})
	if r.Intn(2) == 0 { // big updates
		d := genDef(r, 2)
		for d.KeyType != ref.KeyString {
			d = genDef(r, 2)
		}
		ms = append(ms, ref.DefMsg(d))
		for k := 1 + r.Intn(3); k > 0; k-- {
			u := genUpdate(r, d)
			u.HasID, u.ID = true, uint32(genInt(r))
			u.Key.B = genBytes(r, 3000+r.Intn(9000))
			ms = append(ms, ref.UpdateMsg(u))
		}
	}
	if r.Intn(3) == 0 { // merge with big messages
		ms = append(ms, ref.PMsg{Class: ref.ClsTable, Type: ref.MAck, Data: make([]byte, 3000+r.Intn(6000))})
	}
	hs := genHandshake(r).Bytes()
	stream := append(append([]byte{}, hs...), pbytes(ms)...)
	at := []int{len(hs)} // boundaries within
	for off, i := len(hs), 0; i < len(ms); i++ {
		n := len(ms[i].Bytes())
		at = append(at, off+1, off+2)
		if len(ms[i].Data) > 0 {
			at = append(at, off+n-len(ms[i].Data))
		}
		off += n
		at = append(at, off)
	}
	var kind string
	run := func(cas string, cut int, eof string) {
		c.Case("%s", cas)
		what, ch := chunker(r)
		cl := w.dial(func(m *mon.Conn) { m.Chunk = ch }, nil)
		if eof == "together" {
			cl.send(stream[:cut])
			cl.EOF()
		} else {
			if r.Intn(4) == 0 {
				what += " " + deliverAt(cl.send, stream[:cut], some(r, at))
			} else {
				what += " " + deliver(r, cl.send, stream[:cut])
			}
		}
		synctest.Wait()
		cas = fmt.Sprintf("%s, %s, cut %d of %d, EOF %s: %x", cas, what, cut, len(stream), eof, tailOf(stream[:cut]))
		sim := simulate(stream[:cut])
		judge := func() {
			ev := cl.h.events()
			sim.checkUpdates(c, cas, ev, true)
			o, err := parsePOut(cl.Out())
			if err != nil {
				c.Violate("stream", cas, "%v", err)
				return
			}
			if (o.status != "") != (sim.hs != nil) {
				c.Violate("status", cas, "status line %q, handshake complete: %v", o.status, sim.hs != nil)
			}
			if o.rest > 0 || len(o.tables) > 0 {
				c.Violate("stream", cas, "unexpected output %x", tailOf(cl.Out()))
			}
			if o.partials != sim.replies {
				c.Violate("replies", cas, "%d answers to %d synchronisation requests", o.partials, sim.replies)
			}
			nh := 0
			for _, e := range ev {
				if e.kind == 'h' {
					nh++
					if sim.hs != nil && e.hs != *sim.hs {
						c.Violate("handshake", cas, "got %+v, want %+v", e.hs, *sim.hs)
					}
				}
			}
			if nh > 1 || (nh == 1) != (sim.hs != nil) {
				c.Violate("handshake", cas, "%d handshake callbacks, handshake complete: %v", nh, sim.hs != nil)
			}
		}
		judge()
		if eof == "later" {
			cl.EOF()
			synctest.Wait()
			judge()
		}
		if eof == "never" {
			if cl.IsClosed() {
				c.Violate("closed", cas, "closed without a reason")
			}
			cl.EOF()
			synctest.Wait()
		} else if !cl.IsClosed() {
			c.Violate("not-closed", cas, "still open after its end")
		}
		c.Eval(fmt.Sprintf("p %s %s %x", kind, cas, len(stream)))
		c.Count("peer_"+kind, 1)
	}
	kind = "segmentations"
	for i := 0; i < 12 && !c.Stop(); i++ {
		run(cas, len(stream), []string{"never", "later", "together"}[r.Intn(3)])
	}
	// the boundary between the handshake and the first messages
	kind = "cuts"
	step := 1
	if len(stream) > 3000 {
		step = 1 + len(stream)/40
	} else if len(stream) > 600 {
		step = 1 + len(stream)/600
	}
	for cut := r.Intn(step); cut < len(stream) && !c.Stop(); cut += step {
		run(cas, cut, []string{"later", "together"}[r.Intn(2)])
	}
	// cut where only announced bytes are missing that an update does not need
	kind = "surplus_cuts"
	d := genDef(r, 3)
	u := genUpdate(r, d)
	u.HasID, u.ID = true, uint32(genInt(r))
	m := ref.UpdateMsg(u)
	surplus := 1 + r.Intn(20)
	m.Data = append(m.Data[:len(m.Data):len(m.Data)], genBytes(r, surplus)...)
	stream = append(stream[:len(stream):len(stream)], pbytes([]ref.PMsg{ref.DefMsg(d), m})...)
	for i := 1; i <= surplus && !c.Stop(); i += 1 + r.Intn(6) {
		run(cas, len(stream)-i, []string{"later", "together"}[r.Intn(2)])
	}
	w.forget()
}
