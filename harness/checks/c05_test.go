package checks

import (
	"fmt"
	"testing"
	"testing/synctest"

	"verif/mon"
	"verif/ref"
)

func TestC05(t *testing.T) {
	c := mon.Start(t, "C05", "sessions with NOTIFY frames of 0..12 messages with 0..16 (sometimes 255) arguments each; handlers that read none, some, all or more arguments, and write 0..4 actions; judged at quiescence; frames that turn malformed behind some messages. Evaluations are NOTIFY frames; non-trivial: distinct shape with at least one message.")
	defer c.Finish()
	r := c.Rng
	if c.Proc() == 0 {
		bigFrames(c, t)
	}
	n := c.N(80, 1500)
	id := 0
	for b := 0; b < n && !c.Stop() && c.TimeLeft(); b++ {
		bubble(c, t, fmt.Sprintf("bubble %d", b), func() {
			w := newWorld(c)
			defer w.cancel()
			for s := 0; s < 40 && !c.Stop(); s++ {
				var conns []*client
				for k := 1 + r.Intn(3); k > 0; k-- {
					cl := w.dial()
					cl.hello(1 << 20)
					conns = append(conns, cl)
				}
				synctest.Wait()
				cas := fmt.Sprintf("seed %d bubble %d session %d", c.Seed, b, s)
				c.Case("%s", cas)
				for q := 1 + r.Intn(6); q > 0; q-- {
					cl := conns[r.Intn(len(conns))]
					id++
					o := reqOpts{maxMsgs: 12, maxArgs: 16, maxLen: 40, maxActs: 4, invalid: true, yields: 3}
					if id%37 == 0 {
						o = reqOpts{maxMsgs: 3, maxArgs: 255, maxLen: 8, maxActs: 2}
					}
					if id%41 == 0 {
						o.maxLen = 2400
					}
					req := genRequest(r, fmt.Sprintf("m%d", id), uint64(id), genInt(r), o)
					cl.send(req)
					if r.Intn(2) == 0 {
						synctest.Wait()
					}
					for _, m := range req.msgs {
						c.Count("messages", 1)
						c.Count("arguments", len(m.Args))
					}
					if id <= 3 {
						c.Sample("%v", req)
					}
				}
				synctest.Wait()
				for _, cl := range conns {
					for _, req := range cl.reqs {
						w.checkCalls(req, cas)
						if len(req.msgs) > 0 {
							c.Eval(req.shape())
						} else {
							c.Eval("")
						}
					}
					c.Count("acks_checked", cl.checkReplies(cas, false))
					cl.EOF()
				}
				synctest.Wait()
				w.forget()
			}
		})
	}
	for b := 0; b < c.N(6, 100) && !c.Stop() && c.TimeLeft(); b++ {
		bubble(c, t, fmt.Sprintf("malformed bubble %d", b), func() { c05Malformed(c, fmt.Sprintf("malformed bubble %d", b)) })
	}
}

// c05Malformed sends frames that are malformed behind some good messages.
func c05Malformed(c *mon.C, cas string) {
	r := c.Rng
	w := newWorld(c)
	defer w.cancel()
	for i := 0; i < 150 && !c.Stop(); i++ {
		w.forget()
		w.fallback = &plan{read: []int{-1, 0, 1}[r.Intn(3)], steps: []step{genStep(r, 20, false)}}
		ms := genMsgs(r, 1+r.Intn(4), 5, 30)
		for k := range ms {
			ms[k].Name = fmt.Sprintf("bad%d.%d.", i, k) + ms[k].Name
		}
		p := ref.Msgs(ms...)
		switch r.Intn(4) {
		case 0:
			p = p[:len(p)-r.Intn(min(len(p), 40))]
		case 1:
			p = append(p, genBytes(r, 1+r.Intn(20))...)
		case 2: // one argument too many is announced
			p = append(p, ref.Msgs(ref.Msg{Name: fmt.Sprintf("bad%d.last", i)})...)
			p[len(p)-1]++
		default:
			p = hostile(r, p)
		}
		want, _, partial, err := ref.ParseMsgs(p)
		if err == nil || len(p) > 60000 {
			continue
		}
		cl := w.dial()
		cl.hello(65535)
		good := genRequest(r, fmt.Sprintf("good%d", i), 1, 1, reqOpts{maxMsgs: 2, maxArgs: 3, maxLen: 20, maxActs: 2})
		cl.send(good)
		synctest.Wait()
		f := ref.Notify(uint64(i), 77)
		f.Payload = p
		cas := fmt.Sprintf("%s frame %d: payload %x (%v)", cas, i, p, err)
		c.Case("%s", cas)
		cl.Send(f.Bytes())
		synctest.Wait()
		c.Eval(fmt.Sprintf("malformed %x", p))
		c.Count("malformed_frames", 1)
		names := map[string]int{}
		for k, m := range want {
			if partial && k == len(want)-1 {
				break
			}
			names[m.Name]++
		}
		for name, n := range names {
			calls := w.get(name)
			if partial && len(want) > 0 && want[len(want)-1].Name == name && len(calls) == n+1 {
				continue
			}
			if len(calls) != n {
				c.Violate("not-exactly-once", cas, "message %q before the malformed part was handled %d times, sent %d times", name, len(calls), n)
			}
		}
		s, perr := parseStream(cl.Out())
		if perr != nil {
			c.Violate("stream", cas, "%v", perr)
			continue
		}
		for _, a := range s.acks {
			if a.StreamID == f.StreamID && a.FrameID == f.FrameID {
				c.Violate("malformed-acknowledged", cas, "ACK %x", tailOf(a.Payload))
			}
		}
		w.checkCalls(good, cas)
		cl.EOF()
	}
	synctest.Wait()
}
