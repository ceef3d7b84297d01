package checks

import (
	"fmt"
	"math"
	"math/rand"
	"strings"
	"testing"
	"testing/synctest"

	"verif/mon"
	"verif/ref"
)

// offer is one opening of a connection.
type offer struct {
	what   string
	first  ref.Frame
	caps   string
	max    uint32 // accepted frame size, 0: must be refused
	health bool
}

func (o offer) String() string { return o.what }

// genOffer makes an opening with a known verdict.
func genOffer(r *rand.Rand) offer {
	caps := []string{"", "pipelining", "async", "pipelining,async", "async,fragmentation,pipelining"}[r.Intn(5)]
	vers := []string{"2.0", "1.0, 2.0", "2.0,2.1"}[r.Intn(3)]
	kvs := []ref.KV{
		{Name: "supported-versions", V: ref.Val{T: ref.TString, Bytes: []byte(vers)}},
		{Name: "capabilities", V: ref.Val{T: ref.TString, Bytes: []byte(caps)}},
	}
	if r.Intn(2) == 0 {
		id := genBytes(r, genLen(r, 3000))
		if r.Intn(2) == 0 { // HAProxy's is that of all connections of a thread
			id = []byte(engineID)
		}
		kvs = append(kvs, ref.KV{Name: "engine-id", V: ref.Val{T: ref.TString, Bytes: id}})
	}
	o := offer{caps: caps}
	size := func(v uint64) {
		kvs = append(kvs, ref.KV{Name: "max-frame-size", V: ref.Val{T: ref.TUint32, Int: v}})
		o.what = fmt.Sprintf("offer %d caps %q", v, caps)
	}
	good := []uint32{256, 257, 300, 1000, 4096, 16380, 65534, 65535, 65536, 70000, 131072, 200000, 1 << 20, 1 << 24, 1<<31 - 1}
	bad := []uint64{0, 1, 100, 254, 255, 1 << 31, 1<<31 + 1, math.MaxUint32 - 1, math.MaxUint32,
		1 << 32, 1<<32 + 256, 1<<32 + 16380, 1<<33 + 1000, 1 << 62, 1<<63 - 1, 1 << 63, 1<<63 + 16380, math.MaxUint64, math.MaxUint64 - 255}
	shuffle := func() {
		r.Shuffle(len(kvs), func(i, j int) { kvs[i], kvs[j] = kvs[j], kvs[i] })
		o.first = ref.Frame{Type: ref.FHello, Flags: 1, Payload: ref.KVs(kvs...)}
	}
	switch r.Intn(10) {
	case 0, 1, 2, 3:
		o.max = good[r.Intn(len(good))]
		if r.Intn(3) == 0 {
			o.max = 256 + uint32(r.Intn(200000))
		}
		size(uint64(o.max))
		if r.Intn(5) == 0 {
			kvs = append(kvs, ref.KV{Name: "x-unknown", V: genAnyVal(r, 30)})
		}
		switch r.Intn(40) {
		case 0: // more items than a byte can count
			for k := 100 + r.Intn(300); k > 0; k-- {
				kvs = append(kvs, ref.KV{Name: "x-" + genName(r, 20), V: genAnyVal(r, 30)})
			}
		case 1: // a large one
			kvs = append(kvs, ref.KV{Name: "x-large", V: ref.Val{T: ref.TBinary, Bytes: genBytes(r, 16000+r.Intn(40000))}})
		}
		if r.Intn(6) == 0 {
			kvs = append(kvs, ref.KV{Name: "healthcheck", V: ref.Val{T: ref.TBool, Bool: false}})
			o.what += " healthcheck false"
		}
		shuffle()
	case 4:
		o.max = good[r.Intn(len(good))]
		o.health = true
		size(uint64(o.max))
		kvs = append(kvs, ref.KV{Name: "healthcheck", V: ref.Val{T: ref.TBool, Bool: true}})
		o.what += " healthcheck"
		shuffle()
	case 5, 6:
		v := bad[r.Intn(len(bad))]
		if r.Intn(4) == 0 {
			v = uint64(r.Intn(256))
		}
		if r.Intn(4) == 0 {
			v = 1<<32 + r.Uint64()>>1
		}
		size(v)
		if r.Intn(4) == 0 {
			kvs = append(kvs, ref.KV{Name: "healthcheck", V: ref.Val{T: ref.TBool, Bool: true}})
			o.what += " healthcheck"
		}
		shuffle()
	case 7:
		o.what = "no offer"
		if r.Intn(2) == 0 {
			v := genVal(r, []byte{ref.TNull, ref.TBool, ref.TString, ref.TBinary, ref.TIPv4}[r.Intn(5)], 20)
			kvs = append(kvs, ref.KV{Name: "max-frame-size", V: v})
			o.what = "offer " + v.String()
		}
		shuffle()
	case 8:
		// a malformed item before or behind the offer
		size(16380)
		shuffle()
		p := o.first.Payload
		switch r.Intn(3) {
		case 0:
			p = p[:len(p)-1-r.Intn(min(len(p)-1, 30))]
			if _, _, err := ref.ParseKVs(p, -1); err == nil {
				p = append(p[:len(p):len(p)], 200)
			}
		case 1:
			p = append(p, 5, 'a')
		case 2:
			p = append(p, 1, 'a', 0x0E)
		}
		o.first.Payload = p
		o.what = fmt.Sprintf("malformed HELLO %x", tailOf(p))
	case 9:
		// not a HELLO
		o.first = ref.Notify(1, 1, ref.Msg{Name: "early", Args: genKVs(r, 2, 10)})
		switch r.Intn(4) {
		case 0:
			o.first = ref.Disconnect(0, "bye")
		case 1:
			o.first.Type = byte(4 + r.Intn(250))
		case 2:
			o.first = ref.Hello(16380)
			o.first.Type = []byte{0, 2, 3, 101, 102, 103, 255}[r.Intn(7)]
		}
		o.what = fmt.Sprintf("first frame of type %d", o.first.Type)
	}
	return o
}

// padNotify makes a request whose frame has exactly the length n, or false.
func padNotify(tag string, sid, fid uint64, n int) (*request, bool) {
	for name := 0; name < 4; name++ {
		m := ref.Msg{Name: tag + strings.Repeat("n", name)}
		q := &request{sid: sid, fid: fid, msgs: []ref.Msg{m}, plans: []*plan{{read: -1}}}
		if q.frame().Len() == n {
			return q, true
		}
		for d := 0; d < 12; d++ {
			base := q.frame().Len()
			l := n - base - 4 - d
			if l < 0 {
				break
			}
			q2 := &request{sid: sid, fid: fid, plans: q.plans, msgs: []ref.Msg{{Name: m.Name, Args: []ref.KV{{Name: "p", V: ref.Val{T: ref.TBinary, Bytes: make([]byte, l)}}}}}}
			if q2.frame().Len() == n {
				return q2, true
			}
		}
	}
	return nil, false
}

// padReply makes a request whose ACK has exactly the length n, or false.
func padReply(tag string, sid, fid uint64, n int) (*request, bool) {
	for name := 0; name < 4; name++ {
		for d := 0; d < 16; d++ {
			l := n - 12 - name - d
			if l < 0 {
				break
			}
			st := setStep(1, strings.Repeat("v", name), ref.Val{T: ref.TString, Bytes: make([]byte, l)})
			q := &request{sid: sid, fid: fid, msgs: []ref.Msg{{Name: tag}}, plans: []*plan{{read: -1, steps: []step{st}}}}
			if q.ackLen() == n {
				return q, true
			}
		}
	}
	return nil, false
}

func TestC11(t *testing.T) {
	c := mon.Start(t, "C11", "connections opened with valid, boundary, invalid, missing, malformed and health-check offers in random item order, then requests and replies of exactly, one below, one above and far from the negotiated size, several connections with different sizes on one agent; judged at quiescence. Evaluations are facts checked on the wire; non-trivial: distinct opening or distinct (negotiated size, frame size) pair.")
	defer c.Finish()
	r := c.Rng
	if c.Proc() == 0 {
		bigFrames(c, t)
	}
	n := c.N(25, 500)
	id := 0
	for b := 0; b < n && !c.Stop() && c.TimeLeft(); b++ {
		bubble(c, t, fmt.Sprintf("bubble %d", b), func() {
			w := newWorld(c)
			defer w.cancel()
			for s := 0; s < 25 && !c.Stop(); s++ {
				var offers []offer
				var conns []*client
				for k := 1 + r.Intn(4); k > 0; k-- {
					o := genOffer(r)
					cl := w.dial()
					cl.max = o.max
					cl.Send(o.first.Bytes())
					offers = append(offers, o)
					conns = append(conns, cl)
				}
				cas := fmt.Sprintf("seed %d bubble %d session %d %v", c.Seed, b, s, offers)
				c.Case("%s", cas)
				synctest.Wait()
				if n := w.totalCalls(); n != 0 {
					c.Violate("early-call", cas, "the handler was called %d times before any request", n)
				}
				for k, cl := range conns {
					o := offers[k]
					c.Eval(o.what)
					if b == 0 && s < 3 {
						c.Sample("%v: %x", o, tailOf(o.first.Payload))
					}
					st, err := parseStream(cl.Out())
					if err != nil {
						c.Violate("stream", cas, "%v: %v", o, err)
						continue
					}
					if o.max == 0 {
						c.Count("refused_openings", 1)
						if st.hello != nil {
							c.Violate("accepted-opening", cas, "%v was answered by AGENT-HELLO %v", o, st.helloKVs)
						}
						if !cl.IsClosed() {
							c.Violate("not-closed", cas, "the connection is still open after %v", o)
						}
						// a health check ends the connection by itself
						if !strings.Contains(o.what, "healthcheck") {
							told(c, st, cas, o.what)
						}
						continue
					}
					c.Count("accepted_openings", 1)
					if st.hello == nil {
						c.Violate("refused-opening", cas, "%v got no AGENT-HELLO (closed %v)", o, cl.IsClosed())
						continue
					}
					if v := st.helloKVs["version"]; v.T != ref.TString || string(v.Bytes) != "2.0" {
						c.Violate("hello-version", cas, "%v: version %v", o, v)
					}
					if v := st.helloKVs["max-frame-size"]; v.T != ref.TUint32 || v.Int != uint64(o.max) {
						c.Violate("hello-size", cas, "%v: max-frame-size %v", o, v)
					}
					v, ok := st.helloKVs["capabilities"]
					if !ok || v.T != ref.TString {
						c.Violate("hello-capabilities", cas, "%v: capabilities %v", o, v)
					}
					for _, got := range strings.Split(string(v.Bytes), ",") {
						if got = strings.TrimSpace(got); got != "" && !strings.Contains(","+o.caps+",", ","+got+",") {
							c.Violate("hello-capabilities", cas, "%v: capability %q was not offered", o, got)
						}
					}
					if strings.Contains(string(v.Bytes), "fragmentation") && !o.health {
						fragmented(c, w, cl, cas, uint64(b*1000+s))
					}
					if o.health {
						c.Count("health_checks", 1)
						if !cl.IsClosed() {
							c.Violate("health-open", cas, "%v: still open", o)
						}
					} else if cl.IsClosed() {
						c.Violate("closed", cas, "%v: closed after AGENT-HELLO", o)
					}
				}
				// frame sizes
				for round := 0; round < 2 && !c.Stop(); round++ {
					for k, cl := range conns {
						o := offers[k]
						if o.max == 0 || o.health || cl.IsClosed() {
							continue
						}
						max := int(o.max)
						exact := o.max <= 300000 // the sizes around the limit are tried
						if max > 300000 {
							switch {
							case r.Intn(30) > 0:
								max = 66000 + r.Intn(100000) // well below the limit
							case o.max <= 1<<24 && r.Intn(2+int(o.max>>21)) == 0:
								exact = true
							default:
								max = min(max, 1<<20+r.Intn(3<<20))
							}
						}
						for q := 1 + r.Intn(3); q > 0; q-- {
							id++
							size := max - r.Intn(3)
							switch r.Intn(4) {
							case 0:
								size = 40 + r.Intn(max-40)
							case 1:
								size = min(max, 65530+r.Intn(12))
							}
							if r.Intn(2) == 0 && exact {
								size = max + r.Intn(4) - 1
							}
							tag := fmt.Sprintf("s%d-", id)
							if r.Intn(2) == 0 {
								size = min(size, max)
								if req, ok := padNotify(tag, uint64(id), uint64(s), size); ok {
									c.Eval(fmt.Sprintf("request %d/%d", size, o.max))
									c.Count("requests_at_limit", b2i(size == int(o.max)))
									cl.send(req)
								}
							} else if req, ok := padReply(tag, uint64(id), uint64(s), size); ok && req.frame().Len() <= max {
								c.Eval(fmt.Sprintf("reply %d/%d", size, o.max))
								c.Count("replies_at_limit", b2i(size == int(o.max)))
								c.Count("replies_above_limit", b2i(size > int(o.max)))
								cl.send(req)
							}
						}
					}
					synctest.Wait()
					for k, cl := range conns {
						if offers[k].max == 0 || offers[k].health {
							continue
						}
						for _, q := range cl.reqs {
							w.checkCalls(q, cas)
						}
						c.Count("replies_checked", cl.checkReplies(cas, false))
						if cl.IsClosed() {
							c.Violate("closed", cas, "%v: closed although all frames were within the limit", offers[k])
						}
					}
				}
				// a second HELLO neither gets an answer nor changes the size
				for k, cl := range conns {
					o := offers[k]
					if o.max == 0 || o.health || o.max < 400 || cl.IsClosed() || r.Intn(2) > 0 {
						continue
					}
					o2 := ref.Hello([]uint32{256, 300, o.max - 1, o.max, min(o.max, 1<<30) + 1000, 1 << 31}[r.Intn(6)])
					cl.Send(o2.Bytes())
					synctest.Wait()
					c.Count("second_hellos", 1)
					st, err := parseStream(cl.Out())
					if err != nil {
						c.Violate("second-hello", cas, "%v: %v", o, err)
						continue
					}
					if cl.IsClosed() {
						if st.disconnect == nil {
							c.Count("second_hellos_closed_silently", 1)
						}
						continue
					}
					id++
					if req, ok := padNotify(fmt.Sprintf("s%d-", id), uint64(id), uint64(s), int(min(o.max, 100000))); ok {
						cl.send(req)
						synctest.Wait()
						w.checkCalls(req, cas)
					}
					cl.checkReplies(cas, false)
				}
				// longer than negotiated, and ordinary ends
				before := w.totalCalls()
				for k, cl := range conns {
					o := offers[k]
					if o.max == 0 || o.health || o.max > 1<<24 || o.max > 300000 && r.Intn(16+int(o.max>>20)) > 0 {
						continue
					}
					size := int(o.max) + 1
					if r.Intn(2) == 0 {
						size += r.Intn(70000)
					}
					if req, ok := padNotify("toolong", 7, 7, size); ok {
						c.Eval(fmt.Sprintf("oversized %d/%d", size, o.max))
						c.Count("oversized_requests", 1)
						w.register(req)
						cl.Send(req.frame().Bytes())
						synctest.Wait()
						if !cl.IsClosed() {
							c.Violate("not-closed", cas, "%v: still open after a frame of %d bytes", o, size)
						}
						if len(w.get("toolong")) > 0 {
							c.Violate("oversized-handled", cas, "%v: a frame of %d bytes reached the handler", o, size)
						}
						if st, err := parseStream(cl.Out()); err == nil {
							told(c, st, cas, fmt.Sprintf("a frame of %d bytes after %v", size, o))
						}
					}
				}
				if n := w.totalCalls(); n != before {
					c.Violate("oversized-handled", cas, "the handler was called for an oversized frame")
				}
				for _, cl := range conns {
					cl.checkReplies(cas, true)
					cl.EOF()
				}
				synctest.Wait()
				w.forget()
			}
		})
	}
}

// fragmented sends a request in two frames to an agent that said it takes that.
func fragmented(c *mon.C, w *world, cl *client, cas string, n uint64) {
	q := &request{sid: 1<<40 + n, fid: 1 << 40, msgs: []ref.Msg{{Name: fmt.Sprintf("fragmented-%d", n), Args: []ref.KV{{Name: "a", V: ref.Val{T: ref.TString, Bytes: make([]byte, 60)}}}}}, plans: []*plan{{read: -1}}}
	w.register(q)
	cl.reqs = append(cl.reqs, q)
	f := q.frame()
	g := f
	f.Payload, g.Payload = f.Payload[:30], g.Payload[30:]
	f.Flags, g.Type = 0, 0
	cl.Send(append(f.Bytes(), g.Bytes()...))
	synctest.Wait()
	w.checkCalls(q, cas)
	cl.checkReplies(cas, false)
	c.Count("fragmented_requests", 1)
}

// told wants an AGENT-DISCONNECT with a reason.
func told(c *mon.C, st stream, cas, what string) {
	if st.disconnect == nil {
		c.Violate("no-disconnect", cas, "%s: closed without an AGENT-DISCONNECT", what)
		return
	}
	kvs, _, err := ref.ParseKVs(st.disconnect.Payload, -1)
	if err != nil {
		c.Violate("no-disconnect", cas, "%s: AGENT-DISCONNECT %x: %v", what, st.disconnect.Payload, err)
		return
	}
	for _, kv := range kvs {
		if kv.Name == "status-code" && kv.V.Int == 0 {
			c.Violate("no-disconnect", cas, "%s: AGENT-DISCONNECT with status 0", what)
		}
	}
	c.Count("agent_disconnects", 1)
}

func b2i(b bool) int {
	if b {
		return 1
	}
	return 0
}
