package checks

import (
	"bytes"
	"context"
	"fmt"
	"math/rand"
	"strconv"
	"strings"
	"sync"
	"testing/synctest"
	"time"

	"github.com/dropmorepackets/haproxy-go/peers"
	"github.com/dropmorepackets/haproxy-go/peers/sticktable"

	"verif/mon"
	"verif/ref"
)

// pev is one callback of a peer handler.
type pev struct {
	ctx      context.Context
	kind     byte // 'h'andshake, 'u'pdate, 'c'lose
	at       time.Time
	end      time.Time
	returned bool
	hs       ref.Handshake
	upd      ref.Update
	def      ref.Def
	bad      error // the update could not be read
	raw      *sticktable.EntryUpdate
}

func (e pev) String() string {
	switch e.kind {
	case 'h':
		return fmt.Sprintf("handshake %+v", e.hs)
	case 'u':
		return fmt.Sprintf("update %s of %s", updString(e.upd), defString(e.def))
	}
	return "close"
}

// phandler records the callbacks of one connection.
type phandler struct {
	w    *pworld
	mu   sync.Mutex
	ev   []*pev
	ctx  context.Context
	busy int // callbacks that are running

	onHS, onUpd func(ctx context.Context)
	onClose     func()
	quiet       bool // record nothing but the last context
}

func (h *phandler) begin(e *pev, ctx context.Context) func() {
	e.at = time.Now()
	h.mu.Lock()
	if ctx != nil {
		h.ctx, e.ctx = ctx, ctx
	}
	h.ev = append(h.ev, e)
	h.busy++
	if h.busy > 1 {
		h.w.c.Violate("overlapping-callbacks", "", "%v while another callback of the same connection is running", e)
	}
	h.mu.Unlock()
	return func() {
		h.mu.Lock()
		h.busy--
		e.end, e.returned = time.Now(), true
		h.mu.Unlock()
	}
}

func (h *phandler) HandleHandshake(ctx context.Context, hs *peers.Handshake) {
	defer h.begin(&pev{kind: 'h', hs: ref.Handshake{Proto: hs.ProtocolIdentifier, Version: hs.Version, Remote: hs.RemotePeer,
		Local: hs.LocalPeerIdentifier, PID: hs.ProcessID, RelPID: hs.RelativeProcessID}}, ctx)()
	if h.onHS != nil {
		h.onHS(ctx)
	}
}

func (h *phandler) HandleUpdate(ctx context.Context, u *sticktable.EntryUpdate) {
	e := &pev{kind: 'u', raw: u}
	e.snap()
	defer h.begin(e, ctx)()
	if h.onUpd != nil {
		h.onUpd(ctx)
	}
}

func (e *pev) snap() {
	u := e.raw
	e.upd, e.bad = refUpdate(u)
	if u.StickTable == nil {
		e.bad = fmt.Errorf("no table")
	} else {
		e.def = refDef(u.StickTable)
	}
}

func (h *phandler) Close() error {
	defer h.begin(&pev{kind: 'c'}, nil)()
	if h.onClose != nil {
		h.onClose()
	}
	return nil
}

func (h *phandler) events() []pev {
	h.mu.Lock()
	defer h.mu.Unlock()
	out := make([]pev, len(h.ev))
	for i, e := range h.ev {
		out[i] = *e
	}
	return out
}

func (h *phandler) context() context.Context {
	h.mu.Lock()
	defer h.mu.Unlock()
	return h.ctx
}

// pworld is one running peer server that gets a fresh recording handler for
// every connection.
type pworld struct {
	c      *mon.C
	l      *mon.Listener
	base   context.Context
	cancel context.CancelFunc

	mu       sync.Mutex
	hs       []*phandler
	setup    []func(h *phandler) // for the connections accepted next
	served   bool
	serveErr error
}

func barePWorld(c *mon.C) (*pworld, *peers.Peer) {
	w := &pworld{c: c}
	w.base, w.cancel = genBase(w)
	return w, &peers.Peer{HandlerSource: w.source, BaseContext: w.base}
}

func newPWorld(c *mon.C) *pworld {
	w, p := barePWorld(c)
	w.l = mon.NewListener()
	go func() {
		err := p.Serve(w.l)
		w.mu.Lock()
		w.served, w.serveErr = true, err
		w.mu.Unlock()
	}()
	return w
}

func (w *pworld) source() peers.Handler {
	w.mu.Lock()
	defer w.mu.Unlock()
	h := &phandler{w: w}
	if len(w.setup) > 0 {
		if w.setup[0] != nil {
			w.setup[0](h)
		}
		w.setup[0] = nil
		w.setup = w.setup[1:]
	}
	w.hs = append(w.hs, h)
	return h
}

func (w *pworld) handlers() []*phandler {
	w.mu.Lock()
	defer w.mu.Unlock()
	return append([]*phandler(nil), w.hs...)
}

func (w *pworld) isServed() (bool, error) {
	w.mu.Lock()
	defer w.mu.Unlock()
	return w.served, w.serveErr
}

// pclient is one peer connection. It must be dialed at quiescence, because the
// handler is found by the order of acceptance.
type pclient struct {
	*mon.Conn
	w   *pworld
	h   *phandler
	raw []byte // everything sent
}

func (w *pworld) dial(setup func(*mon.Conn), hsetup func(*phandler)) *pclient {
	c := mon.NewConn()
	if setup != nil {
		setup(c)
	}
	w.mu.Lock()
	n := len(w.hs)
	w.setup = append(w.setup, hsetup)
	w.mu.Unlock()
	w.l.Dial(c)
	synctest.Wait()
	cl := &pclient{Conn: c, w: w}
	hs := w.handlers()
	if len(hs) != n+1 {
		w.c.Violate("handler-source", "", "%d handlers were obtained for one connection", len(hs)-n)
	}
	if len(hs) > n {
		cl.h = hs[n]
	} else {
		cl.h = &phandler{w: w}
	}
	return cl
}

func (cl *pclient) send(b []byte) {
	cl.raw = append(cl.raw, b...)
	cl.Send(b)
}

func (w *pworld) forget() {
	w.mu.Lock()
	w.hs = nil
	w.mu.Unlock()
}

// --- the executable session model

// psim is what a byte stream sent by a peer must lead to.
type psim struct {
	hs      *ref.Handshake
	badHS   bool
	ev      []pev // the updates
	replies int   // answers to synchronisation requests
	ended   bool  // the stream contains something that ends the session
	unknown bool  // content whose treatment is not specified was met
	msgs    int
	rest    int  // bytes of an incomplete message at the end
	doomed  bool // what is incomplete can already be seen to be malformed
}

// simulate interprets a complete stream.
func simulate(b []byte) (s psim) {
	lines := bytes.SplitN(b, []byte("\n"), 4)
	if len(lines) < 4 {
		s.doomed = true // when an incomplete handshake is refused is not specified
		return s
	}
	hs, verdict := parseHandshake(string(lines[0]), string(lines[1]), string(lines[2]))
	switch verdict {
	case 'b':
		s.badHS, s.ended = true, true
		return s
	case 'u':
		s.unknown = true
		return s
	}
	s.hs = &hs
	b = lines[3]
	tables := map[uint64]ref.Def{}
	var cur *ref.Def
	var last struct {
		id    uint32
		table uint64
		known bool
	}
	for {
		m, n := ref.ParsePMsg(b)
		if n == 0 {
			s.rest = len(b)
			s.doomed = !openPMsg(b)
			return s
		}
		b = b[n:]
		s.msgs++
		switch m.Class {
		case ref.ClsControl:
			switch m.Type {
			case 0:
				s.replies++
			case 1, 2, 3, 4:
			default:
				s.ended = true
				return s
			}
		case ref.ClsTable:
			switch m.Type {
			case ref.MDef:
				d, _, unknown, err := ref.ParseDef(m.Data)
				if unknown {
					s.unknown = true
					return s
				}
				if err != nil {
					s.ended = true
					return s
				}
				tables[d.ID] = d
				cur = &d
			case ref.MSwitch:
				id, k := ref.Varint(m.Data)
				if k == 0 {
					s.ended = true
					return s
				}
				d, ok := tables[id]
				if !ok {
					cur = nil
					break
				}
				cur = &d
			case ref.MAck:
				if _, k := ref.Varint(m.Data); k == 0 || len(m.Data) != k+4 {
					// may be refused or ignored
					s.unknown = true
					return s
				}
			case ref.MEntry, ref.MInc, ref.MTimed, ref.MIncTimed:
				if cur == nil {
					s.ended = true
					return s
				}
				hasID := m.Type == ref.MEntry || m.Type == ref.MTimed
				hasExp := m.Type == ref.MTimed || m.Type == ref.MIncTimed
				u, _, err := ref.ParseUpdate(*cur, hasID, hasExp, m.Data)
				if err != nil {
					s.ended = true
					return s
				}
				e := pev{kind: 'u', upd: u, def: *cur}
				if !hasID {
					if !last.known || last.table != cur.ID {
						// no predecessor to count from
						e.bad = errAnyID
					}
					e.upd.ID = last.id + 1
				}
				if e.bad == nil {
					last.id, last.table, last.known = e.upd.ID, cur.ID, true
				} else {
					last.known = false
				}
				s.ev = append(s.ev, e)
			default:
				s.ended = true
				return s
			}
		default:
			s.ended = true
			return s
		}
	}
}

// openPMsg reports whether b is a prefix of some acceptable message.
func openPMsg(b []byte) bool {
	if len(b) == 0 {
		return true
	}
	if b[0] != ref.ClsControl && b[0] != ref.ClsTable {
		return false
	}
	if len(b) < 2 {
		return true
	}
	if b[0] == ref.ClsControl {
		return b[1] <= 4
	}
	if b[1] < 0x80 || b[1] > 0x86 {
		return false
	}
	v, n := ref.Varint(b[2:])
	return n == 0 && len(b) < 10 || n > 0 && v < 1<<31
}

// parseHandshake tells 'g'ood and 'b'ad handshakes; what is lenient parsing is
// 'u'nspecified.
func parseHandshake(a, b, c string) (h ref.Handshake, verdict byte) {
	f1, f3 := strings.Fields(a), strings.Fields(c)
	if len(f1) < 2 || len(f3) < 3 {
		return h, 'b'
	}
	for _, f := range f3[1:] {
		if !strings.ContainsAny(f[:1], "0123456789+-") {
			return h, 'b'
		}
	}
	if strings.Contains(a+b+c, "\r") || max(len(a), len(b), len(c)) > 30000 || strings.Join(f1, " ") != a || strings.Join(f3, " ") != c || len(f1) > 2 || len(f3) > 3 {
		return h, 'u'
	}
	h = ref.Handshake{Proto: f1[0], Version: f1[1], Remote: b, Local: f3[0]}
	var err1, err2 error
	h.PID, err1 = strconv.Atoi(f3[1])
	h.RelPID, err2 = strconv.Atoi(f3[2])
	if err1 != nil || err2 != nil {
		return h, 'u'
	}
	return h, 'g'
}

var errAnyID = fmt.Errorf("any id")

// checkUpdates compares the updates a handler got with the model. exact is
// false when some of the last ones may be missing (the connection was broken).
func (s *psim) checkUpdates(c *mon.C, cas string, got []pev, exact bool) int {
	n := 0
	for _, g := range got {
		if g.kind != 'u' {
			continue
		}
		if n >= len(s.ev) {
			if s.unknown {
				return n
			}
			c.Violate("extra-update", cas, "update %d was never sent, was malformed, repeated or behind the end of the session: %v", n, g)
			return n
		}
		want := s.ev[n]
		if g.bad != nil {
			c.Violate("bad-update", cas, "update %d: %v", n, g.bad)
			return n
		}
		if want.bad == errAnyID {
			g.upd.ID = want.upd.ID
		}
		g.upd.HasID = want.upd.HasID // the kind of message is not part of the statement
		if updString(g.upd) != updString(want.upd) || defString(g.def) != defString(want.def) {
			c.Violate("wrong-update", cas, "update %d of %d:\n got %v\nwant %v", n, len(s.ev), g, want)
			return n
		}
		n++
	}
	if exact && n < len(s.ev) && !s.unknown {
		c.Violate("missing-update", cas, "%d of %d updates delivered, next is %v", n, len(s.ev), s.ev[n])
	}
	return n
}

// outStream is what a server wrote.
type outStream struct {
	status     string
	heartbeats int
	partials   int
	tables     []ref.PMsg
	rest       int
}

// parsePOut parses the output of the server strictly.
func parsePOut(out []byte) (o outStream, err error) {
	i := bytes.IndexByte(out, '\n')
	if i < 0 {
		o.rest = len(out)
		if !strings.HasPrefix("200\n", string(out)) {
			return o, fmt.Errorf("status line %q", tailOf(out))
		}
		return o, nil
	}
	o.status = string(out[:i])
	if o.status != "200" {
		return o, fmt.Errorf("status line %q", o.status)
	}
	out = out[i+1:]
	for len(out) > 0 {
		m, n := ref.ParsePMsg(out)
		if n == 0 {
			o.rest = len(out)
			return o, nil
		}
		out = out[n:]
		switch {
		case m.Class == 0 && m.Type == 4:
			o.heartbeats++
		case m.Class == 0 && m.Type == 2:
			o.partials++
		case m.Class == ref.ClsTable && m.Type >= 0x80 && m.Type <= 0x86:
			o.tables = append(o.tables, m)
		default:
			return o, fmt.Errorf("unexpected message %v", m)
		}
	}
	return o, nil
}

// --- session generator

type psOpts struct {
	big      bool // some long names, keys and values
	msgs     int
	maxTypes int
	control  bool
	maxTabs  int
}

// genPSession makes a valid session (without the handshake).
func genPSession(r *rand.Rand, o psOpts) (out []ref.PMsg) {
	var tabs []ref.Def
	var cur *ref.Def
	lastTable, lastKnown := uint64(0), false
	big := func() int { // mostly not
		if !o.big || r.Intn(12) > 0 {
			return 0
		}
		return []int{4000, 4090, 8190, 16380, 65530, 100000}[r.Intn(6)] + r.Intn(20)
	}
	define := func(i int) {
		d := genDef(r, o.maxTypes)
		if o.maxTabs > 100 {
			d.ID = uint64(i) // the table ids of a HAProxy with many tables
		}
		if n := big(); n > 0 {
			d.Name = string(genBytes(r, n))
		}
		if i < len(tabs) {
			d.ID = tabs[i].ID
			tabs[i] = d
		} else {
			for _, t := range tabs {
				if t.ID == d.ID {
					d.ID = r.Uint64()
				}
			}
			tabs = append(tabs, d)
		}
		out = append(out, ref.DefMsg(d))
		cur = &d
	}
	for i := 0; i < o.msgs; i++ {
		k := r.Intn(20)
		switch {
		case k < 2 && len(tabs) < o.maxTabs || cur == nil && k < 12:
			define(len(tabs))
		case k == 2 && len(tabs) > 0: // define again, same or changed
			j := r.Intn(len(tabs))
			if r.Intn(2) == 0 {
				d := tabs[j]
				out = append(out, ref.DefMsg(d))
				cur = &d
			} else {
				define(j)
			}
		case k == 3 && len(tabs) > 0:
			d := tabs[r.Intn(len(tabs))]
			out = append(out, ref.SwitchMsg(d.ID))
			cur = &d
		case k < 7 && o.control:
			switch r.Intn(3) {
			case 0:
				out = append(out, ref.AckMsg(genInt(r), uint32(genInt(r))))
			case 1:
				out = append(out, ref.Control(byte(r.Intn(5))))
			default:
				out = append(out, ref.Heartbeat)
			}
		case cur != nil:
			u := genUpdate(r, *cur)
			if n := big(); n > 0 && cur.KeyType == ref.KeyString {
				u.Key.B = genBytes(r, n)
			}
			for k := range u.Data {
				if n := big(); n > 0 && u.Data[k].Val != nil {
					u.Data[k].Val = genBytes(r, n)
				}
			}
			if !u.HasID && !(lastKnown && lastTable == cur.ID) {
				u.HasID, u.ID = true, uint32(genInt(r))
			}
			if u.HasID && r.Intn(3) == 0 {
				u.ID = ^uint32(0) - uint32(r.Intn(3))
			}
			lastTable, lastKnown = cur.ID, true
			out = append(out, ref.UpdateMsg(u))
		}
	}
	return out
}

func genHandshake(r *rand.Rand) ref.Handshake {
	const al = "abcdefghijklmnopqrstuvwxyzABCDEFGHIJKLMNOPQRSTUVWXYZ0123456789-_.:"
	word := func() string {
		if r.Intn(2) == 0 { // names come back, in one process and over time
			return []string{"haproxy", "remote", "peer-1"}[r.Intn(3)]
		}
		n := 1 + r.Intn(40)
		if r.Intn(12) == 0 {
			n = 1 + r.Intn([]int{900, 12000}[r.Intn(2)])
		}
		b := make([]byte, n)
		for i := range b {
			b[i] = al[r.Intn(len(al))]
		}
		return string(b)
	}
	return ref.Handshake{Proto: "HAProxyS", Version: []string{"2.1", "2.0"}[r.Intn(2)], Remote: word(), Local: word(), PID: []int{1, 4711, r.Intn(1 << 30), 1<<31 + r.Intn(1<<33)}[r.Intn(4)], RelPID: r.Intn(3)}
}

func pbytes(ms []ref.PMsg) (b []byte) {
	for _, m := range ms {
		b = append(b, m.Bytes()...)
	}
	return b
}
