package checks

import (
	"context"
	"encoding/base64"
	"encoding/binary"
	"encoding/hex"
	"fmt"
	"io"
	"math/rand"
	"net"
	"net/http"
	"net/netip"
	"path/filepath"
	"strconv"
	"strings"
	"sync"
	"testing"
	"time"

	"github.com/dropmorepackets/haproxy-go/peers"
	"github.com/dropmorepackets/haproxy-go/peers/sticktable"

	"verif/mon"
	"verif/ref"
)

// dataNames are HAProxy's names of the data types.
var dataNames = map[int]string{0: "server_id", 1: "gpt0", 2: "gpc0", 3: "gpc0_rate", 4: "conn_cnt", 5: "conn_rate", 6: "conn_cur",
	7: "sess_cnt", 8: "sess_rate", 9: "http_req_cnt", 10: "http_req_rate", 11: "http_err_cnt", 12: "http_err_rate",
	13: "bytes_in_cnt", 14: "bytes_in_rate", 15: "bytes_out_cnt", 16: "bytes_out_rate", 17: "gpc1", 18: "gpc1_rate",
	19: "server_key", 20: "http_fail_cnt", 21: "http_fail_rate"}

const c26Period = 24 * 3600 * 1000

// e2eTable is a table of the configuration.
type e2eTable struct {
	def ref.Def
	typ string
}

// e2ePeer records what the handler got and keeps the writer.
type e2ePeer struct {
	c    *mon.C
	mu   sync.Mutex
	last map[string]map[string]ref.Update // table, key
	defs map[string]ref.Def
	dict map[uint64]string
	at   map[string]time.Time
	n    int
	hs   int
	cl   int
	w    *peers.Writer
}

func (p *e2ePeer) HandleHandshake(ctx context.Context, h *peers.Handshake) {
	p.mu.Lock()
	defer p.mu.Unlock()
	p.hs++
	p.w = peers.WriterFromContext(ctx)
	p.dict = map[uint64]string{}
}

func (p *e2ePeer) Close() error {
	p.mu.Lock()
	defer p.mu.Unlock()
	p.cl++
	return nil
}

func (p *e2ePeer) HandleUpdate(_ context.Context, e *sticktable.EntryUpdate) {
	u, err := refUpdate(e)
	if err != nil || e.StickTable == nil {
		p.c.Violate("update", "", "%v", err)
		return
	}
	p.mu.Lock()
	defer p.mu.Unlock()
	p.n++
	t := e.StickTable.Name
	if p.last[t] == nil {
		p.last[t] = map[string]ref.Update{}
	}
	// HAProxy sends a server's name once and refers to it later on
	for i := range u.Data {
		d := &u.Data[i]
		if d.Kind == ref.KDict && d.ID != 0 {
			if len(d.Val) > 0 {
				p.dict[d.ID] = string(d.Val)
			}
			d.Val = []byte(p.dict[d.ID])
		}
	}
	p.defs[t] = refDef(e.StickTable)
	k := e2eKey(u.Key)
	p.last[t][k] = u
	p.at[t+" "+k] = time.Now()
}

// e2eKey is the text of a key in HAProxy's output.
func e2eKey(k ref.Key) string {
	switch k.Type {
	case ref.KeySint: // shown without sign
		return strconv.FormatUint(uint64(binary.BigEndian.Uint32(k.B)), 10)
	case ref.KeyIPv4, ref.KeyIPv6:
		a, _ := netip.AddrFromSlice(k.B)
		return a.String()
	case ref.KeyBinary:
		return strings.ToUpper(hex.EncodeToString(k.B))
	}
	return string(k.B)
}

// e2eEntry is a line of "show table".
type e2eEntry struct {
	exp  int64
	data map[string]string
	line string
}

func (h *haproxy) table(name string) map[string]e2eEntry {
	out, err := h.cli("show table " + name)
	if err != nil {
		h.c.HarnessError("show table: %v", err)
		return nil
	}
	m := map[string]e2eEntry{}
	for _, l := range strings.Split(out, "\n") {
		if !strings.HasPrefix(l, "0x") {
			continue
		}
		e := e2eEntry{data: map[string]string{}, line: l}
		key := ""
		for _, f := range strings.Fields(l)[1:] {
			k, v, _ := strings.Cut(f, "=")
			switch k, _, _ := strings.Cut(k, "("); k {
			case "key":
				key = v
			case "exp":
				e.exp, _ = strconv.ParseInt(v, 10, 64)
			default:
				e.data[k] = v
			}
		}
		m[key] = e
	}
	return m
}

// e2eSame compares an update with an entry of the same key. age is the time
// since the update was sent.
func e2eSame(d ref.Def, u ref.Update, e e2eEntry, age time.Duration, localExp uint64) error {
	if len(u.Data) != len(d.Types) {
		return fmt.Errorf("%d values for %d types", len(u.Data), len(d.Types))
	}
	for i, v := range u.Data {
		name := dataNames[d.Types[i].Type]
		got, ok := e.data[name]
		if !ok {
			return fmt.Errorf("HAProxy has no %s", name)
		}
		n, err := strconv.ParseUint(got, 10, 64)
		switch v.Kind {
		case ref.KSint, ref.KUint:
			if err != nil || uint32(n) != uint32(v.I) {
				return fmt.Errorf("%s is %s in HAProxy, %d in the library", name, got, uint32(v.I))
			}
		case ref.KUll:
			if err != nil || n != v.I {
				return fmt.Errorf("%s is %s in HAProxy, %d in the library", name, got, v.I)
			}
		case ref.KFreq:
			// the part of the last period fades out during the current one
			sum := v.F[1] + v.F[2]
			fade := v.F[2]/100 + 2
			if v.F[0] > c26Period/100 { // older than this test: HAProxy may have rotated
				if n == 0 || n == v.F[1] {
					continue
				}
			}
			if err != nil || n > sum || n+fade < sum {
				return fmt.Errorf("%s is %s in HAProxy, %v in the library", name, got, v.F)
			}
		case ref.KDict:
			want := "-"
			if v.ID != 0 {
				want = string(v.Val)
			}
			if got != want {
				return fmt.Errorf("%s is %s in HAProxy, %d %q in the library", name, got, v.ID, v.Val)
			}
		}
	}
	exp := int64(localExp)
	if u.HasExp {
		exp = int64(u.Exp)
	}
	if slack := int64(15000); e.exp > exp+slack || e.exp < exp-age.Milliseconds()-slack {
		return fmt.Errorf("expiry is %d in HAProxy, %d %v ago in the library", e.exp, exp, age)
	}
	return nil
}

func e2eTables(r *rand.Rand, all bool) (ts []*e2eTable) {
	// sent by HAProxy are all types except for conn_cur, which is local
	add := func(name, typ string, kt int, klen uint64, types ...int) {
		d := ref.Def{Name: name, KeyType: kt, KeyLen: klen, Expiry: uint64(300+r.Intn(7000)) * 1000}
		for _, t := range types {
			dt := ref.DT{Type: t}
			if ref.DataKinds[t] == ref.KFreq {
				dt.Arg, dt.Period = uint64(t), c26Period
			}
			d.Types = append(d.Types, dt)
		}
		ts = append(ts, &e2eTable{d, typ})
	}
	pick := func() []int {
		var s []int
		for t := 0; t < 22; t++ {
			if t != 6 && (all || r.Intn(3) == 0) {
				s = append(s, t)
			}
		}
		if len(s) == 0 {
			s = []int{2}
		}
		return s
	}
	add("t_ip", "ip", ref.KeyIPv4, 4, pick()...)
	add("t_ip6", "ipv6", ref.KeyIPv6, 16, pick()...)
	add("t_int", "integer", ref.KeySint, 4, pick()...)
	add("t_str", "string len 64", ref.KeyString, 65, pick()...)
	add("t_long", "string len 400", ref.KeyString, 401, pick()...)
	add("t_bin", "binary len 12", ref.KeyBinary, 12, pick()...)
	add("t_web", "string len 32", ref.KeyString, 33, 2, 3, 7, 8, 9, 10, 11, 12, 13, 14, 15, 16, 17, 18, 20, 21)
	add("t_srv", "string len 32", ref.KeyString, 33, 0, 19)
	add("t_none", "ip", ref.KeyIPv4, 4)
	return ts
}

func (t *e2eTable) config() string {
	s := fmt.Sprintf("backend %s\n\tstick-table type %s size 50k expire %ds", t.def.Name, t.typ, t.def.Expiry/1000)
	for i, d := range t.def.Types {
		s += []string{",", " store "}[b2i(i == 0)] + dataNames[d.Type]
		if d.Period > 0 {
			s += fmt.Sprintf("(%dms)", d.Period)
		}
	}
	return s + " peers mypeers\n"
}

// genE2EKey makes a key that both sides show in the same way.
func genE2EKey(r *rand.Rand, d ref.Def, push bool) ref.Key {
	k := ref.Key{Type: d.KeyType}
	text := func(n int) []byte {
		const al = "abcdefghijklmnopqrstuvwxyzABCDEFGHIJKLMNOPQRSTUVWXYZ0123456789-_./"
		b := make([]byte, n)
		for i := range b {
			b[i] = al[r.Intn(len(al))]
		}
		return b
	}
	mark := byte('r')
	if push {
		mark = 'p'
	}
	switch d.KeyType {
	case ref.KeySint:
		v := uint32(genInt(r))&0x7fffffff&^1 | uint32(b2i(push))
		k.B = binary.BigEndian.AppendUint32(nil, v)
	case ref.KeyIPv4:
		k.B = []byte{mark, byte(r.Intn(256)), byte(r.Intn(256)), byte(r.Intn(256))}
	case ref.KeyIPv6:
		k.B = genVal(r, ref.TIPv6, 0).Bytes
		k.B[0] = mark
	case ref.KeyString:
		n := r.Intn(int(d.KeyLen) - 1)
		if r.Intn(4) == 0 {
			n = int(d.KeyLen) - 2
		}
		k.B = append([]byte{mark}, text(n)...)
	case ref.KeyBinary:
		k.B = genBytes(r, int(d.KeyLen))
		k.B[0] = mark
	}
	return k
}

func c26Run(c *mon.C, seed int64, all bool, keep time.Duration) {
	r := rand.New(rand.NewSource(seed))
	p := &e2ePeer{c: c, last: map[string]map[string]ref.Update{}, defs: map[string]ref.Def{}, at: map[string]time.Time{}}
	base, cancel := context.WithCancel(context.Background())
	pl, err := net.Listen("tcp", "127.0.0.1:0")
	if err != nil {
		c.HarnessError("%v", err)
		cancel()
		return
	}
	served := make(chan struct{})
	go func() {
		(&peers.Peer{Handler: p, BaseContext: base}).Serve(pl)
		close(served)
	}()
	defer func() { cancel(); pl.Close(); <-served }()

	tables := e2eTables(r, all)
	cfg := "\tlocalpeer hap\ndefaults\n\tmode http\n\ttimeout client 90s\n\ttimeout server 90s\n\ttimeout connect 30s\n" +
		"peers mypeers\n\tpeer hap unix@DIR/peer\n\tpeer lib " + pl.Addr().String() + "\n"
	byName := map[string]*e2eTable{}
	for _, t := range tables {
		cfg += t.config()
		byName[t.def.Name] = t
	}
	servers := []string{"one", "two", "a-server-with-a-long-name-" + strings.Repeat("x", 200)}
	cfg += "frontend fe\n\tbind unix@DIR/fe\n\thttp-request track-sc0 req.hdr(x-web) table t_web if { req.hdr(x-web) -m found }\n" +
		"\thttp-request track-sc1 req.hdr(x-bin),b64dec table t_bin if { req.hdr(x-bin) -m found }\n" +
		"\thttp-request sc-inc-gpc0(0) if { req.hdr(x-gpc) -m found }\n\thttp-request sc-inc-gpc1(0) if { req.hdr(x-gpc) -m found }\n" +
		"\tuse_backend be_srv if { req.hdr(x-srv) -m found }\n\tdefault_backend be\n" +
		"backend be\n\thttp-request return status 404 if { path_beg /404 }\n\thttp-request return status 500 if { path_beg /500 }\n\thttp-request return status 200\n" +
		"backend be_srv\n\tstick on req.hdr(x-srv) table t_srv\n\tbalance roundrobin\n"
	for _, s := range servers {
		cfg += "\tserver " + s + " unix@DIR/be\n"
	}
	h := startHAProxy(c, cfg, nil)
	if h == nil {
		return
	}
	defer h.stop()
	bl, err := net.Listen("unix", filepath.Join(h.dir, "be"))
	if err != nil {
		c.HarnessError("%v", err)
		return
	}
	srv := &http.Server{Handler: http.HandlerFunc(func(rw http.ResponseWriter, q *http.Request) { rw.WriteHeader(200) })}
	go srv.Serve(bl)
	defer srv.Close()
	cl := h.client("fe", 4)
	defer cl.CloseIdleConnections()
	cas := fmt.Sprintf("haproxy run with seed %d, all types %v", seed, all)
	c.Case("%s", cas)
	start := time.Now()
	if !eventually(20*time.Second, func() bool { p.mu.Lock(); defer p.mu.Unlock(); return p.w != nil }) {
		st, _ := h.cli("show peers")
		c.Violate("session", cas, "no session with HAProxy within 20 s: %s", st)
		return
	}
	p.mu.Lock()
	w := p.w
	p.mu.Unlock()

	keys := map[string][]string{} // what the commands touched, by table
	value := func(kind int) uint64 {
		v := genInt(r)
		switch kind {
		case ref.KSint:
			v &= 0x7fffffff
		case ref.KUll:
			v &= 1<<63 - 1
		default:
			v = uint64(uint32(v))
		}
		return v
	}
	command := func() {
		var cmds []string
		for k := 1 + r.Intn(12); k > 0; k-- {
			t := tables[r.Intn(5)] // of types that the command line can set
			key := e2eKey(genE2EKey(r, t.def, false))
			if old := keys[t.def.Name]; len(old) > 0 && r.Intn(3) > 0 {
				key = old[r.Intn(len(old))]
			} else {
				keys[t.def.Name] = append(old, key)
			}
			s := fmt.Sprintf("set table %s key %s", t.def.Name, key)
			for _, d := range t.def.Types {
				if d.Type != 19 && r.Intn(2) == 0 && len(s) < 900 {
					v := value(ref.DataKinds[d.Type])
					if ref.DataKinds[d.Type] == ref.KFreq {
						v &= 0x3fffffff // HAProxy's arithmetic overflows above
					}
					s += fmt.Sprintf(" data.%s %d", dataNames[d.Type], v)
				}
			}
			if !strings.Contains(s, " data.") {
				continue
			}
			cmds = append(cmds, s)
			c.Count("table_commands", 1)
		}
		for _, s := range cmds {
			out, err := h.cli(s)
			if err != nil || strings.TrimSpace(out) != "" {
				c.HarnessError("%s: %q %v", s, out, err)
			}
		}
	}
	web := func() {
		req, _ := http.NewRequest("GET", "http://h/"+[]string{"200", "404", "500"}[r.Intn(3)], nil)
		switch r.Intn(3) {
		case 0:
			req.Header.Set("x-web", fmt.Sprintf("r-user%d", r.Intn(9)))
			if r.Intn(2) == 0 {
				req.Header.Set("x-gpc", "1")
			}
		case 1:
			b := genBytes(r, 12)
			b[0] = 'r'
			req.Header.Set("x-bin", base64.StdEncoding.EncodeToString(b))
		case 2:
			req.Header.Set("x-srv", fmt.Sprintf("r-cookie%d", r.Intn(40)))
		}
		res, err := cl.Do(req)
		if err != nil {
			c.HarnessError("request: %v", err)
			return
		}
		io.Copy(io.Discard, res.Body)
		res.Body.Close()
		c.Count("http_requests", 1)
	}

	// pushes
	type pushed struct {
		u  ref.Update
		at time.Time
	}
	pushes := map[string]map[string]pushed{}
	defined := map[string]*sticktable.Definition{}
	current := ""
	ids := r.Perm(1000)
	dictID := map[string]uint64{}
	push := func() {
		t := tables[r.Intn(len(tables))]
		n := t.def.Name
		d := defined[n]
		if d == nil || r.Intn(10) == 0 {
			if d == nil {
				x := t.def
				x.ID = uint64(ids[len(defined)])
				if r.Intn(3) == 0 {
					x.ID += 1 << 20
				}
				d = libDef(x)
				defined[n], pushes[n] = d, map[string]pushed{}
			}
			if err := w.SendTableDefinition(d); err != nil {
				c.Violate("push", cas, "SendTableDefinition: %v", err)
			}
			current = n
		}
		if current != n {
			if err := w.SendTableSwitch(d.StickTableID); err != nil {
				c.Violate("push", cas, "SendTableSwitch: %v", err)
			}
			current = n
		}
		one := func() *sticktable.EntryUpdate {
			u := ref.Update{Key: genE2EKey(r, t.def, true), HasExp: r.Intn(2) == 0}
			if old := pushes[n]; len(old) > 0 && r.Intn(3) == 0 {
				for _, o := range old {
					u.Key = o.u.Key
					break
				}
			}
			if u.HasExp {
				u.Exp = uint32(60000 + r.Intn(int(t.def.Expiry)-60000))
			}
			for _, dt := range t.def.Types {
				v := ref.DVal{Kind: ref.DataKinds[dt.Type]}
				switch v.Kind {
				case ref.KFreq:
					v.F = [3]uint64{uint64(r.Intn(1000)), uint64(uint32(genInt(r)) & 0x1fffffff), uint64(uint32(genInt(r)) & 0x1fffffff)}
				case ref.KDict:
					if r.Intn(4) > 0 {
						name := fmt.Sprintf("srv%d%s", r.Intn(6), strings.Repeat("y", genLen(r, 255)))
						if len(dictID) >= 100 {
							for name = range dictID {
								break
							}
						}
						v.Val = []byte(name)
						if v.ID = dictID[name]; v.ID == 0 {
							v.ID = uint64(len(dictID) + 1) // HAProxy's cache has 128 entries
							dictID[name] = v.ID
						}
					}
				default:
					v.I = value(v.Kind)
				}
				u.Data = append(u.Data, v)
			}
			l := libUpdate(d, u)
			// HAProxy keeps the server's name when an update has none
			if old, ok := pushes[n][e2eKey(u.Key)]; ok {
				for i := range u.Data {
					if u.Data[i].Kind == ref.KDict && u.Data[i].ID == 0 {
						u.Data[i] = old.u.Data[i]
					}
				}
			}
			pushes[n][e2eKey(u.Key)] = pushed{u, time.Now()}
			return l
		}
		var err error
		if r.Intn(2) == 0 {
			err = w.SendEntry(one())
			c.Count("pushed_entries", 1)
		} else {
			var es []*sticktable.EntryUpdate
			for k := 1 + r.Intn(30); k > 0; k-- {
				es = append(es, one())
			}
			err = w.SendEntries(es)
			c.Count("pushed_entries", len(es))
		}
		if err != nil {
			c.Violate("push", cas, "%v", err)
		}
	}

	compare := func() error {
		for _, t := range tables {
			have := h.table(t.def.Name)
			p.mu.Lock()
			for key, e := range have {
				if key[0] != 'r' && t.def.KeyType == ref.KeyString {
					continue
				}
				if _, ours := pushes[t.def.Name][key]; ours {
					continue
				}
				u, ok := p.last[t.def.Name][key]
				if !ok {
					p.mu.Unlock()
					return fmt.Errorf("%s: HAProxy has %s, the handler was never told", t.def.Name, e.line)
				}
				if err := e2eSame(t.def, u, e, time.Since(p.at[t.def.Name+" "+key]), t.def.Expiry); err != nil {
					p.mu.Unlock()
					return fmt.Errorf("%s: %v; HAProxy has %s, the handler got %s", t.def.Name, err, e.line, updString(u))
				}
				c.Max("max_received_keys", len(p.last[t.def.Name]))
			}
			for key := range p.last[t.def.Name] {
				if _, ok := have[key]; !ok {
					p.mu.Unlock()
					return fmt.Errorf("%s: the handler was told about the key %q, which HAProxy does not have", t.def.Name, key)
				}
			}
			if d, ok := p.defs[t.def.Name]; ok {
				want := t.def
				want.ID = d.ID
				if defString(d) != defString(want) {
					p.mu.Unlock()
					return fmt.Errorf("definition of %s: the handler got %s, want %s", t.def.Name, defString(d), defString(want))
				}
			}
			p.mu.Unlock()
			for key, u := range pushes[t.def.Name] {
				e, ok := have[key]
				if !ok {
					return fmt.Errorf("%s: pushed key %q is not in HAProxy's table", t.def.Name, key)
				}
				if err := e2eSame(t.def, u.u, e, time.Since(u.at), t.def.Expiry); err != nil {
					return fmt.Errorf("%s: %v; HAProxy has %s, pushed was %s", t.def.Name, err, e.line, updString(u.u))
				}
			}
		}
		return nil
	}
	agree := func() bool {
		var err error
		if !eventually(20*time.Second, func() bool { err = compare(); return err == nil }) {
			st, _ := h.cli("show peers")
			c.Violate("tables-differ", cas, "20 s after the last change: %v\n%s", err, st)
			return false
		}
		c.Count("comparisons", 1)
		return true
	}
	for round := 0; round < c.N(25, 60) && !c.Stop(); round++ {
		for i := r.Intn(60); i > 0; i-- {
			switch r.Intn(3) {
			case 0:
				command()
			case 1:
				web()
			case 2:
				push()
			}
		}
		if !agree() {
			return
		}
	}
	// the idle session stays up
	time.Sleep(max(0, keep-time.Since(start)))
	command()
	push()
	if !agree() {
		return
	}
	st, err := h.cli("show peers")
	p.mu.Lock()
	defer p.mu.Unlock()
	if p.hs != 1 || p.cl != 0 {
		c.Violate("session", cas, "%d handshakes, %d closes after %v: %s", p.hs, p.cl, time.Since(start), st)
	}
	if i := strings.Index(st, "id=lib("); err != nil || i < 0 || !strings.Contains(st[i:], "proto_err=0") {
		c.Violate("session", cas, "HAProxy reports %s", st)
	}
	c.Count("updates_received", p.n)
	c.Count("haproxy_runs", 1)
	n := 0
	for _, t := range tables {
		for k, u := range p.last[t.def.Name] {
			c.Eval("r" + t.def.Name + k + updString(u))
			n++
		}
		for k, u := range pushes[t.def.Name] {
			c.Eval("p" + t.def.Name + k + updString(u.u))
			n++
		}
	}
	c.Sample("%s: %d tables, %d keys compared, %d updates received, session up for %v", cas, len(tables), n, p.n, time.Since(start))
}

func TestC26(t *testing.T) {
	c := mon.Start(t, "C26", "a real HAProxy with the library as its peer: generated \"set table\" commands (edge values of all counters, rates, server ids), tracked HTTP requests (counters, rates, errors, bytes) and stickiness (server names) on nine tables of all key types, mixed with generated pushes of definitions, switches, single entries and batches; both sides are compared by \"show table\" after every round, and the session must last. Non-trivial: distinct (table, key, data).")
	defer c.Finish()
	r := c.Rng
	for i := 0; i < c.N(1, 12) && !c.Stop() && c.TimeLeft(); i++ {
		c26Run(c, r.Int63(), (i+c.Proc())%2 == 0, time.Duration(c.N(9, 20))*time.Second)
	}
}
