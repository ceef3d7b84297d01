package checks

import (
	"bytes"
	"fmt"
	"math/rand"
	"os"
	"runtime"
	"sync"
	"sync/atomic"
	"testing"
	"unsafe"

	"github.com/dropmorepackets/haproxy-go/pkg/encoding"

	"verif/mon"
	"verif/ref"
)

// owners is the table of objects that are currently held by somebody.
type owners struct {
	off  bool // no table: leave synchronisation to the library (race detector only)
	mu   sync.Mutex
	held map[unsafe.Pointer]string
	seen map[unsafe.Pointer]int
	c    *mon.C
}

func (o *owners) take(p unsafe.Pointer, what string) {
	if o.off {
		return
	}
	o.mu.Lock()
	if by, ok := o.held[p]; ok {
		o.c.Violate("shared-object", "", "%s was handed out while it is owned by %s", what, by)
	}
	o.held[p] = what
	if o.seen[p]++; o.seen[p] > 1 {
		o.c.Count("objects_reused", 1)
	}
	o.mu.Unlock()
}

func (o *owners) drop(p unsafe.Pointer) {
	if o.off {
		return
	}
	o.mu.Lock()
	delete(o.held, p)
	o.mu.Unlock()
}

// poolUser is one goroutine's view: it performs whole sessions with pooled
// objects and checks cleanliness, content and equality with fresh objects.
type poolUser struct {
	c  *mon.C
	o  *owners
	r  *rand.Rand
	id int
}

func (u *poolUser) pause() {
	for i := u.r.Intn(3); i > 0; i-- {
		runtime.Gosched()
	}
}

func (u *poolUser) bad(kind, format string, args ...any) {
	u.c.Violate(kind, fmt.Sprintf("goroutine %d", u.id), format, args...)
}

func (u *poolUser) entry() *encoding.KVEntry {
	e := encoding.AcquireKVEntry()
	u.o.take(unsafe.Pointer(e), "KVEntry")
	if len(e.NameBytes()) != 0 || len(e.ValueBytes()) != 0 || e.ValueInt() != 0 || e.ValueBool() || e.Type() != 0 || e.Value() != nil {
		u.bad("dirty", "KVEntry: name %q value %x int %d bool %v type %d", e.NameBytes(), e.ValueBytes(), e.ValueInt(), e.ValueBool(), e.Type())
	}
	return e
}

func (u *poolUser) releaseEntry(e *encoding.KVEntry) {
	u.o.drop(unsafe.Pointer(e))
	encoding.ReleaseKVEntry(e)
}

// scan uses several scanners and entries at once, on good and bad payloads,
// and abandons some of them half way.
func (u *poolUser) scan() {
	type one struct {
		s     *encoding.KVScanner
		e     *encoding.KVEntry
		want  []ref.KV
		rest  int
		err   error
		i     int
		in    []byte
		count int
	}
	var all []*one
	for k := 1 + u.r.Intn(3); k > 0; k-- {
		kvs := genKVs(u.r, u.r.Intn(5), 30)
		if u.r.Intn(200) == 0 { // long ones stay behind in what is reused
			l := []int{5000, 65536, 70000, 200000}[u.r.Intn(4)]
			kvs = append(kvs, ref.KV{Name: "long", V: ref.Val{T: ref.TBinary, Bytes: make([]byte, l)}}, ref.KV{Name: string(make([]byte, l)), V: ref.Val{T: ref.TInt64, Int: 77}})
			u.r.Shuffle(len(kvs), func(i, j int) { kvs[i], kvs[j] = kvs[j], kvs[i] })
			u.c.Count("long_values", 1)
		}
		x := &one{in: ref.KVs(kvs...), count: -1}
		switch u.r.Intn(4) {
		case 0:
			x.in = hostile(u.r, x.in)
		case 1:
			x.count = u.r.Intn(len(kvs) + 2)
		}
		var rest []byte
		x.want, rest, x.err = ref.ParseKVs(x.in, x.count)
		x.rest = len(rest)
		x.s = encoding.AcquireKVScanner(x.in, x.count)
		u.o.take(unsafe.Pointer(x.s), "KVScanner")
		if x.s.Error() != nil || x.s.RemainingBuf() != len(x.in) {
			u.bad("dirty", "KVScanner: error %v, %d bytes remaining of %d", x.s.Error(), x.s.RemainingBuf(), len(x.in))
		}
		x.e = u.entry()
		all = append(all, x)
	}
	stop := u.r.Intn(8)
	for step := 0; step < 40 && len(all) > 0; step++ {
		x := all[u.r.Intn(len(all))]
		done := false
		if x.s.Next(x.e) {
			if x.i >= len(x.want) {
				u.bad("wrong-result", "extra entry %q, input %x", x.e.NameBytes(), x.in)
				done = true
			} else {
				w := x.want[x.i]
				x.i++
				u.pause()
				if string(x.e.NameBytes()) != w.Name || !entryVal(x.e).Equal(w.V) {
					u.bad("wrong-result", "entry %d: %q %v, want %v", x.i, x.e.NameBytes(), entryVal(x.e), w)
				}
			}
		} else {
			done = true
			if x.i != len(x.want) || (x.s.Error() != nil) != (x.err != nil) {
				u.bad("wrong-result", "ended after %d of %d entries with %v, want %v; input %x", x.i, len(x.want), x.s.Error(), x.err, x.in)
			}
			if x.s.Error() != nil {
				u.c.Count("released_after_error", 1)
			}
		}
		if done || u.r.Intn(8) == stop {
			u.releaseEntry(x.e)
			u.o.drop(unsafe.Pointer(x.s))
			encoding.ReleaseKVScanner(x.s)
			for i := range all {
				if all[i] == x {
					all = append(all[:i], all[i+1:]...)
					break
				}
			}
		}
	}
	for _, x := range all {
		u.releaseEntry(x.e)
		u.o.drop(unsafe.Pointer(x.s))
		encoding.ReleaseKVScanner(x.s)
	}
}

func (u *poolUser) messages() {
	ms := genMsgs(u.r, u.r.Intn(4), 4, 30)
	in := ref.Msgs(ms...)
	if u.r.Intn(3) == 0 {
		in = hostile(u.r, in)
	}
	want, _, partial, werr := ref.ParseMsgs(in)
	s := encoding.AcquireMessageScanner(in)
	u.o.take(unsafe.Pointer(s), "MessageScanner")
	if s.Error() != nil {
		u.bad("dirty", "MessageScanner: error %v", s.Error())
	}
	m := encoding.AcquireMessage()
	u.o.take(unsafe.Pointer(m), "Message")
	if m.KV != nil || len(m.NameBytes()) != 0 {
		u.bad("dirty", "Message: name %q KV %v", m.NameBytes(), m.KV)
	}
	e := u.entry()
	var kv *encoding.KVScanner
	abandon := u.r.Intn(6)
	ended := false
	for i := 0; ; i++ {
		if kv != nil {
			u.o.drop(unsafe.Pointer(kv))
			kv = nil
		}
		if i == abandon+1 {
			break
		}
		if !s.Next(m) {
			ended = true
			if i != len(want) || (s.Error() != nil) != (werr != nil) {
				u.bad("wrong-result", "messages ended after %d of %d with %v, want %v; input %x", i, len(want), s.Error(), werr, in)
			}
			break
		}
		if i >= len(want) {
			u.bad("wrong-result", "extra message %q", m.NameBytes())
			break
		}
		kv = m.KV
		u.o.take(unsafe.Pointer(kv), "KVScanner of a message")
		u.pause()
		if string(m.NameBytes()) != want[i].Name {
			u.bad("wrong-result", "message %d: name %q want %q", i, m.NameBytes(), want[i].Name)
		}
		n := u.r.Intn(len(want[i].Args) + 2)
		for j := 0; j < n; j++ {
			ok := kv.Next(e)
			if ok != (j < len(want[i].Args)) {
				u.bad("wrong-result", "message %d argument %d: Next %v, %v", i, j, ok, kv.Error())
				break
			}
			if !ok {
				if bad := partial && i == len(want)-1; (kv.Error() != nil) != bad {
					u.bad("wrong-result", "message %d: error %v want %v", i, kv.Error(), bad)
				}
				break
			}
			u.pause()
			if string(e.NameBytes()) != want[i].Args[j].Name || !entryVal(e).Equal(want[i].Args[j].V) {
				u.bad("wrong-result", "message %d argument %d: %q %v want %v", i, j, e.NameBytes(), entryVal(e), want[i].Args[j])
			}
		}
	}
	for k := u.r.Intn(4); ended && k > 0; k-- { // the end stays the end
		if s.Next(m) || (s.Error() != nil) != (werr != nil) {
			u.bad("wrong-result", "Next behind the end of %x: error %v want %v", in, s.Error(), werr)
		}
	}
	u.releaseEntry(e)
	u.o.drop(unsafe.Pointer(m))
	encoding.ReleaseMessage(m)
	u.o.drop(unsafe.Pointer(s))
	encoding.ReleaseMessageScanner(s)
}

func (u *poolUser) kvWriter() {
	kvs := genKVs(u.r, 1+u.r.Intn(4), 30)
	size := u.r.Intn(len(ref.KVs(kvs...)) + 8)
	off := 0
	if size > 0 {
		off = u.r.Intn(size)
	}
	buf, buf2 := make([]byte, size), make([]byte, size)
	u.r.Read(buf)
	copy(buf2, buf)
	w := encoding.AcquireKVWriter(buf, off)
	u.o.take(unsafe.Pointer(w), "KVWriter")
	if w.Off() != off || !bytes.Equal(w.Bytes(), buf2[:off]) {
		u.bad("dirty", "KVWriter: off %d want %d", w.Off(), off)
	}
	fresh := encoding.NewKVWriter(buf2, off)
	for _, kv := range kvs {
		e1, e2 := writeKV(w, kv), writeKV(fresh, kv)
		u.pause()
		if (e1 == nil) != (e2 == nil) || !bytes.Equal(w.Bytes(), fresh.Bytes()) || w.Off() != fresh.Off() {
			u.bad("differs-from-fresh", "KVWriter: %v / %v, %x / %x", e1, e2, w.Bytes(), fresh.Bytes())
		}
		if e1 != nil {
			u.c.Count("released_after_error", 1)
			break
		}
	}
	u.o.drop(unsafe.Pointer(w))
	keep := append([]byte(nil), buf...)
	encoding.ReleaseKVWriter(w)
	u.pause()
	if !bytes.Equal(buf, keep) {
		u.bad("written-after-release", "KVWriter buffer changed")
	}
}

func (u *poolUser) actionWriter() {
	size := u.r.Intn(60)
	off := 0
	if size > 0 {
		off = u.r.Intn(size)
	}
	buf, buf2 := make([]byte, size), make([]byte, size)
	u.r.Read(buf)
	copy(buf2, buf)
	w := encoding.AcquireActionWriter(buf, off)
	u.o.take(unsafe.Pointer(w), "ActionWriter")
	if w.Off() != off || !bytes.Equal(w.Bytes(), buf2[:off]) {
		u.bad("dirty", "ActionWriter: off %d want %d", w.Off(), off)
	}
	fresh := encoding.NewActionWriter(buf2, off)
	for k := u.r.Intn(5); k > 0; k-- {
		s := genStep(u.r, 40, true)
		e1, e2 := s.do(w), s.do(fresh)
		u.pause()
		if (e1 == nil) != (e2 == nil) || !bytes.Equal(w.Bytes(), fresh.Bytes()) || w.Off() != fresh.Off() {
			u.bad("differs-from-fresh", "ActionWriter %v: %v / %v, %x / %x", s, e1, e2, w.Bytes(), fresh.Bytes())
		}
	}
	u.o.drop(unsafe.Pointer(w))
	keep := append([]byte(nil), buf...)
	encoding.ReleaseActionWriter(w)
	u.pause()
	if !bytes.Equal(buf, keep) {
		u.bad("written-after-release", "ActionWriter buffer changed")
	}
}

func TestC07(t *testing.T) {
	c := mon.Start(t, "C07", "sessions with every acquire function on many goroutines at once: several objects held together, hostile payloads, refused writes, objects abandoned half way, garbage collections in between. Evaluations are whole sessions; non-trivial: distinct (goroutine, session kind, seed).")
	defer c.Finish()
	o := &owners{held: map[unsafe.Pointer]string{}, seen: map[unsafe.Pointer]int{}, c: c, off: os.Getenv("VERIF_NOTABLE") != ""}
	workers := 16
	rounds := c.N(4000, 120000)
	var sessions atomic.Int64
	var wg sync.WaitGroup
	c.Case("concurrent sessions on all pools, %d goroutines, seed %d", workers, c.Seed)
	for i := 0; i < workers; i++ {
		wg.Add(1)
		go func(i int) {
			defer wg.Done()
			u := &poolUser{c: c, o: o, r: rand.New(rand.NewSource(c.Seed + int64(i)*104729)), id: i}
			for k := 0; k < rounds && !c.Stop() && c.TimeLeft(); k++ {
				seed := u.r.Int63()
				u.r.Seed(seed)
				kind := k % 4
				c.Guard("panic", fmt.Sprintf("session kind %d seed %d", kind, seed), func() {
					[]func(){u.scan, u.messages, u.kvWriter, u.actionWriter}[kind]()
				})
				sessions.Add(1)
				c.EvalHash(uint64(seed)<<2 | uint64(kind) | 1<<63)
				if i == 0 && k%500 == 0 {
					runtime.GC()
					c.Count("collections", 1)
				}
			}
		}(i)
	}
	wg.Wait()
	c.Count("sessions", int(sessions.Load()))
	c.Max("max_distinct_objects", len(o.seen))
	c.Sample("16 goroutines x %d sessions: scanners on hostile payloads, message scanners abandoned half way, refused writes", rounds)
}
