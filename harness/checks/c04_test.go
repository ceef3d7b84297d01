package checks

import (
	"bytes"
	"fmt"
	"math/rand"
	"testing"
	"unsafe"

	"github.com/dropmorepackets/haproxy-go/pkg/encoding"

	"verif/mon"
	"verif/ref"
)

// within reports whether s lies inside b (empty slices expose nothing).
func within(s, b []byte) bool {
	if len(s) == 0 {
		return true
	}
	if len(b) == 0 {
		return false
	}
	s0, b0 := uintptr(unsafe.Pointer(&s[0])), uintptr(unsafe.Pointer(&b[0]))
	return s0 >= b0 && s0+uintptr(len(s)) <= b0+uintptr(len(b))
}

// fenced copies b into the middle of a bigger array, so that everything behind
// it is spare capacity holding plausible protocol bytes.
func fenced(r *rand.Rand, b []byte) []byte {
	pre := r.Intn(8)
	back := make([]byte, pre+len(b)+300)
	fill := byte(r.Intn(256))
	for i := range back {
		back[i] = fill
		if fill&1 == 1 {
			back[i] = byte(i % 11)
		}
	}
	copy(back[pre:], b)
	return back[pre : pre+len(b)]
}

// hostileKVs compares a scan of b with the reference parser.
func hostileKVs(b []byte, count int, pooled bool) error {
	want, rest, werr := ref.ParseKVs(b, count)
	sc := encoding.NewKVScanner(b, count)
	if pooled {
		sc = encoding.AcquireKVScanner(b, count)
		defer encoding.ReleaseKVScanner(sc)
	}
	if err := hostileScan(sc, b, want, werr); err != nil {
		return err
	}
	if werr == nil && sc.RemainingBuf() != len(rest) {
		return fmt.Errorf("RemainingBuf %d want %d", sc.RemainingBuf(), len(rest))
	}
	return nil
}

func hostileScan(sc *encoding.KVScanner, b []byte, want []ref.KV, werr error) error {
	e := encoding.AcquireKVEntry()
	defer encoding.ReleaseKVEntry(e)
	i := 0
	for sc.Next(e) {
		if i >= len(want) {
			return fmt.Errorf("entry %d %q delivered from malformed or missing data", i, e.NameBytes())
		}
		if sc.Error() != nil {
			return fmt.Errorf("entry %d delivered together with error %v", i, sc.Error())
		}
		if !within(e.NameBytes(), b) || !within(e.ValueBytes(), b) {
			return fmt.Errorf("entry %d exposes bytes outside of the input", i)
		}
		if string(e.NameBytes()) != want[i].Name {
			return fmt.Errorf("entry %d: name %q want %q", i, e.NameBytes(), want[i].Name)
		}
		if got := entryVal(e); !got.Equal(want[i].V) {
			return fmt.Errorf("entry %d: %v want %v", i, got, want[i].V)
		}
		if g, err := genericVal(e); err != nil || !normVal(g).Equal(normVal(want[i].V)) {
			return fmt.Errorf("entry %d: Value() %v (%v) want %v", i, g, err, want[i].V)
		}
		i++
	}
	if i != len(want) {
		return fmt.Errorf("%d entries (error %v), want %d", i, sc.Error(), len(want))
	}
	for k := 0; k < 3; k++ {
		if (sc.Error() != nil) != (werr != nil) {
			return fmt.Errorf("after %d entries and %d more calls error %v, want %v", i, k, sc.Error(), werr)
		}
		if sc.Next(e) {
			return fmt.Errorf("entry delivered after the end")
		}
	}
	return nil
}

// hostileMsgs compares a message scan with the reference; read says how many
// arguments of message i are read by the caller (-1: all).
func hostileMsgs(b []byte, pooled bool, read func(i int) int) error {
	want, _, partial, werr := ref.ParseMsgs(b)
	sc := encoding.NewMessageScanner(b)
	if pooled {
		sc = encoding.AcquireMessageScanner(b)
		defer encoding.ReleaseMessageScanner(sc)
	}
	m := encoding.AcquireMessage()
	defer encoding.ReleaseMessage(m)
	e := encoding.AcquireKVEntry()
	defer encoding.ReleaseKVEntry(e)
	i := 0
	for sc.Next(m) {
		if i >= len(want) {
			return fmt.Errorf("message %d %q delivered from malformed or missing data", i, m.NameBytes())
		}
		if !within(m.NameBytes(), b) || string(m.NameBytes()) != want[i].Name {
			return fmt.Errorf("message %d: name %q want %q", i, m.NameBytes(), want[i].Name)
		}
		k := read(i)
		if k < 0 {
			var err error
			if partial && i == len(want)-1 {
				err = werr
			}
			if err := hostileScan(m.KV, b, want[i].Args, err); err != nil {
				return fmt.Errorf("message %d: %v", i, err)
			}
		} else {
			for j := 0; j < k && j < len(want[i].Args); j++ {
				if !m.KV.Next(e) || string(e.NameBytes()) != want[i].Args[j].Name || !entryVal(e).Equal(want[i].Args[j].V) {
					return fmt.Errorf("message %d argument %d: %v", i, j, m.KV.Error())
				}
			}
		}
		i++
	}
	if i != len(want) {
		return fmt.Errorf("%d messages (error %v), want %d", i, sc.Error(), len(want))
	}
	for k := 0; k < 3; k++ {
		if (sc.Error() != nil) != (werr != nil) {
			return fmt.Errorf("after %d messages and %d more calls error %v, want %v", i, k, sc.Error(), werr)
		}
		if sc.Next(m) {
			return fmt.Errorf("message delivered after the end")
		}
	}
	return nil
}

func TestC04(t *testing.T) {
	c := mon.Start(t, "C04", "valid message/KV payloads truncated at every offset; valid payloads mutated (flips, huge lengths, inserts, deletions); random bytes; counts from negative to above what is there; spare capacity filled with plausible bytes. Non-trivial: distinct input of at least one byte.")
	defer c.Finish()
	r := c.Rng
	kv := func(b []byte, count int) {
		in := fenced(r, b)
		keep := append([]byte(nil), in...)
		cas := fmt.Sprintf("KVScanner count %d input %x", count, in)
		c.Case("%s", cas)
		c.Guard("panic", cas, func() {
			if err := hostileKVs(in, count, r.Intn(2) == 0); err != nil {
				c.Violate("kv-scan", cas, "%v", err)
			}
		})
		if !bytes.Equal(keep, in) {
			c.Violate("input-modified", cas, "now %x", in)
		}
		_, _, werr := ref.ParseKVs(in, count)
		if werr != nil {
			c.Count("malformed_kv_inputs", 1)
		} else {
			c.Count("wellformed_kv_inputs", 1)
		}
		if len(b) > 0 {
			c.EvalHash(hashBytes(in) + uint64(count)*31)
		} else {
			c.EvalHash(0)
		}
	}
	msg := func(b []byte) {
		in := fenced(r, b)
		cas := fmt.Sprintf("MessageScanner input %x", in)
		c.Case("%s", cas)
		seed := r.Int63()
		for _, mode := range []int{-1, 0, 1, 2} {
			rr := rand.New(rand.NewSource(seed))
			read := func(int) int { return mode }
			if mode == 2 {
				read = func(int) int { return rr.Intn(5) - 1 }
			}
			c.Guard("panic", cas, func() {
				if err := hostileMsgs(in, r.Intn(2) == 0, read); err != nil {
					c.Violate("message-scan", cas, "reading mode %d: %v", mode, err)
				}
			})
		}
		_, _, partial, werr := ref.ParseMsgs(in)
		switch {
		case partial:
			c.Count("messages_with_malformed_arguments", 1)
		case werr != nil:
			c.Count("malformed_message_headers", 1)
		default:
			c.Count("wellformed_message_inputs", 1)
		}
		if len(b) > 0 {
			c.EvalHash(hashBytes(in) ^ 0x77)
		} else {
			c.EvalHash(0)
		}
	}

	// everything up to 2 bytes
	for n := 0; n < 65536+257 && c.Proc() == 0; n++ {
		var b []byte
		switch {
		case n == 0:
		case n <= 256:
			b = []byte{byte(n - 1)}
		default:
			b = []byte{byte((n - 257) >> 8), byte(n - 257)}
		}
		kv(b, []int{-1, 0, 1, 2}[n%4])
		msg(b)
		if c.Stop() {
			return
		}
	}
	c.Exhaustive("message inputs of up to 2 bytes")

	for i := 0; i < c.N(150, 8000) && !c.Stop() && c.TimeLeft(); i++ {
		// truncation at every offset
		ml := 12
		if i%20 == 0 {
			ml = 300
		}
		ms := genMsgs(r, 1+r.Intn(4), 4, ml)
		full := ref.Msgs(ms...)
		kvs := genKVs(r, 1+r.Intn(5), ml)
		fullKV := ref.KVs(kvs...)
		for k := 0; k <= len(full); k++ {
			msg(full[:k])
		}
		for k := 0; k <= len(fullKV); k++ {
			kv(fullKV[:k], -1)
			kv(fullKV[:k], len(kvs)+r.Intn(3)-1)
		}
		if i < 2 {
			c.Sample("messages %v truncated at every of %d offsets", ms, len(full))
		}
		// mutations
		for k := 0; k < 60; k++ {
			h := hostile(r, full)
			msg(h)
			if k < 2 && i == 0 {
				c.Sample("mutated %x", h)
			}
			kv(hostile(r, fullKV), r.Intn(len(kvs)+4)-2)
			b := make([]byte, r.Intn(40))
			r.Read(b)
			for j := range b { // bias towards small values: plausible lengths and types
				if r.Intn(2) == 0 {
					b[j] &= 0x1F
				}
			}
			kv(b, r.Intn(6)-2)
			msg(b)
		}
	}
	// long names and values
	for _, l := range []int{4097, 16384, 65535, 65536, 65537, 70000, 300000, c.N(1<<20+1, 20<<20)} {
		kvs := []ref.KV{{Name: string(genBytes(r, l)), V: ref.Val{T: ref.TInt64, Int: 5}}, {Name: "v", V: ref.Val{T: ref.TBinary, Bytes: genBytes(r, l)}}, {Name: "s", V: ref.Val{T: ref.TString, Bytes: genBytes(r, l)}}}
		full := ref.KVs(kvs...)
		fullM := ref.Msgs(ref.Msg{Name: string(genBytes(r, l)), Args: kvs}, ref.Msg{Name: "after", Args: kvs[:1]})
		kv(full, -1)
		kv(full, 3)
		msg(fullM)
		for range 3 {
			kv(full[:r.Intn(len(full))], -1)
			msg(fullM[:r.Intn(len(fullM))])
		}
	}
	// 255 arguments, and a count that promises more than there is
	many := ref.Msg{Name: "many", Args: genKVs(r, 255, 8)}
	msg(ref.Msgs(many, ref.Msg{Name: "after"}))
	b := ref.AppendBytes(nil, []byte("m"))
	msg(append(b, 255))
}
