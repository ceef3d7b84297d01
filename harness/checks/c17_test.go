package checks

import (
	"bytes"
	"fmt"
	"math/rand"
	"net/netip"
	"runtime"
	"testing"

	"github.com/dropmorepackets/haproxy-go/peers/sticktable"

	"verif/mon"
	"verif/ref"
)

// allocated runs fn and returns how many bytes it allocated.
func allocated(fn func()) uint64 {
	var a, b runtime.MemStats
	runtime.ReadMemStats(&a)
	fn()
	runtime.ReadMemStats(&b)
	return b.TotalAlloc - a.TotalAlloc
}

// oddDict makes a dictionary entry whose lengths or id are often wrong.
func oddDict(r *rand.Rand) []byte {
	id := []uint64{0, 0, 1, 2, 239, 240, 1 << 40}[r.Intn(7)]
	body := ref.PutVarint(nil, id)
	if r.Intn(4) > 0 {
		val := genBytes(r, r.Intn(12))
		n := len(val)
		if r.Intn(2) == 0 {
			n += r.Intn(7) - 3
		}
		body = append(ref.PutVarint(body, uint64(max(n, 0))), val...)
	}
	n := len(body)
	if r.Intn(3) == 0 {
		n += r.Intn(7) - 3
	}
	return append(ref.PutVarint(nil, uint64(max(n, 0))), body...)
}

func TestC17(t *testing.T) {
	c := mon.Start(t, "C17", "encodings of generated definitions and updates truncated at every offset, mutated, and random bytes, decoded with valid and invalid definitions (all key types 0..9 and extreme ones, all key sizes); encoding into buffers of every size up to the need; allocation metered per hostile input. Non-trivial: distinct input.")
	defer c.Finish()
	r := c.Rng
	metered := 0

	meter := func(cas string, n int, fn func()) {
		// metering costs a stop of the world, so it is sampled
		if metered++; metered%7 != 0 {
			c.Guard("panic", cas, fn)
			return
		}
		got := allocated(func() { c.Guard("panic", cas, fn) })
		c.Max("max_allocated_bytes", int(got))
		c.Count("metered_calls", 1)
		if got > uint64(200000+400*n) {
			c.Violate("allocation", cas, "%d bytes allocated while decoding %d bytes", got, n)
		}
	}
	def := func(b []byte) {
		in := fenced(r, b)
		cas := fmt.Sprintf("definition bytes %x", in)
		c.Case("%s", cas)
		meter(cas, len(in), func() {
			want, n, unknown, werr := ref.ParseDef(in)
			var out sticktable.Definition
			got, err := out.Unmarshal(in)
			if unknown {
				return // data types the reference does not know
			}
			if werr != nil {
				if err == nil {
					c.Violate("invented-definition", cas, "decoded %s (%d bytes) from truncated content", defString(refDef(&out)), got)
				}
				c.Count("rejected_definitions", 1)
			} else if err != nil {
				c.Violate("refused-definition", cas, "%v, want %s", err, defString(want))
			} else if got != n || defString(refDef(&out)) != defString(want) {
				c.Violate("wrong-definition", cas, "n=%d want %d\n got %s\nwant %s", got, n, defString(refDef(&out)), defString(want))
			} else {
				c.Count("accepted_definitions", 1)
			}
		})
		c.EvalHash(hashBytes(in))
	}
	upd := func(d ref.Def, hasID, hasExp bool, b []byte) {
		in := fenced(r, b)
		cas := fmt.Sprintf("update bytes %x id %v exp %v of %s", in, hasID, hasExp, defString(d))
		c.Case("%s", cas)
		meter(cas, len(in), func() {
			want, n, werr := ref.ParseUpdate(d, hasID, hasExp, in)
			out := sticktable.EntryUpdate{StickTable: libDef(d), WithLocalUpdateID: hasID, WithExpiry: hasExp}
			got, err := out.Unmarshal(in)
			if werr != nil {
				if err == nil {
					u, _ := refUpdate(&out)
					c.Violate("invented-update", cas, "decoded %s (%d bytes) although %v", updString(u), got, werr)
				}
				c.Count("rejected_updates", 1)
				return
			}
			if err != nil {
				c.Violate("refused-update", cas, "%v, want %s", err, updString(want))
				return
			}
			u, cerr := refUpdate(&out)
			if cerr != nil || got != n || updString(u) != updString(want) {
				c.Violate("wrong-update", cas, "n=%d want %d %v\n got %s\nwant %s", got, n, cerr, updString(u), updString(want))
			}
			c.Count("accepted_updates", 1)
		})
		c.EvalHash(hashBytes(in) ^ hashBytes([]byte(defString(d))) | 1)
	}
	// encode into every destination size
	encode := func(cas string, want []byte, marshal func([]byte) (int, error)) {
		lo := 0
		if len(want) > 120 && r.Intn(4) > 0 {
			lo = len(want) - 60
		}
		for size := lo; size <= len(want)+2; size++ {
			back := bytes.Repeat([]byte{0xC3}, size+24)
			dst := back[8 : 8+size : size+20]
			cs := fmt.Sprintf("%s into %d of %d bytes", cas, size, len(want))
			c.Guard("panic", cs, func() {
				n, err := marshal(dst)
				if size < len(want) {
					if err == nil {
						c.Violate("truncated-silently", cs, "n=%d, no error", n)
					}
					c.Count("short_buffers_refused", 1)
				} else if err != nil || n != len(want) || !bytes.Equal(dst[:n], want) {
					c.Violate("wrong-encoding", cs, "n=%d err=%v\n got %x\nwant %x", n, err, dst, want)
				}
				for i, x := range back {
					if (i < 8 || i >= 8+size) && x != 0xC3 {
						c.Violate("written-outside", cs, "byte %d", i-8)
						return
					}
				}
			})
			c.EvalHash(hashBytes(want) + uint64(size))
		}
	}

	keyTypes := []int{0, 1, 2, 3, 4, 5, 6, 7, 8, 9, 255, 1 << 31, 1 << 40, -1, -1 << 63}
	keyLens := []uint64{0, 1, 3, 4, 5, 15, 16, 17, 255, 4096, 1 << 31, 1 << 32, 1 << 62, 1<<63 - 1, 1 << 63, 1<<64 - 1}
	for _, kt := range keyTypes {
		for _, kl := range keyLens {
			d := ref.Def{ID: 1, Name: "x", KeyType: kt, KeyLen: kl, Types: []ref.DT{{Type: 1}}}
			for _, n := range []int{0, 1, 3, 4, 5, 8, 15, 16, 17, 40} {
				b := make([]byte, n)
				r.Read(b)
				upd(d, false, false, b)
				upd(d, true, true, b)
			}
		}
	}
	c.Exhaustive("15 key types x 16 key sizes x 10 input lengths")
	for i := 0; i < c.N(120, 6000) && !c.Stop() && c.TimeLeft(); i++ {
		d := genDef(r, 1+r.Intn(8))
		full := d.Bytes()
		for k := 0; k <= len(full); k++ {
			def(full[:k])
		}
		u := genUpdate(r, d)
		fu := u.Bytes()
		step := 1 + len(fu)/300
		for k := 0; k <= len(fu); k += step {
			upd(d, u.HasID, u.HasExp, fu[:k])
		}
		upd(d, u.HasID, u.HasExp, fu)
		for k := 0; k < 40; k++ {
			def(hostile(r, full))
			upd(d, u.HasID, u.HasExp, hostile(r, fu))
			b := make([]byte, r.Intn(30))
			r.Read(b)
			def(b)
			upd(d, r.Intn(2) == 0, r.Intn(2) == 0, b)
		}
		ld := libDef(d)
		encode("definition "+defString(d), full, ld.Marshal)
		encode("update "+updString(u)+" of "+defString(d), fu, libUpdate(ld, u).Marshal)
		if i < 2 {
			c.Sample("%s truncated at each of %d offsets, 40 mutations", updString(u), len(fu))
		}
	}
	// long ones
	for _, l := range []int{4000, 4097, 9000, 16384, 65536, 70000, 300000} {
		d := ref.Def{ID: 1, Name: string(genBytes(r, l)), KeyType: ref.KeyString, KeyLen: uint64(l + 1), Types: []ref.DT{{Type: 4}, {Type: 19}}}
		u := ref.Update{Key: ref.Key{Type: ref.KeyString, B: genBytes(r, l)}, Data: []ref.DVal{{Kind: ref.KUint, I: 9}, {Kind: ref.KDict, ID: 7, Val: genBytes(r, l)}}}
		full, fu := d.Bytes(), u.Bytes()
		def(full)
		upd(d, false, false, fu)
		for range 3 {
			def(full[:r.Intn(len(full))])
			upd(d, false, false, fu[:r.Intn(len(fu))])
		}
	}
	// single values of every kind: truncation, dictionary bodies
	for i := 0; i < c.N(3000, 100000) && !c.Stop() && c.TimeLeft(); i++ {
		t := ref.DataTypes[r.Intn(len(ref.DataTypes))]
		kind := ref.DataKinds[t]
		b := ref.AppendDVal(nil, genDVal(r, kind))
		switch {
		case kind == ref.KDict && r.Intn(2) == 0:
			b = oddDict(r)
		case r.Intn(2) == 0:
			b = hostile(r, b)
		default:
			b = b[:r.Intn(len(b)+1)]
		}
		in := fenced(r, b)
		cas := fmt.Sprintf("data type %d bytes %x", t, in)
		c.Case("%s", cas)
		meter(cas, len(in), func() {
			want, n, werr := ref.ParseDVal(in, kind)
			m := sticktable.DataType(t).New()
			got, err := m.Unmarshal(in)
			switch {
			case werr != nil && err == nil:
				v, _ := refVal(m)
				c.Violate("invented-value", cas, "decoded %v", v)
			case werr == nil && err != nil:
				c.Violate("refused-value", cas, "%v, want %v", err, want)
			case werr == nil:
				if v, cerr := refVal(m); cerr != nil || !v.Equal(want) || got != n {
					c.Violate("wrong-value", cas, "%v (%d bytes) want %v (%d bytes)", v, got, want, n)
				}
			}
		})
		c.EvalHash(hashBytes(in) + uint64(t))
	}
	// malformed dictionary entries between other data
	for i := 0; i < c.N(2000, 50000) && !c.Stop() && c.TimeLeft(); i++ {
		d := genDef(r, 3)
		d.Types = []ref.DT{{Type: 1}, {Type: 19}, {Type: 20}}
		u := ref.Update{Key: genPKey(r, d), Data: []ref.DVal{genDVal(r, ref.KUint)}}
		b := append(u.Bytes(), oddDict(r)...)
		upd(d, false, false, ref.AppendDVal(b, genDVal(r, ref.KUint)))
	}
	// values that cannot be encoded for their table
	big := make([]byte, 1<<16)
	for _, x := range []struct {
		what string
		k    sticktable.MapKey
		size uint64
	}{
		{"zero ipv4 key", new(sticktable.IPv4AddressKey), 4},
		{"zero ipv6 key", new(sticktable.IPv6AddressKey), 16},
		{"ipv6 address as ipv4 key", func() sticktable.MapKey {
			v := sticktable.IPv4AddressKey(netip.MustParseAddr("2001:db8::1"))
			return &v
		}(), 4},
		{"ipv4 key of size 16", func() sticktable.MapKey { v := sticktable.IPv4AddressKey(netip.MustParseAddr("1.2.3.4")); return &v }(), 16},
		{"ipv6 key of size 4", func() sticktable.MapKey { v := sticktable.IPv6AddressKey(netip.MustParseAddr("::1")); return &v }(), 4},
		{"ipv6 key of size 17", func() sticktable.MapKey { v := sticktable.IPv6AddressKey(netip.MustParseAddr("::1")); return &v }(), 17},
		{"binary key too long", func() sticktable.MapKey { v := sticktable.BinaryKey("12345"); return &v }(), 4},
		{"binary key too short", func() sticktable.MapKey { v := sticktable.BinaryKey("123"); return &v }(), 4},
		{"empty binary key", new(sticktable.BinaryKey), 4},
		{"binary key of extreme size", func() sticktable.MapKey { v := sticktable.BinaryKey("123"); return &v }(), 1<<64 - 1},
	} {
		c.Case("%s", x.what)
		c.Guard("panic", x.what, func() {
			if n, err := x.k.Marshal(big, x.size); err == nil {
				c.Violate("unencodable-accepted", x.what, "n=%d", n)
			}
		})
		c.Eval(x.what)
	}
	for _, v := range [][]byte{{1}, []byte("abc")} {
		if n, err := (&sticktable.DictData{Value: v}).Marshal(big); err == nil {
			c.Violate("unencodable-accepted", "dictionary value without an id", "n=%d", n)
		}
	}
	// short buffers at every field, whatever its size
	for i := 0; i < c.N(400, 20000) && !c.Stop() && c.TimeLeft(); i++ {
		d := genDef(r, r.Intn(4))
		d.KeyLen = genInt(r)
		if r.Intn(2) == 0 {
			d.Name = genName(r, 8)
		}
		if r.Intn(2) == 0 {
			d.Expiry = uint64(r.Intn(240))
		}
		encode("definition "+defString(d), d.Bytes(), libDef(d).Marshal)
		v := genDVal(r, ref.DataKinds[ref.DataTypes[r.Intn(len(ref.DataTypes))]])
		encode(fmt.Sprintf("value %v", v), ref.AppendDVal(nil, v), libVal(v).Marshal)
		k := genPKey(r, genDef(r, 0))
		kd := ref.Def{KeyType: k.Type, KeyLen: uint64(len(k.B))}
		ku := ref.Update{Key: k}
		encode(fmt.Sprintf("key %v", k), ku.Bytes(), func(b []byte) (int, error) { return libKey(k).Marshal(b, kd.KeyLen) })
	}
	// key and data types that do not exist
	for i := -3; i < 70; i++ {
		cas := fmt.Sprintf("type %d", i)
		c.Guard("panic", cas, func() {
			_ = sticktable.KeyType(i).New()
			_ = sticktable.DataType(i).New()
			_ = sticktable.KeyType(i).String()
			_ = sticktable.DataType(i).String()
		})
		c.Eval(cas)
	}
}
