package checks

import (
	"bytes"
	"fmt"
	"net/netip"
	"testing"

	"github.com/dropmorepackets/haproxy-go/pkg/encoding"

	"verif/mon"
	"verif/ref"
)

func addrOf(b []byte) netip.Addr {
	a, _ := netip.AddrFromSlice(b)
	return a
}

// writeKV performs the typed write of one entry.
func writeKV(w *encoding.KVWriter, kv ref.KV) error {
	switch kv.V.T {
	case ref.TNull:
		return w.SetNull(kv.Name)
	case ref.TBool:
		return w.SetBool(kv.Name, kv.V.Bool)
	case ref.TInt32:
		return w.SetInt32(kv.Name, int32(kv.V.Int))
	case ref.TUint32:
		return w.SetUInt32(kv.Name, uint32(kv.V.Int))
	case ref.TInt64:
		return w.SetInt64(kv.Name, int64(kv.V.Int))
	case ref.TUint64:
		return w.SetUInt64(kv.Name, kv.V.Int)
	case ref.TIPv4, ref.TIPv6:
		return w.SetAddr(kv.Name, addrOf(kv.V.Bytes))
	case ref.TString:
		return w.SetString(kv.Name, string(kv.V.Bytes))
	case ref.TBinary:
		return w.SetBinary(kv.Name, kv.V.Bytes)
	}
	panic("bad type")
}

// entryVal reads a scanned entry through the typed accessors.
func entryVal(e *encoding.KVEntry) ref.Val {
	v := ref.Val{T: byte(e.Type())}
	switch v.T {
	case ref.TBool:
		v.Bool = e.ValueBool()
	case ref.TInt32, ref.TUint32, ref.TInt64, ref.TUint64:
		v.Int = uint64(e.ValueInt())
	case ref.TIPv4, ref.TIPv6:
		v.Bytes = e.ValueAddr().AsSlice()
		if !bytes.Equal(v.Bytes, e.ValueBytes()) {
			v.T = 0xEE
		}
	case ref.TString, ref.TBinary:
		v.Bytes = append([]byte(nil), e.ValueBytes()...)
	}
	return v
}

// genericVal reads a scanned entry through Value().
func genericVal(e *encoding.KVEntry) (ref.Val, error) {
	v := ref.Val{T: byte(e.Type())}
	ok := true
	switch x := e.Value().(type) {
	case nil:
		ok = v.T == ref.TNull
	case bool:
		ok, v.Bool = v.T == ref.TBool, x
	case int32:
		ok, v.Int = v.T == ref.TInt32, uint64(int64(x))
	case uint32:
		ok, v.Int = v.T == ref.TUint32, uint64(x)
	case int64:
		ok, v.Int = v.T == ref.TInt64, uint64(x)
	case uint64:
		ok, v.Int = v.T == ref.TUint64, x
	case netip.Addr:
		ok, v.Bytes = v.T == ref.TIPv4 && x.Is4() || v.T == ref.TIPv6 && x.Is6(), x.AsSlice()
	case string:
		ok, v.Bytes = v.T == ref.TString, []byte(x)
	case []byte:
		ok, v.Bytes = v.T == ref.TBinary, append([]byte(nil), x...)
	default:
		ok = false
	}
	if !ok {
		return v, fmt.Errorf("Value() of type %d returned %T", v.T, e.Value())
	}
	return v, nil
}

// normVal makes a value comparable with what Value() can express for the type.
func normVal(v ref.Val) ref.Val {
	switch v.T {
	case ref.TInt32:
		v.Int = uint64(int64(int32(v.Int)))
	case ref.TUint32:
		v.Int = uint64(uint32(v.Int))
	}
	return v
}

// checkNames compares all name comparison methods with byte equality.
func checkNames(e *encoding.KVEntry, name string, others ...string) error {
	if string(e.NameBytes()) != name {
		return fmt.Errorf("NameBytes %q want %q", e.NameBytes(), name)
	}
	for _, o := range append(others, name) {
		want := o == name
		if e.NameEquals(o) != want || e.NameEqualBytes([]byte(o)) != want || e.NameEqualUnsafe(o) != want {
			return fmt.Errorf("name %q vs %q: NameEquals=%v NameEqualBytes=%v NameEqualUnsafe=%v want %v", name, o,
				e.NameEquals(o), e.NameEqualBytes([]byte(o)), e.NameEqualUnsafe(o), want)
		}
	}
	return nil
}

func nearNames(name string) []string {
	out := []string{"", name + "x", name + "\x00", "max-frame-size"}
	if len(name) > 0 {
		out = append(out, name[1:], name[:len(name)-1])
		b := []byte(name)
		b[len(b)-1] ^= 1
		out = append(out, string(b))
		b = []byte(name)
		b[0] ^= 0x20
		out = append(out, string(b))
	}
	return out
}

// scanAll scans and compares with the expected entries.
func scanAll(s *encoding.KVScanner, want []ref.KV) error {
	e := encoding.AcquireKVEntry()
	defer encoding.ReleaseKVEntry(e)
	i := 0
	for s.Next(e) {
		if i >= len(want) {
			return fmt.Errorf("extra entry %q", e.NameBytes())
		}
		w := want[i]
		if got := entryVal(e); !got.Equal(w.V) {
			return fmt.Errorf("entry %d: typed value %v want %v", i, got, w)
		}
		got, err := genericVal(e)
		if err != nil {
			return fmt.Errorf("entry %d: %v", i, err)
		}
		if !normVal(got).Equal(normVal(w.V)) {
			return fmt.Errorf("entry %d: Value() %v want %v", i, got, w)
		}
		if err := checkNames(e, w.Name, nearNames(w.Name)...); err != nil {
			return fmt.Errorf("entry %d: %v", i, err)
		}
		i++
	}
	if s.Error() != nil {
		return fmt.Errorf("error after %d entries: %v", i, s.Error())
	}
	if i != len(want) {
		return fmt.Errorf("%d entries, want %d", i, len(want))
	}
	if s.Next(e) || s.Error() != nil {
		return fmt.Errorf("scanner does not stay at the end: %v", s.Error())
	}
	return nil
}

func TestC02(t *testing.T) {
	c := mon.Start(t, "C02", "histories of typed writes (all 10 types, name/value lengths 0..~2300 around encoding boundaries, invalid addresses) into buffers of every size from 0 to need+2 or a random size, continued after refused writes; then scanned back. Non-trivial: distinct history with at least one entry.")
	defer c.Finish()
	r := c.Rng

	run := func(kvs []ref.KV, invalidAt map[int]bool, off, size int, desc string) {
		cas := desc
		c.Guard("panic", cas, func() {
			backing := bytes.Repeat([]byte{0x5A}, off+size+8)
			buf := backing[: off+size : off+size+8]
			for i := 0; i < off; i++ {
				buf[i] = byte(i) ^ 0x33
			}
			w := encoding.NewKVWriter(buf, off)
			if r.Intn(3) == 0 {
				w = encoding.AcquireKVWriter(buf, off)
				defer encoding.ReleaseKVWriter(w)
			}
			model := append([]byte(nil), buf[:off]...)
			var written []ref.KV
			for i, kv := range kvs {
				var err error
				need := ref.AppendKV(nil, kv)
				if invalidAt[i] {
					err = w.SetAddr(kv.Name, netip.Addr{})
					if err == nil {
						c.Violate("invalid-address-accepted", cas, "step %d", i)
					}
				} else {
					err = writeKV(w, kv)
				}
				fits := !invalidAt[i] && len(model)+len(need) <= len(buf)
				if fits {
					if err != nil {
						c.Violate("refused-although-fitting", cas, "step %d %v: %v (off %d need %d size %d)", i, kv, err, len(model), len(need), len(buf))
						return
					}
					model = append(model, need...)
					written = append(written, kv)
				} else if err == nil {
					c.Violate("accepted-although-too-big", cas, "step %d %v (off %d need %d size %d)", i, kv, len(model), len(need), len(buf))
					return
				} else {
					c.Count("refused_writes", 1)
				}
				if w.Off() != len(model) || !bytes.Equal(w.Bytes(), model) {
					c.Violate("not-all-or-nothing", cas, "after step %d %v (err %v): off %d want %d\n got %x\nwant %x", i, kv, err, w.Off(), len(model), tailOf(w.Bytes()), tailOf(model))
					return
				}
				for k := off + size; k < len(backing); k++ {
					if backing[k] != 0x5A {
						c.Violate("write-behind-buffer", cas, "step %d", i)
						return
					}
				}
				c.Count("writes", 1)
			}
			// scan back
			n := -1
			if r.Intn(2) == 0 {
				n = len(written)
			}
			body := append([]byte(nil), w.Bytes()[off:]...)
			sc := encoding.NewKVScanner(body, n)
			if r.Intn(2) == 0 {
				sc = encoding.AcquireKVScanner(body, n)
				defer encoding.ReleaseKVScanner(sc)
			}
			if err := scanAll(sc, written); err != nil {
				c.Violate("scan-back", cas, "%v (payload %x)", err, tailOf(body))
			}
			// A scanner limited to fewer entries stops there and leaves the rest.
			if len(written) > 1 {
				k := r.Intn(len(written))
				sc := encoding.NewKVScanner(body, k)
				if err := scanAll(sc, written[:k]); err != nil {
					c.Violate("scan-limited", cas, "limit %d: %v", k, err)
				}
				if rest := ref.KVs(written[k:]...); sc.RemainingBuf() != len(rest) {
					c.Violate("scan-limited", cas, "limit %d: RemainingBuf %d want %d", k, sc.RemainingBuf(), len(rest))
				}
			}
			c.Count("scanned", len(written))
		})
	}

	// Every destination size around the need, for every type and boundary length.
	for typ := byte(0); typ < 10; typ++ {
		for _, nl := range []int{0, 1, 5, 239, 240, 241} {
			for _, vl := range []int{0, 1, 239, 240, 241, 2287, 2288} {
				if typ != ref.TString && typ != ref.TBinary && vl > 1 {
					continue
				}
				kv := ref.KV{Name: string(genBytes(r, nl)), V: genVal(r, typ, 8)}
				if typ >= ref.TString {
					kv.V.Bytes = genBytes(r, vl)
				}
				need := len(ref.AppendKV(nil, kv))
				lo := 0
				if need > 40 {
					lo = need - 12
				}
				for size := lo; size <= need+2; size++ {
					desc := fmt.Sprintf("type %d name %d value %d size %d/%d", typ, nl, vl, size, need)
					run([]ref.KV{kv}, nil, r.Intn(3), size, desc)
					c.Eval(desc)
				}
				for _, size := range []int{1, nl, nl + 1, nl + 2, nl + 3} {
					run([]ref.KV{kv, {Name: "", V: ref.Val{}}}, nil, 0, size, fmt.Sprintf("type %d name %d value %d size %d", typ, nl, vl, size))
				}
			}
		}
	}
	// very long names and values, and more entries than a byte can count
	for _, l := range []int{2287, 2288, 2289, 65535, 65536, 70000, 264432, 1<<20 + 3} {
		for k := 0; k < 3; k++ {
			kvs := genKVs(r, 1+r.Intn(3), 20)
			big := ref.KV{Name: "k", V: ref.Val{T: byte(ref.TString + k%2), Bytes: genBytes(r, l)}}
			if k == 2 {
				big = ref.KV{Name: string(genBytes(r, l)), V: genAnyVal(r, 20)}
			}
			kvs = append(kvs, big)
			r.Shuffle(len(kvs), func(a, b int) { kvs[a], kvs[b] = kvs[b], kvs[a] })
			need := len(ref.KVs(kvs...))
			for _, size := range []int{need, need + 7, need - 1, len(ref.AppendKV(nil, big)) - 1} {
				desc := fmt.Sprintf("large %d/%d size %d/%d", l, k, size, need)
				run(kvs, nil, r.Intn(3), size, desc)
				c.Eval(desc)
			}
		}
	}
	for _, n := range []int{100, 127, 128, 129, 255, 256, 257, 1000, 2500} {
		kvs := genKVs(r, n, 10)
		desc := fmt.Sprintf("%d entries", n)
		run(kvs, map[int]bool{r.Intn(n): true}, 0, len(ref.KVs(kvs...)), desc)
		c.Eval(desc)
	}
	n := c.N(6000, 200000)
	for i := 0; i < n && !c.Stop() && c.TimeLeft(); i++ {
		maxLen := 40
		if i%7 == 0 {
			maxLen = 2400
		}
		kvs := genKVs(r, 1+r.Intn(8), maxLen)
		inv := map[int]bool{}
		if r.Intn(3) == 0 {
			inv[r.Intn(len(kvs))] = true
		}
		need := len(ref.KVs(kvs...))
		size := need + r.Intn(6)
		if r.Intn(2) == 0 {
			size = r.Intn(need + 4)
		}
		desc := fmt.Sprintf("seed %d case %d: %v invalid %v size %d/%d", c.Seed, i, kvs, inv, size, need)
		run(kvs, inv, r.Intn(20), size, desc)
		c.Eval(desc)
		if i < 3 {
			c.Sample("%s", desc)
		}
	}
}

func tailOf(b []byte) []byte {
	if len(b) > 400 {
		return b[len(b)-400:]
	}
	return b
}
