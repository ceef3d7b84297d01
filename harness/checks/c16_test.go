package checks

import (
	"bytes"
	"fmt"
	"net/netip"
	"testing"

	"github.com/dropmorepackets/haproxy-go/peers/sticktable"

	"verif/mon"
	"verif/ref"
)

func TestC16(t *testing.T) {
	c := mon.Start(t, "C16", "definitions over all key types and all subsets of size 1 and 2 plus random subsets of the 24 scalar, rate and dictionary data types; all four update forms with boundary values; sequences of values decoded from one buffer. Non-trivial: distinct definition or update.")
	defer c.Finish()
	r := c.Rng
	buf := make([]byte, 1<<20)

	// receivers that are decoded into over and over
	var usedDef sticktable.Definition
	var usedUpd sticktable.EntryUpdate
	usedVal := map[int]sticktable.MapData{}
	usedKey := map[sticktable.KeyType]sticktable.MapKey{}

	def := func(d ref.Def) {
		cas := "definition " + defString(d)
		want := d.Bytes()
		c.Guard("panic", cas, func() {
			l := libDef(d)
			n, err := l.Marshal(buf)
			if err != nil || !bytes.Equal(buf[:n], want) {
				c.Violate("definition-encoding", cas, "n=%d err=%v\n got %x\nwant %x", n, err, buf[:max(n, 0)], want)
			}
			if defString(refDef(l)) != defString(d) {
				c.Violate("changed-by-encoding", cas, "now %s", defString(refDef(l)))
			}
			in := append(append([]byte(nil), want...), genBytes(r, r.Intn(20))...)
			var out sticktable.Definition
			n, err = out.Unmarshal(in)
			if err != nil || n != len(want) || defString(refDef(&out)) != defString(d) {
				c.Violate("definition-decoding", cas, "n=%d want %d err=%v\n got %s", n, len(want), err, defString(refDef(&out)))
			}
			before := defString(refDef(&usedDef))
			n, err = usedDef.Unmarshal(in)
			if err != nil || n != len(want) || defString(refDef(&usedDef)) != defString(d) {
				c.Violate("definition-decoding-used", cas, "n=%d want %d err=%v\n got %s\n was %s", n, len(want), err, defString(refDef(&usedDef)), before)
				usedDef = sticktable.Definition{}
			}
		})
		c.Count("definitions", 1)
		c.Eval(cas)
	}
	upd := func(d ref.Def, u ref.Update) {
		cas := fmt.Sprintf("%s of %s", updString(u), defString(d))
		want := u.Bytes()
		c.Guard("panic", cas, func() {
			ld := libDef(d)
			l := libUpdate(ld, u)
			n, err := l.Marshal(buf)
			if err != nil || !bytes.Equal(buf[:n], want) {
				c.Violate("update-encoding", cas, "n=%d err=%v\n got %x\nwant %x", n, err, buf[:max(n, 0)], want)
			}
			if after, err := refUpdate(l); err != nil || updString(after) != updString(u) {
				c.Violate("changed-by-encoding", cas, "now %s", updString(after))
			}
			if defString(refDef(ld)) != defString(d) {
				c.Violate("changed-by-encoding", cas, "definition now %s", defString(refDef(ld)))
			}
			in := append(append([]byte(nil), want...), genBytes(r, r.Intn(20))...)
			out := sticktable.EntryUpdate{StickTable: ld, WithLocalUpdateID: u.HasID, WithExpiry: u.HasExp}
			n, err = out.Unmarshal(in)
			got, cerr := refUpdate(&out)
			if err != nil || cerr != nil || n != len(want) || updString(got) != updString(u) {
				c.Violate("update-decoding", cas, "n=%d want %d err=%v %v\n got %s", n, len(want), err, cerr, updString(got))
			}
			usedUpd.StickTable, usedUpd.WithLocalUpdateID, usedUpd.WithExpiry = ld, u.HasID, u.HasExp
			usedUpd.LocalUpdateID, usedUpd.Expiry = 0, 0
			n, err = usedUpd.Unmarshal(in)
			got2, cerr2 := refUpdate(&usedUpd)
			if err != nil || cerr2 != nil || n != len(want) || updString(got2) != updString(u) {
				c.Violate("update-decoding-used", cas, "n=%d want %d err=%v %v\n got %s", n, len(want), err, cerr2, updString(got2))
				usedUpd = sticktable.EntryUpdate{}
			}
			enc := want
			if u.HasID {
				enc = enc[4:]
			}
			if u.HasExp {
				enc = enc[4:]
			}
			k := usedKey[ld.KeyType]
			if k == nil {
				k = ld.KeyType.New()
				usedKey[ld.KeyType] = k
			}
			_, err = k.Unmarshal(enc, ld.KeyLength)
			if key, kerr := refKey(k); err != nil || kerr != nil || key.Type != u.Key.Type || !bytes.Equal(key.B, u.Key.B) {
				c.Violate("key-decoding-used", cas, "%v %v: got %v", err, kerr, key)
			}
			// the library's own output decodes to the same, again and again
			n2, err := out.Marshal(buf)
			if err == nil && cerr == nil && !bytes.Equal(buf[:n2], want) {
				c.Violate("update-reencoding", cas, "got %x want %x", buf[:n2], want)
			}
		})
		c.Count("updates", 1)
		c.Eval(cas)
	}

	// definitions with types in any order are not changed either
	for i := 0; i < c.N(500, 20000) && !c.Stop(); i++ {
		d := genDef(r, 8)
		r.Shuffle(len(d.Types), func(i, j int) { d.Types[i], d.Types[j] = d.Types[j], d.Types[i] })
		cas := "unordered definition " + defString(d)
		c.Guard("panic", cas, func() {
			l := libDef(d)
			_, _ = l.Marshal(buf)
			if defString(refDef(l)) != defString(d) {
				c.Violate("changed-by-encoding", cas, "now %s", defString(refDef(l)))
			}
		})
		c.Eval(cas)
	}

	// an IPv4 key given as IPv4-mapped IPv6 address is that IPv4 address
	for i := 0; i < c.N(100, 2000) && !c.Stop(); i++ {
		d := genDef(r, 3)
		d.KeyType, d.KeyLen = ref.KeyIPv4, 4
		u := genUpdate(r, d)
		cas := fmt.Sprintf("%s of %s, key given as IPv4-mapped address", updString(u), defString(d))
		c.Guard("panic", cas, func() {
			l := libUpdate(libDef(d), u)
			k := sticktable.IPv4AddressKey(netip.AddrFrom16(netip.AddrFrom4([4]byte(u.Key.B)).As16()))
			l.Key = &k
			if n, err := l.Marshal(buf); err != nil || !bytes.Equal(buf[:n], u.Bytes()) {
				c.Violate("update-encoding", cas, "n=%d err=%v\n got %x\nwant %x", n, err, buf[:max(n, 0)], u.Bytes())
			}
		})
		c.Eval(cas)
	}

	// single values following each other, decoded by their own Unmarshal
	for i := 0; i < c.N(1500, 60000) && !c.Stop() && c.TimeLeft(); i++ {
		var vals []ref.DVal
		var stream []byte
		var types []int
		for k := 1 + r.Intn(8); k > 0; k-- {
			t := ref.DataTypes[r.Intn(len(ref.DataTypes))]
			v := genDVal(r, ref.DataKinds[t])
			types = append(types, t)
			vals = append(vals, v)
			stream = ref.AppendDVal(stream, v)
		}
		cas := fmt.Sprintf("values %v types %v", vals, types)
		c.Guard("panic", cas, func() {
			off := 0
			for k, v := range vals {
				m := sticktable.DataType(types[k]).New()
				if m == nil {
					c.Violate("unknown-type", cas, "type %d", types[k])
					return
				}
				n, err := m.Unmarshal(stream[off:])
				if err != nil {
					c.Violate("value-decoding", cas, "value %d: %v", k, err)
					return
				}
				off += n
				got, err := refVal(m)
				if err != nil || !got.Equal(v) {
					c.Violate("value-decoding", cas, "value %d: %v want %v (%v)", k, got, v, err)
					return
				}
				um := usedVal[types[k]]
				if um == nil {
					um = sticktable.DataType(types[k]).New()
					usedVal[types[k]] = um
				}
				un, err := um.Unmarshal(stream[off-n:])
				if got, gerr := refVal(um); err != nil || gerr != nil || un != n || !got.Equal(v) {
					c.Violate("value-decoding-used", cas, "value %d: %v want %v (%v %v), %d of %d bytes", k, got, v, err, gerr, un, n)
				}
				enc := ref.AppendDVal(nil, v)
				for j := range buf[:len(enc)+4] {
					buf[j] = 0xEE
				}
				n, err = m.Marshal(buf)
				if err != nil || !bytes.Equal(buf[:n], enc) || buf[n] != 0xEE {
					c.Violate("value-encoding", cas, "value %d: %x want %x (%v)", k, buf[:n], enc, err)
				}
				if got, _ := refVal(m); !got.Equal(v) {
					c.Violate("changed-by-encoding", cas, "value %d: now %v", k, got)
				}
				c.Count("values", 1)
			}
			if off != len(stream) {
				c.Violate("value-decoding", cas, "consumed %d of %d", off, len(stream))
			}
		})
		c.Eval(cas)
	}

	forms := []ref.Update{{}, {HasID: true}, {HasExp: true}, {HasID: true, HasExp: true}}
	subset := func(kt int, types ...int) ref.Def {
		d := genDef(r, 0)
		for d.KeyType != kt {
			d = genDef(r, 0)
		}
		for _, t := range types {
			d.Types = append(d.Types, genDT(r, t))
		}
		return d
	}
	updates := func(d ref.Def) {
		for _, f := range forms {
			u := genUpdate(r, d)
			u.HasID, u.HasExp = f.HasID, f.HasExp
			if !u.HasID {
				u.ID = 0
			}
			if !u.HasExp {
				u.Exp = 0
			}
			upd(d, u)
		}
	}
	for _, kt := range ref.KeyTypes {
		for _, a := range ref.DataTypes {
			for rep := 0; rep < c.N(4, 60); rep++ {
				d := subset(kt, a)
				def(d)
				updates(d)
			}
		}
	}
	for i, a := range ref.DataTypes {
		for _, b := range ref.DataTypes[i+1:] {
			d := subset(ref.KeyTypes[r.Intn(5)], a, b)
			def(d)
			updates(d)
		}
	}
	for _, kt := range ref.KeyTypes {
		d := subset(kt, ref.DataTypes...)
		def(d)
		updates(d)
	}
	c.Exhaustive("key type x data type, all pairs of data types, all types at once, all four update forms")
	for i := 0; i < c.N(4000, 150000) && !c.Stop() && c.TimeLeft(); i++ {
		d := genDef(r, 1+r.Intn(24))
		def(d)
		u := genUpdate(r, d)
		upd(d, u)
		if i < 3 {
			c.Sample("%s: %s", defString(d), updString(u))
		}
	}
	// string keys and names around encoding boundaries
	for _, l := range []int{0, 1, 239, 240, 241, 2287, 2288, 2289, 65535, 65536, 70000, c.N(120000, 160000)} {
		d := ref.Def{ID: 1, Name: string(genBytes(r, l)), KeyType: ref.KeyString, KeyLen: uint64(l + 1), Types: []ref.DT{{Type: 4}, {Type: 19}}}
		def(d)
		u := ref.Update{Key: ref.Key{Type: ref.KeyString, B: genBytes(r, l)}, Data: []ref.DVal{{Kind: ref.KUint, I: 9}, {Kind: ref.KDict, ID: 7, Val: genBytes(r, l)}}}
		upd(d, u)
		d.KeyType, d.KeyLen, d.Name = ref.KeyBinary, uint64(l), "b"
		u.Key = ref.Key{Type: ref.KeyBinary, B: genBytes(r, l)}
		upd(d, u)
	}
}
