package checks

import (
	"encoding/binary"
	"fmt"
	"math/rand"
	"net/netip"

	"github.com/dropmorepackets/haproxy-go/peers/sticktable"

	"verif/ref"
)

func genDef(r *rand.Rand, maxTypes int) ref.Def {
	kt := ref.KeyTypes[r.Intn(len(ref.KeyTypes))]
	d := ref.Def{ID: genInt(r), Name: genName(r, 300), KeyType: kt, Expiry: genInt(r)}
	switch kt {
	case ref.KeySint, ref.KeyIPv4:
		d.KeyLen = 4
	case ref.KeyIPv6:
		d.KeyLen = 16
	case ref.KeyString:
		d.KeyLen = 1 + uint64(r.Intn(300))
	case ref.KeyBinary:
		d.KeyLen = uint64(genLen(r, 300))
	}
	n := r.Intn(maxTypes + 1)
	if n > len(ref.DataTypes) {
		n = len(ref.DataTypes)
	}
	pick := map[int]bool{}
	for _, i := range r.Perm(len(ref.DataTypes))[:n] {
		pick[ref.DataTypes[i]] = true
	}
	for _, t := range ref.DataTypes {
		if pick[t] {
			d.Types = append(d.Types, genDT(r, t))
		}
	}
	return d
}

func genDT(r *rand.Rand, t int) ref.DT {
	dt := ref.DT{Type: t}
	if ref.DataKinds[t] == ref.KFreq {
		dt.Arg, dt.Period = uint64(t), genInt(r)
		if r.Intn(3) == 0 {
			dt.Arg = genInt(r)
		}
	}
	return dt
}

func genPKey(r *rand.Rand, d ref.Def) ref.Key {
	k := ref.Key{Type: d.KeyType}
	switch d.KeyType {
	case ref.KeySint:
		k.B = binary.BigEndian.AppendUint32(nil, uint32(genInt(r)))
	case ref.KeyString:
		k.B = genBytes(r, genLen(r, 300))
	case ref.KeyIPv6:
		k.B = genVal(r, ref.TIPv6, 0).Bytes
	default:
		k.B = genBytes(r, int(d.KeyLen))
	}
	return k
}

func genDVal(r *rand.Rand, kind int) ref.DVal {
	v := ref.DVal{Kind: kind}
	switch kind {
	case ref.KSint:
		v.I = uint64(int64(int32(genInt(r))))
	case ref.KUint:
		v.I = uint64(uint32(genInt(r)))
	case ref.KUll:
		v.I = genInt(r)
	case ref.KFreq:
		for i := range v.F {
			v.F[i] = genInt(r)
		}
	case ref.KDict:
		if r.Intn(4) > 0 {
			v.ID = genInt(r)
			if v.ID == 0 {
				v.ID = 1
			}
			if r.Intn(4) > 0 {
				v.Val = genBytes(r, genLen(r, 2400))
			}
		}
	}
	return v
}

func genUpdate(r *rand.Rand, d ref.Def) ref.Update {
	u := ref.Update{HasID: r.Intn(2) == 0, HasExp: r.Intn(2) == 0, Key: genPKey(r, d)}
	if u.HasID {
		u.ID = uint32(genInt(r))
	}
	if u.HasExp {
		u.Exp = uint32(genInt(r))
	}
	for _, t := range d.Types {
		u.Data = append(u.Data, genDVal(r, ref.DataKinds[t.Type]))
	}
	return u
}

// --- conversion to and from the library's types

func libDef(d ref.Def) *sticktable.Definition {
	l := &sticktable.Definition{Name: d.Name, KeyType: sticktable.KeyType(d.KeyType), StickTableID: d.ID, KeyLength: d.KeyLen, Expiry: d.Expiry}
	for _, t := range d.Types {
		l.DataTypes = append(l.DataTypes, sticktable.DataTypeDefinition{DataType: sticktable.DataType(t.Type), Counter: t.Arg, Period: t.Period})
	}
	return l
}

func refDef(l *sticktable.Definition) ref.Def {
	d := ref.Def{ID: l.StickTableID, Name: l.Name, KeyType: int(l.KeyType), KeyLen: l.KeyLength, Expiry: l.Expiry}
	for _, t := range l.DataTypes {
		d.Types = append(d.Types, ref.DT{Type: int(t.DataType), Arg: t.Counter, Period: t.Period})
	}
	return d
}

func libKey(k ref.Key) sticktable.MapKey {
	switch k.Type {
	case ref.KeySint:
		v := sticktable.SignedIntegerKey(int32(binary.BigEndian.Uint32(k.B)))
		return &v
	case ref.KeyIPv4:
		v := sticktable.IPv4AddressKey(addrOf(k.B))
		return &v
	case ref.KeyIPv6:
		v := sticktable.IPv6AddressKey(addrOf(k.B))
		return &v
	case ref.KeyString:
		v := sticktable.StringKey(k.B)
		return &v
	case ref.KeyBinary:
		v := sticktable.BinaryKey(append([]byte(nil), k.B...))
		return &v
	}
	panic("bad key type")
}

func refKey(k sticktable.MapKey) (ref.Key, error) {
	switch v := k.(type) {
	case *sticktable.SignedIntegerKey:
		return ref.Key{Type: ref.KeySint, B: binary.BigEndian.AppendUint32(nil, uint32(*v))}, nil
	case *sticktable.IPv4AddressKey:
		return ref.Key{Type: ref.KeyIPv4, B: netip.Addr(*v).AsSlice()}, nil
	case *sticktable.IPv6AddressKey:
		return ref.Key{Type: ref.KeyIPv6, B: netip.Addr(*v).AsSlice()}, nil
	case *sticktable.StringKey:
		return ref.Key{Type: ref.KeyString, B: []byte(*v)}, nil
	case *sticktable.BinaryKey:
		return ref.Key{Type: ref.KeyBinary, B: append([]byte(nil), *v...)}, nil
	}
	return ref.Key{}, fmt.Errorf("unknown key %T", k)
}

func libVal(v ref.DVal) sticktable.MapData {
	switch v.Kind {
	case ref.KSint:
		x := sticktable.SignedIntegerData(int32(v.I))
		return &x
	case ref.KUint:
		x := sticktable.UnsignedIntegerData(uint32(v.I))
		return &x
	case ref.KUll:
		x := sticktable.UnsignedLongLongData(v.I)
		return &x
	case ref.KFreq:
		return &sticktable.FreqData{CurrentTick: v.F[0], CurrentPeriod: v.F[1], LastPeriod: v.F[2]}
	case ref.KDict:
		d := &sticktable.DictData{ID: v.ID}
		if v.Val != nil {
			d.Value = append([]byte{}, v.Val...)
		}
		return d
	}
	panic("bad kind")
}

func refVal(m sticktable.MapData) (ref.DVal, error) {
	switch v := m.(type) {
	case *sticktable.SignedIntegerData:
		return ref.DVal{Kind: ref.KSint, I: uint64(int64(*v))}, nil
	case *sticktable.UnsignedIntegerData:
		return ref.DVal{Kind: ref.KUint, I: uint64(*v)}, nil
	case *sticktable.UnsignedLongLongData:
		return ref.DVal{Kind: ref.KUll, I: uint64(*v)}, nil
	case *sticktable.FreqData:
		return ref.DVal{Kind: ref.KFreq, F: [3]uint64{v.CurrentTick, v.CurrentPeriod, v.LastPeriod}}, nil
	case *sticktable.DictData:
		return ref.DVal{Kind: ref.KDict, ID: v.ID, Val: append([]byte(nil), v.Value...)}, nil
	}
	return ref.DVal{}, fmt.Errorf("unknown data %T", m)
}

func libUpdate(d *sticktable.Definition, u ref.Update) *sticktable.EntryUpdate {
	e := &sticktable.EntryUpdate{StickTable: d, WithLocalUpdateID: u.HasID, LocalUpdateID: u.ID, WithExpiry: u.HasExp, Expiry: u.Exp, Key: libKey(u.Key)}
	for _, v := range u.Data {
		e.Data = append(e.Data, libVal(v))
	}
	return e
}

func refUpdate(e *sticktable.EntryUpdate) (u ref.Update, err error) {
	u = ref.Update{HasID: e.WithLocalUpdateID, ID: e.LocalUpdateID, HasExp: e.WithExpiry, Exp: e.Expiry}
	if e.Key == nil {
		return u, fmt.Errorf("no key")
	}
	if u.Key, err = refKey(e.Key); err != nil {
		return u, err
	}
	for _, m := range e.Data {
		v, err := refVal(m)
		if err != nil {
			return u, err
		}
		u.Data = append(u.Data, v)
	}
	return u, nil
}

// defString and updString are complete and therefore usable for comparison.
func defString(d ref.Def) string { return fmt.Sprintf("%+v", d) }

func updString(u ref.Update) string {
	s := fmt.Sprintf("id=%v/%d exp=%v/%d key%d:%x", u.HasID, u.ID, u.HasExp, u.Exp, u.Key.Type, u.Key.B)
	for _, v := range u.Data {
		s += fmt.Sprintf(" %d:%x,%x,%x,%x", v.Kind, v.I, v.F, v.ID, v.Val)
	}
	return s
}
