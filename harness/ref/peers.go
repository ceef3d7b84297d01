package ref

import (
	"bytes"
	"encoding/binary"
	"fmt"
)

// Data kinds of stick-table data types.
const (
	KSint = iota
	KUint
	KUll
	KFreq
	KDict
)

// DataKinds maps HAProxy's data type numbers to their kind. Array types (22-24)
// are deliberately absent.
var DataKinds = map[int]int{
	0: KSint, 1: KUint, 2: KUint, 3: KFreq, 4: KUint, 5: KFreq, 6: KUint, 7: KUint, 8: KFreq,
	9: KUint, 10: KFreq, 11: KUint, 12: KFreq, 13: KUll, 14: KFreq, 15: KUll, 16: KFreq,
	17: KUint, 18: KFreq, 19: KDict, 20: KUint, 21: KFreq, 25: KUint, 26: KFreq,
}

// DataTypes in protocol order.
var DataTypes = []int{0, 1, 2, 3, 4, 5, 6, 7, 8, 9, 10, 11, 12, 13, 14, 15, 16, 17, 18, 19, 20, 21, 25, 26}

// Key types.
const (
	KeySint   = 2
	KeyIPv4   = 4
	KeyIPv6   = 5
	KeyString = 6
	KeyBinary = 7
)

var KeyTypes = []int{KeySint, KeyIPv4, KeyIPv6, KeyString, KeyBinary}

type DT struct {
	Type   int
	Arg    uint64 // first parameter of rate types (HAProxy sends the type number)
	Period uint64
}

type Def struct {
	ID      uint64
	Name    string
	KeyType int
	KeyLen  uint64
	Expiry  uint64
	Types   []DT
}

func (d Def) Bytes() []byte {
	b := PutVarint(nil, d.ID)
	b = AppendBytes(b, []byte(d.Name))
	b = PutVarint(b, uint64(d.KeyType))
	b = PutVarint(b, d.KeyLen)
	var mask uint64
	var params []byte
	for _, t := range d.Types {
		mask |= 1 << uint(t.Type)
		if DataKinds[t.Type] == KFreq {
			params = PutVarint(params, t.Arg)
			params = PutVarint(params, t.Period)
		}
	}
	b = PutVarint(b, mask)
	b = PutVarint(b, d.Expiry)
	return append(b, params...)
}

// Known tells whether a mask contains only types the reference knows.
func ParseDef(b []byte) (d Def, n int, unknown bool, err error) {
	r := rd{b}
	fail := func() (Def, int, bool, error) { return d, 0, unknown, ErrTruncated }
	var ok bool
	if d.ID, ok = r.varint(); !ok {
		return fail()
	}
	name, ok := r.bytes()
	if !ok {
		return fail()
	}
	d.Name = string(name)
	kt, ok := r.varint()
	if !ok {
		return fail()
	}
	d.KeyType = int(kt)
	if d.KeyLen, ok = r.varint(); !ok {
		return fail()
	}
	mask, ok := r.varint()
	if !ok {
		return fail()
	}
	if d.Expiry, ok = r.varint(); !ok {
		return fail()
	}
	for i := 0; i < 64; i++ {
		if mask>>uint(i)&1 == 0 {
			continue
		}
		k, known := DataKinds[i]
		if !known {
			unknown = true
			return d, len(b) - len(r.b), unknown, nil
		}
		t := DT{Type: i}
		if k == KFreq {
			if t.Arg, ok = r.varint(); !ok {
				return fail()
			}
			if t.Period, ok = r.varint(); !ok {
				return fail()
			}
		}
		d.Types = append(d.Types, t)
	}
	return d, len(b) - len(r.b), false, nil
}

// DVal is one data value.
type DVal struct {
	Kind int
	I    uint64 // KSint (sign extended), KUint, KUll
	F    [3]uint64
	ID   uint64 // KDict
	Val  []byte
}

func (v DVal) Equal(o DVal) bool {
	return v.Kind == o.Kind && v.I == o.I && v.F == o.F && v.ID == o.ID && bytes.Equal(v.Val, o.Val)
}

func (v DVal) String() string {
	switch v.Kind {
	case KFreq:
		return fmt.Sprintf("freq%v", v.F)
	case KDict:
		return fmt.Sprintf("dict{%d %s}", v.ID, short(v.Val))
	}
	return fmt.Sprintf("k%d:%#x", v.Kind, v.I)
}

func AppendDVal(b []byte, v DVal) []byte {
	switch v.Kind {
	case KFreq:
		for _, x := range v.F {
			b = PutVarint(b, x)
		}
	case KDict:
		if v.ID == 0 {
			return PutVarint(b, 0)
		}
		body := PutVarint(nil, v.ID)
		if len(v.Val) > 0 {
			body = AppendBytes(body, v.Val)
		}
		b = AppendBytes(b, body)
	default:
		b = PutVarint(b, v.I)
	}
	return b
}

// Key in wire-independent form: sint as 4 bytes big endian.
type Key struct {
	Type int
	B    []byte
}

func (k Key) String() string { return fmt.Sprintf("key%d:%s", k.Type, short(k.B)) }

func AppendKey(b []byte, k Key) []byte {
	if k.Type == KeyString {
		return AppendBytes(b, k.B)
	}
	return append(b, k.B...)
}

// Update message types.
const (
	MEntry     = 0x80
	MInc       = 0x81
	MDef       = 0x82
	MSwitch    = 0x83
	MAck       = 0x84
	MTimed     = 0x85
	MIncTimed  = 0x86
	ClsControl = 0
	ClsError   = 1
	ClsTable   = 10
)

type Update struct {
	HasID  bool
	ID     uint32
	HasExp bool
	Exp    uint32
	Key    Key
	Data   []DVal
}

func (u Update) Type() byte {
	switch {
	case u.HasID && u.HasExp:
		return MTimed
	case u.HasID:
		return MEntry
	case u.HasExp:
		return MIncTimed
	}
	return MInc
}

func (u Update) Bytes() []byte {
	var b []byte
	if u.HasID {
		b = binary.BigEndian.AppendUint32(b, u.ID)
	}
	if u.HasExp {
		b = binary.BigEndian.AppendUint32(b, u.Exp)
	}
	b = AppendKey(b, u.Key)
	for _, d := range u.Data {
		b = AppendDVal(b, d)
	}
	return b
}

func (u Update) String() string {
	return fmt.Sprintf("{id=%v/%d exp=%v/%d %s %v}", u.HasID, u.ID, u.HasExp, u.Exp, u.Key, u.Data)
}

// ParseUpdate parses an update of the table; n is the number of bytes consumed.
func ParseUpdate(d Def, hasID, hasExp bool, b []byte) (u Update, n int, err error) {
	r := rd{b}
	u.HasID, u.HasExp = hasID, hasExp
	if hasID {
		x, ok := r.take(4)
		if !ok {
			return u, 0, ErrTruncated
		}
		u.ID = binary.BigEndian.Uint32(x)
	}
	if hasExp {
		x, ok := r.take(4)
		if !ok {
			return u, 0, ErrTruncated
		}
		u.Exp = binary.BigEndian.Uint32(x)
	}
	u.Key.Type = d.KeyType
	var ok bool
	switch d.KeyType {
	case KeySint:
		u.Key.B, ok = r.take(4)
	case KeyIPv4:
		if d.KeyLen != 4 {
			return u, 0, ErrBad
		}
		u.Key.B, ok = r.take(4)
	case KeyIPv6:
		if d.KeyLen != 16 {
			return u, 0, ErrBad
		}
		u.Key.B, ok = r.take(16)
	case KeyString:
		u.Key.B, ok = r.bytes()
	case KeyBinary:
		u.Key.B, ok = r.take(d.KeyLen)
	default:
		return u, 0, ErrBad
	}
	if !ok {
		return u, 0, ErrTruncated
	}
	for _, t := range d.Types {
		v, err := parseDVal(&r, DataKinds[t.Type])
		if err != nil {
			return u, 0, err
		}
		u.Data = append(u.Data, v)
	}
	return u, len(b) - len(r.b), nil
}

func parseDVal(r *rd, kind int) (v DVal, err error) {
	v.Kind = kind
	var ok bool
	switch kind {
	case KFreq:
		for i := range v.F {
			if v.F[i], ok = r.varint(); !ok {
				return v, ErrTruncated
			}
		}
	case KDict:
		body, ok := r.bytes()
		if !ok {
			return v, ErrTruncated
		}
		if len(body) == 0 {
			return v, nil
		}
		br := rd{body}
		if v.ID, ok = br.varint(); !ok {
			return v, ErrTruncated
		}
		if v.ID == 0 {
			return v, ErrBad
		}
		if len(br.b) == 0 {
			return v, nil
		}
		if v.Val, ok = br.bytes(); !ok {
			return v, ErrTruncated
		}
		if len(br.b) != 0 {
			return v, ErrBad
		}
	default:
		if v.I, ok = r.varint(); !ok {
			return v, ErrTruncated
		}
		switch kind {
		case KSint:
			v.I = uint64(int64(int32(v.I)))
		case KUint:
			v.I = uint64(uint32(v.I))
		}
	}
	return v, nil
}

// ParseDVal parses a single value.
func ParseDVal(b []byte, kind int) (DVal, int, error) {
	r := rd{b}
	v, err := parseDVal(&r, kind)
	return v, len(b) - len(r.b), err
}

// PMsg is one peers message.
type PMsg struct {
	Class, Type byte
	Data        []byte
}

func (m PMsg) Bytes() []byte {
	b := []byte{m.Class, m.Type}
	if m.Type >= 128 {
		b = AppendBytes(b, m.Data)
	}
	return b
}

func (m PMsg) String() string { return fmt.Sprintf("%d/%#x(%s)", m.Class, m.Type, short(m.Data)) }

func DefMsg(d Def) PMsg       { return PMsg{ClsTable, MDef, d.Bytes()} }
func UpdateMsg(u Update) PMsg { return PMsg{ClsTable, u.Type(), u.Bytes()} }
func SwitchMsg(id uint64) PMsg {
	return PMsg{ClsTable, MSwitch, PutVarint(nil, id)}
}
func AckMsg(table uint64, id uint32) PMsg {
	return PMsg{ClsTable, MAck, binary.BigEndian.AppendUint32(PutVarint(nil, table), id)}
}
func Control(t byte) PMsg { return PMsg{ClsControl, t, nil} }

var Heartbeat = Control(4)

// ParsePMsg parses one message; n is 0 when it is incomplete.
func ParsePMsg(b []byte) (m PMsg, n int) {
	if len(b) < 2 {
		return m, 0
	}
	m.Class, m.Type = b[0], b[1]
	n = 2
	if m.Type >= 128 {
		l, k := Varint(b[2:])
		if k == 0 || l > uint64(len(b)-2-k) {
			return m, 0
		}
		m.Data = b[2+k : 2+k+int(l)]
		n = 2 + k + int(l)
	}
	return m, n
}

type Handshake struct {
	Proto, Version, Remote, Local string
	PID, RelPID                   int
}

func (h Handshake) Bytes() []byte {
	return []byte(fmt.Sprintf("%s %s\n%s\n%s %d %d\n", h.Proto, h.Version, h.Remote, h.Local, h.PID, h.RelPID))
}

var DefaultHandshake = Handshake{"HAProxyS", "2.1", "me", "you", 4711, 0}
