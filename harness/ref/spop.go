// Package ref holds independent codecs for the SPOP and peers protocols,
// written from the protocol documents. They share no code with the library.
package ref

import (
	"bytes"
	"encoding/binary"
	"errors"
	"fmt"
	"math/bits"
)

var (
	ErrTruncated = errors.New("truncated")
	ErrBad       = errors.New("malformed")
)

// PutVarint appends the protocol's variable-length encoding.
func PutVarint(b []byte, v uint64) []byte {
	if v < 0xF0 {
		return append(b, byte(v))
	}
	v -= 0xF0
	b = append(b, 0xF0+byte(v%16))
	v /= 16
	for v >= 0x80 {
		v -= 0x80
		b = append(b, 0x80+byte(v%128))
		v /= 128
	}
	return append(b, byte(v))
}

// Varint decodes modulo 2^64; n is 0 when the input is truncated.
func Varint(b []byte) (v uint64, n int) {
	if len(b) == 0 {
		return 0, 0
	}
	v = uint64(b[0])
	if b[0] < 0xF0 {
		return v, 1
	}
	shift := 4
	for i := 1; i < len(b); i++ {
		if shift < 64 {
			_, lo := bits.Mul64(uint64(b[i]), 1<<uint(shift))
			v, _ = bits.Add64(v, lo, 0)
		}
		shift += 7
		if b[i] < 0x80 {
			return v, i + 1
		}
	}
	return 0, 0
}

func VarintLen(v uint64) int { return len(PutVarint(nil, v)) }

// Data types.
const (
	TNull   = 0
	TBool   = 1
	TInt32  = 2
	TUint32 = 3
	TInt64  = 4
	TUint64 = 5
	TIPv4   = 6
	TIPv6   = 7
	TString = 8
	TBinary = 9
)

// Val is a typed value. Int carries the raw 64-bit integer.
type Val struct {
	T     byte
	Bool  bool
	Int   uint64
	Bytes []byte
}

func (v Val) Equal(o Val) bool {
	return v.T == o.T && v.Bool == o.Bool && v.Int == o.Int && bytes.Equal(v.Bytes, o.Bytes)
}

func (v Val) String() string {
	switch v.T {
	case TNull:
		return "null"
	case TBool:
		return fmt.Sprintf("bool:%v", v.Bool)
	case TInt32, TUint32, TInt64, TUint64:
		return fmt.Sprintf("int%d:%#x", v.T, v.Int)
	}
	return fmt.Sprintf("t%d:%s", v.T, short(v.Bytes))
}

func short(b []byte) string {
	if len(b) > 24 {
		return fmt.Sprintf("%x..(%d)", b[:20], len(b))
	}
	return fmt.Sprintf("%x", b)
}

type KV struct {
	Name string
	V    Val
}

func (k KV) String() string { return fmt.Sprintf("%s=%s", short([]byte(k.Name)), k.V) }

func AppendBytes(b, v []byte) []byte {
	return append(PutVarint(b, uint64(len(v))), v...)
}

func AppendVal(b []byte, v Val) []byte {
	t := v.T
	if v.T == TBool && v.Bool {
		t |= 0x10
	}
	b = append(b, t)
	switch v.T {
	case TInt32, TUint32, TInt64, TUint64:
		b = PutVarint(b, v.Int)
	case TIPv4, TIPv6:
		b = append(b, v.Bytes...)
	case TString, TBinary:
		b = AppendBytes(b, v.Bytes)
	}
	return b
}

func AppendKV(b []byte, kv KV) []byte {
	return AppendVal(AppendBytes(b, []byte(kv.Name)), kv.V)
}

func KVs(kvs ...KV) []byte {
	var b []byte
	for _, kv := range kvs {
		b = AppendKV(b, kv)
	}
	return b
}

type Msg struct {
	Name string
	Args []KV
}

func AppendMsg(b []byte, m Msg) []byte {
	b = AppendBytes(b, []byte(m.Name))
	b = append(b, byte(len(m.Args)))
	for _, a := range m.Args {
		b = AppendKV(b, a)
	}
	return b
}

func Msgs(ms ...Msg) []byte {
	var b []byte
	for _, m := range ms {
		b = AppendMsg(b, m)
	}
	return b
}

type rd struct{ b []byte }

func (r *rd) varint() (uint64, bool) {
	v, n := Varint(r.b)
	if n == 0 {
		return 0, false
	}
	r.b = r.b[n:]
	return v, true
}

func (r *rd) take(n uint64) ([]byte, bool) {
	if n > uint64(len(r.b)) {
		return nil, false
	}
	v := r.b[:n]
	r.b = r.b[n:]
	return v, true
}

func (r *rd) bytes() ([]byte, bool) {
	n, ok := r.varint()
	if !ok {
		return nil, false
	}
	return r.take(n)
}

// Val parses one typed value; the flag bits of non-bool types are ignored.
func (r *rd) val() (Val, error) {
	t, ok := r.take(1)
	if !ok {
		return Val{}, ErrTruncated
	}
	v := Val{T: t[0] & 0x0F}
	switch v.T {
	case TNull:
	case TBool:
		v.Bool = t[0]&0x10 != 0
	case TInt32, TUint32, TInt64, TUint64:
		if v.Int, ok = r.varint(); !ok {
			return v, ErrTruncated
		}
	case TIPv4:
		if v.Bytes, ok = r.take(4); !ok {
			return v, ErrTruncated
		}
	case TIPv6:
		if v.Bytes, ok = r.take(16); !ok {
			return v, ErrTruncated
		}
	case TString, TBinary:
		if v.Bytes, ok = r.bytes(); !ok {
			return v, ErrTruncated
		}
	default:
		return v, ErrBad
	}
	return v, nil
}

func (r *rd) kv() (KV, error) {
	name, ok := r.bytes()
	if !ok {
		return KV{}, ErrTruncated
	}
	v, err := r.val()
	return KV{string(name), v}, err
}

// ParseKVs parses count entries (all when negative). It returns the entries
// before the first malformation, the rest and the error.
func ParseKVs(b []byte, count int) (kvs []KV, rest []byte, err error) {
	r := rd{b}
	for count != 0 {
		if len(r.b) == 0 {
			if count > 0 {
				return kvs, r.b, ErrTruncated
			}
			return kvs, r.b, nil
		}
		kv, err := r.kv()
		if err != nil {
			return kvs, r.b, err
		}
		kvs = append(kvs, kv)
		if count > 0 {
			count--
		}
	}
	return kvs, r.b, nil
}

// ParseMsgs parses messages up to the first malformation. partial is true
// when the last message was started (its name and count are intact) but its
// arguments are malformed.
func ParseMsgs(b []byte) (ms []Msg, counts []int, partial bool, err error) {
	r := rd{b}
	for len(r.b) > 0 {
		name, ok := r.bytes()
		if !ok {
			return ms, counts, false, ErrTruncated
		}
		cnt, ok := r.take(1)
		if !ok {
			return ms, counts, false, ErrTruncated
		}
		kvs, rest, err := ParseKVs(r.b, int(cnt[0]))
		ms = append(ms, Msg{string(name), kvs})
		counts = append(counts, int(cnt[0]))
		if err != nil {
			return ms, counts, true, err
		}
		r.b = rest
	}
	return ms, counts, false, nil
}

// Action is one action of an ACK.
type Action struct {
	Unset bool
	Scope byte
	Name  string
	V     Val
}

func (a Action) String() string {
	if a.Unset {
		return fmt.Sprintf("unset %d.%s", a.Scope, short([]byte(a.Name)))
	}
	return fmt.Sprintf("set %d.%s=%s", a.Scope, short([]byte(a.Name)), a.V)
}

func (a Action) Equal(o Action) bool {
	return a.Unset == o.Unset && a.Scope == o.Scope && a.Name == o.Name && (a.Unset || a.V.Equal(o.V))
}

func AppendAction(b []byte, a Action) []byte {
	if a.Unset {
		b = append(b, 2, 2, a.Scope)
		return AppendBytes(b, []byte(a.Name))
	}
	b = append(b, 1, 3, a.Scope)
	b = AppendBytes(b, []byte(a.Name))
	return AppendVal(b, a.V)
}

func ParseActions(b []byte) (as []Action, err error) {
	r := rd{b}
	for len(r.b) > 0 {
		h, ok := r.take(3)
		if !ok {
			return as, ErrTruncated
		}
		a := Action{Scope: h[2]}
		switch {
		case h[0] == 1 && h[1] == 3:
		case h[0] == 2 && h[1] == 2:
			a.Unset = true
		default:
			return as, fmt.Errorf("%w: action header %x", ErrBad, h)
		}
		if a.Scope > 4 {
			return as, fmt.Errorf("%w: scope %d", ErrBad, a.Scope)
		}
		name, ok := r.bytes()
		if !ok {
			return as, ErrTruncated
		}
		a.Name = string(name)
		if !a.Unset {
			if a.V, err = r.val(); err != nil {
				return as, err
			}
		}
		as = append(as, a)
	}
	return as, nil
}

// Frame types.
const (
	FHello           = 1
	FDisconnect      = 2
	FNotify          = 3
	FAgentHello      = 101
	FAgentDisconnect = 102
	FAck             = 103
)

type Frame struct {
	Type     byte
	Flags    uint32
	StreamID uint64
	FrameID  uint64
	Payload  []byte
}

// AppendFrame appends the frame with its length prefix.
func AppendFrame(b []byte, f Frame) []byte {
	body := []byte{f.Type}
	body = binary.BigEndian.AppendUint32(body, f.Flags)
	body = PutVarint(body, f.StreamID)
	body = PutVarint(body, f.FrameID)
	body = append(body, f.Payload...)
	b = binary.BigEndian.AppendUint32(b, uint32(len(body)))
	return append(b, body...)
}

func (f Frame) Bytes() []byte { return AppendFrame(nil, f) }

// Len is the length announced on the wire.
func (f Frame) Len() int { return len(f.Bytes()) - 4 }

// ParseFrame parses one frame at the start of b; n is 0 when it is incomplete.
func ParseFrame(b []byte) (f Frame, n int, err error) {
	if len(b) < 4 {
		return f, 0, nil
	}
	l := binary.BigEndian.Uint32(b)
	if uint64(len(b)-4) < uint64(l) {
		return f, 0, nil
	}
	body := b[4 : 4+l]
	if len(body) < 5 {
		return f, 0, fmt.Errorf("%w: frame of %d bytes", ErrBad, l)
	}
	f.Type = body[0]
	f.Flags = binary.BigEndian.Uint32(body[1:])
	r := rd{body[5:]}
	var ok bool
	if f.StreamID, ok = r.varint(); !ok {
		return f, 0, fmt.Errorf("%w: stream id", ErrBad)
	}
	if f.FrameID, ok = r.varint(); !ok {
		return f, 0, fmt.Errorf("%w: frame id", ErrBad)
	}
	f.Payload = r.b
	return f, int(4 + l), nil
}

// Hello builds a HAPROXY-HELLO frame.
func Hello(maxFrame uint32, extra ...KV) Frame {
	kvs := []KV{
		{"supported-versions", Val{T: TString, Bytes: []byte("2.0")}},
		{"max-frame-size", Val{T: TUint32, Int: uint64(maxFrame)}},
		{"capabilities", Val{T: TString, Bytes: []byte("pipelining,async")}},
	}
	kvs = append(kvs, extra...)
	return Frame{Type: FHello, Flags: 1, Payload: KVs(kvs...)}
}

func Disconnect(code uint32, msg string) Frame {
	return Frame{Type: FDisconnect, Flags: 1, Payload: KVs(
		KV{"status-code", Val{T: TUint32, Int: uint64(code)}},
		KV{"message", Val{T: TString, Bytes: []byte(msg)}})}
}

func Notify(sid, fid uint64, ms ...Msg) Frame {
	return Frame{Type: FNotify, Flags: 1, StreamID: sid, FrameID: fid, Payload: Msgs(ms...)}
}
