package checks

import (
	"bytes"
	"encoding/binary"
	"errors"
	"fmt"
	"io"
	"testing"

	"github.com/dropmorepackets/haproxy-go/pkg/encoding"

	"verif/mon"
	"verif/ref"
)

// countingReader hands out single bytes and counts them.
type countingReader struct {
	b []byte
	n int
}

func (c *countingReader) ReadByte() (byte, error) {
	if c.n >= len(c.b) {
		return 0, io.EOF
	}
	c.n++
	return c.b[c.n-1], nil
}

func TestC01(t *testing.T) {
	c := mon.Start(t, "C01", "values: 0..70000, every length-class boundary +-3, every power of two +-2, seeded 64-bit; decoder inputs: truncations, continuation runs, random bytes; destinations of every size 0..12. Non-trivial: distinct value or input.")
	defer c.Finish()

	buf := make([]byte, 64)
	value := func(v uint64) {
		want := ref.PutVarint(nil, v)
		cas := fmt.Sprintf("value %#x", v)
		c.Guard("panic", cas, func() {
			// encode into every interesting destination size, with canaries
			for _, size := range []int{0, len(want) - 1, len(want), len(want) + 1, 12} {
				for i := range buf {
					buf[i] = 0xA5
				}
				dst := buf[8 : 8+size : 40]
				n, err := encoding.PutVarint(dst, v)
				if size < len(want) {
					if !errors.Is(err, encoding.ErrInsufficientSpace) {
						c.Violate("short-destination", cas, "size %d of %d: n=%d err=%v", size, len(want), n, err)
					}
				} else if err != nil || n != len(want) || !bytes.Equal(dst[:n], want) {
					c.Violate("encode", cas, "size %d: got %x n=%d err=%v want %x", size, dst, n, err, want)
				}
				for i, x := range buf {
					if (i < 8 || i >= 8+size) && x != 0xA5 {
						c.Violate("encode-out-of-bounds", cas, "size %d: byte %d written", size, i-8)
					}
				}
				if err == nil {
					for i := len(want); i < size; i++ {
						if dst[i] != 0xA5 {
							c.Violate("encode-behind", cas, "byte %d behind the encoding written", i)
						}
					}
				}
			}
			// decode, whatever follows
			for _, tail := range [][]byte{nil, {0}, {0xFF, 0xFF, 0xFF}, {0x80, 0x01}} {
				in := append(append([]byte(nil), want...), tail...)
				got, n, err := encoding.Varint(in)
				if err != nil || got != v || n != len(want) {
					c.Violate("decode", cas, "Varint(%x) = %#x, %d, %v", in, got, n, err)
				}
				rd := &countingReader{b: in}
				got, err = encoding.ReadVarint(rd)
				if err != nil || got != v || rd.n != len(want) {
					c.Violate("stream-decode", cas, "ReadVarint(%x) = %#x consumed %d, %v", in, got, rd.n, err)
				}
			}
			// every truncation, with the missing bytes in the spare capacity
			for k := 0; k < len(want); k++ {
				in := want[:k]
				if _, n, err := encoding.Varint(in); !errors.Is(err, encoding.ErrUnterminatedSequence) {
					c.Violate("truncated", cas, "Varint(%x) n=%d err=%v", in, n, err)
				}
				if _, err := encoding.ReadVarint(&countingReader{b: in}); !errors.Is(err, encoding.ErrUnterminatedSequence) {
					c.Violate("truncated", cas, "ReadVarint(%x) err=%v", in, err)
				}
			}
		})
		c.EvalHash(v*0x9E3779B97F4A7C15 | 1)
	}

	decode := func(in []byte) {
		cas := fmt.Sprintf("bytes %x", in)
		c.Guard("panic", cas, func() {
			keep := append([]byte(nil), in...)
			want, wn := ref.Varint(in)
			got, n, err := encoding.Varint(in)
			if wn == 0 {
				if !errors.Is(err, encoding.ErrUnterminatedSequence) {
					c.Violate("truncated", cas, "Varint n=%d err=%v", n, err)
				}
			} else if err != nil || n != wn || got != want {
				c.Violate("decode-bytes", cas, "Varint = %#x,%d,%v want %#x,%d", got, n, err, want, wn)
			}
			rd := &countingReader{b: in}
			got, err = encoding.ReadVarint(rd)
			if wn == 0 {
				if !errors.Is(err, encoding.ErrUnterminatedSequence) {
					c.Violate("truncated", cas, "ReadVarint err=%v", err)
				}
			} else if err != nil || rd.n != wn || got != want {
				c.Violate("stream-decode-bytes", cas, "ReadVarint = %#x consumed %d,%v want %#x,%d", got, rd.n, err, want, wn)
			}
			if !bytes.Equal(in, keep) {
				c.Violate("input-modified", cas, "decoder changed its input to %x", in)
			}
		})
		c.Count("decoder_inputs", 1)
		c.EvalHash(hashBytes(in))
	}

	for v := uint64(0); v <= 70000 && !c.Stop(); v++ {
		value(v)
	}
	for _, v := range edgeInts {
		value(v)
		c.Count("edge_values", 1)
	}
	for i := 0; i < c.N(60000, 3000000) && !c.Stop() && c.TimeLeft(); i++ {
		value(genInt(c.Rng))
		value(c.Rng.Uint64())
	}
	// all inputs of up to two bytes
	decode(nil)
	for a := 0; a < 256; a++ {
		decode([]byte{byte(a)})
		for b := 0; b < 256; b++ {
			decode([]byte{byte(a), byte(b)})
		}
	}
	c.Exhaustive("decoder inputs of up to 2 bytes; values 0..70000")
	for n := 0; n < 20; n++ { // continuation runs
		in := bytes.Repeat([]byte{0xFF}, n)
		decode(in)
		for _, last := range []byte{0, 1, 0x7F} {
			decode(append(append([]byte(nil), in...), last))
		}
		in2 := append([]byte{0xF0}, bytes.Repeat([]byte{0x80}, n)...)
		decode(in2)
		decode(append(in2, 1))
	}
	for i := 0; i < c.N(60000, 3000000) && !c.Stop() && c.TimeLeft(); i++ {
		in := make([]byte, c.Rng.Intn(14))
		c.Rng.Read(in)
		if len(in) > 0 && c.Rng.Intn(2) == 0 {
			in[0] |= 0xF0
			for k := 1; k < len(in); k++ {
				if c.Rng.Intn(4) > 0 {
					in[k] |= 0x80
				}
			}
		}
		decode(in)
	}
	c.Sample("value 0x8f0 (2288): reference %x", ref.PutVarint(nil, 2288))
	c.Sample("value 2^64-1: reference %x", ref.PutVarint(nil, 1<<64-1))
}

func hashBytes(b []byte) uint64 {
	h := uint64(14695981039346656037)
	for _, x := range b {
		h = (h ^ uint64(x)) * 1099511628211
	}
	h ^= uint64(len(b)) << 32
	return h | 1
}

var _ = binary.BigEndian
