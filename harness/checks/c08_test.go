package checks

import (
	"bytes"
	"fmt"
	"testing"

	"github.com/dropmorepackets/haproxy-go/pkg/buffer"

	"verif/mon"
)

func TestC08(t *testing.T) {
	c := mon.Start(t, "C08", "generated histories of WriteNBytes, WriteBytes+AdvanceW, ReadNBytes, ReadBytes+AdvanceR, Grow, Reset within the announced space, on buffers of size 0..4000 and buffers around a given slice. Non-trivial: distinct history with at least one byte.")
	defer c.Finish()
	r := c.Rng
	next := byte(0)
	for i := 0; i < c.N(12000, 500000) && !c.Stop() && c.TimeLeft(); i++ {
		var b *buffer.SliceBuffer
		var model []byte // unread bytes
		space := 0       // bytes that may be written
		size := r.Intn(40)
		if r.Intn(10) == 0 {
			size = r.Intn(4000)
		}
		if i%100 == 7 { // more than anybody expects
			size = []int{65535, 65536, 70000, 1 << 20, 1<<20 + 1, 5 << 20}[r.Intn(6)]
		}
		hist := ""
		if r.Intn(4) == 0 {
			in := genBytes(r, size)
			model = append([]byte(nil), in...)
			if r.Intn(2) == 0 { // part of something larger
				in = append(in, genBytes(r, 1+r.Intn(50))...)[:len(in)]
			}
			b = buffer.NewSliceBufferWithSlice(in)
			hist = fmt.Sprintf("slice(%d)", size)
		} else {
			b = buffer.NewSliceBuffer(size)
			space = size
			hist = fmt.Sprintf("new(%d)", size)
		}
		capacity := size
		fill := func(dst []byte) {
			for j := range dst {
				next++
				dst[j] = next ^ byte(i)
			}
		}
		written := 0
		c.Guard("panic", "", func() {
			for k := 2 + r.Intn(14); k > 0; k-- {
				switch r.Intn(7) {
				case 0: // WriteNBytes
					n := r.Intn(space + 1)
					hist += fmt.Sprintf(" W%d", n)
					dst := b.WriteNBytes(n)
					if len(dst) != n {
						c.Violate("wrong-window", hist, "WriteNBytes(%d) returned %d bytes", n, len(dst))
						return
					}
					fill(dst)
					model = append(model, dst...)
					space -= n
					written += n
				case 1: // WriteBytes + AdvanceW
					dst := b.WriteBytes()
					if len(dst) < space {
						c.Violate("wrong-window", hist, "WriteBytes offers %d bytes, %d are free", len(dst), space)
						return
					}
					n := r.Intn(space + 1)
					hist += fmt.Sprintf(" w%d", n)
					fill(dst[:n])
					model = append(model, dst[:n]...)
					b.AdvanceW(n)
					space -= n
					written += n
				case 2: // ReadNBytes
					n := r.Intn(len(model) + 1)
					if r.Intn(4) == 0 {
						n = len(model)
					}
					hist += fmt.Sprintf(" R%d", n)
					got := b.ReadNBytes(n)
					if !bytes.Equal(got, model[:n]) {
						c.Violate("wrong-bytes", hist, "ReadNBytes %x want %x", got, model[:n])
						return
					}
					model = model[n:]
				case 3: // ReadBytes + AdvanceR
					n := r.Intn(len(model) + 1)
					if r.Intn(4) == 0 {
						n = len(model)
					}
					hist += fmt.Sprintf(" r%d", n)
					b.AdvanceR(n)
					model = model[n:]
				case 4, 5: // Grow
					n := r.Intn(60)
					if r.Intn(6) == 0 {
						n = r.Intn(9000)
					}
					if i%400 == 11 && r.Intn(3) == 0 {
						n = []int{65535, 65536, 70000, 1 << 20, 1<<20 + 1, 5 << 20}[r.Intn(6)]
					}
					hist += fmt.Sprintf(" G%d", n)
					b.Grow(n)
					if n > space {
						space = n
					}
					if got := len(b.WriteBytes()); got < space {
						c.Violate("grow", hist, "%d bytes are writable after growing to %d", got, space)
						return
					}
					capacity = max(capacity, n)
				case 6:
					if r.Intn(3) > 0 && capacity < 60000 {
						continue
					}
					hist += " reset"
					b.Reset()
					model = nil
					if got := len(b.WriteBytes()); got < capacity {
						c.Violate("reset", hist, "%d bytes are writable after a reset, want at least %d", got, capacity)
						return
					}
					space = len(b.WriteBytes())
				}
				if b.Len() != len(model) {
					c.Violate("wrong-length", hist, "Len %d want %d", b.Len(), len(model))
					return
				}
				if got := b.ReadBytes(); !bytes.Equal(got, model) {
					c.Violate("wrong-bytes", hist, "ReadBytes %x want %x", tailOf(got), tailOf(model))
					return
				}
				c.Count("operations", 1)
			}
		})
		if written > 0 || len(model) > 0 {
			c.Eval(hist)
		} else {
			c.Eval("")
		}
		c.Count("bytes_written", written)
		if i < 4 {
			c.Sample("%s", hist)
		}
	}
}
