package checks

import (
	"bytes"
	"errors"
	"fmt"
	"io"
	"math/rand"
	"runtime"
	"sync"
	"testing"
	"testing/synctest"
	"time"

	"github.com/dropmorepackets/haproxy-go/pkg/testutil"

	"verif/mon"
)

// pump writes data in random pieces; the pieces are overwritten after Write
// returned, as a reused buffer would be.
func pump(r *rand.Rand, w io.Writer, data []byte, maxPiece int) error {
	buf := make([]byte, maxPiece)
	for len(data) > 0 {
		n := 1 + r.Intn(maxPiece)
		if n > len(data) {
			n = len(data)
		}
		copy(buf, data[:n])
		k, err := w.Write(buf[:n])
		if err != nil {
			return fmt.Errorf("write: %w", err)
		}
		if k != n {
			return fmt.Errorf("write of %d bytes returned %d", n, k)
		}
		for i := range buf {
			buf[i] = 0xDD
		}
		data = data[n:]
		if r.Intn(4) == 0 {
			runtime.Gosched()
		}
	}
	return nil
}

func drain(r *rand.Rand, rd io.Reader, n, maxPiece int) ([]byte, error) {
	var out []byte
	buf := make([]byte, maxPiece+1)
	for len(out) < n {
		want := 1 + r.Intn(maxPiece)
		buf[want] = 0xCC
		k, err := rd.Read(buf[:want])
		if k < 0 || k > want || buf[want] != 0xCC {
			return out, fmt.Errorf("read of %d bytes returned %d", want, k)
		}
		out = append(out, buf[:k]...)
		if err != nil {
			return out, err
		}
	}
	return out, nil
}

func TestC28(t *testing.T) {
	c := mon.Start(t, "C28", "pipe pair: concurrent transfers in both directions with random piece sizes on both sides; close of either end at random moments with pending reads and writes on both ends, judged at quiescence; repeat reader: data of length 0..40 and random read sizes. Non-trivial: distinct transfer, closing scenario or read sequence.")
	defer c.Finish()
	r := c.Rng

	// transfers
	for i := 0; i < c.N(300, 8000) && !c.Stop() && c.TimeLeft(); i++ {
		seed := r.Int63()
		c.Case("transfer seed %d", seed)
		rr := rand.New(rand.NewSource(seed))
		a, b := testutil.PipeConn()
		ab, ba := make([]byte, rr.Intn(3000)), make([]byte, rr.Intn(3000))
		rr.Read(ab)
		rr.Read(ba)
		if i%40 == 5 { // long pieces
			ab, ba = append(ab, make([]byte, rr.Intn(400000))...), append(ba, make([]byte, rr.Intn(400000))...)
			rr.Read(ab)
			rr.Read(ba)
		}
		sizes := [4]int{1 + rr.Intn(300), 1 + rr.Intn(300), 1 + rr.Intn(300), 1 + rr.Intn(300)}
		for k := range sizes {
			if i%40 == 5 && rr.Intn(3) > 0 {
				sizes[k] = 1 + rr.Intn(150000)
			}
		}
		var errs [4]error
		var gotA, gotB []byte
		var wg sync.WaitGroup
		run := func(k int, fn func(r *rand.Rand) error) {
			wg.Add(1)
			go func() { defer wg.Done(); errs[k] = fn(rand.New(rand.NewSource(seed + int64(k)))) }()
		}
		run(0, func(r *rand.Rand) error { return pump(r, a, ab, sizes[0]) })
		run(1, func(r *rand.Rand) error { return pump(r, b, ba, sizes[1]) })
		run(2, func(r *rand.Rand) (err error) { gotB, err = drain(r, b, len(ab), sizes[2]); return })
		run(3, func(r *rand.Rand) (err error) { gotA, err = drain(r, a, len(ba), sizes[3]); return })
		wg.Wait()
		cas := fmt.Sprintf("transfer seed %d: %d and %d bytes, pieces %v", seed, len(ab), len(ba), sizes)
		if err := errors.Join(errs[:]...); err != nil {
			c.Violate("transfer-failed", cas, "%v", err)
		}
		if !bytes.Equal(gotB, ab) || !bytes.Equal(gotA, ba) {
			c.Violate("transfer-corrupt", cas, "%d of %d and %d of %d bytes equal: %v %v", len(gotB), len(ab), len(gotA), len(ba), bytes.Equal(gotB, ab), bytes.Equal(gotA, ba))
		}
		a.Close()
		b.Close()
		c.Count("bytes_transferred", len(ab)+len(ba))
		c.Eval(cas)
		if i < 2 {
			c.Sample("%s", cas)
		}
	}

	// closing: everything pending or later finishes, judged at quiescence
	for i := 0; i < c.N(400, 10000) && !c.Stop() && c.TimeLeft(); i++ {
		seed := r.Int63()
		rr := rand.New(rand.NewSource(seed))
		which := rr.Intn(3) // close a, b, both
		pending := rr.Intn(16)
		before := rr.Intn(2) == 0
		cas := fmt.Sprintf("close seed %d: end %d, pending operations %04b, transfer before %v", seed, which, pending, before)
		c.Case("%s", cas)
		bubble(c, t, cas, func() {
			a, b := testutil.PipeConn()
			if before {
				go a.Write([]byte("hello"))
				buf := make([]byte, 5)
				if _, err := io.ReadFull(b, buf); err != nil || string(buf) != "hello" {
					c.Violate("transfer-failed", cas, "%q %v", buf, err)
				}
			}
			var mu sync.Mutex
			running := map[string]bool{}
			op := func(name string, fn func() (int, error)) {
				mu.Lock()
				running[name] = true
				mu.Unlock()
				go func() {
					n, err := fn()
					mu.Lock()
					delete(running, name)
					if err == nil && name[:5] == "later" {
						c.Violate("works-after-close", cas, "%s succeeded with %d bytes", name, n)
					}
					mu.Unlock()
				}()
			}
			if pending&1 != 0 {
				op("pending read a", func() (int, error) { return a.Read(make([]byte, 10)) })
			}
			if pending&2 != 0 {
				op("pending read b", func() (int, error) { return b.Read(make([]byte, 10)) })
			}
			// A write only stays pending while nobody reads on the other side.
			if pending&4 != 0 && pending&2 == 0 {
				op("pending write a", func() (int, error) { return a.Write([]byte("0123456789")) })
			}
			if pending&8 != 0 && pending&1 == 0 {
				op("pending write b", func() (int, error) { return b.Write([]byte("0123456789")) })
			}
			if rr.Intn(2) == 0 {
				synctest.Wait()
			}
			if which != 1 {
				a.Close()
			}
			if which != 0 {
				b.Close()
			}
			if rr.Intn(2) == 0 {
				synctest.Wait()
			}
			later := 0
			for _, x := range rr.Perm(4)[:1+rr.Intn(4)] {
				later++
				switch x {
				case 0:
					op("later read a", func() (int, error) { return a.Read(make([]byte, 10)) })
				case 1:
					op("later read b", func() (int, error) { return b.Read(make([]byte, 10)) })
				case 2:
					op("later write a", func() (int, error) { return a.Write([]byte("x")) })
				case 3:
					op("later write b", func() (int, error) { return b.Write([]byte("x")) })
				}
			}
			synctest.Wait()
			mu.Lock()
			left := fmt.Sprint(running)
			n := len(running)
			mu.Unlock()
			if n > 0 {
				c.Violate("hangs-after-close", cas, "still running at quiescence: %s", left)
			}
			c.Count("operations_finished_after_close", later)
			a.Close()
			b.Close()
			synctest.Wait()
		})
		c.Eval(cas)
	}

	// a read returns what there is, however much it asks for, and a write of any
	// length arrives while it is read in any pieces
	for i := 0; i < c.N(60, 1500) && !c.Stop() && c.TimeLeft(); i++ {
		seed := r.Int63()
		rr := rand.New(rand.NewSource(seed))
		size := func() int {
			return []int{1, 1 + rr.Intn(100), 4096, 65535, 65536, 65537, 1 << 20, 1<<20 + 1, 1 + rr.Intn(4<<20)}[rr.Intn(9)]
		}
		cas := fmt.Sprintf("sizes seed %d", seed)
		c.Case("%s", cas)
		bubble(c, t, cas, func() {
			a, b := testutil.PipeConn()
			defer synctest.Wait()
			defer a.Close()
			defer b.Close()
			from, to := io.Writer(a), io.Reader(b)
			if rr.Intn(2) == 0 {
				from, to = b, a
			}
			for k := 0; k < 6; k++ {
				data := make([]byte, size())
				rr.Read(data)
				piece := max(size(), len(data)/200)
				var mu sync.Mutex
				var got []byte
				wrote := false
				go func() {
					n, err := from.Write(data)
					if err != nil || n != len(data) {
						c.Violate("transfer-failed", cas, "write of %d bytes: %d, %v", len(data), n, err)
					}
					mu.Lock()
					wrote = true
					mu.Unlock()
				}()
				go func() {
					buf := make([]byte, piece)
					for {
						n, err := to.Read(buf)
						mu.Lock()
						got = append(got, buf[:n]...)
						all := len(got)
						mu.Unlock()
						if err != nil || all >= len(data) {
							return
						}
					}
				}()
				synctest.Wait()
				mu.Lock()
				if !wrote || !bytes.Equal(got, data) {
					c.Violate("transfer-stuck", cas, "write of %d bytes, reads of %d: finished %v, %d bytes arrived, equal %v", len(data), piece, wrote, len(got), bytes.Equal(got, data))
					k = 6
				}
				mu.Unlock()
				c.Max("longest_write", len(data))
				c.Max("longest_read", piece)
			}
		})
		c.Eval(cas)
	}

	// concurrent closing and use under the race detector
	for i := 0; i < c.N(200, 4000) && !c.Stop() && c.TimeLeft(); i++ {
		a, b := testutil.PipeConn()
		c.Case("concurrent close %d", i)
		done := make(chan int, 8)
		go func() { pump(rand.New(rand.NewSource(int64(i))), a, make([]byte, 5000), 50); done <- 1 }()
		go func() { drain(rand.New(rand.NewSource(int64(i))), b, 5000, 50); done <- 2 }()
		go func() { pump(rand.New(rand.NewSource(int64(i))), b, make([]byte, 5000), 50); done <- 3 }()
		go func() { drain(rand.New(rand.NewSource(int64(i))), a, 5000, 50); done <- 4 }()
		for k := r.Intn(200); k > 0; k-- {
			runtime.Gosched()
		}
		go func() { b.Close(); done <- 5 }()
		if i%2 == 0 {
			go func() { a.Close(); done <- 6 }()
		} else {
			go func() { b.Close(); done <- 6 }()
		}
		limit := time.After(60 * time.Second)
		for k := 0; k < 6; k++ {
			select {
			case <-done:
			case <-limit:
				c.Violate("hangs-after-close", fmt.Sprintf("concurrent close %d", i), "operations still blocked one minute after closing")
				k = 6
			}
		}
		a.Close()
		c.EvalHash(uint64(i)*7919 + 13)
	}

	// repeat reader
	for i := 0; i < c.N(3000, 100000) && !c.Stop() && c.TimeLeft(); i++ {
		data := genBytes(r, r.Intn(41))
		if i%100 == 7 {
			data = genBytes(r, r.Intn(150000))
		}
		keep := append([]byte(nil), data...)
		rd := testutil.NewRepeatReader(data)
		cas := fmt.Sprintf("repeat %d bytes %x reads", len(data), tailOf(data))
		pos := 0
		c.Guard("panic", cas, func() {
			for k := 1 + r.Intn(12); k > 0; k-- {
				n := r.Intn(100)
				if i%50 == 7 {
					n = r.Intn(200000)
				}
				if r.Intn(6) == 0 && len(data) < 1000 {
					n = r.Intn(4) * len(data)
				}
				if len(data) == 0 && n == 0 {
					n = 1
				}
				cas += fmt.Sprintf(" %d", n)
				buf := bytes.Repeat([]byte{0xE7}, n+3)
				got, err := rd.Read(buf[:n])
				if len(data) == 0 {
					if got != 0 || err != io.EOF {
						c.Violate("empty-data", cas, "%d, %v", got, err)
					}
					continue
				}
				if err != nil || got != n && (got <= 0 || got > n) {
					c.Violate("repeat-read", cas, "%d, %v", got, err)
					return
				}
				for j := 0; j < got; j++ {
					if buf[j] != keep[pos%len(keep)] {
						c.Violate("repeat-bytes", cas, "byte %d of the stream is %#x", pos, buf[j])
						return
					}
					pos++
				}
				if !bytes.Equal(buf[n:], []byte{0xE7, 0xE7, 0xE7}) {
					c.Violate("repeat-outside", cas, "wrote behind the buffer")
				}
			}
			if !bytes.Equal(data, keep) {
				c.Violate("repeat-data-changed", cas, "data changed")
			}
		})
		c.Count("repeated_bytes", pos)
		c.Eval(cas)
	}
}
