package checks

import (
	"fmt"
	"math"
	"math/rand"

	"verif/ref"
)

// Sizes and integers around the boundaries of the variable-length encoding.
var edgeInts = func() []uint64 {
	set := map[uint64]bool{}
	add := func(v uint64, d int) {
		for i := -d; i <= d; i++ {
			set[v+uint64(i)] = true
		}
	}
	// first value of every length class: 240, 240+2048, ...
	b := uint64(240)
	for i := 0; i < 10; i++ {
		add(b, 3)
		step := uint64(1) << uint(11+7*i)
		if 11+7*i > 63 {
			break
		}
		b += step
	}
	for i := 0; i < 64; i++ {
		add(1<<uint(i), 2)
	}
	add(math.MaxUint64, 3)
	add(math.MaxInt64, 2)
	var out []uint64
	for v := range set {
		out = append(out, v)
	}
	sortU64(out)
	return out
}()

func sortU64(a []uint64) {
	for i := 1; i < len(a); i++ {
		for j := i; j > 0 && a[j-1] > a[j]; j-- {
			a[j-1], a[j] = a[j], a[j-1]
		}
	}
}

func genInt(r *rand.Rand) uint64 {
	switch r.Intn(4) {
	case 0:
		return edgeInts[r.Intn(len(edgeInts))]
	case 1:
		return uint64(r.Intn(300))
	case 2:
		return r.Uint64() >> uint(r.Intn(64))
	}
	return uint64(-int64(r.Intn(3000)))
}

// genLen picks a length; most are short, some around encoding boundaries.
func genLen(r *rand.Rand, max int) int {
	var n int
	switch r.Intn(12) {
	case 0:
		n = 0
	case 1:
		n = 238 + r.Intn(5)
	case 2:
		n = 2285 + r.Intn(6)
	case 3:
		n = r.Intn(600)
	default:
		n = r.Intn(24)
	}
	if n > max {
		n = r.Intn(max + 1)
	}
	return n
}

func genBytes(r *rand.Rand, n int) []byte {
	b := make([]byte, n)
	switch r.Intn(4) {
	case 0:
		for i := range b {
			b[i] = 0xFF
		}
	case 1:
		const al = "abcdefghijklmnopqrstuvwxyz-_.0123456789"
		for i := range b {
			b[i] = al[r.Intn(len(al))]
		}
	default:
		r.Read(b)
	}
	return b
}

func genName(r *rand.Rand, max int) string {
	if r.Intn(3) > 0 {
		return fmt.Sprintf("k%d", r.Intn(1000))[:1+r.Intn(2)]
	}
	return string(genBytes(r, genLen(r, max)))
}

func genVal(r *rand.Rand, t byte, maxLen int) ref.Val {
	v := ref.Val{T: t}
	switch t {
	case ref.TBool:
		v.Bool = r.Intn(2) == 1
	case ref.TInt32:
		v.Int = uint64(int64(int32(genInt(r))))
	case ref.TUint32:
		v.Int = uint64(uint32(genInt(r)))
	case ref.TInt64, ref.TUint64:
		v.Int = genInt(r)
	case ref.TIPv4:
		v.Bytes = make([]byte, 4)
		r.Read(v.Bytes)
		specialAddr(r, v.Bytes)
	case ref.TIPv6:
		v.Bytes = make([]byte, 16)
		r.Read(v.Bytes)
		specialAddr(r, v.Bytes)
		if r.Intn(5) == 0 { // IPv4-mapped
			copy(v.Bytes, []byte{0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0xFF, 0xFF})
		}
	case ref.TString, ref.TBinary:
		v.Bytes = genBytes(r, genLen(r, maxLen))
	}
	return v
}

// specialAddr sometimes makes an address one of a special kind.
func specialAddr(r *rand.Rand, b []byte) {
	switch r.Intn(16) {
	case 0: // unspecified
		clear(b)
	case 1: // ::1, 0.0.0.1
		clear(b)
		b[len(b)-1] = 1
	case 2: // all ones: broadcast
		for i := range b {
			b[i] = 0xFF
		}
	case 3: // loopback, link-local
		copy(b, []byte{127, 0, 0, 1})
		if len(b) == 16 {
			copy(b, []byte{0xFE, 0x80, 0, 0})
		}
	}
}

func genAnyVal(r *rand.Rand, maxLen int) ref.Val { return genVal(r, byte(r.Intn(10)), maxLen) }

func genKVs(r *rand.Rand, n, maxLen int) []ref.KV {
	kvs := make([]ref.KV, n)
	for i := range kvs {
		kvs[i] = ref.KV{Name: genName(r, maxLen), V: genAnyVal(r, maxLen)}
	}
	return kvs
}

func genMsgs(r *rand.Rand, n, maxArgs, maxLen int) []ref.Msg {
	ms := make([]ref.Msg, n)
	for i := range ms {
		k := 0
		if maxArgs > 0 {
			k = r.Intn(maxArgs + 1)
		}
		ms[i] = ref.Msg{Name: genName(r, maxLen), Args: genKVs(r, k, maxLen)}
	}
	return ms
}

// hostile mutates a valid encoding.
func hostile(r *rand.Rand, b []byte) []byte {
	b = append([]byte(nil), b...)
	for k := 1 + r.Intn(3); k > 0; k-- {
		switch r.Intn(7) {
		case 0: // truncate
			if len(b) > 0 {
				b = b[:r.Intn(len(b))]
			}
		case 1: // flip
			if len(b) > 0 {
				b[r.Intn(len(b))] ^= 1 << uint(r.Intn(8))
			}
		case 2: // replace by an extreme byte
			if len(b) > 0 {
				b[r.Intn(len(b))] = []byte{0, 0x7F, 0x80, 0xEF, 0xF0, 0xFF}[r.Intn(6)]
			}
		case 3: // insert a huge length
			i := r.Intn(len(b) + 1)
			v := ref.PutVarint(nil, []uint64{1 << 62, 1<<63 - 1, 1 << 63, math.MaxUint64, 1 << 31, 1 << 32, 70000}[r.Intn(7)])
			b = append(b[:i:i], append(v, b[i:]...)...)
		case 4: // overwrite with a huge length
			if len(b) > 0 {
				i := r.Intn(len(b))
				v := ref.PutVarint(nil, []uint64{1 << 62, 1<<63 - 1, 1 << 63, math.MaxUint64, 1 << 31, 300}[r.Intn(6)])
				b = append(b[:i], v...)
				if r.Intn(2) == 0 {
					b = append(b, genBytes(r, r.Intn(20))...)
				}
			}
		case 5: // delete
			if len(b) > 1 {
				i := r.Intn(len(b))
				b = append(b[:i:i], b[i+1:]...)
			}
		case 6: // duplicate a part
			if len(b) > 1 {
				i := r.Intn(len(b))
				j := i + r.Intn(len(b)-i)
				b = append(b[:j:j], b[i:]...)
			}
		}
	}
	return b
}
