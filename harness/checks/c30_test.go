package checks

import (
	"fmt"
	"math"
	"math/rand"
	"net/netip"
	"regexp"
	"strconv"
	"strings"
	"sync"
	"testing"

	"github.com/dropmorepackets/haproxy-go/peers"
	"github.com/dropmorepackets/haproxy-go/peers/sticktable"

	"verif/mon"
	"verif/ref"
)

// dataTypeNames are HAProxy's names of the data types, in protocol order.
var dataTypeNames = strings.Fields(`server_id gpt0 gpc0 gpc0_rate conn_cnt conn_rate conn_cur sess_cnt sess_rate
	http_req_cnt http_req_rate http_err_cnt http_err_rate bytes_in_cnt bytes_in_rate bytes_out_cnt bytes_out_rate
	gpc1 gpc1_rate server_key http_fail_cnt http_fail_rate gpt gpc gpc_rate glitch_cnt glitch_rate`)

func TestC30(t *testing.T) {
	c := mon.Start(t, "C30", "all identifiers the protocol can carry, and keys, data and updates of all types with boundary and random values, rendered as text, also concurrently: numbers and addresses are parsed back, strings compared, names compared with HAProxy's, and all renderings of one type kept to find two different values with one text. Evaluations are rendered values; non-trivial: distinct (type, value).")
	defer c.Finish()
	r := c.Rng
	c30Names(c)
	n := c.N(6000, 300000)
	seen := map[string]string{}
	var dict ref.DVal
	var shared []*sticktable.EntryUpdate
	var want []string
	for i := 0; i < n && !c.Stop() && c.TimeLeft(); i++ {
		d := genDef(r, 6)
		if r.Intn(20) == 0 {
			d = genDef(r, 24)
		}
		u := genUpdate(r, d)
		for k := range u.Data { // close to an earlier value
			v := &u.Data[k]
			if v.Kind != ref.KDict || v.ID == 0 {
				continue
			}
			if r.Intn(2) == 0 && dict.ID != 0 {
				*v = dict
				switch r.Intn(4) {
				case 0:
					v.ID++
				case 1:
					v.Val = append(append([]byte(nil), v.Val...), byte(r.Intn(256)))
				case 2:
					if n := len(v.Val); n > 1 {
						v.Val = v.Val[:n-1]
					}
				default:
					v.Val = genNear(r, v.Val)
				}
			}
			dict = *v
		}
		if r.Intn(4) == 0 { // close to an earlier value
			u.Key.B = genNear(r, u.Key.B)
			c.Count("near_keys", 1)
		}
		e := libUpdate(libDef(d), u)
		cas := fmt.Sprintf("seed %d update %d: %s", c.Seed, i, updString(u))
		c.Case("%s", cas)
		before := updString(u)
		c.Guard("panic", cas, func() {
			c30Key(c, cas, u.Key, e.Key, seen)
			for k := range u.Data {
				c30Data(c, cas, u.Data[k], e.Data[k], seen)
			}
			s := e.String()
			c30Update(c, cas, e, s)
			if s2 := fmt.Sprint(e); s2 != s {
				c.Violate("unstable", cas, "%q, then %q", s, s2)
			}
			if len(shared) < 64 {
				shared, want = append(shared, e), append(want, s)
			}
		})
		if got, err := refUpdate(e); err != nil || updString(got) != before {
			c.Violate("changed", cas, "rendering changed the update to %s", updString(got))
		}
		c.Eval(before)
	}
	// zero values and what decoding into them left half-way
	for kt := -2; kt < 12; kt++ {
		if k := sticktable.KeyType(kt).New(); k != nil {
			c.Guard("panic", "", func() { _ = k.String(); c.Eval(fmt.Sprint("zero key ", kt)) })
		}
	}
	for dt := -2; dt < 70; dt++ {
		if d := sticktable.DataType(dt).New(); d != nil {
			c.Guard("panic", "", func() { _ = d.String(); c.Eval(fmt.Sprint("zero data ", dt)) })
		}
	}
	var wg sync.WaitGroup
	for g := 0; g < 8; g++ {
		wg.Add(1)
		r := rand.New(rand.NewSource(r.Int63()))
		go func() {
			defer wg.Done()
			for k := 0; k < 400; k++ {
				i := r.Intn(len(shared))
				if s := shared[i].String(); s != want[i] {
					c.Violate("unstable", want[i], "concurrently rendered as %q", s)
					return
				}
				c.Count("concurrent_renderings", 1)
			}
		}()
	}
	wg.Wait()
}

// genNear changes little.
func genNear(r *rand.Rand, b []byte) []byte {
	b = append([]byte(nil), b...)
	if len(b) > 0 {
		b[r.Intn(len(b))] ^= 1 << r.Intn(8)
	}
	return b
}

// c30Once finds different values with the same text.
func c30Once(c *mon.C, cas string, seen map[string]string, kind, text, value string) {
	k := kind + "\x00" + text
	if v, ok := seen[k]; ok && v != value {
		c.Violate("ambiguous", cas, "%s %q is the text of %s and of %s", kind, text, tailOf([]byte(v)), tailOf([]byte(value)))
		return
	}
	seen[k] = value
}

func c30Key(c *mon.C, cas string, k ref.Key, m sticktable.MapKey, seen map[string]string) {
	s := m.String()
	c30Once(c, cas, seen, fmt.Sprintf("key %d", k.Type), s, string(k.B))
	c.Count(fmt.Sprintf("keys_of_type_%d", k.Type), 1)
	switch k.Type {
	case ref.KeySint:
		v := int32(uint32(k.B[0])<<24 | uint32(k.B[1])<<16 | uint32(k.B[2])<<8 | uint32(k.B[3]))
		if s != strconv.Itoa(int(v)) {
			c.Violate("key-text", cas, "integer key %d is rendered as %q", v, s)
		}
	case ref.KeyIPv4, ref.KeyIPv6:
		if a, err := netip.ParseAddr(s); err != nil || a != addrOf(k.B) {
			c.Violate("key-text", cas, "address key %v is rendered as %q", addrOf(k.B), s)
		}
	case ref.KeyString:
		if s != string(k.B) {
			c.Violate("key-text", cas, "string key %q is rendered as %q", k.B, s)
		}
	}
}

var number = regexp.MustCompile(`-?[0-9]+`)

func c30Data(c *mon.C, cas string, v ref.DVal, m sticktable.MapData, seen map[string]string) {
	s := m.String()
	c.Count(fmt.Sprintf("values_of_kind_%d", v.Kind), 1)
	switch v.Kind {
	case ref.KSint:
		if s != strconv.FormatInt(int64(int32(v.I)), 10) {
			c.Violate("data-text", cas, "%d is rendered as %q", int64(v.I), s)
		}
	case ref.KUint, ref.KUll:
		if s != strconv.FormatUint(v.I, 10) {
			c.Violate("data-text", cas, "%d is rendered as %q", v.I, s)
		}
	case ref.KFreq:
		c30Once(c, cas, seen, "rate", s, fmt.Sprint(v.F))
		for _, f := range v.F {
			found := false
			for _, n := range number.FindAllString(s, -1) {
				found = found || n == strconv.FormatUint(f, 10)
			}
			if !found {
				c.Violate("data-text", cas, "the rate %v is rendered as %q", v.F, s)
				return
			}
		}
	case ref.KDict:
		val := "no entry"
		if v.ID != 0 {
			val = fmt.Sprintf("%d %x", v.ID, v.Val)
		}
		c30Once(c, cas, seen, "dictionary entry", s, val)
	}
}

// c30Update wants id, key and all data with their names in the text.
func c30Update(c *mon.C, cas string, e *sticktable.EntryUpdate, s string) {
	if !strings.Contains(s, strconv.FormatUint(uint64(e.LocalUpdateID), 10)) {
		c.Violate("update-text", cas, "the update id %d is missing in %q", e.LocalUpdateID, tailOf([]byte(s)))
	}
	i := strings.Index(s, e.Key.String())
	if i < 0 {
		c.Violate("update-text", cas, "the key %q is missing in %q", tailOf([]byte(e.Key.String())), tailOf([]byte(s)))
		return
	}
	rest := s[i+len(e.Key.String()):]
	for k, d := range e.Data {
		for _, part := range []string{dataTypeNames[e.StickTable.DataTypes[k].DataType], d.String()} {
			i := strings.Index(rest, part)
			if i < 0 {
				c.Violate("update-text", cas, "%q of value %d is missing or in another place in %q", tailOf([]byte(part)), k, tailOf([]byte(s)))
				return
			}
			rest = rest[i+len(part):]
		}
	}
}

// c30Names renders all identifiers.
func c30Names(c *mon.C) {
	for i, n := range dataTypeNames {
		if s := sticktable.DataType(i).String(); s != n {
			c.Violate("name", fmt.Sprintf("data type %d", i), "named %q, HAProxy calls it %q", s, n)
		}
	}
	wide := []int{math.MinInt, math.MaxInt, math.MaxInt32, math.MinInt32}
	for i := -300; i < 1200; i++ {
		wide = append(wide, i)
	}
	kinds := map[string]struct {
		vals []int
		s    func(int) string
	}{
		"data type":        {wide, func(i int) string { return sticktable.DataType(i).String() }},
		"key type":         {wide, func(i int) string { return sticktable.KeyType(i).String() }},
		"handshake status": {wide, func(i int) string { return peers.HandshakeStatus(i).String() }},
	}
	var bytes []int
	for i := 0; i < 256; i++ {
		bytes = append(bytes, i)
	}
	add := func(n string, f func(int) string) {
		kinds[n] = struct {
			vals []int
			s    func(int) string
		}{bytes, f}
	}
	add("message class", func(i int) string { return peers.MessageClass(i).String() })
	add("control message type", func(i int) string { return peers.ControlMessageType(i).String() })
	add("error message type", func(i int) string { return peers.ErrorMessageType(i).String() })
	add("update message type", func(i int) string { return peers.StickTableUpdateMessageType(i).String() })
	for kind, k := range kinds {
		texts := map[string]int{}
		for _, v := range k.vals {
			cas := fmt.Sprintf("%s %d", kind, v)
			c.Case("%s", cas)
			c.Guard("panic", cas, func() {
				s := k.s(v)
				if s == "" {
					c.Violate("name", cas, "rendered as nothing")
				}
				if o, ok := texts[s]; ok {
					c.Violate("ambiguous", cas, "%q is the text of %d, too", s, o)
				}
				texts[s] = v
			})
			c.Eval(cas)
		}
	}
	c.Exhaustive("all 256 values of the four one-byte identifiers, -300..1199 and extremes of the others")
}
