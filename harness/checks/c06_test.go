package checks

import (
	"bytes"
	"fmt"
	"math/rand"
	"net/netip"
	"reflect"
	"strings"
	"testing"
	"time"

	"github.com/dropmorepackets/haproxy-go/pkg/encoding"

	"verif/mon"
	"verif/ref"
)

type (
	namedString string
	namedBytes  []byte
	namedInt64  int64
	inner       struct{ A string }
)

// fieldTypes maps supported field types to the wire types they accept.
var fieldTypes = []struct {
	t    reflect.Type
	wire []byte
}{
	{reflect.TypeOf(""), []byte{ref.TString}},
	{reflect.TypeOf([]byte(nil)), []byte{ref.TString, ref.TBinary}},
	{reflect.TypeOf(int32(0)), []byte{ref.TInt32}},
	{reflect.TypeOf(int64(0)), []byte{ref.TInt64}},
	{reflect.TypeOf(uint32(0)), []byte{ref.TUint32}},
	{reflect.TypeOf(uint64(0)), []byte{ref.TUint64}},
	{reflect.TypeOf(false), []byte{ref.TBool}},
	{reflect.TypeOf(netip.Addr{}), []byte{ref.TIPv4, ref.TIPv6}},
	{reflect.TypeOf(namedString("")), []byte{ref.TString}},
	{reflect.TypeOf(namedBytes(nil)), []byte{ref.TString, ref.TBinary}},
	{reflect.TypeOf(namedInt64(0)), []byte{ref.TInt64}},
}

var unsupported = []reflect.Type{
	reflect.TypeOf(int(0)), reflect.TypeOf(uint(0)), reflect.TypeOf(int8(0)), reflect.TypeOf(uint16(0)),
	reflect.TypeOf(0.5), reflect.TypeOf([]string(nil)), reflect.TypeOf(map[string]string(nil)), reflect.TypeOf([4]byte{}),
	reflect.TypeOf(inner{}), reflect.TypeOf(struct{}{}), reflect.TypeOf((*any)(nil)).Elem(), reflect.TypeOf(func() {}),
	reflect.TypeOf(make(chan int)), reflect.TypeOf(time.Time{}), reflect.TypeOf((**string)(nil)), reflect.TypeOf([]int32(nil)),
	reflect.TypeOf((*fmt.Stringer)(nil)).Elem(), reflect.TypeOf(complex64(0)), reflect.TypeOf(netip.AddrPort{}),
}

func accepts(t reflect.Type, wire byte) bool {
	if t.Kind() == reflect.Pointer {
		return wire == ref.TNull || t.Elem().Kind() != reflect.Pointer && accepts(t.Elem(), wire)
	}
	for _, f := range fieldTypes {
		if f.t == t {
			return bytes.IndexByte(f.wire, wire) >= 0
		}
	}
	return false
}

// fieldHas compares a field with the wire value it must hold.
func fieldHas(f reflect.Value, v ref.Val) bool {
	if f.Kind() == reflect.Pointer {
		if v.T == ref.TNull {
			return f.IsNil()
		}
		return !f.IsNil() && fieldHas(f.Elem(), v)
	}
	switch v.T {
	case ref.TBool:
		return f.Bool() == v.Bool
	case ref.TInt32:
		return f.Int() == int64(int32(v.Int))
	case ref.TInt64:
		return f.Int() == int64(v.Int)
	case ref.TUint32:
		return f.Uint() == uint64(uint32(v.Int))
	case ref.TUint64:
		return f.Uint() == v.Int
	case ref.TIPv4, ref.TIPv6:
		return f.Interface().(netip.Addr) == addrOf(v.Bytes)
	case ref.TString, ref.TBinary:
		if f.Kind() == reflect.String {
			return f.String() == string(v.Bytes)
		}
		return bytes.Equal(f.Bytes(), v.Bytes)
	}
	return false
}

// prefill gives every settable field some content.
func prefill(r *rand.Rand, s reflect.Value) {
	for i := 0; i < s.NumField(); i++ {
		f := s.Field(i)
		if !f.CanSet() {
			continue
		}
		fillValue(r, f)
	}
}

func fillValue(r *rand.Rand, f reflect.Value) {
	switch f.Kind() {
	case reflect.String:
		f.SetString("before")
	case reflect.Bool:
		f.SetBool(true)
	case reflect.Int, reflect.Int8, reflect.Int32, reflect.Int64:
		f.SetInt(int64(1 + r.Intn(99)))
	case reflect.Uint, reflect.Uint16, reflect.Uint32, reflect.Uint64:
		f.SetUint(uint64(1 + r.Intn(99)))
	case reflect.Slice:
		if f.Type().Elem().Kind() == reflect.Uint8 {
			f.SetBytes([]byte("before and long enough to be reused in place"))
		}
	case reflect.Pointer:
		p := reflect.New(f.Type().Elem())
		fillValue(r, p.Elem())
		f.Set(p)
	case reflect.Struct:
		if f.Type() == reflect.TypeOf(netip.Addr{}) {
			f.Set(reflect.ValueOf(netip.MustParseAddr("10.9.8.7")))
		}
	}
}

// snapshot deep-copies what fieldUnchanged compares.
func snapshot(f reflect.Value) any {
	switch {
	case !f.CanInterface():
		return nil
	case f.Kind() == reflect.Pointer:
		if f.IsNil() {
			return nil
		}
		return snapshot(f.Elem())
	case f.Kind() == reflect.Slice && f.Type().Elem().Kind() == reflect.Uint8:
		return string(f.Bytes())
	case f.Kind() == reflect.Func, f.Kind() == reflect.Chan, f.Kind() == reflect.Map:
		return f.IsNil()
	}
	return f.Interface()
}

type tField struct {
	key      string
	t        reflect.Type
	settable bool
}

func TestC06(t *testing.T) {
	c := mon.Start(t, "C06", "every field type (supported, pointer, unsupported, named) x every wire type; random struct types built with reflection, prefilled, with unknown keys, duplicates, options in tags; truncated and mutated payloads; structs with unexported fields; invalid targets. Non-trivial: distinct (struct type, payload).")
	defer c.Finish()
	r := c.Rng

	// one runs Unmarshal on a fresh prefilled struct and judges the result.
	run := func(st reflect.Type, payload []byte, count int) {
		in := fenced(r, payload)
		src := append([]byte(nil), in...)
		cas := fmt.Sprintf("struct %v count %d payload %x", st, count, payload)
		c.Case("%s", cas)
		c.Guard("panic", cas, func() {
			pv := reflect.New(st)
			s := pv.Elem()
			prefill(r, s)
			before := make([]any, s.NumField())
			var kept []reflect.Value // copies that share memory with the struct
			for i := range before {
				before[i] = snapshot(s.Field(i))
				k := reflect.New(s.Field(i).Type()).Elem()
				if s.Field(i).CanSet() {
					k.Set(s.Field(i))
				}
				kept = append(kept, k)
			}
			var fields []tField
			for i := 0; i < st.NumField(); i++ {
				f := st.Field(i)
				tag := f.Tag.Get("spoe")
				if tag == "-" {
					tag = ""
				}
				fields = append(fields, tField{strings.Split(tag, ",")[0], f.Type, f.IsExported()})
			}
			kvs, _, perr := ref.ParseKVs(src, count)
			mustFail := perr != nil
			mayFail := mustFail
			values := map[int][]ref.Val{}
			for _, kv := range kvs {
				for i, f := range fields {
					if f.key == "" || f.key != kv.Name {
						continue
					}
					if !f.settable || !accepts(f.t, kv.V.T) {
						mustFail = true
					}
					values[i] = append(values[i], kv.V)
					break
				}
			}
			for _, f := range fields {
				if f.key != "" && (!f.settable || !supportedType(f.t)) {
					mayFail = true // an unsupported field that was not (really) set
				}
			}
			sc := encoding.NewKVScanner(in, count)
			err := sc.Unmarshal(pv.Interface())
			for i, k := range kept {
				if got := snapshot(k); s.Field(i).CanSet() && !reflect.DeepEqual(got, before[i]) {
					c.Violate("earlier-value-changed", cas, "what was taken from field %d %v is now %v, was %v", i, fields[i], got, before[i])
				}
			}
			if mustFail && err == nil {
				c.Violate("no-error", cas, "entries %v (parse error %v) unmarshalled without error", kvs, perr)
				return
			}
			if !mustFail && !mayFail && err != nil {
				c.Violate("spurious-error", cas, "entries %v: %v", kvs, err)
				return
			}
			if err != nil {
				c.Count("errors_reported", 1)
				return
			}
			c.Count("unmarshalled", 1)
			for round := 0; round < 2; round++ {
				for i, f := range fields {
					fv := s.Field(i)
					if vs := values[i]; len(vs) > 0 {
						ok := false
						for _, v := range vs {
							ok = ok || fieldHas(fv, v)
						}
						if !ok {
							c.Violate([]string{"wrong-value", "aliased"}[round], cas, "field %d %v = %v (round %d), want %v", i, f, snapshot(fv), round, vs)
						}
						c.Count("fields_set", 1)
						continue
					}
					if f.key != "" && f.t.Kind() == reflect.Pointer {
						if !fv.IsNil() {
							c.Violate("optional-not-cleared", cas, "field %d %v still set", i, f)
						}
						continue
					}
					if got := snapshot(fv); !reflect.DeepEqual(got, before[i]) {
						c.Violate("untouched-field-changed", cas, "field %d %v = %v, was %v", i, f, got, before[i])
					}
				}
				if round == 0 && !bytes.Equal(src, in) {
					c.Violate("input-modified", cas, "now %x", in)
				}
				// overwrite the source, the values must not change
				for i := range in {
					in[i] = 0xAA
				}
			}
		})
		c.Eval(cas)
	}
	field := func(i int, t reflect.Type, tag string) reflect.StructField {
		return reflect.StructField{Name: fmt.Sprintf("F%d", i), Type: t, Tag: reflect.StructTag(fmt.Sprintf("json:%q spoe:%q", "x", tag))}
	}
	var all []reflect.Type
	for _, f := range fieldTypes {
		all = append(all, f.t)
	}
	all = append(all, unsupported...)

	// the full matrix
	for _, ft := range all {
		for _, ptr := range []bool{false, true} {
			t := ft
			if ptr {
				t = reflect.PointerTo(ft)
			}
			st := reflect.StructOf([]reflect.StructField{field(0, t, "key"), field(1, reflect.TypeOf(""), "other")})
			for wire := byte(0); wire < 10; wire++ {
				for k := 0; k < c.N(4, 40); k++ {
					v := genVal(r, wire, 300)
					run(st, ref.KVs(ref.KV{Name: "key", V: v}), -1)
				}
				run(st, ref.KVs(ref.KV{Name: "keys", V: genVal(r, wire, 9)}, ref.KV{Name: "ke", V: genVal(r, wire, 9)}, ref.KV{Name: "", V: genVal(r, wire, 9)}), -1)
			}
			run(st, nil, -1)
		}
	}
	c.Exhaustive("field type x wire type matrix")

	usual := []string{"a", "b", "key", "client-ip", "max-frame-size", "x.y", "A", "headers", "é"}
	tagOf := func(k string) string { return k + []string{"", "", ",omitempty", ",a,b"}[r.Intn(4)] }
	for i := 0; i < c.N(2500, 60000) && !c.Stop() && c.TimeLeft(); i++ {
		n, keys, maxLen := 1+r.Intn(6), usual, 60
		if i%25 == 3 { // many fields, long names, large values
			n, maxLen, keys = 1+r.Intn(90), 3000, nil
			for j := 0; j < n; j++ {
				keys = append(keys, fmt.Sprintf("%s-%d", strings.Repeat("k", r.Intn(4)*r.Intn(100)), j))
			}
		}
		var sf []reflect.StructField
		perm := r.Perm(len(keys))
		for j := 0; j < n; j++ {
			t := fieldTypes[r.Intn(len(fieldTypes))].t
			if r.Intn(30) == 0 {
				t = unsupported[r.Intn(len(unsupported))]
			}
			if r.Intn(3) == 0 {
				t = reflect.PointerTo(t)
			}
			tag := tagOf(keys[perm[j]])
			switch r.Intn(12) {
			case 0:
				tag = "-"
			case 1:
				tag = ",omitempty"
			}
			f := field(j, t, tag)
			if r.Intn(15) == 0 {
				f.Tag = ""
			}
			sf = append(sf, f)
		}
		st := reflect.StructOf(sf)
		for k := 0; k < 6; k++ {
			var kvs []ref.KV
			for j, f := range sf {
				if r.Intn(3) == 0 {
					continue
				}
				var ok []byte
				for w := byte(0); w < 10; w++ {
					if accepts(f.Type, w) {
						ok = append(ok, w)
					}
				}
				w := byte(r.Intn(10))
				if len(ok) > 0 && r.Intn(12) > 0 {
					w = ok[r.Intn(len(ok))]
				}
				kvs = append(kvs, ref.KV{Name: keys[perm[j]], V: genVal(r, w, maxLen)})
				if len(keys) > len(usual) && w >= ref.TString && r.Intn(60) == 0 {
					kvs[len(kvs)-1].V.Bytes = genBytes(r, 65530+r.Intn(9000))
				}
				if r.Intn(10) == 0 {
					kvs = append(kvs, ref.KV{Name: keys[perm[j]], V: genVal(r, w, 60)})
				}
			}
			for r.Intn(3) == 0 {
				kvs = append(kvs, ref.KV{Name: "unknown" + genName(r, 10), V: genAnyVal(r, 30)})
			}
			r.Shuffle(len(kvs), func(a, b int) { kvs[a], kvs[b] = kvs[b], kvs[a] })
			p := ref.KVs(kvs...)
			run(st, p, -1)
			switch r.Intn(3) {
			case 0:
				run(st, hostile(r, p), -1)
			case 1:
				if len(p) > 0 {
					run(st, p[:r.Intn(len(p))], -1)
				}
			case 2:
				run(st, p, r.Intn(len(kvs)+2))
			}
		}
		if i < 3 {
			c.Sample("struct %v", st)
		}
	}

	// unexported fields
	type unexported struct {
		A string  `spoe:"a"`
		b string  `spoe:"b"`
		c *string `spoe:"c"`
		D *int64  `spoe:"d"`
	}
	type embedded struct {
		inner `spoe:"a"`
		B     string `spoe:"b"`
	}
	_ = unexported{b: "", c: nil}
	for _, st := range []reflect.Type{reflect.TypeOf(unexported{}), reflect.TypeOf(embedded{}), reflect.TypeOf(struct{}{})} {
		for _, names := range []string{"", "a", "b", "c", "d", "ab", "ad", "abcd"} {
			for w := byte(0); w < 10; w++ {
				var kvs []ref.KV
				for _, x := range names {
					kvs = append(kvs, ref.KV{Name: string(x), V: genVal(r, w, 10)})
				}
				run(st, ref.KVs(kvs...), -1)
			}
		}
	}
	// targets that are no structs
	var nilp *inner
	for _, target := range []any{nil, 1, "x", inner{}, nilp, new(int), new(string), []byte("x"), map[string]string{}, new(*inner), new(any), func() {}} {
		cas := fmt.Sprintf("target %T", target)
		c.Case("%s", cas)
		c.Guard("panic", cas, func() {
			if err := encoding.NewKVScanner(ref.KVs(ref.KV{Name: "A", V: ref.Val{T: ref.TString}}), -1).Unmarshal(target); err == nil {
				c.Violate("no-error", cas, "accepted")
			}
		})
		c.Eval(cas)
	}
}

func supportedType(t reflect.Type) bool {
	if t.Kind() == reflect.Pointer {
		t = t.Elem()
	}
	for _, f := range fieldTypes {
		if f.t == t {
			return true
		}
	}
	return false
}
