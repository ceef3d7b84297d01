package checks

import (
	"bytes"
	"fmt"
	"math/rand"
	"net/netip"
	"testing"

	"github.com/dropmorepackets/haproxy-go/pkg/encoding"

	"verif/mon"
	"verif/ref"
)

// step is one ActionWriter call with the action it must produce.
type step struct {
	call    string
	act     ref.Action
	invalid bool // refused with an error
	do      func(w *encoding.ActionWriter) error
}

func (s step) String() string {
	if s.invalid {
		return s.call + " invalid"
	}
	return s.call + " " + s.act.String()
}

// genStep generates a call. All integers are encoded as INT64.
func genStep(r *rand.Rand, maxLen int, allowInvalid bool) step {
	sc := byte(r.Intn(5))
	name := genName(r, maxLen)
	k := r.Intn(13)
	if k == 12 && !allowInvalid {
		k = 0
	}
	a := ref.Action{Scope: sc, Name: name}
	switch k {
	case 0:
		v := genVal(r, ref.TString, maxLen)
		a.V = v
		s := string(v.Bytes)
		return step{"SetString", a, false, func(w *encoding.ActionWriter) error { return w.SetString(scopes[sc], name, s) }}
	case 1:
		v := genVal(r, ref.TString, maxLen)
		a.V = v
		return step{"SetStringBytes", a, false, func(w *encoding.ActionWriter) error { return w.SetStringBytes(scopes[sc], name, v.Bytes) }}
	case 2:
		v := genVal(r, ref.TBinary, maxLen)
		a.V = v
		if len(v.Bytes) == 0 && r.Intn(2) == 0 {
			v.Bytes = nil
		}
		return step{"SetBinary", a, false, func(w *encoding.ActionWriter) error { return w.SetBinary(scopes[sc], name, v.Bytes) }}
	case 3:
		return step{"SetNull", a, false, func(w *encoding.ActionWriter) error { return w.SetNull(scopes[sc], name) }}
	case 4:
		v := genVal(r, ref.TBool, 0)
		a.V = v
		return step{"SetBool", a, false, func(w *encoding.ActionWriter) error { return w.SetBool(scopes[sc], name, v.Bool) }}
	case 5:
		v := uint32(genInt(r))
		a.V = ref.Val{T: ref.TInt64, Int: uint64(v)}
		return step{"SetUInt32", a, false, func(w *encoding.ActionWriter) error { return w.SetUInt32(scopes[sc], name, v) }}
	case 6:
		v := int32(genInt(r))
		a.V = ref.Val{T: ref.TInt64, Int: uint64(int64(v))}
		return step{"SetInt32", a, false, func(w *encoding.ActionWriter) error { return w.SetInt32(scopes[sc], name, v) }}
	case 7:
		v := int64(genInt(r))
		a.V = ref.Val{T: ref.TInt64, Int: uint64(v)}
		return step{"SetInt64", a, false, func(w *encoding.ActionWriter) error { return w.SetInt64(scopes[sc], name, v) }}
	case 8:
		v := genInt(r)
		a.V = ref.Val{T: ref.TInt64, Int: v}
		return step{"SetUInt64", a, false, func(w *encoding.ActionWriter) error { return w.SetUInt64(scopes[sc], name, v) }}
	case 9, 10:
		v := genVal(r, byte(ref.TIPv4+k-9), 0)
		a.V = v
		addr := addrOf(v.Bytes)
		if addr.Is6() && !addr.Is4In6() && r.Intn(4) == 0 {
			addr = addr.WithZone("eth0") // has no encoding
		}
		return step{"SetAddr", a, false, func(w *encoding.ActionWriter) error { return w.SetAddr(scopes[sc], name, addr) }}
	case 11:
		a.Unset = true
		return step{"Unset", a, false, func(w *encoding.ActionWriter) error { return w.Unset(scopes[sc], name) }}
	}
	return step{"SetAddr", a, true, func(w *encoding.ActionWriter) error { return w.SetAddr(scopes[sc], name, netip.Addr{}) }}
}

// list makes slices of the library's unexported types nameable.
func list[T any](v ...T) []T { return v }

// scopes are the variable scopes by wire value.
var scopes = list(encoding.VarScopeProcess, encoding.VarScopeSession, encoding.VarScopeTransaction,
	encoding.VarScopeRequest, encoding.VarScopeResponse)

func TestC03(t *testing.T) {
	c := mon.Start(t, "C03", "histories of ActionWriter calls (all setters, all scopes, names/values 0..~2300 bytes around encoding boundaries and up to 70000, invalid addresses) on writers with initial sizes 0.. and offsets, so that growth happens at every point of an action. Non-trivial: distinct history.")
	defer c.Finish()
	r := c.Rng

	run := func(steps []step, size, off int, desc string) {
		c.Guard("panic", desc, func() {
			backing := bytes.Repeat([]byte{0x5A}, size+16)
			buf := backing[:size:size]
			for i := 0; i < off; i++ {
				buf[i] = byte(i*7) ^ 0x21
			}
			w := encoding.NewActionWriter(buf, off)
			if r.Intn(3) == 0 {
				w = encoding.AcquireActionWriter(buf, off)
				defer encoding.ReleaseActionWriter(w)
			}
			model := append([]byte(nil), buf[:off]...)
			for i, s := range steps {
				err := s.do(w)
				if s.invalid != (err != nil) {
					c.Violate("wrong-verdict", desc, "step %d %v: err %v", i, s, err)
					return
				}
				if err == nil {
					model = ref.AppendAction(model, s.act)
				} else {
					c.Count("refused_actions", 1)
				}
				if w.Off() != len(model) || !bytes.Equal(w.Bytes(), model) {
					c.Violate("wrong-bytes", desc, "after step %d %v (err %v): off %d want %d\n got %x\nwant %x", i, s, err, w.Off(), len(model), tailOf(w.Bytes()), tailOf(model))
					return
				}
				c.Count("actions", 1)
			}
			for _, b := range backing[size:] {
				if b != 0x5A {
					c.Violate("write-behind-buffer", desc, "bytes behind the initial buffer were written")
					return
				}
			}
			got, err := ref.ParseActions(w.Bytes()[off:])
			if err != nil {
				c.Violate("unparsable", desc, "%v", err)
			}
			c.Count("parsed_actions", len(got))
		})
	}

	// growth at every point of a single action
	for trial := 0; trial < c.N(60, 2000) && !c.Stop() && c.TimeLeft(); trial++ {
		s := genStep(r, 260, true)
		need := len(ref.AppendAction(nil, s.act))
		for size := 0; size <= need+1 && size < 600; size++ {
			desc := fmt.Sprintf("single %v, initial size %d", s, size)
			run([]step{s}, size, 0, desc)
			c.Eval(desc)
		}
	}
	for i := 0; i < c.N(9000, 300000) && !c.Stop() && c.TimeLeft(); i++ {
		maxLen := 30
		if i%10 == 0 {
			maxLen = 2400
		}
		n := 1 + r.Intn(10)
		steps := make([]step, n)
		for j := range steps {
			steps[j] = genStep(r, maxLen, true)
		}
		size := r.Intn(200)
		if r.Intn(4) == 0 {
			size = r.Intn(8)
		}
		off := 0
		if size > 0 && r.Intn(2) == 0 {
			off = r.Intn(size + 1)
		}
		desc := fmt.Sprintf("seed %d case %d: size %d off %d %v", c.Seed, i, size, off, steps)
		run(steps, size, off, desc)
		c.Eval(desc)
		if i < 3 {
			c.Sample("%s", desc)
		}
	}
	// large values and names
	for _, l := range []int{32767, 65534, 65535, 65536, 70000, 264431, 264432, 264433, 1<<20 + 5, 3 << 20} {
		for k, size := range []int{0, 100, 65535, 1 << 20} {
			v := genBytes(r, l)
			sc := byte(r.Intn(5))
			a := ref.Action{Scope: sc, Name: "big", V: ref.Val{T: ref.TString, Bytes: v}}
			s := step{call: "SetStringBytes", act: a, do: func(w *encoding.ActionWriter) error { return w.SetStringBytes(scopes[sc], "big", v) }}
			switch (l + k + int(c.Seed)) % 5 {
			case 0, 1:
				a.V.T = ref.TBinary
				s = step{call: "SetBinary", act: a, do: func(w *encoding.ActionWriter) error { return w.SetBinary(scopes[sc], "big", v) }}
			case 2:
				s = step{call: "SetString", act: a, do: func(w *encoding.ActionWriter) error { return w.SetString(scopes[sc], "big", string(v)) }}
			case 3:
				a = ref.Action{Scope: sc, Name: string(v), V: ref.Val{T: ref.TBool, Bool: true}}
				s = step{call: "SetBool", act: a, do: func(w *encoding.ActionWriter) error { return w.SetBool(scopes[sc], string(v), true) }}
			}
			steps := []step{genStep(r, 20, true), s, genStep(r, 20, true)}
			desc := fmt.Sprintf("large %s %d, size %d", s.call, l, size)
			run(steps, size, size/2, desc)
			c.Eval(desc)
		}
	}
}
