package checks

import (
	"bytes"
	"io"
	"math/rand"
	"net/netip"
	"sync"

	"github.com/dropmorepackets/haproxy-go/peers"
	"github.com/dropmorepackets/haproxy-go/peers/sticktable"
	"github.com/dropmorepackets/haproxy-go/pkg/buffer"
	"github.com/dropmorepackets/haproxy-go/pkg/encoding"
	"github.com/dropmorepackets/haproxy-go/pkg/testutil"
	"github.com/dropmorepackets/haproxy-go/spop"

	"verif/mon"
	"verif/ref"
)

// raceStruct has a field of every type.
type raceStruct struct {
	S  string      `spoe:"s"`
	B  []byte      `spoe:"b"`
	I  int32       `spoe:"i"`
	L  int64       `spoe:"l"`
	U  uint32      `spoe:"u"`
	UL uint64      `spoe:"ul"`
	T  bool        `spoe:"t"`
	A  netip.Addr  `spoe:"a"`
	P  *string     `spoe:"p"`
	Q  *netip.Addr `spoe:"q"`
}

// setAll calls every setter of an action writer.
func setAll(r *rand.Rand, w *encoding.ActionWriter) {
	name := genName(r, 300)
	b := genBytes(r, r.Intn(300))
	for _, i := range r.Perm(12) {
		switch i {
		case 0:
			_ = w.SetString(encoding.VarScopeProcess, name, string(b))
		case 1:
			_ = w.SetStringBytes(encoding.VarScopeSession, name, b)
		case 2:
			_ = w.SetBinary(encoding.VarScopeTransaction, name, b)
		case 3:
			_ = w.SetNull(encoding.VarScopeRequest, name)
		case 4:
			_ = w.SetBool(encoding.VarScopeResponse, name, r.Intn(2) == 0)
		case 5:
			_ = w.SetInt32(encoding.VarScopeProcess, name, int32(genInt(r)))
		case 6:
			_ = w.SetInt64(encoding.VarScopeProcess, name, int64(genInt(r)))
		case 7:
			_ = w.SetUInt32(encoding.VarScopeProcess, name, uint32(genInt(r)))
		case 8:
			_ = w.SetUInt64(encoding.VarScopeProcess, name, genInt(r))
		case 9:
			_ = w.SetAddr(encoding.VarScopeProcess, name, addrOf(genBytes(r, 4+12*r.Intn(2))))
			_ = w.SetAddr(encoding.VarScopeProcess, name, netip.Addr{})
		case 10:
			_ = w.Unset(encoding.VarScopeProcess, name)
		case 11:
			_, _ = w.Off(), w.Bytes()
		}
	}
}

// readAll uses an entry in every way.
func readAll(e *encoding.KVEntry) {
	_, _, _ = e.NameEquals("s"), e.NameEqualBytes([]byte("b")), e.NameEqualUnsafe("l")
	_, _, _, _, _ = e.ValueInt(), e.ValueBool(), e.ValueBytes(), e.Type(), e.Value()
	if t := e.Type(); t == encoding.DataTypeIPV4 || t == encoding.DataTypeIPV6 {
		_ = e.ValueAddr()
	}
}

// codecRound uses every codec on objects of its own, and reads shared ones.
func codecRound(r *rand.Rand, shared []*sticktable.EntryUpdate) {
	var kvs []ref.KV
	for i, n := range []string{"s", "b", "i", "l", "u", "ul", "t", "a", "p", "q"} {
		t := []byte{ref.TString, ref.TBinary, ref.TInt32, ref.TInt64, ref.TUint32, ref.TUint64, ref.TBool, ref.TIPv4, ref.TString, ref.TIPv6}[i]
		kvs = append(kvs, ref.KV{Name: n, V: genVal(r, t, 50)})
	}
	kvs = append(kvs, genKVs(r, 4, 40)...)
	payload := ref.KVs(kvs...)
	if r.Intn(4) == 0 {
		payload = hostile(r, payload)
	}

	// scanners and structs
	var dst raceStruct
	_ = encoding.NewKVScanner(payload, -1).Unmarshal(&dst)
	s := encoding.AcquireKVScanner(payload, len(kvs))
	e := encoding.AcquireKVEntry()
	for s.Next(e) {
		readAll(e)
		_ = s.RemainingBuf()
	}
	_ = s.Error()
	encoding.ReleaseKVEntry(e)
	encoding.ReleaseKVScanner(s)
	msg := ref.Msgs(genMsgs(r, 3, 5, 30)...)
	ms := encoding.AcquireMessageScanner(msg)
	m := encoding.AcquireMessage()
	for ms.Next(m) {
		_ = m.NameBytes()
		if r.Intn(2) == 0 {
			_ = m.KV.Unmarshal(&dst)
		}
	}
	_ = ms.Error()
	encoding.ReleaseMessage(m)
	encoding.ReleaseMessageScanner(ms)

	// writers
	aw := encoding.AcquireActionWriter(make([]byte, r.Intn(100)), 0)
	setAll(r, aw)
	encoding.ReleaseActionWriter(aw)
	kw := encoding.AcquireKVWriter(make([]byte, r.Intn(500)), 0)
	for _, kv := range kvs {
		_ = writeKV(kw, kv)
	}
	encoding.ReleaseKVWriter(kw)

	// numbers
	var b [16]byte
	v := genInt(r)
	n, _ := encoding.PutVarint(b[:], v)
	_, _, _ = encoding.Varint(b[:n])
	_, _ = encoding.ReadVarint(bytes.NewReader(b[:n]))

	// frames
	_, _ = (&spop.AgentHelloFrame{Version: "2.0", Capabilities: []string{"a", "b"}, MaxFrameSize: uint32(v)}).WriteTo(io.Discard)
	_, _ = (&spop.AgentDisconnectFrame{ErrCode: spop.ErrorRes}).WriteTo(io.Discard)
	_, _ = (&spop.AckFrame{StreamID: v, FrameID: v, ActionWriterCallback: func(w *encoding.ActionWriter) error {
		setAll(r, w)
		return nil
	}}).WriteTo(io.Discard)

	// stick tables
	d := genDef(r, 6)
	u := genUpdate(r, d)
	buf := make([]byte, 1+r.Intn(2000))
	ld := libDef(d)
	le := libUpdate(ld, u)
	if n, err := ld.Marshal(buf); err == nil {
		var d2 sticktable.Definition
		_, _ = d2.Unmarshal(buf[:n])
	}
	if n, err := le.Marshal(buf); err == nil {
		e2 := sticktable.EntryUpdate{StickTable: ld, WithExpiry: le.WithExpiry, WithLocalUpdateID: le.WithLocalUpdateID}
		_, _ = e2.Unmarshal(buf[:n])
		_ = e2.String()
	}
	_ = le.String()
	sh := shared[r.Intn(len(shared))]
	_, _ = sh.StickTable.Marshal(buf)
	_, _ = sh.Marshal(buf)
	_ = sh.String()
	_ = refDef(sh.StickTable)
	dt, kt := sticktable.DataType(r.Intn(40)), sticktable.KeyType(r.Intn(12))
	_, _, _, _, _ = dt.String(), dt.IsDelay(), dt.New(), kt.String(), kt.New()

	// handshakes and identifiers
	h := peers.NewHandshake(genName(r, 20))
	var hb bytes.Buffer
	_, _ = h.WriteTo(&hb)
	_, _ = h.ReadFrom(&hb)
	_ = peers.MessageClass(v).String() + peers.ControlMessageType(v).String() + peers.ErrorMessageType(v).String() +
		peers.StickTableUpdateMessageType(v).String() + peers.HandshakeStatus(v%600).String()

	// buffers and readers
	sb := buffer.NewSliceBuffer(64)
	copy(sb.WriteNBytes(32), payload)
	sb.Grow(100)
	copy(sb.WriteBytes(), payload)
	sb.AdvanceW(10)
	_ = sb.ReadNBytes(20)
	sb.AdvanceR(1)
	_, _ = sb.Len(), sb.ReadBytes()
	sb.Reset()
	_, _ = io.ReadFull(testutil.NewRepeatReader([]byte("abc")), buf)
}

// c24Codecs lets goroutines that share nothing but read-only objects use all
// codecs at the same time. They are not synchronised in any way.
func c24Codecs(c *mon.C, r *rand.Rand) {
	var shared []*sticktable.EntryUpdate
	for i := 0; i < 8; i++ {
		d := genDef(r, 6)
		shared = append(shared, libUpdate(libDef(d), genUpdate(r, d)))
	}
	n := c.N(250, 5000)
	var wg sync.WaitGroup
	for g := 0; g < 8; g++ {
		seed := r.Int63()
		c.EvalHash(uint64(seed))
		wg.Add(1)
		go func() {
			defer wg.Done()
			r := rand.New(rand.NewSource(seed))
			for k := 0; k < n; k++ {
				if k%16 == 0 && !c.TimeLeft() {
					return
				}
				codecRound(r, shared)
			}
		}()
	}
	wg.Wait()
	c.Count("codec_rounds", 8*n)
}
