package checks

import (
	"context"
	"fmt"
	"math/rand"
	"net"
	"sync"
	"testing"
	"testing/synctest"
	"time"

	"github.com/dropmorepackets/haproxy-go/peers"
	"github.com/dropmorepackets/haproxy-go/peers/sticktable"

	"verif/mon"
	"verif/ref"
)

const (
	hbEvery  = 3 * time.Second
	deadTime = 5 * time.Second
	slack    = 100 * time.Millisecond // virtual time has no jitter, so this is generous
)

// livePeer is one connection with its schedule.
type livePeer struct {
	*pclient
	what     string
	r        *rand.Rand
	lastSent time.Time
	start    time.Time
	mu       sync.Mutex
	canceled time.Time
}

// peerMsg makes one valid message of the given kind.
func peerMsg(r *rand.Rand, kind int, d ref.Def) ref.PMsg {
	switch kind {
	case 0, 1, 2, 3, 4:
		return ref.Control(byte(kind))
	case 5:
		return ref.DefMsg(d)
	case 6:
		return ref.SwitchMsg(d.ID)
	case 7:
		return ref.AckMsg(d.ID, r.Uint32())
	}
	u := genUpdate(r, d)
	if kind == 8 {
		u.HasID = true
	}
	return ref.UpdateMsg(u)
}

func TestC21(t *testing.T) {
	c := mon.Start(t, "C21", "1..8 peers with their own schedules in virtual time: gaps up to 4.99 s between messages of one kind or all kinds for up to hours, slow handlers, slow handshake callbacks, pushes by the application, then silence; the times of every write, of the close and of the cancellation are compared with the 3 s and 5 s rules. Plus silent and talking peers over TCP in real time with generous limits. Evaluations are peers; non-trivial: distinct schedule.")
	defer c.Finish()
	r := c.Rng
	if c.Proc() == 0 {
		manyUpdates(c, t)
	}
	var bg sync.WaitGroup
	bg.Add(1)
	go func() {
		defer bg.Done()
		if c.Proc() == 0 {
			bg.Add(1)
			go func() {
				defer bg.Done()
				c21Stalled(c)
			}()
			c21TCP(c)
		}
	}()
	defer bg.Wait()
	n := c.N(60, 1200)
	for b := 0; b < n && !c.Stop() && c.TimeLeft(); b++ {
		bubble(c, t, fmt.Sprintf("bubble %d", b), func() {
			w := newPWorld(c)
			defer w.cancel()
			for s := 0; s < 4 && !c.Stop(); s++ {
				var wg sync.WaitGroup
				for k := 1 + r.Intn(8); k > 0; k-- {
					cas := fmt.Sprintf("seed %d bubble %d round %d peer %d", c.Seed, b, s, k)
					p := newLivePeer(c, r, w)
					c.Case("%s %s", cas, p.what)
					c.Sample("%s", p.what)
					c.Eval(fmt.Sprint(cas, p.what))
					wg.Add(1)
					go func() {
						defer wg.Done()
						p.live(c, cas+" "+p.what)
					}()
				}
				wg.Wait()
				synctest.Wait()
				w.forget()
			}
		})
	}
}

func newLivePeer(c *mon.C, r *rand.Rand, w *pworld) *livePeer {
	p := &livePeer{r: rand.New(rand.NewSource(r.Int63()))}
	hsDelay, slow, pushes := time.Duration(0), 0, 0
	if r.Intn(4) == 0 {
		hsDelay = time.Duration(r.Intn(25000)) * time.Millisecond
	}
	if r.Intn(3) == 0 {
		slow = 1 + r.Intn(4)
	}
	if r.Intn(3) == 0 {
		pushes = 1 + r.Intn(3)
	}
	hr := rand.New(rand.NewSource(r.Int63()))
	p.what = fmt.Sprintf("handshake callback takes %v, slow handlers %d, pushes %d", hsDelay, slow, pushes)
	p.start = time.Now()
	p.pclient = w.dial(nil, func(h *phandler) {
		h.onHS = func(ctx context.Context) {
			context.AfterFunc(ctx, func() {
				p.mu.Lock()
				p.canceled = time.Now()
				p.mu.Unlock()
			})
			if pushes > 0 {
				pw := peers.WriterFromContext(ctx)
				gap := []time.Duration{300 * time.Millisecond, 2900 * time.Millisecond, 4 * time.Second}[pushes-1]
				go func() {
					k := sticktable.StringKey("k")
					d := &sticktable.Definition{KeyType: sticktable.KeyTypeString, KeyLength: 10}
					for ctx.Err() == nil {
						pw.SendEntry(&sticktable.EntryUpdate{StickTable: d, Key: &k})
						select {
						case <-time.After(gap):
						case <-ctx.Done():
						}
					}
				}()
			}
			time.Sleep(hsDelay)
		}
		h.onUpd = func(context.Context) {
			if slow > 0 && hr.Intn(6) == 0 {
				time.Sleep(time.Duration(hr.Intn(slow*6000)) * time.Millisecond)
			}
		}
	})
	p.send(genHandshake(p.r).Bytes())
	p.lastSent = time.Now()
	return p
}

func (p *livePeer) say(b []byte) {
	p.send(b)
	p.lastSent = time.Now()
}

// alive fails if the connection was closed although the peer has sent
// something within the last 5 seconds.
func (p *livePeer) alive(c *mon.C, cas string) bool {
	if !p.IsClosed() {
		return true
	}
	c.Violate("dropped", cas, "closed at %v, %v after the last message of the peer", p.ClosedAt.Sub(p.start), p.ClosedAt.Sub(p.lastSent))
	return false
}

// settle lets everything else in the bubble come to rest. Unlike synctest.Wait
// it may be called by several goroutines.
func settle() { time.Sleep(time.Microsecond) }

func (p *livePeer) live(c *mon.C, cas string) {
	r := p.r
	d := genDef(r, 4)
	n := r.Intn(8)
	if r.Intn(6) == 0 {
		n = 100 + r.Intn(c.N(400, 3000))
	}
	only := -1
	if r.Intn(2) == 0 {
		only = r.Intn(9)
	}
	slowest := r.Intn(2) == 0
	gap := func() time.Duration {
		if slowest {
			return 4990 * time.Millisecond
		}
		if r.Intn(3) == 0 {
			return time.Duration(4900+r.Intn(91)) * time.Millisecond
		}
		return time.Duration(r.Intn(4990)) * time.Millisecond
	}
	for i := 0; i <= n; i++ {
		if i == n {
			break
		}
		time.Sleep(gap())
		settle()
		if !p.alive(c, cas) {
			return
		}
		k := only
		if k < 0 {
			k = r.Intn(9)
		}
		if i == 0 {
			k = 5
		}
		p.say(peerMsg(r, k, d).Bytes())
		c.Count("messages_before_the_deadline", 1)
	}
	// silence
	if r.Intn(3) == 0 { // part of a message is not a message
		b := ref.DefMsg(d).Bytes()
		p.Send(b[:1+r.Intn(len(b)-1)])
	}
	for i := 0; i < 3000 && !p.IsClosed(); i++ {
		time.Sleep(50 * time.Millisecond)
		settle()
	}
	// handlers that are still running are waited for; then 5 seconds must do
	for i := 0; i < 1<<16 && !p.IsClosed() && p.busyNow(); i++ {
		time.Sleep(50 * time.Millisecond)
	}
	for i := 0; i < 400 && !p.IsClosed(); i++ {
		time.Sleep(50 * time.Millisecond)
		settle()
	}
	settle()
	last := p.lastSent
	for _, e := range p.h.events() {
		if e.kind != 'c' && e.returned && e.end.After(last) {
			last = e.end
		}
	}
	if !p.IsClosed() {
		c.Violate("not-dropped", cas, "still connected %v after the last message of the peer", time.Since(p.lastSent))
		return
	}
	if f := p.ClosedAt.Sub(p.lastSent); f < deadTime-time.Millisecond {
		c.Violate("dropped", cas, "closed %v after the last message of the peer", f)
	}
	if f := p.ClosedAt.Sub(last); f > deadTime+slack {
		c.Violate("late-drop", cas, "closed %v after the last message of the peer was handled", f)
	}
	p.mu.Lock()
	canceled := p.canceled
	p.mu.Unlock()
	if canceled.IsZero() {
		c.Violate("context", cas, "the context was not cancelled although the connection was closed")
	} else if f := canceled.Sub(p.ClosedAt); f > slack || f < -slack {
		c.Violate("context", cas, "the context was cancelled %v after the connection was closed", f)
	}
	c.Count("silent_peers_dropped", 1)
	recs := p.WriteRecs()
	if len(recs) == 0 {
		c.Violate("no-status", cas, "nothing was ever sent")
		return
	}
	prev := recs[0].At
	var worst time.Duration
	for _, x := range append(recs[1:], mon.WriteRec{At: p.ClosedAt}) {
		if g := x.At.Sub(prev); g > worst {
			worst = g
		}
		prev = x.At
	}
	c.Count("gaps_between_writes", len(recs))
	c.Max("max_gap_ms", int(worst/time.Millisecond))
	c.Max("max_session_s", int(p.ClosedAt.Sub(p.start)/time.Second))
	if worst > hbEvery+slack {
		c.Violate("gap", cas, "%v passed without sending anything", worst)
	}
	if _, err := parsePOut(p.Out()); err != nil {
		c.Violate("stream", cas, "%v", err)
	}
}

func (p *livePeer) busyNow() bool {
	p.h.mu.Lock()
	defer p.h.mu.Unlock()
	return p.h.busy > 0 || p.Pending() > 0
}

// c21TCP looks at real connections. The limits leave room for a busy machine.
func c21TCP(c *mon.C) {
	l, err := net.Listen("tcp", "127.0.0.1:0")
	if err != nil {
		c.HarnessError("listen: %v", err)
		return
	}
	w, p := barePWorld(c)
	defer w.cancel()
	go p.Serve(l)
	var wg sync.WaitGroup
	for k := 0; k < 6; k++ {
		wg.Add(1)
		go func() {
			defer wg.Done()
			nc, err := net.Dial("tcp", l.Addr().String())
			if err != nil {
				c.HarnessError("dial: %v", err)
				return
			}
			defer nc.Close()
			nc.Write(ref.DefaultHandshake.Bytes())
			last := time.Now()
			closed := make(chan time.Time, 1)
			heard := make(chan time.Time, 1000)
			go func() {
				b := make([]byte, 100)
				for {
					n, err := nc.Read(b)
					if n > 0 {
						heard <- time.Now()
					}
					if err != nil {
						closed <- time.Now()
						return
					}
				}
			}()
			for i := 0; i < k; i++ { // peers that talk
				time.Sleep(700 * time.Millisecond)
				t := time.Now()
				if t.Sub(last) > 4*time.Second {
					return // the machine is too busy for a verdict
				}
				if _, err := nc.Write(ref.Heartbeat.Bytes()); err != nil {
					c.Violate("dropped", "tcp", "write failed %v after the last message: %v", t.Sub(last), err)
					return
				}
				last = t
			}
			select {
			case at := <-closed:
				if f := at.Sub(last); f < 4900*time.Millisecond {
					c.Violate("dropped", "tcp", "closed %v after the last message of the peer", f)
				}
				c.Count("tcp_silent_peers_dropped", 1)
			case <-time.After(60 * time.Second):
				c.Violate("not-dropped", "tcp", "still connected a minute after the last message of the peer")
			}
			if n := len(heard); n < 2 {
				c.Violate("gap", "tcp", "no heartbeat within 5 seconds")
			}
		}()
	}
	wg.Wait()
}

// c21Stalled is about peers that stop reading, so that nothing can be sent to
// them, next to others. It takes place in real time: who waits for the lock of
// a connection does not let virtual time pass.
func c21Stalled(c *mon.C) {
	w, p := barePWorld(c)
	defer w.cancel()
	w.l = mon.NewListener()
	go p.Serve(w.l)
	const limit = 60 * time.Second
	var wg sync.WaitGroup
	for k := 0; k < 8; k++ {
		var mu sync.Mutex
		var ctx context.Context
		hs := make(chan struct{})
		w.mu.Lock()
		w.setup = append(w.setup, func(h *phandler) {
			h.onHS = func(x context.Context) {
				mu.Lock()
				ctx = x
				mu.Unlock()
				close(hs)
			}
		})
		w.mu.Unlock()
		cn := w.l.Dial(nil)
		what := []string{"reads", "does not read", "does not read and wants to synchronise", "does not read what is pushed"}[k%4]
		cas := fmt.Sprintf("peer %d of 8, which %s", k, what)
		cn.Send(ref.DefaultHandshake.Bytes())
		select {
		case <-hs:
		case <-time.After(limit):
			c.Violate("no-handshake", cas, "no handshake callback within a minute")
			return
		}
		wg.Add(1)
		go func() {
			defer wg.Done()
			push := make(chan error, 1)
			if k%4 != 0 {
				cn.Stall(true)
			}
			if k%4 == 3 {
				go func() {
					s := sticktable.StringKey("k")
					d := &sticktable.Definition{KeyType: sticktable.KeyTypeString, KeyLength: 10}
					pw := peers.WriterFromContext(ctx)
					for {
						if err := pw.SendEntry(&sticktable.EntryUpdate{StickTable: d, Key: &s}); err != nil {
							push <- err
							return
						}
						time.Sleep(10 * time.Millisecond)
					}
				}()
			}
			last := time.Now()
			talk := 0
			if k >= 4 || k == 0 {
				talk = 8
			}
			for i := 0; i < talk; i++ {
				time.Sleep(time.Second)
				if time.Since(last) > 4*time.Second {
					return // the machine is too busy for a verdict
				}
				if cn.IsClosed() {
					c.Violate("dropped", cas, "closed %v after the last message of the peer", cn.ClosedAt.Sub(last))
					return
				}
				last = time.Now()
				cn.Send(ref.Heartbeat.Bytes())
			}
			if k%4 == 2 {
				last = time.Now()
				cn.Send(ref.Control(0).Bytes())
			}
			for end := time.Now().Add(limit); !cn.IsClosed(); time.Sleep(5 * time.Millisecond) {
				if time.Now().After(end) {
					c.Violate("not-dropped", cas, "still connected a minute after the last message of the peer")
					return
				}
			}
			if f := cn.ClosedAt.Sub(last); f < 4900*time.Millisecond {
				c.Violate("dropped", cas, "closed %v after the last message of the peer", f)
			}
			if !eventually(limit, func() bool { return ctx.Err() != nil }) {
				c.Violate("context", cas, "the context was not cancelled within a minute although the connection was closed")
			}
			if k%4 == 3 {
				select {
				case <-push:
				case <-time.After(limit):
					c.Violate("blocked", cas, "a push is still blocked a minute after the end of the connection")
				}
			}
			if k == 0 {
				prev := cn.WriteRecs()[0].At
				for _, x := range append(cn.WriteRecs()[1:], mon.WriteRec{At: cn.ClosedAt}) {
					if g := x.At.Sub(prev); g > 15*time.Second { // real time, so be generous
						c.Violate("gap", cas, "%v passed without sending anything while others did not read", g)
					}
					prev = x.At
				}
				if n := len(cn.WriteRecs()); n < 3 {
					c.Violate("gap", cas, "%d writes within 13 seconds while others did not read", n)
				}
			}
			c.Count("peers_with_neighbours_that_do_not_read", 1)
			c.Eval(cas)
		}()
	}
	wg.Wait()
}
