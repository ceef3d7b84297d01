package checks

import (
	"fmt"
	"runtime"
	"testing"
	"testing/synctest"
	"time"

	"verif/mon"
)

func TestC14(t *testing.T) {
	c := mon.Start(t, "C14", "bursts of 1 to 12 times the worker count (and sizes around workers + queue capacity) over 1..6 connections, with handlers that return at once, wait for gates opened in random order one by one or in groups, or panic; judged at every quiescent point: requests started = min(sent, workers) while all wait, progress while a worker is free, exactly-once and answered when gates are open, and the same capacity at the end as at the beginning. Evaluations are requests; non-trivial: distinct burst.")
	defer c.Finish()
	r := c.Rng
	stalledAgentPeer(c, r)
	if c.Proc() == 0 {
		manyRequests(c, t)
	}
	cpus := runtime.NumCPU()
	n := c.N(60, 1200)
	id := 0
	for b := 0; b < n && !c.Stop() && c.TimeLeft(); b++ {
		bubble(c, t, fmt.Sprintf("bubble %d", b), func() {
			w := newWorld(c)
			defer w.cancel()
			// capacity is how many handlers run at the same time; it is
			// measured so that nothing is assumed about the implementation
			measure := func(cas string, w *world) int {
				gate := make(chan struct{})
				gated := 0
				cl := w.dial()
				cl.hello(16380)
				for i := 0; i < 6*cpus+4; i++ {
					id++
					q := genRequest(r, fmt.Sprintf("cap%d-", id), uint64(i), 9, reqOpts{maxMsgs: 1, maxArgs: 1, maxLen: 5, maxActs: 1})
					if len(q.plans) > 0 {
						q.plans[0].gate = gate
						gated++
					}
					cl.send(q)
				}
				synctest.Wait()
				got := w.runningNow()
				if got == gated {
					got = 1 << 30 // not limited
				}
				close(gate)
				synctest.Wait()
				for _, q := range cl.reqs {
					w.checkCalls(q, cas)
				}
				cl.checkReplies(cas, false)
				cl.EOF()
				synctest.Wait()
				w.forget()
				return got
			}
			first := w
			if b%2 == 0 { // that of another agent, this one is new to everything
				first = newWorld(c)
			}
			capacity := measure("capacity at the start", first)
			if first != w {
				first.cancel()
				synctest.Wait()
			}
			if capacity == 0 {
				c.Violate("wedged", "", "no request is handled")
				return
			}
			c.Max("max_capacity", capacity)
			for s := 0; s < 12 && !c.Stop(); s++ {
				size := 1 + r.Intn(12*cpus)
				switch r.Intn(3) {
				case 0:
					size = max(1, 3*cpus+r.Intn(5)-2)
				case 1:
					size = max(1, cpus*(1+r.Intn(4))+r.Intn(3)-1)
				}
				nc := 1 + r.Intn(6)
				cas := fmt.Sprintf("seed %d bubble %d round %d: %d requests on %d connections, capacity %d", c.Seed, b, s, size, nc, capacity)
				c.Case("%s", cas)
				var conns []*client
				for k := 0; k < nc; k++ {
					cl := w.dial()
					cl.hello(16380)
					conns = append(conns, cl)
				}
				synctest.Wait()
				mode := r.Intn(4)
				var gates []chan struct{}
				blocked := 0
				panics := r.Intn(4) == 0
				for i := 0; i < size; i++ {
					id++
					q := genRequest(r, fmt.Sprintf("b%d-", id), uint64(i), uint64(s), reqOpts{maxMsgs: 1, maxArgs: 2, maxLen: 10, maxActs: 2, panics: panics, yields: 3})
					if len(q.plans) > 0 && (mode == 0 || mode == 1 && r.Intn(2) == 0 || mode == 2 && blocked < capacity-1) {
						g := make(chan struct{})
						q.plans[0].gate = g
						gates = append(gates, g)
						blocked++
					}
					conns[r.Intn(nc)].send(q)
					if r.Intn(10) == 0 {
						synctest.Wait()
					}
				}
				synctest.Wait()
				c.Eval(fmt.Sprintf("%d/%d/%d/%d", size, nc, mode, blocked))
				c.Count("requests", size)
				c.Max("max_burst", size)
				c.Max("max_blocked", blocked)
				if got, want := w.runningNow(), min(blocked, capacity); got != want {
					c.Violate("progress", cas, "%d handlers are running, want %d of %d blocked ones", got, want, blocked)
				}
				if blocked < capacity {
					// all others must have been answered meanwhile
					fresh := conns[r.Intn(nc)]
					if r.Intn(2) == 0 {
						fresh = w.dial()
						fresh.hello(16380)
						conns = append(conns, fresh)
					}
					id++
					q := genRequest(r, fmt.Sprintf("b%d-", id), 1<<20, uint64(s), reqOpts{maxMsgs: 1, maxArgs: 2, maxLen: 10, maxActs: 2})
					fresh.send(q)
					synctest.Wait()
					w.checkCalls(q, cas+", a request while a worker is free")
					answered := 0
					for _, cl := range conns {
						st, _ := parseStream(cl.Out())
						answered += len(st.acks)
					}
					want := 0
					for _, cl := range conns {
						for _, q := range cl.reqs {
							if _, ok := q.reply(); ok && (len(q.plans) == 0 || q.plans[0].gate == nil) {
								want++
							}
						}
					}
					if answered != want {
						c.Violate("progress", cas, "%d of %d unblocked requests answered while %d handlers wait", answered, want, blocked)
					}
					c.Count("progress_verdicts", 1)
				}
				// open the gates
				open := 0
				for _, i := range r.Perm(len(gates)) {
					close(gates[i])
					open++
					switch r.Intn(4) {
					case 0:
						synctest.Wait()
						// requests are started in an unspecified order, so
						// those whose gate is open may still be queued
						if got := w.runningNow(); got > capacity {
							c.Violate("progress", cas, "%d handlers are running, capacity %d", got, capacity)
						}
					case 1:
						time.Sleep(time.Duration(r.Intn(1000)) * time.Millisecond)
					}
				}
				synctest.Wait()
				if w.runningNow() != 0 {
					c.Violate("wedged", cas, "%d handlers still running although all may finish", w.runningNow())
				}
				for _, cl := range conns {
					for _, q := range cl.reqs {
						w.checkCalls(q, cas)
					}
					c.Count("replies_checked", cl.checkReplies(cas, false))
					if cl.Pending() > 0 {
						c.Violate("wedged", cas, "%d bytes were never read", cl.Pending())
					}
				}
				// continues with new requests
				for _, cl := range conns {
					id++
					q := genRequest(r, fmt.Sprintf("b%d-", id), 1<<21, uint64(s), reqOpts{maxMsgs: 1, maxArgs: 2, maxLen: 10, maxActs: 2})
					cl.send(q)
				}
				synctest.Wait()
				for _, cl := range conns {
					w.checkCalls(cl.reqs[len(cl.reqs)-1], cas+", afterwards")
					cl.checkReplies(cas, false)
					cl.EOF()
				}
				synctest.Wait()
				w.forget()
			}
			if got := measure("capacity at the end", w); got != capacity {
				c.Violate("capacity-lost", fmt.Sprintf("seed %d bubble %d", c.Seed, b), "%d requests are handled at once at the beginning, %d at the end", capacity, got)
			}
		})
	}
}
