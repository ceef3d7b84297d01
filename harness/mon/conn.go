package mon

import (
	"fmt"
	"io"
	"net"
	"net/netip"
	"os"
	"runtime"
	"sync"
	"sync/atomic"
	"syscall"
	"time"
)

// Listener is an in-memory net.Listener.
type Listener struct {
	mu     sync.Mutex
	cond   *sync.Cond
	queue  []net.Conn
	errs   []error
	closed bool
	Closes int
}

func NewListener() *Listener {
	l := &Listener{}
	l.cond = sync.NewCond(&l.mu)
	return l
}

func (l *Listener) Accept() (net.Conn, error) {
	l.mu.Lock()
	defer l.mu.Unlock()
	for len(l.queue) == 0 && len(l.errs) == 0 && !l.closed {
		l.cond.Wait()
	}
	if l.closed {
		return nil, &net.OpError{Op: "accept", Net: "mem", Err: net.ErrClosed}
	}
	if len(l.errs) > 0 {
		err := l.errs[0]
		l.errs = l.errs[1:]
		return nil, err
	}
	c := l.queue[0]
	l.queue[0] = nil
	l.queue = l.queue[1:]
	return c, nil
}

// Fail makes one Accept return err.
func (l *Listener) Fail(err error) {
	l.mu.Lock()
	l.errs = append(l.errs, err)
	l.cond.Broadcast()
	l.mu.Unlock()
}

func (l *Listener) Close() error {
	l.mu.Lock()
	defer l.mu.Unlock()
	l.Closes++
	if l.closed {
		return net.ErrClosed
	}
	l.closed = true
	l.cond.Broadcast()
	return nil
}

func (l *Listener) Closed() bool {
	l.mu.Lock()
	defer l.mu.Unlock()
	return l.closed
}

func (l *Listener) Addr() net.Addr { return memAddr("mem:1") }

type memAddr string

func (a memAddr) Network() string { return "mem" }
func (a memAddr) String() string  { return string(a) }

// Dial queues a new connection and returns it.
func (l *Listener) Dial(c *Conn) *Conn {
	if c == nil {
		c = NewConn()
	}
	l.mu.Lock()
	defer l.mu.Unlock()
	if l.closed {
		c.Close()
		return c
	}
	l.queue = append(l.queue, c)
	l.cond.Broadcast()
	return c
}

// WriteRec is one Write call of the server.
type WriteRec struct {
	At  time.Time
	Off int
	Len int
}

// Conn is the server side of an in-memory connection with an unbounded
// outbound buffer, so that Write never blocks. The test drives the other side.
type Conn struct {
	mu   sync.Mutex
	cond *sync.Cond

	in      []byte
	eof     bool
	readErr error

	out      []byte
	Writes   []WriteRec
	writeErr error

	// Chunk limits how much one Read returns, given what is available and wanted.
	Chunk func(avail int) int
	// BeforeWrite runs outside of the lock before every Write.
	BeforeWrite func(b []byte)
	// BeforeClose runs outside of the lock before every Close.
	BeforeClose func()
	// FailWriteAt makes the Write that would exceed this many bytes total fail
	// after writing a part; 0 means never.
	FailWriteAt int

	n int64
	// Addr is what RemoteAddr returns.
	Addr string

	rd, wd  deadline
	stalled bool

	closed   bool
	ClosedAt time.Time
	Closes   int
	Reads    int
	waiting  int // Writes that wait for the peer to read
}

var names atomic.Int64

// NewConn is a connection that shows the library an address. As with real
// sockets, the addresses of different connections may be the same (HAProxy
// connects to UNIX sockets from unbound ones).
func NewConn() *Conn {
	n := names.Add(1)
	c := &Conn{n: n}
	switch n % 4 {
	case 0:
		c.Addr = fmt.Sprintf("mem:peer%d", n)
	case 1: // ports of one host
		c.Addr = fmt.Sprintf("192.0.2.1:%d", 1024+n%60000)
	case 2: // a port that is used again at once
		c.Addr = "192.0.2.2:4242"
	default:
		c.Addr = "@"
	}
	c.cond = sync.NewCond(&c.mu)
	return c
}

// deadline is the deadline of one direction, guarded by the connection's lock.
type deadline struct {
	at    time.Time
	timer *time.Timer
}

func (d *deadline) passed() bool { return !d.at.IsZero() && !time.Now().Before(d.at) }

func (d *deadline) stop() {
	if d.timer != nil {
		d.timer.Stop()
		d.timer = nil
	}
}

func (c *Conn) setDeadline(t time.Time, ds ...*deadline) error {
	c.mu.Lock()
	defer c.mu.Unlock()
	if c.closed {
		return &net.OpError{Op: "set", Net: "mem", Err: net.ErrClosed}
	}
	for _, d := range ds {
		d.stop()
		d.at = t
		if !t.IsZero() {
			d.timer = time.AfterFunc(time.Until(t), func() {
				c.mu.Lock()
				c.cond.Broadcast()
				c.mu.Unlock()
			})
		}
	}
	c.cond.Broadcast()
	return nil
}

// --- net.Conn (library side)

func (c *Conn) Read(b []byte) (int, error) {
	c.mu.Lock()
	defer c.mu.Unlock()
	c.Reads++
	for {
		if c.closed {
			return 0, net.ErrClosed
		}
		if c.rd.passed() {
			return 0, &net.OpError{Op: "read", Net: "mem", Err: os.ErrDeadlineExceeded}
		}
		if c.readErr != nil {
			return 0, c.readErr
		}
		if len(c.in) > 0 {
			n := len(c.in)
			if c.Chunk != nil {
				if k := c.Chunk(n); k < n && k > 0 {
					n = k
				}
			}
			if len(b) == 0 {
				return 0, nil
			}
			n = copy(b, c.in[:n])
			c.in = c.in[n:]
			return n, nil
		}
		if c.eof {
			return 0, io.EOF
		}
		c.cond.Wait()
	}
}

func (c *Conn) Write(b []byte) (int, error) {
	if c.BeforeWrite != nil {
		c.BeforeWrite(b)
	}
	c.mu.Lock()
	defer c.mu.Unlock()
	for {
		if c.closed {
			return 0, net.ErrClosed
		}
		if c.wd.passed() {
			return 0, &net.OpError{Op: "write", Net: "mem", Err: os.ErrDeadlineExceeded}
		}
		if c.writeErr != nil {
			return 0, c.writeErr
		}
		if !c.stalled {
			break
		}
		c.waiting++
		c.cond.Wait()
		c.waiting--
	}
	n := len(b)
	var err error
	if c.FailWriteAt > 0 && len(c.out)+n > c.FailWriteAt {
		n = c.FailWriteAt - len(c.out)
		if n < 0 {
			n = 0
		}
		c.writeErr = &net.OpError{Op: "write", Net: "mem", Err: os.NewSyscallError("write", syscall.EPIPE)}
		err = c.writeErr
	}
	c.Writes = append(c.Writes, WriteRec{time.Now(), len(c.out), n})
	c.out = append(c.out, b[:n]...)
	c.cond.Broadcast()
	return n, err
}

func (c *Conn) Close() error {
	if c.BeforeClose != nil {
		c.BeforeClose()
	}
	c.mu.Lock()
	defer c.mu.Unlock()
	c.Closes++
	if c.closed {
		return net.ErrClosed
	}
	c.closed = true
	c.ClosedAt = time.Now()
	c.rd.stop()
	c.wd.stop()
	c.cond.Broadcast()
	return nil
}

func (c *Conn) LocalAddr() net.Addr { return memAddr("mem:1") }

func (c *Conn) RemoteAddr() net.Addr {
	if ap, err := netip.ParseAddrPort(c.Addr); err == nil {
		return net.TCPAddrFromAddrPort(ap)
	}
	return memAddr(c.Addr)
}

func (c *Conn) SetDeadline(t time.Time) error      { return c.setDeadline(t, &c.rd, &c.wd) }
func (c *Conn) SetReadDeadline(t time.Time) error  { return c.setDeadline(t, &c.rd) }
func (c *Conn) SetWriteDeadline(t time.Time) error { return c.setDeadline(t, &c.wd) }

// --- client side

// Send makes bytes available to the server.
func (c *Conn) Send(b []byte) {
	c.mu.Lock()
	c.in = append(c.in, b...)
	c.cond.Broadcast()
	c.mu.Unlock()
}

// EOF ends the inbound stream after what was sent.
func (c *Conn) EOF() {
	c.mu.Lock()
	c.eof = true
	c.cond.Broadcast()
	c.mu.Unlock()
}

// Reset breaks the connection in both directions, dropping unread data.
func (c *Conn) Reset() {
	// Sockets report the end of keepalive probes or an unreachable host, too.
	errno := []syscall.Errno{syscall.ECONNRESET, syscall.ECONNRESET, syscall.ECONNRESET, syscall.ETIMEDOUT, syscall.EHOSTUNREACH}[c.n%5]
	c.mu.Lock()
	c.readErr = &net.OpError{Op: "read", Net: "mem", Err: os.NewSyscallError("read", errno)}
	c.writeErr = &net.OpError{Op: "write", Net: "mem", Err: os.NewSyscallError("write", syscall.EPIPE)}
	c.cond.Broadcast()
	c.mu.Unlock()
}

// FailWrites makes all further writes fail.
func (c *Conn) FailWrites() {
	c.mu.Lock()
	c.writeErr = &net.OpError{Op: "write", Net: "mem", Err: os.NewSyscallError("write", syscall.EPIPE)}
	c.cond.Broadcast()
	c.mu.Unlock()
}

// Stall makes Writes wait, as if the peer did not read and all buffers were
// full, until it is called with false or the connection ends.
func (c *Conn) Stall(on bool) {
	c.mu.Lock()
	c.stalled = on
	c.cond.Broadcast()
	c.mu.Unlock()
}

// Stuck tells how many Writes wait for the peer to read.
func (c *Conn) Stuck() int {
	c.mu.Lock()
	defer c.mu.Unlock()
	return c.waiting
}

// Out is everything the server has written.
func (c *Conn) Out() []byte {
	c.mu.Lock()
	defer c.mu.Unlock()
	return append([]byte(nil), c.out...)
}

// Discard forgets everything that was written.
func (c *Conn) Discard() {
	c.mu.Lock()
	c.out, c.Writes = nil, nil
	c.mu.Unlock()
}

// Cut forgets all but the first n written bytes.
func (c *Conn) Cut(n int) {
	c.mu.Lock()
	defer c.mu.Unlock()
	c.out = append([]byte(nil), c.out[:n]...)
}

func (c *Conn) OutLen() int {
	c.mu.Lock()
	defer c.mu.Unlock()
	return len(c.out)
}

func (c *Conn) IsClosed() bool {
	c.mu.Lock()
	defer c.mu.Unlock()
	return c.closed
}

// Pending is the number of sent bytes the server has not read yet.
func (c *Conn) Pending() int {
	c.mu.Lock()
	defer c.mu.Unlock()
	return len(c.in)
}

func (c *Conn) WriteRecs() []WriteRec {
	c.mu.Lock()
	defer c.mu.Unlock()
	return append([]WriteRec(nil), c.Writes...)
}

// WaitOut waits (in real time) until cond holds for the written bytes, the
// server has closed the connection, or the limit passes.
func (c *Conn) WaitOut(limit time.Duration, cond func(out []byte) bool) bool {
	t := time.AfterFunc(limit, func() { c.mu.Lock(); c.cond.Broadcast(); c.mu.Unlock() })
	defer t.Stop()
	end := time.Now().Add(limit)
	c.mu.Lock()
	defer c.mu.Unlock()
	for !cond(c.out) {
		if c.closed || time.Now().After(end) {
			return cond(c.out)
		}
		c.cond.Wait()
	}
	return true
}

// Yielder returns a BeforeWrite hook that yields the processor a pseudo-random
// number of times, to interleave unsynchronised writers.
func Yielder(seed int64, max int) func([]byte) {
	var mu sync.Mutex
	s := uint64(seed)*2862933555777941757 + 3037000493
	return func([]byte) {
		mu.Lock()
		s = s*2862933555777941757 + 3037000493
		n := int(s>>33) % (max + 1)
		mu.Unlock()
		for i := 0; i < n; i++ {
			runtime.Gosched()
		}
	}
}
