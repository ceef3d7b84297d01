package checks

import (
	"bytes"
	"context"
	"fmt"
	"io"
	"net"
	"net/http"
	"os"
	"os/exec"
	"path/filepath"
	"strings"
	"sync"
	"time"

	"verif/mon"
)

// haproxy is a running HAProxy that is reached over unix sockets only.
type haproxy struct {
	c    *mon.C
	dir  string
	cmd  *exec.Cmd
	logs *lockedBuffer
	exit chan struct{}
}

type lockedBuffer struct {
	mu sync.Mutex
	b  bytes.Buffer
}

func (l *lockedBuffer) Write(b []byte) (int, error) {
	l.mu.Lock()
	defer l.mu.Unlock()
	if l.b.Len() > 1<<16 {
		l.b.Reset()
	}
	return l.b.Write(b)
}

func (l *lockedBuffer) String() string {
	l.mu.Lock()
	defer l.mu.Unlock()
	return l.b.String()
}

// startHAProxy runs HAProxy. DIR in the configuration and in the other files
// stands for a directory of its own. Nil means that it could not be started,
// which is a failure of the harness.
func startHAProxy(c *mon.C, cfg string, files map[string]string) *haproxy {
	bin, err := exec.LookPath("haproxy")
	if err != nil {
		if bin, err = exec.LookPath("/usr/sbin/haproxy"); err != nil {
			c.HarnessError("no haproxy: %v", err)
			return nil
		}
	}
	dir, err := os.MkdirTemp("", "vh") // short, for the socket paths
	if err != nil {
		c.HarnessError("%v", err)
		return nil
	}
	h := &haproxy{c: c, dir: dir, logs: &lockedBuffer{}, exit: make(chan struct{})}
	cfg = "global\n\tstats socket DIR/cli level admin\n\tstats timeout 60s\n\tnbthread 4\n\tlog stderr local0 notice\n" + cfg
	all := map[string]string{"haproxy.cfg": cfg}
	for k, v := range files {
		all[k] = v
	}
	for k, v := range all {
		if err := os.WriteFile(filepath.Join(dir, k), []byte(strings.ReplaceAll(v, "DIR", dir)), 0o600); err != nil {
			c.HarnessError("%v", err)
			return nil
		}
	}
	h.cmd = exec.Command(bin, "-db", "-f", filepath.Join(dir, "haproxy.cfg"))
	h.cmd.Stdout, h.cmd.Stderr = h.logs, h.logs
	if err := h.cmd.Start(); err != nil {
		c.HarnessError("haproxy: %v", err)
		os.RemoveAll(dir)
		return nil
	}
	go func() { h.cmd.Wait(); close(h.exit) }()
	if !eventually(60*time.Second, func() bool {
		select {
		case <-h.exit:
			return true
		default:
		}
		out, err := h.cli("show info")
		return err == nil && strings.Contains(out, "Uptime")
	}) || h.gone() {
		c.HarnessError("haproxy did not start: %s", h.logs)
		h.stop()
		return nil
	}
	return h
}

func (h *haproxy) gone() bool {
	select {
	case <-h.exit:
		return true
	default:
		return false
	}
}

func (h *haproxy) stop() {
	h.cmd.Process.Kill()
	<-h.exit
	os.RemoveAll(h.dir)
}

// cli runs a command on the stats socket.
func (h *haproxy) cli(cmd string) (string, error) {
	nc, err := net.Dial("unix", filepath.Join(h.dir, "cli"))
	if err != nil {
		return "", err
	}
	defer nc.Close()
	nc.SetDeadline(time.Now().Add(60 * time.Second))
	if _, err := fmt.Fprintf(nc, "%s\n", cmd); err != nil {
		return "", err
	}
	b, err := io.ReadAll(nc)
	return string(b), err
}

// client makes HTTP requests to the frontend with the given socket.
func (h *haproxy) client(sock string, conns int) *http.Client {
	return &http.Client{Timeout: 90 * time.Second, Transport: &http.Transport{
		MaxConnsPerHost: conns, MaxIdleConnsPerHost: conns, DisableCompression: true,
		DialContext: func(ctx context.Context, _, _ string) (net.Conn, error) {
			return (&net.Dialer{}).DialContext(ctx, "unix", filepath.Join(h.dir, sock))
		}}}
}
