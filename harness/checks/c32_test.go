package checks

import (
	"bufio"
	"bytes"
	"context"
	"encoding/json"
	"fmt"
	"io"
	"math/rand"
	"net"
	"net/http"
	"os"
	"os/exec"
	"os/signal"
	"path/filepath"
	"runtime"
	"strings"
	"sync"
	"sync/atomic"
	"syscall"
	"testing"
	"time"

	"github.com/dropmorepackets/haproxy-go/peers"
	"github.com/dropmorepackets/haproxy-go/peers/sticktable"
	"github.com/dropmorepackets/haproxy-go/pkg/encoding"
	"github.com/dropmorepackets/haproxy-go/pkg/testutil"
	"github.com/dropmorepackets/haproxy-go/spop"

	"verif/mon"
)

// The test helpers are watched from outside: a test that uses them runs in a
// process of its own (TestHelperChild), may pass, fail, be skipped or panic
// there, and reports what it saw to the check (TestC32).

// helperItem is one thing that the child's test obtains from the helpers.
type helperItem struct {
	Kind   string // file, proc, missing, listener, port, haproxy, fake
	Name   string
	Size   int
	Seed   int64
	Stay   bool   // proc: runs until it is killed
	Gone   bool   // the test itself removes or closes it
	Token  string // what the process prints
	Engine bool
	Peer   bool
	Mode   string // fake: how it starts
	Nested bool   // obtained by a subtest, which ends before the test does
}

type helperSpec struct {
	Items  []helperItem
	End    string // pass, fatal, fail, skip, panic
	Out    string // where the report goes
	Dir    string // for the tools
	Allocs [][2]int
}

type helperReport struct {
	mu       sync.Mutex
	Problems []string
	Ready    int      // items obtained
	Started  bool     // false: a HAProxy could not be started
	Pids     []int    // of the tools
	Files    []string // made by TempFile
	Inner    bool
	Done     bool
	Allocs   []bool
	Seen     []string

	lns     []net.Listener
	workers int
}

func (r *helperReport) problem(format string, args ...any) {
	r.mu.Lock()
	defer r.mu.Unlock()
	r.Problems = append(r.Problems, fmt.Sprintf(format, args...))
}

func (r *helperReport) save(p string) {
	r.mu.Lock()
	defer r.mu.Unlock()
	b, _ := json.Marshal(r)
	os.WriteFile(p, b, 0o600)
}

// init makes the test binary a tool that the helpers can start.
func init() {
	switch {
	case len(os.Args) > 1 && os.Args[1] == "verif-tool":
		helperTool(os.Args[2:])
		os.Exit(3)
	case filepath.Base(os.Args[0]) == "haproxy":
		fakeHAProxy()
		os.Exit(0)
	}
}

// helperTool: NOTE TOKEN SIZE stay|exit [anything].
func helperTool(args []string) {
	signal.Ignore(syscall.SIGTERM, syscall.SIGHUP, syscall.SIGINT)
	var size int
	fmt.Sscan(args[2], &size)
	fmt.Fprintf(os.Stdout, "out-%s\n", args[1])
	fmt.Fprintf(os.Stderr, "err-%s\n", args[1])
	line := strings.Repeat("x", 99) + "\n"
	for n := 0; n < size; n += len(line) {
		io.WriteString(os.Stdout, line)
	}
	fmt.Fprintf(os.Stdout, "end-%s\n", args[1])
	note, _ := json.Marshal(map[string]any{"pid": os.Getpid(), "args": args})
	os.WriteFile(args[0]+".tmp", note, 0o600)
	os.Rename(args[0]+".tmp", args[0])
	if args[3] == "stay" {
		time.Sleep(10 * time.Minute)
	}
}

// fakeHAProxy listens where the configuration says, but not at once.
func fakeHAProxy() {
	var cfg string
	for i, a := range os.Args {
		if a == "-f" && i+1 < len(os.Args) {
			b, _ := os.ReadFile(os.Args[i+1])
			cfg = string(b)
		}
	}
	mode := os.Getenv("VERIF_FAKE")
	fmt.Printf("fake-%s\n", mode)
	if d := os.Getenv("VERIF_FAKE_PID"); d != "" {
		os.WriteFile(filepath.Join(d, fmt.Sprintf("fake-%d", os.Getpid())), nil, 0o600)
	}
	var stats, front string
	for sc := bufio.NewScanner(strings.NewReader(cfg)); sc.Scan(); {
		f := strings.Fields(sc.Text())
		if len(f) > 2 && f[0] == "stats" && f[1] == "socket" {
			stats = f[2]
		}
		if len(f) > 1 && f[0] == "bind" && strings.HasPrefix(f[1], "unix@") {
			front = strings.TrimPrefix(f[1], "unix@")
		}
	}
	serve := func(p string) {
		l, err := net.Listen("unix", p)
		if err != nil {
			return
		}
		for {
			nc, err := l.Accept()
			if err != nil {
				return
			}
			nc.Close()
		}
	}
	switch mode {
	case "exit":
		return
	case "silent":
	case "stats-only":
		go serve(stats)
	case "slow":
		time.Sleep(200 * time.Millisecond)
		go serve(stats)
		time.Sleep(500 * time.Millisecond)
		go serve(front)
	}
	time.Sleep(10 * time.Minute)
}

func openFDs() int {
	e, _ := os.ReadDir("/proc/self/fd")
	return len(e)
}

// self is the test binary.
func self() string {
	p, err := os.Executable()
	if err != nil {
		panic(err)
	}
	return p
}

func gonePid(pid int) bool { return syscall.Kill(pid, 0) == syscall.ESRCH }

func TestHelperChild(t *testing.T) {
	p := os.Getenv("VERIF_CHILD")
	if p == "" {
		t.Skip("only run by TestC32")
	}
	var spec helperSpec
	b, err := os.ReadFile(p)
	if err != nil {
		t.Fatal(err)
	}
	if err := json.Unmarshal(b, &spec); err != nil {
		t.Fatal(err)
	}
	rep := &helperReport{Started: true}
	// what the runtime keeps once it was used
	if l, err := net.Listen("tcp", "127.0.0.1:0"); err == nil {
		l.Close()
	}
	exec.Command("true").Run()
	fds, goroutines := openFDs(), runtime.NumGoroutine()

	rep.Inner = t.Run("inner", func(t *testing.T) { rep.run(t, &spec) })

	for _, f := range rep.Files {
		if _, err := os.Lstat(f); err == nil {
			rep.problem("temporary file %s is still there after the test", filepath.Base(f))
		}
	}
	for _, p := range rep.Pids {
		if !gonePid(p) {
			rep.problem("process is still there after the test")
		}
	}
	for _, l := range rep.lns {
		if tl, ok := l.(*net.TCPListener); ok {
			tl.SetDeadline(time.Now().Add(time.Second))
		}
		if _, err := l.Accept(); err == nil || strings.Contains(err.Error(), "timeout") {
			rep.problem("listener still accepts after the test: %v", err)
		}
	}
	if !eventually(20*time.Second, func() bool { return runtime.NumGoroutine() <= goroutines+rep.workers }) {
		buf := make([]byte, 1<<16)
		rep.problem("%d goroutines instead of %d after the test:\n%s", runtime.NumGoroutine(), goroutines, buf[:runtime.Stack(buf, true)])
	}
	if !eventually(20*time.Second, func() bool { return openFDs() <= fds }) {
		rep.problem("%d open files instead of %d after the test", openFDs(), fds)
	}
	var sink []byte
	for _, a := range spec.Allocs {
		// a passing test keeps its outcome only if the helper agrees
		rep.Allocs = append(rep.Allocs, t.Run("alloc", func(t *testing.T) {
			fn := func() {
				for i := 0; i < a[1]; i++ {
					sink = make([]byte, 100+i)
				}
			}
			if a[0] == 0 && a[1]%2 == 0 {
				testutil.WithoutAllocations(t, fn)
			} else {
				testutil.WithNAllocations(t, uint64(a[0]), fn)
			}
		}))
	}
	runtime.KeepAlive(sink)
	rep.Done = true
	rep.save(spec.Out)
}

func (r *helperReport) run(t *testing.T, spec *helperSpec) {
	defer r.save(spec.Out)
	var checks []func()
	for i, it := range spec.Items {
		if it.Nested {
			var after []func()
			n := len(r.Files)
			k := len(r.Pids)
			t.Run("nested", func(t *testing.T) {
				if f := r.obtain(t, spec, i, it); f != nil {
					f()
				}
			})
			for _, f := range r.Files[n:] {
				if _, err := os.Lstat(f); err == nil {
					r.problem("temporary file of a subtest is still there")
				}
			}
			for _, p := range r.Pids[k:] {
				if !gonePid(p) {
					r.problem("process of a subtest is still there")
				}
			}
			_ = after
		} else if f := r.obtain(t, spec, i, it); f != nil {
			checks = append(checks, f)
		}
		for _, f := range checks { // also of those before
			f()
		}
		r.Ready++
		r.save(spec.Out)
	}
	switch spec.End {
	case "fatal":
		t.Fatal("asked to fail")
	case "fail":
		t.Error("asked to fail")
	case "skip":
		t.SkipNow()
	case "panic":
		r.save(spec.Out)
		panic("asked to panic")
	}
}

// obtain gets one thing and returns what must hold as long as the test runs.
func (r *helperReport) obtain(t *testing.T, spec *helperSpec, i int, it helperItem) func() {
	switch it.Kind {
	case "file":
		content := make([]byte, it.Size)
		rand.New(rand.NewSource(it.Seed)).Read(content)
		f := testutil.TempFile(t, it.Name, string(content))
		for _, o := range r.Files {
			if o == f {
				if _, err := os.Lstat(o); err == nil {
					r.problem("the same temporary file twice")
				}
			}
		}
		r.Files = append(r.Files, f)
		if got, err := os.ReadFile(f); err != nil || !bytes.Equal(got, content) {
			r.problem("temporary file: %d of %d bytes, %v", len(got), len(content), err)
		}
		if it.Gone {
			os.Remove(f)
			return nil
		}
		return func() {
			if got, err := os.ReadFile(f); err != nil || !bytes.Equal(got, content) {
				r.problem("temporary file changed while the test runs: %v", err)
			}
		}
	case "proc":
		note := filepath.Join(spec.Dir, fmt.Sprintf("note%d", i))
		end := "exit"
		if it.Stay {
			end = "stay"
		}
		args := []string{note, it.Token, fmt.Sprint(it.Size), end, "", "two words", "'\"$HOME*"}
		testutil.RunProcess(t, self(), append([]string{"verif-tool"}, args...))
		var got struct {
			Pid  int
			Args []string
		}
		if !eventually(60*time.Second, func() bool {
			b, err := os.ReadFile(note)
			return err == nil && json.Unmarshal(b, &got) == nil
		}) {
			r.problem("process with %d bytes of output did not get through", it.Size)
			return nil
		}
		if fmt.Sprint(got.Args) != fmt.Sprint(args) {
			r.problem("process started with %q instead of %q", got.Args, args)
		}
		r.Pids = append(r.Pids, got.Pid)
		if !it.Stay {
			return nil
		}
		return func() {
			if gonePid(got.Pid) {
				r.problem("process ended while the test runs")
			}
		}
	case "missing":
		testutil.RunProcess(t, filepath.Join(spec.Dir, "there-is-no-such-program"), nil)
		r.problem("a process that cannot be started did not end the test")
	case "listener":
		l := testutil.TCPListener(t)
		r.lns = append(r.lns, l)
		check := func() {
			port := l.Addr().(*net.TCPAddr).Port
			nc, err := net.Dial("tcp", fmt.Sprintf("127.0.0.1:%d", port))
			if err != nil {
				r.problem("listener of a running test: %v", err)
				return
			}
			defer nc.Close()
			sc, err := l.Accept()
			if err != nil {
				r.problem("listener of a running test: %v", err)
				return
			}
			sc.Close()
		}
		check()
		if it.Gone {
			l.Close()
			return nil
		}
		return check
	case "port":
		for try := 0; ; try++ { // somebody else may take it
			port := testutil.TCPPort(t)
			l, err := net.Listen("tcp", fmt.Sprintf("127.0.0.1:%d", port))
			if err == nil {
				l.Close()
				break
			}
			if try == 5 {
				r.problem("free port: %v", err)
				break
			}
		}
	case "haproxy":
		return r.haproxy(t, spec, it)
	case "fake":
		r.Started = false
		sock := testutil.HAProxyConfig{FrontendPort: fmt.Sprint(testutil.TCPPort(t)), BackendConfig: it.Token}.Run(t)
		r.Started = true
		if it.Mode != "slow" {
			r.problem("a HAProxy that does not listen did not fail the test")
			return nil
		}
		check := func() {
			nc, err := net.Dial("unix", sock)
			if err != nil {
				r.problem("frontend not ready: %v", err)
				return
			}
			nc.Close()
		}
		check()
		return check
	}
	return nil
}

func (r *helperReport) haproxy(t *testing.T, spec *helperSpec, it helperItem) func() {
	cfg := testutil.HAProxyConfig{
		FrontendPort:         fmt.Sprint(testutil.TCPPort(t)),
		CustomFrontendConfig: "\n    http-response set-header x-var %[var(txn.e2e.seen)]\n    http-after-response set-header x-front " + it.Token + "\n",
	}
	body := "Hello World!\n"
	if it.Size%2 == 1 {
		body = it.Token
		cfg.BackendConfig = "http-request return status 200 content-type text/plain string " + it.Token
	}
	extra := filepath.Join(spec.Dir, fmt.Sprintf("x%d.sock", it.Seed&0xffff))
	if it.Size%3 == 0 {
		cfg.CustomConfig = "frontend extra\n    mode http\n    bind unix@" + extra + "\n    http-request return status 200 content-type text/plain string extra-" + it.Token + "\n"
	}
	cfg.CustomBackendConfig = "http-response set-header x-back " + it.Token
	var seen atomic.Int64
	var ids sync.Map
	if it.Engine {
		r.workers += runtime.NumCPU() // an agent keeps them
		l := testutil.TCPListener(t)
		ctx, cancel := context.WithCancel(context.Background())
		agent := &spop.Agent{BaseContext: ctx, Handler: spop.HandlerFunc(func(_ context.Context, w *encoding.ActionWriter, m *encoding.Message) {
			name := string(m.NameBytes())
			k := encoding.AcquireKVEntry()
			defer encoding.ReleaseKVEntry(k)
			for m.KV.Next(k) {
				if k.NameEquals("path") {
					ids.Store(string(k.ValueBytes()), name)
				}
			}
			seen.Add(1)
			w.SetString(encoding.VarScopeTransaction, "seen", "agent-"+it.Token)
		})}
		done := make(chan struct{})
		go func() { defer close(done); agent.Serve(l) }()
		t.Cleanup(func() { cancel(); <-done })
		cfg.EngineAddr = fmt.Sprintf("127.0.0.1:%d", l.Addr().(*net.TCPAddr).Port)
	}
	var hello atomic.Value
	if it.Peer {
		l := testutil.TCPListener(t)
		ctx, cancel := context.WithCancel(context.Background())
		p := &peers.Peer{BaseContext: ctx, HandlerSource: func() peers.Handler { return &helloHandler{&hello} }}
		done := make(chan struct{})
		go func() { defer close(done); p.Serve(l) }()
		t.Cleanup(func() { cancel(); <-done })
		cfg.PeerAddr = fmt.Sprintf("127.0.0.1:%d", l.Addr().(*net.TCPAddr).Port)
	}
	r.Started = false
	sock := cfg.Run(t)
	r.Started = true

	get := func(dial func() (net.Conn, error), proxy bool, path string) (*http.Response, string, error) {
		nc, err := dial()
		if err != nil {
			return nil, "", err
		}
		defer nc.Close()
		nc.SetDeadline(time.Now().Add(60 * time.Second))
		if proxy {
			io.WriteString(nc, "PROXY TCP4 192.0.2.7 192.0.2.8 1234 80\r\n")
		}
		fmt.Fprintf(nc, "GET %s HTTP/1.1\r\nHost: x\r\nConnection: close\r\n\r\n", path)
		resp, err := http.ReadResponse(bufio.NewReader(nc), nil)
		if err != nil {
			return nil, "", err
		}
		defer resp.Body.Close()
		b, err := io.ReadAll(resp.Body)
		return resp, string(b), err
	}
	check := func() {
		for n, path := range []string{"/unix", "/tcp"} {
			resp, got, err := get(func() (net.Conn, error) {
				if n == 0 {
					return net.Dial("unix", sock)
				}
				return net.Dial("tcp", "127.0.0.1:"+cfg.FrontendPort)
			}, n == 0, path)
			if err != nil {
				r.problem("%s: HAProxy does not answer: %v", path, err)
				continue
			}
			if resp.StatusCode != 200 || got != body {
				r.problem("%s: HAProxy answers %d %q instead of %q", path, resp.StatusCode, got, body)
			}
			if resp.Header.Get("x-front") != it.Token {
				r.problem("%s: the frontend's configuration is missing: %v", path, resp.Header)
			}
			if it.Engine {
				if v, ok := ids.Load(path); !ok || v != "e2e-req" {
					r.problem("%s: the agent was not asked: %v", path, v)
				}
			}
			r.Seen = append(r.Seen, "answer")
		}
		if cfg.CustomConfig != "" {
			if _, got, err := get(func() (net.Conn, error) { return net.Dial("unix", extra) }, false, "/"); err != nil || got != "extra-"+it.Token {
				r.problem("the additional frontend answers %q, %v", got, err)
			}
		}
		if it.Peer {
			if !eventually(60*time.Second, func() bool { return hello.Load() != nil }) {
				r.problem("HAProxy does not connect to the peer")
			} else if h := hello.Load().(peers.Handshake); h.RemotePeer != "go_client" || h.LocalPeerIdentifier != "instance_"+cfg.FrontendPort {
				r.problem("HAProxy introduces itself as %+v", h)
			}
			r.Seen = append(r.Seen, "peer")
		}
	}
	check()
	return check
}

type helloHandler struct{ v *atomic.Value }

func (h *helloHandler) HandleHandshake(_ context.Context, hs *peers.Handshake) { h.v.Store(*hs) }
func (h *helloHandler) HandleUpdate(context.Context, *sticktable.EntryUpdate)  {}
func (h *helloHandler) Close() error                                           { return nil }

// genHelperSpec makes up a test that uses the helpers.
func genHelperSpec(r *rand.Rand, n int) helperSpec {
	s := helperSpec{End: pick(r, "pass", "pass", "fatal", "fail", "skip", "panic")}
	token := func() string { return fmt.Sprintf("tok%08x", r.Uint32()) }
	switch n % 8 {
	case 0:
		s.Items = append(s.Items, helperItem{Kind: "haproxy", Token: token(), Size: r.Intn(6), Seed: r.Int63(), Engine: r.Intn(2) == 0, Peer: r.Intn(2) == 0})
	case 1:
		s.Items = append(s.Items, helperItem{Kind: "fake", Token: token(), Mode: []string{"slow", "exit", "silent", "stats-only"}[n/8%4]})
	case 2:
		for i := 0; i < 12; i++ {
			want := r.Intn(4)
			s.Allocs = append(s.Allocs, [2]int{want, []int{want, r.Intn(5)}[r.Intn(2)]})
		}
	}
	for i := r.Intn(6); i > 0; i-- {
		it := helperItem{Kind: pick(r, "file", "file", "proc", "proc", "listener", "port"), Token: token(), Seed: r.Int63(),
			Gone: r.Intn(4) == 0, Nested: r.Intn(4) == 0, Stay: r.Intn(3) > 0}
		it.Name = pick(r, "x", "e2e.cfg", "a*b.cfg", "", "haproxy.cfg")
		it.Size = []int{0, 1, r.Intn(5000), 70000 + r.Intn(200000), 1<<20 + r.Intn(2<<20)}[max(0, r.Intn(9)-4)]
		s.Items = append(s.Items, it)
	}
	if len(s.Items) == 0 {
		s.Items = append(s.Items, helperItem{Kind: "file", Name: "x", Size: 10})
	}
	r.Shuffle(len(s.Items), func(i, j int) { s.Items[i], s.Items[j] = s.Items[j], s.Items[i] })
	if r.Intn(8) == 0 {
		s.Items = append(s.Items, helperItem{Kind: "missing"})
	}
	return s
}

func pick[T any](r *rand.Rand, v ...T) T { return v[r.Intn(len(v))] }

// runHelperSpec runs it; false means that HAProxy could not be started, which
// may be somebody else's fault.
func runHelperSpec(c *mon.C, cas string, s helperSpec, last bool) bool {
	dir, err := os.MkdirTemp("", "vt") // short, for the socket paths
	if err != nil {
		c.HarnessError("%v", err)
		return true
	}
	defer os.RemoveAll(dir)
	tmp, tools, bin := filepath.Join(dir, "t"), filepath.Join(dir, "w"), filepath.Join(dir, "b")
	for _, d := range []string{tmp, tools, bin} {
		if err := os.Mkdir(d, 0o700); err != nil {
			c.HarnessError("%v", err)
			return true
		}
	}
	s.Out, s.Dir = filepath.Join(tools, "report"), tools
	b, _ := json.Marshal(s)
	specFile := filepath.Join(tools, "spec")
	if err := os.WriteFile(specFile, b, 0o600); err != nil {
		c.HarnessError("%v", err)
		return true
	}
	cmd := exec.Command(self(), "-test.run", "^TestHelperChild$", "-test.v", "-test.timeout", "0")
	cmd.Env = append(os.Environ(), "VERIF_CHILD="+specFile, "TMPDIR="+tmp)
	runs, needFake, fails, mayStart := s.End == "pass" || s.End == "skip", false, false, true
	for _, it := range s.Items {
		switch it.Kind {
		case "fake":
			if os.Symlink(self(), filepath.Join(bin, "haproxy")) != nil {
				c.HarnessError("symlink")
				return true
			}
			cmd.Env = append(cmd.Env, "PATH="+bin, "VERIF_FAKE="+it.Mode, "VERIF_FAKE_PID="+tools)
			needFake = true
			if it.Mode != "slow" {
				fails, mayStart = true, false
			}
		case "missing":
			fails = true
		}
	}
	cmd.Dir = tools
	out := &bytes.Buffer{} // read after exit only
	cmd.Stdout, cmd.Stderr = out, out
	cmd.SysProcAttr = &syscall.SysProcAttr{Setpgid: true}
	if err := cmd.Start(); err != nil {
		c.HarnessError("%v", err)
		return true
	}
	exit := make(chan struct{})
	go func() { cmd.Wait(); close(exit) }()
	hang := false
	select {
	case <-exit:
	case <-time.After(150 * time.Second):
		hang = true
		cmd.Process.Signal(syscall.SIGQUIT)
		select {
		case <-exit:
		case <-time.After(10 * time.Second):
		}
	}
	defer syscall.Kill(-cmd.Process.Pid, syscall.SIGKILL)
	var rep helperReport
	rb, _ := os.ReadFile(s.Out)
	json.Unmarshal(rb, &rep)
	if !rep.Started && mayStart && !last {
		return false
	}
	show := func() string {
		return fmt.Sprintf("\nthe test was %s\nits output:\n%s", b, clip(noFiller(out.String()), 3000))
	}
	if hang {
		c.Violate("hang", cas, "a test that uses the helpers does not end%s", show())
		return true
	}
	if !rep.Started && mayStart {
		c.Violate("not-started", cas, "HAProxy was not started%s", show())
		return true
	}
	for _, p := range rep.Problems {
		c.Violate("helper", cas, "%s%s", p, show())
	}
	code := cmd.ProcessState.ExitCode()
	want := 0
	if !runs || fails {
		want = 1
	}
	panics := s.End == "panic" && !fails
	if panics {
		want = 2
	}
	if s.Allocs == nil && code != want {
		c.Violate("outcome", cas, "a test that ought to end with %d ended with %d%s", want, code, show())
	}
	if !fails && rep.Ready != len(s.Items) {
		c.Violate("outcome", cas, "only %d of %d helpers returned%s", rep.Ready, len(s.Items), show())
	}
	if !panics && !rep.Done {
		c.Violate("outcome", cas, "the process died%s", show())
	}
	for i, ok := range rep.Allocs {
		if ok != (s.Allocs[i][0] == s.Allocs[i][1]) {
			c.Violate("allocs", cas, "a function that allocates %d times passed=%v with %d announced", s.Allocs[i][1], ok, s.Allocs[i][0])
		}
		c.Count("allocation_tests", 1)
	}
	// nothing may be left, whoever was to remove it
	for _, p := range rep.Pids {
		if !eventually(5*time.Second, func() bool { return gonePid(p) }) {
			c.Violate("left-process", cas, "a process outlives its test%s", show())
		}
	}
	if left := listDir(tmp); len(left) > 0 {
		c.Violate("left-file", cas, "left behind: %v%s", left, show())
	}
	for _, f := range listDir(tools) {
		var pid int
		if n, _ := fmt.Sscanf(f, "fake-%d", &pid); n == 1 && !eventually(5*time.Second, func() bool { return gonePid(pid) }) {
			c.Violate("left-process", cas, "HAProxy outlives its test%s", show())
		}
	}
	if want == 1 && s.Allocs == nil {
		text := out.String()
		for i, it := range s.Items {
			if it.Kind == "proc" && !it.Nested && i < rep.Ready &&
				!(strings.Contains(text, "out-"+it.Token) && strings.Contains(text, "err-"+it.Token) && strings.Contains(text, "end-"+it.Token)) {
				c.Violate("output", cas, "the test failed and does not show what its process printed%s", show())
			}
		}
		if needFake && !strings.Contains(text, "fake-") && rep.Started {
			c.Violate("output", cas, "the test failed and does not show what HAProxy printed%s", show())
		}
		c.Count("failed_tests", 1)
	}
	for _, it := range s.Items {
		c.Count("helper_"+it.Kind, 1)
		c.Eval(fmt.Sprint(it.Kind, it.Name, it.Size, it.Mode, it.Stay, it.Gone, it.Nested, it.Engine, it.Peer, s.End))
	}
	c.Count("ended_by_"+s.End, 1)
	c.Count("haproxy_answers", len(rep.Seen))
	return true
}

func listDir(d string) []string {
	var out []string
	e, _ := os.ReadDir(d)
	for _, x := range e {
		out = append(out, x.Name())
	}
	return out
}

func clip(s string, n int) string {
	if len(s) <= n {
		return s
	}
	return s[:n/2] + "\n...\n" + s[len(s)-n/2:]
}

func TestC32(t *testing.T) {
	c := mon.Start(t, "C32", "tests in processes of their own that obtain files, processes, listeners, ports and HAProxies (real ones, and programs that take HAProxy's place and start late, never or half) from the helpers and then pass, are skipped, fail or panic; watched from inside the test, after it, and from outside. Non-trivial: distinct combination of helper, size and end.")
	defer c.Finish()
	r := c.Rng
	n := c.N(48, 1000)
	sem := make(chan struct{}, 6)
	var wg sync.WaitGroup
	for i := 0; i < n && !c.Stop() && c.TimeLeft(); i++ {
		s := genHelperSpec(r, i)
		cas := fmt.Sprintf("seed %d test %d", c.Seed, i)
		if i < 6 {
			b, _ := json.Marshal(s)
			c.Sample("%.300s", b)
		}
		sem <- struct{}{}
		c.Case("%s", cas)
		wg.Add(1)
		go func() {
			defer func() { <-sem; wg.Done() }()
			for try := 0; !runHelperSpec(c, cas, s, try == 4); try++ {
				c.Count("retried", 1)
				time.Sleep(time.Duration(try+1) * time.Second)
			}
		}()
	}
	wg.Wait()
}

// noFiller leaves out what the tools print to fill pipes.
func noFiller(s string) string {
	var out []string
	for _, l := range strings.Split(s, "\n") {
		if !strings.HasSuffix(l, "xxxxxxxxxx") {
			out = append(out, l)
		}
	}
	return strings.Join(out, "\n")
}
