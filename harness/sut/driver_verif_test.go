package server_test

// Conformance driver: runs the real TCP server, the real HTTP API and the real
// simulated terminal inside a testing/synctest bubble (fake clock), over
// in-memory connections, and executes one scripted operation per input line.
// It judges nothing; it only reports what could be observed from outside:
// bytes written per connection, connections the server closed, HTTP answers
// and the device list, together with the (fake) time.

import (
	"bufio"
	"bytes"
	"encoding/hex"
	"encoding/json"
	"fmt"
	"io"
	"math/rand"
	"net"
	"net/http"
	"os"
	"runtime"
	"sort"
	"strconv"
	"strings"
	"sync"
	"sync/atomic"
	"syscall"
	"testing"
	"testing/synctest"
	"time"

	"github.com/rs/zerolog"
	"github.com/rs/zerolog/log"

	"github.com/fakeyanss/jt808-server-go/internal/api"
	"github.com/fakeyanss/jt808-server-go/internal/config"
	"github.com/fakeyanss/jt808-server-go/internal/server"
	"github.com/fakeyanss/jt808-server-go/internal/verifyield"
)

type memAddr string

func (a memAddr) Network() string { return "tcp" }
func (a memAddr) String() string  { return string(a) }

type memListener struct{ ch chan net.Conn }

// Accept; a nil connection stands for an accept that fails (out of file descriptors).
func (l *memListener) Accept() (net.Conn, error) {
	c := <-l.ch
	if c == nil {
		return nil, &net.OpError{Op: "accept", Net: "tcp", Err: os.NewSyscallError("accept4", syscall.EMFILE)}
	}
	return c, nil
}
func (l *memListener) Close() error              { return nil }
func (l *memListener) Addr() net.Addr            { return memAddr("0.0.0.0:8080") }

var bubbleEpoch = time.Date(2015, 1, 1, 0, 0, 0, 0, time.UTC)

func inBubble() bool { return time.Now().Before(bubbleEpoch) }

// memConn is the server's end of one connection.
type memConn struct {
	name   string
	remote memAddr

	mu       sync.Mutex
	in       [][]byte
	eof      bool
	reset    bool // the peer sent RST: one ECONNRESET, then EOF; writes fail
	resetHit bool
	out      []byte
	closed   bool
	stall    bool // writes block until the connection ends
	poke     bool // closed by a goroutine outside the bubble: driver must wake the reader
	deadline time.Time

	wake chan struct{}
}

func newMemConn(name, remote string) *memConn {
	return &memConn{name: name, remote: memAddr(remote), wake: make(chan struct{}, 1)}
}

func (c *memConn) signal() {
	select {
	case c.wake <- struct{}{}:
	default:
	}
}

func (c *memConn) Read(b []byte) (int, error) {
	if len(b) == 0 {
		return 0, nil
	}
	for {
		c.mu.Lock()
		switch {
		case c.closed:
			c.mu.Unlock()
			return 0, &net.OpError{Op: "read", Net: "tcp", Err: net.ErrClosed}
		case len(c.in) > 0:
			n := copy(b, c.in[0])
			c.in[0] = c.in[0][n:]
			if len(c.in[0]) == 0 {
				c.in = c.in[1:]
			}
			c.mu.Unlock()
			return n, nil
		case c.reset && !c.resetHit:
			c.resetHit = true
			c.mu.Unlock()
			return 0, &net.OpError{Op: "read", Net: "tcp", Err: os.NewSyscallError("read", syscall.ECONNRESET)}
		case c.eof || c.reset:
			c.mu.Unlock()
			return 0, io.EOF
		}
		dl := c.deadline
		c.mu.Unlock()
		if dl.IsZero() {
			<-c.wake
			continue
		}
		d := time.Until(dl)
		if d <= 0 {
			return 0, &net.OpError{Op: "read", Net: "tcp", Err: os.ErrDeadlineExceeded}
		}
		select {
		case <-c.wake:
		case <-time.After(d):
		}
	}
}

func (c *memConn) Write(b []byte) (int, error) {
	c.mu.Lock()
	defer c.mu.Unlock()
	for c.stall && !c.closed && !c.reset { // the peer does not read
		c.mu.Unlock()
		if inBubble() {
			time.Sleep(50 * time.Millisecond)
		} else {
			time.Sleep(time.Millisecond)
		}
		c.mu.Lock()
	}
	if c.closed {
		return 0, &net.OpError{Op: "write", Net: "tcp", Err: net.ErrClosed}
	}
	if c.reset {
		return 0, &net.OpError{Op: "write", Net: "tcp", Err: os.NewSyscallError("write", syscall.EPIPE)}
	}
	c.out = append(c.out, b...)
	return len(b), nil
}

func (c *memConn) Close() error {
	c.mu.Lock()
	if c.closed {
		c.mu.Unlock()
		return &net.OpError{Op: "close", Net: "tcp", Err: net.ErrClosed}
	}
	c.closed = true
	if !inBubble() {
		c.poke = true
		c.mu.Unlock()
		return nil
	}
	c.mu.Unlock()
	c.signal()
	return nil
}

func (c *memConn) LocalAddr() net.Addr  { return memAddr("127.0.0.1:8080") }
func (c *memConn) RemoteAddr() net.Addr { return c.remote }
func (c *memConn) SetDeadline(t time.Time) error {
	return c.SetReadDeadline(t)
}
func (c *memConn) SetReadDeadline(t time.Time) error {
	c.mu.Lock()
	c.deadline = t
	c.mu.Unlock()
	if inBubble() {
		c.signal()
	}
	return nil
}
func (c *memConn) SetWriteDeadline(time.Time) error { return nil }

func (c *memConn) push(chunk []byte) {
	c.mu.Lock()
	c.in = append(c.in, chunk)
	c.mu.Unlock()
	c.signal()
}

type devSpec struct {
	ID, Plate, Phone, IMEI, SW, Ver string
	PVer                            uint8
}

type op struct {
	Op     string   `json:"op"`
	Conn   string   `json:"conn"`
	Addr   string   `json:"addr"`
	Chunks []string `json:"chunks"`
	Gap    int      `json:"gap"`
	Settle int      `json:"settle"`
	At     int      `json:"at"`
	Ms     int      `json:"ms"`
	Method string   `json:"method"`
	Path   string   `json:"path"`
	Body   string   `json:"body"`
	CType  string   `json:"ctype"`
	Ops    []*op    `json:"ops"`
	Seed   int64    `json:"seed"`
	Yield  int      `json:"yield"`
	Hold   int      `json:"hold"`
	Places int      `json:"places"`
	Jitter int      `json:"jitter"`
	Dev    *devSpec `json:"dev"`
	Words  []uint32 `json:"words"`
	N      int      `json:"n"`
	Kind   string   `json:"kind"`
	NoSnap bool     `json:"nosnap"`
	Level  string   `json:"level"`
}

type httpRes struct {
	Code int    `json:"code"`
	Body string `json:"body"`
	Err  string `json:"err,omitempty"`
}

type obs struct {
	T0     int64             `json:"t0"`
	T      int64             `json:"t"`
	Out    map[string]string `json:"out"`
	Closed []string          `json:"closed"`
	Devs   json.RawMessage   `json:"devs,omitempty"`
	HTTP   []*httpRes        `json:"http,omitempty"`
	Ints   []uint32          `json:"ints,omitempty"`
	Alive  map[string]bool   `json:"alive,omitempty"`
	Err    string            `json:"err,omitempty"`
	Res    map[string]int64  `json:"res,omitempty"`
	Codec  []any             `json:"codec,omitempty"`
}

// extOps holds the operations of the optional extension files.
var extOps = map[string]func(d *driver, o *op, r *obs){}

type driver struct {
	lst     *memListener
	conns   map[string]*memConn
	order   []string
	seenCl  map[string]bool
	port    string
	serv    *server.TCPServer
	cliDone map[string]*atomic.Bool
	left    []net.Conn
}

func (d *driver) wait() {
	for {
		synctest.Wait()
		again := false
		for _, n := range d.order {
			c := d.conns[n]
			c.mu.Lock()
			p := c.poke
			c.poke = false
			c.mu.Unlock()
			if p {
				c.signal()
				again = true
			}
		}
		if !again {
			return
		}
	}
}

func (d *driver) sleep(ms int) {
	for ms > 0 {
		s := ms
		if s > 500 {
			s = 500
		}
		time.Sleep(time.Duration(s) * time.Millisecond)
		ms -= s
		d.wait()
	}
}

// httpLeave sends a request and does not wait for the answer.
func (d *driver) httpLeave(method, path string) *httpRes {
	conn, err := net.Dial("tcp", "127.0.0.1:"+d.port)
	if err != nil {
		return &httpRes{Err: err.Error()}
	}
	d.left = append(d.left, conn)
	if _, err = fmt.Fprintf(conn, "%s %s HTTP/1.1\r\nHost: localhost\r\n\r\n", method, path); err != nil {
		return &httpRes{Err: err.Error()}
	}
	// the request is under way once the server has had time to read it
	ts := syscall.NsecToTimespec(3_000_000)
	_ = syscall.Nanosleep(&ts, nil)
	return &httpRes{Code: 1}
}

func (d *driver) http(method, path, body, ctype string) *httpRes {
	conn, err := net.Dial("tcp", "127.0.0.1:"+d.port)
	if err != nil {
		return &httpRes{Err: err.Error()}
	}
	defer func() {
		if tc, ok := conn.(*net.TCPConn); ok {
			_ = tc.SetLinger(0) // leave no TIME_WAIT behind
		}
		conn.Close()
	}()
	var b bytes.Buffer
	fmt.Fprintf(&b, "%s %s HTTP/1.1\r\nHost: localhost\r\n", method, path)
	if method == "GET" || method == "HEAD" {
		body = ""
	} else {
		if ctype == "" {
			ctype = "application/json"
		}
		fmt.Fprintf(&b, "Content-Type: %s\r\nContent-Length: %d\r\n", ctype, len(body))
	}
	b.WriteString("\r\n")
	b.WriteString(body)
	if _, err = conn.Write(b.Bytes()); err != nil {
		return &httpRes{Err: err.Error()}
	}
	resp, err := http.ReadResponse(bufio.NewReader(conn), &http.Request{Method: method})
	if err != nil {
		return &httpRes{Err: err.Error()}
	}
	data, err := io.ReadAll(resp.Body)
	resp.Body.Close()
	if err != nil {
		return &httpRes{Err: err.Error()}
	}
	return &httpRes{Code: resp.StatusCode, Body: string(data)}
}

func (d *driver) send(o *op) {
	c := d.conns[o.Conn]
	if c == nil { // closed by the server and forgotten
		return
	}
	for i, h := range o.Chunks {
		if i > 0 && o.Gap > 0 {
			time.Sleep(time.Duration(o.Gap) * time.Millisecond)
		}
		raw, err := hex.DecodeString(h)
		if err != nil {
			panic("driver: bad hex")
		}
		if len(raw) > 0 {
			c.push(raw)
		}
	}
}

func (d *driver) peerGone(o *op, rst bool) {
	c := d.conns[o.Conn]
	if c == nil {
		return
	}
	c.mu.Lock()
	if rst {
		c.reset = true
		c.in = nil
	} else {
		c.eof = true
	}
	c.mu.Unlock()
	c.signal()
}

func (d *driver) exec(o *op, r *obs) {
	switch o.Op {
	case "open":
		c := newMemConn(o.Conn, o.Addr)
		d.conns[o.Conn] = c
		d.order = append(d.order, o.Conn)
		d.lst.ch <- c
	case "send":
		d.send(o)
	case "close":
		d.peerGone(o, false)
	case "reset":
		d.peerGone(o, true)
	case "sleep":
		d.sleep(o.Ms)
	case "stall":
		c := d.conns[o.Conn]
		c.mu.Lock()
		c.stall = true
		c.mu.Unlock()
	case "httpleave":
		r.HTTP = append(r.HTTP, d.httpLeave(o.Method, o.Path))
	case "http":
		r.HTTP = append(r.HTTP, d.http(o.Method, o.Path, o.Body, o.CType))
	case "par":
		d.par(o, r)
	case "nofile":
		for i := 0; i < o.N; i++ {
			d.lst.ch <- nil
		}
	case "forget":
		d.forget()
	case "measure":
		d.measure(r)
	case "level":
		lv, err := zerolog.ParseLevel(o.Level)
		if err != nil {
			panic("driver: level")
		}
		log.Logger = zerolog.New(io.Discard).Level(lv)
	default:
		if f, ok := extOps[o.Op]; ok {
			f(d, o, r)
			return
		}
		panic("driver: unknown op " + o.Op)
	}
}

// forget drops what the driver itself keeps of connections that are over.
func (d *driver) forget() {
	var rest []string
	for _, n := range d.order {
		c := d.conns[n]
		c.mu.Lock()
		over := c.closed
		c.mu.Unlock()
		if over {
			delete(d.conns, n)
			delete(d.seenCl, n)
		} else {
			rest = append(rest, n)
		}
	}
	d.order = rest
}

// measure reports what the process holds: goroutines, memory, connections the peer has left and the server has not closed.
func (d *driver) measure(r *obs) {
	nap := func() {
		ts := syscall.NsecToTimespec(2_000_000)
		_ = syscall.Nanosleep(&ts, nil)
	}
	low, same := runtime.NumGoroutine(), 0
	for i := 0; i < 500 && same < 10; i++ { // answered HTTP requests take a moment to end
		d.wait()
		nap()
		if n := runtime.NumGoroutine(); n < low {
			low, same = n, 0
		} else {
			same++
		}
	}
	var best runtime.MemStats
	for i := 0; i < 4; i++ {
		runtime.GC()
		nap()
		var m runtime.MemStats
		runtime.ReadMemStats(&m)
		if i == 0 || m.HeapObjects < best.HeapObjects {
			best = m
		}
	}
	kept, open := 0, 0
	for _, n := range d.order {
		c := d.conns[n]
		c.mu.Lock()
		if !c.closed {
			open++
			if c.eof || c.reset {
				kept++
			}
		}
		c.mu.Unlock()
	}
	r.Res = map[string]int64{"gor": int64(low), "objs": int64(best.HeapObjects), "bytes": int64(best.HeapAlloc), "kept": int64(kept), "open": int64(open)}
}

func (d *driver) par(o *op, r *obs) {
	t0 := time.Now()
	n := 0
	for _, s := range o.Ops {
		if s.Op == "http" {
			n++
		}
	}
	res := make([]*httpRes, 0, n)
	if o.Yield > 0 {
		verifyield.Start(o.Seed, o.Yield, o.Hold, o.Places)
	}
	rng := rand.New(rand.NewSource(o.Seed))
	perm := rng.Perm(len(o.Ops))
	slots := make([]*httpRes, len(o.Ops))
	late := make([]int, len(o.Ops)) // so that requests over HTTP and messages meet
	for i := range late {
		if o.Jitter > 0 && rng.Intn(3) > 0 {
			late[i] = rng.Intn(o.Jitter)
		}
	}
	var wg sync.WaitGroup
	for _, i := range perm {
		i := i // the module's language version shares loop variables
		s := o.Ops[i]
		wg.Add(1)
		go func() {
			defer wg.Done()
			if s.At > 0 {
				time.Sleep(time.Duration(s.At)*time.Millisecond - time.Since(t0))
			}
			verifyield.Jitter(late[i])
			switch s.Op {
			case "http":
				slots[i] = d.http(s.Method, s.Path, s.Body, s.CType)
			case "send":
				d.send(s)
			case "close":
				d.peerGone(s, false)
			case "reset":
				d.peerGone(s, true)
			default:
				panic("driver: par op " + s.Op)
			}
		}()
	}
	wg.Wait()
	d.wait()
	verifyield.Stop()
	for i, s := range o.Ops {
		if s.Op == "http" {
			res = append(res, slots[i])
		}
	}
	r.HTTP = append(r.HTTP, res...)
}

func (d *driver) collect(r *obs) {
	r.Out = map[string]string{}
	for _, n := range d.order {
		c := d.conns[n]
		c.mu.Lock()
		if len(c.out) > 0 {
			r.Out[n] = hex.EncodeToString(c.out)
			c.out = nil
		}
		if c.closed && !d.seenCl[n] {
			d.seenCl[n] = true
			r.Closed = append(r.Closed, n)
		}
		c.mu.Unlock()
	}
	sort.Strings(r.Closed)
	if len(d.cliDone) > 0 {
		r.Alive = map[string]bool{}
		for n, b := range d.cliDone {
			r.Alive[n] = !b.Load()
		}
	}
}

func freePort() string {
	l, err := net.Listen("tcp", ":0")
	if err != nil {
		panic(err)
	}
	defer l.Close()
	_, p, _ := net.SplitHostPort(l.Addr().String())
	return p
}

// ownPort tells whether this process is the one listening on the port.
func ownPort(port string) bool {
	var n int
	fmt.Sscan(port, &n)
	inodes := map[string]bool{}
	for _, f := range []string{"/proc/net/tcp", "/proc/net/tcp6"} {
		data, err := os.ReadFile(f)
		if err != nil {
			continue
		}
		for _, l := range strings.Split(string(data), "\n") {
			w := strings.Fields(l)
			if len(w) > 9 && w[3] == "0A" && strings.HasSuffix(w[1], fmt.Sprintf(":%04X", n)) {
				inodes["socket:["+w[9]+"]"] = true
			}
		}
	}
	if len(inodes) == 0 {
		return true // cannot tell
	}
	fds, err := os.ReadDir("/proc/self/fd")
	if err != nil {
		return true
	}
	for _, e := range fds {
		if l, err := os.Readlink("/proc/self/fd/" + e.Name()); err == nil && inodes[l] {
			return true
		}
	}
	return false
}

func TestVerifDriver(t *testing.T) {
	dir := os.Getenv("VERIF_DRIVER_DIR")
	if dir == "" {
		t.Skip("not a driver run")
	}
	if n, err := strconv.Atoi(os.Getenv("VERIF_PROCS")); err == nil && n > 0 {
		runtime.GOMAXPROCS(n)
	}
	level, err := zerolog.ParseLevel(os.Getenv("VERIF_LEVEL"))
	if err != nil {
		t.Fatal(err)
	}
	log.Logger = zerolog.New(io.Discard).Level(level)
	port := os.Getenv("VERIF_PORT")
	if port == "" {
		port = freePort()
	}
	cfgFile := dir + "/server.yaml"
	conf := "log:\n  consoleEnable: false\n  fileEnable: false\n  printAsJson: false\n  logLevel: \"INFO\"\n  logDirectory: \"" + dir +
		"\"\n  logFile: \"x.log\"\n  maxSizeOfRolling: 1\n  maxBackupsOfRolling: 1\n  maxAgeOfRolling: 1\n" +
		"server:\n  name: \"x\"\n  port:\n    tcpPort: \"0\"\n    udpPort: \"0\"\n    httpPort: \"" + port + "\"\n  banner:\n    enable: false\n    bannerPath: \"\"\n"
	if err := os.WriteFile(cfgFile, []byte(conf), 0o600); err != nil {
		t.Fatal(err)
	}
	devnull, _ := os.OpenFile("/dev/null", os.O_WRONLY, 0)
	os.Stdout = devnull
	cfg := config.Load(cfgFile)
	serv := server.NewTCPServer()
	go api.Run(serv, cfg)
	for i := 0; ; i++ {
		c, err := net.Dial("tcp", "127.0.0.1:"+port)
		if err == nil {
			c.Close()
			if !ownPort(port) { // somebody else listens there
				os.Exit(97)
			}
			break
		}
		if i > 4000 {
			os.Exit(96)
		}
		time.Sleep(5 * time.Millisecond)
	}
	out := os.NewFile(3, "obs")
	enc := json.NewEncoder(out)
	enc.SetEscapeHTML(false)
	in := bufio.NewReaderSize(os.Stdin, 1<<20)

	synctest.Test(t, func(t *testing.T) {
		d := &driver{lst: &memListener{ch: make(chan net.Conn)}, conns: map[string]*memConn{}, seenCl: map[string]bool{}, port: port, serv: serv,
			cliDone: map[string]*atomic.Bool{}}
		server.VerifSetListener(serv, d.lst)
		go serv.Start()
		epoch := time.Now()
		_ = enc.Encode(map[string]bool{"ready": true})
		for {
			line, err := in.ReadBytes('\n')
			if err != nil {
				os.Exit(0)
			}
			o := &op{}
			if err := json.Unmarshal(line, o); err != nil {
				fmt.Fprintln(os.Stderr, "VERIF-DRIVER-ERROR: bad op:", err)
				os.Exit(98)
			}
			r := &obs{T0: time.Since(epoch).Milliseconds(), Closed: []string{}}
			d.exec(o, r)
			d.wait()
			if o.Settle > 0 {
				d.sleep(o.Settle)
			}
			if !o.NoSnap {
				h := d.http("GET", "/device", "", "")
				if h.Err != "" || h.Code != 200 {
					r.Err = fmt.Sprintf("snapshot: %d %s", h.Code, h.Err)
				} else {
					r.Devs = json.RawMessage(h.Body)
				}
				d.wait()
			}
			r.T = time.Since(epoch).Milliseconds()
			d.collect(r)
			if err := enc.Encode(r); err != nil {
				os.Exit(98)
			}
		}
	})
}
