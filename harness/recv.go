package main

// recv mode: drives the real receiver through scenarios and records what is observed from outside: what the
// clients send and read, and the calls of the stores. One child process ("host") runs the server per scenario.

import (
	"bufio"
	"bytes"
	"encoding/binary"
	"encoding/hex"
	"encoding/json"
	"fmt"
	"io"
	"io/ioutil"
	"math"
	"net"
	"os"
	"os/exec"
	"runtime"
	"strconv"
	"strings"
	"sync"
	"sync/atomic"
	"syscall"
	"time"
	"unsafe"

	"github.com/kuznetsovin/egts-protocol/cli/receiver/server"
	"github.com/kuznetsovin/egts-protocol/cli/receiver/storage"
	log "github.com/sirupsen/logrus"
)

// ---- the server process ------------------------------------------------------

type hostCfg struct {
	Addr    string
	TTL     int // ms
	Stores  int
	Prestop bool
	Quiet   bool // log nothing below errors
	Files   int  // descriptors the process may have, 0: as many as usual
}

type hostMsg struct {
	T     string          `json:"t"`
	ID    int64           `json:"id"`
	Store int             `json:"store"`
	Rec   json.RawMessage `json:"rec,omitempty"`
	Err   string          `json:"err,omitempty"`
	OK    bool            `json:"ok"`
}

type hostPipe struct {
	mu   sync.Mutex
	enc  *json.Encoder
	next int64
	wait map[int64]chan bool
}

func (h *hostPipe) send(m hostMsg) {
	h.mu.Lock()
	defer h.mu.Unlock()
	if err := h.enc.Encode(m); err != nil {
		os.Exit(0) // the parent is gone
	}
}

type hostStore struct {
	h *hostPipe
	n int
}

type storeError struct{}

func (storeError) Error() string { return "store refused the record" }

func (s hostStore) Save(m interface{ ToBytes() ([]byte, error) }) error {
	b, err := m.ToBytes()
	if err != nil {
		b = []byte("null")
	}
	ch := make(chan bool, 1)
	s.h.mu.Lock()
	s.h.next++
	id := s.h.next
	s.h.wait[id] = ch
	s.h.mu.Unlock()
	s.h.send(hostMsg{T: "save", ID: id, Store: s.n, Rec: b})
	if !<-ch {
		return storeError{}
	}
	return nil
}

func hostMain(arg string) {
	cfg := hostCfg{}
	if err := json.Unmarshal([]byte(arg), &cfg); err != nil {
		fatal("host: %v", err)
	}
	log.SetOutput(ioutil.Discard)
	log.SetLevel(log.DebugLevel)
	if cfg.Quiet {
		log.SetLevel(log.ErrorLevel)
	}
	log.StandardLogger().ExitFunc = func(c int) {
		fmt.Fprintln(os.Stderr, "log.Fatal")
		os.Exit(c)
	}
	if cfg.Files > 0 {
		lim := syscall.Rlimit{Cur: uint64(cfg.Files), Max: uint64(cfg.Files)}
		if err := syscall.Setrlimit(syscall.RLIMIT_NOFILE, &lim); err != nil {
			fatal("host: %v", err)
		}
	}
	h := &hostPipe{enc: json.NewEncoder(os.Stdout), wait: map[int64]chan bool{}}
	rep := storage.NewRepository()
	for i := 1; i <= cfg.Stores; i++ {
		rep.AddStore(hostStore{h, i})
	}
	srv := server.New(cfg.Addr, time.Duration(cfg.TTL)*time.Millisecond, rep)
	if cfg.Prestop {
		_ = srv.Stop()
	}
	go func() {
		srv.Run()
		h.send(hostMsg{T: "runret"})
	}()
	in := json.NewDecoder(bufio.NewReader(os.Stdin))
	for {
		m := hostMsg{}
		if err := in.Decode(&m); err != nil {
			os.Exit(0)
		}
		switch m.T {
		case "saved":
			h.mu.Lock()
			ch := h.wait[m.ID]
			delete(h.wait, m.ID)
			h.mu.Unlock()
			ch <- m.OK
		case "stop":
			go func() {
				_ = srv.Stop()
				h.send(hostMsg{T: "stopret"})
			}()
		case "tasks":
			h.send(hostMsg{T: "tasks", ID: int64(runtime.NumGoroutine())})
		case "storm":
			go func() {
				for i := 0; i < m.Store; i++ {
					for _, e := range storm1(cfg.Addr, i+1, rep) {
						h.send(hostMsg{T: "seen", Err: e})
					}
				}
				h.send(hostMsg{T: "stormed"})
			}()
		}
	}
}

// storm1 starts a server of its own that is stopped while clients come and go as fast as they can
func storm1(addr string, i int, rep *storage.Repository) []string {
	ip, port, _ := net.SplitHostPort(addr)
	n, _ := strconv.Atoi(port)
	addr = net.JoinHostPort(ip, strconv.Itoa(n+i))
	srv := server.New(addr, 0, rep)
	ret := make(chan struct{})
	go func() {
		srv.Run()
		close(ret)
	}()
	end := make(chan struct{})
	var wg sync.WaitGroup
	var ok int64
	for g := 0; g < 4; g++ {
		wg.Add(1)
		go func() {
			defer wg.Done()
			for {
				select {
				case <-end:
					return
				default:
				}
				if k, err := net.DialTimeout("tcp", addr, 5*time.Second); err == nil {
					atomic.AddInt64(&ok, 1)
					k.Close()
				}
			}
		}()
	}
	if i%2 == 0 { // at once: the first client got through, so the server is up
		for t := time.Now(); atomic.LoadInt64(&ok) < 1 && time.Since(t) < 5*time.Second; {
		}
	} else {
		for t := time.Now(); atomic.LoadInt64(&ok) < 5 && time.Since(t) < 5*time.Second; {
			time.Sleep(time.Millisecond)
		}
		time.Sleep(time.Duration(i%7) * 200 * time.Microsecond)
	}
	seen := []string{"again", "stop"}
	for k := 0; k <= i%3; k++ {
		_ = srv.Stop()
	}
	select {
	case <-ret:
		seen = append(seen, "runret")
	case <-time.After(3 * time.Second):
		seen = append(seen, "noret")
	}
	close(end)
	wg.Wait()
	k, err := net.DialTimeout("tcp", addr, 5*time.Second)
	if err != nil {
		return append(seen, "refused")
	}
	k.Close()
	return append(seen, "connect")
}

// ---- scenarios ---------------------------------------------------------------

type step struct {
	Op       string
	C, N, Ms int
	Branches [][]step
}

type scenario struct {
	ID      int
	TTL     int
	Stores  int
	Delay   int // ms a store takes
	Prestop bool
	Quiet   bool
	Files   int
	Streams []string
	Fails   [][3]int // store, time of the record
	Steps   []step
}

type event = map[string]interface{}

type client struct {
	idx    int
	conn   *net.TCPConn
	stream []byte
	off    int
	mu     sync.Mutex
	hold   bool
	cond   *sync.Cond
	nreply int
	closed bool
}

type run struct {
	sc      scenario
	addr    string
	base    int64
	mu      sync.Mutex
	events  []event
	over    bool
	cl      []*client
	cmd     *exec.Cmd
	inMu    sync.Mutex
	in      *json.Encoder
	fails   map[[3]int]bool
	ret     chan struct{}
	gone    chan struct{}
	stormed chan struct{}
	tasks   chan int64
	idle    []net.Conn
	base0   int64 // tasks of the server process at rest
	stderr  tailBuf
	bad     string
}

type tailBuf struct {
	mu sync.Mutex
	b  []byte
}

func (t *tailBuf) Write(p []byte) (int, error) {
	t.mu.Lock()
	defer t.mu.Unlock()
	if len(t.b) < 1<<16 {
		t.b = append(t.b, p...)
	}
	return len(p), nil
}
func (t *tailBuf) String() string {
	t.mu.Lock()
	defer t.mu.Unlock()
	return string(t.b)
}

func (r *run) now() int64 { return time.Now().UnixNano()/1e6 - r.base*1000 }

func (r *run) log(e event) {
	r.mu.Lock()
	defer r.mu.Unlock()
	if !r.over {
		e["t"] = r.now()
		r.events = append(r.events, e)
	}
}

func pair2(v uint64) [2]int { return [2]int{int(v & 0xFFFF), int(v >> 16 & 0xFFFF)} }

func small(v interface{}) int {
	f, ok := v.(float64)
	if !ok || f != math.Trunc(f) || math.Abs(f) > 1e9 {
		return -1
	}
	return int(f)
}

func big(v interface{}) [2]int {
	f, ok := v.(float64)
	if !ok || f != math.Trunc(f) || f < 0 || f > 0xFFFFFFFF {
		return [2]int{-1, -1}
	}
	return pair2(uint64(f))
}

// a coordinate as the number of wire units it is nearest to
func coord(v interface{}, full float64) ([2]int, bool) {
	f, ok := v.(float64)
	if !ok || math.IsNaN(f) {
		return [2]int{-1, -1}, false
	}
	u := math.Abs(f) / full * 0xFFFFFFFF
	n := math.Round(u)
	if n > 0xFFFFFFFF || math.Abs(u-n) > 0.01 {
		return [2]int{-1, -1}, f < 0
	}
	return pair2(uint64(n)), f < 0
}

func (r *run) record(raw json.RawMessage) event {
	m := map[string]interface{}{}
	if json.Unmarshal(raw, &m) != nil {
		m = map[string]interface{}{}
	}
	ntm := [2]int{-1, -1}
	if f, ok := m["navigation_unix_time"].(float64); ok {
		ntm = big(f - float64(epoch.Unix()))
	}
	rcv := -1
	if f, ok := m["received_unix_time"].(float64); ok && math.Abs(f-float64(r.base)) < 1e6 {
		rcv = int(f - float64(r.base))
	}
	lat, laneg := coord(m["latitude"], 90)
	lon, loneg := coord(m["longitude"], 180)
	an, liq := []interface{}{}, []interface{}{}
	if l, ok := m["an_sensors"].([]interface{}); ok {
		for _, x := range l {
			s, _ := x.(map[string]interface{})
			an = append(an, []interface{}{small(s["sensor_number"]), big(s["value"])})
		}
	}
	if l, ok := m["liquid_sensors"].([]interface{}); ok {
		for _, x := range l {
			s, _ := x.(map[string]interface{})
			ef, _ := s["error_flag"].(string)
			liq = append(liq, []interface{}{small(s["sensor_number"]), ef, big(s["value_mm"]), big(s["value_l"])})
		}
	}
	return event{"cl": big(m["client"]), "pid": big(m["packet_id"]), "ntm": ntm, "rcv": rcv, "lat": lat, "laneg": laneg, "lon": lon,
		"loneg": loneg, "spd": small(m["speed"]), "course": small(m["course"]), "nsat": small(m["nsat"]), "pdop": small(m["pdop"]),
		"hdop": small(m["hdop"]), "vdop": small(m["vdop"]), "ns": small(m["ns"]), "an": an, "liq": liq}
}

func (r *run) tell(m hostMsg) {
	r.inMu.Lock()
	defer r.inMu.Unlock()
	_ = r.in.Encode(m)
}

func (r *run) host(out io.Reader) {
	d := json.NewDecoder(bufio.NewReader(out))
	for {
		m := hostMsg{}
		if d.Decode(&m) != nil {
			break
		}
		switch m.T {
		case "save":
			rec := r.record(m.Rec)
			r.log(event{"e": "save", "s": m.Store, "id": m.ID, "rec": rec})
			n := rec["ntm"].([2]int)
			ok := !r.fails[[3]int{m.Store, n[0], n[1]}]
			id := m.ID
			go func() {
				if r.sc.Delay > 0 {
					time.Sleep(time.Duration(r.sc.Delay) * time.Millisecond)
				}
				r.log(event{"e": "saveret", "id": id, "ok": ok})
				r.tell(hostMsg{T: "saved", ID: id, OK: ok})
			}()
		case "seen":
			r.log(event{"e": m.Err, "c": 1})
		case "tasks":
			r.tasks <- m.ID
		case "stormed":
			close(r.stormed)
		case "runret":
			r.log(event{"e": "runret"})
			close(r.ret)
		}
	}
	close(r.gone)
}

// ---- clients -----------------------------------------------------------------

func (r *run) reader(c *client) {
	buf := []byte{}
	tmp := make([]byte, 1<<16)
	for {
		c.mu.Lock()
		for c.hold {
			c.cond.Wait()
		}
		c.mu.Unlock()
		n, err := c.conn.Read(tmp)
		buf = append(buf, tmp[:n]...)
		for len(buf) >= 10 {
			size := int(buf[3])
			if d := int(buf[5]) | int(buf[6])<<8; d > 0 {
				size += d + 2
			}
			if buf[0] != 1 || buf[3] < 11 {
				size = len(buf)
			}
			if len(buf) < size {
				break
			}
			r.log(event{"e": "reply", "c": c.idx, "b": ints(buf[:size])})
			buf = buf[size:]
			c.mu.Lock()
			c.nreply++
			c.cond.Broadcast()
			c.mu.Unlock()
		}
		if err != nil {
			if len(buf) > 0 {
				r.log(event{"e": "tail", "c": c.idx, "b": ints(buf)})
			}
			how := "eof"
			if err != io.EOF {
				how = "reset"
			}
			r.log(event{"e": "closed", "c": c.idx, "how": how})
			c.mu.Lock()
			c.closed = true
			c.cond.Broadcast()
			c.mu.Unlock()
			return
		}
	}
}

func (c *client) waitFor(ms int, f func() bool) bool {
	t := time.AfterFunc(time.Duration(ms)*time.Millisecond, func() {
		c.mu.Lock()
		c.cond.Broadcast()
		c.mu.Unlock()
	})
	defer t.Stop()
	end := time.Now().Add(time.Duration(ms) * time.Millisecond)
	c.mu.Lock()
	defer c.mu.Unlock()
	for !f() {
		if !time.Now().Before(end) {
			return false
		}
		c.cond.Wait()
	}
	return true
}

func (r *run) do(s step) {
	c := (*client)(nil)
	if s.C > 0 {
		c = r.cl[s.C-1]
	}
	if s.Op != "connect" && c != nil && c.conn == nil {
		return // never connected
	}
	switch s.Op {
	case "connect":
		d := net.Dialer{Timeout: 5 * time.Second}
		if s.Ms > 0 { // little room for what is not read
			d.Control = func(_, _ string, raw syscall.RawConn) error {
				return raw.Control(func(fd uintptr) {
					_ = syscall.SetsockoptInt(int(fd), syscall.SOL_SOCKET, syscall.SO_RCVBUF, s.Ms)
					_ = syscall.SetsockoptInt(int(fd), syscall.SOL_SOCKET, syscall.SO_SNDBUF, 1<<18)
				})
			}
		}
		k, err := d.Dial("tcp", r.addr)
		if err != nil {
			r.log(event{"e": "refused", "c": s.C})
			return
		}
		c.conn = k.(*net.TCPConn)
		_ = c.conn.SetNoDelay(true)
		r.log(event{"e": "connect", "c": s.C})
		go r.reader(c)
	case "send":
		n := s.N
		if n <= 0 || c.off+n > len(c.stream) {
			n = len(c.stream) - c.off
		}
		b := c.stream[c.off : c.off+n]
		c.off += n
		r.log(event{"e": "send", "c": s.C, "n": n})
		_ = c.conn.SetWriteDeadline(time.Now().Add(20 * time.Second))
		_, _ = c.conn.Write(b)
		r.log(event{"e": "sent", "c": s.C})
	case "flood": // until the server takes no more for s.Ms
		for end := time.Now().Add(20 * time.Second); c.off < len(c.stream) && time.Now().Before(end); {
			n := len(c.stream) - c.off
			if n > 1<<16 {
				n = 1 << 16
			}
			_ = c.conn.SetWriteDeadline(time.Now().Add(time.Duration(s.Ms) * time.Millisecond))
			n, err := c.conn.Write(c.stream[c.off : c.off+n])
			c.off += n
			if err != nil {
				break
			}
		}
		r.log(event{"e": "flooded", "c": s.C, "n": c.off})
		if s.N > 0 { // and whenever it takes more again
			k, rest := c.conn, c.stream[c.off:]
			go func() {
				_ = k.SetWriteDeadline(time.Time{})
				_, _ = k.Write(rest)
			}()
		}
	case "stale": // is the connection still there s.Ms after the receiver took the last byte?
		last, since := uint64(0), time.Now()
		for end := since.Add(60 * time.Second); time.Now().Before(end); time.Sleep(10 * time.Millisecond) {
			if !heldOpen(c.conn) {
				break
			}
			acked := tcpAcked(c.conn)
			if acked != last {
				last, since = acked, time.Now()
				r.log(event{"e": "flooded", "c": s.C, "n": acked})
			} else if time.Since(since) > time.Duration(s.Ms)*time.Millisecond {
				r.log(event{"e": "stale", "c": s.C})
				break
			}
		}
	case "half":
		r.log(event{"e": "half", "c": s.C})
		_ = c.conn.CloseWrite()
	case "abort":
		r.log(event{"e": "abort", "c": s.C})
		_ = c.conn.SetLinger(0)
		_ = c.conn.Close()
	case "close":
		r.log(event{"e": "abort", "c": s.C})
		_ = c.conn.Close()
	case "await":
		c.waitFor(s.Ms, func() bool { return c.nreply >= s.N || c.closed })
	case "drain":
		if !c.waitFor(s.Ms, func() bool { return c.closed }) {
			r.log(event{"e": "still", "c": s.C})
		}
	case "noread":
		c.mu.Lock()
		c.hold = true
		c.mu.Unlock()
	case "resume":
		c.mu.Lock()
		c.hold = false
		c.cond.Broadcast()
		c.mu.Unlock()
	case "rcvbuf":
		_ = c.conn.SetReadBuffer(s.N)
	case "sleep":
		time.Sleep(time.Duration(s.Ms) * time.Millisecond)
	case "stop":
		r.log(event{"e": "stop"})
		r.tell(hostMsg{T: "stop"})
	case "storm":
		r.tell(hostMsg{T: "storm", Store: s.N})
		select {
		case <-r.stormed:
		case <-r.gone:
		case <-time.After(time.Duration(s.Ms) * time.Millisecond):
		}
	case "idle": // s.N more clients that only connect and stay to the end
		for i := 0; i < s.N; i++ {
			if k, err := net.DialTimeout("tcp", r.addr, 5*time.Second); err == nil {
				r.idle = append(r.idle, k)
			} else {
				r.log(event{"e": "refused"})
				break
			}
		}
	case "base":
		r.base0 = r.nTasks()
	case "held": // what the receiver holds, once it has released all but s.N connections or s.Ms are over
		n, g := 0, int64(0)
		for end := time.Now().Add(time.Duration(s.Ms) * time.Millisecond); ; time.Sleep(20 * time.Millisecond) {
			n, g = heldBy(r.addr), r.nTasks()-r.base0
			if (n <= s.N && g <= int64(s.N)) || time.Now().After(end) {
				break
			}
		}
		r.log(event{"e": "held", "n": n, "tasks": g})
	case "waitret":
		select {
		case <-r.ret:
		case <-r.gone:
		case <-time.After(time.Duration(s.Ms) * time.Millisecond):
			r.log(event{"e": "noret"})
		}
	case "par":
		var wg sync.WaitGroup
		for _, b := range s.Branches {
			wg.Add(1)
			b := b
			go func() {
				defer wg.Done()
				for _, x := range b {
					r.do(x)
				}
			}()
		}
		wg.Wait()
	default:
		fatal("step %q", s.Op)
	}
}

// tcpAcked tells how many bytes the other side has taken
func tcpAcked(k *net.TCPConn) (acked uint64) {
	raw, err := k.SyscallConn()
	if err != nil {
		return
	}
	_ = raw.Control(func(fd uintptr) {
		var info [232]byte
		n := uint32(len(info))
		_, _, _ = syscall.Syscall6(syscall.SYS_GETSOCKOPT, fd, syscall.IPPROTO_TCP, syscall.TCP_INFO, uintptr(unsafe.Pointer(&info)), uintptr(unsafe.Pointer(&n)), 0)
		acked = binary.LittleEndian.Uint64(info[120:])
	})
	return
}

// nTasks asks the server process how many goroutines it has
func (r *run) nTasks() int64 {
	r.tell(hostMsg{T: "tasks"})
	select {
	case n := <-r.tasks:
		return n
	case <-r.gone:
	case <-time.After(20 * time.Second): // says nothing about the receiver
	}
	return r.base0
}

// heldBy counts the connections to addr that the process there has open
func heldBy(addr string) (n int) {
	a, _ := net.ResolveTCPAddr("tcp", addr)
	ip := a.IP.To4()
	own := fmt.Sprintf("%02X%02X%02X%02X:%04X", ip[3], ip[2], ip[1], ip[0], a.Port)
	b, _ := ioutil.ReadFile("/proc/net/tcp")
	for _, l := range strings.Split(string(b), "\n") {
		if f := strings.Fields(l); len(f) > 9 && f[1] == own && f[3] != "0A" && f[9] != "0" {
			n++
		}
	}
	return
}

// heldOpen tells whether the process at the other side still has the connection open: what its kernel sends says nothing
// while this side does not read
func heldOpen(k *net.TCPConn) bool {
	addr := func(a net.Addr) string {
		t := a.(*net.TCPAddr)
		ip := t.IP.To4()
		return fmt.Sprintf("%02X%02X%02X%02X:%04X", ip[3], ip[2], ip[1], ip[0], t.Port)
	}
	b, _ := ioutil.ReadFile("/proc/net/tcp")
	for _, l := range strings.Split(string(b), "\n") {
		if f := strings.Fields(l); len(f) > 9 && f[1] == addr(k.RemoteAddr()) && f[2] == addr(k.LocalAddr()) {
			return f[9] != "0"
		}
	}
	return false
}

var nextAddr int64

// an address of its own for each server: no listener is opened to find one, it would
// live on in a child that is being started and answer in place of the server
func freeAddr() string {
	n := atomic.AddInt64(&nextAddr, 1)
	return fmt.Sprintf("127.%d.%d.%d:%d", 16+os.Getpid()%200, 1+(n/250)%250, 1+n%250, 10000+(int64(os.Getpid())*31+n*7)%22000)
}

func (r *run) start() bool {
	r.addr = freeAddr()
	arg, _ := json.Marshal(hostCfg{Addr: r.addr, TTL: r.sc.TTL, Stores: r.sc.Stores, Prestop: r.sc.Prestop, Quiet: r.sc.Quiet, Files: r.sc.Files})
	exe, err := os.Executable()
	if err != nil {
		fatal("%v", err)
	}
	r.cmd = exec.Command(exe, "host", string(arg))
	r.cmd.Env = append(os.Environ(), "GOMAXPROCS=4", "GOMEMLIMIT=1GiB")
	r.cmd.Stderr = &r.stderr
	in, err := r.cmd.StdinPipe()
	if err != nil {
		fatal("%v", err)
	}
	out, err := r.cmd.StdoutPipe()
	if err != nil {
		fatal("%v", err)
	}
	r.in = json.NewEncoder(in)
	r.ret, r.gone, r.stormed, r.tasks = make(chan struct{}), make(chan struct{}), make(chan struct{}), make(chan int64, 9)
	if err = r.cmd.Start(); err != nil {
		fatal("host: %v", err)
	}
	go r.host(out)
	for i := 0; i < 2000; i++ {
		k, err := net.DialTimeout("tcp", r.addr, 5*time.Second)
		if err == nil {
			k.Close()
			return true
		}
		select {
		case <-r.gone:
			return false
		case <-time.After(5 * time.Millisecond):
		}
	}
	return false
}

func runScenario(sc scenario) event {
	for try := 0; ; try++ {
		r := &run{sc: sc, fails: map[[3]int]bool{}, base: time.Now().Unix()}
		for _, f := range sc.Fails {
			r.fails[f] = true
		}
		for i, s := range sc.Streams {
			x := strings.SplitN(s, "*", 2) // hex*times
			b, err := hex.DecodeString(x[0])
			if err != nil {
				fatal("stream: %v", err)
			}
			if len(x) == 2 {
				n, err := strconv.Atoi(x[1])
				if err != nil {
					fatal("stream: %v", err)
				}
				b = bytes.Repeat(b, n)
			}
			c := &client{idx: i + 1, stream: b}
			c.cond = sync.NewCond(&c.mu)
			r.cl = append(r.cl, c)
		}
		if !r.start() {
			_ = r.cmd.Process.Kill()
			_ = r.cmd.Wait()
			e := r.stderr.String()
			if strings.Contains(e, "panic:") || strings.Contains(e, "fatal error:") {
				r.log(event{"e": "died"})
				return event{"id": sc.ID, "events": r.events, "stderr": e}
			}
			if try < 3 {
				continue
			}
			return event{"id": sc.ID, "error": "the server did not start: " + e}
		}
		for _, s := range sc.Steps {
			r.do(s)
		}
		time.Sleep(20 * time.Millisecond)
		dead := false
		select {
		case <-r.gone:
			dead = true
		default:
		}
		if !dead {
			r.log(event{"e": "end"})
		}
		r.mu.Lock()
		r.over = true
		r.mu.Unlock()
		for _, k := range r.idle {
			k.Close()
		}
		for _, c := range r.cl {
			if c.conn != nil {
				c.conn.Close()
			}
			c.mu.Lock()
			c.hold = false
			c.cond.Broadcast()
			c.mu.Unlock()
		}
		_ = r.cmd.Process.Kill()
		_ = r.cmd.Wait()
		res := event{"id": sc.ID, "events": r.events}
		if dead {
			e := r.stderr.String()
			res["stderr"] = e
			if strings.Contains(e, "panic:") || strings.Contains(e, "fatal error:") || strings.Contains(e, "log.Fatal") {
				r.events = append(r.events, event{"e": "died", "t": r.now()})
				res["events"] = r.events
			} else {
				res["error"] = "the server process ended: " + e
			}
		}
		return res
	}
}

func recvMain() {
	in := json.NewDecoder(bufio.NewReaderSize(os.Stdin, 1<<20))
	jobs := make(chan scenario)
	var mu sync.Mutex
	w := bufio.NewWriterSize(os.Stdout, 1<<20)
	defer w.Flush()
	enc := json.NewEncoder(w)
	var wg sync.WaitGroup
	for i := 0; i < 12; i++ {
		wg.Add(1)
		go func() {
			defer wg.Done()
			for sc := range jobs {
				res := runScenario(sc)
				mu.Lock()
				if err := enc.Encode(res); err != nil {
					fatal("%v", err)
				}
				mu.Unlock()
			}
		}()
	}
	for {
		sc := scenario{}
		if err := in.Decode(&sc); err == io.EOF {
			break
		} else if err != nil {
			fatal("%v", err)
		}
		jobs <- sc
	}
	close(jobs)
	wg.Wait()
}
