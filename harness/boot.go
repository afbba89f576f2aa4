package main

// boot mode: starts the real receiver binary with a configuration and stand-in storages, sends it packets and
// records where it listens, what it answers, what reaches the storages and the log, and how it ends.

import (
	"bytes"
	"encoding/hex"
	"encoding/json"
	"fmt"
	"io"
	"net"
	"os"
	"os/exec"
	"path/filepath"
	"regexp"
	"strconv"
	"strings"
	"sync"
	"time"
)

type bootBackend struct {
	Cfg beCfg
	Up  bool
}

type bootScen struct {
	ID       int
	File     string // none, missing, unreadable, or what the file contains
	Config   string
	Backends []bootBackend
	Host     string // specific, any, empty, localhost
	Busy     bool
	TTL      int
	Packets  []string
	Expect   int // how many replies
	Noise    []string
	Fails    bool // it should not run: how long to wait
}

var levelRe = regexp.MustCompile(`(?m)^.*?\blevel"?[=:]\s*"?([a-z]+)`)
var quotedRe = regexp.MustCompile(`"(?:[^"\\]|\\.)*"`)

// readPacket reads one packet from the receiver
func readPacket(c net.Conn) ([]byte, error) {
	h := make([]byte, 10)
	if _, err := io.ReadFull(c, h); err != nil {
		return nil, err
	}
	n := int(h[3]) - 10
	if l := int(h[5]) | int(h[6])<<8; l > 0 {
		n += l + 2
	}
	if n < 0 {
		n = 0
	}
	p := make([]byte, n)
	_, err := io.ReadFull(c, p)
	return append(h, p...), err
}

func bootOne(bin, dir string, sc bootScen) map[string]interface{} {
	var mu sync.Mutex
	var evs []map[string]interface{}
	emit := func(m map[string]interface{}) {
		mu.Lock()
		evs = append(evs, m)
		mu.Unlock()
	}
	conv := &run{base: time.Now().Unix()}
	dir = filepath.Join(dir, strconv.Itoa(sc.ID))
	if err := os.MkdirAll(dir, 0755); err != nil {
		fatal("%v", err)
	}
	defer os.RemoveAll(dir)

	addr := freeAddr()
	ip, port, _ := net.SplitHostPort(addr)
	host, other := ip, "127.0.0.1"
	switch sc.Host {
	case "any":
		host, ip, other = "0.0.0.0", "127.0.0.1", ip
	case "empty":
		host, ip, other = "", "127.0.0.1", ip
	case "localhost":
		host, ip, other = "localhost", "127.0.0.1", ip
	}
	rep := []string{"@HOST@", host, "@PORT@", port}
	for i, bb := range sc.Backends {
		i := i
		b := &backend{beCfg: bb.Cfg, log: func(m map[string]interface{}) {
			if m["e"] == "msg" {
				m["s"] = i + 1
				m["rec"] = conv.record(json.RawMessage(m["body"].(string)))
				delete(m, "body")
				emit(m)
			}
		}}
		a := freeAddr()
		if bb.Up && bb.Cfg.Kind != "none" {
			if err := b.start(a); err != nil {
				fatal("listen: %v", err)
			}
			defer b.stop()
		}
		h, p, _ := net.SplitHostPort(a)
		n := strconv.Itoa(i)
		rep = append(rep, "@ADDR"+n+"@", a, "@HOST"+n+"@", h, "@PORT"+n+"@", p)
	}
	var args []string
	path := filepath.Join(dir, "receiver.yaml")
	switch sc.File {
	case "none":
	case "missing":
		args = []string{"-c", path}
	case "unreadable":
		args = []string{"-c", dir}
	default:
		if err := os.WriteFile(path, []byte(strings.NewReplacer(rep...).Replace(sc.Config)), 0644); err != nil {
			fatal("%v", err)
		}
		args = []string{"-c", path}
	}
	if sc.Busy {
		ln, err := net.Listen("tcp", net.JoinHostPort(ip, port))
		if err != nil {
			fatal("listen: %v", err)
		}
		defer ln.Close()
	}
	var out tailAll
	c := exec.Command(bin, args...)
	c.Dir = dir
	c.Stdout, c.Stderr = &out, &out
	if err := c.Start(); err != nil {
		fatal("start: %v", err)
	}
	gone := make(chan bool)
	go func() { c.Wait(); close(gone) }()
	ended := func(ms int) bool {
		select {
		case <-gone:
			return true
		default:
		}
		select {
		case <-gone:
			return true
		case <-time.After(time.Duration(ms) * time.Millisecond):
			return false
		}
	}

	bootTalk(sc, emit, ip, other, port, ended)

	if ended(0) {
		emit(map[string]interface{}{"e": "exit", "code": c.ProcessState.ExitCode()})
	} else {
		time.Sleep(30 * time.Millisecond)
		if ended(0) {
			emit(map[string]interface{}{"e": "exit", "code": c.ProcessState.ExitCode()})
		} else {
			c.Process.Kill()
			<-gone
			emit(map[string]interface{}{"e": "running"})
		}
	}
	text := out.String()
	counts := map[string]int{}
	for _, l := range strings.Split(text, "\n") {
		if m := levelRe.FindStringSubmatch(l); m != nil {
			counts[m[1]]++
		}
		// a record printed to the log
		for _, q := range quotedRe.FindAllString(l, -1) {
			s, err := strconv.Unquote(q)
			if err != nil || !strings.Contains(s, "navigation_unix_time") {
				continue
			}
			emit(map[string]interface{}{"e": "msg", "s": 0, "place": []string{}, "v": "ok", "rec": conv.record(json.RawMessage(s))})
		}
	}
	for _, l := range []string{"debug", "info", "warning", "error"} {
		emit(map[string]interface{}{"e": "lines", "level": l, "n": counts[l]})
	}
	if len(text) > 1500 {
		text = text[:1500]
	}
	return map[string]interface{}{"id": sc.ID, "events": evs, "out": text}
}

func bootTalk(sc bootScen, emit func(map[string]interface{}), ip, other, port string, ended func(int) bool) {
	dial := func(h string) (net.Conn, error) {
		return net.DialTimeout("tcp", net.JoinHostPort(h, port), 3*time.Second)
	}
	if sc.Busy || sc.Fails {
		if !ended(20000) {
			emit(map[string]interface{}{"e": "notended"})
		}
		return
	}
	var c net.Conn
	for i := 0; ; i++ {
		var err error
		if c, err = dial(ip); err == nil {
			break
		}
		if ended(20) {
			return
		}
		if i > 1500 {
			emit(map[string]interface{}{"e": "deaf"})
			return
		}
	}
	defer c.Close()
	emit(map[string]interface{}{"e": "listening"})
	if k, err := dial(other); err == nil {
		k.Close()
		emit(map[string]interface{}{"e": "other", "ok": true})
	} else {
		emit(map[string]interface{}{"e": "other", "ok": false})
	}
	for _, p := range sc.Packets {
		b, _ := hex.DecodeString(p)
		c.SetDeadline(time.Now().Add(20 * time.Second))
		if _, err := c.Write(b); err != nil {
			emit(map[string]interface{}{"e": "noreply", "why": err.Error()})
			return
		}
		r, err := readPacket(c)
		if err != nil {
			emit(map[string]interface{}{"e": "noreply", "why": err.Error()})
			return
		}
		emit(map[string]interface{}{"e": "reply", "b": hex.EncodeToString(r)})
	}
	t0 := time.Now()
	for _, p := range sc.Noise {
		b, _ := hex.DecodeString(p)
		if k, err := dial(ip); err == nil {
			k.Write(b)
			k.SetReadDeadline(time.Now().Add(200 * time.Millisecond))
			k.Read(make([]byte, 100))
			k.Close()
		}
	}
	if sc.TTL > 0 {
		c.SetReadDeadline(t0.Add(time.Duration(sc.TTL)*time.Second + 6*time.Second))
		n, err := c.Read(make([]byte, 10))
		ms := int(time.Since(t0) / time.Millisecond)
		ne, ok := err.(net.Error)
		emit(map[string]interface{}{"e": "idle", "ms": ms, "closed": n == 0 && !(ok && ne.Timeout())})
	}
}

type tailAll struct {
	mu sync.Mutex
	b  bytes.Buffer
}

func (t *tailAll) Write(p []byte) (int, error) {
	t.mu.Lock()
	defer t.mu.Unlock()
	return t.b.Write(p)
}

func (t *tailAll) String() string {
	t.mu.Lock()
	defer t.mu.Unlock()
	return t.b.String()
}

func bootMain(bin, dir string) {
	var scs []bootScen
	in := json.NewDecoder(os.Stdin)
	for {
		var s bootScen
		if err := in.Decode(&s); err == io.EOF {
			break
		} else if err != nil {
			fatal("scenario: %v", err)
		}
		scs = append(scs, s)
	}
	rs := make([]map[string]interface{}, len(scs))
	var wg sync.WaitGroup
	gate := make(chan bool, 24)
	for i := range scs {
		wg.Add(1)
		gate <- true
		go func(i int) {
			defer func() { <-gate; wg.Done() }()
			rs[i] = bootOne(bin, dir, scs[i])
		}(i)
	}
	wg.Wait()
	out := json.NewEncoder(os.Stdout)
	for _, r := range rs {
		if err := out.Encode(r); err != nil {
			fatal("%v", fmt.Sprint(err))
		}
	}
}
