package main

// e2e mode: real packet generators, a real receiver and stand-in storages; the receiver may be killed and started again.

import (
	"bytes"
	"encoding/hex"
	"encoding/json"
	"io"
	"net"
	"os"
	"os/exec"
	"path/filepath"
	"strconv"
	"strings"
	"sync"
	"time"
)

type e2eScen struct {
	ID       int
	Config   string
	Host     string
	Backends []bootBackend
	Gens     [][]string
	First    int // how many of them before the receiver is killed
	Par      bool
	Kill     int // after so many messages (0: never)
	Noise    []string
	Timeout  int
}

func e2eOne(recv, gen, dir string, sc e2eScen) map[string]interface{} {
	var mu sync.Mutex
	var evs []map[string]interface{}
	msgs := 0
	enough := make(chan bool)
	emit := func(m map[string]interface{}) {
		mu.Lock()
		evs = append(evs, m)
		if m["e"] == "msg" {
			if msgs++; msgs == sc.Kill {
				close(enough)
			}
		}
		mu.Unlock()
	}
	conv := &run{base: time.Now().Unix()}
	dir = filepath.Join(dir, strconv.Itoa(sc.ID))
	if err := os.MkdirAll(dir, 0755); err != nil {
		fatal("%v", err)
	}
	defer os.RemoveAll(dir)
	ip, port, _ := net.SplitHostPort(freeAddr())
	host := ip
	switch sc.Host {
	case "any":
		host, ip = "0.0.0.0", "127.0.0.1"
	case "empty":
		host, ip = "", "127.0.0.1"
	case "localhost":
		host, ip = "localhost", "localhost"
	}
	addr := net.JoinHostPort(ip, port)
	rep := []string{"@HOST@", host, "@PORT@", port}
	for i, bb := range sc.Backends {
		i := i
		b := &backend{beCfg: bb.Cfg, log: func(m map[string]interface{}) {
			if m["e"] == "msg" {
				m["s"] = i + 1
				m["rec"] = conv.record(json.RawMessage(m["body"].(string)))
				delete(m, "body")
				emit(m)
			}
		}}
		a := freeAddr()
		if err := b.start(a); err != nil {
			fatal("listen: %v", err)
		}
		defer b.stop()
		h, p, _ := net.SplitHostPort(a)
		n := strconv.Itoa(i)
		rep = append(rep, "@ADDR"+n+"@", a, "@HOST"+n+"@", h, "@PORT"+n+"@", p)
	}
	path := filepath.Join(dir, "receiver.yaml")
	if err := os.WriteFile(path, []byte(strings.NewReplacer(rep...).Replace(sc.Config)), 0644); err != nil {
		fatal("%v", err)
	}
	var out tailAll
	start := func() (*exec.Cmd, chan bool, bool) {
		c := exec.Command(recv, "-c", path)
		c.Dir = dir
		c.Stdout, c.Stderr = &out, &out
		if err := c.Start(); err != nil {
			fatal("start: %v", err)
		}
		gone := make(chan bool)
		go func() { c.Wait(); close(gone) }()
		for i := 0; i < 1500; i++ {
			if k, err := net.DialTimeout("tcp", addr, 3*time.Second); err == nil {
				k.Close()
				emit(map[string]interface{}{"e": "up"})
				return c, gone, true
			}
			select {
			case <-gone:
				i = 1500
			case <-time.After(20 * time.Millisecond):
			}
		}
		emit(map[string]interface{}{"e": "deaf"})
		return c, gone, false
	}
	stop := func(c *exec.Cmd, gone chan bool, event string) {
		select {
		case <-gone:
			emit(map[string]interface{}{"e": "died"})
		default:
			if event != "" {
				emit(map[string]interface{}{"e": event})
			}
			c.Process.Kill()
			<-gone
		}
	}
	noise := func(wg *sync.WaitGroup) {
		for _, p := range sc.Noise {
			b, _ := hex.DecodeString(p)
			wg.Add(1)
			go func() {
				defer wg.Done()
				if k, err := net.DialTimeout("tcp", addr, 3*time.Second); err == nil {
					k.Write(b)
					k.SetReadDeadline(time.Now().Add(300 * time.Millisecond))
					k.Read(make([]byte, 100))
					k.Close()
				}
			}()
		}
	}
	one := func(g int) {
		var args []string
		for _, a := range sc.Gens[g] {
			args = append(args, strings.Replace(a, "@ADDR@", addr, 1))
		}
		c := exec.Command(gen, args...)
		var o bytes.Buffer
		c.Stdout, c.Stderr = &o, &o
		emit(map[string]interface{}{"e": "begin", "g": g + 1})
		t0 := time.Now()
		if err := c.Start(); err != nil {
			fatal("start: %v", err)
		}
		done := make(chan bool)
		go func() { c.Wait(); close(done) }()
		select {
		case <-done:
			emit(map[string]interface{}{"e": "exit", "g": g + 1, "code": c.ProcessState.ExitCode(), "t": int(time.Since(t0) / time.Millisecond), "out": o.String()})
		case <-time.After(time.Duration(sc.Timeout)*time.Second + 20*time.Second):
			emit(map[string]interface{}{"e": "hang", "g": g + 1})
			c.Process.Kill()
			<-done
		}
	}
	batch := func(from, to int) {
		var wg sync.WaitGroup
		noise(&wg)
		for g := from; g < to; g++ {
			if sc.Par {
				wg.Add(1)
				go func(g int) { defer wg.Done(); one(g) }(g)
			} else {
				one(g)
			}
		}
		wg.Wait()
	}
	c, gone, ok := start()
	if ok && sc.Kill > 0 {
		done := make(chan bool)
		go func() { batch(0, sc.First); close(done) }()
		select {
		case <-enough:
		case <-done:
		}
		stop(c, gone, "kill")
		<-done
		if c, gone, ok = start(); ok {
			batch(sc.First, len(sc.Gens))
		}
	} else if ok {
		batch(0, len(sc.Gens))
	}
	time.Sleep(50 * time.Millisecond)
	stop(c, gone, "")
	text := out.String()
	for _, l := range strings.Split(text, "\n") {
		for _, q := range quotedRe.FindAllString(l, -1) { // a record printed to the log
			if s, err := strconv.Unquote(q); err == nil && strings.Contains(s, "navigation_unix_time") {
				emit(map[string]interface{}{"e": "msg", "s": 0, "place": []string{}, "v": "ok", "rec": conv.record(json.RawMessage(s))})
			}
		}
	}
	time.Sleep(20 * time.Millisecond)
	emit(map[string]interface{}{"e": "end"})
	mu.Lock()
	defer mu.Unlock()
	if len(text) > 1500 {
		text = text[:1500]
	}
	return map[string]interface{}{"id": sc.ID, "events": append([]map[string]interface{}{}, evs...), "out": text}
}

func e2eMain(recv, gen, dir string) {
	var scs []e2eScen
	in := json.NewDecoder(os.Stdin)
	for {
		var s e2eScen
		if err := in.Decode(&s); err == io.EOF {
			break
		} else if err != nil {
			fatal("scenario: %v", err)
		}
		scs = append(scs, s)
	}
	rs := make([]map[string]interface{}, len(scs))
	var wg sync.WaitGroup
	gate := make(chan bool, 12)
	for i := range scs {
		wg.Add(1)
		gate <- true
		go func(i int) {
			defer func() { <-gate; wg.Done() }()
			rs[i] = e2eOne(recv, gen, dir, scs[i])
		}(i)
	}
	wg.Wait()
	out := json.NewEncoder(os.Stdout)
	for _, r := range rs {
		if err := out.Encode(r); err != nil {
			fatal("%v", err)
		}
	}
}
