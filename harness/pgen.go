package main

// pgen mode: runs the real packet-gen binary against scripted servers and records the bytes it sent, what it was
// answered and how it ended.

import (
	"bufio"
	"bytes"
	"encoding/binary"
	"encoding/hex"
	"encoding/json"
	"fmt"
	"io"
	"net"
	"os"
	"os/exec"
	"strings"
	"sync"
	"time"
)

type pgenStep struct {
	O string
	N int
}

type pgenScen struct {
	ID       int
	Args     []string
	Answer   string
	Plan     []pgenStep
	Timeout  int // seconds after which it should have ended
	NoServer bool
	Server   string // instead of the server's address
}

func pgenOne(bin string, sc pgenScen) map[string]interface{} {
	var mu sync.Mutex
	var evs []map[string]interface{}
	var sent []*bytes.Buffer
	ends := make(chan bool, 1)
	var t0 time.Time
	now := func() int {
		if t0.IsZero() {
			return 0
		}
		return int(time.Since(t0) / time.Millisecond)
	}
	emit := func(m map[string]interface{}) {
		mu.Lock()
		m["t"] = now()
		evs = append(evs, m)
		mu.Unlock()
	}
	addr := "127.0.0.1:1"
	ans, _ := hex.DecodeString(sc.Answer)
	if !sc.NoServer {
		ln, err := net.Listen("tcp", "127.0.0.1:0")
		if err != nil {
			fatal("listen: %v", err)
		}
		defer ln.Close()
		addr = ln.Addr().String()
		go func() {
			for n := 0; ; n++ {
				c, err := ln.Accept()
				if err != nil {
					return
				}
				buf := &bytes.Buffer{}
				mu.Lock()
				sent = append(sent, buf)
				mu.Unlock()
				go pgenServe(c, n == 0, buf, &mu, func() {
					mu.Lock()
					if t0.IsZero() {
						t0 = time.Now()
					}
					mu.Unlock()
				}, emit, ans, sc.Plan, ends)
			}
		}()
	}
	if sc.Server != "" {
		addr = sc.Server
	}
	args := []string{}
	for _, a := range sc.Args {
		args = append(args, strings.Replace(a, "@ADDR@", addr, 1))
	}
	c := exec.Command(bin, args...)
	var out bytes.Buffer
	c.Stdout, c.Stderr = &out, &out
	if err := c.Start(); err != nil {
		fatal("start: %v", err)
	}
	done := make(chan error, 1)
	go func() { done <- c.Wait() }()
	select {
	case <-done:
		emit(map[string]interface{}{"e": "exit", "code": c.ProcessState.ExitCode()})
	case <-time.After(time.Duration(sc.Timeout)*time.Second + 5*time.Second):
		emit(map[string]interface{}{"e": "hang"})
		c.Process.Kill()
		<-done
	}
	// what is still on the way
	if len(sent) > 0 {
		select {
		case <-ends:
		case <-time.After(2 * time.Second):
		}
	}
	time.Sleep(20 * time.Millisecond)
	mu.Lock()
	defer mu.Unlock()
	ss := []string{}
	for _, b := range sent {
		ss = append(ss, hex.EncodeToString(b.Bytes()))
	}
	o := out.String()
	if len(o) > 400 {
		o = o[:400]
	}
	return map[string]interface{}{"id": sc.ID, "sent": ss, "events": evs, "out": o}
}

func pgenServe(c net.Conn, first bool, buf *bytes.Buffer, mu *sync.Mutex, start func(), emit func(map[string]interface{}), ans []byte, plan []pgenStep, ends chan bool) {
	r := bufio.NewReader(c)
	add := func(p []byte) {
		mu.Lock()
		buf.Write(p)
		mu.Unlock()
	}
	h := make([]byte, 10)
	n, err := io.ReadFull(r, h)
	add(h[:n])
	if err == nil {
		rest := int(h[3]) - 10
		if l := int(binary.LittleEndian.Uint16(h[5:7])); l > 0 {
			rest += l + 2
		}
		if rest > 0 {
			p := make([]byte, rest)
			n, err = io.ReadFull(r, p)
			add(p[:n])
		}
	}
	whole := err == nil
	if whole {
		start()
	}
	go func() {
		p := make([]byte, 4096)
		for {
			n, err := r.Read(p)
			add(p[:n])
			if err != nil {
				select {
				case ends <- true:
				default:
				}
				return
			}
		}
	}()
	if !first || !whole {
		return
	}
	for _, s := range plan {
		switch s.O {
		case "wait":
			time.Sleep(time.Duration(s.N) * time.Millisecond)
		case "send":
			b := ans
			if s.N < len(b) {
				b = b[:s.N]
			}
			ans = ans[len(b):]
			// logged before it is written: the generator may end because of it
			emit(map[string]interface{}{"e": "answer", "b": hex.EncodeToString(b)})
			if _, err := c.Write(b); err != nil {
				return
			}
		case "close":
			emit(map[string]interface{}{"e": "close"})
			c.Close()
			return
		}
	}
}

func pgenMain(bin string) {
	var scs []pgenScen
	in := json.NewDecoder(os.Stdin)
	for {
		var s pgenScen
		if err := in.Decode(&s); err == io.EOF {
			break
		} else if err != nil {
			fatal("scenario: %v", err)
		}
		scs = append(scs, s)
	}
	rs := make([]map[string]interface{}, len(scs))
	var wg sync.WaitGroup
	gate := make(chan bool, 24)
	for i := range scs {
		wg.Add(1)
		gate <- true
		go func(i int) {
			defer func() { <-gate; wg.Done() }()
			rs[i] = pgenOne(bin, scs[i])
		}(i)
	}
	wg.Wait()
	out := json.NewEncoder(os.Stdout)
	for _, r := range rs {
		if err := out.Encode(r); err != nil {
			fatal("%v", fmt.Sprint(err))
		}
	}
}
