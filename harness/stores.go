package main

// stores mode: drives the real storage connectors against stand-in backends and records what was asked of the
// connector, what it reported and what the backend was handed.

import (
	"bufio"
	"bytes"
	"encoding/json"
	"errors"
	"fmt"
	"io/ioutil"
	"net"
	"os"
	"os/exec"
	"strings"
	"sync"
	"time"

	"github.com/kuznetsovin/egts-protocol/cli/receiver/storage"
	"github.com/kuznetsovin/egts-protocol/cli/receiver/storage/store/mysql"
	"github.com/kuznetsovin/egts-protocol/cli/receiver/storage/store/nats"
	"github.com/kuznetsovin/egts-protocol/cli/receiver/storage/store/postgresql"
	"github.com/kuznetsovin/egts-protocol/cli/receiver/storage/store/rabbitmq"
	"github.com/kuznetsovin/egts-protocol/cli/receiver/storage/store/redis"
	"github.com/kuznetsovin/egts-protocol/cli/receiver/storage/store/tarantool_queue"
	log "github.com/sirupsen/logrus"
)

type storeOp struct {
	Op   string
	Save []int // indexes of records, saved at the same time
	MS   int
}

type storeScen struct {
	ID       int
	Settings map[string]string
	NoCfg    bool
	Backend  beCfg
	Up       bool
	Recs     []json.RawMessage
	Ops      []storeOp
}

// badRec cannot be serialised
type badRec struct{}

func (badRec) ToBytes() ([]byte, error) {
	return []byte(`{"client":1}`), errors.New("not serialisable")
}

// rawRec serialises to whatever it holds
type rawRec string

func (r rawRec) ToBytes() ([]byte, error) { return []byte(string(r)), nil }

func storeOne() {
	log.SetOutput(ioutil.Discard)
	var sc storeScen
	if err := json.NewDecoder(os.Stdin).Decode(&sc); err != nil {
		fatal("scenario: %v", err)
	}
	var mu sync.Mutex
	out := json.NewEncoder(os.Stdout)
	emit := func(m map[string]interface{}) {
		mu.Lock()
		defer mu.Unlock()
		out.Encode(m)
	}
	b := &backend{beCfg: sc.Backend, log: emit}
	addr := freeAddr()
	if sc.Up {
		if err := b.start(addr); err != nil {
			fatal("listen: %v", err)
		}
	}
	host, port, _ := net.SplitHostPort(addr)
	cfg := map[string]string{}
	for k, v := range sc.Settings {
		cfg[k] = strings.NewReplacer("@ADDR@", addr, "@HOST@", host, "@PORT@", port).Replace(v)
	}
	if sc.NoCfg {
		cfg = nil
	}
	var st storage.Store
	switch sc.Backend.Kind {
	case "redis":
		st = &redis.Connector{}
	case "nats":
		st = &nats.Connector{}
	case "postgresql":
		st = &postgresql.Connector{}
	case "mysql":
		st = &mysql.Connector{}
	case "rabbitmq":
		st = &rabbitmq.Connector{}
	case "tarantool_queue":
		st = &tarantool_queue.Connector{}
	}
	save := func(i int) {
		var rec interface{ ToBytes() ([]byte, error) }
		raw := string(sc.Recs[i])
		switch {
		case raw == `"nil"`:
		case raw == `"bad"`:
			rec = badRec{}
		case raw[0] == '"':
			var s string
			json.Unmarshal(sc.Recs[i], &s)
			rec = rawRec(s)
		default:
			r := &storage.NavRecord{}
			if err := json.Unmarshal(sc.Recs[i], r); err != nil {
				fatal("record: %v", err)
			}
			rec = r
		}
		emit(map[string]interface{}{"e": "save", "i": i + 1})
		err := st.Save(rec)
		emit(map[string]interface{}{"e": "saveret", "i": i + 1, "ok": err == nil, "err": fmt.Sprint(err)})
	}
	within := func(ms int, f func()) {
		done := make(chan bool)
		go func() { f(); close(done) }()
		select {
		case <-done:
		case <-time.After(time.Duration(ms) * time.Millisecond):
			emit(map[string]interface{}{"e": "hang"})
			os.Exit(0)
		}
	}
	for _, o := range sc.Ops {
		switch o.Op {
		case "init":
			within(60000, func() {
				err := st.Init(cfg)
				emit(map[string]interface{}{"e": "init", "ok": err == nil, "err": fmt.Sprint(err)})
				if err != nil {
					emit(map[string]interface{}{"e": "end"})
					os.Exit(0)
				}
			})
		case "save":
			within(90000, func() {
				var wg sync.WaitGroup
				for _, i := range o.Save {
					wg.Add(1)
					go func(i int) { defer wg.Done(); save(i) }(i)
				}
				wg.Wait()
			})
		case "sleep":
			time.Sleep(time.Duration(o.MS) * time.Millisecond)
		case "down":
			emit(map[string]interface{}{"e": "down"})
			b.stop()
		case "up":
			if err := b.start(addr); err != nil {
				fatal("listen: %v", err)
			}
			emit(map[string]interface{}{"e": "up"})
		case "close":
			within(20000, func() {
				emit(map[string]interface{}{"e": "close"})
				st.Close()
			})
		}
	}
	time.Sleep(50 * time.Millisecond)
	emit(map[string]interface{}{"e": "end"})
	os.Exit(0)
}

func storesMain() {
	var scs [][]byte
	in := bufio.NewReaderSize(os.Stdin, 1<<20)
	for {
		l, err := in.ReadBytes('\n')
		if len(bytes.TrimSpace(l)) > 0 {
			scs = append(scs, l)
		}
		if err != nil {
			break
		}
	}
	type res struct {
		ID     int               `json:"id"`
		Events []json.RawMessage `json:"events"`
		Note   string            `json:"note,omitempty"`
	}
	rs := make([]res, len(scs))
	var wg sync.WaitGroup
	gate := make(chan bool, 40)
	for i := range scs {
		wg.Add(1)
		gate <- true
		go func(i int) {
			defer func() { <-gate; wg.Done() }()
			var id struct{ ID int }
			json.Unmarshal(scs[i], &id)
			c := exec.Command(os.Args[0], "store1")
			c.Stdin = bytes.NewReader(scs[i])
			var so, se bytes.Buffer
			c.Stdout, c.Stderr = &so, &se
			err := c.Run()
			r := res{ID: id.ID}
			for _, l := range bytes.Split(so.Bytes(), []byte("\n")) {
				if len(l) > 0 {
					r.Events = append(r.Events, json.RawMessage(append([]byte{}, l...)))
				}
			}
			if err != nil {
				if strings.Contains(se.String(), "harness:") {
					fatal("%s", se.String())
				}
				r.Events = append(r.Events, json.RawMessage(`{"e":"died"}`))
				t := se.String()
				if len(t) > 1500 {
					t = t[:1500]
				}
				r.Note = t
			}
			rs[i] = r
		}(i)
	}
	wg.Wait()
	out := json.NewEncoder(os.Stdout)
	for _, r := range rs {
		out.Encode(r)
	}
}
