package main

// Stand-ins for the storage backends: each speaks enough of its protocol for the real client libraries and
// reports every message it was handed, with the verdict its script gives.

import (
	"bufio"
	"bytes"
	"crypto/md5"
	"crypto/rand"
	"crypto/sha1"
	"encoding/base64"
	"encoding/binary"
	"encoding/json"
	"errors"
	"fmt"
	"io"
	"net"
	"regexp"
	"strconv"
	"strings"
	"sync"
	"time"

	"gopkg.in/vmihailenco/msgpack.v2"
)

// what a message is answered: ok, refuse, before/after (the connection breaks before/after taking it),
// slow/slowrefuse/late (only after a while), stall (breaks after a long while without taking it), fatal (refuse and
// close what carried it)
type beCfg struct {
	Kind     string
	User     string
	Password string
	Database string   // the only one there is ("" = any)
	Places   []string // tables, subjects, exchanges, queues that exist (none = any)
	Script   []string
	Auth     string // variant of the login dialogue
}

type backend struct {
	beCfg
	Addr string
	log  func(map[string]interface{})
	mu   sync.Mutex
	ln   net.Listener
	open map[net.Conn]bool
	n    int
}

var errDrop = errors.New("drop")

func (b *backend) start(addr string) error {
	ln, err := net.Listen("tcp", addr)
	if err != nil {
		return err
	}
	b.mu.Lock()
	b.ln, b.Addr, b.open = ln, ln.Addr().String(), map[net.Conn]bool{}
	b.mu.Unlock()
	go func() {
		for {
			c, err := ln.Accept()
			if err != nil {
				return
			}
			b.mu.Lock()
			b.open[c] = true
			b.mu.Unlock()
			go func() {
				s := &beConn{b: b, c: c, r: bufio.NewReader(c), db: b.Database}
				switch b.Kind {
				case "redis":
					s.redis()
				case "nats":
					s.nats()
				case "postgresql":
					s.pg()
				case "mysql":
					s.mysql()
				case "rabbitmq":
					s.amqp()
				case "tarantool_queue":
					s.tarantool()
				}
				c.Close()
				b.mu.Lock()
				delete(b.open, c)
				b.mu.Unlock()
			}()
		}
	}()
	return nil
}

// stop: the backend is gone, with all its connections
func (b *backend) stop() {
	b.mu.Lock()
	defer b.mu.Unlock()
	if b.ln != nil {
		b.ln.Close()
	}
	for c := range b.open {
		c.Close()
	}
}

func (b *backend) exists(place string) bool {
	if len(b.Places) == 0 {
		return true
	}
	for _, p := range b.Places {
		if p == place {
			return true
		}
	}
	return false
}

// message reports a message and returns what to answer: nil, a refusal, or errDrop
func (b *backend) message(place []string, body []byte) error {
	b.mu.Lock()
	v := "ok"
	if b.n < len(b.Script) {
		v = b.Script[b.n]
	}
	b.n++
	b.mu.Unlock()
	if !b.exists(place[len(place)-1]) && v != "before" && v != "stall" {
		v = "refuse"
		if b.Kind == "rabbitmq" {
			v = "fatal"
		}
	}
	if v == "slow" || v == "slowrefuse" {
		time.Sleep(400 * time.Millisecond)
	}
	b.log(map[string]interface{}{"e": "msg", "k": b.Kind, "place": place, "body": string(body), "v": v})
	if v == "late" {
		time.Sleep(1500 * time.Millisecond)
	}
	if v == "stall" {
		time.Sleep(2500 * time.Millisecond)
	}
	switch v {
	case "ok", "slow", "late":
		return nil
	case "refuse", "slowrefuse":
		return errors.New("refused")
	case "fatal":
		return errors.New("fatal")
	}
	return errDrop
}

func (b *backend) login(ok bool) bool {
	b.log(map[string]interface{}{"e": "login", "k": b.Kind, "ok": ok})
	return ok
}

type beConn struct {
	b  *backend
	c  net.Conn
	r  *bufio.Reader
	db string
	tx []func() error // statements of the open transaction
	in bool
}

func (s *beConn) w(p []byte) bool {
	_, err := s.c.Write(p)
	return err == nil
}

func (s *beConn) ws(f string, a ...interface{}) bool { return s.w([]byte(fmt.Sprintf(f, a...))) }

func (s *beConn) line() (string, bool) {
	l, err := s.r.ReadString('\n')
	return strings.TrimRight(l, "\r\n"), err == nil
}

func (s *beConn) take(n int) ([]byte, bool) {
	p := make([]byte, n)
	_, err := io.ReadFull(s.r, p)
	return p, err == nil
}

// ---- redis ---------------------------------------------------------------------

func (s *beConn) redis() {
	in, db := s.b.Password == "", "0"
	for {
		l, ok := s.line()
		if !ok || len(l) < 2 || l[0] != '*' {
			return
		}
		n, _ := strconv.Atoi(l[1:])
		var a []string
		for i := 0; i < n; i++ {
			h, ok := s.line()
			if !ok || len(h) < 2 {
				return
			}
			k, _ := strconv.Atoi(h[1:])
			p, ok := s.take(k + 2)
			if !ok {
				return
			}
			a = append(a, string(p[:k]))
		}
		if len(a) == 0 {
			continue
		}
		cmd := strings.ToUpper(a[0])
		switch {
		case cmd == "AUTH":
			switch {
			case s.b.Password == "":
				s.ws("-ERR Client sent AUTH, but no password is set\r\n")
			case s.b.login(a[len(a)-1] == s.b.Password && (len(a) == 2 || a[1] == "default")):
				in = true
				s.ws("+OK\r\n")
			default:
				s.ws("-WRONGPASS invalid username-password pair\r\n")
			}
		case cmd == "HELLO":
			s.ws("-ERR unknown command 'HELLO'\r\n")
		case !in:
			s.ws("-NOAUTH Authentication required.\r\n")
		case cmd == "SELECT":
			if k, err := strconv.Atoi(a[1]); err != nil || k < 0 || k > 15 {
				s.ws("-ERR DB index is out of range\r\n")
			} else {
				db = a[1]
				s.ws("+OK\r\n")
			}
		case cmd == "PING":
			s.ws("+PONG\r\n")
		case cmd == "PUBLISH" && len(a) == 3:
			switch err := s.b.message([]string{db, a[1]}, []byte(a[2])); err {
			case nil:
				s.ws(":%d\r\n", s.b.n%3)
			case errDrop:
				return
			default:
				s.ws("-OOM command not allowed when used memory > 'maxmemory'.\r\n")
			}
		case cmd == "CLIENT" || cmd == "ECHO" || cmd == "QUIT":
			s.ws("+OK\r\n")
		default:
			s.ws("-ERR unknown command '%s'\r\n", a[0])
		}
	}
}

// ---- NATS ----------------------------------------------------------------------

func (s *beConn) nats() {
	h, p, _ := net.SplitHostPort(s.b.Addr)
	if !s.ws("INFO {\"server_id\":\"X\",\"version\":\"2.9.0\",\"proto\":1,\"host\":%q,\"port\":%s,\"max_payload\":1048576,\"auth_required\":%v}\r\n", h, p, s.b.User != "") {
		return
	}
	in, verbose := false, false
	for {
		l, ok := s.line()
		if !ok {
			return
		}
		f := strings.Fields(l)
		if len(f) == 0 {
			continue
		}
		switch strings.ToUpper(f[0]) {
		case "CONNECT":
			var c struct {
				User, Pass string
				Verbose    bool
			}
			json.Unmarshal([]byte(l[len("CONNECT "):]), &c)
			if !s.b.login(s.b.User == "" || c.User == s.b.User && c.Pass == s.b.Password) {
				s.ws("-ERR 'Authorization Violation'\r\n")
				return
			}
			in, verbose = true, c.Verbose
			if verbose {
				s.ws("+OK\r\n")
			}
		case "PING":
			s.ws("PONG\r\n")
		case "PUB":
			n, _ := strconv.Atoi(f[len(f)-1])
			body, ok := s.take(n + 2)
			if !ok || !in {
				return
			}
			switch err := s.b.message([]string{f[1]}, body[:n]); {
			case err == nil:
				if verbose {
					s.ws("+OK\r\n")
				}
			case err == errDrop:
				return
			case err.Error() == "fatal":
				s.ws("-ERR 'Maximum Payload Violation'\r\n")
				return
			default:
				s.ws("-ERR 'Permissions Violation for Publish to %q'\r\n", f[1])
			}
		}
	}
}

// ---- SQL -----------------------------------------------------------------------

var insertRe = regexp.MustCompile("(?is)^\\s*insert\\s+into\\s+([\"`\\w.]+)\\s*\\(\\s*[\"`]?(\\w+)[\"`]?\\s*\\)\\s*values\\s*\\(\\s*(?:\\$1|\\?)\\s*(?:::\\w+)?\\s*\\)\\s*;?\\s*$")

func (s *beConn) insert(query string, body []byte) error {
	m := insertRe.FindStringSubmatch(query)
	if m == nil || strings.ToLower(m[2]) != "point" {
		return errors.New("syntax error")
	}
	table := strings.NewReplacer("\"", "", "`", "").Replace(m[1])
	if s.in {
		s.tx = append(s.tx, func() error { return s.b.message([]string{s.db, table}, body) })
		return nil
	}
	return s.b.message([]string{s.db, table}, body)
}

// simple statements: transactions and everything that stores nothing
func (s *beConn) statement(query string) error {
	q := strings.ToUpper(strings.TrimSpace(query))
	switch {
	case strings.HasPrefix(q, "BEGIN") || strings.HasPrefix(q, "START TRANSACTION"):
		s.in, s.tx = true, nil
	case strings.HasPrefix(q, "COMMIT"):
		t := s.tx
		s.in, s.tx = false, nil
		for _, f := range t {
			if err := f(); err != nil {
				return err
			}
		}
	case strings.HasPrefix(q, "ROLLBACK"):
		s.in, s.tx = false, nil
	case strings.HasPrefix(q, "INSERT"):
		return errors.New("syntax error")
	}
	return nil
}

// ---- PostgreSQL ----------------------------------------------------------------

func pgMsg(t byte, parts ...interface{}) []byte {
	var b bytes.Buffer
	for _, p := range parts {
		switch v := p.(type) {
		case string:
			b.WriteString(v)
			b.WriteByte(0)
		case []byte:
			b.Write(v)
		default:
			binary.Write(&b, binary.BigEndian, v)
		}
	}
	r := []byte{t, 0, 0, 0, 0}
	binary.BigEndian.PutUint32(r[1:], uint32(b.Len()+4))
	return append(r, b.Bytes()...)
}

func pgErr(code, text string) []byte {
	return pgMsg('E', byte('S'), "ERROR", byte('C'), code, byte('M'), text, byte(0))
}

func cstr(p []byte) (string, []byte) {
	i := bytes.IndexByte(p, 0)
	if i < 0 {
		return string(p), nil
	}
	return string(p[:i]), p[i+1:]
}

func (s *beConn) pg() {
	var opts map[string]string
	for opts == nil {
		h, ok := s.take(8)
		if !ok {
			return
		}
		n := int(binary.BigEndian.Uint32(h)) - 8
		if n < 0 || n > 1<<16 {
			return
		}
		p, ok := s.take(n)
		if !ok {
			return
		}
		if binary.BigEndian.Uint32(h[4:]) == 80877103 { // no TLS here
			s.w([]byte{'N'})
			continue
		}
		opts = map[string]string{}
		for len(p) > 1 {
			var k, v string
			k, p = cstr(p)
			v, p = cstr(p)
			opts[k] = v
		}
	}
	msg := func() (byte, []byte, bool) {
		h, ok := s.take(5)
		if !ok {
			return 0, nil, false
		}
		p, ok := s.take(int(binary.BigEndian.Uint32(h[1:])) - 4)
		return h[0], p, ok
	}
	if s.b.Auth != "trust" {
		want := s.b.Password
		if s.b.Auth == "md5" {
			in := fmt.Sprintf("%x", md5.Sum([]byte(s.b.Password+s.b.User)))
			want = fmt.Sprintf("md5%x", md5.Sum([]byte(in+"salt")))
			s.w(pgMsg('R', int32(5), []byte("salt")))
		} else {
			s.w(pgMsg('R', int32(3)))
		}
		t, p, ok := msg()
		if !ok || t != 'p' {
			return
		}
		got, _ := cstr(p)
		if !s.b.login(got == want && opts["user"] == s.b.User) {
			s.w(pgErr("28P01", "password authentication failed"))
			return
		}
	} else if !s.b.login(opts["user"] == s.b.User) {
		s.w(pgErr("28000", "no such role"))
		return
	}
	if s.db = opts["database"]; s.b.Database != "" && s.db != s.b.Database {
		s.w(pgErr("3D000", "database does not exist"))
		return
	}
	ready := func() []byte {
		if s.in {
			return pgMsg('Z', byte('T'))
		}
		return pgMsg('Z', byte('I'))
	}
	s.w(pgMsg('R', int32(0)))
	s.w(append(pgMsg('S', "server_version", "12.0"), pgMsg('S', "client_encoding", "UTF8")...))
	s.w(append(pgMsg('K', int32(1), int32(2)), ready()...))
	stmts, portals := map[string]string{}, map[string][2]string{}
	failed := false
	fail := func(err error) bool {
		if err == errDrop {
			return false
		}
		failed = true
		if err.Error() == "fatal" {
			s.w(pgMsg('E', byte('S'), "FATAL", byte('C'), "57P01", byte('M'), "terminating connection due to administrator command", byte(0)))
			return false
		}
		if err.Error() == "syntax error" {
			s.w(pgErr("42601", err.Error()))
		} else {
			s.w(pgErr("22P02", "invalid input syntax for type json"))
		}
		return true
	}
	for {
		t, p, ok := msg()
		if !ok || t == 'X' {
			return
		}
		if t == 'S' {
			failed = false
			s.w(ready())
			continue
		}
		if failed {
			continue
		}
		switch t {
		case 'Q':
			q, _ := cstr(p)
			if err := s.statement(q); err != nil {
				if !fail(err) {
					return
				}
				failed = false
			} else {
				s.w(pgMsg('C', strings.ToUpper(strings.Fields(q + " ;")[0])))
			}
			s.w(ready())
		case 'P':
			name, r := cstr(p)
			q, _ := cstr(r)
			stmts[name] = q
			if strings.HasPrefix(strings.ToUpper(strings.TrimSpace(q)), "INSERT") {
				m := insertRe.FindStringSubmatch(q)
				if m == nil {
					fail(errors.New("syntax error"))
					continue
				}
			}
			s.w(pgMsg('1'))
		case 'D':
			name, _ := cstr(p[1:])
			if p[0] == 'S' {
				if strings.Contains(stmts[name], "$1") {
					s.w(pgMsg('t', int16(1), int32(3802)))
				} else {
					s.w(pgMsg('t', int16(0)))
				}
			}
			s.w(pgMsg('n'))
		case 'B':
			portal, r := cstr(p)
			name, r := cstr(r)
			nf := int(binary.BigEndian.Uint16(r))
			r = r[2+2*nf:]
			np := int(binary.BigEndian.Uint16(r))
			r = r[2:]
			val := ""
			if np > 0 {
				if n := int32(binary.BigEndian.Uint32(r)); n >= 0 {
					val = string(r[4 : 4+n])
				}
			}
			portals[portal] = [2]string{stmts[name], val}
			s.w(pgMsg('2'))
		case 'E':
			portal, _ := cstr(p)
			x := portals[portal]
			var err error
			if strings.HasPrefix(strings.ToUpper(strings.TrimSpace(x[0])), "INSERT") {
				err = s.insert(x[0], []byte(x[1]))
			} else {
				err = s.statement(x[0])
			}
			if err != nil {
				if !fail(err) {
					return
				}
			} else {
				s.w(pgMsg('C', "INSERT 0 1"))
			}
		case 'C':
			s.w(pgMsg('3'))
		}
	}
}

// ---- MySQL ---------------------------------------------------------------------

func (s *beConn) mysql() {
	seq := byte(0)
	put := func(p []byte) bool {
		h := []byte{byte(len(p)), byte(len(p) >> 8), byte(len(p) >> 16), seq}
		seq++
		return s.w(append(h, p...))
	}
	get := func() ([]byte, bool) {
		h, ok := s.take(4)
		if !ok {
			return nil, false
		}
		seq = h[3] + 1
		return s.take(int(h[0]) | int(h[1])<<8 | int(h[2])<<16)
	}
	okp := func() bool { return put([]byte{0, 0, 0, 2, 0, 0, 0}) }
	errp := func(code uint16, state, text string) bool {
		return put(append([]byte{0xff, byte(code), byte(code >> 8), '#'}, state+text...))
	}
	salt := make([]byte, 20)
	rand.Read(salt)
	for i := range salt {
		salt[i] = salt[i]%90 + 33
	}
	var g bytes.Buffer
	g.WriteByte(10)
	g.WriteString("5.7.30\x00")
	g.Write([]byte{1, 0, 0, 0})
	g.Write(salt[:8])
	caps := uint32(1 | 2 | 4 | 8 | 0x200 | 0x2000 | 0x8000 | 0x80000 | 0x20000)
	g.Write([]byte{0, byte(caps), byte(caps >> 8), 33, 2, 0, byte(caps >> 16), byte(caps >> 24), 21})
	g.Write(make([]byte, 10))
	g.Write(salt[8:])
	g.WriteString("\x00mysql_native_password\x00")
	put(g.Bytes())
	p, ok := get()
	if !ok || len(p) < 32 {
		return
	}
	user, r := cstr(p[32:])
	if len(r) == 0 {
		return
	}
	auth := r[1 : 1+int(r[0])]
	r = r[1+int(r[0]):]
	db := ""
	if binary.LittleEndian.Uint32(p)&8 != 0 {
		db, _ = cstr(r)
	}
	var want []byte
	if s.b.Password != "" {
		h1 := sha1.Sum([]byte(s.b.Password))
		h2 := sha1.Sum(h1[:])
		h3 := sha1.Sum(append(append([]byte{}, salt...), h2[:]...))
		for i := range h1 {
			want = append(want, h1[i]^h3[i])
		}
	}
	if !s.b.login(user == s.b.User && bytes.Equal(auth, want)) {
		errp(1045, "28000", "Access denied for user")
		return
	}
	if s.db = db; s.b.Database != "" && db != s.b.Database {
		errp(1049, "42000", "Unknown database")
		return
	}
	okp()
	stmts, long := map[uint32]string{}, map[uint32][]byte{}
	next := uint32(0)
	answer := func(err error) bool {
		if err == nil {
			return okp()
		}
		if err == errDrop {
			return false
		}
		if err.Error() == "fatal" {
			errp(1053, "08S01", "Server shutdown in progress")
			return false
		}
		if err.Error() == "syntax error" {
			return errp(1064, "42000", err.Error())
		}
		return errp(3140, "22032", "Invalid JSON text")
	}
	for {
		p, ok := get()
		if !ok || len(p) == 0 {
			return
		}
		switch p[0] {
		case 1:
			return
		case 14: // ping
			okp()
		case 2: // init db
			if s.b.Database != "" && string(p[1:]) != s.b.Database {
				errp(1049, "42000", "Unknown database")
			} else {
				s.db = string(p[1:])
				okp()
			}
		case 3:
			if !answer(s.statement(string(p[1:]))) {
				return
			}
		case 0x16:
			q := string(p[1:])
			if strings.HasPrefix(strings.ToUpper(strings.TrimSpace(q)), "INSERT") && insertRe.FindString(q) == "" {
				errp(1064, "42000", "syntax error")
				continue
			}
			next++
			stmts[next] = q
			np := byte(strings.Count(q, "?"))
			put([]byte{0, byte(next), byte(next >> 8), byte(next >> 16), byte(next >> 24), 0, 0, np, 0, 0, 0, 0})
			for i := byte(0); i < np; i++ {
				put([]byte("\x03def\x00\x00\x00\x01?\x00\x0c\x3f\x00\x00\x00\x00\x00\xfd\x80\x00\x00\x00\x00"))
			}
			if np > 0 {
				put([]byte{0xfe, 0, 0, 2, 0})
			}
		case 0x18:
			id := binary.LittleEndian.Uint32(p[1:])
			long[id] = append(long[id], p[7:]...)
		case 0x19:
			delete(stmts, binary.LittleEndian.Uint32(p[1:]))
		case 0x1a:
			delete(long, binary.LittleEndian.Uint32(p[1:]))
			okp()
		case 0x17:
			id := binary.LittleEndian.Uint32(p[1:])
			q := stmts[id]
			var val []byte
			if strings.Contains(q, "?") && len(p) > 10 {
				r := p[10:]
				null := r[0]&1 != 0
				r = r[1:]
				if r[0] == 1 {
					r = r[3:]
				} else {
					r = r[1:]
				}
				if v, ok := long[id]; ok {
					val = v
				} else if !null && len(r) > 0 {
					n, k := uint64(r[0]), 1
					switch r[0] {
					case 0xfc:
						n, k = uint64(r[1])|uint64(r[2])<<8, 3
					case 0xfd:
						n, k = uint64(r[1])|uint64(r[2])<<8|uint64(r[3])<<16, 4
					case 0xfe:
						n, k = binary.LittleEndian.Uint64(r[1:]), 9
					}
					if uint64(len(r)) >= uint64(k)+n {
						val = r[k : uint64(k)+n]
					}
				}
			}
			delete(long, id)
			var err error
			if strings.HasPrefix(strings.ToUpper(strings.TrimSpace(q)), "INSERT") {
				err = s.insert(q, val)
			} else {
				err = s.statement(q)
			}
			if !answer(err) {
				return
			}
		default:
			errp(1047, "08S01", "Unknown command")
		}
	}
}

// ---- RabbitMQ ------------------------------------------------------------------

func shortstr(p []byte) (string, []byte) {
	if len(p) == 0 || len(p) < 1+int(p[0]) {
		return "", nil
	}
	return string(p[1 : 1+p[0]]), p[1+p[0]:]
}

func longstr(p []byte) (string, []byte) {
	if len(p) < 4 || len(p) < 4+int(binary.BigEndian.Uint32(p)) {
		return "", nil
	}
	n := 4 + int(binary.BigEndian.Uint32(p))
	return string(p[4:n]), p[n:]
}

func (s *beConn) amqp() {
	if h, ok := s.take(8); !ok || string(h) != "AMQP\x00\x00\x09\x01" {
		return
	}
	frame := func(ch, cls, mth uint16, args ...interface{}) bool {
		var a bytes.Buffer
		binary.Write(&a, binary.BigEndian, cls)
		binary.Write(&a, binary.BigEndian, mth)
		for _, x := range args {
			switch v := x.(type) {
			case string:
				a.WriteByte(byte(len(v)))
				a.WriteString(v)
			case []byte:
				binary.Write(&a, binary.BigEndian, uint32(len(v)))
				a.Write(v)
			default:
				binary.Write(&a, binary.BigEndian, v)
			}
		}
		h := []byte{1, byte(ch >> 8), byte(ch), 0, 0, 0, 0}
		binary.BigEndian.PutUint32(h[3:], uint32(a.Len()))
		return s.w(append(append(h, a.Bytes()...), 0xce))
	}
	frame(0, 10, 10, byte(0), byte(9), []byte{}, []byte("PLAIN AMQPLAIN"), []byte("en_US"))
	type chanState struct {
		confirm  bool
		tag      uint64
		exchange string
		key      string
		want     uint64
		body     []byte
		active   bool
		closed   bool
		tx       []func() error
		intx     bool
	}
	chans := map[uint16]*chanState{}
	finish := func(ch uint16, c *chanState) bool {
		body, ex, key := c.body, c.exchange, c.key
		c.active, c.body = false, nil
		c.tag++
		if c.intx {
			c.tx = append(c.tx, func() error { return s.b.message([]string{key, ex}, body) })
			return true
		}
		switch err := s.b.message([]string{key, ex}, body); {
		case err == nil:
			if c.confirm {
				frame(ch, 60, 80, c.tag, byte(0))
			}
		case err == errDrop:
			return false
		case err.Error() == "fatal" || !c.confirm:
			c.closed = true
			frame(ch, 20, 40, uint16(404), "NOT_FOUND - no exchange", uint16(60), uint16(40))
		default:
			frame(ch, 60, 120, c.tag, byte(0))
		}
		return true
	}
	for {
		h, ok := s.take(7)
		if !ok {
			return
		}
		p, ok := s.take(int(binary.BigEndian.Uint32(h[3:])) + 1)
		if !ok || p[len(p)-1] != 0xce {
			return
		}
		p = p[:len(p)-1]
		ch := binary.BigEndian.Uint16(h[1:])
		c := chans[ch]
		switch h[0] {
		case 2:
			if c == nil || c.closed {
				continue
			}
			c.want, c.body = binary.BigEndian.Uint64(p[4:]), nil
			if c.want == 0 && c.active && !finish(ch, c) {
				return
			}
			continue
		case 3:
			if c == nil || c.closed || !c.active {
				continue
			}
			c.body = append(c.body, p...)
			if uint64(len(c.body)) >= c.want && !finish(ch, c) {
				return
			}
			continue
		case 1:
		default:
			continue
		}
		cls, mth, a := binary.BigEndian.Uint16(p), binary.BigEndian.Uint16(p[2:]), p[4:]
		switch uint32(cls)<<16 | uint32(mth) {
		case 10<<16 | 11: // start-ok
			_, r := longstr(a)
			mech, r := shortstr(r)
			resp, _ := longstr(r)
			if !s.b.login(mech == "PLAIN" && resp == "\x00"+s.b.User+"\x00"+s.b.Password) {
				frame(0, 10, 50, uint16(403), "ACCESS_REFUSED", uint16(0), uint16(0))
				return
			}
			frame(0, 10, 30, uint16(2047), uint32(131072), uint16(10))
		case 10<<16 | 31: // tune-ok
		case 10<<16 | 40: // open
			vhost, _ := shortstr(a)
			if s.b.Database != "" && vhost != s.b.Database {
				frame(0, 10, 50, uint16(530), "NOT_ALLOWED - vhost", uint16(10), uint16(40))
				return
			}
			frame(0, 10, 41, "")
		case 10<<16 | 50:
			frame(0, 10, 51)
			return
		case 10<<16 | 51:
			return
		case 20<<16 | 10:
			chans[ch] = &chanState{}
			frame(ch, 20, 11, []byte{})
		case 20<<16 | 40:
			delete(chans, ch)
			frame(ch, 20, 41)
		case 20<<16 | 41:
			delete(chans, ch)
		case 85<<16 | 10:
			c.confirm, c.tag = true, 0
			frame(ch, 85, 11)
		case 90<<16 | 10:
			c.intx = true
			frame(ch, 90, 11)
		case 90<<16 | 20, 90<<16 | 30:
			t := c.tx
			c.tx = nil
			bad := false
			for _, f := range t {
				if mth == 20 {
					if err := f(); err == errDrop {
						return
					} else if err != nil {
						bad = true
					}
				}
			}
			if bad {
				c.closed = true
				frame(ch, 20, 40, uint16(404), "NOT_FOUND - no exchange", uint16(60), uint16(40))
			} else {
				frame(ch, 90, mth+1)
			}
		case 40<<16 | 10:
			frame(ch, 40, 11)
		case 50<<16 | 10:
			frame(ch, 50, 11, "q", uint32(0), uint32(0))
		case 50<<16 | 20:
			frame(ch, 50, 21)
		case 60<<16 | 10:
			frame(ch, 60, 11)
		case 60<<16 | 40:
			if c == nil || c.closed {
				continue
			}
			ex, r := shortstr(a[2:])
			key, _ := shortstr(r)
			c.exchange, c.key, c.active = ex, key, true
		}
	}
}

// ---- Tarantool -----------------------------------------------------------------

func (s *beConn) tarantool() {
	salt := make([]byte, 32)
	rand.Read(salt)
	g := fmt.Sprintf("%-63s\n%-63s\n", "Tarantool 1.10.0 (Binary) 5fe8b0b0-0000-4000-8000-000000000000", base64.StdEncoding.EncodeToString(salt))
	if len(g) != 128 || !s.ws("%s", g) {
		g = g[:0]
	}
	reply := func(sync uint64, code uint32, body interface{}) bool {
		var b bytes.Buffer
		b.Write([]byte{0x83, 0, 0xce})
		binary.Write(&b, binary.BigEndian, code)
		b.Write([]byte{1, 0xcf})
		binary.Write(&b, binary.BigEndian, sync)
		b.Write([]byte{5, 1})
		p, _ := msgpack.Marshal(body)
		if code == 0 {
			b.Write([]byte{0x81, 0x30})
		} else {
			b.Write([]byte{0x81, 0x31})
		}
		b.Write(p)
		l := []byte{0xce, 0, 0, 0, 0}
		binary.BigEndian.PutUint32(l[1:], uint32(b.Len()))
		return s.w(append(l, b.Bytes()...))
	}
	in := s.b.User == ""
	for {
		h, ok := s.take(5)
		if !ok || h[0] != 0xce {
			return
		}
		p, ok := s.take(int(binary.BigEndian.Uint32(h[1:])))
		if !ok {
			return
		}
		d := msgpack.NewDecoder(bytes.NewReader(p))
		d.DecodeMapFunc = func(d *msgpack.Decoder) (interface{}, error) {
			n, err := d.DecodeMapLen()
			if err != nil {
				return nil, err
			}
			m := map[string]interface{}{}
			for i := 0; i < n; i++ {
				k, err := d.DecodeInterface()
				if err != nil {
					return nil, err
				}
				v, err := d.DecodeInterface()
				if err != nil {
					return nil, err
				}
				m[fmt.Sprint(k)] = v
			}
			return m, nil
		}
		hi, err1 := d.DecodeInterface()
		bi, err2 := d.DecodeInterface()
		hd, ok1 := hi.(map[string]interface{})
		body, ok2 := bi.(map[string]interface{})
		if err1 != nil || !ok1 {
			return
		}
		if err2 != nil || !ok2 {
			body = map[string]interface{}{}
		}
		num := func(x interface{}) uint64 {
			n, _ := strconv.ParseUint(fmt.Sprint(x), 10, 64)
			return n
		}
		code, sync := num(hd["0"]), num(hd["1"])
		args, _ := body["33"].([]interface{})
		switch {
		case code == 7:
			h1 := sha1.Sum([]byte(s.b.Password))
			h2 := sha1.Sum(h1[:])
			h3 := sha1.Sum(append(append([]byte{}, salt[:20]...), h2[:]...))
			want := ""
			for i := range h1 {
				want += string([]byte{h1[i] ^ h3[i]})
			}
			got := ""
			if len(args) == 2 {
				got = text(args[1])
			}
			switch {
			case s.b.login(fmt.Sprint(body["35"]) == s.b.User && got == want):
				in = true
				reply(sync, 0, []interface{}{})
			default:
				reply(sync, 0x8000|47, "Incorrect password supplied for user")
			}
		case code == 64:
			reply(sync, 0, []interface{}{})
		case code == 1: // the schema
			reply(sync, 0, []interface{}{})
		case code == 6 || code == 10:
			fn := fmt.Sprint(body["34"])
			q := strings.TrimSuffix(strings.TrimPrefix(fn, "queue.tube."), ":put")
			if !in {
				reply(sync, 0x8000|42, "Execute access is denied for user 'guest'")
				continue
			}
			if !strings.HasPrefix(fn, "queue.tube.") || !strings.HasSuffix(fn, ":put") || q == "" || len(args) == 0 {
				reply(sync, 0x8000|33, "Procedure '"+fn+"' is not defined")
				continue
			}
			go func() { // Tarantool runs requests concurrently
				switch err := s.b.message([]string{q}, []byte(text(args[0]))); err {
				case nil:
					reply(sync, 0, []interface{}{[]interface{}{sync, "r", args[0]}})
				case errDrop:
					s.c.Close()
				default:
					reply(sync, 0x8000|32, "refused")
				}
			}()
		default:
			reply(sync, 0x8000|48, "Unknown request type")
		}
	}
}

func text(x interface{}) string {
	switch v := x.(type) {
	case []byte:
		return string(v)
	case string:
		return v
	}
	return fmt.Sprint(x)
}
