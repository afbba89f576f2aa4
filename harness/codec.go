package main

// codec mode: executes decode and encode calls of libs/egts described by JSON lines on stdin and writes one
// JSON line per call with everything observable about it. It judges nothing: spec/CodecTrace.tla does.

import (
	"bufio"
	"bytes"
	"encoding/json"
	"errors"
	"fmt"
	"io"
	"math"
	"os"
	"reflect"
	"runtime"
	"strings"
	"sync"
	"time"

	"github.com/kuznetsovin/egts-protocol/libs/egts"
)

type obj = map[string]interface{}

var epoch = time.Date(2010, time.January, 1, 0, 0, 0, 0, time.UTC)

// fields that are text and not flags
var textField = map[string]bool{"IMEI": true, "IMSI": true, "LNGC": true, "MSISDN": true, "SRN": true, "DSCR": true,
	"UNM": true, "UPSW": true, "SS": true}

func specName(kind, n string) string {
	if kind == "absan" {
		switch n {
		case "SensorNumber":
			return "ASN"
		case "Value":
			return "ASV"
		}
	}
	return n
}

func newSub(kind string) egts.BinaryData {
	switch kind {
	case "resp":
		return &egts.SrResponse{}
	case "term":
		return &egts.SrTermIdentity{}
	case "module":
		return &egts.SrModuleData{}
	case "disp":
		return &egts.SrDispatcherIdentity{}
	case "auth":
		return &egts.SrAuthInfo{}
	case "result":
		return &egts.SrResultCode{}
	case "plus":
		return &egts.StorageRecord{}
	case "pos":
		return &egts.SrPosData{}
	case "ext":
		return &egts.SrExtPosData{}
	case "ad":
		return &egts.SrAdSensorsData{}
	case "cnt":
		return &egts.SrCountersData{}
	case "state":
		return &egts.SrStateData{}
	case "absan":
		return &egts.SrAbsAnSensData{}
	case "abscn":
		return &egts.SrAbsCntrData{}
	case "liq":
		return &egts.SrLiquidLevelSensor{}
	}
	panic("harness: kind " + kind)
}

func kindOf(d egts.BinaryData) string {
	switch d.(type) {
	case *egts.SrResponse:
		return "resp"
	case *egts.SrTermIdentity:
		return "term"
	case *egts.SrModuleData:
		return "module"
	case *egts.SrDispatcherIdentity:
		return "disp"
	case *egts.SrAuthInfo:
		return "auth"
	case *egts.SrResultCode:
		return "result"
	case *egts.StorageRecord:
		return "plus"
	case *egts.SrPosData:
		return "pos"
	case *egts.SrExtPosData:
		return "ext"
	case *egts.SrAdSensorsData:
		return "ad"
	case *egts.SrCountersData:
		return "cnt"
	case *egts.SrStateData:
		return "state"
	case *egts.SrAbsAnSensData:
		return "absan"
	case *egts.SrAbsCntrData:
		return "abscn"
	case *egts.SrLiquidLevelSensor:
		return "liq"
	}
	return "?"
}

func tagName(f reflect.StructField) string {
	t := f.Tag.Get("json")
	if i := strings.IndexByte(t, ','); i >= 0 {
		t = t[:i]
	}
	return t
}

func pair(n uint64) []int { return []int{int(n & 0xFFFF), int(n >> 16)} }

func ints(b []byte) []int {
	r := make([]int, len(b))
	for i, x := range b {
		r[i] = int(x)
	}
	return r
}

func secs(t time.Time) []int {
	if t.IsZero() {
		return []int{0, 0}
	}
	d := t.Unix() - epoch.Unix()
	if d < 0 || d > math.MaxUint32 || t.Nanosecond() != 0 {
		return []int{-1, -1}
	}
	return pair(uint64(d))
}

// degrees of the full range deg as 32-bit wire units, if they are (nearly) a whole number
func units(x, deg float64) []int {
	u := x * 0xFFFFFFFF / deg
	q := math.Round(u)
	if math.IsNaN(u) || q < 0 || q > math.MaxUint32 || math.Abs(u-q) > 0.01 {
		return []int{-1, -1}
	}
	return pair(uint64(q))
}

func projStruct(kind string, v reflect.Value) obj {
	r := obj{"k": kind}
	t := v.Type()
	for i := 0; i < t.NumField(); i++ {
		n := tagName(t.Field(i))
		if n == "" || n == "-" || n == "SFRD" || n == "RD" || n == "SDR" {
			continue
		}
		f := v.Field(i)
		name := specName(kind, n)
		switch x := f.Interface().(type) {
		case time.Time:
			r[name] = secs(x)
		case float64:
			if name == "LAT" {
				r[name] = units(x, 90)
			} else {
				r[name] = units(x, 180)
			}
		case string:
			if textField[n] {
				r[name] = ints([]byte(x))
			} else {
				r[name] = x
			}
		case []byte:
			r[name] = ints(x)
		default:
			switch f.Kind() {
			case reflect.Uint32, reflect.Uint64:
				r[name] = pair(f.Uint())
			case reflect.Uint8, reflect.Uint16:
				r[name] = f.Uint()
			case reflect.Int8, reflect.Int16, reflect.Int32, reflect.Int64:
				r[name] = f.Int()
			}
		}
	}
	return r
}

func projMsg(v reflect.Value) obj {
	t := v.Type()
	r := obj{"k": t.Name()}
	for i := 0; i < t.NumField(); i++ {
		n := tagName(t.Field(i))
		if n == "" || n == "-" {
			continue
		}
		f := v.Field(i)
		switch f.Kind() {
		case reflect.Ptr:
			if !f.IsNil() {
				r[n] = projScalar(f.Elem())
			}
		case reflect.Slice:
			if f.IsNil() {
				continue
			}
			if f.Type().Elem().Kind() == reflect.Uint8 {
				r[n] = ints(f.Bytes())
				continue
			}
			if f.Len() == 0 {
				continue
			}
			l := []interface{}{}
			for j := 0; j < f.Len(); j++ {
				e := f.Index(j)
				if e.Kind() == reflect.Ptr {
					l = append(l, projMsg(e.Elem()))
				} else {
					l = append(l, projScalar(e))
				}
			}
			r[n] = l
		}
	}
	return r
}

func projScalar(v reflect.Value) interface{} {
	switch v.Kind() {
	case reflect.Bool:
		return v.Bool()
	case reflect.Uint32:
		return pair(v.Uint())
	case reflect.Int32:
		return pair(uint64(uint32(v.Int())))
	case reflect.Float32:
		return pair(uint64(math.Float32bits(v.Interface().(float32))))
	}
	return "?" + v.Kind().String()
}

func projSub(d egts.BinaryData) obj {
	if d == nil || reflect.ValueOf(d).IsNil() {
		return obj{"k": "nil"}
	}
	k := kindOf(d)
	if k == "?" {
		return obj{"k": "?"}
	}
	if k == "plus" {
		return obj{"k": "plus", "msg": projMsg(reflect.ValueOf(d).Elem())}
	}
	return projStruct(k, reflect.ValueOf(d).Elem())
}

func projRds(rds egts.RecordDataSet) []obj {
	subs := []obj{}
	for _, s := range rds {
		subs = append(subs, obj{"SRT": s.SubrecordType, "SRL": s.SubrecordLength, "v": projSub(s.SubrecordData)})
	}
	return subs
}

func projSds(sds *egts.ServiceDataSet) []obj {
	recs := []obj{}
	for i := range *sds {
		r := projStruct("rec", reflect.ValueOf(&(*sds)[i]).Elem())
		r["subs"] = projRds((*sds)[i].RecordDataSet)
		recs = append(recs, r)
	}
	return recs
}

func projResp(p *egts.PtResponse) obj {
	b := obj{"RPID": p.ResponsePacketID, "RES": p.ProcessingResult, "sdr": p.SDR != nil, "recs": []obj{}}
	if s, ok := p.SDR.(*egts.ServiceDataSet); ok && s != nil {
		b["recs"] = projSds(s)
	}
	return b
}

func projPkg(p *egts.Package) obj {
	r := projStruct("pkg", reflect.ValueOf(p).Elem())
	switch d := p.ServicesFrameData.(type) {
	case *egts.ServiceDataSet:
		r["body"] = obj{"recs": projSds(d)}
	case *egts.PtResponse:
		r["body"] = projResp(d)
	}
	return r
}

// ---- building library values from specification values

func num(x interface{}) uint64 {
	switch v := x.(type) {
	case float64:
		return uint64(int64(v))
	case []interface{}:
		return uint64(int64(v[0].(float64))) + uint64(int64(v[1].(float64)))<<16
	}
	panic(fmt.Sprintf("harness: number %v", x))
}

func byteSlice(x interface{}) []byte {
	l := x.([]interface{})
	r := make([]byte, len(l))
	for i, e := range l {
		r[i] = byte(e.(float64))
	}
	return r
}

func fill(kind string, v reflect.Value, o obj) {
	t := v.Type()
	for i := 0; i < t.NumField(); i++ {
		n := tagName(t.Field(i))
		if n == "" || n == "-" {
			continue
		}
		x, ok := o[specName(kind, n)]
		if !ok {
			continue
		}
		f := v.Field(i)
		switch f.Interface().(type) {
		case time.Time:
			f.Set(reflect.ValueOf(epoch.Add(time.Duration(num(x)) * time.Second)))
		case float64:
			if n == "LAT" {
				f.SetFloat(float64(num(x)) * 90 / 0xFFFFFFFF)
			} else {
				f.SetFloat(float64(num(x)) * 180 / 0xFFFFFFFF)
			}
		case string:
			if s, ok := x.(string); ok {
				f.SetString(s)
			} else {
				f.SetString(string(byteSlice(x)))
			}
		case []byte:
			f.SetBytes(byteSlice(x))
		default:
			switch f.Kind() {
			case reflect.Uint8, reflect.Uint16, reflect.Uint32, reflect.Uint64:
				f.SetUint(num(x))
			case reflect.Int8, reflect.Int16, reflect.Int32, reflect.Int64:
				f.SetInt(int64(num(x)))
			}
		}
	}
}

func fillMsg(v reflect.Value, o obj) {
	t := v.Type()
	for i := 0; i < t.NumField(); i++ {
		n := tagName(t.Field(i))
		x, ok := o[n]
		if !ok || n == "" || n == "-" {
			continue
		}
		f := v.Field(i)
		switch f.Kind() {
		case reflect.Ptr:
			p := reflect.New(f.Type().Elem())
			setScalar(p.Elem(), x)
			f.Set(p)
		case reflect.Slice:
			if f.Type().Elem().Kind() == reflect.Uint8 {
				f.SetBytes(byteSlice(x))
				continue
			}
			for _, e := range x.([]interface{}) {
				if f.Type().Elem().Kind() == reflect.Ptr {
					p := reflect.New(f.Type().Elem().Elem())
					fillMsg(p.Elem(), e.(obj))
					f.Set(reflect.Append(f, p))
				} else {
					p := reflect.New(f.Type().Elem())
					setScalar(p.Elem(), e)
					f.Set(reflect.Append(f, p.Elem()))
				}
			}
		}
	}
}

func setScalar(v reflect.Value, x interface{}) {
	switch v.Kind() {
	case reflect.Bool:
		v.SetBool(x.(bool))
	case reflect.Uint32:
		v.SetUint(num(x))
	case reflect.Int32:
		v.SetInt(int64(int32(uint32(num(x)))))
	case reflect.Float32:
		v.Set(reflect.ValueOf(math.Float32frombits(uint32(num(x)))))
	}
}

func mkSub(o obj) egts.BinaryData {
	k := o["k"].(string)
	d := newSub(k)
	if k == "plus" {
		fillMsg(reflect.ValueOf(d).Elem(), o["msg"].(obj))
	} else {
		fill(k, reflect.ValueOf(d).Elem(), o)
	}
	return d
}

func mkRds(l []interface{}) egts.RecordDataSet {
	var r egts.RecordDataSet
	for _, e := range l {
		s := e.(obj)
		r = append(r, egts.RecordData{SubrecordType: byte(num(s["SRT"])), SubrecordLength: uint16(num(s["SRL"])), SubrecordData: mkSub(s["v"].(obj))})
	}
	return r
}

func mkSds(l []interface{}) *egts.ServiceDataSet {
	r := egts.ServiceDataSet{}
	for _, e := range l {
		o := e.(obj)
		s := egts.ServiceDataRecord{}
		fill("rec", reflect.ValueOf(&s).Elem(), o)
		s.RecordDataSet = mkRds(o["subs"].([]interface{}))
		r = append(r, s)
	}
	return &r
}

func mkResp(o obj) *egts.PtResponse {
	p := &egts.PtResponse{ResponsePacketID: uint16(num(o["RPID"])), ProcessingResult: uint8(num(o["RES"]))}
	if o["sdr"].(bool) {
		p.SDR = mkSds(o["recs"].([]interface{}))
	}
	return p
}

func mkPkg(o obj) *egts.Package {
	p := &egts.Package{}
	fill("pkg", reflect.ValueOf(p).Elem(), o)
	if o["nobody"].(bool) {
		return p
	}
	b := o["body"].(obj)
	if p.PacketType == 1 {
		p.ServicesFrameData = mkSds(b["recs"].([]interface{}))
	} else {
		p.ServicesFrameData = mkResp(b)
	}
	return p
}

// ---- keys, as Encrypt and Decrypt of Wire.tla

type key struct {
	k     string
	x     int
	calls int
}

var errKey = errors.New("key refused")

func (k *key) Decode(m []byte) ([]byte, error) {
	k.calls++
	switch k.k {
	case "xor":
		r := make([]byte, len(m))
		for i := range m {
			r[i] = m[i] ^ byte(k.x)
		}
		return r, nil
	case "pad":
		if len(m) < k.x {
			return nil, errKey
		}
		m = m[k.x:]
		r := make([]byte, len(m))
		for i := range m {
			r[len(m)-1-i] = m[i]
		}
		return r, nil
	}
	return nil, errKey
}

func (k *key) Encode(m []byte) ([]byte, error) {
	k.calls++
	switch k.k {
	case "xor":
		return k.Decode2(m), nil
	case "pad":
		r := make([]byte, k.x+len(m))
		for i := 0; i < k.x; i++ {
			r[i] = 90
		}
		for i := range m {
			r[k.x+len(m)-1-i] = m[i]
		}
		return r, nil
	}
	return nil, errKey
}

func (k *key) Decode2(m []byte) []byte {
	r := make([]byte, len(m))
	for i := range m {
		r[i] = m[i] ^ byte(k.x)
	}
	return r
}

func mkKey(o obj) *key {
	k := &key{k: "none"}
	if o != nil {
		k.k = o["k"].(string)
		if x, ok := o["x"]; ok {
			k.x = int(num(x))
		}
	}
	return k
}

func (k *key) opts() []func(*egts.Options) {
	if k.k == "none" {
		return nil
	}
	return []func(*egts.Options){func(o *egts.Options) { o.Secret = k }}
}

// ---- guarded calls

const callLimit = 20 * time.Second

// guard runs f; "panic" and "hang" are results like any other
func guard(f func() error) string {
	done := make(chan string, 1)
	go func() {
		defer func() {
			if r := recover(); r != nil {
				done <- "panic"
			}
		}()
		if err := f(); err != nil {
			done <- "err"
		} else {
			done <- "ok"
		}
	}()
	select {
	case r := <-done:
		return r
	case <-time.After(callLimit):
		return "hang"
	}
}

// exact copies the input so that its capacity ends with its length
func exact(b []byte) []byte {
	r := make([]byte, len(b))
	copy(r, b)
	return r[:len(r):len(r)]
}

func hexBytes(s string) []byte {
	var b []byte
	for i := 0; i+1 < len(s); i += 2 {
		var x int
		fmt.Sscanf(s[i:i+2], "%02x", &x)
		b = append(b, byte(x))
	}
	return b
}

func inBytes(c obj) []byte {
	if s, ok := c["b"].(string); ok {
		return exact(hexBytes(s))
	}
	return exact(byteSlice(c["b"]))
}

type element interface {
	Decode([]byte) error
	Encode() ([]byte, error)
	Length() uint16
}

func mkElement(c obj) element {
	switch c["lv"].(string) {
	case "sub":
		return newSub(c["kind"].(string)).(element)
	case "rds":
		return &egts.RecordDataSet{}
	case "sds":
		return &egts.ServiceDataSet{}
	case "ptresp":
		return &egts.PtResponse{}
	}
	panic("harness: level")
}

func projElement(e element) interface{} {
	switch d := e.(type) {
	case *egts.RecordDataSet:
		return obj{"subs": projRds(*d)}
	case *egts.ServiceDataSet:
		return obj{"recs": projSds(d)}
	case *egts.PtResponse:
		return projResp(d)
	case egts.BinaryData:
		return projSub(d)
	}
	panic("harness: element")
}

// decCase and encCase return a function that writes to another object what their results look like when it is called
func decCase(c, out obj) func(obj) {
	b := inBytes(c)
	out["b"] = ints(b)
	view := func(o obj) {}
	var enc func() ([]byte, error)
	length := -1
	if c["lv"] == "pkg" {
		k := mkKey(asObj(c["key"]))
		p := &egts.Package{}
		var code uint8
		out["res"] = guard(func() error {
			var err error
			code, err = p.Decode(b, k.opts()...)
			return err
		})
		out["code"] = code
		out["kcalls"] = k.calls
		out["pid"] = p.PacketIdentifier
		if out["res"] == "ok" {
			view = func(o obj) { o["v"] = projPkg(p) }
			spoil(b)
			view(out)
		}
		enc = func() ([]byte, error) { return p.Encode(k.opts()...) }
	} else {
		e := mkElement(c)
		out["res"] = guard(func() error { return e.Decode(b) })
		if out["res"] == "ok" {
			view = func(o obj) { o["v"] = projElement(e) }
			spoil(b)
			view(out)
			if guard(func() error { length = int(e.Length()); return nil }) != "ok" {
				length = -2
			}
		}
		enc = e.Encode
	}
	out["len"] = length
	if out["res"] == "ok" {
		var rb []byte
		out["reres"] = guard(func() error {
			var err error
			rb, err = enc()
			return err
		})
		if out["reres"] == "ok" {
			out["reb"] = ints(rb)
			v := view
			view = func(o obj) {
				o["reb"] = ints(rb)
				// encoding may fill in what was left unset
				if out["lv"] != "pkg" {
					v(o)
				}
			}
		}
	}
	return view
}

// spoil overwrites the input of a call that has returned
func spoil(b []byte) {
	for i := range b {
		b[i] ^= 0xA5
	}
}

func encCase(c, out obj) func(obj) {
	out["v"] = c["v"]
	view := func(o obj) {}
	var b []byte
	length := -1
	if c["lv"] == "pkg" {
		k := mkKey(asObj(c["key"]))
		p := mkPkg(c["v"].(obj))
		if w := asObj(c["warm"]); w != nil {
			p = mkPkg(w)
			guard(func() error { _, err := p.Encode(k.opts()...); return err })
			if d, ok := p.ServicesFrameData.(*egts.PtResponse); ok {
				if d.SDR != nil {
					graftSds(d.SDR.(*egts.ServiceDataSet), list(w["body"], "recs"), list(asObj(c["v"])["body"], "recs"))
				}
			} else {
				graftSds(p.ServicesFrameData.(*egts.ServiceDataSet), list(w["body"], "recs"), list(asObj(c["v"])["body"], "recs"))
			}
			k.calls = 0
		}
		out["res"] = guard(func() error {
			var err error
			b, err = p.Encode(k.opts()...)
			return err
		})
		out["kcalls"] = k.calls
		if out["res"] == "ok" {
			q := &egts.Package{}
			out["backres"] = guard(func() error {
				_, err := q.Decode(exact(b), k.opts()...)
				return err
			})
			if out["backres"] == "ok" {
				out["back"] = projPkg(q)
			}
		}
	} else {
		var e, l element
		switch c["lv"].(string) {
		case "sub":
			e, l = mkSub(c["v"].(obj)).(element), mkSub(c["v"].(obj)).(element)
		case "rds":
			x, y := mkRds(c["v"].(obj)["subs"].([]interface{})), mkRds(c["v"].(obj)["subs"].([]interface{}))
			e, l = &x, &y
		case "sds":
			e, l = mkSds(c["v"].(obj)["recs"].([]interface{})), mkSds(c["v"].(obj)["recs"].([]interface{}))
		case "ptresp":
			e, l = mkResp(c["v"].(obj)), mkResp(c["v"].(obj))
		}
		if w := asObj(c["warm"]); w != nil {
			switch c["lv"].(string) {
			case "rds":
				x := mkRds(list(w, "subs"))
				guard(func() error { _, err := x.Encode(); return err })
				graftRds(&x, list(w, "subs"), list(c["v"], "subs"))
				e = &x
			case "sds":
				x := mkSds(list(w, "recs"))
				guard(func() error { _, err := x.Encode(); return err })
				graftSds(x, list(w, "recs"), list(c["v"], "recs"))
				e = x
			}
		}
		out["res"] = guard(func() error {
			var err error
			b, err = e.Encode()
			return err
		})
		if out["res"] == "ok" {
			if guard(func() error { length = int(l.Length()); return nil }) != "ok" {
				length = -2
			}
			q := mkElement(c)
			out["backres"] = guard(func() error { return q.Decode(exact(b)) })
			if out["backres"] == "ok" {
				out["back"] = projElement(q)
			}
		}
	}
	out["len"] = length
	if out["res"] == "ok" {
		out["b"] = ints(b)
		view = func(o obj) { o["b"] = ints(b) }
	}
	return view
}

// graftRds turns the subrecords made from v0 into those of v, as a program that keeps using its values does:
// subrecords get other data, further ones are appended, everything else stays as the encoder left it
func graftRds(r *egts.RecordDataSet, v0, v []interface{}) {
	for j, e := range v {
		if j >= len(v0) {
			*r = append(*r, mkRds([]interface{}{e})...)
		} else if !reflect.DeepEqual(v0[j], e) {
			(*r)[j].SubrecordData = mkSub(e.(obj)["v"].(obj))
		}
	}
}

func graftSds(s *egts.ServiceDataSet, v0, v []interface{}) {
	for i, e := range v {
		if i >= len(v0) {
			*s = append(*s, *mkSds([]interface{}{e})...)
		} else {
			graftRds(&(*s)[i].RecordDataSet, v0[i].(obj)["subs"].([]interface{}), e.(obj)["subs"].([]interface{}))
		}
	}
}

func list(o interface{}, n string) []interface{} { return o.(obj)[n].([]interface{}) }

func asObj(x interface{}) obj {
	o, _ := x.(obj)
	return o
}

// runCase executes one call; view shows its results again, as they are by then
func runCase(c obj) (out obj, view func(obj)) {
	out = obj{"id": c["id"], "op": c["op"], "lv": c["lv"], "kind": c["kind"], "note": c["note"], "key": c["key"],
		"v": obj{"k": "none"}, "back": obj{"k": "none"}, "b": []int{}, "reb": []int{}, "code": -1, "pid": -1, "kcalls": 0,
		"reres": "none", "backres": "none"}
	for _, n := range []string{"kind", "note"} {
		if out[n] == nil {
			out[n] = ""
		}
	}
	if out["key"] == nil {
		out["key"] = obj{"k": "none"}
	}
	if c["op"] == "dec" {
		view = decCase(c, out)
	} else {
		view = encCase(c, out)
	}
	return out, view
}

func marshal(o obj) []byte {
	j, e := json.Marshal(o)
	if e != nil {
		fatal("result: %v", e)
	}
	return j
}

type held struct {
	c    obj
	out  []byte
	view func(obj)
}

func hung(out obj) bool {
	return out["res"] == "hang" || out["reres"] == "hang" || out["backres"] == "hang"
}

func codecMain() {
	in := bufio.NewReaderSize(os.Stdin, 1<<20)
	w := bufio.NewWriterSize(os.Stdout, 1<<20)
	defer w.Flush()
	emit := func(j []byte) {
		w.Write(j)
		w.WriteByte('\n')
		w.Flush()
	}
	var all []held
	for {
		line, err := in.ReadBytes('\n')
		if len(line) > 1 {
			var c obj
			if e := json.Unmarshal(line, &c); e != nil {
				fatal("case: %v", e)
			}
			out, view := runCase(c)
			j := marshal(out)
			emit(j)
			if hung(out) {
				os.Exit(7) // the call still runs; the orchestrator continues after this case
			}
			all = append(all, held{c, j, view})
		}
		if err == io.EOF {
			break
		}
		if err != nil {
			fatal("stdin: %v", err)
		}
	}

	// what the calls returned must not depend on the calls made since
	odd := 0
	for _, h := range all {
		var out obj
		if e := json.Unmarshal(h.out, &out); e != nil {
			fatal("held: %v", e)
		}
		h.view(out)
		if j := marshal(out); !bytes.Equal(j, h.out) && odd < 20 {
			out["note"] = fmt.Sprintf("%v, seen later", out["note"])
			emit(marshal(out))
			odd++
		}
	}

	// nor on calls made at the same time
	fmt.Fprintln(os.Stderr, "concurrent")
	var mu sync.Mutex
	var wg sync.WaitGroup
	const lanes = 8
	for g := 0; g < lanes; g++ {
		wg.Add(1)
		go func(g int) {
			defer wg.Done()
			for i := range all {
				h := all[(i*lanes+g*(len(all)/lanes+1))%len(all)]
				if len(h.out) > 50000 {
					continue
				}
				out, _ := runCase(h.c)
				if j := marshal(out); !bytes.Equal(j, h.out) {
					mu.Lock()
					if odd < 40 {
						out["note"] = fmt.Sprintf("%v, concurrent", out["note"])
						emit(marshal(out))
						odd++
					}
					mu.Unlock()
				}
			}
		}(g)
	}
	wg.Wait()
	storm(all, emit)
}

// storm decodes and encodes some hundred inputs over and over from several goroutines: the results must be those of
// the sequential calls. What differs is emitted as the same call with the result that it had this time.
func storm(all []held, emit func([]byte)) {
	type shot struct {
		c, out obj
		b      []byte
		el     interface{}
		reb    []byte
	}
	run := func(c obj, b []byte) (el interface{}, reb []byte, code uint8, res string) {
		defer func() {
			if r := recover(); r != nil {
				res = "panic"
			}
		}()
		var err error
		if c["lv"] == "pkg" {
			k, p := mkKey(asObj(c["key"])), &egts.Package{}
			el = p
			if code, err = p.Decode(b, k.opts()...); err != nil {
				return el, nil, code, "err"
			}
			reb, err = p.Encode(k.opts()...)
		} else {
			e := mkElement(c)
			el = e
			if err = e.Decode(b); err != nil {
				return el, nil, 0, "err"
			}
			reb, err = e.Encode()
		}
		if err != nil {
			reb = nil
		}
		return el, reb, code, "ok"
	}
	show := func(el interface{}) interface{} {
		if p, ok := el.(*egts.Package); ok {
			return projPkg(p)
		}
		return projElement(el.(element))
	}
	shots := []shot{}
	for i := 0; i < len(all) && len(shots) < 300; i++ {
		h := all[i*7919%len(all)]
		if len(h.out) > 20000 {
			continue
		}
		was := obj{}
		if e := json.Unmarshal(h.out, &was); e != nil {
			fatal("held: %v", e)
		}
		c := obj{"id": h.c["id"], "op": "dec", "lv": was["lv"], "kind": was["kind"], "key": was["key"], "note": fmt.Sprintf("%v, in parallel", was["note"])}
		if was["op"] == "dec" && was["res"] == "ok" {
			c["b"] = h.c["b"]
		} else if was["op"] == "enc" && was["res"] == "ok" && was["backres"] == "ok" {
			c["b"] = was["b"]
		} else {
			continue
		}
		out, _ := runCase(c)
		if out["res"] != "ok" {
			continue
		}
		b := inBytes(c)
		el, reb, _, res := run(c, exact(b))
		if res == "ok" && bytes.Equal(reb, byteSlice2(out["reb"])) {
			shots = append(shots, shot{c, out, b, el, reb})
		}
	}
	if len(shots) == 0 {
		return
	}
	fmt.Fprintln(os.Stderr, "concurrent storm")
	runtime.GOMAXPROCS(8)
	end := time.Now().Add(1500 * time.Millisecond)
	var mu sync.Mutex
	var wg sync.WaitGroup
	odd := 0
	for g := 0; g < 8; g++ {
		wg.Add(1)
		go func(g int) {
			defer wg.Done()
			for i := g * 53; time.Now().Before(end); i++ {
				s := shots[i%len(shots)]
				for n := 0; n < 20; n++ {
					el, reb, code, res := run(s.c, exact(s.b))
					same := res == "ok" && bytes.Equal(reb, s.reb)
					if same && reflect.DeepEqual(el, s.el) {
						continue
					}
					if same && bytes.Equal(marshal(obj{"v": show(el)}), marshal(obj{"v": show(s.el)})) {
						continue
					}
					mu.Lock()
					if odd < 20 {
						out := obj{}
						for f, v := range s.out {
							out[f] = v
						}
						out["res"], out["v"], out["reb"], out["reres"] = res, obj{"k": "none"}, []int{}, "none"
						if s.c["lv"] == "pkg" {
							out["code"] = code
						}
						if res == "ok" {
							out["reres"] = "err"
							if reb != nil {
								out["reres"], out["reb"] = "ok", ints(reb)
							}
							out["v"] = s.out["v"]
							if !reflect.DeepEqual(el, s.el) {
								out["v"] = show(el)
							}
						}
						emit(marshal(out))
						odd++
					}
					mu.Unlock()
				}
			}
		}(g)
	}
	wg.Wait()
}

func byteSlice2(x interface{}) []byte {
	var r []byte
	if l, ok := x.([]int); ok {
		for _, v := range l {
			r = append(r, byte(v))
		}
	}
	return r
}
