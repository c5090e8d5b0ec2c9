package main

import (
	"bytes"
	"context"
	"fmt"
	"io"
	"net/http"
	"net/url"
	"os"
	"reflect"
	"strings"
	"time"

	"example.com/vh/lib"
	"example.com/vh/rt"
	"example.com/vh/svc/echo"
	"example.com/vh/svc/echo/rec"
)

const (
	ctJSON = "application/json; charset=utf-8"
	ctMsg  = "application/msgpack; charset=utf-8"
)

var (
	rr      = &rt.Recorder{}
	handler http.Handler
)

type class int

const (
	free   class = iota // 200 or 400
	reject              // 400, not invoked
	accept              // 200, invoked once with the expected arguments
)

type probe struct {
	method string
	ct     string
	body   []byte
	class  class
	want   []reflect.Value
	key    string
	why    string
}

func send(ct string, method string, body io.Reader, cl int64) (rec *lib.RespRec, calls []rt.Call, err error) {
	rr.Take()
	rr.Script = nil
	u, _ := url.Parse("/echo/" + method)
	req := (&http.Request{Method: "POST", URL: u, Proto: "HTTP/1.1", ProtoMajor: 1, ProtoMinor: 1, Header: http.Header{}, Body: io.NopCloser(body), ContentLength: cl, Host: "x", RequestURI: "/echo/" + method}).WithContext(context.Background())
	if ct != "" {
		req.Header.Set("Content-Type", ct)
	}
	rec = lib.NewRespRec()
	done := make(chan error, 1)
	go func() {
		defer func() {
			if p := recover(); p != nil {
				done <- fmt.Errorf("the server panicked: %v", p)
				return
			}
			done <- nil
		}()
		handler.ServeHTTP(rec, req)
		rec.End()
	}()
	select {
	case err = <-done:
	case <-time.After(60 * time.Second):
		err = fmt.Errorf("no answer within 60 s")
	}
	return rec, rr.Take(), err
}

func (p probe) check(after bool) error {
	rec, calls, err := send(p.ct, p.method, bytes.NewReader(p.body), int64(len(p.body)))
	if err != nil {
		return err
	}
	lib.TheRun.Outcome(fmt.Sprint(p.class, rec.Status, len(calls)))
	switch rec.Status {
	case 200:
		if p.class == reject {
			return fmt.Errorf("accepted, service saw %v", calls)
		}
		if len(calls) != 1 || calls[0].Method != p.method {
			return fmt.Errorf("200 but service saw %v", calls)
		}
		if p.class == accept {
			args := calls[0].Args
			if len(args) > 0 && strings.HasPrefix(p.method, "Raw") {
				args = args[2:]
			}
			if len(args) != len(p.want) {
				return fmt.Errorf("service saw %d arguments", len(args))
			}
			for i := range args {
				g := reflect.New(p.want[i].Type()).Elem()
				if args[i] != nil {
					g.Set(reflect.ValueOf(args[i]))
				}
				if d := lib.Equal(p.want[i], g, lib.EqOpt{}); d != "" {
					return fmt.Errorf("argument %d: %s", i, d)
				}
			}
		}
	case 400:
		if p.class == accept {
			return fmt.Errorf("refused a valid body")
		}
		if len(calls) != 0 {
			return fmt.Errorf("400 but the service was invoked: %v", calls)
		}
	default:
		return fmt.Errorf("status %d", rec.Status)
	}
	if after {
		// a later call is not affected
		rec, calls, err := send(ctJSON, "Mixed", strings.NewReader(`["q",{"x":1,"y":2,"n":"n","f":0.5},[4,5],{"k":"red"},2.5]`), 60)
		if err != nil {
			return fmt.Errorf("later call: %w", err)
		}
		if rec.Status != 200 || len(calls) != 1 {
			return fmt.Errorf("later call: status %d, calls %v", rec.Status, calls)
		}
		want := []any{"q", &echo.Point{X: 1, Y: 2, N: "n", F: 0.5}, []int{4, 5}, map[string]echo.Colour{"k": "red"}, 2.5}
		if !reflect.DeepEqual(calls[0].Args, want) {
			return fmt.Errorf("later call: service saw %v", calls[0].Args)
		}
	}
	return nil
}

// wrong lists documents the type cannot hold.
func wrong(t reflect.Type, json bool) (out []*lib.Node) {
	num := &lib.Node{Kind: 'i', I: 1}
	str := &lib.Node{Kind: 's', S: "a"}
	tru := &lib.Node{Kind: 'b', B: true}
	arr := &lib.Node{Kind: 'a', A: []*lib.Node{{Kind: 'i', I: 1}}}
	obj := &lib.Node{Kind: 'm', K: []*lib.Node{{Kind: 's', S: "zz"}}, A: []*lib.Node{{Kind: 'i', I: 1}}}
	flt := &lib.Node{Kind: 'f', F: 1.5}
	for t.Kind() == reflect.Ptr {
		t = t.Elem()
	}
	switch t.Kind() {
	case reflect.Bool:
		out = append(out, str, arr, obj)
		if json { // msgpack 0 and 1 are taken for booleans by the codec library
			out = append(out, num)
		}
	case reflect.Int, reflect.Int8, reflect.Int16, reflect.Int32, reflect.Int64:
		out = append(out, str, tru, arr, obj, flt)
		if bits := t.Bits(); bits < 64 {
			out = append(out, &lib.Node{Kind: 'i', I: 1 << (bits - 1)}, &lib.Node{Kind: 'i', I: -1<<(bits-1) - 1})
		} else if json {
			out = append(out, &lib.Node{Kind: 'u', U: 1 << 63})
		}
	case reflect.Uint, reflect.Uint8, reflect.Uint16, reflect.Uint32, reflect.Uint64:
		out = append(out, str, tru, arr, obj, flt, &lib.Node{Kind: 'i', I: -1})
		if bits := t.Bits(); bits < 64 {
			out = append(out, &lib.Node{Kind: 'u', U: 1 << bits})
		}
	case reflect.Float32, reflect.Float64:
		out = append(out, str, tru, arr, obj)
	case reflect.String:
		out = append(out, obj)
		if json { // a msgpack array of numbers is taken for bytes by the codec library
			out = append(out, arr)
		}
	case reflect.Struct:
		out = append(out, num, str, tru, flt)
	case reflect.Slice:
		if t.Elem().Kind() == reflect.Uint8 {
			out = append(out, num, tru)
			if json {
				out = append(out, &lib.Node{Kind: 's', S: "!!!"})
			}
		} else {
			out = append(out, num, str, tru, flt)
		}
	case reflect.Map:
		out = append(out, num, str, tru, flt, arr)
	}
	return
}

func main() {
	r := lib.Start()
	os.Stderr, _ = os.OpenFile(os.DevNull, os.O_WRONLY, 0)
	handler = echo.NewDefaultEchoGoTSRPCProxy(&rec.Echo{Rec: rr})
	methods := lib.Methods(reflect.TypeOf((*echo.Echo)(nil)).Elem())
	do := func(p probe, after bool) {
		if r.Expired() {
			return
		}
		r.State(p.method + p.ct + string(p.body))
		r.Trace(1)
		r.Check(fmt.Sprintf("%s %s %s body %.200q", p.why, p.method, p.ct, p.body), p.key, map[string]any{"method": p.method, "contentType": p.ct, "body": fmt.Sprintf("%q", p.body), "why": p.why}, func() error { return p.check(after) })
	}
	for _, m := range methods {
		if len(m.Args) == 0 {
			continue
		}
		var sets [][]reflect.Value
		var dist, zero []reflect.Value
		for i, t := range m.Args {
			dist = append(dist, lib.Distinct(t, i+1, 3))
			zero = append(zero, reflect.Zero(t))
		}
		sets = append(sets, dist, zero)
		for si, set := range sets {
			doc := lib.List(set)
			js := []byte(doc.JSONText(""))
			mp := doc.Msgpack(0)
			// valid forms
			for _, sp := range []string{"", " ", "\n\t", "\r\n  "} {
				for _, ct := range []string{ctJSON, "application/json", "", "text/plain", "application/x-www-form-urlencoded", "APPLICATION/JSON"} {
					do(probe{m.Name, ct, []byte(sp + doc.JSONText(sp) + sp), accept, set, "valid:json", "valid"}, false)
				}
			}
			for w := 0; w <= 3; w++ {
				do(probe{m.Name, ctMsg, doc.Msgpack(w), accept, set, "valid:msgpack", "valid"}, false)
			}
			// every truncation
			for k := 0; k < len(js); k++ {
				do(probe{m.Name, ctJSON, js[:k], reject, nil, "truncated:json", fmt.Sprintf("first %d of %d bytes", k, len(js))}, k%7 == 0)
				do(probe{m.Name, "", js[:k], reject, nil, "truncated:json", fmt.Sprintf("first %d of %d bytes", k, len(js))}, false)
			}
			for k := 0; k < len(mp); k++ {
				do(probe{m.Name, ctMsg, mp[:k], reject, nil, "truncated:msgpack", fmt.Sprintf("first %d of %d bytes", k, len(mp))}, k%7 == 0)
			}
			mpw := doc.Msgpack(2)
			for k := 0; k < len(mpw); k++ {
				do(probe{m.Name, ctMsg, mpw[:k], reject, nil, "truncated:msgpack", fmt.Sprintf("wide, first %d of %d bytes", k, len(mpw))}, false)
			}
			// the connection breaks after k bytes
			for _, x := range []struct {
				ct string
				b  []byte
			}{{ctJSON, js}, {ctMsg, mp}} {
				for k := 0; k < len(x.b); k++ {
					for ei, e := range []error{io.ErrUnexpectedEOF, fmt.Errorf("connection reset")} {
						if si > 0 && ei > 0 {
							continue
						}
						r.Trace(1)
						r.Check(fmt.Sprintf("%s %s broken after %d", m.Name, x.ct, k), "broken-read", map[string]any{"method": m.Name, "contentType": x.ct, "body": fmt.Sprintf("%q", x.b), "break": k}, func() error {
							rec, calls, err := send(x.ct, m.Name, io.MultiReader(bytes.NewReader(x.b[:k]), &failing{e}), int64(len(x.b)))
							if err != nil {
								return err
							}
							if rec.Status != 400 || len(calls) != 0 {
								return fmt.Errorf("status %d, calls %v", rec.Status, calls)
							}
							return nil
						})
					}
				}
			}
			// the other encoding's body
			if !(len(mp) > 0 && si == 1) {
				do(probe{m.Name, ctMsg, js, reject, nil, "wrong-encoding", "JSON body declared msgpack"}, true)
				do(probe{m.Name, ctJSON, mp, reject, nil, "wrong-encoding", "msgpack body declared JSON"}, true)
			}
			// top-level scalars instead of a list
			for _, n := range []*lib.Node{{Kind: 'i', I: 1}, {Kind: 's', S: "ab"}, {Kind: 'b', B: true}, {Kind: 'f', F: 1.5}, {Kind: 'b'}, {Kind: 's'}} {
				do(probe{m.Name, ctJSON, []byte(n.JSONText("")), reject, nil, "not-a-list:json", "scalar body"}, true)
				if n.Kind == 's' {
					continue
				}
				do(probe{m.Name, ctMsg, n.Msgpack(0), reject, nil, "not-a-list:msgpack", "scalar body"}, true)
			}
			if si > 0 {
				continue
			}
			// every node replaced by a document its type cannot hold
			var nodes []*lib.Node
			var paths []string
			doc.Walk(func(p string, x *lib.Node) {
				if x.T != nil {
					nodes, paths = append(nodes, x), append(paths, p)
				}
			})
			for i, x := range nodes {
				saved := *x
				for _, w := range wrong(saved.T, true) {
					*x = *w
					do(probe{m.Name, ctJSON, []byte(doc.JSONText("")), reject, nil, "mismatch:json:" + saved.T.Kind().String() + "<-" + string(w.Kind), "wrong type at " + paths[i]}, i%5 == 0)
				}
				for _, w := range wrong(saved.T, false) {
					*x = *w
					do(probe{m.Name, ctMsg, doc.Msgpack(0), reject, nil, "mismatch:msgpack:" + saved.T.Kind().String() + "<-" + string(w.Kind), "wrong type at " + paths[i]}, i%5 == 0)
				}
				*x = saved
			}
			// every single-byte deletion, substitution and insertion: never anything but 200 or 400
			subs := []byte{0, ' ', '"', '[', ']', '{', '}', ',', ':', '\\', '1', 'x', 0x80, 0xff}
			msubs := []byte{0x00, 0x80, 0x8f, 0x90, 0x9f, 0xa0, 0xbf, 0xc0, 0xc1, 0xc4, 0xc7, 0xc9, 0xcb, 0xcf, 0xd4, 0xd8, 0xdb, 0xdd, 0xdf, 0xff}
			if r.Thorough {
				subs, msubs = nil, nil
				for b := 0; b < 256; b++ {
					subs, msubs = append(subs, byte(b)), append(msubs, byte(b))
				}
			}
			mutate := func(ct string, b []byte, subs []byte, key string) {
				for i := range b {
					d := append(append([]byte{}, b[:i]...), b[i+1:]...)
					do(probe{m.Name, ct, d, lenient(ct, d), nil, key, fmt.Sprintf("byte %d deleted", i)}, i%11 == 0)
					for _, s := range subs {
						if s != b[i] {
							d := append([]byte{}, b...)
							d[i] = s
							do(probe{m.Name, ct, d, lenient(ct, d), nil, key, fmt.Sprintf("byte %d = %#x", i, s)}, i%11 == 0)
						}
						d := append(append(append([]byte{}, b[:i]...), s), b[i:]...)
						do(probe{m.Name, ct, d, lenient(ct, d), nil, key, fmt.Sprintf("%#x inserted at %d", s, i)}, false)
					}
				}
			}
			mutate(ctJSON, js, subs, "mutated:json")
			mutate(ctMsg, mp, msubs, "mutated:msgpack")
		}
	}
	hostile(r, do)
	r.Sample(map[string]any{"json": `["s1",{"x":`, "class": "truncated"})
	r.Finish()
}

type failing struct{ err error }

func (f *failing) Read([]byte) (int, error) { return 0, f.err }

// lenient classifies a mutated JSON body: unclosed documents must be refused, everything else may go either way.
func lenient(ct string, b []byte) class {
	if ct != ctJSON {
		return free
	}
	depth, in, esc := 0, false, false
	for _, c := range b {
		switch {
		case in && esc:
			esc = false
		case in && c == '\\':
			esc = true
		case in && c == '"':
			in = false
		case in:
		case c == '"':
			in = true
		case c == '[' || c == '{':
			depth++
		case c == ']' || c == '}':
			depth--
			if depth < 0 {
				return free
			}
			if depth == 0 {
				return free // complete here; what follows is not looked at
			}
		}
	}
	return reject
}

// hostile lists bodies built to exhaust the decoder.
func hostile(r *lib.Run, do func(probe, bool)) {
	big := func(h byte, n int) []byte {
		b := []byte{0x91, h}
		for i := 0; i < n; i++ {
			b = append(b, 0xff)
		}
		return b
	}
	for _, m := range []string{"Any", "Slice", "Map", "Nested", "Str", "Bytes", "Tree", "Struct", "Floats", "Foreign"} {
		for _, x := range [][]byte{big(0xdd, 4), big(0xdf, 4), big(0xdb, 4), big(0xc6, 4), big(0xc9, 5), big(0xdc, 2), big(0xde, 2), {0xdd, 0xff, 0xff, 0xff, 0xff}, {0xdf, 0xff, 0xff, 0xff, 0xff}, {0xdd, 0x7f, 0xff, 0xff, 0xff, 0xdd, 0x7f, 0xff, 0xff, 0xff}} {
			do(probe{m, ctMsg, x, reject, nil, "hostile:length", "huge declared length"}, true)
		}
		for _, n := range []int{100, 900, 1100, 5000, 100000} {
			do(probe{m, ctJSON, []byte(strings.Repeat("[", n)), reject, nil, "hostile:nesting", "nested"}, true)
			do(probe{m, ctJSON, []byte("[" + strings.Repeat(`{"left":`, n)), reject, nil, "hostile:nesting", "nested"}, true)
			do(probe{m, ctJSON, []byte(strings.Repeat("[", n) + strings.Repeat("]", n)), free, nil, "hostile:nesting", "nested"}, true)
			do(probe{m, ctJSON, []byte("[" + strings.Repeat(`{"left":`, n) + "null" + strings.Repeat(`}`, n) + "]"), free, nil, "hostile:nesting", "nested"}, true)
			do(probe{m, ctMsg, bytes.Repeat([]byte{0x91}, n), reject, nil, "hostile:nesting", "nested"}, true)
			do(probe{m, ctMsg, append([]byte{0x91}, bytes.Repeat([]byte("\x81\xa4left"), n)...), reject, nil, "hostile:nesting", "nested"}, true)
		}
	}
}
