package main

import (
	"bytes"
	"context"
	"fmt"
	"io"
	"net/http"
	"os"
	"reflect"
	"strconv"
	"unsafe"

	"example.com/vh/lib"
	"example.com/vh/rt"
	"example.com/vh/svc/echo"
	"example.com/vh/svc/echo/rec"
	gotsrpc "github.com/foomo/gotsrpc/v2"
)

const (
	ctJSON = "application/json; charset=utf-8"
	ctMsg  = "application/msgpack; charset=utf-8"
)

var (
	rr      = &rt.Recorder{}
	typ     = reflect.TypeOf((*echo.Echo)(nil)).Elem()
	handler http.Handler
	labels  = []struct {
		ct  string
		enc lib.Enc
	}{
		{ctMsg, lib.Msgpack}, {ctJSON, lib.JSON}, {"application/json", lib.JSON}, {"", lib.JSON}, {"text/plain", lib.JSON}, {"application/x-www-form-urlencoded", lib.JSON},
		{"text/plain;charset=UTF-8", lib.JSON}, {"application/octet-stream", lib.JSON}, {"*/*", lib.JSON}, {"garbage", lib.JSON}, {";", lib.JSON}, {"application/json;charset=UTF-8", lib.JSON},
		{"application/x-yaml", lib.JSON}, {"application/cbor", lib.JSON},
	}
)

func method(name string) lib.Method {
	for _, m := range lib.Methods(typ) {
		if m.Name == name {
			return m
		}
	}
	panic(name)
}

func encode(n *lib.Node, enc lib.Enc) []byte {
	if enc == lib.Msgpack {
		return n.Msgpack(0)
	}
	return []byte(n.JSONText(""))
}

func decode(b []byte, enc lib.Enc) (any, error) {
	if enc == lib.Msgpack {
		return lib.DecMsgpack(b)
	}
	return lib.DecJSON(b)
}

// checkReply holds an answer against the results the service returned.
func checkReply(rec *lib.RespRec, enc lib.Enc, rets []reflect.Value) error {
	if rec.Status != 200 {
		return fmt.Errorf("status %d", rec.Status)
	}
	cts := rec.Sent["Content-Type"]
	want := "application/json"
	if enc == lib.Msgpack {
		want = "application/msgpack"
	}
	if len(cts) != 1 || lib.MediaType(cts[0]) != want {
		return fmt.Errorf("reply in %s is labelled %q", enc, cts)
	}
	cls := rec.Sent["Content-Length"]
	if len(cls) != 1 || cls[0] != strconv.Itoa(rec.Body.Len()) {
		return fmt.Errorf("content length %q for a body of %d bytes", cls, rec.Body.Len())
	}
	got, err := decode(rec.Body.Bytes(), enc)
	if err != nil {
		return fmt.Errorf("the body is not %s: %v: %q", enc, err, clip(rec.Body.Bytes()))
	}
	exp, err := decode(encode(lib.List(rets), enc), enc)
	if err != nil {
		return fmt.Errorf("harness: %v", err)
	}
	if !reflect.DeepEqual(got, exp) {
		return fmt.Errorf("body %s, results %s", short(got), short(exp))
	}
	return nil
}

func clip(b []byte) []byte {
	if len(b) > 200 {
		return b[:200]
	}
	return b
}

func short(v any) string {
	s := fmt.Sprintf("%#v", v)
	if len(s) > 400 {
		s = s[:400]
	}
	return s
}

func script(rets []reflect.Value) {
	rr.Script = func(_, _ string, _ []any) []any { return lib.Anys(rets) }
}

func main() {
	r := lib.Start()
	os.Stderr, _ = os.OpenFile(os.DevNull, os.O_WRONLY, 0)
	handler = echo.NewDefaultEchoGoTSRPCProxy(&rec.Echo{Rec: rr})
	depth := 1
	if r.Thorough {
		depth = 3
	}
	ck := func(name, key string, replay any, f func() error) {
		if r.Expired() {
			return
		}
		r.State(name)
		r.Trace(1)
		r.Check(name, key, replay, f)
	}
	first := func(ts []reflect.Type, seed int) (out []reflect.Value) {
		for i, t := range ts {
			out = append(out, lib.Distinct(t, seed+i, 3))
		}
		return
	}

	// 1. every label x method x result values, one varied at a time
	for _, l := range labels {
		for _, m := range lib.Methods(typ) {
			var alpha [][]reflect.Value
			for i, t := range m.Rets {
				alpha = append(alpha, lib.Values(t, 51+i, lib.Opt{Enc: l.enc, Depth: depth, Big: r.Thorough || l.ct == ctMsg || l.ct == ctJSON}))
			}
			args := first(m.Args, 3)
			var body []byte
			if len(args) > 0 {
				body = encode(lib.List(args), l.enc)
			}
			n := 0
			lib.Explore(1, r.Expired, func(c *lib.Chooser) {
				rets := make([]reflect.Value, len(alpha))
				for i := range alpha {
					rets[i] = alpha[i][c.Pick(len(alpha[i]))]
				}
				n++
				ck(fmt.Sprintf("%q %s %d", l.ct, m.Name, n), "reply:"+l.enc.String(), map[string]any{"label": l.ct, "method": m.Name, "results": lib.ShowAll(rets)}, func() error {
					script(rets)
					return checkReply(lib.Raw(handler, "POST", "/echo/"+m.Name, l.ct, body, nil), l.enc, rets)
				})
			})
		}
	}

	// 2. headers that must not matter, and labels a raw method set before
	for _, l := range labels {
		for _, hdr := range []http.Header{
			{"Accept": {ctMsg}}, {"Accept": {ctJSON}}, {"Accept": {"text/html"}}, {"X-Foomo-S2s": {"true"}}, {"Accept-Encoding": {"gzip"}}, {"Accept": {ctMsg}, "User-Agent": {"Mozilla"}, "Origin": {"http://x"}},
		} {
			for _, name := range []string{"Nothing", "One", "Mixed", "RawArgs", "Raw"} {
				m := method(name)
				for _, pre := range []http.Header{nil, {"Content-Type": {"text/html"}}, {"Content-Type": {ctJSON}, "Content-Length": {"3"}}, {"Content-Type": {ctMsg}, "X-Own": {"1"}}} {
					if pre != nil && !m.HTTP {
						continue
					}
					ck(fmt.Sprintf("%q %s %v %v", l.ct, name, hdr, pre), "headers", map[string]any{"label": l.ct, "request headers": hdr, "headers set by the method": pre}, func() error {
						args, rets := first(m.Args, 3), first(m.Rets, 60)
						var body []byte
						if len(args) > 0 {
							body = encode(lib.List(args), l.enc)
						}
						rr.Script = func(_, _ string, a []any) []any {
							for k, v := range pre {
								a[0].(http.ResponseWriter).Header()[k] = append([]string(nil), v...)
							}
							return lib.Anys(rets)
						}
						rec := lib.Raw(handler, "POST", "/echo/"+name, l.ct, body, hdr)
						if v := pre.Get("X-Own"); v != "" && rec.Sent.Get("X-Own") != v {
							return fmt.Errorf("header set by the method is lost")
						}
						return checkReply(rec, l.enc, rets)
					})
				}
			}
		}
	}

	// 3. histories: the encoding of a reply depends on its own request only
	type op struct {
		name string
		do   func() error
	}
	var ops []op
	for _, l := range labels[:5] {
		for _, name := range []string{"Nothing", "Mixed"} {
			m := method(name)
			args, rets := first(m.Args, 5), first(m.Rets, 70)
			var body []byte
			if len(args) > 0 {
				body = encode(lib.List(args), l.enc)
			}
			ops = append(ops, op{name + " " + l.ct, func() error {
				script(rets)
				return checkReply(lib.Raw(handler, "POST", "/echo/"+name, l.ct, body, nil), l.enc, rets)
			}})
		}
	}
	ops = append(ops, op{"refused", func() error {
		rec := lib.Raw(handler, "POST", "/echo/Mixed", ctMsg, []byte{0xff}, nil)
		if rec.Status != 400 {
			return fmt.Errorf("status %d", rec.Status)
		}
		return nil
	}}, op{"unknown", func() error {
		rec := lib.Raw(handler, "POST", "/echo/None", ctMsg, []byte{0xff}, nil)
		if rec.Status != 404 {
			return fmt.Errorf("status %d", rec.Status)
		}
		return nil
	}}, op{"unencodable", func() error {
		rr.Script = func(_, _ string, _ []any) []any { return []any{unsafe.Pointer(rr)} }
		rec := lib.Raw(handler, "POST", "/echo/Any", ctJSON, []byte("[1]"), nil)
		if rec.Status == 200 {
			return fmt.Errorf("status 200 for a result that cannot be encoded: %s", rec.Body.String())
		}
		return nil
	}})
	n := 3
	if r.Thorough {
		n = 4
	}
	seq := make([]int, n)
	var walk func(i int)
	walk = func(i int) {
		if i == n {
			name := "history"
			for _, k := range seq {
				name += " > " + ops[k].name
			}
			ck(name, "history", map[string]any{"history": name}, func() error {
				for j, k := range seq {
					if err := ops[k].do(); err != nil {
						return fmt.Errorf("step %d: %w", j, err)
					}
				}
				return nil
			})
			return
		}
		for k := range ops {
			seq[i] = k
			walk(i + 1)
		}
	}
	walk(0)

	// 4. the client decodes by what the reply declares, whatever it sent
	for _, m := range lib.Methods(typ) {
		for _, sent := range []lib.Enc{lib.Msgpack, lib.JSON} {
			for _, l := range labels {
				if l.ct == "" {
					continue
				}
				ck(fmt.Sprintf("client %s sends %s gets %q", m.Name, sent, l.ct), "client-decode:"+l.enc.String(), map[string]any{"method": m.Name, "sent": sent.String(), "reply label": l.ct}, func() error {
					rets := first(m.Rets, 80)
					body := encode(lib.List(rets), l.enc)
					c := echo.NewEchoGoTSRPCClientWithClient("http://svc.test", "/echo", &http.Client{Transport: rtf(func(req *http.Request) (*http.Response, error) {
						want := ctMsg
						if sent == lib.JSON {
							want = ctJSON
						}
						if got := req.Header.Get("Content-Type"); lib.MediaType(got) != lib.MediaType(want) {
							return nil, fmt.Errorf("request labelled %q", got)
						}
						b, _ := io.ReadAll(req.Body)
						if len(b) > 0 {
							if _, err := decode(b, sent); err != nil {
								return nil, fmt.Errorf("request body is not %s", sent)
							}
						}
						return &http.Response{StatusCode: 200, Proto: "HTTP/1.1", ProtoMajor: 1, ProtoMinor: 1, Header: http.Header{"Content-Type": {l.ct}}, Body: io.NopCloser(bytes.NewReader(body)), ContentLength: int64(len(body)), Request: req}, nil
					})})
					if sent == lib.JSON {
						c.Client.SetClientEncoding(gotsrpc.EncodingJson)
					}
					got, cerr, err := lib.Invoke(c, m.Name, context.Background(), first(m.Args, 9))
					if err != nil || cerr != nil {
						return fmt.Errorf("%v %v", err, cerr)
					}
					for i := range rets {
						if d := lib.Equal(rets[i], got[i], lib.EqOpt{}); d != "" {
							return fmt.Errorf("result %d: %s", i, d)
						}
					}
					return nil
				})
			}
		}
	}
	r.Sample(map[string]any{"label": "text/plain;charset=UTF-8", "expected": "JSON body labelled application/json with its exact length"})
	r.Note("labels", len(labels))
	r.Finish()
}

type rtf func(*http.Request) (*http.Response, error)

func (f rtf) RoundTrip(r *http.Request) (*http.Response, error) { return f(r) }
