package main

import (
	"bufio"
	"bytes"
	"compress/gzip"
	"context"
	"errors"
	"fmt"
	"io"
	"net"
	"net/http"
	"net/url"
	"os"
	"reflect"
	"strings"
	"syscall"
	"time"

	"example.com/vh/lib"
	"example.com/vh/rt"
	"example.com/vh/svc/errs"
	"example.com/vh/svc/errs/rec"
	gotsrpc "github.com/foomo/gotsrpc/v2"
)

var (
	rr      = &rt.Recorder{}
	handler http.Handler
	typ     = reflect.TypeOf((*errs.Errs)(nil)).Elem()
)

const (
	ctJSON = "application/json; charset=utf-8"
	ctMsg  = "application/msgpack; charset=utf-8"
)

func client(base string, rtp http.RoundTripper, enc lib.Enc) *errs.HTTPErrsGoTSRPCClient {
	c := errs.NewErrsGoTSRPCClientWithClient(base, "/errs", &http.Client{Transport: rtp})
	if enc == lib.JSON {
		c.Client.SetClientEncoding(gotsrpc.EncodingJson)
	}
	return c
}

type rtFunc func(*http.Request) (*http.Response, error)

func (f rtFunc) RoundTrip(r *http.Request) (*http.Response, error) { return f(r) }

func method(name string) lib.Method {
	for _, m := range lib.Methods(typ) {
		if m.Name == name {
			return m
		}
	}
	panic(name)
}

func args(m lib.Method) (out []reflect.Value) {
	for i, t := range m.Args {
		out = append(out, lib.Distinct(t, i+1, 2))
	}
	return
}

func script(_, name string, _ []any) []any {
	switch name {
	case "Many":
		return []any{map[string]int{"k": 5}, "text", nil}
	case "One":
		return []any{77}
	case "WithResult":
		return []any{"", errs.ErrPlain}
	case "TypedPtrResult":
		return []any{3, &errs.Struct{Code: 7, Text: "x"}}
	case "TypedScalarResult":
		return []any{3, errs.ScalarOne}
	}
	return nil
}

// isClientError requires a non-nil client error of the public type.
func isClientError(err error) error {
	if err == nil {
		return errors.New("the call reported success")
	}
	var ce *gotsrpc.ClientError
	if !errors.As(err, &ce) {
		return fmt.Errorf("not a *ClientError: %T %v", err, err)
	}
	if err.Error() == "" {
		return errors.New("client error without text")
	}
	return nil
}

func invoke(c any, ctx context.Context, m lib.Method) ([]reflect.Value, error, error) {
	return lib.Invoke(c, m.Name, ctx, args(m))
}

// exchange is one scripted exchange over the real http.Transport and an in-memory connection.
type exchange struct {
	readReq   int // bytes of the request the peer reads before acting; -1 all
	resp      []byte
	writeResp int  // bytes of the response it writes; -1 all
	after     byte // c close, r reset, h hang (until the client gives up)
	onHang    func()
}

type conn struct {
	net.Conn
	reset *bool
}

var errReset = &net.OpError{Op: "read", Net: "tcp", Err: os.NewSyscallError("read", syscall.ECONNRESET)}

func (c *conn) Read(b []byte) (int, error) {
	n, err := c.Conn.Read(b)
	if err != nil && *c.reset {
		err = errReset
	}
	return n, err
}

func (x *exchange) transport(wg chan struct{}) *http.Transport {
	return &http.Transport{DisableKeepAlives: true, DialContext: func(ctx context.Context, network, addr string) (net.Conn, error) {
		a, b := net.Pipe()
		reset := false
		go func() {
			defer close(wg)
			defer b.Close()
			br := bufio.NewReader(b)
			if x.readReq < 0 {
				req, err := http.ReadRequest(br)
				if err != nil {
					return
				}
				if _, err := io.Copy(io.Discard, req.Body); err != nil {
					return
				}
			} else if _, err := io.CopyN(io.Discard, b, int64(x.readReq)); err != nil {
				return
			} else {
				return
			}
			w := x.resp
			if x.writeResp >= 0 {
				w = w[:x.writeResp]
			}
			if len(w) > 0 {
				if _, err := b.Write(w); err != nil {
					return
				}
			}
			switch x.after {
			case 'r':
				reset = true
			case 'h':
				x.onHang()
				_, _ = b.Read(make([]byte, 1)) // until the client closes
			}
		}()
		return &conn{a, &reset}, nil
	}}
}

func wireBytes(rec *lib.RespRec, mode string) []byte {
	var b bytes.Buffer
	fmt.Fprintf(&b, "HTTP/1.1 %d %s\r\n", rec.Status, http.StatusText(rec.Status))
	h := rec.Sent.Clone()
	body := rec.Body.Bytes()
	switch mode {
	case "length":
		h.Set("Content-Length", fmt.Sprint(len(body)))
	case "chunked":
		h.Del("Content-Length")
		h.Set("Transfer-Encoding", "chunked")
		var c bytes.Buffer
		for i := 0; i < len(body); i += 5 {
			e := min(i+5, len(body))
			fmt.Fprintf(&c, "%x\r\n%s\r\n", e-i, body[i:e])
		}
		c.WriteString("0\r\n\r\n")
		body = c.Bytes()
	case "close":
		h.Del("Content-Length")
	case "gzip":
		var c bytes.Buffer
		zw := gzip.NewWriter(&c)
		_, _ = zw.Write(body)
		_ = zw.Close()
		body = c.Bytes()
		h.Set("Content-Encoding", "gzip")
		h.Del("Content-Length")
	}
	h.Set("Connection", "close")
	_ = h.Write(&b)
	b.WriteString("\r\n")
	b.Write(body)
	return b.Bytes()
}

func main() {
	r := lib.Start()
	os.Stderr, _ = os.OpenFile(os.DevNull, os.O_WRONLY, 0)
	rr.Script = script
	handler = errs.NewDefaultErrsGoTSRPCProxy(&rec.Errs{Rec: rr})
	names := []string{"Nothing", "One", "Many", "WithResult", "TypedPtrResult", "TypedScalarResult"}
	encs := []lib.Enc{lib.Msgpack, lib.JSON}
	ck := func(name, key string, replay any, f func() error) {
		if r.Expired() {
			return
		}
		r.State(name)
		r.Trace(1)
		r.Check(name, key, replay, f)
	}

	// 1. connection faults at every byte
	for _, n := range names {
		m := method(n)
		for _, enc := range encs {
			if enc == lib.JSON && (n == "WithResult" || n == "TypedPtrResult" || n == "TypedScalarResult") {
				continue // errors travel with msgpack only
			}
			var rec *lib.RespRec
			var raw []byte
			w := &lib.Wire{Handler: handler, Before: func(b []byte, _ *http.Request) { raw = b }, After: func(x *lib.RespRec) { rec = x }}
			if _, cerr, err := invoke(client("http://svc.test", w, enc), context.Background(), m); cerr != nil || err != nil {
				ck("plain call "+n, "plain", nil, func() error { return fmt.Errorf("client error %v %v", cerr, err) })
				continue
			}
			for _, mode := range []string{"length", "chunked", "close", "gzip"} {
				resp := wireBytes(rec, mode)
				run := func(x *exchange, ctx context.Context) error {
					wg := make(chan struct{})
					_, cerr, err := invoke(client("http://svc.test", x.transport(wg), enc), ctx, m)
					if err != nil {
						return err
					}
					<-wg
					return cerr
				}
				ck(fmt.Sprintf("%s %s %s complete", n, enc, mode), "complete", nil, func() error {
					return run(&exchange{readReq: -1, resp: resp, writeResp: -1, after: 'c'}, context.Background())
				})
				step := 1
				for k := 0; k < len(resp); k += step {
					kinds := "cr"
					for _, a := range kinds {
						if a == 'r' && mode != "length" && mode != "close" {
							continue
						}
						ck(fmt.Sprintf("%s %s %s response cut after %d/%d (%c)", n, enc, mode, k, len(resp), a), "cut-response:"+mode, map[string]any{"method": n, "encoding": enc.String(), "mode": mode, "cut": k, "response": string(resp)}, func() error {
							err := run(&exchange{readReq: -1, resp: resp, writeResp: k, after: byte(a)}, context.Background())
							if e := isClientError(err); e != nil {
								return e
							}
							if a == 'r' && k >= bytes.Index(resp, []byte("\r\n\r\n"))+4 && !errors.Is(err, syscall.ECONNRESET) {
								return fmt.Errorf("the network error is not recognisable: %v", err)
							}
							if a == 'c' && k > len(resp)-rec.Body.Len() && mode == "length" && !errors.Is(err, io.ErrUnexpectedEOF) {
								return fmt.Errorf("the unexpected end is not recognisable: %v", err)
							}
							return nil
						})
					}
					if mode == "chunked" || mode == "gzip" {
						continue
					}
					// cancelled, expired, timed out after k bytes
					for _, why := range []string{"cancel", "deadline", "timeout"} {
						if why == "timeout" && (k%16 != 0 || mode != "length") {
							continue
						}
						ck(fmt.Sprintf("%s %s %s %s after %d/%d", n, enc, mode, why, k, len(resp)), "context:"+why, map[string]any{"method": n, "encoding": enc.String(), "why": why, "after": k}, func() error {
							ctx, end := newCtx(why)
							x := &exchange{readReq: -1, resp: resp, writeResp: k, after: 'h', onHang: end}
							wg := make(chan struct{})
							c := client("http://svc.test", x.transport(wg), enc)
							if why == "timeout" {
								c.Client.SetTransportHttpClient(&http.Client{Transport: x.transport(wg), Timeout: 20 * time.Millisecond})
							}
							_, cerr, err := invoke(c, ctx, m)
							if err != nil {
								return err
							}
							if e := isClientError(cerr); e != nil {
								return e
							}
							return ctxCause(why, cerr)
						})
					}
				}
			}
			for k := 0; k < len(raw); k++ {
				ck(fmt.Sprintf("%s %s request cut after %d/%d", n, enc, k, len(raw)), "cut-request", map[string]any{"method": n, "encoding": enc.String(), "cut": k}, func() error {
					wg := make(chan struct{})
					x := &exchange{readReq: k}
					_, cerr, err := invoke(client("http://svc.test", x.transport(wg), enc), context.Background(), m)
					if err != nil {
						return err
					}
					<-wg
					return isClientError(cerr)
				})
			}
		}
	}

	// 2. every status, several bodies and labels, answered by a scripted transport
	var replies = map[lib.Enc]map[string][]byte{}
	for _, enc := range encs {
		replies[enc] = map[string][]byte{}
		for _, n := range names {
			m := method(n)
			w := &lib.Wire{Handler: handler, After: func(x *lib.RespRec) { replies[enc][n] = append([]byte(nil), x.Body.Bytes()...) }}
			_, _, _ = invoke(client("http://svc.test", w, enc), context.Background(), m)
		}
	}
	answer := func(status int, ct string, body []byte) rtFunc {
		return func(req *http.Request) (*http.Response, error) {
			_, _ = io.Copy(io.Discard, req.Body)
			h := http.Header{}
			if ct != "-" {
				h.Set("Content-Type", ct)
			}
			return &http.Response{StatusCode: status, Status: fmt.Sprint(status), Proto: "HTTP/1.1", ProtoMajor: 1, ProtoMinor: 1, Header: h, Body: io.NopCloser(bytes.NewReader(body)), ContentLength: int64(len(body)), Request: req}, nil
		}
	}
	for status := 100; status <= 999; status++ {
		if status == 200 || (status > 620 && status%50 != 0) {
			continue
		}
		for _, n := range []string{"Nothing", "One", "Many"} {
			for _, enc := range encs {
				texts := []string{"", "method not found\n", "<html>\u00e4 % {} [0]</html>", string(replies[enc][n])}
				for ti, text := range texts {
					for _, ct := range []string{"text/plain; charset=utf-8", ctMsg, ctJSON, "-"} {
						ck(fmt.Sprintf("%s %s status %d body %d type %s", n, enc, status, ti, ct), "status", map[string]any{"method": n, "status": status, "body": text, "type": ct}, func() error {
							_, cerr, err := invoke(client("http://svc.test", answer(status, ct, []byte(text)), enc), context.Background(), method(n))
							if err != nil {
								return err
							}
							if e := isClientError(cerr); e != nil {
								return e
							}
							var he *gotsrpc.HTTPError
							if !errors.As(cerr, &he) {
								return fmt.Errorf("no *HTTPError in %v", cerr)
							}
							if he.StatusCode != status {
								return fmt.Errorf("status code %d reported as %d", status, he.StatusCode)
							}
							if !strings.Contains(he.Error(), text) || !strings.Contains(cerr.Error(), text) {
								return fmt.Errorf("body text %q missing from %q", text, he.Error())
							}
							if he.Body != text {
								return fmt.Errorf("body %q reported as %q", text, he.Body)
							}
							return nil
						})
					}
				}
			}
		}
	}

	// bodies of every length around the powers of two
	for k := 3; k <= 20; k++ {
		for d := -1; d <= 1; d++ {
			text := strings.Repeat("0123456789ab de\n", 1<<k/16+1)[:1<<k+d]
			for _, status := range []int{400, 404, 500, 503} {
				for _, enc := range encs {
					ck(fmt.Sprintf("One %s status %d body of %d", enc, status, len(text)), "status:long", map[string]any{"status": status, "length": len(text)}, func() error {
						_, cerr, err := invoke(client("http://svc.test", answer(status, "text/plain", []byte(text)), enc), context.Background(), method("One"))
						if err != nil {
							return err
						}
						if e := isClientError(cerr); e != nil {
							return e
						}
						var he *gotsrpc.HTTPError
						if !errors.As(cerr, &he) || he.StatusCode != status {
							return fmt.Errorf("status code %d reported as %+v", status, he)
						}
						if he.Body != text || !strings.Contains(cerr.Error(), text) {
							return fmt.Errorf("body of %d reported as one of %d", len(text), len(he.Body))
						}
						return nil
					})
				}
			}
		}
	}

	// 3. 200 with a body that is not a complete decodable reply
	for _, n := range names {
		for _, enc := range encs {
			if enc == lib.JSON && (n == "WithResult" || n == "TypedPtrResult" || n == "TypedScalarResult") {
				continue
			}
			full := replies[enc][n]
			ct := ctMsg
			if enc == lib.JSON {
				ct = ctJSON
			}
			bad := func(why string, ct string, body []byte) {
				for _, ce := range encs {
					ck(fmt.Sprintf("%s %s->%s 200 %s %q", n, ce, ct, why, body), "undecodable:"+why, map[string]any{"method": n, "type": ct, "body": fmt.Sprintf("%q", body)}, func() error {
						_, cerr, err := invoke(client("http://svc.test", answer(200, ct, body), ce), context.Background(), method(n))
						if err != nil {
							return err
						}
						return isClientError(cerr)
					})
				}
			}
			for k := 0; k < len(full); k++ {
				bad("truncated", ct, full[:k])
			}
			bad("html", "text/html", []byte("<html>login</html>"))
			bad("html", ct, []byte("<html>login</html>"))
			bad("text", ct, []byte("ok"))
			bad("scalar", ctJSON, []byte("12"))
			bad("scalar", ctJSON, []byte(`"x"`))
			bad("scalar", ctMsg, []byte{0x05})
			bad("scalar", ctMsg, []byte{0xc3})
			bad("empty", ctJSON, nil)
			bad("empty", ctMsg, nil)
			bad("empty", "-", nil)
			if enc == lib.JSON {
				bad("mislabelled", ctMsg, full)
			} else {
				bad("mislabelled", ctJSON, full)
				bad("mislabelled", "-", full)
				bad("mislabelled", "text/plain", full)
			}
			switch n {
			case "One":
				bad("mismatch", ctJSON, []byte(`["x"]`))
				bad("mismatch", ctJSON, []byte(`[{}]`))
				bad("mismatch", ctMsg, []byte{0x91, 0xa1, 'x'})
				bad("mismatch", ctMsg, []byte{0x91, 0x80})
			case "Many":
				bad("mismatch", ctJSON, []byte(`[5,"x",null]`))
				bad("mismatch", ctJSON, []byte(`[{"k":"v"},"x",null]`))
				bad("mismatch", ctMsg, []byte{0x93, 0x05, 0xa1, 'x', 0xc0})
				bad("mismatch", ctMsg, []byte{0x93, 0xc0, 0xa1, 'x', 0xa1, 'y'})
			}
		}
	}

	// the data of a typed error does not fit its type
	for _, n := range []string{"TypedPtr", "TypedPtrResult", "TypedScalar", "TypedScalarResult", "TypedScalarPtr", "TypedCode", "TypedValue"} {
		m := method(n)
		for di, data := range []any{"text", 5, 1.5, []any{1, "x"}, []any{map[string]any{}}, map[string]any{"Code": "x", "Num": "x"}, map[string]any{"Text": []any{1}, "Name": map[string]any{"a": 1}}, true} {
			e := &gotsrpc.Error{Msg: "m", Pkg: "p", Type: "t", Data: data}
			reply := []any{e}
			if len(m.Rets) == 2 {
				reply = []any{5, e}
			}
			et := m.Rets[len(m.Rets)-1]
			// what the data may be decoded to by itself
			var b []byte
			if err := gotsrpc.NewMSGPackEncoderBytes(&b).Encode(data); err != nil {
				panic(err)
			}
			if gotsrpc.NewMSGPackDecoderBytes(b).Decode(reflect.New(et).Interface()) == nil {
				continue
			}
			var body []byte
			if err := gotsrpc.NewMSGPackEncoderBytes(&body).Encode(reply); err != nil {
				panic(err)
			}
			for _, ce := range encs {
				ck(fmt.Sprintf("%s %s typed error with data %d", n, ce, di), "undecodable:error data", map[string]any{"method": n, "data": fmt.Sprint(data)}, func() error {
					_, cerr, err := invoke(client("http://svc.test", answer(200, ctMsg, body), ce), context.Background(), m)
					if err != nil {
						return err
					}
					return isClientError(cerr)
				})
			}
		}
	}

	// 4. the request cannot be built or sent
	type failCase struct {
		name string
		do   func(enc lib.Enc) (error, error)
		is   error
	}
	sentinel := errors.New("dial sentinel")
	dial := func(e error) func(enc lib.Enc) (error, error) {
		return func(enc lib.Enc) (error, error) {
			t := &http.Transport{DialContext: func(context.Context, string, string) (net.Conn, error) { return nil, e }}
			_, cerr, err := invoke(client("http://svc.test", t, enc), context.Background(), method("Many"))
			return cerr, err
		}
	}
	base := func(u string) func(enc lib.Enc) (error, error) {
		return func(enc lib.Enc) (error, error) {
			_, cerr, err := invoke(client(u, &lib.Wire{Handler: handler}, enc), context.Background(), method("Many"))
			return cerr, err
		}
	}
	ctxCase := func(ctx context.Context) func(enc lib.Enc) (error, error) {
		return func(enc lib.Enc) (error, error) {
			for _, t := range []http.RoundTripper{&lib.Wire{Handler: handler}, http.DefaultTransport} {
				_, cerr, err := invoke(client("http://127.0.0.1:1", t, enc), ctx, method("One"))
				if err != nil {
					return cerr, err
				}
				if e := isClientError(cerr); e != nil {
					return cerr, e
				}
				if t == http.DefaultTransport {
					return cerr, nil
				}
			}
			return nil, nil
		}
	}
	// arguments that cannot be encoded, whoever answers
	answered := func(a ...any) func(enc lib.Enc) (error, error) {
		return func(enc lib.Enc) (error, error) {
			ct := ctMsg
			if enc == lib.JSON {
				ct = ctJSON
			}
			c := client("http://svc.test", answer(200, ct, replies[enc]["One"]), enc)
			var n int
			return c.Client.Call(context.Background(), "http://svc.test", "/errs", "One", a, []any{&n}), nil
		}
	}
	raw := func(a []any, reply []any) func(enc lib.Enc) (error, error) {
		return func(enc lib.Enc) (error, error) {
			c := client("http://svc.test", &lib.Wire{Handler: handler}, enc)
			return c.Client.Call(context.Background(), "http://svc.test", "/errs", "One", a, reply), nil
		}
	}
	cctx, cancel := context.WithCancel(context.Background())
	cancel()
	cause, cancelCause := context.WithCancelCause(context.Background())
	cancelCause(errors.New("because"))
	dctx, cancel2 := context.WithDeadline(context.Background(), time.Unix(1, 0))
	defer cancel2()
	cases := []failCase{
		{"dial sentinel", dial(sentinel), sentinel},
		{"dial refused", dial(&net.OpError{Op: "dial", Net: "tcp", Err: os.NewSyscallError("connect", syscall.ECONNREFUSED)}), syscall.ECONNREFUSED},
		{"dial eof", dial(io.EOF), io.EOF},
		{"dial dns", dial(&net.DNSError{Err: "no such host", Name: "svc.test", IsNotFound: true}), nil},
		{"bad url", base("http://[::1"), nil},
		{"bad escape", base("http://svc.test/%zz"), nil},
		{"bad scheme", func(enc lib.Enc) (error, error) {
			_, cerr, err := invoke(client("ftp://svc.test", &http.Transport{}, enc), context.Background(), method("Many"))
			return cerr, err
		}, nil},
		{"no host", func(enc lib.Enc) (error, error) {
			_, cerr, err := invoke(client("http://", &http.Transport{}, enc), context.Background(), method("Many"))
			return cerr, err
		}, nil},
		{"control char", base("http://svc.test/\x7f"), nil},
		{"colon first", base(":"), nil},
		{"cancelled before", ctxCase(cctx), context.Canceled},
		{"cancelled with cause", ctxCase(cause), nil},
		{"expired before", ctxCase(dctx), context.DeadlineExceeded},
		{"transport nil response", func(enc lib.Enc) (error, error) {
			_, cerr, err := invoke(client("http://svc.test", rtFunc(func(*http.Request) (*http.Response, error) { return nil, sentinel }), enc), context.Background(), method("Nothing"))
			return cerr, err
		}, sentinel},
		{"body error at once", bodyErr(0), io.ErrUnexpectedEOF},
		{"body error later", bodyErr(2), io.ErrUnexpectedEOF},
		{"complex argument answered", answered(complex(1, 2)), nil},
		{"complex argument answered, later", answered("a", []int{1}, complex64(complex(1, 2))), nil},
		{"complex in a map answered", answered(map[string]any{"a": 1, "c": complex(1, 2)}), nil},
		{"complex in a struct answered", answered(1, struct{ C, D any }{1, []complex128{1, complex(1, 2)}}), nil},
		{"channel argument", raw([]any{make(chan int)}, []any{new(int)}), nil},
	}
	for _, c := range cases {
		for _, enc := range encs {
			ck(fmt.Sprintf("%s %s", c.name, enc), "send:"+c.name, map[string]any{"fault": c.name, "encoding": enc.String()}, func() error {
				rr.Take()
				cerr, err := c.do(enc)
				if err != nil {
					return err
				}
				if e := isClientError(cerr); e != nil {
					return e
				}
				if c.is != nil && !errors.Is(cerr, c.is) {
					return fmt.Errorf("cause %v not recognisable in %v", c.is, cerr)
				}
				var de *net.DNSError
				if c.name == "dial dns" && !errors.As(cerr, &de) {
					return fmt.Errorf("DNS error not recognisable in %v", cerr)
				}
				var oe *net.OpError
				if c.name == "dial refused" && !errors.As(cerr, &oe) {
					return fmt.Errorf("*net.OpError not recognisable in %v", cerr)
				}
				var ue *url.Error
				if strings.HasPrefix(c.name, "dial") && !errors.As(cerr, &ue) {
					return fmt.Errorf("*url.Error not recognisable in %v", cerr)
				}
				return nil
			})
		}
	}
	// 5. a failed exchange leaves the client usable: failure then success on the same client
	for _, enc := range encs {
		for k := 0; k < 6; k++ {
			ck(fmt.Sprintf("recover %s %d", enc, k), "recover", nil, func() error {
				n := 0
				good := &lib.Wire{Handler: handler}
				c := client("http://svc.test", rtFunc(func(req *http.Request) (*http.Response, error) {
					n++
					if n == 1 {
						switch k {
						case 0:
							return nil, sentinel
						case 1:
							return answer(500, ctMsg, []byte("x"))(req)
						case 2:
							return answer(200, ctMsg, []byte{0x91})(req)
						case 3:
							return answer(200, ctJSON, []byte(`[`))(req)
						case 4:
							return answer(404, "text/plain", []byte("gone"))(req)
						case 5:
							return answer(200, "-", nil)(req)
						}
					}
					return good.RoundTrip(req)
				}), enc)
				_, cerr, _ := invoke(c, context.Background(), method("One"))
				if e := isClientError(cerr); e != nil {
					return e
				}
				rets, cerr, err := invoke(c, context.Background(), method("One"))
				if err != nil || cerr != nil || rets[0].Int() != 77 {
					return fmt.Errorf("later call: %v %v %v", rets, cerr, err)
				}
				return nil
			})
		}
	}
	r.Sample(map[string]any{"faults": "response cut after k bytes, k = 0..len-1, for length/chunked/close/gzip framing"})
	r.Finish()
}

func bodyErr(n int) func(enc lib.Enc) (error, error) {
	return func(enc lib.Enc) (error, error) {
		w := &lib.Wire{Handler: handler, Mangle: func(resp *http.Response) {
			b, _ := io.ReadAll(resp.Body)
			if n < len(b) {
				b = b[:n]
			}
			resp.Body = io.NopCloser(io.MultiReader(bytes.NewReader(b), iotestErr{}))
		}}
		_, cerr, err := invoke(client("http://svc.test", w, enc), context.Background(), method("Many"))
		return cerr, err
	}
}

type iotestErr struct{}

func (iotestErr) Read([]byte) (int, error) { return 0, io.ErrUnexpectedEOF }

// expiring is a context whose deadline passes when the harness says so.
type expiring struct {
	context.Context
	done chan struct{}
}

func (e *expiring) Done() <-chan struct{} { return e.done }
func (e *expiring) Err() error {
	select {
	case <-e.done:
		return context.DeadlineExceeded
	default:
		return nil
	}
}

func newCtx(why string) (context.Context, func()) {
	switch why {
	case "cancel":
		return context.WithCancel(context.Background())
	case "deadline":
		e := &expiring{context.Background(), make(chan struct{})}
		return e, func() { close(e.done) }
	}
	return context.Background(), func() {}
}

func ctxCause(why string, err error) error {
	switch why {
	case "cancel":
		if !errors.Is(err, context.Canceled) {
			return fmt.Errorf("cancellation not recognisable: %v", err)
		}
	case "deadline":
		if !errors.Is(err, context.DeadlineExceeded) {
			return fmt.Errorf("expiry not recognisable: %v", err)
		}
	case "timeout":
		var ne net.Error
		if !errors.As(err, &ne) || !ne.Timeout() {
			return fmt.Errorf("timeout not recognisable: %v", err)
		}
	}
	return nil
}
