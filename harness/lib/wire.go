package lib

import (
	"bufio"
	"bytes"
	"context"
	"fmt"
	"io"
	"net/http"
	"reflect"
	"strconv"
)

// RespRec records what a handler writes, with net/http's semantics for headers and status.
type RespRec struct {
	H       http.Header
	Status  int
	Sent    http.Header // header snapshot at WriteHeader
	Body    bytes.Buffer
	Info    []int // 1xx statuses
	Extra   []int // superfluous WriteHeader calls
	FailAt  int   // if > 0, Write fails once the body would exceed FailAt-1 bytes
	Written bool
}

func NewRespRec() *RespRec { return &RespRec{H: http.Header{}} }

func (r *RespRec) Header() http.Header { return r.H }

func (r *RespRec) WriteHeader(s int) {
	if r.Written {
		r.Extra = append(r.Extra, s)
		return
	}
	if s >= 100 && s < 200 && s != 101 {
		r.Info = append(r.Info, s)
		return
	}
	r.Written = true
	r.Status = s
	r.Sent = r.H.Clone()
}

func (r *RespRec) Write(b []byte) (int, error) {
	if !r.Written {
		r.WriteHeader(200)
	}
	if r.FailAt > 0 && r.Body.Len()+len(b) > r.FailAt-1 {
		n := r.FailAt - 1 - r.Body.Len()
		if n < 0 {
			n = 0
		}
		r.Body.Write(b[:n])
		return n, io.ErrClosedPipe
	}
	return r.Body.Write(b)
}

func (r *RespRec) Flush() {
	if !r.Written {
		r.WriteHeader(200)
	}
}

// End completes the answer as net/http does when the handler returns.
func (r *RespRec) End() *RespRec {
	if !r.Written {
		r.WriteHeader(200)
	}
	return r
}

// Wire is an http.RoundTripper that serialises the request, parses it as a server would and runs the handler.
type Wire struct {
	Handler http.Handler
	Before  func(raw []byte, req *http.Request)
	After   func(rec *RespRec)
	Mangle  func(resp *http.Response)
}

func (w *Wire) RoundTrip(req *http.Request) (*http.Response, error) {
	if err := req.Context().Err(); err != nil {
		if req.Body != nil {
			req.Body.Close()
		}
		return nil, err
	}
	var buf bytes.Buffer
	if err := req.Write(&buf); err != nil {
		return nil, err
	}
	raw := append([]byte(nil), buf.Bytes()...)
	sreq, err := http.ReadRequest(bufio.NewReader(&buf))
	if err != nil {
		return nil, fmt.Errorf("server could not read request: %w", err)
	}
	sreq = sreq.WithContext(req.Context())
	sreq.RemoteAddr = "192.0.2.1:1234"
	if w.Before != nil {
		w.Before(raw, sreq)
	}
	rec := NewRespRec()
	w.Handler.ServeHTTP(rec, sreq)
	rec.End()
	if w.After != nil {
		w.After(rec)
	}
	resp := rec.Response(req)
	if w.Mangle != nil {
		w.Mangle(resp)
	}
	return resp, nil
}

// Response is the answer as a client would see it.
func (r *RespRec) Response(req *http.Request) *http.Response {
	body := append([]byte(nil), r.Body.Bytes()...)
	cl := int64(len(body))
	if s := r.Sent.Get("Content-Length"); s != "" {
		if n, err := strconv.ParseInt(s, 10, 64); err == nil {
			cl = n
		}
	}
	var rd io.Reader = bytes.NewReader(body)
	if cl > int64(len(body)) {
		rd = io.MultiReader(rd, errReader{io.ErrUnexpectedEOF})
	} else if cl < int64(len(body)) {
		rd = bytes.NewReader(body[:cl])
	}
	return &http.Response{
		Status: fmt.Sprintf("%d %s", r.Status, http.StatusText(r.Status)), StatusCode: r.Status, Proto: "HTTP/1.1", ProtoMajor: 1, ProtoMinor: 1,
		Header: r.Sent.Clone(), Body: io.NopCloser(rd), ContentLength: cl, Request: req,
	}
}

type errReader struct{ err error }

func (e errReader) Read([]byte) (int, error) { return 0, e.err }

// Raw builds a request as a server would receive it and runs the handler.
func Raw(h http.Handler, method, target, contentType string, body []byte, hdr http.Header) *RespRec {
	return RawCtx(context.Background(), h, method, target, contentType, body, hdr)
}

func RawCtx(ctx context.Context, h http.Handler, method, target, contentType string, body []byte, hdr http.Header) *RespRec {
	var buf bytes.Buffer
	fmt.Fprintf(&buf, "%s %s HTTP/1.1\r\nHost: x\r\n", method, target)
	if contentType != "" {
		fmt.Fprintf(&buf, "Content-Type: %s\r\n", contentType)
	}
	for k, vs := range hdr {
		for _, v := range vs {
			fmt.Fprintf(&buf, "%s: %s\r\n", k, v)
		}
	}
	switch {
	case hdr.Get("Transfer-Encoding") == "chunked":
		buf.WriteString("\r\n")
		for len(body) > 0 {
			n := (len(body) + 1) / 2
			fmt.Fprintf(&buf, "%x\r\n%s\r\n", n, body[:n])
			body = body[n:]
		}
		buf.WriteString("0\r\n\r\n")
	case body != nil:
		fmt.Fprintf(&buf, "Content-Length: %d\r\n\r\n", len(body))
		buf.Write(body)
	default:
		buf.WriteString("\r\n")
	}
	req, err := http.ReadRequest(bufio.NewReader(&buf))
	if err != nil {
		return nil
	}
	req = req.WithContext(ctx)
	req.RemoteAddr = "192.0.2.1:1234"
	rec := NewRespRec()
	h.ServeHTTP(rec, req)
	return rec.End()
}

// Invoke calls the named method of a generated client. The last result is the client error.
func Invoke(client any, method string, ctx context.Context, args []reflect.Value) (rets []reflect.Value, clientErr error, err error) {
	m := reflect.ValueOf(client).MethodByName(method)
	if !m.IsValid() {
		return nil, nil, fmt.Errorf("client has no method %s", method)
	}
	in := args
	if ctx != nil {
		in = append([]reflect.Value{reflect.ValueOf(ctx)}, args...)
	}
	t := m.Type()
	if t.NumIn() != len(in) {
		return nil, nil, fmt.Errorf("client method %s takes %d parameters, want %d", method, t.NumIn(), len(in))
	}
	for i := range in {
		if !in[i].Type().AssignableTo(t.In(i)) {
			return nil, nil, fmt.Errorf("client method %s parameter %d has type %s, want %s", method, i, t.In(i), in[i].Type())
		}
	}
	out := m.Call(in)
	if len(out) == 0 {
		return nil, nil, fmt.Errorf("client method %s returns nothing", method)
	}
	last := out[len(out)-1]
	if last.Kind() != reflect.Interface {
		return nil, nil, fmt.Errorf("client method %s: last result is %s", method, last.Type())
	}
	if !last.IsNil() {
		clientErr = last.Interface().(error)
	}
	return out[:len(out)-1], clientErr, nil
}

var (
	RespWriterType = reflect.TypeOf((*http.ResponseWriter)(nil)).Elem()
	RequestType    = reflect.TypeOf((*http.Request)(nil))
	CtxType        = reflect.TypeOf((*context.Context)(nil)).Elem()
	ErrorType      = reflect.TypeOf((*error)(nil)).Elem()
)

// Method describes one service method, from the service's own type.
type Method struct {
	Name string
	Args []reflect.Type // without the HTTP-only ones
	Rets []reflect.Type
	HTTP bool
}

// Methods lists the exported methods of a service: an interface type or a pointer-to-struct type.
func Methods(t reflect.Type) (ms []Method) {
	for i := 0; i < t.NumMethod(); i++ {
		m := t.Method(i)
		if m.PkgPath != "" {
			continue
		}
		mm := Method{Name: m.Name}
		off := 0
		if t.Kind() != reflect.Interface {
			off = 1
		}
		for j := off; j < m.Type.NumIn(); j++ {
			p := m.Type.In(j)
			if (j-off == 0 && p == RespWriterType) || (j-off == 1 && p == RequestType) {
				mm.HTTP = true
				continue
			}
			mm.Args = append(mm.Args, p)
		}
		for j := 0; j < m.Type.NumOut(); j++ {
			mm.Rets = append(mm.Rets, m.Type.Out(j))
		}
		ms = append(ms, mm)
	}
	return
}

// Anys unpacks reflect values.
func Anys(vs []reflect.Value) []any {
	out := make([]any, len(vs))
	for i, v := range vs {
		out[i] = v.Interface()
	}
	return out
}

// ShowAll renders a tuple.
func ShowAll(vs []reflect.Value) string {
	s := "("
	for i, v := range vs {
		if i > 0 {
			s += ", "
		}
		s += Show(v)
	}
	return s + ")"
}

func FullAll(vs []reflect.Value) string {
	s := "("
	for i, v := range vs {
		if i > 0 {
			s += ", "
		}
		s += Full(v)
	}
	return s + ")"
}
