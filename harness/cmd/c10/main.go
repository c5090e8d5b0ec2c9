package main

import (
	"context"
	"errors"
	"fmt"
	"io"
	"net/http"
	"os"
	"reflect"
	"strings"

	"example.com/vh/lib"
	"example.com/vh/rt"
	"example.com/vh/svc/echo"
	"example.com/vh/svc/echo/rec"
	gotsrpc "github.com/foomo/gotsrpc/v2"
)

var (
	rr      = &rt.Recorder{}
	handler http.Handler
)

// transport notes which HTTP client was used and what the request said.
type transport struct {
	id   int
	last *seenReq
	fail int
}

type seenReq struct {
	via    int
	header http.Header
	server http.Header
	url    string
	method string
	body   []byte
}

var seen []seenReq

func (t *transport) RoundTrip(req *http.Request) (*http.Response, error) {
	s := seenReq{via: t.id, header: req.Header.Clone(), url: req.URL.String(), method: req.Method}
	w := &lib.Wire{Handler: http.HandlerFunc(func(w http.ResponseWriter, r *http.Request) {
		s.server = r.Header.Clone()
		b, _ := io.ReadAll(r.Body)
		s.body = b
		r.Body = io.NopCloser(strings.NewReader(string(b)))
		handler.ServeHTTP(w, r)
	})}
	resp, err := w.RoundTrip(req)
	seen = append(seen, s)
	return resp, err
}

// model state of one client
type state struct {
	enc  int // 0 msgpack, 1 JSON
	via  int
	hdr  int
	base string
}

var headerSets = []struct {
	name string
	make func() http.Header
}{
	{"nil", func() http.Header { return nil }},
	{"empty", func() http.Header { return http.Header{} }},
	{"one", func() http.Header { return http.Header{"X-A": {"1"}} }},
	{"other", func() http.Header { return http.Header{"X-B": {"2", "3"}, "Authorization": {"Bearer t"}} }},
	{"contrary", func() http.Header {
		return http.Header{"Content-Type": {"text/plain", "a/b"}, "Accept": {"*/*"}, "X-Foomo-S2s": {"false"}, "X-A": {"9"}}
	}},
	{"uncanonical", func() http.Header { return http.Header{"content-type": {"text/plain"}, "x-raw": {"r"}} }},
}

type world struct {
	clients []*echo.HTTPEchoGoTSRPCClient
	model   []state
	given   []struct {
		set int
		h   http.Header
	}
	factory int
}

func hc(id int) *http.Client { return &http.Client{Transport: &transport{id: id}} }

func newWorld() *world {
	w := &world{factory: 9}
	gotsrpc.SetDefaultHttpClientFactory(func() *http.Client { return hc(9) })
	for i := 0; i < 2; i++ {
		w.clients = append(w.clients, echo.NewEchoGoTSRPCClientWithClient("http://svc.test", "/echo", hc(i)))
		w.model = append(w.model, state{via: i})
	}
	return w
}

func (w *world) call(i int, method string) error {
	c, m := w.clients[i], w.model[i]
	seen = nil
	rr.Take()
	rr.Script = func(_, name string, _ []any) []any {
		if name == "One" {
			return []any{41}
		}
		return nil
	}
	switch method {
	case "One":
		n, cerr := c.One(context.Background(), 1234)
		if cerr != nil || n != 41 {
			return fmt.Errorf("call: %d %v", n, cerr)
		}
		calls := rr.Take()
		if len(calls) != 1 || calls[0].Args[0] != 1234 {
			return fmt.Errorf("service saw %v", calls)
		}
	case "Nothing":
		if cerr := c.Nothing(context.Background()); cerr != nil {
			return fmt.Errorf("call: %v", cerr)
		}
	case "unknown": // fails with 404
		if err := c.Client.Call(context.Background(), "http://svc.test", "/echo", "Nope", []interface{}{1}, []interface{}{new(int)}); err == nil {
			return errors.New("unknown method succeeded")
		}
	case "unsent": // fails before it is sent
		if err := c.Client.Call(context.Background(), "http://bad host", "/echo", "One", []interface{}{1}, []interface{}{new(int)}); err == nil {
			return errors.New("bad URL succeeded")
		}
		return nil
	}
	if len(seen) != 1 {
		return fmt.Errorf("%d requests sent", len(seen))
	}
	s := seen[0]
	if s.via != m.via {
		return fmt.Errorf("client %d: sent through HTTP client %d, want %d", i, s.via, m.via)
	}
	ct := []string{"application/msgpack", "application/json"}[m.enc]
	want := http.Header{}
	for k, v := range headerSets[m.hdr].make() {
		want[k] = v
	}
	for _, k := range []string{"Content-Type", "Accept"} {
		if v := s.header[k]; len(v) != 1 || lib.MediaType(v[0]) != ct {
			return fmt.Errorf("client %d: %s is %q, want %s", i, k, v, ct)
		}
		if v := s.server.Get(k); lib.MediaType(v) != ct {
			return fmt.Errorf("client %d: the server reads %s as %q, want %s", i, k, v, ct)
		}
		want[k] = s.header[k]
	}
	want["X-Foomo-S2s"] = []string{"true"}
	if !reflect.DeepEqual(s.header, want) {
		return fmt.Errorf("client %d: headers %v, want %v", i, s.header, want)
	}
	if s.server.Get("X-Foomo-S2s") != "true" {
		return fmt.Errorf("client %d: not marked as service-to-service", i)
	}
	if method == "One" {
		exp := "\x91\xcd\x04\xd2"
		if m.enc == 1 {
			exp = "[1234]"
		}
		if strings.TrimSpace(string(s.body)) != exp && !(m.enc == 0 && sameMsg(s.body, exp)) {
			return fmt.Errorf("client %d: body %q, want %q", i, s.body, exp)
		}
	}
	// calls never modify what the user gave
	for _, g := range w.given {
		if !reflect.DeepEqual(g.h, headerSets[g.set].make()) {
			return fmt.Errorf("the given header set %s was changed to %v", headerSets[g.set].name, g.h)
		}
	}
	return nil
}

func sameMsg(b []byte, exp string) bool {
	v, err := lib.DecMsgpack(b)
	e, _ := lib.DecMsgpack([]byte(exp))
	return err == nil && reflect.DeepEqual(v, e)
}

type op struct {
	name string
	do   func(w *world) error
}

func main() {
	r := lib.Start()
	os.Stderr, _ = os.OpenFile(os.DevNull, os.O_WRONLY, 0)
	handler = echo.NewDefaultEchoGoTSRPCProxy(&rec.Echo{Rec: rr})
	var ops []op
	for i := 0; i < 2; i++ {
		i := i
		for e, enc := range []gotsrpc.ClientEncoding{gotsrpc.EncodingMsgpack, gotsrpc.EncodingJson} {
			e, enc := e, enc
			ops = append(ops, op{fmt.Sprintf("enc%d=%d", i, e), func(w *world) error {
				w.clients[i].Client.SetClientEncoding(enc)
				w.model[i].enc = e
				return nil
			}})
		}
		for _, id := range []int{5, 6} {
			id := id
			if i == 1 && id == 6 {
				continue
			}
			ops = append(ops, op{fmt.Sprintf("http%d=%d", i, id), func(w *world) error {
				w.clients[i].Client.SetTransportHttpClient(hc(id))
				w.model[i].via = id
				return nil
			}})
		}
		for k := range headerSets {
			k := k
			if i == 1 && (k == 1 || k == 5) {
				continue
			}
			ops = append(ops, op{fmt.Sprintf("headers%d=%s", i, headerSets[k].name), func(w *world) error {
				h := headerSets[k].make()
				w.clients[i].Client.SetDefaultHeaders(h)
				w.given = append(w.given, struct {
					set int
					h   http.Header
				}{k, h})
				w.model[i].hdr = k
				return nil
			}})
		}
		for _, m := range []string{"One", "Nothing", "unknown", "unsent"} {
			m := m
			if i == 1 && m != "One" {
				continue
			}
			ops = append(ops, op{fmt.Sprintf("call%d.%s", i, m), func(w *world) error { return w.call(i, m) }})
		}
	}
	// both clients given the same header set, and a new client from the default factory
	ops = append(ops, op{"shared headers", func(w *world) error {
		h := headerSets[3].make()
		for i := range w.clients {
			w.clients[i].Client.SetDefaultHeaders(h)
			w.model[i].hdr = 3
		}
		w.given = append(w.given, struct {
			set int
			h   http.Header
		}{3, h})
		return nil
	}})
	// both clients created over the same HTTP client
	ops = append(ops, op{"shared http", func(w *world) error {
		h := hc(4)
		for i := range w.clients {
			w.clients[i] = echo.NewEchoGoTSRPCClientWithClient("http://svc.test", "/echo", h)
			w.model[i] = state{via: 4}
		}
		return nil
	}})
	ops = append(ops, op{"factory=7", func(w *world) error {
		h := hc(7) // one for all
		gotsrpc.SetDefaultHttpClientFactory(func() *http.Client { return h })
		w.factory = 7
		return nil
	}})
	for k, mk := range []func() *echo.HTTPEchoGoTSRPCClient{
		func() *echo.HTTPEchoGoTSRPCClient { return echo.NewEchoGoTSRPCClient("http://svc.test", "/echo") },
		func() *echo.HTTPEchoGoTSRPCClient { return echo.NewDefaultEchoGoTSRPCClient("http://svc.test") },
		func() *echo.HTTPEchoGoTSRPCClient {
			c := echo.NewDefaultEchoGoTSRPCClient("http://svc.test")
			c.Client = gotsrpc.NewClient()
			return c
		},
	} {
		mk := mk
		ops = append(ops, op{fmt.Sprintf("new client %d", k), func(w *world) error {
			w.clients[1] = mk()
			w.model[1] = state{via: w.factory}
			return nil
		}})
	}

	depth := 4
	if r.Thorough {
		depth = 5
	}
	// every sequence up to depth, each followed by a call on both clients
	seq := make([]int, 0, depth)
	var walk func()
	walk = func() {
		if r.Expired() {
			return
		}
		var sb strings.Builder
		for _, k := range seq {
			sb.WriteString(ops[k].name)
			sb.WriteString(" > ")
		}
		name := sb.String() + "call both"
		key := "settings"
		if len(seq) > 0 {
			key = "settings:" + strings.SplitN(ops[seq[len(seq)-1]].name, "=", 2)[0]
		}
		r.Trace(1)
		r.Check(name, key, map[string]any{"sequence": name}, func() error {
			w := newWorld()
			for j, k := range seq {
				if err := ops[k].do(w); err != nil {
					return fmt.Errorf("step %d (%s): %w", j, ops[k].name, err)
				}
			}
			r.State(fmt.Sprint(w.model, w.factory))
			for i := range w.clients {
				if err := w.call(i, "One"); err != nil {
					return fmt.Errorf("final call: %w", err)
				}
			}
			return nil
		})
		r.Transition(len(seq) + 1)
		if len(seq) == depth {
			return
		}
		for k := range ops {
			if len(seq) == depth-1 && strings.HasPrefix(ops[k].name, "call") {
				continue // calls follow anyway
			}
			seq = append(seq, k)
			walk()
			seq = seq[:len(seq)-1]
		}
	}
	walk()
	r.Note("operations", len(ops))
	r.Note("sequence length", depth)
	r.Sample(map[string]any{"sequence": "headers0=contrary > enc0=1 > call0.One > headers0=nil > call both"})
	r.Finish()
}
