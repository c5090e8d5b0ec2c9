package main

import (
	"errors"
	"fmt"
	"io"
	"net"
	"net/http"
	"os"
	"reflect"
	"strings"
	"sync"
	"time"

	"example.com/vh/lib"
	"example.com/vh/rt"
	"example.com/vh/svc/echo"
	echorec "example.com/vh/svc/echo/rec"
	"example.com/vh/svc/errs"
	errsrec "example.com/vh/svc/errs/rec"
	"example.com/vh/svc/grpc"
	grpcrec "example.com/vh/svc/grpc/rec"
	"example.com/vh/svc/grpc/twin"
	twinrec "example.com/vh/svc/grpc/twin/rec"
	"example.com/vh/svc/route"
	routerec "example.com/vh/svc/route/rec"
	gprom "github.com/foomo/gotsrpc/v2/prometheus"
	"github.com/prometheus/client_golang/prometheus"
	"github.com/prometheus/client_golang/prometheus/collectors"
	"github.com/valyala/gorpc"
)

const (
	ctJSON = "application/json; charset=utf-8"
	ctMsg  = "application/msgpack; charset=utf-8"
)

// ---- in-memory transport for gorpc

type memListener struct {
	ch     chan net.Conn
	closed chan struct{}
	once   sync.Once
}

var (
	memMu sync.Mutex
	mems  = map[string]*memListener{}
)

func (l *memListener) Init(addr string) error {
	memMu.Lock()
	defer memMu.Unlock()
	mems[addr] = l
	return nil
}

func (l *memListener) Accept() (io.ReadWriteCloser, string, error) {
	select {
	case c := <-l.ch:
		return c, "mem", nil
	case <-l.closed:
		return nil, "", errors.New("closed")
	}
}

func (l *memListener) Close() error         { l.once.Do(func() { close(l.closed) }); return nil }
func (l *memListener) ListenAddr() net.Addr { return &net.TCPAddr{} }

func memDial(addr string) (io.ReadWriteCloser, error) {
	memMu.Lock()
	l := mems[addr]
	memMu.Unlock()
	if l == nil {
		return nil, errors.New("nobody there")
	}
	a, b := net.Pipe()
	select {
	case l.ch <- b:
		return a, nil
	case <-l.closed:
		return nil, errors.New("closed")
	}
}

// ---- the model: what the metrics have to say

type key struct{ metric, pkg, svc, fn, typ string }

type sum struct {
	n      uint64
	lo, hi float64 // bounds of the sum
	open   bool    // the sum is not stated
}

var (
	rr    = &rt.Recorder{}
	model = map[key]*sum{}
)

func add(k key, lo, hi float64, open bool) {
	s := model[k]
	if s == nil {
		s = &sum{}
		model[k] = s
	}
	s.n++
	s.lo += lo
	s.hi += hi
	s.open = s.open || open
}

func gather() (map[key]sum, error) {
	fs, err := prometheus.DefaultGatherer.Gather()
	if err != nil {
		return nil, err
	}
	out := map[key]sum{}
	for _, f := range fs {
		for _, m := range f.Metric {
			k := key{metric: f.GetName()}
			for _, l := range m.Label {
				switch l.GetName() {
				case "package":
					k.pkg = l.GetValue()
				case "service":
					k.svc = l.GetValue()
				case "func":
					k.fn = l.GetValue()
				case "type":
					k.typ = l.GetValue()
				default:
					return nil, fmt.Errorf("metric %s has a label %s", k.metric, l.GetName())
				}
			}
			if m.Summary == nil {
				return nil, fmt.Errorf("metric %s is no summary", k.metric)
			}
			if k.metric == "gorpc_service_time_seconds" { // the method, however it is prefixed or suffixed
				k.fn = strings.TrimPrefix(strings.TrimSuffix(k.fn, "Request"), k.svc)
			}
			if _, ok := out[k]; ok {
				return nil, fmt.Errorf("two metrics for %v", k)
			}
			out[k] = sum{n: m.Summary.GetSampleCount(), lo: m.Summary.GetSampleSum()}
		}
	}
	return out, nil
}

func compare() error {
	got, err := gather()
	if err != nil {
		return err
	}
	for k, w := range model {
		g, ok := got[k]
		if !ok {
			return fmt.Errorf("no metric for %v, %d calls were made", k, w.n)
		}
		if g.n != w.n {
			return fmt.Errorf("%v counts %d calls, %d were made", k, g.n, w.n)
		}
		if slack := 1e-9 * (1 + w.hi); !w.open && (g.lo < w.lo-slack || g.lo > w.hi+slack) {
			return fmt.Errorf("%v sums up to %v, want %v to %v", k, g.lo, w.lo, w.hi)
		}
	}
	for k, g := range got {
		if _, ok := model[k]; !ok {
			return fmt.Errorf("%v counts %d calls that were not made", k, g.n)
		}
	}
	return nil
}

// settle compares, waiting for statistics that are reported after the reply.
func settle() (err error) {
	for end := time.Now().Add(3 * time.Second); ; time.Sleep(200 * time.Microsecond) {
		if err = compare(); err == nil || time.Now().After(end) {
			return
		}
	}
}

// ---- HTTP services

type target struct {
	pkg, name, endpoint string
	typ                 reflect.Type
	raw                 http.Handler
	hs                  []http.HandlerFunc // one for each time the service was instrumented
	next                int
}

func (t *target) ServeHTTP(w http.ResponseWriter, r *http.Request) {
	t.next++
	t.hs[t.next%len(t.hs)](w, r)
}

func (t *target) instrument() { t.hs = append(t.hs, gprom.InstrumentService(t.raw.ServeHTTP)) }

func (t *target) method(name string) lib.Method {
	for _, m := range lib.Methods(t.typ) {
		if m.Name == name {
			return m
		}
	}
	panic(name)
}

func targets() []*target {
	return []*target{
		{pkg: "example.com/vh/svc/echo", name: "Echo", endpoint: "/echo", typ: reflect.TypeOf((*echo.Echo)(nil)).Elem(), raw: echo.NewDefaultEchoGoTSRPCProxy(&echorec.Echo{Rec: rr})},
		{pkg: "example.com/vh/svc/echo", name: "Plain", endpoint: "/svc/plain", typ: reflect.TypeOf((*echo.Plain)(nil)), raw: echo.NewDefaultPlainGoTSRPCProxy(&echo.Plain{Rec: rr})},
		{pkg: "example.com/vh/svc/errs", name: "Errs", endpoint: "/errs", typ: reflect.TypeOf((*errs.Errs)(nil)).Elem(), raw: errs.NewDefaultErrsGoTSRPCProxy(&errsrec.Errs{Rec: rr})},
		{pkg: "example.com/vh/svc/route", name: "Route", endpoint: "/r", typ: reflect.TypeOf((*route.Route)(nil)).Elem(), raw: route.NewDefaultRouteGoTSRPCProxy(&routerec.Route{Rec: rr})},
		{pkg: "example.com/vh/svc/route", name: "Second", endpoint: "/r/Get", typ: reflect.TypeOf((*route.Second)(nil)).Elem(), raw: route.NewDefaultSecondGoTSRPCProxy(&routerec.Second{Rec: rr})},
		{pkg: "example.com/vh/svc/route", name: "Third", endpoint: "/custom", typ: reflect.TypeOf((*route.Third)(nil)).Elem(), raw: route.NewThirdGoTSRPCProxy(&routerec.Third{Rec: rr}, "/custom")},
	}
}

func distinct(ts []reflect.Type, seed int) (out []reflect.Value) {
	for i, t := range ts {
		out = append(out, lib.Distinct(t, seed+i, 3))
	}
	return
}

// account books one POST to a known method.
func (t *target) account(m string, req, resp int, sleep, total time.Duration) {
	size, tm := "gotsrpc_service_size_bytes", "gotsrpc_service_time_nanoseconds"
	add(key{size, t.pkg, t.name, m, "request"}, float64(req), float64(req), req < 0)
	add(key{size, t.pkg, t.name, m, "response"}, float64(resp), float64(resp), resp < 0)
	add(key{tm, t.pkg, t.name, m, "unmarshalling"}, 0, float64(total), false)
	add(key{tm, t.pkg, t.name, m, "execution"}, float64(sleep), float64(total), false)
	add(key{tm, t.pkg, t.name, m, "marshalling"}, 0, float64(total), false)
}

func (t *target) served(m lib.Method, ct string, seed int, rets []any, sleep time.Duration) error {
	if rets == nil {
		rets = lib.Anys(distinct(m.Rets, seed+20))
	}
	var body []byte
	if args := distinct(m.Args, seed); len(args) > 0 {
		if n := lib.List(args); ct == ctMsg {
			body = n.Msgpack(0)
		} else {
			body = []byte(n.JSONText(""))
		}
	}
	rr.Script = func(_, _ string, _ []any) []any {
		if sleep > 0 {
			time.Sleep(sleep)
		}
		return rets
	}
	rr.Take()
	start := time.Now()
	rec := lib.Raw(t, "POST", t.endpoint+"/"+m.Name, ct, body, nil)
	total := time.Since(start)
	if n := len(rr.Take()); n != 1 || rec.Status != 200 {
		return fmt.Errorf("%s.%s: status %d, %d invocations", t.name, m.Name, rec.Status, n)
	}
	req := len(body)
	if len(m.Args) == 0 {
		req = -1
	}
	t.account(m.Name, req, rec.Body.Len(), sleep, total)
	return nil
}

// ---- gorpc services

type rpc struct {
	pkg, name string
	client    any
	typ       reflect.Type
}

func (s *rpc) served(m lib.Method, seed int, sleep time.Duration) error {
	rets := distinct(m.Rets, seed+20)
	for i, t := range m.Rets {
		if t == lib.ErrorType {
			rets[i] = reflect.Zero(t)
		}
	}
	rr.Script = func(_, _ string, _ []any) []any {
		if sleep > 0 {
			time.Sleep(sleep)
		}
		return lib.Anys(rets)
	}
	rr.Take()
	start := time.Now()
	_, cerr, err := lib.Invoke(s.client, m.Name, nil, distinct(m.Args, seed))
	total := time.Since(start)
	if err == nil {
		err = cerr
	}
	if n := len(rr.Take()); err == nil && n != 1 {
		err = fmt.Errorf("%d invocations", n)
	}
	add(key{"gorpc_service_time_seconds", s.pkg, s.name, m.Name, "execution"}, sleep.Seconds(), total.Seconds(), false)
	return err
}

type op struct {
	name string
	do   func() error
}

func main() {
	r := lib.Start()
	os.Stderr, _ = os.OpenFile(os.DevNull, os.O_WRONLY, 0)
	prometheus.Unregister(collectors.NewGoCollector())
	prometheus.Unregister(collectors.NewProcessCollector(collectors.ProcessCollectorOpts{}))
	gorpc.SetErrorLogger(gorpc.NilErrorLogger)
	gorpc.VerifServer = func(s *gorpc.Server) {
		s.FlushDelay = -1
		s.Listener = &memListener{ch: make(chan net.Conn), closed: make(chan struct{})}
	}
	gorpc.VerifClient = func(c *gorpc.Client) { c.FlushDelay, c.Dial = -1, memDial }

	ts := targets()
	byName := map[string]*target{}
	rpcs := map[string]*rpc{}
	var order []*rpc
	failed := 0
	ck := func(name, k string, replay any, f func() error) bool {
		if r.Expired() || failed > 3 { // the counts are off from the first failure on
			return true
		}
		r.State(name)
		r.Trace(1)
		ok := r.Check(name, k, replay, f)
		if !ok {
			failed++
		}
		return ok
	}
	ok := ck("instrument every service of the process", "instrument", nil, func() error {
		for _, t := range ts {
			byName[t.name] = t
			t.instrument()
		}
		byName["Echo"].instrument() // the same service twice
		if got, err := gather(); err != nil || len(got) != 0 {
			return fmt.Errorf("metrics before any call: %v %v", got, err)
		}
		return nil
	})
	ok = ok && ck("instrument every gorpc service of the process", "instrument", nil, func() error {
		api := grpc.NewApiGoRPCProxy("mem:api", &grpcrec.Api{Rec: rr}, nil)
		api.SetCallStatsHandler(gprom.InstrumentGoRPCService())
		other := grpc.NewOtherGoRPCProxy("mem:other", &grpcrec.Other{Rec: rr}, nil)
		other.SetCallStatsHandler(gprom.InstrumentGoRPCService())
		tw := twin.NewApiGoRPCProxy("mem:twin", &twinrec.Api{Rec: rr}, nil)
		tw.SetCallStatsHandler(gprom.InstrumentGoRPCService())
		for _, p := range []interface{ Start() error }{api, other, tw} {
			if err := p.Start(); err != nil {
				return err
			}
		}
		ac, oc, tc := grpc.NewApiGoRPCClient("mem:api", nil), grpc.NewOtherGoRPCClient("mem:other", nil), twin.NewApiGoRPCClient("mem:twin", nil)
		ac.Start()
		oc.Start()
		tc.Start()
		rpcs["api"] = &rpc{"example.com/vh/svc/grpc", "Api", ac, reflect.TypeOf((*grpc.Api)(nil)).Elem()}
		rpcs["other"] = &rpc{"example.com/vh/svc/grpc", "Other", oc, reflect.TypeOf((*grpc.Other)(nil)).Elem()}
		rpcs["twin"] = &rpc{"example.com/vh/svc/grpc/twin", "Api", tc, reflect.TypeOf((*twin.Api)(nil)).Elem()}
		order = []*rpc{rpcs["api"], rpcs["other"], rpcs["twin"]}
		return nil
	})
	if !ok {
		r.Finish()
		return
	}

	// 1. every method of every service, in every encoding, several times
	for round := 0; round < 2; round++ {
		for _, t := range ts {
			for _, m := range lib.Methods(t.typ) {
				for _, ct := range []string{ctMsg, ctJSON} {
					rets := []any(nil)
					if t.name == "Errs" {
						rets = make([]any, len(m.Rets))
						for i, x := range m.Rets {
							rets[i] = reflect.Zero(x).Interface()
						}
					}
					ck(fmt.Sprintf("round %d %s.%s %s", round, t.name, m.Name, ct), "served", map[string]any{"service": t.name, "method": m.Name, "type": ct}, func() error {
						for i := 0; i <= round; i++ {
							if err := t.served(m, ct, i, rets, 0); err != nil {
								return err
							}
						}
						return compare()
					})
				}
			}
		}
		for _, s := range order {
			for _, m := range lib.Methods(s.typ) {
				if len(m.Args) > 0 && m.Args[0].Kind() == reflect.Interface {
					continue
				}
				refused := false
				for _, x := range append(append([]reflect.Type{}, m.Args...), m.Rets...) {
					refused = refused || (x.Kind() == reflect.Interface && x != lib.ErrorType)
				}
				if refused {
					continue
				}
				ck(fmt.Sprintf("round %d gorpc %s.%s.%s", round, s.pkg, s.name, m.Name), "gorpc", map[string]any{"service": s.pkg + "." + s.name, "method": m.Name}, func() error {
					for i := 0; i <= round; i++ {
						if err := s.served(m, i, 0); err != nil {
							return err
						}
					}
					return settle()
				})
			}
		}
		// instrumenting again keeps what was counted
		ck(fmt.Sprintf("instrument again %d", round), "instrument", nil, func() error {
			byName["Plain"].instrument()
			byName["Route"].instrument()
			gprom.InstrumentGoRPCService()
			return compare()
		})
	}

	// 2. all sequences over an alphabet of calls
	var ops []op
	call := func(svc, method, ct string, rets []any, sleep time.Duration) {
		t := byName[svc]
		m, seed := t.method(method), len(ops)
		ops = append(ops, op{fmt.Sprintf("%s.%s#%d", svc, method, seed), func() error { return t.served(m, ct, seed, rets, sleep) }})
	}
	raw := func(name string, t *target, verb, path, ct string, body []byte, status int, fn string) {
		ops = append(ops, op{name, func() error {
			rr.Script = nil
			start := time.Now()
			rec := lib.Raw(t, verb, path, ct, body, nil)
			if rec.Status != status {
				return fmt.Errorf("%s answered %d", name, rec.Status)
			}
			if fn != "" {
				t.account(fn, -1, -1, 0, time.Since(start))
			}
			return nil
		}})
	}
	call("Echo", "Mixed", ctMsg, nil, 0)
	call("Plain", "Add", ctJSON, nil, 0)
	call("Errs", "Many", ctMsg, []any{map[string]int{"k": 1}, "y", errs.ErrPlain}, 0)
	call("Errs", "Many", ctJSON, []any{map[string]int(nil), "", nil}, 0)
	call("Route", "Get", ctMsg, nil, 0)
	call("Second", "Get", ctJSON, nil, 0)
	call("Third", "Get", ctMsg, nil, 0)
	call("Second", "Reset", ctJSON, nil, 0)
	raw("unknown", byName["Echo"], "POST", "/echo/Nope", ctJSON, []byte("[1]"), 404, "")
	raw("refused", byName["Echo"], "POST", "/echo/Mixed", ctJSON, []byte(`["x",`), 400, "Mixed")
	raw("refused get", byName["Second"], "POST", "/r/Get/Get", ctMsg, []byte{0x91}, 400, "Get")
	raw("GET", byName["Route"], "GET", "/r/Get", "", nil, 405, "")
	raw("preflight", byName["Third"], "OPTIONS", "/custom/Get", "", nil, 200, "")
	for i, k := range []string{"api", "twin", "other"} {
		s := rpcs[k]
		m := lib.Methods(s.typ)[0]
		for _, x := range lib.Methods(s.typ) {
			if x.Name == "Get" || x.Name == "Add" {
				m = x
			}
		}
		ops = append(ops, op{fmt.Sprintf("gorpc %s.%s", k, m.Name), func() error { return s.served(m, 3+i, 0) }})
	}
	ops = append(ops, op{"instrument again", func() error {
		t := byName["Third"]
		if len(t.hs) < 6 {
			t.instrument()
		} else {
			gprom.InstrumentService(t.raw.ServeHTTP)
		}
		return nil
	}})
	n := 3
	if r.Thorough {
		n = 4
		call("Route", "RawArg", ctJSON, nil, 0)
		raw("HEAD", byName["Second"], "HEAD", "/r/Get/Get", "", nil, 405, "")
	}
	seq := make([]int, n)
	var walk func(i int)
	walk = func(i int) {
		if i == n {
			name := "history"
			for _, k := range seq {
				name += " > " + ops[k].name
			}
			ck(name, "history", map[string]any{"history": name}, func() error {
				for j, k := range seq {
					if err := ops[k].do(); err != nil {
						return fmt.Errorf("step %d: %w", j, err)
					}
				}
				return settle()
			})
			return
		}
		for k := range ops {
			seq[i] = k
			walk(i + 1)
		}
	}
	walk(0)

	// 3. times are those of the calls
	for i, k := range []string{"api", "twin"} {
		s := rpcs[k]
		m := lib.Methods(s.typ)[0]
		ck("slow gorpc "+k, "time", map[string]any{"service": k, "method": m.Name}, func() error {
			for j := 0; j < 3; j++ {
				if err := s.served(m, i+j, 20*time.Millisecond); err != nil {
					return err
				}
			}
			return settle()
		})
	}
	for _, t := range ts {
		m := lib.Methods(t.typ)[0]
		var rets []any
		if t.name == "Errs" {
			rets = make([]any, len(m.Rets))
			for i, x := range m.Rets {
				rets[i] = reflect.Zero(x).Interface()
			}
		}
		ck("slow "+t.name, "time", map[string]any{"service": t.name, "method": m.Name}, func() error {
			for j := 0; j < 3; j++ {
				if err := t.served(m, ctMsg, j, rets, 20*time.Millisecond); err != nil {
					return err
				}
			}
			return compare()
		})
	}
	r.Note("label_sets", len(model))
	r.Finish()
}
