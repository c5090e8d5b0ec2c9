package main

import (
	"context"
	"crypto/ecdsa"
	"crypto/elliptic"
	"crypto/rand"
	"crypto/tls"
	"crypto/x509"
	"encoding/gob"
	"errors"
	"fmt"
	"io"
	"math/big"
	"net"
	"net/http"
	"os"
	"reflect"
	"runtime"
	"sort"
	"strings"
	"sync"
	"time"

	"example.com/vh/lib"
	"example.com/vh/rt"
	"example.com/vh/sched"
	"example.com/vh/svc/grpc"
	"example.com/vh/svc/grpc/rec"
	"example.com/vh/svc/grpc/twin"
	twinrec "example.com/vh/svc/grpc/twin/rec"
	gotsrpc "github.com/foomo/gotsrpc/v2"
	"github.com/valyala/gorpc"
)

// ---- in-memory transport

type memListener struct {
	ch     chan net.Conn
	closed chan struct{}
	once   sync.Once
}

var (
	memMu sync.Mutex
	mems  = map[string]*memListener{}
)

func (l *memListener) Init(addr string) error {
	memMu.Lock()
	defer memMu.Unlock()
	mems[addr] = l
	return nil
}

func (l *memListener) Accept() (io.ReadWriteCloser, string, error) {
	select {
	case c := <-l.ch:
		return c, "mem", nil
	case <-l.closed:
		return nil, "", errors.New("closed")
	}
}

func (l *memListener) Close() error { l.once.Do(func() { close(l.closed) }); return nil }
func (l *memListener) ListenAddr() net.Addr {
	return &net.TCPAddr{}
}

func memDial(addr string) (io.ReadWriteCloser, error) {
	memMu.Lock()
	l := mems[addr]
	memMu.Unlock()
	if l == nil {
		return nil, errors.New("nobody there")
	}
	a, b := net.Pipe()
	select {
	case l.ch <- b:
		return a, nil
	case <-l.closed:
		return nil, errors.New("closed")
	}
}

// ---- services

type stat struct{ pkg, svc, fn string }

type service struct {
	name, pkg string
	methods   []lib.Method
	start     func(addr string, conf *tls.Config) error
	stop      func()
	setStats  func(gotsrpc.GoRPCCallStatsHandlerFun)
	client    func(addr string, conf *tls.Config) (any, func())
	handler   gorpc.HandlerFunc // as registered
	requests  map[string]any    // the request value seen per method
}

var (
	rr      = &rt.Recorder{}
	mu      sync.Mutex
	stats   []stat
	current *service // the one being started
	lastReq any
)

func onStats(s *gotsrpc.CallStats) {
	mu.Lock()
	defer mu.Unlock()
	if s == nil {
		stats = append(stats, stat{"nil", "", ""})
		return
	}
	stats = append(stats, stat{s.Package, s.Service, s.Func})
}

func takeStats(want int) (out []stat) {
	end := time.Now().Add(2 * time.Second)
	for {
		mu.Lock()
		n := len(stats)
		mu.Unlock()
		if n >= want || time.Now().After(end) {
			break
		}
		time.Sleep(time.Millisecond)
	}
	mu.Lock()
	defer mu.Unlock()
	out, stats = stats, nil
	return
}

func statFor(s *service, m string, x stat) error {
	if x.pkg != s.pkg || x.svc != s.name || (x.fn != m && x.fn != s.name+m && x.fn != s.name+m+"Request") {
		return fmt.Errorf("statistics of a call to %s %s.%s name %q %q %q", s.pkg, s.name, m, x.pkg, x.svc, x.fn)
	}
	return nil
}

func services() []*service {
	api := &service{name: "Api", pkg: "example.com/vh/svc/grpc", methods: lib.Methods(reflect.TypeOf((*grpc.Api)(nil)).Elem())}
	api.start = func(addr string, conf *tls.Config) error {
		p := grpc.NewApiGoRPCProxy(addr, &rec.Api{Rec: rr}, conf)
		api.setStats, api.stop = p.SetCallStatsHandler, p.Stop
		return p.Start()
	}
	api.client = func(addr string, conf *tls.Config) (any, func()) {
		c := grpc.NewApiGoRPCClient(addr, conf)
		c.Start()
		return c, c.Stop
	}
	other := &service{name: "Other", pkg: "example.com/vh/svc/grpc", methods: lib.Methods(reflect.TypeOf((*grpc.Other)(nil)).Elem())}
	other.start = func(addr string, conf *tls.Config) error {
		p := grpc.NewOtherGoRPCProxy(addr, &rec.Other{Rec: rr}, conf)
		other.setStats, other.stop = p.SetCallStatsHandler, p.Stop
		return p.Start()
	}
	other.client = func(addr string, conf *tls.Config) (any, func()) {
		c := grpc.NewOtherGoRPCClient(addr, conf)
		c.Start()
		return c, c.Stop
	}
	calc := &service{name: "Calc", pkg: "example.com/vh/svc/grpc", methods: lib.Methods(reflect.TypeOf(&grpc.Calc{}))}
	calc.start = func(addr string, conf *tls.Config) error {
		p := grpc.NewCalcGoRPCProxy(addr, &grpc.Calc{Rec: rr}, conf)
		calc.setStats, calc.stop = p.SetCallStatsHandler, p.Stop
		return p.Start()
	}
	calc.client = func(addr string, conf *tls.Config) (any, func()) {
		c := grpc.NewCalcGoRPCClient(addr, conf)
		c.Start()
		return c, c.Stop
	}
	tw := &service{name: "Api", pkg: "example.com/vh/svc/grpc/twin", methods: lib.Methods(reflect.TypeOf((*twin.Api)(nil)).Elem())}
	tw.start = func(addr string, conf *tls.Config) error {
		p := twin.NewApiGoRPCProxy(addr, &twinrec.Api{Rec: rr}, conf)
		tw.setStats, tw.stop = p.SetCallStatsHandler, p.Stop
		return p.Start()
	}
	tw.client = func(addr string, conf *tls.Config) (any, func()) {
		c := twin.NewApiGoRPCClient(addr, conf)
		c.Start()
		return c, c.Stop
	}
	return []*service{api, other, calc, tw}
}

func (s *service) addr() string { return "mem:" + s.pkg + "." + s.name }

func (s *service) run(addr string, conf *tls.Config) error {
	current = s
	s.requests = map[string]any{}
	return s.start(addr, conf)
}

// ---- one call

func call(s *service, client any, m lib.Method, args, rets []reflect.Value, withStats bool) error {
	rr.Take()
	takeStats(0)
	rr.Script = func(string, string, []any) []any { return lib.Anys(rets) }
	got, cerr, err := lib.Invoke(client, m.Name, nil, args)
	if err != nil {
		return err
	}
	if cerr != nil {
		return fmt.Errorf("the call failed: %v", cerr)
	}
	calls := rr.Take()
	if len(calls) != 1 || calls[0].Service != s.name || calls[0].Method != m.Name {
		return fmt.Errorf("the service saw %v", calls)
	}
	as := calls[0].Args
	if m.HTTP {
		if len(as) < 2 || as[0] != nil && !reflect.ValueOf(as[0]).IsZero() || !reflect.ValueOf(as[1]).IsZero() {
			return fmt.Errorf("HTTP parameters are %v", as)
		}
		as = as[2:]
	}
	if len(as) != len(args) {
		return fmt.Errorf("%d arguments arrive as %d", len(args), len(as))
	}
	for i := range args {
		if d := lib.Equal(args[i], reflect.ValueOf(as[i]), lib.EqOpt{GobZero: true}); d != "" {
			return fmt.Errorf("argument %d differs: %s", i, d)
		}
	}
	if len(got) != len(rets) {
		return fmt.Errorf("%d results arrive as %d", len(rets), len(got))
	}
	for i := range rets {
		a, b := rets[i], got[i]
		if a.Kind() == reflect.Interface {
			a, b = a.Elem(), b.Elem()
		}
		if d := lib.Equal(a, b, lib.EqOpt{GobZero: true}); d != "" {
			return fmt.Errorf("result %d differs: %s", i, d)
		}
	}
	if withStats {
		st := takeStats(1)
		if len(st) != 1 {
			return fmt.Errorf("%d statistics records", len(st))
		}
		return statFor(s, m.Name, st[0])
	}
	return nil
}

func alphabet(t reflect.Type, seed int) []reflect.Value {
	if t == lib.ErrorType {
		var out []reflect.Value
		for _, e := range []error{nil, &grpc.Failure{Code: seed, Text: "failed"}, &grpc.Failure{}} {
			v := reflect.New(t).Elem()
			if e != nil {
				v.Set(reflect.ValueOf(e))
			}
			out = append(out, v)
		}
		return out
	}
	return lib.Values(t, seed, lib.Opt{Enc: lib.Gob, Depth: 2})
}

func baseArgs(m lib.Method, seed int) (args, rets []reflect.Value) {
	for i, t := range m.Args {
		args = append(args, lib.Distinct(t, seed+i, 3))
	}
	for i, t := range m.Rets {
		if t == lib.ErrorType {
			rets = append(rets, reflect.Zero(t))
			continue
		}
		rets = append(rets, lib.Distinct(t, seed+30+i, 3))
	}
	return
}

func main() {
	r := lib.Start()
	errOut := os.Stderr
	_ = errOut
	gob.Register(&grpc.Failure{})
	gorpc.SetErrorLogger(gorpc.NilErrorLogger)
	gorpc.VerifServer = func(s *gorpc.Server) {
		s.FlushDelay = -1
		h, svc := s.Handler, current
		svc.handler = h
		s.Handler = func(a string, q interface{}) interface{} {
			mu.Lock()
			lastReq = q
			mu.Unlock()
			return h(a, q)
		}
		if strings.HasPrefix(s.Addr, "mem:") {
			s.Listener = &memListener{ch: make(chan net.Conn), closed: make(chan struct{})}
		}
	}
	gorpc.VerifClient = func(c *gorpc.Client) {
		c.FlushDelay = -1
		if strings.HasPrefix(c.Addr, "mem:") {
			c.Dial = memDial
		}
		if strings.HasPrefix(c.Addr, "mem:dead") {
			c.RequestTimeout = 50 * time.Millisecond
		}
	}
	svcs := services()
	clients := map[*service]any{}
	second := map[*service]any{}
	for _, s := range svcs {
		s := s
		if !r.Check("start "+s.pkg+s.name, "start", nil, func() error { return s.run(s.addr(), nil) }) {
			r.Finish()
			return
		}
		clients[s], _ = s.client(s.addr(), nil)
		second[s], _ = s.client(s.addr(), nil)
	}
	ck := func(name, key string, replay any, f func() error) bool {
		if r.Expired() {
			return true
		}
		r.State(name)
		r.Trace(1)
		return r.Check(name, key, replay, f)
	}

	// 0. the clients have the methods of the services, without the HTTP parameters
	for _, s := range svcs {
		ck("surface "+s.pkg+s.name, "surface", nil, func() error {
			t := reflect.TypeOf(clients[s])
			want := map[string]lib.Method{}
			for _, m := range s.methods {
				want[m.Name] = m
			}
			for i := 0; i < t.NumMethod(); i++ {
				if n := t.Method(i).Name; n != "Start" && n != "Stop" {
					if _, ok := want[n]; !ok {
						return fmt.Errorf("client method %s", n)
					}
				}
			}
			for n, m := range want {
				cm, ok := t.MethodByName(n)
				if !ok {
					return fmt.Errorf("no client method %s", n)
				}
				var in, out []reflect.Type
				for i := 1; i < cm.Type.NumIn(); i++ {
					in = append(in, cm.Type.In(i))
				}
				for i := 0; i < cm.Type.NumOut(); i++ {
					out = append(out, cm.Type.Out(i))
				}
				if fmt.Sprint(in) != fmt.Sprint(m.Args) || fmt.Sprint(out) != fmt.Sprint(append(append([]reflect.Type{}, m.Rets...), lib.ErrorType)) {
					return fmt.Errorf("client method %s takes %v and returns %v", n, in, out)
				}
			}
			return nil
		})
	}

	// 1. values, with and without a statistics handler
	for _, s := range svcs {
		for _, m := range s.methods {
			var alpha [][]reflect.Value
			for i, t := range append(append([]reflect.Type{}, m.Args...), m.Rets...) {
				alpha = append(alpha, alphabet(t, i+1))
			}
			k := 0
			bound := 1
			if r.Thorough {
				bound = 2
			}
			lib.Explore(bound, r.Expired, func(c *lib.Chooser) {
				vs := make([]reflect.Value, len(alpha))
				for i := range alpha {
					vs[i] = alpha[i][c.Pick(len(alpha[i]))]
				}
				k++
				ws := k%2 == 1
				s.setStats(nil)
				if ws {
					s.setStats(onStats)
				}
				ck(fmt.Sprintf("%s.%s %d", s.name, m.Name, k), fmt.Sprintf("value:%s.%s", s.name, m.Name), map[string]any{"service": s.pkg + "." + s.name, "method": m.Name, "values": lib.ShowAll(vs)}, func() error {
					return call(s, clients[s], m, vs[:len(m.Args)], vs[len(m.Args):], ws)
				})
			})
		}
	}

	// 2. sequences of calls, failing ones between them
	type step struct {
		s    *service
		m    lib.Method
		mode int // 0 plain, 1 second client, 2 the service panics
	}
	find := func(s *service, n string) lib.Method {
		for _, m := range s.methods {
			if m.Name == n {
				return m
			}
		}
		panic(n)
	}
	var steps []step
	for _, s := range svcs {
		steps = append(steps, step{s, find(s, "One"), 0}, step{s, find(s, "One"), 1})
	}
	steps = append(steps, step{svcs[0], find(svcs[0], "Nothing"), 0}, step{svcs[0], find(svcs[0], "Take"), 0}, step{svcs[0], find(svcs[0], "Fail"), 0}, step{svcs[0], find(svcs[0], "One"), 2}, step{svcs[2], find(svcs[2], "Pair"), 2})
	for _, s := range svcs {
		s.setStats(onStats)
	}
	depth := 3
	if r.Thorough {
		depth = 4
	}
	lib.Explore(99, r.Expired, func(c *lib.Chooser) {
		var seq []step
		name := "sequence"
		for i := 0; i < depth; i++ {
			x := steps[c.Pick(len(steps))]
			seq = append(seq, x)
			name += fmt.Sprintf(" %s.%s.%s/%d", x.s.pkg[len("example.com/vh/svc/"):], x.s.name, x.m.Name, x.mode)
		}
		ck(name, "sequence", map[string]any{"sequence": name}, func() error {
			for i, x := range seq {
				r.Transition(1)
				args, rets := baseArgs(x.m, i*7+1)
				cl := clients[x.s]
				if x.mode == 1 {
					cl = second[x.s]
				}
				if x.mode == 2 {
					rr.Take()
					takeStats(0)
					rr.Script = func(string, string, []any) []any { panic("service down") }
					_, cerr, err := lib.Invoke(cl, x.m.Name, nil, args)
					if err != nil {
						return err
					}
					if cerr == nil {
						return fmt.Errorf("step %d: the service panicked and the call succeeded", i)
					}
					if n := len(rr.Take()); n != 1 {
						return fmt.Errorf("step %d: service saw %d calls", i, n)
					}
					takeStats(0)
					continue
				}
				if err := call(x.s, cl, x.m, args, rets, true); err != nil {
					return fmt.Errorf("step %d: %w", i, err)
				}
			}
			return nil
		})
	})
	ck("late statistics", "late statistics", nil, func() error {
		time.Sleep(50 * time.Millisecond)
		if st := takeStats(0); len(st) != 0 {
			return fmt.Errorf("%v came after their calls", st)
		}
		return nil
	})

	// 3. nobody there: an error, not results
	for _, s := range svcs {
		ck("dead "+s.pkg+s.name, "dead", nil, func() error {
			cl, _ := s.client("mem:dead"+s.name, nil)
			for _, m := range s.methods {
				args, _ := baseArgs(m, 1)
				_, cerr, err := lib.Invoke(cl, m.Name, nil, args)
				if err != nil {
					return err
				}
				if cerr == nil {
					return fmt.Errorf("%s succeeded without a server", m.Name)
				}
			}
			return nil
		})
	}

	// 4. overlapping calls: every order of starts and ends
	overlap(r, svcs, clients, second, find, ck)

	// 5. statement interleavings of the handlers themselves
	interleave(r, svcs, clients)

	// 6. TLS
	ck("tls", "tls", nil, func() error { return overTLS(svcs) })

	r.Sample(map[string]any{"sequence": "Api.One, twin Api.One, a panicking Calc.Pair", "statistics": "one record per answered call"})
	r.Finish()
}

// ---- overlapping calls

type gate struct {
	entered chan struct{}
	leave   chan struct{}
	svc     string
	method  string
}

func overlap(r *lib.Run, svcs []*service, clients, second map[*service]any, find func(*service, string) lib.Method, ck func(string, string, any, func() error) bool) {
	type kind struct {
		s  *service
		m  string
		cl map[*service]any
	}
	kinds := []kind{{svcs[0], "One", clients}, {svcs[0], "Sum", clients}, {svcs[0], "One", second}, {svcs[1], "One", clients}, {svcs[2], "One", clients}, {svcs[3], "One", clients}}
	n := 3
	if r.Thorough {
		n = 4
		kinds = append(kinds[:2], kinds[3], kinds[5])
	}
	// the words: each call starts, then ends
	var words [][]int
	var rec func(w []int, left []int)
	rec = func(w []int, left []int) {
		done := true
		for i := range left {
			if left[i] > 0 {
				done = false
				left[i]--
				rec(append(append([]int{}, w...), i), left)
				left[i]++
			}
		}
		if done {
			words = append(words, w)
		}
	}
	left := make([]int, n)
	for i := range left {
		left[i] = 2
	}
	rec(nil, left)
	defer func() { rr.Direct = nil }()
	rounds := 0
	lib.Explore(99, r.Expired, func(c *lib.Chooser) {
		ks := make([]kind, n)
		name := "overlap"
		last := 0
		for i := range ks {
			// assignments up to symmetry
			last += c.Pick(len(kinds) - last)
			ks[i] = kinds[last]
			name += fmt.Sprintf(" %s.%s", ks[i].s.name, ks[i].m)
			if fmt.Sprintf("%p", ks[i].cl) == fmt.Sprintf("%p", second) {
				name += "(2nd client)"
			}
		}
		ck(name, "overlap", map[string]any{"calls": name, "orders": len(words)}, func() error {
			for _, w := range words {
				rounds++
				r.Transition(1)
				takeStats(0)
				gates := make([]*gate, n)
				for i := range gates {
					gates[i] = &gate{entered: make(chan struct{}, 4), leave: make(chan struct{})}
				}
				rr.Direct = func(s, m string, args []any) []any {
					id := args[0].(int) - 100
					if id < 0 || id >= n {
						return nil
					}
					mu.Lock()
					gates[id].svc, gates[id].method = s, m
					mu.Unlock()
					gates[id].entered <- struct{}{}
					<-gates[id].leave
					if m == "Sum" {
						return []any{1000 + id, fmt.Sprint("text", id)}
					}
					return []any{1000 + id}
				}
				type answer struct {
					rets []reflect.Value
					err  error
				}
				answers := make([]chan answer, n)
				var failed error
				started := map[int]bool{}
				for _, i := range w {
					i := i
					if !started[i] {
						started[i] = true
						answers[i] = make(chan answer, 1)
						m := find(ks[i].s, ks[i].m)
						args := []reflect.Value{reflect.ValueOf(100 + i)}
						if ks[i].m == "Sum" {
							args = append(args, reflect.ValueOf(7), reflect.ValueOf("c"))
						}
						go func() {
							rets, cerr, err := lib.Invoke(ks[i].cl[ks[i].s], m.Name, nil, args)
							if err == nil {
								err = cerr
							}
							answers[i] <- answer{rets, err}
						}()
						select {
						case <-gates[i].entered:
						case a := <-answers[i]:
							failed = fmt.Errorf("order %v: call %d ended by itself: %v", w, i, a.err)
						case <-time.After(10 * time.Second):
							failed = fmt.Errorf("order %v: call %d never reached the service", w, i)
						}
					} else {
						close(gates[i].leave)
						select {
						case a := <-answers[i]:
							if a.err != nil {
								failed = fmt.Errorf("order %v: call %d: %v", w, i, a.err)
							} else if a.rets[0].Int() != int64(1000+i) || (ks[i].m == "Sum" && a.rets[1].String() != fmt.Sprint("text", i)) {
								failed = fmt.Errorf("order %v: call %d got %s", w, i, lib.ShowAll(a.rets))
							}
						case <-time.After(10 * time.Second):
							failed = fmt.Errorf("order %v: call %d never came back", w, i)
						}
					}
					if failed != nil {
						for _, g := range gates {
							select {
							case <-g.leave:
							default:
								close(g.leave)
							}
						}
						return failed
					}
				}
				for i, g := range gates {
					if g.svc != ks[i].s.name || g.method != ks[i].m || len(g.entered) != 0 {
						return fmt.Errorf("order %v: call %d reached %s.%s", w, i, g.svc, g.method)
					}
				}
				st := takeStats(n)
				var got, want []string
				for _, x := range st {
					got = append(got, x.pkg+" "+x.svc)
				}
				for _, k := range ks {
					want = append(want, k.s.pkg+" "+k.s.name)
				}
				sort.Strings(got)
				sort.Strings(want)
				if fmt.Sprint(got) != fmt.Sprint(want) {
					return fmt.Errorf("order %v: statistics for %v", w, got)
				}
			}
			return nil
		})
	})
	r.Note("overlap_rounds", rounds)
}

// ---- controlled schedules over the handlers

type tobs struct {
	calls []rt.Call
	stats []stat
	resp  any
}

func interleave(r *lib.Run, svcs []*service, clients map[*service]any) {
	type one struct {
		s   *service
		m   lib.Method
		req any
	}
	var all []one
	for si, s := range svcs {
		for mi, m := range s.methods {
			args, rets := baseArgs(m, si*11+mi+1)
			rr.Direct = nil
			rr.Script = func(string, string, []any) []any { return lib.Anys(rets) }
			if _, cerr, err := lib.Invoke(clients[s], m.Name, nil, args); cerr != nil || err != nil {
				continue
			}
			mu.Lock()
			q := lastReq
			mu.Unlock()
			all = append(all, one{s, m, q})
		}
	}
	for _, s := range svcs {
		s.stop()
	}
	time.Sleep(20 * time.Millisecond)
	procs := runtime.GOMAXPROCS(1)
	defer runtime.GOMAXPROCS(procs)
	var slots [8]tobs
	rr.Direct = func(s, m string, args []any) []any {
		i := sched.Current()
		if i < 0 {
			return nil
		}
		slots[i].calls = append(slots[i].calls, rt.Call{Service: s, Method: m, Args: args})
		sched.Yield()
		if len(args) > 0 {
			if n, ok := args[0].(int); ok && m == "One" {
				return []any{n * 1000}
			}
		}
		return nil
	}
	for _, s := range svcs {
		s.setStats(func(c *gotsrpc.CallStats) {
			i := sched.Current()
			if i < 0 || c == nil {
				return
			}
			slots[i].stats = append(slots[i].stats, stat{c.Package, c.Service, c.Func})
		})
	}
	execs, steps := 0, 0
	once := func(set []one, sc []sched.Dev) (sched.Trace, []tobs) {
		var bodies []func()
		for i, o := range set {
			i, o := i, o
			slots[i] = tobs{}
			bodies = append(bodies, func() { slots[i].resp = o.s.handler("addr", o.req) })
		}
		t := sched.Run(sc, bodies...)
		execs++
		steps += len(t.N)
		return t, append([]tobs{}, slots[:len(set)]...)
	}
	races := sched.Races()
	judge := func(set []one, t sched.Trace, obs []tobs) error {
		if t.Stuck {
			return fmt.Errorf("no thread can go on")
		}
		if n := sched.Races(); n > races {
			races = n
			return fmt.Errorf("unsynchronised access to shared memory (race report on standard error)")
		}
		for i, o := range set {
			x := obs[i]
			if len(x.calls) != 1 || x.calls[0].Service != o.s.name || x.calls[0].Method != o.m.Name {
				return fmt.Errorf("call %d: the service saw %v", i, x.calls)
			}
			if len(x.stats) != 1 {
				return fmt.Errorf("call %d: %d statistics records", i, len(x.stats))
			}
			if err := statFor(o.s, o.m.Name, x.stats[0]); err != nil {
				return fmt.Errorf("call %d: %w", i, err)
			}
			want := ""
			for _, a := range x.calls[0].Args {
				want += lib.Full(reflect.ValueOf(a)) + ";"
			}
			got := ""
			q := reflect.ValueOf(o.req)
			if q.Kind() == reflect.Ptr {
				q = q.Elem()
			}
			if o.m.HTTP {
				got = "nil;nil;"
				want = strings.Replace(want, "<nil>", "nil", 2)
			}
			if q.Kind() == reflect.Struct && q.NumField() == len(o.m.Args) && !o.m.HTTP {
				for k := 0; k < q.NumField(); k++ {
					got += lib.Full(q.Field(k)) + ";"
				}
				if got != want {
					return fmt.Errorf("call %d: request %s reached the service as %s", i, got, want)
				}
			}
			if o.m.Name == "One" {
				n := fmt.Sprint(q.Field(0).Int() * 1000)
				if s := fmt.Sprintf("%v", x.resp); !strings.Contains(s, n) {
					return fmt.Errorf("call %d: response %s, want %s", i, s, n)
				}
			}
		}
		return nil
	}
	bound := 2
	if r.Thorough {
		bound = 3
	}
	run := func(set []one, bound int) {
		name := "schedules of"
		for _, o := range set {
			name += " " + o.s.name + "." + o.m.Name
		}
		if r.Expired() {
			return
		}
		r.State(name)
		level := [][]sched.Dev{nil}
		for d := 0; d <= bound; d++ {
			var next [][]sched.Dev
			for len(level) > 0 {
				sc := level[0]
				level = level[1:]
				r.Beat()
				if r.Expired() {
					return
				}
				t, obs := once(set, sc)
				r.Trace(1)
				if err := judge(set, t, obs); err != nil {
					r.Violate("schedule", fmt.Sprintf("%s under schedule %v: %v", name, sc, err), map[string]any{"calls": name, "schedule": sc})
					return
				}
				from := 0
				if len(sc) > 0 {
					from = sc[len(sc)-1].Step + 1
				}
				for k := from; k < len(t.N); k++ {
					if !t.Forced[k] && d == bound {
						continue
					}
					for c := 1; c < int(t.N[k]); c++ {
						x := append(append([]sched.Dev{}, sc...), sched.Dev{Step: k, Choice: c})
						if t.Forced[k] {
							level = append(level, x)
						} else {
							next = append(next, x)
						}
					}
				}
			}
			level = next
		}
		r.Beat()
	}
	for i := range all {
		for k := i; k < len(all); k++ {
			run([]one{all[i], all[k]}, bound)
		}
	}
	if len(all) > 3 {
		run([]one{all[0], all[1], all[2]}, 2)
		run([]one{all[3], all[3], all[3]}, 2)
		run([]one{all[3], all[len(all)-1], all[len(all)-2]}, 2)
	}
	r.Transition(steps)
	r.Note("schedules", execs)
	r.Note("scheduling_decisions", steps)
	if len(all) < 20 {
		r.Violate("capture", fmt.Sprintf("only %d methods could be called", len(all)), nil)
	}
	rr.Direct = nil
}

// ---- TLS

func overTLS(svcs []*service) error {
	key, err := ecdsa.GenerateKey(elliptic.P256(), rand.Reader)
	if err != nil {
		return nil
	}
	tpl := &x509.Certificate{SerialNumber: big.NewInt(77), NotAfter: time.Now().Add(time.Hour), DNSNames: []string{"vh"}, IPAddresses: []net.IP{net.IPv4(127, 0, 0, 1)}}
	der, err := x509.CreateCertificate(rand.Reader, tpl, tpl, &key.PublicKey, key)
	if err != nil {
		return nil
	}
	conf := &tls.Config{Certificates: []tls.Certificate{{Certificate: [][]byte{der}, PrivateKey: key}}}
	for _, s := range svcs {
		var addr string
		for i := 0; ; i++ {
			l, err := net.Listen("tcp", "127.0.0.1:0")
			if err != nil {
				return nil // no network here
			}
			addr = l.Addr().String()
			l.Close()
			if err = s.run(addr, conf); err == nil {
				break
			}
			if i > 20 {
				return fmt.Errorf("server does not start: %w", err)
			}
		}
		var seen []string
		cl, stop := s.client(addr, &tls.Config{InsecureSkipVerify: true, VerifyPeerCertificate: func(raw [][]byte, _ [][]*x509.Certificate) error {
			c, err := x509.ParseCertificate(raw[0])
			if err == nil {
				mu.Lock()
				seen = append(seen, c.SerialNumber.String())
				mu.Unlock()
			}
			return nil
		}})
		s.setStats(onStats)
		for i, m := range s.methods {
			args, rets := baseArgs(m, i+3)
			if err := call(s, cl, m, args, rets, true); err != nil {
				return fmt.Errorf("%s.%s over TLS: %w", s.name, m.Name, err)
			}
		}
		mu.Lock()
		if len(seen) == 0 || seen[0] != "77" {
			err = fmt.Errorf("the client did not meet the server's certificate")
		}
		mu.Unlock()
		stop()
		s.stop()
		if err != nil {
			return err
		}
	}
	return nil
}

var (
	_ = context.Background
	_ http.ResponseWriter
)
