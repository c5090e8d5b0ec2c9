package main

import (
	"context"
	"errors"
	"fmt"
	"net/http"
	"os"
	"reflect"
	"time"
	"unsafe"

	"example.com/vh/lib"
	"example.com/vh/rt"
	"example.com/vh/svc/echo"
	echorec "example.com/vh/svc/echo/rec"
	"example.com/vh/svc/errs"
	errsrec "example.com/vh/svc/errs/rec"
	"example.com/vh/svc/route"
	routerec "example.com/vh/svc/route/rec"
	gotsrpc "github.com/foomo/gotsrpc/v2"
	pkgerrors "github.com/pkg/errors"
)

const (
	ctJSON = "application/json; charset=utf-8"
	ctMsg  = "application/msgpack; charset=utf-8"
)

var rr = &rt.Recorder{}

// target is one instrumented service.
type target struct {
	pkg, name, endpoint string
	typ                 reflect.Type
	raw                 http.Handler
	h                   http.HandlerFunc
	recs                []*gotsrpc.CallStats
}

func (t *target) ServeHTTP(w http.ResponseWriter, r *http.Request) { t.h(w, r) }

func targets() []*target {
	ts := []*target{
		{pkg: "example.com/vh/svc/echo", name: "Echo", endpoint: "/echo", typ: reflect.TypeOf((*echo.Echo)(nil)).Elem(), raw: echo.NewDefaultEchoGoTSRPCProxy(&echorec.Echo{Rec: rr})},
		{pkg: "example.com/vh/svc/echo", name: "Plain", endpoint: "/svc/plain", typ: reflect.TypeOf((*echo.Plain)(nil)), raw: echo.NewDefaultPlainGoTSRPCProxy(&echo.Plain{Rec: rr})},
		{pkg: "example.com/vh/svc/errs", name: "Errs", endpoint: "/errs", typ: reflect.TypeOf((*errs.Errs)(nil)).Elem(), raw: errs.NewDefaultErrsGoTSRPCProxy(&errsrec.Errs{Rec: rr})},
		{pkg: "example.com/vh/svc/route", name: "Route", endpoint: "/r", typ: reflect.TypeOf((*route.Route)(nil)).Elem(), raw: route.NewDefaultRouteGoTSRPCProxy(&routerec.Route{Rec: rr})},
		{pkg: "example.com/vh/svc/route", name: "Second", endpoint: "/r/Get", typ: reflect.TypeOf((*route.Second)(nil)).Elem(), raw: route.NewDefaultSecondGoTSRPCProxy(&routerec.Second{Rec: rr})},
		{pkg: "example.com/vh/svc/route", name: "Third", endpoint: "/custom", typ: reflect.TypeOf((*route.Third)(nil)).Elem(), raw: route.NewThirdGoTSRPCProxy(&routerec.Third{Rec: rr}, "/custom")},
	}
	for _, t := range ts {
		t.h = gotsrpc.InstrumentedService(t.raw.ServeHTTP, func(s *gotsrpc.CallStats) { t.recs = append(t.recs, s) })
	}
	return ts
}

func (t *target) method(name string) lib.Method {
	for _, m := range lib.Methods(t.typ) {
		if m.Name == name {
			return m
		}
	}
	panic(name)
}

func encode(n *lib.Node, enc lib.Enc) []byte {
	if enc == lib.Msgpack {
		return n.Msgpack(0)
	}
	return []byte(n.JSONText(""))
}

func label(enc lib.Enc) string {
	if enc == lib.Msgpack {
		return ctMsg
	}
	return ctJSON
}

func distinct(ts []reflect.Type, seed int) (out []reflect.Value) {
	for i, t := range ts {
		out = append(out, lib.Distinct(t, seed+i, 3))
	}
	return
}

// want is what the accounting model says about one record.
type want struct {
	pkg, svc, fn  string
	sizes         bool
	req, resp     int // req < 0: not stated
	errs          bool
	code          int
	etype, emsg   string
	minExec       time.Duration
	total         time.Duration
	record        *gotsrpc.CallStats
	recordedState gotsrpc.CallStats
}

func (w *want) check(s *gotsrpc.CallStats) error {
	if s.Package != w.pkg || s.Service != w.svc || s.Func != w.fn {
		return fmt.Errorf("record names %s/%s/%s, want %s/%s/%s", s.Package, s.Service, s.Func, w.pkg, w.svc, w.fn)
	}
	if w.sizes {
		if w.req >= 0 && s.RequestSize != w.req {
			return fmt.Errorf("%s.%s: request size %d, want %d", w.svc, w.fn, s.RequestSize, w.req)
		}
		if s.ResponseSize != w.resp {
			return fmt.Errorf("%s.%s: reply size %d, want %d", w.svc, w.fn, s.ResponseSize, w.resp)
		}
		if s.Execution < w.minExec || s.Execution > w.total {
			return fmt.Errorf("%s.%s: execution time %s, took at least %s and at most %s", w.svc, w.fn, s.Execution, w.minExec, w.total)
		}
		if s.Marshalling < 0 || s.Unmarshalling < 0 || s.Marshalling+s.Unmarshalling+s.Execution > w.total {
			return fmt.Errorf("%s.%s: times %s %s %s exceed %s", w.svc, w.fn, s.Unmarshalling, s.Execution, s.Marshalling, w.total)
		}
	}
	if w.errs && (s.ErrorCode != w.code || s.ErrorType != w.etype || s.ErrorMessage != w.emsg) {
		return fmt.Errorf("%s.%s: error recorded as %d %q %q, want %d %q %q", w.svc, w.fn, s.ErrorCode, s.ErrorType, s.ErrorMessage, w.code, w.etype, w.emsg)
	}
	return nil
}

// served performs a call and returns its expected record.
func served(t *target, m lib.Method, enc lib.Enc, args, rets []any, body []byte, sleep time.Duration) (*want, error) {
	rr.Script = func(_, _ string, a []any) []any {
		if sleep > 0 {
			time.Sleep(sleep)
		}
		return rets
	}
	rr.Take()
	start := time.Now()
	rec := lib.Raw(t, "POST", t.endpoint+"/"+m.Name, label(enc), body, nil)
	total := time.Since(start)
	if n := len(rr.Take()); n != 1 || rec.Status != 200 {
		return nil, fmt.Errorf("%s.%s: status %d, %d invocations", t.name, m.Name, rec.Status, n)
	}
	w := &want{pkg: t.pkg, svc: t.name, fn: m.Name, sizes: true, req: len(body), resp: rec.Body.Len(), errs: true, minExec: sleep, total: total}
	if len(m.Args) == 0 {
		w.req = -1
	}
	if len(rets) > 0 {
		if e, ok := rets[len(rets)-1].(error); ok {
			v := reflect.ValueOf(e)
			switch {
			case v.Kind() == reflect.Ptr && v.IsNil():
			case v.IsZero() && v.Type().Size() > 0: // a typed result without an error
			default:
				w.code, w.etype, w.emsg = 1, reflect.TypeOf(e).String(), e.Error()
				if c, ok := e.(interface{ ErrorCode() int }); ok {
					w.code = c.ErrorCode()
				}
			}
		}
	}
	return w, nil
}

type op struct {
	name string
	t    *target
	do   func() (*want, error) // nil: no record
}

func main() {
	r := lib.Start()
	os.Stderr, _ = os.OpenFile(os.DevNull, os.O_WRONLY, 0)
	ts := targets()
	byName := map[string]*target{}
	for _, t := range ts {
		byName[t.name] = t
	}
	ck := func(name, key string, replay any, f func() error) {
		if r.Expired() {
			return
		}
		r.State(name)
		r.Trace(1)
		r.Check(name, key, replay, f)
	}
	run := func(o op) (*want, error) {
		for _, t := range ts {
			t.recs = nil
		}
		w, err := o.do()
		if err != nil {
			return nil, err
		}
		for _, t := range ts {
			n := 0
			if t == o.t && w != nil {
				n = 1
			}
			if len(t.recs) != n {
				return nil, fmt.Errorf("%s: %d records at service %s, want %d", o.name, len(t.recs), t.name, n)
			}
		}
		if w == nil {
			return nil, nil
		}
		w.record = o.t.recs[0]
		w.recordedState = *w.record
		return w, w.check(w.record)
	}

	// 1. every method x encoding x argument and result values
	depth := 1
	if r.Thorough {
		depth = 2
	}
	for _, t := range ts {
		for _, m := range lib.Methods(t.typ) {
			for _, enc := range []lib.Enc{lib.Msgpack, lib.JSON} {
				var as, rs [][]reflect.Value
				for i, x := range m.Args {
					as = append(as, lib.Values(x, 1+i, lib.Opt{Enc: enc, Depth: depth, Big: true}))
				}
				for i, x := range m.Rets {
					if x.Implements(lib.ErrorType) && x.Kind() == reflect.Interface {
						rs = append(rs, []reflect.Value{reflect.Zero(x), reflect.ValueOf(&[]error{errs.ErrPlain}[0]).Elem()})
						continue
					}
					rs = append(rs, lib.Values(x, 51+i, lib.Opt{Enc: enc, Depth: depth, Big: true}))
				}
				k := 0
				lib.Explore(1, r.Expired, func(c *lib.Chooser) {
					k++
					args, rets := make([]reflect.Value, len(as)), make([]reflect.Value, len(rs))
					for i := range as {
						args[i] = as[i][c.Pick(len(as[i]))]
					}
					for i := range rs {
						rets[i] = rs[i][c.Pick(len(rs[i]))]
					}
					var body []byte
					if len(args) > 0 {
						body = encode(lib.List(args), enc)
					}
					ck(fmt.Sprintf("%s.%s %s %d", t.name, m.Name, enc, k), "served:"+m.Name+":"+enc.String(), map[string]any{"service": t.name, "method": m.Name, "encoding": enc.String(), "args": lib.ShowAll(args), "results": lib.ShowAll(rets)}, func() error {
						_, err := run(op{m.Name, t, func() (*want, error) { return served(t, m, enc, nil, lib.Anys(rets), body, 0) }})
						return err
					})
				})
			}
		}
	}

	// 2. every error in every shape and encoding
	et := byName["Errs"]
	errors_ := []struct {
		name string
		e    error
	}{
		{"nil", nil}, {"plain", errs.ErrPlain}, {"empty", errs.ErrEmpty}, {"colons", errs.ErrOther}, {"fmt", fmt.Errorf("wrap: %w", errs.ErrPlain)}, {"fmt suffix", fmt.Errorf("(%w)", errs.ErrPlain)},
		{"pkg", pkgerrors.New("pkg")}, {"pkg wrap", pkgerrors.Wrap(errs.ErrPlain, "m")}, {"stack", pkgerrors.WithStack(errs.ErrPlain)}, {"struct", &errs.Struct{Code: 3, Text: "t"}}, {"struct zero", &errs.Struct{}},
		{"value", errs.Value{Num: 2}}, {"scalar", errs.ScalarOne}, {"code", errs.Code(7)}, {"unit", errs.Unit{}}, {"deadline", context.DeadlineExceeded}, {"wrapped struct", &errs.Wrap{Op: "o", Err: &errs.Struct{Code: 5}}},
		{"received", gotsrpc.NewError(fmt.Errorf("remote: %w", errs.ErrPlain))}, {"joined", errors.Join(errs.ErrPlain, errs.ErrOther)},
	}
	for _, x := range errors_ {
		for _, enc := range []lib.Enc{lib.Msgpack, lib.JSON} {
			for name, rets := range map[string][]any{"Plain": {x.e}, "WithResult": {"res", x.e}, "Named": {4, x.e}, "TwoErrors": {errs.ErrOther, x.e}, "Many": {map[string]int{"a": 1}, "y", x.e}} {
				m := et.method(name)
				var body []byte
				if args := distinct(m.Args, 4); len(args) > 0 {
					body = encode(lib.List(args), enc)
				}
				ck(fmt.Sprintf("error %s from %s %s", x.name, name, enc), "error:"+enc.String(), map[string]any{"error": x.name, "method": name, "encoding": enc.String()}, func() error {
					_, err := run(op{name, et, func() (*want, error) { return served(et, m, enc, nil, rets, body, 0) }})
					return err
				})
			}
		}
	}

	// 3. all histories over a small alphabet
	var ops []op
	add := func(svc, method string, enc lib.Enc, rets []any, sleep time.Duration) {
		t := byName[svc]
		m := t.method(method)
		var body []byte
		if args := distinct(m.Args, len(ops)); len(args) > 0 {
			body = encode(lib.List(args), enc)
		}
		if rets == nil {
			rets = lib.Anys(distinct(m.Rets, 20+len(ops)))
		}
		ops = append(ops, op{fmt.Sprintf("%s.%s/%s#%d", svc, method, enc, len(ops)), t, func() (*want, error) { return served(t, m, enc, nil, rets, body, sleep) }})
	}
	add("Echo", "Mixed", lib.Msgpack, nil, 0)
	add("Echo", "Nothing", lib.JSON, nil, 0)
	add("Plain", "Add", lib.JSON, nil, 0)
	add("Errs", "Plain", lib.Msgpack, []any{errs.ErrPlain}, 0)
	add("Errs", "Plain", lib.JSON, []any{&errs.Struct{Code: 9}}, 0)
	add("Errs", "Plain", lib.Msgpack, []any{nil}, 0)
	add("Errs", "WithResult", lib.JSON, []any{"x", nil}, 0)
	add("Route", "Get", lib.Msgpack, nil, 0)
	add("Second", "Get", lib.JSON, nil, 0)
	add("Third", "Get", lib.Msgpack, nil, 0)
	add("Route", "RawArg", lib.JSON, nil, 0)
	if r.Thorough {
		add("Second", "Reset", lib.Msgpack, nil, 0)
		add("Errs", "TypedPtrResult", lib.JSON, []any{3, &errs.Struct{Code: 2}}, 0)
	}
	raw := func(name string, t *target, verb, path, ct string, body []byte, status int, one bool, fn string) {
		ops = append(ops, op{name, t, func() (*want, error) {
			rr.Script = nil
			rr.Take()
			rec := lib.Raw(t, verb, path, ct, body, nil)
			if rec.Status != status {
				return nil, fmt.Errorf("%s answered %d", name, rec.Status)
			}
			if !one {
				return nil, nil
			}
			return &want{pkg: t.pkg, svc: t.name, fn: fn}, nil
		}})
	}
	raw("unknown", byName["Echo"], "POST", "/echo/Nope", ctJSON, []byte("[1]"), 404, false, "")
	raw("unknown on route", byName["Route"], "POST", "/r/Get/Get", ctMsg, []byte{0x91, 1}, 404, false, "")
	raw("GET", byName["Echo"], "GET", "/echo/Mixed", "", nil, 405, false, "")
	raw("preflight", byName["Route"], "OPTIONS", "/r/Get", "", nil, 200, false, "")
	raw("refused", byName["Echo"], "POST", "/echo/Mixed", ctJSON, []byte(`["x",`), 400, true, "Mixed")
	raw("refused msgpack", byName["Errs"], "POST", "/errs/Many", ctMsg, []byte{0x93, 0xa1}, 400, true, "Many")
	ops = append(ops, op{"unencodable", byName["Echo"], func() (*want, error) {
		rr.Script = func(_, _ string, _ []any) []any { return []any{unsafe.Pointer(rr)} }
		if rec := lib.Raw(byName["Echo"], "POST", "/echo/Any", ctJSON, []byte("[1]"), nil); rec.Status == 200 {
			return nil, fmt.Errorf("unencodable result answered 200")
		}
		return &want{pkg: byName["Echo"].pkg, svc: "Echo", fn: "Any"}, nil
	}})
	ops = append(ops, op{"error status by the method", byName["Route"], func() (*want, error) {
		rr.Script = func(_, _ string, a []any) []any { http.Error(a[0].(http.ResponseWriter), "gone", 410); return nil }
		if rec := lib.Raw(byName["Route"], "POST", "/r/Raw", ctJSON, nil, nil); rec.Status != 410 {
			return nil, fmt.Errorf("status %d", rec.Status)
		}
		return &want{pkg: byName["Route"].pkg, svc: "Route", fn: "Raw"}, nil
	}})
	n := 3
	if r.Thorough {
		n = 4
	}
	seq := make([]int, n)
	var walk func(i int)
	walk = func(i int) {
		if i == n {
			name := "history"
			for _, k := range seq {
				name += " > " + ops[k].name
			}
			ck(name, "history", map[string]any{"history": name}, func() error {
				var ws []*want
				for j, k := range seq {
					w, err := run(ops[k])
					if err != nil {
						return fmt.Errorf("step %d: %w", j, err)
					}
					if w != nil {
						ws = append(ws, w)
					}
				}
				for i, w := range ws {
					if *w.record != w.recordedState {
						return fmt.Errorf("record %d changed after it was reported: %+v -> %+v", i, w.recordedState, *w.record)
					}
				}
				return nil
			})
			return
		}
		for k := range ops {
			seq[i] = k
			walk(i + 1)
		}
	}
	walk(0)

	// 4. execution time is the method's
	slow := 3 * time.Millisecond
	for _, enc := range []lib.Enc{lib.Msgpack, lib.JSON} {
		for _, t := range ts {
			for _, m := range lib.Methods(t.typ) {
				var body []byte
				if args := distinct(m.Args, 2); len(args) > 0 {
					body = encode(lib.List(args), enc)
				}
				rets := lib.Anys(distinct(m.Rets, 5))
				ck(fmt.Sprintf("slow %s.%s %s", t.name, m.Name, enc), "execution", map[string]any{"service": t.name, "method": m.Name}, func() error {
					_, err := run(op{m.Name, t, func() (*want, error) { return served(t, m, enc, nil, rets, body, slow) }})
					return err
				})
			}
		}
	}
	r.Sample(map[string]any{"history": "Errs.Plain/msgpack(error) > Errs.Plain/msgpack(nil) > unknown", "expected": "one record each for the first two, none for the third; error fields empty in the second"})
	r.Note("operations in histories", len(ops))
	r.Finish()
}
