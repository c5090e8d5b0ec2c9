package main

import (
	"bytes"
	"fmt"
	"net/http"
	"os"
	"reflect"
	"strings"
	"unsafe"

	"example.com/vh/lib"
	"example.com/vh/rt"
	"example.com/vh/svc/echo"
	echorec "example.com/vh/svc/echo/rec"
	"example.com/vh/svc/errs"
	errsrec "example.com/vh/svc/errs/rec"
	"example.com/vh/svc/route"
	routerec "example.com/vh/svc/route/rec"
	gotsrpc "github.com/foomo/gotsrpc/v2"
)

const (
	ctJSON = "application/json; charset=utf-8"
	ctMsg  = "application/msgpack; charset=utf-8"
)

var rr = &rt.Recorder{}

type seen struct {
	w     http.ResponseWriter
	r     *http.Request
	args  []any
	rets  []any
	stats *gotsrpc.CallStats
	after int // bytes already sent when the hook ran
	state gotsrpc.CallStats
	shown string
}

type target struct {
	name, endpoint string
	typ            reflect.Type
	raw            http.Handler
	h              http.Handler // what is being served: plain or instrumented
	recs           []*gotsrpc.CallStats
	req            *http.Request
	rw             http.ResponseWriter
}

func (t *target) ServeHTTP(w http.ResponseWriter, r *http.Request) {
	t.req, t.rw = r, w
	t.h.ServeHTTP(w, r)
}

var (
	hooked []seen
	cur    *lib.RespRec
)

func targets() []*target {
	return []*target{
		{name: "Echo", endpoint: "/echo", typ: reflect.TypeOf((*echo.Echo)(nil)).Elem(), raw: echo.NewDefaultEchoGoTSRPCProxy(&echorec.Echo{Rec: rr})},
		{name: "Plain", endpoint: "/svc/plain", typ: reflect.TypeOf((*echo.Plain)(nil)), raw: echo.NewDefaultPlainGoTSRPCProxy(&echo.Plain{Rec: rr})},
		{name: "Errs", endpoint: "/errs", typ: reflect.TypeOf((*errs.Errs)(nil)).Elem(), raw: errs.NewDefaultErrsGoTSRPCProxy(&errsrec.Errs{Rec: rr})},
		{name: "Route", endpoint: "/r", typ: reflect.TypeOf((*route.Route)(nil)).Elem(), raw: route.NewDefaultRouteGoTSRPCProxy(&routerec.Route{Rec: rr})},
	}
}

func encode(n *lib.Node, enc lib.Enc) []byte {
	if enc == lib.Msgpack {
		return n.Msgpack(0)
	}
	return []byte(n.JSONText(""))
}

func decode(b []byte, enc lib.Enc) (any, error) {
	if enc == lib.Msgpack {
		return lib.DecMsgpack(b)
	}
	return lib.DecJSON(b)
}

func label(enc lib.Enc) string {
	if enc == lib.Msgpack {
		return ctMsg
	}
	return ctJSON
}

func distinct(ts []reflect.Type, seed int) (out []reflect.Value) {
	for i, t := range ts {
		out = append(out, lib.Distinct(t, seed+i, 3))
	}
	return
}

func methodOf(t reflect.Type, name string) lib.Method {
	for _, m := range lib.Methods(t) {
		if m.Name == name {
			return m
		}
	}
	panic(name)
}

func post(t *target, path string, enc lib.Enc, body []byte) *lib.RespRec {
	hooked = nil
	t.recs = nil
	rr.Take()
	return lib.Raw(t, "POST", path, label(enc), body, nil)
}

// served performs one call and checks what the hook saw.
func served(t *target, m lib.Method, enc lib.Enc, args, rets []reflect.Value) error {
	var body []byte
	if len(args) > 0 {
		body = encode(lib.List(args), enc)
	}
	given := lib.Anys(rets)
	rr.Script = func(_, _ string, _ []any) []any { return given }
	rec := post(t, t.endpoint+"/"+m.Name, enc, body)
	calls := rr.Take()
	if rec.Status != 200 || len(calls) != 1 {
		return fmt.Errorf("status %d, %d invocations", rec.Status, len(calls))
	}
	if len(hooked) != 1 {
		return fmt.Errorf("the hook ran %d times", len(hooked))
	}
	s := hooked[0]
	if s.after != rec.Body.Len() || rec.Body.Len() == 0 {
		return fmt.Errorf("the hook ran with %d of %d reply bytes sent", s.after, rec.Body.Len())
	}
	if s.r != t.req {
		return fmt.Errorf("the hook got another request")
	}
	if s.w != t.rw {
		return fmt.Errorf("the hook got another writer")
	}
	if len(s.args) != len(args) {
		return fmt.Errorf("the hook got %d arguments, want %d", len(s.args), len(args))
	}
	for i := range args {
		v := reflect.ValueOf(s.args[i])
		if !v.IsValid() {
			if args[i].Kind() == reflect.Ptr || args[i].Kind() == reflect.Slice || args[i].Kind() == reflect.Map || args[i].Kind() == reflect.Interface {
				if args[i].IsNil() {
					continue
				}
			}
			return fmt.Errorf("argument %d is missing", i)
		}
		if v.Type() == reflect.PtrTo(args[i].Type()) {
			v = v.Elem()
		}
		if d := lib.Equal(args[i], v, lib.EqOpt{}); d != "" {
			return fmt.Errorf("the hook's argument %d: %s", i, d)
		}
	}
	if len(s.rets) != len(given) {
		return fmt.Errorf("the hook got %d results, want %d", len(s.rets), len(given))
	}
	for i := range given {
		if err := same(given[i], s.rets[i]); err != nil {
			return fmt.Errorf("the hook's result %d: %w", i, err)
		}
	}
	if s.stats == nil {
		return fmt.Errorf("the hook got no statistics")
	}
	if s.stats.Func != m.Name || s.stats.Service != t.name || s.stats.ResponseSize != rec.Body.Len() || (len(args) > 0 && s.stats.RequestSize != len(body)) {
		return fmt.Errorf("the hook's statistics %+v", *s.stats)
	}
	if len(t.recs) > 0 && s.state != *t.recs[0] {
		return fmt.Errorf("the hook's statistics %+v are not the recorded ones %+v", s.state, *t.recs[0])
	}
	return nil
}

// same requires the very value: identical pointers, maps and slices.
func same(want, got any) error {
	a, b := reflect.ValueOf(want), reflect.ValueOf(got)
	if !a.IsValid() || !b.IsValid() {
		if a.IsValid() != b.IsValid() {
			return fmt.Errorf("%v, want %v", got, want)
		}
		return nil
	}
	if a.Type() != b.Type() {
		return fmt.Errorf("type %s, want %s", b.Type(), a.Type())
	}
	switch a.Kind() {
	case reflect.Ptr, reflect.Map, reflect.Slice:
		if a.Pointer() != b.Pointer() {
			return fmt.Errorf("a copy of %s", lib.Show(a))
		}
	}
	if d := lib.Equal(a, b, lib.EqOpt{}); d != "" {
		return fmt.Errorf("%s", d)
	}
	return nil
}

func main() {
	r := lib.Start()
	os.Stderr, _ = os.OpenFile(os.DevNull, os.O_WRONLY, 0)
	ts := targets()
	gotsrpc.Monitor = func(w http.ResponseWriter, rq *http.Request, args, rets []interface{}, stats *gotsrpc.CallStats) {
		s := seen{w: w, r: rq, args: args, rets: rets, stats: stats}
		if stats != nil {
			s.state = *stats
		}
		if rec, ok := w.(*lib.RespRec); ok {
			s.after = rec.Body.Len()
		}
		hooked = append(hooked, s)
	}
	ck := func(name, key string, replay any, f func() error) {
		if r.Expired() {
			return
		}
		r.State(name)
		r.Trace(1)
		r.Check(name, key, replay, f)
	}
	depth := 1
	if r.Thorough {
		depth = 2
	}
	for _, instrumented := range []bool{false, true} {
		mode := "plain"
		for _, t := range ts {
			t := t
			t.h = t.raw
			if instrumented {
				mode = "instrumented"
				t.h = gotsrpc.InstrumentedService(t.raw.ServeHTTP, func(s *gotsrpc.CallStats) { t.recs = append(t.recs, s) })
			}
		}
		// 1. every method, encoding, one value varied at a time
		for _, t := range ts {
			for _, m := range lib.Methods(t.typ) {
				for _, enc := range []lib.Enc{lib.Msgpack, lib.JSON} {
					var alpha [][]reflect.Value
					for i, x := range m.Args {
						alpha = append(alpha, lib.Values(x, 1+i, lib.Opt{Enc: enc, Depth: depth}))
					}
					for i, x := range m.Rets {
						if x == lib.ErrorType {
							var es []reflect.Value
							for _, e := range []error{nil, errs.ErrPlain, &errs.Struct{Code: 2}, errs.Scalar("s"), fmt.Errorf("w: %w", errs.ErrPlain), errs.Unit{}} {
								es = append(es, reflect.ValueOf(&e).Elem())
							}
							alpha = append(alpha, es)
							continue
						}
						alpha = append(alpha, lib.Values(x, 51+i, lib.Opt{Enc: enc, Depth: depth}))
					}
					k := 0
					lib.Explore(1, r.Expired, func(c *lib.Chooser) {
						k++
						vs := make([]reflect.Value, len(alpha))
						for i := range alpha {
							vs[i] = alpha[i][c.Pick(len(alpha[i]))]
						}
						args, rets := vs[:len(m.Args)], vs[len(m.Args):]
						ck(fmt.Sprintf("%s %s.%s %s %d", mode, t.name, m.Name, enc, k), "hook:"+enc.String(), map[string]any{"mode": mode, "service": t.name, "method": m.Name, "encoding": enc.String(), "args": lib.ShowAll(args), "results": lib.ShowAll(rets)}, func() error {
							return served(t, m, enc, args, rets)
						})
					})
				}
			}
		}

		// 2. histories of served, refused and failing exchanges: the hook runs for the served ones only, and its data stays as it was
		type op struct {
			name string
			do   func() error
		}
		var ops []op
		add := func(t *target, method string, enc lib.Enc, rets ...any) {
			m := methodOf(t.typ, method)
			args := distinct(m.Args, len(ops)+1)
			rv := distinct(m.Rets, len(ops)+31)
			for i, x := range rets {
				rv[i] = reflect.ValueOf(&x).Elem()
			}
			ops = append(ops, op{fmt.Sprintf("%s.%s/%s", t.name, method, enc), func() error { return served(t, m, enc, args, rv) }})
		}
		none := func(name string, do func() int) {
			ops = append(ops, op{name, func() error {
				hooked = nil
				st := do()
				if st == 200 {
					return fmt.Errorf("%s answered 200", name)
				}
				if len(hooked) != 0 {
					return fmt.Errorf("the hook ran for %s", name)
				}
				return nil
			}})
		}
		add(ts[0], "Mixed", lib.Msgpack)
		add(ts[0], "Mixed", lib.JSON)
		add(ts[0], "Nothing", lib.Msgpack)
		add(ts[0], "RawArgs", lib.JSON)
		add(ts[1], "Add", lib.JSON)
		add(ts[2], "Plain", lib.Msgpack, errs.ErrPlain)
		add(ts[2], "Plain", lib.JSON, errs.ErrPlain)
		add(ts[3], "Raw", lib.Msgpack)
		none("unknown method", func() int { return post(ts[0], "/echo/Nope", lib.JSON, []byte("[1]")).Status })
		none("truncated JSON", func() int { return post(ts[0], "/echo/Mixed", lib.JSON, []byte(`["a",`)).Status })
		none("truncated msgpack", func() int { return post(ts[0], "/echo/Mixed", lib.Msgpack, []byte{0x95, 0xa1}).Status })
		none("GET", func() int { return lib.Raw(ts[0], "GET", "/echo/Nothing", ctJSON, nil, nil).Status })
		none("unencodable result", func() int {
			rr.Script = func(_, _ string, _ []any) []any { return []any{unsafe.Pointer(rr)} }
			return post(ts[0], "/echo/Any", lib.JSON, []byte("[1]")).Status
		})
		ops = append(ops, op{"broken connection", func() error {
			hooked = nil
			rr.Script = func(_, _ string, _ []any) []any { return []any{strings.Repeat("x", 50)} }
			h := http.HandlerFunc(func(w http.ResponseWriter, rq *http.Request) {
				rec := w.(*lib.RespRec)
				rec.FailAt = 5
				ts[0].ServeHTTP(w, rq)
			})
			lib.Raw(h, "POST", "/echo/Str", ctJSON, []byte(`["a"]`), nil)
			if len(hooked) != 0 {
				return fmt.Errorf("the hook ran for a reply that could not be sent")
			}
			return nil
		}})
		ops = append(ops, op{"OPTIONS", func() error {
			hooked = nil
			lib.Raw(ts[0], "OPTIONS", "/echo/Mixed", ctJSON, nil, nil)
			if len(hooked) != 0 {
				return fmt.Errorf("the hook ran for OPTIONS")
			}
			return nil
		}})
		n := 3
		if r.Thorough {
			n = 4
		}
		seq := make([]int, n)
		var walk func(i int)
		walk = func(i int) {
			if i == n {
				name := mode + " history"
				for _, k := range seq {
					name += " > " + ops[k].name
				}
				ck(name, "history", map[string]any{"history": name}, func() error {
					var kept []seen
					for j, k := range seq {
						if err := ops[k].do(); err != nil {
							return fmt.Errorf("step %d (%s): %w", j, ops[k].name, err)
						}
						for _, s := range hooked {
							s.shown = show(s)
							kept = append(kept, s)
						}
					}
					for _, s := range kept {
						if s2 := show(s); s2 != s.shown {
							return fmt.Errorf("data of an earlier hook run changed: %s -> %s", s.shown, s2)
						}
					}
					return nil
				})
				return
			}
			for k := range ops {
				seq[i] = k
				walk(i + 1)
			}
		}
		walk(0)

		// 3. raw methods: all sequences of actions on the live writer
		actions(r, ck, mode, ts[3], instrumented)
	}
	r.Sample(map[string]any{"raw method": "WriteHeader(103) > Header().Set > return", "expected": "final status 200, so the reply follows"})
	r.Finish()
}

func show(s seen) string {
	out := ""
	for _, a := range s.args {
		out += lib.Full(reflect.ValueOf(a)) + ","
	}
	for _, a := range s.rets {
		out += lib.Full(reflect.ValueOf(a)) + ";"
	}
	return out + fmt.Sprintf("%+v", *s.stats)
}

type action struct {
	name string
	do   func(w http.ResponseWriter, r *http.Request)
}

// model of the answer: the first final status counts
type model struct {
	status int
	body   []byte
}

func actions(r *lib.Run, ck func(string, string, any, func() error), mode string, t *target, instrumented bool) {
	type act struct {
		name string
		do   func(w http.ResponseWriter, rq *http.Request)
		mod  func(m *model)
	}
	head := func(s int) act {
		return act{fmt.Sprintf("WriteHeader(%d)", s), func(w http.ResponseWriter, _ *http.Request) { w.WriteHeader(s) }, func(m *model) {
			if m.status == 0 && s >= 200 {
				m.status = s
			}
		}}
	}
	write := func(s string) act {
		return act{fmt.Sprintf("Write(%q)", s), func(w http.ResponseWriter, _ *http.Request) { _, _ = w.Write([]byte(s)) }, func(m *model) {
			if m.status == 0 {
				m.status = 200
			}
			m.body = append(m.body, s...)
		}}
	}
	acts := []act{head(103), head(100), head(200), head(204), head(302), head(404), head(500), write("own text"), write(""),
		{"Header().Set", func(w http.ResponseWriter, _ *http.Request) { w.Header().Set("X-Own", "v") }, func(*model) {}},
		{"http.Error", func(w http.ResponseWriter, _ *http.Request) { http.Error(w, "no", 403) }, func(m *model) {
			if m.status == 0 {
				m.status = 403
			}
			m.body = append(m.body, "no\n"...)
		}},
		{"http.Redirect", func(w http.ResponseWriter, rq *http.Request) { http.Redirect(w, rq, "/else", 307) }, func(m *model) {
			if m.status == 0 {
				m.status = 307
			}
		}},
	}
	all := acts[:len(acts):len(acts)]
	for s := 201; s < 600; s++ {
		if s != 204 && s != 302 && s != 404 && s != 500 {
			all = append(all, head(s))
		}
	}
	max := 3
	if r.Thorough {
		max = 4
	}
	var seq []act
	var walk func()
	walk = func() {
		for _, meth := range []string{"Raw", "RawArg"} {
			for _, enc := range []lib.Enc{lib.Msgpack, lib.JSON} {
				m := methodOf(t.typ, meth)
				names := []string{}
				for _, a := range seq {
					names = append(names, a.name)
				}
				cur := append([]act(nil), seq...)
				name := fmt.Sprintf("%s %s %s %s", mode, meth, enc, strings.Join(names, " > "))
				ck(name, "raw", map[string]any{"mode": mode, "method": meth, "encoding": enc.String(), "actions": names}, func() error {
					args, rets := distinct(m.Args, 3), distinct(m.Rets, 8)
					var body []byte
					if len(args) > 0 {
						body = encode(lib.List(args), enc)
					}
					var gotReq *http.Request
					var gotArg []any
					md := &model{}
					rr.Script = func(_, _ string, a []any) []any {
						gotReq = a[1].(*http.Request)
						gotArg = a[2:]
						w := a[0].(http.ResponseWriter)
						if w.Header() == nil {
							panic("no header")
						}
						w.Header().Set("X-Live", "yes")
						for _, x := range cur {
							x.do(w, gotReq)
							x.mod(md)
						}
						return lib.Anys(rets)
					}
					rec := post(t, t.endpoint+"/"+meth, enc, body)
					if gotReq == nil {
						return fmt.Errorf("not invoked")
					}
					if gotReq != t.req {
						return fmt.Errorf("the method got another request")
					}
					for i := range args {
						if d := lib.Equal(args[i], reflect.ValueOf(&gotArg[i]).Elem().Elem(), lib.EqOpt{}); d != "" {
							return fmt.Errorf("argument: %s", d)
						}
					}
					if rec.Sent.Get("X-Live") != "yes" {
						return fmt.Errorf("a header set by the method did not reach the answer")
					}
					want := md.status
					if want == 0 {
						want = 200
					}
					if rec.Status != want {
						return fmt.Errorf("status %d, want %d", rec.Status, want)
					}
					got := rec.Body.Bytes()
					if want == 307 && len(md.body) == 0 && bytes.Contains(got, []byte("/else")) {
						return nil // http.Redirect's own body
					}
					if !bytes.HasPrefix(got, md.body) {
						return fmt.Errorf("answer %q does not start with the method's own %q", got, md.body)
					}
					rest := got[len(md.body):]
					if want != 200 {
						if len(rest) != 0 {
							return fmt.Errorf("%q appended to an answer of status %d", rest, want)
						}
						return nil
					}
					v, err := decode(rest, enc)
					if err != nil {
						return fmt.Errorf("no reply follows: %q", rest)
					}
					exp, _ := decode(encode(lib.List(rets), enc), enc)
					if !reflect.DeepEqual(v, exp) {
						return fmt.Errorf("reply %v, want %v", v, exp)
					}
					if len(hooked) != 1 {
						return fmt.Errorf("the hook ran %d times", len(hooked))
					}
					if instrumented && len(t.recs) != 1 {
						return fmt.Errorf("%d records", len(t.recs))
					}
					return nil
				})
			}
		}
		if len(seq) == max {
			return
		}
		for _, a := range acts {
			if a.name == "http.Redirect" && len(seq) > 0 {
				continue
			}
			if len(seq) > 0 && seq[0].name == "http.Redirect" {
				continue
			}
			seq = append(seq, a)
			walk()
			seq = seq[:len(seq)-1]
		}
	}
	walk()
	acts, max = all, 1
	if r.Thorough {
		max = 2
	}
	walk()
}
