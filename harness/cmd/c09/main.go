// Driver of C09: concurrent calls under every schedule with a bounded number of preemptions, race detector on.
package main

import (
	"bufio"
	"bytes"
	"context"
	"encoding/json"
	"errors"
	"flag"
	"fmt"
	"io"
	"net/http"
	"os"
	"os/exec"
	"path/filepath"
	"reflect"
	"runtime"
	"sort"
	"strings"
	"sync"
	"time"

	"example.com/vh/lib"
	"example.com/vh/rt"
	"example.com/vh/sched"
	"example.com/vh/svc/echo"
	echorec "example.com/vh/svc/echo/rec"
	"example.com/vh/svc/errs"
	errsrec "example.com/vh/svc/errs/rec"
	"example.com/vh/svc/times"
	timesrec "example.com/vh/svc/times/rec"
	gotsrpc "github.com/foomo/gotsrpc/v2"
	gprom "github.com/foomo/gotsrpc/v2/prometheus"
	"github.com/prometheus/client_golang/prometheus"
	"github.com/prometheus/client_golang/prometheus/collectors"
)

const (
	ctJSON = "application/json; charset=utf-8"
	ctMsg  = "application/msgpack; charset=utf-8"
)

// obs is what one call's own thread saw of its exchange.
type obs struct {
	lines []string
	// what a transport has not sent yet when the answer is there already
	late io.ReadCloser
	// statistics a handler has kept
	stats []*gotsrpc.CallStats
}

func (o *obs) add(f string, a ...any) {
	o.lines = append(o.lines, fmt.Sprintf(f, a...))
}

var slots [8]*obs

func my() *obs {
	if i := sched.Current(); i >= 0 {
		return slots[i]
	}
	return slots[7]
}

// wire runs the handler in the calling goroutine and notes both messages.
type wire struct{ h http.Handler }

func headers(h http.Header) string {
	var ks []string
	for k := range h {
		ks = append(ks, k)
	}
	sort.Strings(ks)
	s := ""
	for _, k := range ks {
		s += fmt.Sprintf("%s=%q ", k, h[k])
	}
	return s
}

func (w wire) RoundTrip(req *http.Request) (*http.Response, error) {
	sched.Yield()
	if req.URL.Host == "late.test" {
		// as net/http does: an answer may be there before the body has been sent, sending goes on meanwhile
		b := make([]byte, 3)
		_, _ = io.ReadFull(req.Body, b)
		o := my()
		o.add("request begins %s %s %q", req.URL.Path, headers(req.Header), b)
		o.late = req.Body
		rec := lib.NewRespRec()
		http.Error(rec, "method not found", http.StatusNotFound)
		rec.End()
		return rec.Response(req), nil
	}
	var buf bytes.Buffer
	if err := req.Write(&buf); err != nil {
		return nil, err
	}
	sched.Yield()
	o := my()
	b := append([]byte(nil), buf.Bytes()...)
	sreq, err := http.ReadRequest(bufio.NewReader(&buf))
	if err != nil {
		return nil, err
	}
	_, body, _ := bytes.Cut(b, []byte("\r\n\r\n"))
	o.add("request %s %s %q", sreq.URL.Path, headers(sreq.Header), body)
	sreq = sreq.WithContext(req.Context())
	rec := lib.NewRespRec()
	w.h.ServeHTTP(rec, sreq)
	rec.End()
	sched.Yield()
	o.add("answer %d %s %q", rec.Status, headers(rec.Sent), rec.Body.Bytes())
	return rec.Response(req), nil
}

// showErr renders a received error: messages down the chain and the sentinels and types it is.
func showErr(err error) string {
	if err == nil {
		return "nil"
	}
	s := ""
	for e := err; e != nil; e = errors.Unwrap(e) {
		s += fmt.Sprintf("%T:%q;", e, e.Error())
	}
	for i, t := range []error{errs.ErrPlain, errs.ErrOther, errs.ScalarOne, errs.ScalarTwo} {
		s += fmt.Sprintf(" is%d=%v", i, errors.Is(err, t))
	}
	var st *errs.Struct
	if errors.As(err, &st) {
		s += fmt.Sprintf(" as=%d %q %v", st.Code, st.Text, st.Bag)
		if st.Inner != nil {
			s += fmt.Sprintf("%+v", *st.Inner)
		}
	}
	return s
}

func show(vs []reflect.Value) string {
	s := ""
	for _, v := range vs {
		if v.Type().Implements(lib.ErrorType) && v.Kind() == reflect.Interface {
			if v.IsNil() {
				s += "nil "
			} else {
				s += showErr(v.Interface().(error)) + " "
			}
			continue
		}
		s += lib.Full(v) + " "
	}
	return s
}

func showAny(vs []any) string {
	s := ""
	for _, v := range vs {
		if v == nil {
			s += "nil "
			continue
		}
		if e, ok := v.(error); ok {
			s += showErr(e) + " "
			continue
		}
		s += lib.Full(reflect.ValueOf(v)) + " "
	}
	return s
}

func showStats(s *gotsrpc.CallStats) string {
	c := *s
	neg := c.Execution < 0 || c.Marshalling < 0 || c.Unmarshalling < 0
	c.Execution, c.Marshalling, c.Unmarshalling = 0, 0, 0
	return fmt.Sprintf("%+v neg=%v", c, neg)
}

var (
	handler  http.Handler
	scripted [8]func(method string, args []any) []any
)

func direct(service, method string, args []any) []any {
	sched.Yield()
	my().add("service %s.%s %s", service, method, showAny(args))
	i := sched.Current()
	if i < 0 {
		i = 7
	}
	f := scripted[i]
	sched.Yield()
	if f == nil {
		return nil
	}
	return f(method, args)
}

func setup() {
	rr := &rt.Recorder{Direct: direct}
	mux := map[string]http.Handler{
		"/echo":      echo.NewDefaultEchoGoTSRPCProxy(&echorec.Echo{Rec: rr}),
		"/svc/plain": echo.NewDefaultPlainGoTSRPCProxy(&echo.Plain{Rec: rr}),
		"/errs":      errs.NewDefaultErrsGoTSRPCProxy(&errsrec.Errs{Rec: rr}),
		"/times":     times.NewDefaultTimesGoTSRPCProxy(&timesrec.Times{Rec: rr}),
	}
	inst := map[string]http.HandlerFunc{}
	for k, h := range mux {
		inst[k] = gotsrpc.InstrumentedService(h.ServeHTTP, func(s *gotsrpc.CallStats) {
			o := my()
			o.add("stats %s", showStats(s))
			o.stats = append(o.stats, s)
		})
	}
	prom := gprom.InstrumentService(mux["/svc/plain"].ServeHTTP)
	inst["/prom/svc/plain"] = func(w http.ResponseWriter, r *http.Request) {
		r.URL.Path = strings.TrimPrefix(r.URL.Path, "/prom")
		prom(w, r)
	}
	handler = http.HandlerFunc(func(w http.ResponseWriter, r *http.Request) {
		if r.Host == "bare.test" { // a service nobody instruments
			mux["/echo"].ServeHTTP(w, r)
			return
		}
		for k, h := range inst {
			if strings.HasPrefix(r.URL.Path, k+"/") {
				h(w, r)
				return
			}
		}
		http.NotFound(w, r)
	})
	gotsrpc.Monitor = func(w http.ResponseWriter, r *http.Request, args, rets []interface{}, stats *gotsrpc.CallStats) {
		sched.Yield()
		my().add("monitor %s | %s | %s | %s", r.URL.Path, showAny(args), showAny(rets), showStats(stats))
	}
}

var withProm bool

func promState() string {
	if !withProm {
		return ""
	}
	fs, err := prometheus.DefaultGatherer.Gather()
	if err != nil {
		return err.Error()
	}
	s := ""
	for _, f := range fs {
		if f.GetName() != "gotsrpc_service_size_bytes" {
			continue
		}
		for _, m := range f.Metric {
			l := ""
			for _, p := range m.Label {
				l += p.GetName() + "=" + p.GetValue() + ","
			}
			s += fmt.Sprintf("%s %d %v;", l, m.Summary.GetSampleCount(), m.Summary.GetSampleSum())
		}
	}
	return s
}

func promDelta(a, b string) string {
	parse := func(s string) map[string][2]float64 {
		m := map[string][2]float64{}
		for _, l := range strings.Split(s, ";") {
			var k string
			var n, v float64
			if _, err := fmt.Sscanf(l, "%s %f %f", &k, &n, &v); err == nil {
				m[k] = [2]float64{n, v}
			}
		}
		return m
	}
	x, y := parse(a), parse(b)
	var out []string
	for k, v := range y {
		if d := [2]float64{v[0] - x[k][0], v[1] - x[k][1]}; d != [2]float64{} {
			out = append(out, fmt.Sprintf("%s %v %v", k, d[0], d[1]))
		}
	}
	sort.Strings(out)
	return strings.Join(out, "; ")
}

// clients is what the calls of one scenario may share.
type clients struct {
	hc    *http.Client
	hdr   http.Header
	made  map[string]any
	cache map[string]gotsrpc.Client
}

func newClients() *clients {
	return &clients{hc: &http.Client{Transport: wire{handler}}, hdr: http.Header{"X-Shared": {"one", "two"}, "Accept": {"mine"}}, cache: map[string]gotsrpc.Client{}}
}

// call is one kind of call; prepare runs before the threads start and gives the thread's body.
type call struct {
	name    string
	prepare func(c *clients, i int, shared bool) func()
}

func (c *clients) client(kind string, enc lib.Enc, i int, shared bool) (cl any, base gotsrpc.Client) {
	key := fmt.Sprintf("%s %s", kind, enc)
	if !shared {
		key += fmt.Sprint(i)
	}
	base, ok := c.cache[enc.String()+map[bool]string{false: fmt.Sprint(i)}[shared]]
	if !ok {
		base = gotsrpc.NewClientWithHttpClient(c.hc)
		base.SetDefaultHeaders(c.hdr)
		if enc == lib.JSON {
			base.SetClientEncoding(gotsrpc.EncodingJson)
		}
		c.cache[enc.String()+map[bool]string{false: fmt.Sprint(i)}[shared]] = base
	}
	switch kind {
	case "echo":
		cl = &echo.HTTPEchoGoTSRPCClient{URL: "http://svc.test", EndPoint: "/echo", Client: base}
	case "late":
		cl = &echo.HTTPEchoGoTSRPCClient{URL: "http://late.test", EndPoint: "/echo", Client: base}
	case "bare":
		cl = &echo.HTTPEchoGoTSRPCClient{URL: "http://bare.test", EndPoint: "/echo", Client: base}
	case "plain":
		cl = &echo.HTTPPlainGoTSRPCClient{URL: "http://svc.test", EndPoint: "/svc/plain", Client: base}
	case "prom":
		cl = &echo.HTTPPlainGoTSRPCClient{URL: "http://svc.test/prom", EndPoint: "/svc/plain", Client: base}
	case "errs":
		cl = &errs.HTTPErrsGoTSRPCClient{URL: "http://svc.test", EndPoint: "/errs", Client: base}
	case "times":
		cl = &times.HTTPTimesGoTSRPCClient{URL: "http://svc.test", EndPoint: "/times", Client: base}
	}
	return
}

func types(kind string) reflect.Type {
	switch kind {
	case "echo", "late", "bare":
		return reflect.TypeOf((*echo.Echo)(nil)).Elem()
	case "plain", "prom":
		return reflect.TypeOf((*echo.Plain)(nil))
	case "errs":
		return reflect.TypeOf((*errs.Errs)(nil)).Elem()
	}
	return reflect.TypeOf((*times.Times)(nil)).Elem()
}

func method(kind, name string) lib.Method {
	for _, m := range lib.Methods(types(kind)) {
		if m.Name == name {
			return m
		}
	}
	panic(kind + name)
}

// oneKey leaves one entry in every map, so that encodings are the same every time.
func oneKey(v reflect.Value) reflect.Value {
	switch v.Kind() {
	case reflect.Ptr:
		if !v.IsNil() {
			oneKey(v.Elem())
		}
	case reflect.Slice:
		for i := 0; i < v.Len(); i++ {
			oneKey(v.Index(i))
		}
	case reflect.Struct:
		for i := 0; i < v.NumField(); i++ {
			if v.Type().Field(i).PkgPath == "" {
				oneKey(v.Field(i))
			}
		}
	case reflect.Map:
		ks := v.MapKeys()
		sort.Slice(ks, func(i, j int) bool { return fmt.Sprint(ks[i]) < fmt.Sprint(ks[j]) })
		for i, k := range ks {
			if i > 0 {
				v.SetMapIndex(k, reflect.Value{})
			} else {
				oneKey(v.MapIndex(k))
			}
		}
	}
	return v
}

// typed is a call through the generated client with values of its own.
func typed(kind, meth string, enc lib.Enc, rets func(i int) []any) call {
	return call{fmt.Sprintf("%s.%s %s", kind, meth, enc), func(c *clients, i int, shared bool) func() {
		m := method(kind, meth)
		cl, _ := c.client(kind, enc, i, shared)
		var args []reflect.Value
		for j, t := range m.Args {
			args = append(args, oneKey(lib.Distinct(t, 100*(i+1)+j, 3)))
		}
		var answer []any
		if rets != nil {
			answer = rets(i)
		} else {
			for j, t := range m.Rets {
				answer = append(answer, oneKey(lib.Distinct(t, 100*(i+1)+50+j, 3)).Interface())
			}
		}
		scripted[i] = func(string, []any) []any { return answer }
		sent := show(args)
		return func() {
			got, cerr, err := lib.Invoke(cl, m.Name, context.Background(), args)
			sched.Yield()
			o := my()
			o.add("result %s client error %s %v", show(got), showErr(cerr), err)
			if s := show(args); s != sent {
				o.add("arguments became %s", s)
			}
			for _, s := range o.stats {
				o.add("stats kept %s", showStats(s))
			}
			if o.late != nil {
				b, err := io.ReadAll(o.late)
				o.add("request ends %q %v", b, err)
				_ = o.late.Close()
			}
		}
	}}
}

// raw is a request built by hand.
func raw(name, verb, path, ct, body string) call {
	return call{name, func(c *clients, i int, shared bool) func() {
		scripted[i] = func(m string, args []any) []any { return nil }
		return func() {
			req, _ := http.NewRequest(verb, "http://svc.test"+path, strings.NewReader(strings.ReplaceAll(body, "#", fmt.Sprint(i))))
			req.Header.Set("Content-Type", ct)
			resp, err := c.hc.Do(req)
			if err != nil {
				my().add("error %v", err)
				return
			}
			b, _ := io.ReadAll(resp.Body)
			my().add("got %d %q", resp.StatusCode, b)
		}
	}}
}

func alphabet() []call {
	wrapped := func(i int) []any {
		return []any{fmt.Sprintf("res%d", i), fmt.Errorf("outer %d: %w", i, &errs.Struct{Code: i, Text: fmt.Sprint("text", i), Bag: map[string]string{"k": fmt.Sprint(i)}, Inner: &errs.Detail{A: i}})}
	}
	plain := func(i int) []any { return []any{fmt.Errorf("call %d: %w", i, errs.ErrPlain)} }
	return []call{
		typed("echo", "Str", lib.Msgpack, nil),
		typed("echo", "Str", lib.JSON, nil),
		typed("echo", "Mixed", lib.Msgpack, nil),
		typed("errs", "WithResult", lib.Msgpack, wrapped),
		typed("errs", "Plain", lib.JSON, plain),
		typed("errs", "Plain", lib.Msgpack, plain),
		typed("echo", "Nothing", lib.Msgpack, nil),
		typed("times", "Struct", lib.JSON, nil),
		typed("plain", "Add", lib.JSON, nil),
		typed("prom", "Add", lib.Msgpack, nil),
		typed("echo", "RawArgs", lib.Msgpack, nil),
		raw("bad arguments", "POST", "/echo/Str", ctJSON, `[{"a":#}]`),
		raw("unknown method", "POST", "/echo/Nope", ctJSON, `["#"]`),
		raw("wrong verb", "PUT", "/errs/Plain", ctMsg, ""),
		raw("by hand", "POST", "/errs/Many", ctJSON, `["x#",[#,2]]`),
		typed("late", "Str", lib.Msgpack, nil),
		typed("bare", "Str", lib.JSON, nil),
	}
}

type scenario struct {
	Calls  []int
	Shared bool
}

type job struct {
	Scen  scenario
	Bound int
	// Part of Parts of the first deviations
	Part, Parts int
	Cold        bool
	Schedules   [][]sched.Dev // cold: exactly these
	Secs        int
}

type jobResult struct {
	Execs, Steps, MaxSteps int
	Points                 int // yields met
	Outcomes               []string
	Violations             []lib.Violation
	Expired                bool
	Ns                     []uint8
	Forced                 []bool
}

func (s scenario) String() string {
	a := alphabet()
	var n []string
	for _, c := range s.Calls {
		n = append(n, a[c].name)
	}
	return strings.Join(n, " || ") + map[bool]string{true: " (shared client)", false: ""}[s.Shared]
}

type world struct {
	s      scenario
	alone  [][]string
	prom   string
	log    string
	races  int
	raceAt int
}

func (w *world) once(sc []sched.Dev) (sched.Trace, []*obs, string) {
	a := alphabet()
	cl := newClients()
	var bodies []func()
	for i, c := range w.s.Calls {
		slots[i] = &obs{}
		bodies = append(bodies, a[c].prepare(cl, i, w.s.Shared))
	}
	before := promState()
	t := sched.Run(sc, bodies...)
	after := promState()
	hdr := headers(cl.hdr)
	os_ := append([]*obs{}, slots[:len(w.s.Calls)]...)
	if hdr != headers(newClients().hdr) {
		os_[0].add("default headers became %s", hdr)
	}
	return t, os_, promDelta(before, after)
}

// single runs call i of the scenario alone (as thread i, the others being empty).
func (w *world) single(i int) (*obs, string) {
	a := alphabet()
	cl := newClients()
	var bodies []func()
	for j, c := range w.s.Calls {
		slots[j] = &obs{}
		b := a[c].prepare(cl, j, w.s.Shared)
		if j != i {
			b = func() {}
		}
		bodies = append(bodies, b)
	}
	before := promState()
	sched.Run(nil, bodies...)
	return slots[i], promDelta(before, promState())
}

func (w *world) reference() {
	w.alone = nil
	sums := map[string][2]float64{}
	for i := range w.s.Calls {
		o, d := w.single(i)
		w.alone = append(w.alone, o.lines)
		for _, l := range strings.Split(d, "; ") {
			var k string
			var n, v float64
			if _, err := fmt.Sscanf(l, "%s %f %f", &k, &n, &v); err == nil {
				x := sums[k]
				sums[k] = [2]float64{x[0] + n, x[1] + v}
			}
		}
	}
	var out []string
	for k, d := range sums {
		out = append(out, fmt.Sprintf("%s %v %v", k, d[0], d[1]))
	}
	sort.Strings(out)
	w.prom = strings.Join(out, "; ")
}

func (w *world) judge(sc []sched.Dev, t sched.Trace, os_ []*obs, prom string) *lib.Violation {
	rep := map[string]any{"scenario": w.s.String(), "schedule": sc}
	if t.Stuck {
		buf := make([]byte, 1<<16)
		n := runtime.Stack(buf, true)
		return &lib.Violation{Key: "deadlock", Msg: fmt.Sprintf("%s: no thread can go on, schedule %v\n%s", w.s, sc, buf[:n]), Replay: rep}
	}
	if r := sched.Races(); r > w.races {
		w.races = r
		text := w.raceText()
		rep["report"] = text
		return &lib.Violation{Key: "race", Msg: fmt.Sprintf("%s: unsynchronised access\n%s", w.s, text), Replay: rep}
	}
	if w.alone == nil {
		return nil
	}
	for i, o := range os_ {
		if fmt.Sprint(o.lines) != fmt.Sprint(w.alone[i]) {
			d := ""
			for j := 0; j < len(o.lines) || j < len(w.alone[i]); j++ {
				x, y := "", ""
				if j < len(o.lines) {
					x = o.lines[j]
				}
				if j < len(w.alone[i]) {
					y = w.alone[i][j]
				}
				if x != y {
					d = fmt.Sprintf("alone %q, here %q", y, x)
					break
				}
			}
			return &lib.Violation{Key: "interference", Msg: fmt.Sprintf("%s: call %d (%s) under schedule %v: %s", w.s, i, alphabet()[w.s.Calls[i]].name, sc, d), Replay: rep}
		}
	}
	if prom != w.prom {
		return &lib.Violation{Key: "metrics", Msg: fmt.Sprintf("%s under schedule %v: metrics grew by %s, want %s", w.s, sc, prom, w.prom), Replay: rep}
	}
	return nil
}

func (w *world) raceText() string {
	fs, _ := filepath.Glob(w.log + ".*")
	for _, f := range fs {
		if b, err := os.ReadFile(f); err == nil && len(b) > w.raceAt {
			s := string(b[w.raceAt:])
			w.raceAt = len(b)
			if len(s) > 3000 {
				s = s[:3000]
			}
			return s
		}
	}
	return ""
}

func worker(j job, log string) (res jobResult) {
	runtime.GOMAXPROCS(1)
	w := &world{s: j.Scen, log: log}
	setup()
	for _, c := range j.Scen.Calls {
		withProm = withProm || strings.HasPrefix(alphabet()[c].name, "prom")
	}
	prometheus.Unregister(collectors.NewGoCollector())
	prometheus.Unregister(collectors.NewProcessCollector(collectors.ProcessCollectorOpts{}))
	end := time.Now().Add(time.Duration(j.Secs) * time.Second)
	outcomes := map[string]bool{}
	report := func(sc []sched.Dev, t sched.Trace, os_ []*obs, prom string) {
		res.Execs++
		res.Steps += len(t.N)
		if len(t.N) > res.MaxSteps {
			res.MaxSteps = len(t.N)
		}
		if v := w.judge(sc, t, os_, prom); v != nil {
			// results that differ have to differ again; a race report is one already
			if v.Key == "interference" || v.Key == "metrics" {
				for k := 0; k < 3 && !j.Cold; k++ {
					t2, o2, p2 := w.once(sc)
					if w.judge(sc, t2, o2, p2) == nil {
						return
					}
				}
			}
			if len(res.Violations) < 6 {
				res.Violations = append(res.Violations, *v)
			}
		}
		var ls []string
		for _, o := range os_ {
			ls = append(ls, o.lines...)
		}
		outcomes[fmt.Sprint(len(t.N), len(ls))] = true
	}
	if j.Cold {
		for _, sc := range j.Schedules {
			t, o, p := w.once(sc)
			res.Ns, res.Forced = t.N, t.Forced
			report(sc, t, o, p)
			if !t.Stuck && len(res.Violations) == 0 {
				// the calls alone, now in this process, are what they should have been
				w.reference()
				if v := w.judge(sc, t, o, p); v != nil {
					res.Violations = append(res.Violations, *v)
				}
			}
		}
		return
	}
	w.reference()
	w.reference()
	type item struct{ sc []sched.Dev }
	level := []item{{nil}}
	first := 0
	for d := 0; d <= j.Bound; d++ {
		var next []item
		for len(level) > 0 {
			it := level[0]
			level = level[1:]
			if time.Now().After(end) {
				res.Expired = true
				return
			}
			t, o, p := w.once(it.sc)
			if !(d == 0 && j.Part > 0) {
				report(it.sc, t, o, p)
			}
			if t.Stuck || len(res.Violations) >= 3 {
				return
			}
			from := 0
			if len(it.sc) > 0 {
				from = it.sc[len(it.sc)-1].Step + 1
			}
			for k := from; k < len(t.N); k++ {
				if !t.Forced[k] && d == j.Bound {
					continue
				}
				for c := 1; c < int(t.N[k]); c++ {
					if d == 0 && !t.Forced[k] {
						first++
						if first%j.Parts != j.Part {
							continue
						}
					}
					sc := append(append([]sched.Dev{}, it.sc...), sched.Dev{Step: k, Choice: c})
					if t.Forced[k] {
						level = append(level, item{sc})
					} else {
						next = append(next, item{sc})
					}
				}
			}
		}
		level = next
	}
	for k := range outcomes {
		res.Outcomes = append(res.Outcomes, k)
	}
	return
}

func spawn(j job) (res jobResult, err error) {
	dir, err := os.MkdirTemp("", "c09job")
	if err != nil {
		return res, err
	}
	defer os.RemoveAll(dir)
	b, _ := json.Marshal(j)
	self, _ := os.Executable()
	ctx, cancel := context.WithTimeout(context.Background(), time.Duration(j.Secs+60)*time.Second)
	defer cancel()
	cmd := exec.CommandContext(ctx, self, "-job", string(b), "-log", dir+"/race", "-result", dir+"/res.json")
	cmd.Env = append(os.Environ(), "GORACE=halt_on_error=0 exitcode=0 atexit_sleep_ms=0 log_path="+dir+"/race", "GOGC=400")
	var out bytes.Buffer
	cmd.Stderr = &out
	cmd.Stdout = &out
	e := cmd.Run()
	rb, err := os.ReadFile(dir + "/res.json")
	if err != nil {
		return res, fmt.Errorf("%v: %s", e, tail(out.String()))
	}
	return res, json.Unmarshal(rb, &res)
}

func tail(s string) string {
	for _, m := range []string{"panic:", "fatal error:"} {
		if i := strings.Index(s, m); i >= 0 {
			s = s[i:]
		}
	}
	if len(s) > 3000 {
		s = s[:3000]
	}
	return s
}

func main() {
	if len(os.Args) > 1 && os.Args[1] == "-job" {
		jb := flag.String("job", "", "")
		lg := flag.String("log", "", "")
		rs := flag.String("result", "", "")
		flag.Parse()
		var j job
		if err := json.Unmarshal([]byte(*jb), &j); err != nil {
			panic(err)
		}
		os.Stderr, _ = os.OpenFile(os.DevNull, os.O_WRONLY, 0)
		b, err := json.Marshal(worker(j, *lg))
		if err != nil {
			panic(err)
		}
		_ = os.WriteFile(*rs, b, 0o644)
		os.Exit(0)
	}
	r := lib.Start()
	begun := time.Now()
	a := alphabet()
	var jobs []job
	pairs := []scenario{}
	for i := range a {
		for k := i; k < len(a); k++ {
			pairs = append(pairs, scenario{[]int{i, k}, false}, scenario{[]int{i, k}, true})
		}
	}
	secs := 200
	if r.Thorough {
		secs = 2400
	}
	add := func(s scenario, bound, parts int) {
		for p := 0; p < parts; p++ {
			jobs = append(jobs, job{Scen: s, Bound: bound, Part: p, Parts: parts, Secs: secs})
		}
	}
	// deeper ones first
	deep := []scenario{{[]int{0, 0}, true}, {[]int{6, 8}, false}, {[]int{1, 4}, false}, {[]int{3, 3}, true}}
	parts := 8
	if r.Thorough {
		deep, parts = pairs, 2
	}
	for _, s := range deep {
		add(s, 2, parts)
	}
	triples := []scenario{{[]int{0, 3, 7}, true}, {[]int{3, 4, 5}, false}, {[]int{9, 9, 9}, true}, {[]int{10, 11, 12}, false}, {[]int{0, 1, 2}, true}}
	for _, s := range triples {
		add(s, 1, 1)
	}
	if !r.Thorough {
		for _, s := range pairs {
			add(s, 1, 1)
		}
	}
	cold := []scenario{{[]int{0, 0}, true}, {[]int{1, 1}, true}, {[]int{3, 3}, true}, {[]int{4, 5}, false}, {[]int{7, 7}, false}, {[]int{9, 9}, true}, {[]int{10, 11}, false}, {[]int{0, 1}, false}}
	type out struct {
		j   job
		res jobResult
		err error
	}
	sem := make(chan struct{}, 8)
	var wg sync.WaitGroup
	var mu sync.Mutex
	execs, steps, maxSteps, coldRuns := 0, 0, 0, 0
	handle := func(o out) {
		mu.Lock()
		defer mu.Unlock()
		name := o.j.Scen.String()
		if o.err != nil {
			r.Violate("crash", name+": "+o.err.Error(), map[string]any{"scenario": name})
			return
		}
		execs += o.res.Execs
		steps += o.res.Steps
		if o.res.MaxSteps > maxSteps {
			maxSteps = o.res.MaxSteps
		}
		r.Transition(o.res.Steps)
		r.Trace(o.res.Execs)
		for i := 0; i < o.res.Execs; i++ {
			r.State(fmt.Sprintf("%v %d %d %v %d", o.j.Scen, o.j.Bound, o.j.Part, o.j.Schedules, i))
		}
		if o.res.Expired {
			r.Truncated("time for " + name)
		}
		for _, v := range o.res.Violations {
			r.Violate(v.Key, v.Msg, v.Replay)
		}
	}
	// every worker has its own limits
	go func() {
		for {
			r.Beat()
			time.Sleep(time.Second)
		}
	}()
	start := func(j job, then func(jobResult)) {
		wg.Add(1)
		sem <- struct{}{}
		if r.Expired() {
			<-sem
			wg.Done()
			return
		}
		go func() {
			defer wg.Done()
			res, err := spawn(j)
			<-sem
			handle(out{j, res, err})
			if then != nil && err == nil {
				then(res)
			}
		}()
	}
	for _, j := range jobs {
		start(j, nil)
	}
	var follow []job
	for _, s := range cold {
		start(job{Scen: s, Cold: true, Schedules: [][]sched.Dev{nil}, Secs: secs}, func(res jobResult) {
			mu.Lock()
			defer mu.Unlock()
			for k, n := range res.Ns {
				for c := 1; c < int(n); c++ {
					follow = append(follow, job{Scen: s, Cold: true, Schedules: [][]sched.Dev{{{Step: k, Choice: c}}}, Secs: 60})
				}
			}
		})
	}
	wg.Wait()
	stride := 1
	if !r.Thorough {
		stride = 1
	}
	for i, j := range follow {
		if i%stride == 0 {
			coldRuns++
			start(j, nil)
		}
	}
	wg.Wait()
	r.Note("executions", execs)
	r.Note("seconds_building_jobs", int(time.Since(begun).Seconds()))
	r.Note("scheduling_decisions", steps)
	r.Note("longest_execution", maxSteps)
	r.Note("first_use_executions", coldRuns)
	r.Note("pairs", len(pairs))
	r.Sample(map[string]any{"scenario": deep[0].String(), "schedule": "thread 0 until its 40th statement, then thread 1 to its end, then thread 0"})
	r.Finish()
}
