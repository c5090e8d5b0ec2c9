package main

import (
	"context"
	"errors"
	"fmt"
	"net/http"
	"reflect"
	"strings"

	"example.com/vh/lib"
	"example.com/vh/rt"
	"example.com/vh/svc/echo"
	"example.com/vh/svc/echo/rec"
	gotsrpc "github.com/foomo/gotsrpc/v2"
)

type service struct {
	name    string
	typ     reflect.Type
	handler http.Handler
	client  func(hc *http.Client) (any, gotsrpc.Client)
}

var rr = &rt.Recorder{}

func services() []service {
	return []service{
		{"Echo", reflect.TypeOf((*echo.Echo)(nil)).Elem(), echo.NewDefaultEchoGoTSRPCProxy(&rec.Echo{Rec: rr}), func(hc *http.Client) (any, gotsrpc.Client) {
			c := echo.NewEchoGoTSRPCClientWithClient("http://svc.test", "/echo", hc)
			return c, c.Client
		}},
		{"Plain", reflect.TypeOf((*echo.Plain)(nil)), echo.NewPlainGoTSRPCProxy(&echo.Plain{Rec: rr}, "/other/end"), func(hc *http.Client) (any, gotsrpc.Client) {
			c := echo.NewPlainGoTSRPCClientWithClient("http://svc.test", "/other/end", hc)
			return c, c.Client
		}},
	}
}

type bound struct {
	svc    service
	enc    lib.Enc
	client any
	wire   *lib.Wire
	big    bool // values too big to show
}

func bind(s service, enc lib.Enc) *bound {
	w := &lib.Wire{Handler: s.handler}
	c, gc := s.client(&http.Client{Transport: w})
	if enc == lib.JSON {
		gc.SetClientEncoding(gotsrpc.EncodingJson)
	}
	return &bound{s, enc, c, w, false}
}

// call performs one call and compares everything both sides saw with what was given. keep receives the live values.
func (b *bound) call(m lib.Method, args, rets []reflect.Value, keep *[]held) error {
	rr.Take()
	rr.Script = func(_, _ string, _ []any) []any { return lib.Anys(rets) }
	show := lib.FullAll
	if b.big {
		show = func([]reflect.Value) string { return "" }
	}
	before := show(args)
	got, cerr, err := lib.Invoke(b.client, m.Name, context.Background(), args)
	if err != nil {
		return err
	}
	calls := rr.Take()
	if cerr != nil {
		return fmt.Errorf("client error: %v", cerr)
	}
	if len(calls) != 1 || calls[0].Method != m.Name || calls[0].Service != b.svc.name {
		return fmt.Errorf("service saw calls %v", calls)
	}
	ca := calls[0].Args
	if m.HTTP {
		if len(ca) < 2 || ca[0] == nil || ca[1] == nil {
			return fmt.Errorf("HTTP parameters not passed")
		}
		ca = ca[2:]
	}
	if len(ca) != len(args) {
		return fmt.Errorf("service got %d arguments", len(ca))
	}
	for i := range args {
		rv := reflect.New(m.Args[i]).Elem()
		if ca[i] != nil {
			rv.Set(reflect.ValueOf(ca[i]))
		}
		if d := b.differ(args[i], rv); d != "" {
			return fmt.Errorf("argument %d differs: %s", i, d)
		}
		if keep != nil {
			*keep = append(*keep, held{args[i], rv, fmt.Sprintf("%s argument %d", m.Name, i)})
		}
	}
	if len(got) != len(rets) {
		return fmt.Errorf("caller got %d results, want %d", len(got), len(rets))
	}
	for i := range rets {
		if d := b.differ(rets[i], got[i]); d != "" {
			return fmt.Errorf("result %d differs: %s", i, d)
		}
		if keep != nil {
			*keep = append(*keep, held{rets[i], got[i], fmt.Sprintf("%s result %d", m.Name, i)})
		}
	}
	if after := show(args); after != before {
		return fmt.Errorf("the call changed the caller's arguments: %s -> %s", before, after)
	}
	return nil
}

func (b *bound) differ(x, y reflect.Value) string {
	if b.big && reflect.DeepEqual(x.Interface(), y.Interface()) {
		return ""
	}
	return lib.Equal(x, y, lib.EqOpt{})
}

type held struct {
	want, got reflect.Value
	what      string
}

func pick(c *lib.Chooser, alphabets [][]reflect.Value) []reflect.Value {
	out := make([]reflect.Value, len(alphabets))
	for i, a := range alphabets {
		out[i] = a[c.Pick(len(a))]
	}
	return out
}

func alpha(ts []reflect.Type, o lib.Opt, seed int) (out [][]reflect.Value) {
	for i, t := range ts {
		out = append(out, lib.Values(t, seed+i, o))
	}
	return
}

func main() {
	r := lib.Start()
	svcs := services()
	type pass struct {
		bound, depth int
		big          bool
	}
	passes := []pass{{1, 3, true}, {2, 0, false}}
	if r.Thorough {
		passes = []pass{{1, 4, true}, {2, 1, false}, {3, 0, false}}
	}
	perMethod := map[string]int{}
	for _, p := range passes {
		for _, s := range svcs {
			for _, enc := range []lib.Enc{lib.Msgpack, lib.JSON} {
				b := bind(s, enc)
				for _, m := range lib.Methods(s.typ) {
					o := lib.Opt{Enc: enc, Depth: p.depth, Big: p.big}
					as, rs := alpha(m.Args, o, 1), alpha(m.Rets, o, 51)
					all := append(append([][]reflect.Value{}, as...), rs...)
					size := 0
					for i := range all {
						for j := 0; j < i; j++ {
							size += len(all[i]) * len(all[j])
						}
					}
					bd := p.bound
					if bd == 3 && size > 20000 {
						continue
					}
					if bd == 2 && size > 400000 && !r.Thorough {
						r.Note("pairs skipped for "+m.Name, size)
						continue
					}
					n := lib.Explore(bd, r.Expired, func(c *lib.Chooser) {
						vs := pick(c, all)
						args, rets := vs[:len(as)], vs[len(as):]
						name := fmt.Sprintf("%s.%s %s", s.name, m.Name, enc)
						if r.State(name + lib.ShowAll(vs)) {
							r.Outcome(name)
						}
						r.Check(name, "call:"+m.Name+":"+enc.String(), map[string]any{"service": s.name, "method": m.Name, "encoding": enc.String(), "args": lib.ShowAll(args), "results": lib.ShowAll(rets), "choices": c.Trace},
							func() error { return b.call(m, args, rets, nil) })
					})
					perMethod[fmt.Sprintf("%s.%s", s.name, m.Name)] += n
					r.Trace(n)
				}
			}
		}
	}
	r.Note("executions_per_method", perMethod)
	sequences(r, svcs)
	sizes(r, svcs[0])
	depths(r, svcs[0])
	r.Sample(map[string]any{"method": "Echo.Mixed", "args": lib.ShowAll(first(alpha(methodOf(svcs[0].typ, "Mixed").Args, lib.Opt{}, 1)))})
	r.Finish()
}

// sizes calls with values of every length around the powers of two.
func sizes(r *lib.Run, s service) {
	filler := strings.Repeat("0123456789abcdefghijklmnopqrstuvwxyz", 1<<21)
	values := map[string]func(n int) []any{
		"Take":    func(n int) []any { return []any{filler[:n]} },
		"GiveStr": func(n int) []any { return []any{filler[:n]} },
		"Str":     func(n int) []any { return []any{filler[:n], filler[1 : n+1]} },
		"Bytes":   func(n int) []any { return []any{[]byte(filler[:n]), []byte(filler[1 : n+1])} },
		"Slice": func(n int) []any {
			var p []echo.Point
			var q []*echo.Point
			var t []string
			for i := 0; i < n; i++ {
				p = append(p, echo.Point{X: i})
				q = append(q, &echo.Point{Y: i})
				t = append(t, fmt.Sprint(i))
			}
			return []any{p, q, t, p, q, t}
		},
		"Map": func(n int) []any {
			a, b, c := map[string]int{}, map[string]*echo.Point{}, map[int]string{}
			for i := 0; i < n; i++ {
				a[fmt.Sprint(i)], b[fmt.Sprint(i)], c[i] = i, &echo.Point{X: i}, fmt.Sprint(i)
			}
			return []any{a, b, c, a, b, c}
		},
	}
	most := map[string]int{"Take": 25, "GiveStr": 25, "Str": 24, "Bytes": 24, "Slice": 16, "Map": 16}
	if r.Thorough {
		most = map[string]int{"Take": 26, "GiveStr": 26, "Str": 26, "Bytes": 25, "Slice": 19, "Map": 18}
	}
	for _, enc := range []lib.Enc{lib.Msgpack, lib.JSON} {
		b := bind(s, enc)
		b.big = true
		for _, name := range []string{"Take", "GiveStr", "Str", "Bytes", "Slice", "Map"} {
			m := methodOf(s.typ, name)
			for k := 3; k <= most[name]; k++ {
				for d := -1; d <= 1; d++ {
					n := 1<<k + d
					if r.Expired() {
						return
					}
					var vs []reflect.Value
					for _, v := range values[name](n) {
						vs = append(vs, reflect.ValueOf(v))
					}
					what := fmt.Sprintf("%s %s of length %d", name, enc, n)
					r.State(what)
					r.Check(what, "size:"+name+":"+enc.String(), map[string]any{"method": name, "encoding": enc.String(), "length": n}, func() error {
						err := b.call(m, vs[:len(m.Args)], vs[len(m.Args):], nil)
						if err != nil && len(err.Error()) > 500 {
							err = errors.New(err.Error()[:500])
						}
						return err
					})
					r.Trace(1)
				}
			}
		}
	}
}

// depths calls with values nested to every depth around the powers of two, within what the codec nests at all (1024 levels).
func depths(r *lib.Run, s service) {
	left := func(n int) (t *echo.Tree) {
		for ; n > 0; n-- {
			t = &echo.Tree{Left: t}
		}
		return
	}
	kids := func(n int) *echo.Tree {
		t := &echo.Tree{Kids: []*echo.Tree{}}
		for ; n > 2; n -= 2 {
			t = &echo.Tree{Kids: []*echo.Tree{{}, t}}
		}
		return t
	}
	for _, enc := range []lib.Enc{lib.Msgpack, lib.JSON} {
		b := bind(s, enc)
		b.big = true
		m := methodOf(s.typ, "Tree")
		for k := 1; k <= 9; k++ {
			for d := -1; d <= 1; d++ {
				for form, of := range map[string]func(int) *echo.Tree{"left": left, "kids": kids} {
					n := 1<<k + d
					v := reflect.ValueOf(of(n))
					what := fmt.Sprintf("Tree %s %s of depth %d", form, enc, n)
					r.State(what)
					r.Check(what, "depth:Tree:"+enc.String(), map[string]any{"method": "Tree", "encoding": enc.String(), "form": form, "depth": n}, func() error {
						err := b.call(m, []reflect.Value{v}, []reflect.Value{v}, nil)
						if err != nil && len(err.Error()) > 500 {
							err = errors.New(err.Error()[:500])
						}
						return err
					})
					r.Trace(1)
				}
			}
		}
	}
}

func first(a [][]reflect.Value) (out []reflect.Value) {
	for _, x := range a {
		out = append(out, x[0])
	}
	return
}

func methodOf(t reflect.Type, name string) lib.Method {
	for _, m := range lib.Methods(t) {
		if m.Name == name {
			return m
		}
	}
	panic(name)
}

// sequences explores every sequence of calls (served, refused, unknown) over a small alphabet on long-lived clients and
// checks at the end that every value handed over earlier is still what it was.
func sequences(r *lib.Run, svcs []service) {
	type op struct {
		name string
		do   func(keep *[]held) error
	}
	var ops []op
	add := func(b *bound, method string, seed int) {
		m := methodOf(b.svc.typ, method)
		args, rets := first(alpha(m.Args, lib.Opt{}, seed)), first(alpha(m.Rets, lib.Opt{}, seed+40))
		ops = append(ops, op{fmt.Sprintf("%s.%s/%s", b.svc.name, method, b.enc), func(keep *[]held) error { return b.call(m, args, rets, keep) }})
	}
	mp, js := bind(svcs[0], lib.Msgpack), bind(svcs[0], lib.JSON)
	pl := bind(svcs[1], lib.Msgpack)
	add(mp, "Bytes", 3)
	add(mp, "Tree", 5)
	add(js, "All", 7)
	add(mp, "Nothing", 0)
	add(js, "RawArgs", 9)
	add(mp, "Any", 4)
	add(js, "Any", 6)
	add(pl, "Item", 2)
	add(mp, "Slice", 8)
	bad := func(ct string, body []byte) func(*[]held) error {
		return func(*[]held) error {
			rr.Take()
			rec := lib.Raw(svcs[0].handler, "POST", "/echo/Tree", ct, body, nil)
			if rec.Status != 400 || len(rr.Take()) != 0 {
				return fmt.Errorf("broken body answered %d", rec.Status)
			}
			return nil
		}
	}
	ops = append(ops, op{"refused/json", bad("application/json", []byte(`[{"name":"left`))})
	ops = append(ops, op{"refused/msgpack", bad("application/msgpack; charset=utf-8", []byte{0x91, 0x81, 0xa4, 'n', 'a', 'm'})})
	ops = append(ops, op{"unknown", func(*[]held) error {
		rr.Take()
		if rec := lib.Raw(svcs[0].handler, "POST", "/echo/Nope", "application/json", []byte("[1]"), nil); rec.Status != 404 || len(rr.Take()) != 0 {
			return fmt.Errorf("unknown method answered %d", rec.Status)
		}
		return nil
	}})
	depth := 3
	if r.Thorough {
		depth = 4
	}
	n := 0
	seq := make([]int, depth)
	var rec func(i int)
	rec = func(i int) {
		if i == depth {
			if r.Expired() {
				return
			}
			name := "sequence"
			for _, k := range seq {
				name += " " + ops[k].name
			}
			n++
			r.State(name)
			r.Check(name, "sequence", map[string]any{"sequence": name}, func() error {
				var keep []held
				for j, k := range seq {
					if err := ops[k].do(&keep); err != nil {
						return fmt.Errorf("step %d (%s): %w", j, ops[k].name, err)
					}
				}
				for _, h := range keep {
					if d := lib.Equal(h.want, h.got, lib.EqOpt{}); d != "" {
						return fmt.Errorf("%s changed after it was handed over: %s", h.what, d)
					}
				}
				return nil
			})
			return
		}
		for k := range ops {
			seq[i] = k
			rec(i + 1)
		}
	}
	rec(0)
	r.Note("sequences", n)
	r.Trace(n)
}
