package main

import (
	"context"
	"encoding/json"
	"fmt"
	"net/http"
	"os"
	"reflect"
	"strings"
	"time"

	"example.com/vh/lib"
	"example.com/vh/rt"
	"example.com/vh/svc/unions"
	"example.com/vh/svc/unions/more"
	"example.com/vh/svc/unions/rec"
)

var (
	rr       = &rt.Recorder{}
	timeType = reflect.TypeOf(time.Time{})
)

// isUnion reads the declaration itself: every field carries the union tag.
func isUnion(t reflect.Type) bool {
	if t.Kind() != reflect.Struct || t.NumField() == 0 || t == timeType {
		return false
	}
	for i := 0; i < t.NumField(); i++ {
		if t.Field(i).Tag.Get("gotsrpc") != "union" {
			return false
		}
	}
	return true
}

// base is a value with distinct content; unions hold member pick (modulo), -1 for none.
func base(t reflect.Type, seed, pick, depth int) reflect.Value {
	v := reflect.New(t).Elem()
	switch {
	case t == timeType:
		v.Set(reflect.ValueOf(time.UnixMilli(int64(1600000000000 + seed*1001)).UTC()))
		return v
	case isUnion(t):
		if pick >= 0 {
			i := pick % t.NumField()
			if depth <= 0 {
				i = 0
			}
			v.Field(i).Set(base(t.Field(i).Type, seed+1, pick, depth-1))
			if v.Field(i).Kind() == reflect.Ptr && v.Field(i).IsNil() {
				v.Field(i).Set(reflect.New(t.Field(i).Type.Elem()))
			}
		}
		return v
	}
	switch t.Kind() {
	case reflect.String:
		v.SetString(fmt.Sprintf("s%d", seed))
	case reflect.Int:
		v.SetInt(int64(seed*7 + 1))
	case reflect.Float64:
		v.SetFloat(float64(seed) + 0.5)
	case reflect.Bool:
		v.SetBool(seed%2 == 0)
	case reflect.Ptr:
		if depth > 0 {
			v.Set(reflect.New(t.Elem()))
			v.Elem().Set(base(t.Elem(), seed+1, pick, depth-1))
		}
	case reflect.Slice:
		v.Set(reflect.MakeSlice(t, 0, 2))
		if depth > 0 {
			v.Set(reflect.Append(v, base(t.Elem(), seed+1, pick, depth-1), base(t.Elem(), seed+2, pick+1, depth-1)))
		}
	case reflect.Map:
		v.Set(reflect.MakeMap(t))
		if depth > 0 {
			v.SetMapIndex(reflect.ValueOf("k").Convert(t.Key()), base(t.Elem(), seed+1, pick, depth-1))
		}
	case reflect.Struct:
		for i := 0; i < t.NumField(); i++ {
			v.Field(i).Set(base(t.Field(i).Type, seed+i+1, pick, depth-1))
		}
	case reflect.Interface:
	default:
		panic(t.String())
	}
	return v
}

// variants lists values of t: every member selection, every container shape, one deviation per level.
func variants(t reflect.Type, seed, depth int) (out []reflect.Value) {
	add := func(v reflect.Value) { out = append(out, v) }
	mk := func(f func(v reflect.Value)) { v := reflect.New(t).Elem(); f(v); add(v) }
	switch {
	case t == timeType || depth < 0:
		add(base(t, seed, 0, 1))
		return
	case isUnion(t):
		mk(func(reflect.Value) {}) // no member
		for i := 0; i < t.NumField(); i++ {
			for _, x := range variants(t.Field(i).Type, seed+10*i, depth-1) {
				if !x.IsZero() {
					mk(func(v reflect.Value) { v.Field(i).Set(x) })
				}
			}
		}
		return
	}
	switch t.Kind() {
	case reflect.Ptr:
		mk(func(reflect.Value) {})
		mk(func(v reflect.Value) { v.Set(reflect.New(t.Elem())) })
		for _, x := range variants(t.Elem(), seed+1, depth) {
			mk(func(v reflect.Value) { v.Set(reflect.New(t.Elem())); v.Elem().Set(x) })
		}
	case reflect.Slice:
		mk(func(reflect.Value) {})
		mk(func(v reflect.Value) { v.Set(reflect.MakeSlice(t, 0, 0)) })
		xs := variants(t.Elem(), seed+1, depth-1)
		for _, x := range xs {
			mk(func(v reflect.Value) { v.Set(reflect.Append(reflect.MakeSlice(t, 0, 1), x)) })
		}
		mk(func(v reflect.Value) { v.Set(reflect.Append(reflect.MakeSlice(t, 0, len(xs)), xs...)) })
	case reflect.Map:
		mk(func(reflect.Value) {})
		mk(func(v reflect.Value) { v.Set(reflect.MakeMap(t)) })
		xs := variants(t.Elem(), seed+1, depth-1)
		for _, x := range xs {
			mk(func(v reflect.Value) {
				v.Set(reflect.MakeMap(t))
				v.SetMapIndex(reflect.ValueOf("only").Convert(t.Key()), x)
			})
		}
		mk(func(v reflect.Value) {
			v.Set(reflect.MakeMap(t))
			for i, x := range xs {
				v.SetMapIndex(reflect.ValueOf(fmt.Sprintf("k%d", i)).Convert(t.Key()), x)
			}
		})
	case reflect.Struct:
		mk(func(reflect.Value) {})
		add(base(t, seed, 0, 3))
		add(base(t, seed, 1, 3))
		for i := 0; i < t.NumField(); i++ {
			if isPlain(t.Field(i).Type) {
				continue
			}
			for _, x := range variants(t.Field(i).Type, seed+5*i, depth-1) {
				v := reflect.New(t).Elem()
				v.Set(base(t, seed, 0, 2))
				v.Field(i).Set(x)
				add(v)
			}
		}
	case reflect.Interface:
		mk(func(reflect.Value) {})
		if t.NumMethod() == 0 {
			for _, u := range []any{unions.Single{}, unions.Shape{}, unions.Word{}, &unions.Either{}, []unions.Single{}} {
				for _, x := range variants(reflect.TypeOf(u), seed, depth-2) {
					mk(func(v reflect.Value) { v.Set(x) })
				}
			}
		}
	default:
		add(base(t, seed, 0, 1))
		mk(func(reflect.Value) {})
	}
	return
}

func isPlain(t reflect.Type) bool {
	switch t.Kind() {
	case reflect.String, reflect.Int, reflect.Float64, reflect.Bool:
		return true
	}
	return t == timeType
}

// want is the document the value must become.
func want(v reflect.Value) any {
	t := v.Type()
	switch {
	case t == timeType:
		x := v.Interface().(time.Time)
		return json.Number(fmt.Sprint(x.Unix()*1000 + int64(x.Nanosecond()/1e6)))
	case isUnion(t):
		var set []int
		for i := 0; i < t.NumField(); i++ {
			if !v.Field(i).IsZero() {
				set = append(set, i)
			}
		}
		if len(set) == 0 {
			return nil
		}
		if len(set) > 1 {
			panic("two members")
		}
		return want(v.Field(set[0]))
	}
	switch t.Kind() {
	case reflect.Ptr, reflect.Interface:
		if v.IsNil() {
			return nil
		}
		return want(v.Elem())
	case reflect.Slice:
		if v.IsNil() {
			return nil
		}
		l := []any{}
		for i := 0; i < v.Len(); i++ {
			l = append(l, want(v.Index(i)))
		}
		return l
	case reflect.Map:
		if v.IsNil() {
			return nil
		}
		m := map[string]any{}
		for _, k := range v.MapKeys() {
			m[k.String()] = want(v.MapIndex(k))
		}
		return m
	case reflect.Struct:
		m := map[string]any{}
		for i := 0; i < t.NumField(); i++ {
			name, opts, _ := strings.Cut(t.Field(i).Tag.Get("json"), ",")
			if opts == "inline" {
				for k, x := range want(v.Field(i)).(map[string]any) {
					m[k] = x
				}
				continue
			}
			if strings.Contains(opts, "omitempty") && v.Field(i).Kind() == reflect.Ptr && v.Field(i).IsNil() {
				continue
			}
			if strings.Contains(opts, "omitempty") {
				switch v.Field(i).Kind() {
				case reflect.Ptr:
				default:
					panic("omitempty on " + t.String())
				}
			}
			m[name] = want(v.Field(i))
		}
		return m
	case reflect.String:
		return v.String()
	case reflect.Bool:
		return v.Bool()
	}
	b, err := json.Marshal(v.Interface())
	if err != nil {
		panic(err)
	}
	return json.Number(b)
}

func canonJSON(v any) string {
	b, err := json.Marshal(v)
	if err != nil {
		panic(err)
	}
	x, err := lib.DecJSON(b)
	if err != nil {
		panic(err)
	}
	b, _ = json.Marshal(x)
	return string(b)
}

func main() {
	r := lib.Start()
	os.Stderr, _ = os.OpenFile(os.DevNull, os.O_WRONLY, 0)
	os.Stdout, _ = os.OpenFile(os.DevNull, os.O_WRONLY, 0)

	newWire := func(h http.Handler) *http.Client {
		return &http.Client{Transport: &lib.Wire{Handler: h}}
	}
	type svc struct {
		name    string
		ep      string
		h       http.Handler
		methods []lib.Method
		client  func() any
	}
	hu := unions.NewDefaultUnionsGoTSRPCProxy(&rec.Unions{Rec: rr})
	he := unions.NewDefaultExtraGoTSRPCProxy(&rec.Extra{Rec: rr})
	hm := more.NewDefaultMoreGoTSRPCProxy(&more.More{Rec: rr})
	svcs := []svc{
		{"Unions", "/unions", hu, lib.Methods(reflect.TypeOf((*unions.Unions)(nil)).Elem()), func() any {
			return unions.NewUnionsGoTSRPCClientWithClient("http://svc.test", "/unions", newWire(hu))
		}},
		{"Extra", "/extra", he, lib.Methods(reflect.TypeOf((*unions.Extra)(nil)).Elem()), func() any {
			return unions.NewExtraGoTSRPCClientWithClient("http://svc.test", "/extra", newWire(he))
		}},
		{"More", "/more", hm, lib.Methods(reflect.TypeOf(&more.More{})), func() any {
			return more.NewMoreGoTSRPCClientWithClient("http://svc.test", "/more", newWire(hm))
		}},
	}
	depth := 3
	if r.Thorough {
		depth = 5
	}
	total := map[string]int{}
	for _, s := range svcs {
		for _, m := range s.methods {
			rets := m.Rets
			var alpha [][]reflect.Value
			for i, t := range rets {
				alpha = append(alpha, variants(t, i*20+1, depth))
			}
			var cases [][]reflect.Value
			baseAt := func(k int) []reflect.Value {
				var vs []reflect.Value
				for i, t := range rets {
					vs = append(vs, base(t, i*20+3, k, 3))
				}
				return vs
			}
			for i := range alpha {
				for _, x := range alpha[i] {
					for k := 0; k < 2; k++ {
						vs := baseAt(k)
						vs[i] = x
						cases = append(cases, vs)
						if len(alpha) == 1 {
							break
						}
					}
				}
			}
			for i := -1; i < 4; i++ {
				cases = append(cases, baseAt(i))
			}
			total[s.name+"."+m.Name] = len(cases)
			for n, vs := range cases {
				if r.Expired() {
					break
				}
				name := fmt.Sprintf("%s.%s %d", s.name, m.Name, n)
				replay := map[string]any{"service": s.name, "method": m.Name, "results": lib.ShowAll(vs)}
				script := func(_, _ string, _ []any) []any { return lib.Anys(vs) }
				r.State(s.name + m.Name + lib.FullAll(vs))
				r.Trace(2)
				r.Check(name+" json", s.name+"."+m.Name+":json", replay, func() error {
					rr.Take()
					rr.Script = script
					args := []string{}
					for _, t := range m.Args {
						if t.Kind() == reflect.Int {
							args = append(args, "1")
						} else {
							args = append(args, "null")
						}
					}
					res := lib.Raw(s.h, "POST", s.ep+"/"+m.Name, "application/json; charset=utf-8", []byte("["+strings.Join(args, ",")+"]"), nil)
					if res.Status != 200 || len(rr.Take()) != 1 {
						return fmt.Errorf("status %d: %s", res.Status, res.Body.Bytes())
					}
					var exp []any
					for _, v := range vs {
						exp = append(exp, want(v))
					}
					var got any
					d := json.NewDecoder(strings.NewReader(res.Body.String()))
					d.UseNumber()
					if err := d.Decode(&got); err != nil {
						return fmt.Errorf("reply %q: %v", res.Body.String(), err)
					}
					if a, b := canonJSON(exp), canonJSON(got); a != b {
						return fmt.Errorf("reply is %s, want %s", b, a)
					}
					r.Outcome(canonJSON(got))
					return nil
				})
				if m.Name == "Anything" {
					continue // a Go caller gets what the encoding makes of it
				}
				r.Check(name+" msgpack", s.name+"."+m.Name+":msgpack", replay, func() error {
					rr.Take()
					rr.Script = script
					var args []reflect.Value
					for i, t := range m.Args {
						args = append(args, base(t, i+50, n, 3))
					}
					if m.Name == "Echo" && s.name == "Unions" {
						args = vs
					}
					rets, cerr, err := lib.Invoke(s.client(), m.Name, context.Background(), args)
					if err != nil || cerr != nil {
						return fmt.Errorf("%v %v", err, cerr)
					}
					calls := rr.Take()
					if len(calls) != 1 || len(calls[0].Args) != len(args) {
						return fmt.Errorf("service saw %d calls", len(calls))
					}
					for i := range args {
						if d := lib.Equal(args[i], reflect.ValueOf(calls[0].Args[i]), lib.EqOpt{}); d != "" {
							return fmt.Errorf("argument %d: %s", i, d)
						}
					}
					for i := range vs {
						if d := lib.Equal(vs[i], rets[i], lib.EqOpt{}); d != "" {
							return fmt.Errorf("result %d: %s", i, d)
						}
						if a, b := members(vs[i]), members(rets[i]); a != b {
							return fmt.Errorf("result %d: members set %s arrive as %s", i, a, b)
						}
					}
					return nil
				})
			}
		}
	}
	r.Note("cases", total)
	r.Sample(map[string]any{"method": "Holder", "union": "InAnon inside an anonymous struct", "member": "b"})
	r.Sample(map[string]any{"method": "There", "union": "parts.InMore of another package, in slices in a map", "member": "none"})
	r.Finish()
}

// members lists which member every union of v holds, in order.
func members(v reflect.Value) (s string) {
	t := v.Type()
	switch {
	case t == timeType:
	case isUnion(t):
		s = "<"
		for i := 0; i < t.NumField(); i++ {
			if !v.Field(i).IsZero() {
				s += t.Field(i).Name + members(v.Field(i))
			}
		}
		s += ">"
	case t.Kind() == reflect.Ptr:
		if !v.IsNil() {
			s = members(v.Elem())
		}
	case t.Kind() == reflect.Slice:
		for i := 0; i < v.Len(); i++ {
			s += members(v.Index(i))
		}
	case t.Kind() == reflect.Map:
		for _, k := range v.MapKeys() {
			if x := members(v.MapIndex(k)); x != "" && v.Len() == 1 {
				s += x
			}
		}
	case t.Kind() == reflect.Struct:
		for i := 0; i < t.NumField(); i++ {
			s += members(v.Field(i))
		}
	}
	return
}
