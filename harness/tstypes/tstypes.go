// Package tstypes sends every value of a bounded domain through echo methods, for C17.
package tstypes

import (
	"encoding/json"
	"fmt"
	"math"
	"net"
	"net/http"
	"net/http/httptest"
	"reflect"
	"sort"
	"strings"
	"sync"
	"time"
)

var (
	mu     sync.Mutex
	preset reflect.Value // what the next call returns
	got    int           // calls of a service
	groups = map[string]*group{}
	consts = map[reflect.Type][]reflect.Value{}
	// Depth bounds how deep values are varied.
	Depth = 3
)

type group struct {
	endpoint string
	proxy    http.Handler
	impl     reflect.Type
}

// Echo is what every method of the services does: the preset value, or else its argument.
func Echo[T any](v T) T {
	got++
	if preset.IsValid() {
		reflect.ValueOf(&v).Elem().Set(preset)
	}
	return v
}

// Group registers a service.
func Group(name, endpoint string, proxy http.Handler, impl any) {
	groups[name] = &group{endpoint, proxy, reflect.TypeOf(impl)}
}

// Constants declares the only values of their types.
func Constants(vs ...any) {
	for _, v := range vs {
		r := reflect.ValueOf(v)
		consts[r.Type()] = append(consts[r.Type()], r)
	}
}

func union(t reflect.Type) bool {
	return t.Kind() == reflect.Struct && t.NumField() > 0 && strings.Contains(t.Field(0).Tag.Get("gotsrpc"), "union")
}

// values are the values of a type, base values first.
func values(t reflect.Type, depth int) (out []reflect.Value) {
	z := reflect.New(t).Elem()
	with := func(f func(v reflect.Value)) {
		v := reflect.New(t).Elem()
		v.Set(z)
		f(v)
		out = append(out, v)
	}
	if cs := consts[t]; cs != nil {
		return cs
	}
	if t == reflect.TypeFor[time.Time]() {
		for _, tt := range []time.Time{time.Unix(1, 0), time.UnixMilli(1700000000123), time.Unix(0, 0), {}} {
			out = append(out, reflect.ValueOf(tt))
		}
		return
	}
	switch t.Kind() {
	case reflect.String:
		for _, s := range []string{"", "a\"ü", "1", "null"} {
			with(func(v reflect.Value) { v.SetString(s) })
		}
	case reflect.Bool:
		with(func(v reflect.Value) {})
		with(func(v reflect.Value) { v.SetBool(true) })
	case reflect.Int, reflect.Int8, reflect.Int16, reflect.Int32, reflect.Int64:
		for _, n := range []int64{0, 1, -1, math.MaxInt64 >> (64 - t.Bits())} {
			with(func(v reflect.Value) { v.SetInt(n) })
		}
	case reflect.Uint, reflect.Uint8, reflect.Uint16, reflect.Uint32, reflect.Uint64:
		for _, n := range []uint64{0, 1, math.MaxUint64 >> (64 - t.Bits())} {
			with(func(v reflect.Value) { v.SetUint(n) })
		}
	case reflect.Float32, reflect.Float64:
		for _, n := range []float64{0, 1, -0.5, 1e20, 1e-20} {
			with(func(v reflect.Value) { v.SetFloat(n) })
		}
	case reflect.Interface:
		with(func(v reflect.Value) {})
		if t.NumMethod() == 0 {
			for _, x := range []any{"s", int64(1), true, []any{int64(1)}, map[string]any{"k": "v"}} {
				with(func(v reflect.Value) { v.Set(reflect.ValueOf(x)) })
			}
		}
	case reflect.Pointer:
		with(func(v reflect.Value) {})
		if depth > 0 {
			for _, x := range values(t.Elem(), depth-1) {
				p := reflect.New(t.Elem())
				p.Elem().Set(x)
				out = append(out, p.Convert(t))
			}
		}
	case reflect.Slice:
		with(func(v reflect.Value) {})
		with(func(v reflect.Value) { v.Set(reflect.MakeSlice(t, 0, 0)) })
		if depth > 0 {
			xs := values(t.Elem(), depth-1)
			for i, x := range xs {
				with(func(v reflect.Value) { v.Set(reflect.Append(v, x)) })
				with(func(v reflect.Value) { v.Set(reflect.Append(v, x, xs[(i+1)%len(xs)])) })
			}
		}
	case reflect.Map:
		with(func(v reflect.Value) {})
		with(func(v reflect.Value) { v.Set(reflect.MakeMap(t)) })
		if depth > 0 {
			ks, xs := values(t.Key(), depth-1), values(t.Elem(), depth-1)
			if len(ks) == 0 || len(xs) == 0 {
				return
			}
			for i := 0; i < max(len(ks), len(xs)); i++ {
				with(func(v reflect.Value) {
					v.Set(reflect.MakeMap(t))
					v.SetMapIndex(ks[i%len(ks)], xs[i%len(xs)])
				})
			}
			// all keys
			for i := range xs {
				with(func(v reflect.Value) {
					v.Set(reflect.MakeMap(t))
					for j, k := range ks {
						v.SetMapIndex(k, xs[(i+j)%len(xs)])
					}
				})
				if i == 2 {
					break
				}
			}
		}
	case reflect.Struct:
		var fields []int
		for i := 0; i < t.NumField(); i++ {
			if t.Field(i).IsExported() {
				fields = append(fields, i)
			}
		}
		if union(t) {
			for _, i := range fields {
				for _, x := range values(t.Field(i).Type, max(depth, 1)) {
					if !x.IsZero() {
						with(func(v reflect.Value) { v.Field(i).Set(x) })
					}
				}
			}
			return
		}
		vals := map[int][]reflect.Value{}
		for _, i := range fields {
			vals[i] = values(t.Field(i).Type, depth-1)
			if lit := t.Field(i).Tag.Get("gotsrpc"); strings.HasPrefix(lit, "type:'") {
				vals[i] = []reflect.Value{reflect.ValueOf(strings.Trim(lit[5:], "'")).Convert(t.Field(i).Type)}
			}
			z.Field(i).Set(vals[i][0])
		}
		with(func(v reflect.Value) {})
		if depth <= 0 {
			return
		}
		most := 0
		for _, i := range fields {
			for _, x := range vals[i][1:] {
				with(func(v reflect.Value) { v.Field(i).Set(x) })
			}
			most = max(most, len(vals[i]))
		}
		for n := 1; n < most; n++ {
			with(func(v reflect.Value) {
				for _, i := range fields {
					v.Field(i).Set(vals[i][min(n, len(vals[i])-1)])
				}
			})
		}
	default:
		panic("values of " + t.String())
	}
	return
}

// nilPtr is a pointer to a nil slice or map in a member that is omitted when empty.
func nilPtr(f reflect.StructField, v reflect.Value) bool {
	if strings.Contains(f.Tag.Get("json"), ",omitempty") && v.Kind() == reflect.Pointer && !v.IsNil() {
		e := v.Elem()
		return (e.Kind() == reflect.Slice || e.Kind() == reflect.Map) && e.IsNil()
	}
	return false
}

// nilEmb is a nil pointer to an embedded struct.
func nilEmb(f reflect.StructField, v reflect.Value) bool {
	return f.Anonymous && v.Kind() == reflect.Pointer && v.IsNil()
}

// find tells if is holds for a field within v.
func find(v reflect.Value, is func(reflect.StructField, reflect.Value) bool) bool {
	switch v.Kind() {
	case reflect.Pointer, reflect.Interface:
		return !v.IsNil() && find(v.Elem(), is)
	case reflect.Slice:
		for i := 0; i < v.Len(); i++ {
			if find(v.Index(i), is) {
				return true
			}
		}
	case reflect.Map:
		for _, k := range v.MapKeys() {
			if find(v.MapIndex(k), is) {
				return true
			}
		}
	case reflect.Struct:
		for i := 0; i < v.NumField(); i++ {
			f := v.Type().Field(i)
			if is(f, v.Field(i)) || f.IsExported() && find(v.Field(i), is) {
				return true
			}
		}
	}
	return false
}

type reply struct {
	Status int             `json:"status"`
	Body   json.RawMessage `json:"body,omitempty"`
	Text   string          `json:"text,omitempty"`
	Value  string          `json:"value,omitempty"`
	NilEmb bool            `json:"nilemb,omitempty"` // a nil embedded pointer
	NilPtr bool            `json:"nilptr,omitempty"` // a pointer to a nil collection in a member that is omitted when empty
}

func (g *group) call(method, body string) (r reply) {
	defer func() {
		if p := recover(); p != nil {
			r = reply{Status: -1, Text: fmt.Sprint("panic: ", p)}
		}
	}()
	req := httptest.NewRequest(http.MethodPost, g.endpoint+"/"+method, strings.NewReader(body))
	w := httptest.NewRecorder()
	got = 0
	g.proxy.ServeHTTP(w, req)
	r.Status, r.Text = w.Code, w.Body.String()
	if w.Code == http.StatusOK && got != 1 {
		return reply{Status: -2, Text: fmt.Sprintf("%d calls of the service", got)}
	}
	var one []json.RawMessage
	if w.Code == http.StatusOK && json.Unmarshal(w.Body.Bytes(), &one) == nil && len(one) == 1 {
		r.Body, r.Text = one[0], ""
	}
	return
}

// Serve serves until the process is killed: /docs/GROUP lists what the server sends, /echo/GROUP sends documents.
func Serve() {
	l, err := net.Listen("tcp", "127.0.0.1:0")
	if err != nil {
		panic(err)
	}
	fmt.Println(l.Addr().String())
	panic(http.Serve(l, http.HandlerFunc(func(w http.ResponseWriter, r *http.Request) {
		mu.Lock()
		defer mu.Unlock()
		parts := strings.Split(r.URL.Path, "/")
		g := groups[parts[2]]
		answer := map[string][]reply{}
		if parts[1] == "docs" {
			for i := 0; i < g.impl.NumMethod(); i++ {
				m := g.impl.Method(i)
				zero := encodeZero(m.Type.In(1))
				seen := map[string]bool{}
				for _, v := range values(m.Type.In(1), Depth) {
					preset = v
					a := g.call(m.Name, "["+zero+"]")
					preset = reflect.Value{}
					a.NilPtr = find(v, nilPtr)
					a.NilEmb = find(v, nilEmb)
					a.Value = fmt.Sprintf("%+v", v.Interface())
					if k := fmt.Sprint(a.Status, string(a.Body), a.Text); !seen[k] {
						seen[k] = true
						answer[m.Name] = append(answer[m.Name], a)
					}
				}
			}
		} else {
			var docs map[string][]json.RawMessage
			if err := json.NewDecoder(r.Body).Decode(&docs); err != nil {
				panic(err)
			}
			var names []string
			for n := range docs {
				names = append(names, n)
			}
			sort.Strings(names)
			for _, n := range names {
				for _, d := range docs[n] {
					answer[n] = append(answer[n], g.call(n, "["+string(d)+"]"))
				}
			}
		}
		if err := json.NewEncoder(w).Encode(answer); err != nil {
			panic(err)
		}
	})))
}

// encodeZero is a document any value of the type may be read from.
func encodeZero(t reflect.Type) string {
	switch t.Kind() {
	case reflect.String:
		return `""`
	case reflect.Bool:
		return "false"
	case reflect.Struct:
		if t == reflect.TypeFor[time.Time]() {
			return "0"
		}
		return "null"
	case reflect.Int, reflect.Int8, reflect.Int16, reflect.Int32, reflect.Int64, reflect.Uint, reflect.Uint8, reflect.Uint16, reflect.Uint32, reflect.Uint64, reflect.Float32, reflect.Float64:
		return "0"
	}
	return "null"
}
