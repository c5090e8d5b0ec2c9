package main

import (
	"context"
	"encoding/json"
	"fmt"
	"math/big"
	"net/http"
	"os"
	"reflect"
	"strings"
	"time"

	"example.com/vh/lib"
	"example.com/vh/rt"
	"example.com/vh/svc/times"
	"example.com/vh/svc/times/rec"
	gotsrpc "github.com/foomo/gotsrpc/v2"
)

const ctJSON = "application/json; charset=utf-8"

var (
	rr       = &rt.Recorder{}
	zeroGone bool // a zero time behind a pointer arrived as nil with msgpack
	typ      = reflect.TypeOf((*times.Times)(nil)).Elem()
	timeType = reflect.TypeOf(time.Time{})
)

type instant struct {
	name string
	t    time.Time
}

func instants() (out []instant) {
	add := func(n string, t time.Time) { out = append(out, instant{n, t}) }
	add("now", time.Now())
	add("zero", time.Time{})
	add("epoch", time.Unix(0, 0))
	add("epoch UTC", time.Unix(0, 0).UTC())
	for _, ms := range []int64{1, -1, 999, -999, 1000, -1000, 1001, -1001, 1e9, -1e9, 1 << 31, 1 << 32, -(1 << 31), 1 << 53, 1<<53 - 1, -(1 << 53), 8640000000000000, -8640000000000000, 253402300799999, -62135596800000, -62135596799999, -62135596800001} {
		add(fmt.Sprintf("%d ms", ms), time.UnixMilli(ms))
	}
	for _, s := range []int64{1<<31 - 1, 1 << 31, 1<<32 - 1, 1 << 32, 1<<34 - 1, 1 << 34, -1, -(1 << 31) - 1, 9223372036, 9223372037, -9223372036, -9223372037, -9223372038, 9223372036854, 9223372036855, -9223372036855, -9223372036856, 8640000000001, -8640000000001, 1 << 43, 1<<52 + 1, -(1 << 52)} {
		for _, ns := range []int64{0, 1, 999999, 1000000, 145224192, 854775807, 854775808, 999999999} {
			add(fmt.Sprintf("%d s %d ns", s, ns), time.Unix(s, ns))
		}
	}
	for _, y := range []int{-4000, -1, 0, 1, 2, 100, 1000, 1582, 1677, 1678, 1700, 1899, 1900, 1969, 1970, 1999, 2000, 2038, 2106, 2262, 2263, 2514, 9999, 10000, 100000, 200000, 290000, 295000, 300000} {
		add(fmt.Sprintf("year %d", y), time.Date(y, 2, 28, 23, 59, 58, 987654321, time.UTC))
		add(fmt.Sprintf("year %d zone", y), time.Date(y, 12, 31, 23, 59, 59, 0, time.FixedZone("x", 5*3600+1800)))
	}
	add("zone -12", time.Date(2020, 5, 17, 1, 2, 3, 4000000, time.FixedZone("w", -12*3600)))
	add("zone odd", time.Date(1850, 5, 17, 1, 2, 3, 4000000, time.FixedZone("lmt", 2573)))
	return
}

// fill gives a value of t whose times are all x; with distinct other content.
func fill(t reflect.Type, x time.Time, seed int) reflect.Value {
	v := lib.Distinct(t, seed, 4)
	set(v, x)
	return v
}

func set(v reflect.Value, x time.Time) {
	if v.Type() == timeType {
		v.Set(reflect.ValueOf(x))
		return
	}
	switch v.Kind() {
	case reflect.Ptr:
		if !v.IsNil() {
			set(v.Elem(), x)
		}
	case reflect.Slice:
		for i := 0; i < v.Len(); i++ {
			set(v.Index(i), x)
		}
	case reflect.Map:
		for _, k := range v.MapKeys() {
			e := reflect.New(v.Type().Elem()).Elem()
			e.Set(v.MapIndex(k))
			if e.Kind() == reflect.Ptr {
				c := reflect.New(e.Type().Elem())
				c.Elem().Set(e.Elem())
				e.Set(c)
			}
			set(e, x)
			v.SetMapIndex(k, e)
		}
	case reflect.Struct:
		for i := 0; i < v.NumField(); i++ {
			set(v.Field(i), x)
		}
	}
}

// diff compares instants; ms allows a difference below a millisecond.
func diff(a, b reflect.Value, ms bool, path string) string {
	if a.Type() == timeType {
		x, y := a.Interface().(time.Time), b.Interface().(time.Time)
		if x.Equal(y) {
			return ""
		}
		if ms && x.Unix()-y.Unix() >= -1 && x.Unix()-y.Unix() <= 1 {
			if d := (x.Unix()-y.Unix())*1e9 + int64(x.Nanosecond()-y.Nanosecond()); d > -1e6 && d < 1e6 {
				return ""
			}
		}
		return fmt.Sprintf("%s: %s arrives as %s", path, x.UTC(), y.UTC())
	}
	switch a.Kind() {
	case reflect.Ptr:
		if a.IsNil() || b.IsNil() {
			if a.Type().Elem() == timeType && !a.IsNil() && !ms && a.Elem().Interface().(time.Time).IsZero() {
				zeroGone = true // one kind of failure of its own, the rest is still compared
				return ""
			}
			if a.IsNil() != b.IsNil() {
				return fmt.Sprintf("%s: nil=%v arrives as nil=%v", path, a.IsNil(), b.IsNil())
			}
			return ""
		}
		return diff(a.Elem(), b.Elem(), ms, path+"*")
	case reflect.Slice:
		if a.Len() != b.Len() || a.IsNil() != b.IsNil() {
			return fmt.Sprintf("%s: length %d arrives as %d", path, a.Len(), b.Len())
		}
		for i := 0; i < a.Len(); i++ {
			if d := diff(a.Index(i), b.Index(i), ms, fmt.Sprintf("%s[%d]", path, i)); d != "" {
				return d
			}
		}
		return ""
	case reflect.Map:
		if a.Len() != b.Len() {
			return fmt.Sprintf("%s: length %d arrives as %d", path, a.Len(), b.Len())
		}
		for _, k := range a.MapKeys() {
			if !b.MapIndex(k).IsValid() {
				return fmt.Sprintf("%s: key %s missing", path, k)
			}
			if d := diff(a.MapIndex(k), b.MapIndex(k), ms, fmt.Sprintf("%s[%v]", path, k)); d != "" {
				return d
			}
		}
		return ""
	case reflect.Struct:
		for i := 0; i < a.NumField(); i++ {
			if d := diff(a.Field(i), b.Field(i), ms, path+"."+a.Type().Field(i).Name); d != "" {
				return d
			}
		}
		return ""
	}
	if !reflect.DeepEqual(a.Interface(), b.Interface()) {
		return fmt.Sprintf("%s: %v arrives as %v", path, a, b)
	}
	return ""
}

// wireTimes requires every typed time of v to be a number of milliseconds in the document.
func wireTimes(v reflect.Value, doc any, path string) error {
	if v.Type() == timeType {
		n, ok := doc.(json.Number)
		if !ok {
			return fmt.Errorf("%s: time is %T %v in JSON", path, doc, doc)
		}
		r, ok := new(big.Rat).SetString(n.String())
		if !ok || strings.ContainsAny(n.String(), "eE.") {
			return fmt.Errorf("%s: time is %s in JSON", path, n)
		}
		x := v.Interface().(time.Time)
		want := new(big.Int).Mul(big.NewInt(x.Unix()), big.NewInt(1000))
		want.Add(want, big.NewInt(int64(x.Nanosecond()/1e6)))
		d := new(big.Int).Sub(r.Num(), want)
		if d.CmpAbs(big.NewInt(1)) > 0 || (d.Sign() != 0 && x.Nanosecond()%1e6 == 0) {
			return fmt.Errorf("%s: %s is %s in JSON, want %s", path, x.UTC(), n, want)
		}
		return nil
	}
	switch v.Kind() {
	case reflect.Ptr:
		if v.IsNil() {
			if doc != nil {
				return fmt.Errorf("%s: nil is %v in JSON", path, doc)
			}
			return nil
		}
		return wireTimes(v.Elem(), doc, path)
	case reflect.Slice:
		if v.IsNil() {
			return nil
		}
		a, ok := doc.([]any)
		if !ok || len(a) != v.Len() {
			return fmt.Errorf("%s: %v in JSON", path, doc)
		}
		for i := range a {
			if err := wireTimes(v.Index(i), a[i], fmt.Sprintf("%s[%d]", path, i)); err != nil {
				return err
			}
		}
	case reflect.Map:
		if v.IsNil() {
			return nil
		}
		m, ok := doc.(map[string]any)
		if !ok || len(m) != v.Len() {
			return fmt.Errorf("%s: %v in JSON", path, doc)
		}
		for _, k := range v.MapKeys() {
			if err := wireTimes(v.MapIndex(k), m[k.String()], path+"."+k.String()); err != nil {
				return err
			}
		}
	case reflect.Struct:
		m, ok := doc.(map[string]any)
		if !ok {
			return fmt.Errorf("%s: %v in JSON", path, doc)
		}
		for i := 0; i < v.NumField(); i++ {
			name, opts, _ := strings.Cut(v.Type().Field(i).Tag.Get("json"), ",")
			x, ok := m[name]
			if !ok && strings.Contains(opts, "omitempty") && v.Field(i).IsZero() {
				continue
			}
			if !ok {
				return fmt.Errorf("%s.%s missing in JSON", path, name)
			}
			if err := wireTimes(v.Field(i), x, path+"."+name); err != nil {
				return err
			}
		}
	}
	return nil
}

func document(b []byte) ([]any, error) {
	d := json.NewDecoder(strings.NewReader(string(b)))
	d.UseNumber()
	var l []any
	if err := d.Decode(&l); err != nil {
		return nil, fmt.Errorf("not a JSON list: %v: %q", err, b)
	}
	return l, nil
}

func main() {
	r := lib.Start()
	os.Stderr, _ = os.OpenFile(os.DevNull, os.O_WRONLY, 0)
	h := times.NewDefaultTimesGoTSRPCProxy(&rec.Times{Rec: rr})
	ck := func(name, key string, replay any, f func() error) {
		if r.Expired() {
			return
		}
		r.State(name)
		r.Trace(1)
		zeroGone = false
		r.Check(name, key, replay, f)
		if zeroGone {
			r.Check(name, "msgpack:zero time behind a pointer arrives as nil", replay, func() error {
				return fmt.Errorf("a pointer to the zero time arrives as a nil pointer")
			})
		}
	}
	xs := instants()
	var reqBody, respBody []byte
	wire := &lib.Wire{Handler: h, Before: func(raw []byte, _ *http.Request) {
		_, b, _ := strings.Cut(string(raw), "\r\n\r\n")
		reqBody = []byte(b)
	}, After: func(x *lib.RespRec) { respBody = append([]byte(nil), x.Body.Bytes()...) }}

	call := func(enc lib.Enc, m lib.Method, args, rets []reflect.Value) error {
		c := times.NewTimesGoTSRPCClientWithClient("http://svc.test", "/times", &http.Client{Transport: wire})
		if enc == lib.JSON {
			c.Client.SetClientEncoding(gotsrpc.EncodingJson)
		}
		rr.Take()
		rr.Script = func(_, _ string, _ []any) []any { return lib.Anys(rets) }
		got, cerr, err := lib.Invoke(c, m.Name, context.Background(), args)
		if err != nil || cerr != nil {
			return fmt.Errorf("%v %v; request %q", err, cerr, reqBody)
		}
		calls := rr.Take()
		if len(calls) != 1 || len(calls[0].Args) != len(args) {
			return fmt.Errorf("service saw %v", calls)
		}
		for i := range args {
			g := reflect.New(args[i].Type()).Elem()
			g.Set(reflect.ValueOf(calls[0].Args[i]))
			if d := diff(args[i], g, enc == lib.JSON, fmt.Sprintf("argument %d", i)); d != "" {
				return fmt.Errorf("%s", d)
			}
		}
		for i := range rets {
			if d := diff(rets[i], got[i], enc == lib.JSON, fmt.Sprintf("result %d", i)); d != "" {
				return fmt.Errorf("%s", d)
			}
		}
		if enc == lib.JSON {
			for what, x := range map[string]struct {
				b  []byte
				vs []reflect.Value
			}{"request": {reqBody, args}, "reply": {respBody, rets}} {
				l, err := document(x.b)
				if err != nil {
					return err
				}
				if len(l) != len(x.vs) {
					return fmt.Errorf("%s has %d elements", what, len(l))
				}
				for i := range l {
					if err := wireTimes(x.vs[i], l[i], fmt.Sprintf("%s element %d", what, i)); err != nil {
						return err
					}
				}
			}
		}
		return nil
	}

	// 1. one instant everywhere
	for _, m := range lib.Methods(typ) {
		for _, enc := range []lib.Enc{lib.Msgpack, lib.JSON} {
			for _, x := range xs {
				if enc == lib.JSON && (x.t.Unix() > 9e15/1000*1000 || x.t.Unix() < -9e15) {
					continue
				}
				key := fmt.Sprintf("%s:%s", enc, m.Name)
				if x.t.IsZero() {
					key += ":zero"
				}
				ck(fmt.Sprintf("%s %s %s", m.Name, enc, x.name), key, map[string]any{"method": m.Name, "encoding": enc.String(), "instant": x.t.String()}, func() error {
					var args, rets []reflect.Value
					for i, t := range m.Args {
						args = append(args, fill(t, x.t, i+1))
					}
					for i, t := range m.Rets {
						rets = append(rets, fill(t, x.t, i+31))
					}
					return call(enc, m, args, rets)
				})
			}
		}
	}
	// 2. pairs: argument and result differ, and differ inside one value; nil and empty containers
	few := []instant{}
	for i, x := range xs {
		if i%7 == 0 || x.t.IsZero() {
			few = append(few, x)
		}
	}
	if r.Thorough {
		few = xs
	}
	for _, enc := range []lib.Enc{lib.Msgpack, lib.JSON} {
		var several lib.Method
		for _, m := range lib.Methods(typ) {
			if m.Name == "Several" {
				several = m
			}
		}
		for _, a := range few {
			for _, b := range few {
				zero := ""
				if a.t.IsZero() || b.t.IsZero() {
					zero = ":zero"
				}
				ck(fmt.Sprintf("several %s %s %s", enc, a.name, b.name), fmt.Sprintf("several:%s%s", enc, zero), map[string]any{"encoding": enc.String(), "instants": []string{a.t.String(), b.t.String()}}, func() error {
					v := func(x any) reflect.Value { return reflect.ValueOf(x) }
					t1, t2 := a.t, b.t
					return call(enc, several, []reflect.Value{v(t1), v("n"), v(&t2), v(t2)}, []reflect.Value{v(t2), v("m"), v(&t1), v(t1)})
				})
			}
		}
		for _, m := range lib.Methods(typ) {
			var alpha [][]reflect.Value
			for i, t := range append(append([]reflect.Type{}, m.Args...), m.Rets...) {
				alpha = append(alpha, lib.Values(t, i+1, lib.Opt{Enc: enc, Depth: 2}))
			}
			k := 0
			lib.Explore(1, r.Expired, func(c *lib.Chooser) {
				k++
				vs := make([]reflect.Value, len(alpha))
				for i := range alpha {
					vs[i] = alpha[i][c.Pick(len(alpha[i]))]
				}
				zero := ""
				if strings.Contains(lib.FullAll(vs), "0001-01-01") {
					zero = ":zero"
				}
				ck(fmt.Sprintf("shape %s %s %d", m.Name, enc, k), fmt.Sprintf("shape:%s%s", enc, zero), map[string]any{"method": m.Name, "encoding": enc.String(), "values": lib.ShowAll(vs)}, func() error {
					return call(enc, m, vs[:len(m.Args)], vs[len(m.Args):])
				})
			})
		}
	}
	// 3. numbers as a browser sends them
	for _, ms := range []int64{0, 1, -1, 1700000000123, -62135596800000, -62135596800001, 253402300799999, 8640000000000000, -8640000000000000, 9007199254740991} {
		for path, body := range map[string]string{"One": "[%d]", "Ptr": "[%d]", "Slice": "[[%d,%[1]d]]", "PtrMap": `[{"k":%d}]`, "Structs": `[[{"from":%d}],[{"from":%[1]d,"to":%[1]d}],{"k":{"from":%[1]d}}]`} {
			ck(fmt.Sprintf("browser %s %d", path, ms), "browser", map[string]any{"method": path, "ms": ms}, func() error {
				rr.Take()
				rr.Script = nil
				res := lib.Raw(h, "POST", "/times/"+path, ctJSON, []byte(fmt.Sprintf(body, ms)), nil)
				calls := rr.Take()
				if res.Status != 200 || len(calls) != 1 {
					return fmt.Errorf("status %d", res.Status)
				}
				n := 0
				for _, a := range calls[0].Args {
					if err := each(reflect.ValueOf(a), func(x time.Time) error {
						n++
						if x.UnixMilli() != ms {
							return fmt.Errorf("%d arrives as %s", ms, x.UTC())
						}
						return nil
					}); err != nil {
						return err
					}
				}
				if n == 0 {
					return fmt.Errorf("no time arrived")
				}
				return nil
			})
		}
	}
	r.Note("instants", len(xs))
	r.Sample(map[string]any{"instant": "0001-01-01T00:00:00Z", "method": "PtrMap", "encodings": "msgpack and JSON"})
	r.Finish()
}

func each(v reflect.Value, f func(time.Time) error) error {
	if v.Type() == timeType {
		return f(v.Interface().(time.Time))
	}
	switch v.Kind() {
	case reflect.Ptr:
		if !v.IsNil() {
			return each(v.Elem(), f)
		}
	case reflect.Slice:
		for i := 0; i < v.Len(); i++ {
			if err := each(v.Index(i), f); err != nil {
				return err
			}
		}
	case reflect.Map:
		for _, k := range v.MapKeys() {
			if err := each(v.MapIndex(k), f); err != nil {
				return err
			}
		}
	case reflect.Struct:
		for i := 0; i < v.NumField(); i++ {
			if err := each(v.Field(i), f); err != nil {
				return err
			}
		}
	}
	return nil
}
