package main

import (
	"fmt"
	"net/http"
	"net/url"
	"reflect"
	"strings"

	"example.com/vh/lib"
	"example.com/vh/rt"
	"example.com/vh/svc/route"
	"example.com/vh/svc/route/rec"
	gotsrpc "github.com/foomo/gotsrpc/v2"
)

type service struct {
	name, endpoint string
	typ            reflect.Type
	handler        http.Handler
}

var rr = &rt.Recorder{}

func main() {
	r := lib.Start()
	base := []service{
		{"Route", "/r", reflect.TypeOf((*route.Route)(nil)).Elem(), route.NewDefaultRouteGoTSRPCProxy(&rec.Route{Rec: rr})},
		{"Second", "/r/Get", reflect.TypeOf((*route.Second)(nil)).Elem(), route.NewDefaultSecondGoTSRPCProxy(&rec.Second{Rec: rr})},
		{"Third", "/third/deep/end-point.v1", reflect.TypeOf((*route.Third)(nil)).Elem(), route.NewDefaultThirdGoTSRPCProxy(&rec.Third{Rec: rr})},
		{"Second", "", reflect.TypeOf((*route.Second)(nil)).Elem(), route.NewSecondGoTSRPCProxy(&rec.Second{Rec: rr}, "")},
		{"Route", "/Get", reflect.TypeOf((*route.Route)(nil)).Elem(), route.NewRouteGoTSRPCProxy(&rec.Route{Rec: rr}, "/Get")},
	}
	var svcs []service
	for _, s := range base {
		svcs = append(svcs, s)
		w := s
		w.handler = gotsrpc.InstrumentedService(s.handler.ServeHTTP, func(*gotsrpc.CallStats) {})
		svcs = append(svcs, w)
	}
	verbs := []string{"POST", "OPTIONS", "GET", "HEAD", "PUT", "PATCH", "DELETE", "TRACE", "post", "Post", "POSTS", "options", "PROPFIND", "LINK"}
	type body struct {
		ct   string
		data []byte
		// hdr: further headers, i.e. how the body is sent
		hdr http.Header
	}
	bodies := []body{
		{"application/json; charset=utf-8", []byte(`[7,"x"]`), nil},
		{"application/msgpack; charset=utf-8", []byte{0x92, 0x07, 0xa1, 'x'}, nil},
		{"", nil, nil},
		{"application/json", []byte(`[7`), nil},
		{"application/json; charset=utf-8", []byte(`[7,"x"]`), http.Header{"Transfer-Encoding": {"chunked"}}},
		{"application/msgpack; charset=utf-8", []byte{0x92, 0x07, 0xa1, 'x'}, http.Header{"Transfer-Encoding": {"chunked"}}},
	}
	all := map[string]int{}
	for _, s := range base {
		for _, m := range lib.Methods(s.typ) {
			all[m.Name]++
		}
	}
	request := func(s service, verb, target string, b body) error {
		rr.Take()
		rr.Script = nil
		rec := lib.Raw(s.handler, verb, target, b.ct, b.data, b.hdr)
		if rec == nil {
			return nil // not a request an HTTP server would hand over
		}
		calls := rr.Take()
		u, err := url.ParseRequestURI(target)
		if err != nil {
			return nil
		}
		var want *lib.Method
		for _, m := range lib.Methods(s.typ) {
			if u.Path == s.endpoint+"/"+m.Name {
				m := m
				want = &m
			}
		}
		r.Outcome(fmt.Sprintf("%s %d %d", verb, rec.Status, len(calls)))
		switch {
		case verb == "OPTIONS":
			if rec.Status != 200 || rec.Body.Len() != 0 || len(calls) != 0 {
				return fmt.Errorf("OPTIONS answered %d with %d bytes, %d calls", rec.Status, rec.Body.Len(), len(calls))
			}
		case verb != "POST":
			if rec.Status != 405 || len(calls) != 0 {
				return fmt.Errorf("verb %s answered %d, %d calls", verb, rec.Status, len(calls))
			}
		case want == nil:
			if rec.Status != 404 || len(calls) != 0 {
				return fmt.Errorf("unserved path answered %d, calls %v", rec.Status, calls)
			}
		case len(want.Args) > 0 && len(b.data) <= 2:
			if rec.Status != 400 || len(calls) != 0 {
				return fmt.Errorf("incomplete body answered %d, calls %v", rec.Status, calls)
			}
		default:
			if rec.Status != 200 || len(calls) != 1 || calls[0].Method != want.Name || calls[0].Service != s.name {
				return fmt.Errorf("served path answered %d, calls %v", rec.Status, calls)
			}
		}
		return nil
	}

	// alphabet of paths: every concatenation of up to k tokens around the served names
	var names []string
	for n := range all {
		names = append(names, n)
	}
	targetsFor := func(s service) []string {
		set := map[string]bool{}
		var out []string
		add := func(t string) {
			if !strings.HasPrefix(t, "/") || set[t] {
				return
			}
			set[t] = true
			out = append(out, t)
		}
		var pre []string
		ep := s.endpoint
		pre = append(pre, ep, ep+"/", ep+"//", "/"+ep, ep+ep, ep+ep+"/", strings.ToUpper(ep)+"/", strings.ToLower(ep)+"/", ep+"/.", ep+"/./", ep+"/../", "/", "//", "/x"+ep+"/", ep+"x/", ep+"%2F", ep+"/%2e/", ep+"/r/", ep+"/Get/", ep+";/", ep+"/ ", "/api"+ep+"/", ep+"/Route.")
		if len(ep) > 1 {
			pre = append(pre, ep[:len(ep)-1]+"/", ep[1:]+"/", strings.Replace(ep, "/", "%2f", 1)+"/", "/"+strings.TrimPrefix(ep, "/")+"."+"/")
		}
		if i := strings.LastIndex(ep, "/"); i > 0 {
			pre = append(pre, ep[:i]+"/", ep[i:]+"/")
		}
		var mids []string
		for _, n := range names {
			mids = append(mids, url.PathEscape(n), n, strings.ToLower(n), strings.ToUpper(n), n[:len(n)-1], n[1:], n+"x", n+n, n+"/", "/"+n, n+"/"+n, n+" ", n+"%20", n+"%00", n+"?a=1", n+"?", n+"?"+n, n+"#f", n+";v=1", n+".", n+"()", s.name+"."+n, s.name+"/"+n, "%"+fmt.Sprintf("%02X", n[0])+n[1:], n+"\u0301", n+"Request", n+"Response")
		}
		mids = append(mids, "", "x", "default", "ServeHTTP", "EndPoint", "service", "*", "%00", "GoTSRPCProxy", s.name+"GoTSRPCProxyGet")
		for _, p := range pre {
			for _, m := range mids {
				add(p + m)
			}
		}
		return out
	}
	for _, s := range svcs {
		ts := targetsFor(s)
		for _, t := range ts {
			if strings.ContainsAny(t, " #\x00") {
				continue
			}
			for vi, v := range verbs {
				bs := bodies
				if vi > 0 {
					bs = bodies[:1]
				}
				for _, b := range bs {
					if r.Expired() {
						break
					}
					key := "dispatch:" + v
					r.State(fmt.Sprint(s.name, s.endpoint, v, t, b.ct, b.hdr))
					r.Check(fmt.Sprintf("%s %s on %s@%q body %q", v, t, s.name, s.endpoint, b.data), key, map[string]any{"verb": v, "target": t, "endpoint": s.endpoint, "body": string(b.data)}, func() error { return request(s, v, t, b) })
					r.Trace(1)
				}
			}
		}
	}
	r.Sample(map[string]any{"targets": targetsFor(base[0])[:20]})

	// sequences: earlier requests do not change how later ones are dispatched
	type op struct {
		s       service
		verb, t string
		b       body
	}
	var ops []op
	for _, s := range svcs[:4] {
		ms := lib.Methods(s.typ)
		for _, m := range []string{ms[0].Name, ms[len(ms)-1].Name, "Nope"} {
			ops = append(ops, op{s, "POST", s.endpoint + "/" + url.PathEscape(m), bodies[0]})
		}
		ops = append(ops, op{s, "OPTIONS", s.endpoint + "/Get", bodies[2]}, op{s, "GET", s.endpoint + "/Get", bodies[2]}, op{s, "POST", s.endpoint + "/Get", bodies[3]})
	}
	depth := 2
	if r.Thorough {
		depth = 3
	}
	seq := make([]int, depth)
	var walk func(i int)
	walk = func(i int) {
		if i == depth {
			name := "sequence"
			for _, k := range seq {
				name += fmt.Sprintf(" [%s %s]", ops[k].verb, ops[k].t)
			}
			r.State(name)
			r.Check(name, "dispatch-sequence", name, func() error {
				for _, k := range seq {
					if err := request(ops[k].s, ops[k].verb, ops[k].t, ops[k].b); err != nil {
						return err
					}
				}
				return nil
			})
			r.Trace(1)
			return
		}
		for k := range ops {
			if r.Expired() {
				return
			}
			seq[i] = k
			walk(i + 1)
		}
	}
	walk(0)
	r.Finish()
}
