// Package tscall lets the services of C18 record their arguments and return what the caller asked for.
package tscall

import (
	"encoding/json"
	"fmt"
	"net"
	"net/http"
	"net/http/httptest"
	"net/url"
	"strings"
	"sync"
)

type call struct {
	Func string            `json:"func"`
	Args []json.RawMessage `json:"args"`
	Web  bool              `json:"web"` // got the writer and request that belong together
}

var (
	mu    sync.Mutex
	calls []call
	rets  []json.RawMessage
	curW  *httptest.ResponseRecorder
)

// Called records one call of a service.
func Called(name string, web bool, args ...any) {
	c := call{Func: name, Web: web, Args: []json.RawMessage{}}
	for _, a := range args {
		b, err := json.Marshal(a)
		if err != nil {
			panic(err)
		}
		c.Args = append(c.Args, b)
	}
	calls = append(calls, c)
}

// Ret is a result the caller asked for.
func Ret[T any](i int) (v T) {
	if i < len(rets) {
		if err := json.Unmarshal(rets[i], &v); err != nil {
			panic(err)
		}
	}
	return
}

// Serve serves proxies until the process is killed.
func Serve(proxies map[string]http.Handler) {
	// the longest endpoint that fits: http.ServeMux redirects double slashes
	route := func(path string) http.Handler {
		var to http.Handler = http.NotFoundHandler()
		best := -1
		for e, p := range proxies {
			if len(e) > best && strings.HasPrefix(path, e+"/") {
				to, best = p, len(e)
			}
		}
		return to
	}
	l, err := net.Listen("tcp", "127.0.0.1:0")
	if err != nil {
		panic(err)
	}
	fmt.Println(l.Addr().String())
	panic(http.Serve(l, http.HandlerFunc(func(w http.ResponseWriter, r *http.Request) {
		mu.Lock()
		defer mu.Unlock()
		calls, rets = nil, nil
		h, err := url.QueryUnescape(r.Header.Get("X-Rets"))
		if err == nil && h != "" {
			err = json.Unmarshal([]byte(h), &rets)
		}
		if err != nil {
			panic(err)
		}
		curW = httptest.NewRecorder()
		route(r.URL.Path).ServeHTTP(curW, r)
		for k, v := range curW.Header() {
			w.Header()[k] = v
		}
		b, err := json.Marshal(calls)
		if err != nil {
			panic(err)
		}
		w.Header().Set("X-Called", url.QueryEscape(string(b)))
		w.WriteHeader(curW.Code)
		_, _ = w.Write(curW.Body.Bytes())
	})))
}
