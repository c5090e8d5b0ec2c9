// Package rt is the recorder the harness's service implementations share.
package rt

import "sync"

type Call struct {
	Service string
	Method  string
	Args    []any
}

type Recorder struct {
	mu    sync.Mutex
	calls []Call
	// Script supplies the results; nil or a short slice yields zero values.
	Script func(service, method string, args []any) []any
	// Direct, if set, takes every call by itself, without synchronisation.
	Direct func(service, method string, args []any) []any
}

func (r *Recorder) Do(service, method string, args ...any) []any {
	if r.Direct != nil {
		return r.Direct(service, method, args)
	}
	r.mu.Lock()
	r.calls = append(r.calls, Call{service, method, args})
	s := r.Script
	r.mu.Unlock()
	if s == nil {
		return nil
	}
	return s(service, method, args)
}

func (r *Recorder) Take() []Call {
	r.mu.Lock()
	defer r.mu.Unlock()
	c := r.calls
	r.calls = nil
	return c
}

func As[T any](rets []any, i int) (v T) {
	if i >= len(rets) || rets[i] == nil {
		return
	}
	return rets[i].(T)
}
