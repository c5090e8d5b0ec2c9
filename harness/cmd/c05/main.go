package main

import (
	"context"
	"errors"
	"fmt"
	"github.com/foomo/gotsrpc/v2"
	"io"
	"net/http"
	"os"
	"reflect"
	"strings"
	"syscall"
	"time"

	"example.com/vh/lib"
	"example.com/vh/rt"
	"example.com/vh/svc/errs"
	"example.com/vh/svc/errs/rec"
	twin "example.com/vh/svc/twin/errs"
	pkgerrors "github.com/pkg/errors"
)

type wrapper struct {
	name string
	f    func(error) error
}

var wrappers = []wrapper{
	{"%w", func(e error) error { return fmt.Errorf("ctx: %w", e) }},
	{"bare-%w", func(e error) error { return fmt.Errorf("%w", e) }},
	{"suffix-%w", func(e error) error { return fmt.Errorf("%w happened", e) }},
	{"paren-%w", func(e error) error { return fmt.Errorf("load (%w)", e) }},
	{"nosep-%w", func(e error) error { return fmt.Errorf("load %w", e) }},
	{"Wrap", func(e error) error { return pkgerrors.Wrap(e, "wrapped") }},
	{"WithMessage", func(e error) error { return pkgerrors.WithMessage(e, "message") }},
	{"WithEmpty", func(e error) error { return pkgerrors.WithMessage(e, "") }},
	{"WithStack", func(e error) error { return pkgerrors.WithStack(e) }},
	{"typed", func(e error) error { return &errs.Wrap{Op: "op", Err: e} }},
	{"opaque", func(e error) error { return &errs.Opaque{Msg: "opaque", Err: e} }},
	{"opaque-same", func(e error) error { return &errs.Opaque{Msg: e.Error(), Err: e} }},
	{"opaque-tail", func(e error) error { return &errs.Opaque{Msg: ": " + e.Error(), Err: e} }},
}

var (
	code  = errs.Code(9)
	scal  = errs.Scalar("pointer to scalar")
	fixed = time.UnixMilli(1234567890123).UTC()
	leafs = []struct {
		name string
		err  error
	}{
		{"sentinel", errs.ErrPlain},
		{"colons", errs.ErrOther},
		{"empty text", errs.ErrEmpty},
		{"suffix text", errs.ErrSuffix},
		{"io.EOF", io.EOF},
		{"pkg/errors", pkgerrors.New("fundamental")},
		{"fmt", fmt.Errorf("formatted %d", 1)},
		{"deadline", context.DeadlineExceeded},
		{"canceled", context.Canceled},
		{"errno", syscall.ENOENT},
		{"struct", &errs.Struct{Code: 7, Text: "seven", Bag: map[string]string{"a": "b"}, Inner: &errs.Detail{A: 1, B: []string{"x", "y"}}}},
		{"struct zero", &errs.Struct{}},
		{"struct text", &errs.Struct{Code: -1, Text: "ä: ö %w {} \"q\"\n"}},
		{"value", errs.Value{Num: 1 << 40, Name: "v"}},
		{"value zero", errs.Value{}},
		{"scalar", errs.ScalarOne},
		{"scalar zero", errs.Scalar("")},
		{"scalar ptr", &scal},
		{"code", errs.Code(5)},
		{"code zero", errs.Code(0)},
		{"code negative", errs.Code(-300)},
		{"code ptr", &code},
		{"unit", errs.Unit{}},
		{"rich", &errs.Rich{Base: errs.Base{ID: 5, Tags: []string{"t"}}, Renamed: "ren", Raw: []byte{1, 2, 0xff}, At: fixed, Big: 1<<64 - 1, Neg: -5, F: 1.5, On: true,
			Inner: &errs.Detail{A: 2}, List: []errs.Detail{{A: 3, B: []string{"z"}}}, Map: map[string]errs.Detail{"k": {A: 4}}, Any: "any"}},
		{"rich empty", &errs.Rich{}},
		{"live", &errs.Live{Name: "l", Done: make(chan struct{})}},
		{"twin struct", &twin.Struct{Code: 7, Text: "seven"}},
		{"twin scalar", twin.Scalar("scalar one")},
	}
	rr     = &rt.Recorder{}
	client *errs.HTTPErrsGoTSRPCClient
)

func hop(e error) (got error, err error) {
	rr.Script = func(_, _ string, _ []any) []any { return []any{e} }
	got, cerr := client.Plain(context.Background())
	if cerr != nil {
		return nil, fmt.Errorf("client error instead of the service's: %v", cerr)
	}
	return got, nil
}

func chain(e error) (out []error) {
	for ; e != nil; e = errors.Unwrap(e) {
		out = append(out, e)
		if len(out) > 2000 {
			break
		}
	}
	return
}

// pure stack wrappers carry no message or data of their own
func isStack(e error) bool {
	_, ok := e.(interface {
		StackTrace() pkgerrors.StackTrace
	})
	return ok && errors.Unwrap(e) != nil
}

func texts(e error) (out []string) {
	for _, x := range chain(e) {
		if !isStack(x) {
			out = append(out, x.Error())
		}
	}
	return
}

// as compares errors.As for one target type.
func as[T error](orig, got error) error {
	var a, b T
	ok1, ok2 := errors.As(orig, &a), errors.As(got, &b)
	if ok1 != ok2 {
		return fmt.Errorf("errors.As to %T: %v at the service, %v at the caller", a, ok1, ok2)
	}
	if ok1 {
		if d := lib.Equal(project(reflect.ValueOf(a)), project(reflect.ValueOf(b)), lib.EqOpt{NilEmpty: true}); d != "" {
			return fmt.Errorf("errors.As to %T: data differs: %s", a, d)
		}
	}
	return nil
}

// project drops what is declared not to travel.
func project(v reflect.Value) reflect.Value {
	if v.Kind() == reflect.Ptr && !v.IsNil() && v.Elem().Kind() == reflect.Struct {
		c := reflect.New(v.Type().Elem())
		c.Elem().Set(v.Elem())
		for i := 0; i < c.Elem().NumField(); i++ {
			if strings.HasPrefix(v.Type().Elem().Field(i).Tag.Get("json"), "-") {
				c.Elem().Field(i).Set(reflect.Zero(c.Elem().Field(i).Type()))
			}
		}
		return c
	}
	return v
}

func compare(orig, got error) error {
	if (orig == nil) != (got == nil) {
		return fmt.Errorf("nil=%v at the service, nil=%v at the caller (%v)", orig == nil, got == nil, got)
	}
	if orig == nil {
		return nil
	}
	if orig.Error() != got.Error() {
		return fmt.Errorf("message %q arrives as %q", orig.Error(), got.Error())
	}
	if a, b := texts(orig), texts(got); !reflect.DeepEqual(a, b) {
		return fmt.Errorf("causes %q arrive as %q", a, b)
	}
	oc := chain(orig)
	for i, e := range oc {
		if !errors.Is(got, e) {
			return fmt.Errorf("errors.Is does not hold for cause %d: %T %q", i, e, e)
		}
	}
	for _, l := range leafs {
		if errors.Is(orig, l.err) {
			continue
		}
		alike := false
		for _, e := range oc {
			if reflect.TypeOf(e) == reflect.TypeOf(l.err) && e.Error() == l.err.Error() {
				alike = true
			}
		}
		if !alike && errors.Is(got, l.err) {
			return fmt.Errorf("errors.Is holds for the unrelated %T %q", l.err, l.err)
		}
	}
	if err := rootCause(orig, got); err != nil {
		return err
	}
	for _, f := range []func(a, b error) error{as[*errs.Struct], as[errs.Value], as[errs.Scalar], as[*errs.Scalar], as[errs.Code], as[*errs.Code], as[errs.Unit], as[*errs.Rich], as[*errs.Wrap], as[*errs.Opaque], as[*twin.Struct], as[twin.Scalar], as[syscall.Errno]} {
		if err := f(orig, got); err != nil {
			return err
		}
	}
	return nil
}

// rootCause follows the chain the way github.com/pkg/errors does, as far as that goes for the original.
func rootCause(orig, got error) error {
	end := func(e error) (error, bool) {
		for i := 0; i < 2000; i++ {
			c, ok := e.(interface{ Cause() error })
			if !ok {
				return e, true
			}
			if e = c.Cause(); e == nil {
				return nil, true
			}
		}
		return e, false
	}
	if _, ok := end(orig); !ok {
		return nil // it does not end for the original either
	}
	root, ok := end(got)
	if !ok {
		return fmt.Errorf("errors.Cause does not return")
	}
	if root == nil {
		return fmt.Errorf("errors.Cause is nil")
	}
	oc := chain(orig)
	want, _ := end(orig)
	if errors.Unwrap(want) == nil && want == oc[len(oc)-1] {
		if root.Error() != want.Error() || !errors.Is(root, want) {
			return fmt.Errorf("errors.Cause is %T %q, want %T %q", root, root, want, want)
		}
		if n := gotsrpc.NewError(root); n.Error() != want.Error() || !errors.Is(n, want) || errors.Unwrap(n) != nil { // as the next service returns it
			return fmt.Errorf("errors.Cause %T %q would be sent on as %q", root, root, n)
		}
		return nil
	}
	for _, e := range oc {
		if errors.Is(root, e) {
			return nil
		}
	}
	return fmt.Errorf("errors.Cause %T %q is none of the causes", root, root)
}

func (e step) String() string { return e.name }

type step struct {
	name string
	wrap func(error) error // nil: hop
}

func main() {
	r := lib.Start()
	os.Stderr, _ = os.OpenFile(os.DevNull, os.O_WRONLY, 0)
	os.Stdout, _ = os.OpenFile(os.DevNull, os.O_WRONLY, 0)
	h := errs.NewDefaultErrsGoTSRPCProxy(&rec.Errs{Rec: rr})
	client = errs.NewErrsGoTSRPCClientWithClient("http://svc.test", "/errs", &http.Client{Transport: &lib.Wire{Handler: h}})

	// 1. all words over wrappers and hops, ending in a hop
	steps := []step{{"hop", nil}}
	for _, w := range wrappers {
		steps = append(steps, step{w.name, w.f})
	}
	max := 3
	if r.Thorough {
		max = 4
	}
	var word []step
	var walk func(leaf int, orig, cur error, n int)
	var class string
	walk = func(leaf int, orig, cur error, n int) {
		if r.Expired() {
			return
		}
		// the final hop of this word
		l := leafs[leaf]
		names := make([]string, 0, len(word)+2)
		names = append(names, l.name)
		for _, s := range word {
			names = append(names, s.name)
		}
		names = append(names, "hop")
		name := strings.Join(names, " > ")
		r.State(name)
		r.Trace(1)
		class = "chain:" + l.name
		if len(word) > 0 {
			class = "chain:" + word[len(word)-1].name
		}
		var got error
		ok := r.Check(name, class, map[string]any{"steps": names}, func() error {
			var err error
			got, err = hop(cur)
			if err != nil {
				return err
			}
			return compare(orig, got)
		})
		if orig != nil {
			r.Outcome(fmt.Sprintf("%d causes", len(chain(orig))))
		}
		if n == 0 || !ok {
			return
		}
		for _, s := range steps {
			word = append(word, s)
			if s.wrap == nil {
				walk(leaf, orig, got, n-1)
			} else {
				walk(leaf, s.wrap(orig), s.wrap(cur), n-1)
			}
			word = word[:len(word)-1]
		}
	}
	for i := range leafs {
		walk(i, leafs[i].err, leafs[i].err, max)
	}

	// long chains and long texts: every length around the powers of two, of one wrapper and of two that alternate
	long := 6
	if r.Thorough {
		long = 8
	}
	var lengths []int
	for k := 2; k <= long; k++ {
		lengths = append(lengths, 1<<k-1, 1<<k, 1<<k+1)
	}
	lengths = append(lengths, 101)
	for wi, w := range wrappers {
		for wj, w2 := range wrappers {
			if wi != wj && !r.Thorough && wj != (wi+1)%len(wrappers) {
				continue
			}
			for _, l := range leafs {
				switch {
				case l.name == "sentinel" || l.name == "struct" || l.name == "scalar zero":
				case r.Thorough && (l.name == "fmt" || l.name == "deadline"):
				default:
					continue
				}
				for _, n := range lengths {
					if n > 17 && wi != wj && !r.Thorough {
						continue
					}
					if r.Expired() {
						break
					}
					orig := l.err
					for i := 0; i < n; i++ {
						if i%2 == 0 {
							orig = w.f(orig)
						} else {
							orig = w2.f(orig)
						}
					}
					if len(orig.Error()) > 1<<16 {
						continue // each doubles the text
					}
					name := fmt.Sprintf("%s > %d times %s and %s", l.name, n, w.name, w2.name)
					r.State(name)
					r.Trace(1)
					r.Check(name, "long:"+w.name, map[string]any{"error": l.name, "wrappers": []string{w.name, w2.name}, "times": n}, func() error {
						got, err := hop(orig)
						if err != nil {
							return err
						}
						if err := compare(orig, got); err != nil {
							return err
						}
						if got, err = hop(got); err != nil {
							return err
						}
						return compare(orig, got)
					})
				}
			}
		}
	}
	for k := 4; k <= 22; k++ {
		for d := -1; d <= 1; d++ {
			text := strings.Repeat("t", 1<<k+d)
			for _, e := range []error{errors.New(text), fmt.Errorf("%s: %w", text, errs.ErrPlain), &errs.Struct{Code: 1, Text: text}, fmt.Errorf("at: %w", errs.Scalar(text))} {
				name := fmt.Sprintf("%T of a text of %d", e, 1<<k+d)
				r.State(name)
				r.Trace(1)
				r.Check(name, "long:text", map[string]any{"error": fmt.Sprintf("%T", e), "length": 1<<k + d}, func() error {
					got, err := hop(e)
					if err == nil {
						err = compare(e, got)
					}
					if err != nil && len(err.Error()) > 300 {
						err = errors.New(err.Error()[:300])
					}
					return err
				})
			}
		}
	}

	// 2. every declared shape
	ck := func(name string, f func() error) {
		r.State("shape " + name)
		r.Trace(1)
		r.Check("shape "+name, "shape:"+strings.SplitN(name, " ", 2)[0], map[string]any{"case": name}, f)
	}
	all := append(leafs[:len(leafs):len(leafs)], struct {
		name string
		err  error
	}{"nil", nil})
	ctx := context.Background()
	give := func(rets ...any) { rr.Script = func(_, _ string, _ []any) []any { return rets } }
	var variants []struct {
		name string
		err  error
	}
	for _, l := range all {
		variants = append(variants, l)
		if l.err != nil {
			for _, w := range wrappers {
				variants = append(variants, struct {
					name string
					err  error
				}{l.name + " > " + w.name, w.f(l.err)})
			}
		}
	}
	for _, l := range variants {
		ck("WithResult "+l.name, func() error {
			give("text", l.err)
			s, e, cerr := client.WithResult(ctx, 5)
			if cerr != nil || s != "text" {
				return fmt.Errorf("result %q client error %v", s, cerr)
			}
			return compare(l.err, e)
		})
		ck("Named "+l.name, func() error {
			give(12, l.err)
			n, e, cerr := client.Named(ctx)
			if cerr != nil || n != 12 {
				return fmt.Errorf("result %d client error %v", n, cerr)
			}
			return compare(l.err, e)
		})
		ck("First "+l.name, func() error {
			give(l.err, 12)
			e, n, cerr := client.First(ctx)
			if cerr != nil || n != 12 {
				return fmt.Errorf("result %d client error %v", n, cerr)
			}
			return compare(l.err, e)
		})
		ck("Many "+l.name, func() error {
			give(map[string]int{"a": 1}, "y", l.err)
			x, y, e, cerr := client.Many(ctx, "q", []int{1})
			if cerr != nil || y != "y" || x["a"] != 1 {
				return fmt.Errorf("result %v %v client error %v", x, y, cerr)
			}
			return compare(l.err, e)
		})
		for _, l2 := range all {
			ck("TwoErrors "+l.name+" / "+l2.name, func() error {
				give(l.err, l2.err)
				a, b, cerr := client.TwoErrors(ctx)
				if cerr != nil {
					return fmt.Errorf("client error %v", cerr)
				}
				if err := compare(l.err, a); err != nil {
					return fmt.Errorf("first: %w", err)
				}
				if err := compare(l2.err, b); err != nil {
					return fmt.Errorf("second: %w", err)
				}
				return nil
			})
		}
	}
	same := func(a, b any, cerr error) error {
		if cerr != nil {
			return fmt.Errorf("client error %v", cerr)
		}
		if d := lib.Equal(reflect.ValueOf(&a).Elem(), reflect.ValueOf(&b).Elem(), lib.EqOpt{}); d != "" || reflect.TypeOf(a) != reflect.TypeOf(b) {
			return fmt.Errorf("%s", d)
		}
		return nil
	}
	for i, v := range lib.Values(reflect.TypeOf((*errs.Struct)(nil)), 3, lib.Opt{Enc: lib.Msgpack, Depth: 3}) {
		p := v.Interface().(*errs.Struct)
		ck(fmt.Sprintf("TypedPtr %d %s", i, lib.Show(v)), func() error { give(p); got, cerr := client.TypedPtr(ctx); return same(p, got, cerr) })
		ck(fmt.Sprintf("TypedPtrResult %d %s", i, lib.Show(v)), func() error {
			give(4, p)
			n, got, cerr := client.TypedPtrResult(ctx)
			if n != 4 {
				return fmt.Errorf("result %d", n)
			}
			return same(p, got, cerr)
		})
	}
	for i, v := range lib.Values(reflect.TypeOf(errs.Value{}), 3, lib.Opt{Enc: lib.Msgpack, Depth: 2}) {
		p := v.Interface().(errs.Value)
		ck(fmt.Sprintf("TypedValue %d %s", i, lib.Show(v)), func() error { give(p); got, cerr := client.TypedValue(ctx); return same(p, got, cerr) })
	}
	for i, v := range lib.Values(reflect.TypeOf(errs.Scalar("")), 3, lib.Opt{Enc: lib.Msgpack, Depth: 2}) {
		p := v.Interface().(errs.Scalar)
		ck(fmt.Sprintf("TypedScalar %d %s", i, lib.Show(v)), func() error { give(p); got, cerr := client.TypedScalar(ctx); return same(p, got, cerr) })
		ck(fmt.Sprintf("TypedScalarResult %d %s", i, lib.Show(v)), func() error {
			give(4, p)
			n, got, cerr := client.TypedScalarResult(ctx)
			if n != 4 {
				return fmt.Errorf("result %d", n)
			}
			return same(p, got, cerr)
		})
	}
	for i, v := range lib.Values(reflect.TypeOf((*errs.Scalar)(nil)), 3, lib.Opt{Enc: lib.Msgpack, Depth: 2}) {
		p := v.Interface().(*errs.Scalar)
		ck(fmt.Sprintf("TypedScalarPtr %d %s", i, lib.Show(v)), func() error { give(p); got, cerr := client.TypedScalarPtr(ctx); return same(p, got, cerr) })
	}
	for i, v := range lib.Values(reflect.TypeOf((*errs.Code)(nil)), 3, lib.Opt{Enc: lib.Msgpack, Depth: 2}) {
		p := v.Interface().(*errs.Code)
		ck(fmt.Sprintf("TypedCode %d %s", i, lib.Show(v)), func() error { give(p); got, cerr := client.TypedCode(ctx); return same(p, got, cerr) })
	}
	r.Sample(map[string]any{"word": "struct > %w > hop > WithStack > hop", "compared": "text, causes, errors.Is for every cause and every unrelated error, errors.As for 13 types"})
	r.Note("alphabet", map[string]any{"leaf errors": len(leafs), "wrappers": len(wrappers), "free symbols per word": max})
	r.Finish()
}
