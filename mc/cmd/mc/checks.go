package main

var checks = map[string]*Check{}

func register(c *Check) { checks[c.ID] = c }

// echoDriver prepares the echo fixture and builds the named driver.
func (e *Env) fixture(cfgs []string, recPkgs ...string) {
	e.buildGen()
	e.module("rt", "lib", "svc", "cmd/"+lower(e.ID))
	for _, p := range recPkgs {
		e.recorders(p)
	}
	for _, c := range cfgs {
		e.generate(c)
	}
}

func lower(s string) string {
	b := []byte(s)
	for i := range b {
		if b[i] >= 'A' && b[i] <= 'Z' {
			b[i] += 32
		}
	}
	return string(b)
}

func simple(id string, level string, cfgs []string, recPkgs []string, assumptions ...string) {
	register(&Check{ID: id, Level: level, Assumptions: assumptions, Run: func(e *Env) *Result {
		e.fixture(cfgs, recPkgs...)
		bin := e.build("./cmd/" + lower(id))
		return e.drive(bin)
	}})
}

func init() {
	echo := []string{"svc/echo.yml"}
	echoRec := []string{"svc/echo"}
	simple("C01", "model_checking", echo, echoRec, "values outside the listed alphabets are not covered")
	simple("C02", "model_checking", []string{"svc/route.yml"}, []string{"svc/route"}, "dispatch is observed at the generated handler; http.ServeMux in front of it is out of scope")
	simple("C03", "model_checking", echo, echoRec, "where the codec library is lenient (missing or surplus arguments, trailing bytes, empty JSON elements) both answers are allowed")
	simple("C04", "model_checking", []string{"svc/errs.yml"}, []string{"svc/errs"}, "faults are injected at the connection and transport seams; redirects are left to net/http")
}

func init() {
	simple("C05", "model_checking", []string{"svc/errs.yml"}, []string{"svc/errs"}, "errors with several causes (errors.Join) and pure stack wrappers' own identity at errors.As are out of scope; data an encoding cannot carry (interfaces, channels) is not compared")
}

func init() {
	simple("C06", "model_checking", []string{"svc/echo.yml"}, []string{"svc/echo"}, "content types that name an encoding in another spelling than the client's own (parameters, case) are not covered")
}

func init() {
	three := []string{"svc/echo.yml", "svc/errs.yml", "svc/route.yml"}
	recs := []string{"svc/echo", "svc/errs", "svc/route"}
	simple("C07", "model_checking", three, recs, "sizes of refused calls and of answers a method writes itself are not stated; only an error returned as the last result is accounted")
	simple("C08", "model_checking", three, recs, "the writer's optional interfaces (Flusher, Hijacker) are not covered")
}

func init() {
	simple("C10", "model_checking", []string{"svc/echo.yml"}, []string{"svc/echo"}, "a header set changed by the user after it was given, and a nil HTTP client, are not covered")
}

func init() {
	simple("C11", "model_checking", []string{"svc/times.yml"}, []string{"svc/times"}, "times held in interface{} and named time types are not covered; instants beyond 2^63 milliseconds are out of scope")
}

func init() {
	register(&Check{ID: "C09", Level: "model_checking", Assumptions: []string{
		"scheduling points are the statements of gotsrpc, its prometheus package and the generated code; the libraries below run between two points, where the race detector still sees them",
		"setters of a client used concurrently with its calls are not covered",
	}, Run: func(e *Env) *Result {
		e.fixture([]string{"svc/echo.yml", "svc/errs.yml", "svc/times.yml"}, "svc/echo", "svc/errs", "svc/times")
		must(copyTree(verif+"/harness/sched", e.VH+"/sched"))
		dirs := []string{repo, repo + "/prometheus", e.VH + "/svc/echo", e.VH + "/svc/errs", e.VH + "/svc/times"}
		ov, points := e.overlaySched(true, dirs...)
		build := func(ov string) (string, procResult) {
			bin := e.Dir + "/c09.bin"
			return bin, run(e.VH, 15*60*1e9, []string{"CGO_ENABLED=1"}, "go", "build", "-race", "-overlay", ov, "-o", bin, "./cmd/c09")
		}
		bin, r := build(ov)
		if r.Code != 0 {
			ov, points = e.overlaySched(false, dirs...)
			if bin, r = build(ov); r.Code != 0 {
				e.fail("compile", "the code does not compile:\n%s", clip(r.Out, 4000))
			}
		}
		res := e.drive(bin)
		res.Notes["instrumented_statements"] = points
		return res
	}})
}

func init() {
	simple("C12", "model_checking", []string{"svc/unions.yml"}, []string{"svc/unions"}, "unions with several members set and unions as JSON arguments are not covered")
}

func init() {
	register(&Check{ID: "C13", Level: "model_checking", Assumptions: []string{
		"values gob refuses (nil pointers inside collections, unregistered interface contents, errors of unregistered types) are not covered",
		"valyala/gorpc itself runs over an in-memory transport; reconnecting, time-outs and load shedding are its own",
		"service and method names whose concatenations coincide are not covered",
	}, Run: func(e *Env) *Result {
		e.fixture([]string{"svc/grpc.yml"}, "svc/grpc", "svc/grpc/twin")
		must(copyTree(verif+"/harness/sched", e.VH+"/sched"))
		dirs := []string{e.VH + "/svc/grpc", e.VH + "/svc/grpc/twin"}
		build := func(locks bool) (string, int, procResult) {
			ov, points := e.overlaySched(locks, dirs...)
			e.overlayGorpc(ov)
			bin := e.Dir + "/c13.bin"
			return bin, points, run(e.VH, 15*60*1e9, []string{"CGO_ENABLED=1"}, "go", "build", "-race", "-overlay", ov, "-o", bin, "./cmd/c13")
		}
		bin, points, r := build(true)
		if r.Code != 0 {
			if bin, points, r = build(false); r.Code != 0 {
				e.fail("compile", "the code does not compile:\n%s", clip(r.Out, 4000))
			}
		}
		res := e.drive(bin)
		res.Notes["instrumented_statements"] = points
		return res
	}})
}

func init() {
	register(&Check{ID: "C14", Level: "model_checking", Assumptions: []string{
		"sizes and times of refused calls are only bounded; concurrent reporting is explored in C09",
		"gorpc runs over an in-memory transport",
	}, Run: func(e *Env) *Result {
		e.fixture([]string{"svc/echo.yml", "svc/errs.yml", "svc/route.yml", "svc/grpc.yml"}, "svc/echo", "svc/errs", "svc/route", "svc/grpc", "svc/grpc/twin")
		ov, _ := e.overlaySched(false)
		e.overlayGorpc(ov)
		return e.drive(e.build("./cmd/c14", "-overlay", ov))
	}})
}
