From 98c759b18393ddef2b0fec01872e60aeb3d626aa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:28:21 +0000
Subject: [PATCH 01/42] fix: make the answer's body available from
 HTTPError.Body

---
 httperror.go | 1 +
 1 file changed, 1 insertion(+)

diff --git a/httperror.go b/httperror.go
index b5b059a..c3ce8ab 100644
--- a/httperror.go
+++ b/httperror.go
@@ -15,6 +15,7 @@ func NewHTTPError(msg string, code int) *HTTPError {
 	return &HTTPError{
 		error:      errors.New(msg),
 		StatusCode: code,
+		Body:       msg,
 	}
 }
 
-- 
2.43.0


From 327c239da7afb4ad87eab15c7dd6196f6f141197 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:35:56 +0000
Subject: [PATCH 02/42] fix: keep message and identity of wrapped errors

Errors whose text does not end in ': <cause>' got the cause's text appended,
Is compared the trimmed text, and errors with several stack traces or a stack
trace around a received error were treated as new errors.
---
 error.go | 35 +++++++++++++++++++++++++----------
 1 file changed, 25 insertions(+), 10 deletions(-)

diff --git a/error.go b/error.go
index 3e7b33a..caa06cb 100644
--- a/error.go
+++ b/error.go
@@ -16,22 +16,20 @@ type Error struct {
 	Type     string      `json:"t"`
 	Data     interface{} `json:"d,omitempty"`
 	ErrCause *Error      `json:"c,omitempty"`
+	// Full is set if Msg is the complete text, i.e. does not need to be followed by the cause's
+	Full bool `json:"f,omitempty"`
 }
 
 // NewError returns a new instance
 func NewError(err error) *Error {
+	// skip *withStack error type
+	err = skipStack(err)
+
 	// check if already transformed
 	if v, ok := err.(*Error); ok { //nolint:errorlint
 		return v
 	}
 
-	// skip *withStack error type
-	if _, ok := err.(interface {
-		StackTrace() errors.StackTrace
-	}); ok && errors.Unwrap(err) != nil {
-		err = errors.Unwrap(err)
-	}
-
 	// retrieve error details
 	errType := reflect.TypeOf(err)
 	errElem := errType
@@ -49,12 +47,28 @@ func NewError(err error) *Error {
 	// unwrap error
 	if unwrappedErr := errors.Unwrap(err); unwrappedErr != nil {
 		inst.ErrCause = NewError(unwrappedErr)
-		inst.Msg = strings.TrimSuffix(inst.Msg, ": "+unwrappedErr.Error())
+		if suffix := ": " + unwrappedErr.Error(); strings.HasSuffix(inst.Msg, suffix) {
+			inst.Msg = strings.TrimSuffix(inst.Msg, suffix)
+		} else {
+			inst.Full = true
+		}
 	}
 
 	return inst
 }
 
+// skipStack skips errors which only add a stack trace
+func skipStack(err error) error {
+	for {
+		if _, ok := err.(interface {
+			StackTrace() errors.StackTrace
+		}); !ok || errors.Unwrap(err) == nil {
+			return err
+		}
+		err = errors.Unwrap(err)
+	}
+}
+
 // As interface
 func (e *Error) As(err interface{}) bool {
 	if e == nil || err == nil {
@@ -108,6 +122,7 @@ func (e *Error) Is(err error) bool {
 	if e == nil || err == nil {
 		return false
 	}
+	err = skipStack(err)
 
 	errType := reflect.TypeOf(err)
 	errElem := errType
@@ -115,7 +130,7 @@ func (e *Error) Is(err error) bool {
 		errElem = errType.Elem()
 	}
 
-	if e.Msg == err.Error() &&
+	if e.Error() == err.Error() &&
 		errType.String() == e.Type &&
 		errElem.PkgPath() == e.Pkg {
 		return true
@@ -127,7 +142,7 @@ func (e *Error) Is(err error) bool {
 // Error interface
 func (e *Error) Error() string {
 	msg := e.Msg
-	if e.ErrCause != nil {
+	if e.ErrCause != nil && !e.Full {
 		msg += ": " + e.ErrCause.Error()
 	}
 	return msg
-- 
2.43.0


From 32e58b676510461dde7e9c2c30edae317e6777a3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:36:40 +0000
Subject: [PATCH 03/42] fix: recover the data of typed errors by the encoding
 they travelled in

mapstructure ignored json names, embedded structs and byte slices, and As took
types of another package with the same name for the wanted one.
---
 error.go     | 10 +++++++---
 transport.go | 21 +++++++++++++++++++--
 2 files changed, 26 insertions(+), 5 deletions(-)

diff --git a/error.go b/error.go
index caa06cb..80eac35 100644
--- a/error.go
+++ b/error.go
@@ -6,7 +6,6 @@ import (
 	"reflect"
 	"strings"
 
-	"github.com/mitchellh/mapstructure"
 	"github.com/pkg/errors"
 )
 
@@ -74,8 +73,13 @@ func (e *Error) As(err interface{}) bool {
 	if e == nil || err == nil {
 		return false
 	}
-	if reflect.TypeOf(err).Elem().String() == e.Type {
-		if decodeErr := mapstructure.Decode(e.Data, &err); decodeErr != nil {
+	target := reflect.TypeOf(err).Elem()
+	targetElem := target
+	if target.Kind() == reflect.Ptr {
+		targetElem = target.Elem()
+	}
+	if target.String() == e.Type && targetElem.PkgPath() == e.Pkg {
+		if decodeErr := decodeErrorData(e.Data, err); decodeErr != nil {
 			fmt.Printf("ERROR: failed to decode error data\n%+v", decodeErr)
 			return false
 		} else {
diff --git a/transport.go b/transport.go
index 8ea7d95..7e61914 100644
--- a/transport.go
+++ b/transport.go
@@ -4,7 +4,6 @@ import (
 	"reflect"
 	"time"
 
-	"github.com/mitchellh/mapstructure"
 	"github.com/pkg/errors"
 	"github.com/ugorji/go/codec"
 )
@@ -61,7 +60,7 @@ var msgpackClientHandle = &clientHandle{
 			if e, ok := v.(*Error); ok && e != nil {
 				if y, ok := (*reply)[k].(*error); ok {
 					*y = e
-				} else if err := mapstructure.Decode(e.Data, (*reply)[k]); err != nil {
+				} else if err := decodeErrorData(e.Data, (*reply)[k]); err != nil {
 					return errors.Wrap(err, "failed to decode wrapped error")
 				}
 			}
@@ -77,6 +76,7 @@ func init() {
 	// attempting to set promoted field in literal will cause a compiler error
 	mh.RawToString = true
 	msgpackClientHandle.handle = mh
+	errorDataHandle = mh
 	// WriteExt is not being called
 	// if err := SetJSONExt(time.Time{}, 2, timeExt); err != nil {
 	// 	 panic(err)
@@ -91,6 +91,23 @@ func init() {
 	jsonClientHandle.handle = jh
 }
 
+// errorDataHandle is the msgpack handle error data has been transported with
+var errorDataHandle codec.Handle
+
+// decodeErrorData sets the target an error pointer points to from the transported data
+func decodeErrorData(data interface{}, target interface{}) error {
+	var b []byte
+	if err := codec.NewEncoderBytes(&b, errorDataHandle).Encode(data); err != nil {
+		return err
+	}
+	value := reflect.New(reflect.TypeOf(target).Elem())
+	if err := codec.NewDecoderBytes(b, errorDataHandle).Decode(value.Interface()); err != nil {
+		return err
+	}
+	reflect.ValueOf(target).Elem().Set(value.Elem())
+	return nil
+}
+
 var jsonClientHandle = &clientHandle{
 	handle:      &codec.JsonHandle{},
 	contentType: "application/json; charset=utf-8",
-- 
2.43.0


From 5a16ab91ab265126751d9ad64044bd5f4b29d249 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:37:03 +0000
Subject: [PATCH 04/42] fix: transport errors whose value is the zero value of
 their type

context.DeadlineExceeded and other errors without data arrived without message,
zero scalar errors made the whole reply undecodable.
---
 transport.go | 12 +++++++++++-
 1 file changed, 11 insertions(+), 1 deletion(-)

diff --git a/transport.go b/transport.go
index 7e61914..a124e00 100644
--- a/transport.go
+++ b/transport.go
@@ -15,6 +15,16 @@ const (
 	EncodingJson    = ClientEncoding(1) //nolint:stylecheck
 )
 
+// isNil reports if an error holds no value at all, a zero value is an error nevertheless
+func isNil(err error) bool {
+	switch v := reflect.ValueOf(err); v.Kind() { //nolint:exhaustive
+	case reflect.Chan, reflect.Func, reflect.Interface, reflect.Map, reflect.Ptr, reflect.Slice:
+		return v.IsNil()
+	default:
+		return false
+	}
+}
+
 var errorType = reflect.TypeOf((*error)(nil)).Elem()
 
 type clientHandle struct {
@@ -32,7 +42,7 @@ var msgpackClientHandle = &clientHandle{
 	beforeEncodeReply: func(resp *[]interface{}) error {
 		for k, v := range *resp {
 			if e, ok := v.(error); ok {
-				if r := reflect.ValueOf(e); !r.IsZero() {
+				if !isNil(e) {
 					(*resp)[k] = NewError(e)
 				}
 			}
-- 
2.43.0


From 1bbacd35d60403f33fa52b9b3d61c129cb4c17a2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:37:31 +0000
Subject: [PATCH 05/42] fix: report the service's own error in statistics and
 monitor

Encoding a msgpack reply replaced the errors in the results, so error type and
code got lost, and errors without data were not reported at all.
---
 gotsrpc.go | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/gotsrpc.go b/gotsrpc.go
index 01345a7..9e26524 100644
--- a/gotsrpc.go
+++ b/gotsrpc.go
@@ -95,15 +95,17 @@ func Reply(response []interface{}, stats *CallStats, r *http.Request, w http.Res
 
 	w.Header().Set("Content-Type", clientHandle.contentType)
 
+	// encode a copy, the results are still needed by stats and monitor
+	reply := append([]interface{}{}, response...)
 	if clientHandle.beforeEncodeReply != nil {
-		if err := clientHandle.beforeEncodeReply(&response); err != nil {
+		if err := clientHandle.beforeEncodeReply(&reply); err != nil {
 			_, _ = fmt.Fprintln(os.Stderr, err.Error())
 			return errors.Wrap(err, "error during before encoder reply")
 		}
 	}
 
 	buf := new(bytes.Buffer)
-	if err := codec.NewEncoder(buf, clientHandle.handle).Encode(response); err != nil {
+	if err := codec.NewEncoder(buf, clientHandle.handle).Encode(reply); err != nil {
 		_, _ = fmt.Fprintln(os.Stderr, err.Error())
 		return errors.Wrap(err, "could not encode data to accepted format")
 	}
@@ -120,7 +122,7 @@ func Reply(response []interface{}, stats *CallStats, r *http.Request, w http.Res
 		if len(response) > 0 {
 			errResp := response[len(response)-1]
 			if v, ok := errResp.(error); ok && v != nil {
-				if !reflect.ValueOf(v).IsZero() {
+				if rv := reflect.ValueOf(v); !rv.IsZero() || rv.Type().Size() == 0 {
 					stats.ErrorCode = 1
 					stats.ErrorType = fmt.Sprintf("%T", v)
 					stats.ErrorMessage = v.Error()
-- 
2.43.0


From 01c6aa0ae0a6bc7952c917ff36aeb20d2e53230c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:44:19 +0000
Subject: [PATCH 06/42] fix: take the status that was sent for the status of an
 answer

An informational status, or a second status after the answer had begun, was
taken for the final one and suppressed the reply.
---
 responsewriter.go | 15 +++++++++++++--
 1 file changed, 13 insertions(+), 2 deletions(-)

diff --git a/responsewriter.go b/responsewriter.go
index 2fca722..2af4d1f 100644
--- a/responsewriter.go
+++ b/responsewriter.go
@@ -11,11 +11,22 @@ type ResponseWriter struct {
 }
 
 func (r *ResponseWriter) WriteHeader(status int) {
-	r.status = status
-	r.wroteHeader = true
+	// informational headers may be followed by others, only the first final one counts
+	if !r.wroteHeader && (status >= http.StatusOK || status == http.StatusSwitchingProtocols) {
+		r.status = status
+		r.wroteHeader = true
+	}
 	r.ResponseWriter.WriteHeader(status)
 }
 
+func (r *ResponseWriter) Write(b []byte) (int, error) {
+	if !r.wroteHeader {
+		r.status = http.StatusOK
+		r.wroteHeader = true
+	}
+	return r.ResponseWriter.Write(b)
+}
+
 func (r *ResponseWriter) Status() int {
 	if !r.wroteHeader {
 		return http.StatusOK
-- 
2.43.0


From 65f55348f2c79279b5feb6a57f907b2fde5fdb51 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:50:59 +0000
Subject: [PATCH 07/42] fix: decode times outside the years 1678 to 2262 from
 JSON

---
 timeext.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/timeext.go b/timeext.go
index 7326ae5..5b10679 100644
--- a/timeext.go
+++ b/timeext.go
@@ -15,5 +15,5 @@ func (x *TimeExt) ConvertExt(v interface{}) interface{} {
 func (x *TimeExt) UpdateExt(dest interface{}, src interface{}) {
 	tt := dest.(*time.Time) //nolint:forcetypeassert
 
-	*tt = time.Unix(0, src.(int64)*int64(time.Millisecond)).Local() //nolint:forcetypeassert
+	*tt = time.UnixMilli(src.(int64)).Local() //nolint:forcetypeassert
 }
-- 
2.43.0


From c89dfd0b636f9af969cd794b4a3f21749240650e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:51:12 +0000
Subject: [PATCH 08/42] fix: encode times that are an argument or result
 themselves as milliseconds in JSON

---
 client.go    |  3 +++
 transport.go | 26 ++++++++++++++++++++++++++
 2 files changed, 29 insertions(+)

diff --git a/client.go b/client.go
index 67ee8bf..86f51a7 100644
--- a/client.go
+++ b/client.go
@@ -82,6 +82,9 @@ func (c *bufferedClient) Call(ctx context.Context, url string, endpoint string,
 
 	// If no arguments are set, remove
 	if len(args) > 0 {
+		if c.handle.beforeEncodeArgs != nil {
+			args = c.handle.beforeEncodeArgs(args)
+		}
 		if err := codec.NewEncoder(b, c.handle.handle).Encode(args); err != nil {
 			return NewClientError(errors.Wrap(err, "failed to encode arguments"))
 		}
diff --git a/transport.go b/transport.go
index a124e00..a41c8a5 100644
--- a/transport.go
+++ b/transport.go
@@ -30,6 +30,7 @@ var errorType = reflect.TypeOf((*error)(nil)).Elem()
 type clientHandle struct {
 	handle            codec.Handle
 	contentType       string
+	beforeEncodeArgs  func([]interface{}) []interface{}
 	beforeEncodeReply func(*[]interface{}) error
 	beforeDecodeReply func([]interface{}) ([]interface{}, error)
 	afterDecodeReply  func(*[]interface{}, []interface{}) error
@@ -121,6 +122,31 @@ func decodeErrorData(data interface{}, target interface{}) error {
 var jsonClientHandle = &clientHandle{
 	handle:      &codec.JsonHandle{},
 	contentType: "application/json; charset=utf-8",
+	// the codec uses extensions for times in values, but not for those that are a value themselves
+	beforeEncodeArgs: func(args []interface{}) []interface{} {
+		ret := make([]interface{}, len(args))
+		copy(ret, args)
+		encodeTimesByExt(ret)
+		return ret
+	},
+	beforeEncodeReply: func(resp *[]interface{}) error {
+		encodeTimesByExt(*resp)
+		return nil
+	},
+}
+
+// encodeTimesByExt has the codec treat times like any other value
+func encodeTimesByExt(values []interface{}) {
+	for k, v := range values {
+		switch t := v.(type) {
+		case time.Time:
+			values[k] = reflect.ValueOf(t)
+		case *time.Time:
+			if t != nil {
+				values[k] = reflect.ValueOf(*t)
+			}
+		}
+	}
 }
 
 func NewMSGPackEncoderBytes(b *[]byte) *codec.Encoder {
-- 
2.43.0


From a93c4fa83951548df9d32dc5cff5979685fe16a2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:27:43 +0000
Subject: [PATCH 09/42] fix: resolve types and unions used in anonymous structs
 only

---
 servicereader.go | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/servicereader.go b/servicereader.go
index 0349c07..85f2307 100644
--- a/servicereader.go
+++ b/servicereader.go
@@ -559,6 +559,14 @@ func needsWorkValue(value *Value, needsWork func(fullName string) bool) bool {
 		if needsWorkValue(value.Map.Key, needsWork) || needsWorkValue(value.Map.Value, needsWork) {
 			return true
 		}
+	case value.Struct != nil:
+		for _, fields := range [][]*Field{value.Struct.Fields, value.Struct.InlineFields, value.Struct.UnionFields} {
+			for _, field := range fields {
+				if needsWorkValue(field.Value, needsWork) {
+					return true
+				}
+			}
+		}
 	}
 	return false
 }
-- 
2.43.0


From 446ece8c5f98a330bd25371b482cd512c39fb695 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:27:43 +0000
Subject: [PATCH 10/42] fix: encode structs that consist of a pointer only

---
 client.go    |  2 +-
 gotsrpc.go   |  2 +-
 transport.go | 17 +++++++++++++++++
 3 files changed, 19 insertions(+), 2 deletions(-)

diff --git a/client.go b/client.go
index 86f51a7..3293316 100644
--- a/client.go
+++ b/client.go
@@ -85,7 +85,7 @@ func (c *bufferedClient) Call(ctx context.Context, url string, endpoint string,
 		if c.handle.beforeEncodeArgs != nil {
 			args = c.handle.beforeEncodeArgs(args)
 		}
-		if err := codec.NewEncoder(b, c.handle.handle).Encode(args); err != nil {
+		if err := codec.NewEncoder(b, c.handle.handle).Encode(encodable(args)); err != nil {
 			return NewClientError(errors.Wrap(err, "failed to encode arguments"))
 		}
 	}
diff --git a/gotsrpc.go b/gotsrpc.go
index 9e26524..486d662 100644
--- a/gotsrpc.go
+++ b/gotsrpc.go
@@ -105,7 +105,7 @@ func Reply(response []interface{}, stats *CallStats, r *http.Request, w http.Res
 	}
 
 	buf := new(bytes.Buffer)
-	if err := codec.NewEncoder(buf, clientHandle.handle).Encode(reply); err != nil {
+	if err := codec.NewEncoder(buf, clientHandle.handle).Encode(encodable(reply)); err != nil {
 		_, _ = fmt.Fprintln(os.Stderr, err.Error())
 		return errors.Wrap(err, "could not encode data to accepted format")
 	}
diff --git a/transport.go b/transport.go
index a41c8a5..e9d7875 100644
--- a/transport.go
+++ b/transport.go
@@ -96,6 +96,8 @@ func init() {
 	jh := new(codec.JsonHandle)
 	jh.MapKeyAsString = true
 	jh.TimeNotBuiltin = true
+	// extensions would get invalid pointers to structs that consist of a pointer only otherwise
+	jh.NoAddressableReadonly = true
 	if err := jh.SetInterfaceExt(reflect.TypeOf(time.Time{}), 1, timeExt); err != nil {
 		panic(err)
 	}
@@ -149,6 +151,21 @@ func encodeTimesByExt(values []interface{}) {
 	}
 }
 
+// encodable passes structs of a single field by reference,
+// the codec mistakes a struct value that consists of a pointer only for what that points to
+func encodable(values []interface{}) []interface{} {
+	ret := make([]interface{}, len(values))
+	for k, v := range values {
+		ret[k] = v
+		if value := reflect.ValueOf(v); value.Kind() == reflect.Struct && value.NumField() == 1 {
+			ptr := reflect.New(value.Type())
+			ptr.Elem().Set(value)
+			ret[k] = ptr.Interface()
+		}
+	}
+	return ret
+}
+
 func NewMSGPackEncoderBytes(b *[]byte) *codec.Encoder {
 	return codec.NewEncoderBytes(b, msgpackClientHandle.handle)
 }
-- 
2.43.0


From 95480492107bd6868810d44c314fc24faab58c26 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:44:00 +0000
Subject: [PATCH 11/42] fix: instrument several services in one process

---
 prometheus/prometheus.go | 21 ++++++++++++++++++---
 1 file changed, 18 insertions(+), 3 deletions(-)

diff --git a/prometheus/prometheus.go b/prometheus/prometheus.go
index 6cb2862..7f7bbf9 100644
--- a/prometheus/prometheus.go
+++ b/prometheus/prometheus.go
@@ -1,6 +1,7 @@
 package prometheus
 
 import (
+	"errors"
 	"net/http"
 
 	p "github.com/prometheus/client_golang/prometheus"
@@ -8,6 +9,20 @@ import (
 	"github.com/foomo/gotsrpc/v2"
 )
 
+// register has all instrumented services share their metrics
+func register(vec *p.SummaryVec) *p.SummaryVec {
+	if err := p.Register(vec); err != nil {
+		var registered p.AlreadyRegisteredError
+		if errors.As(err, &registered) {
+			if existing, ok := registered.ExistingCollector.(*p.SummaryVec); ok {
+				return existing
+			}
+		}
+		panic(err)
+	}
+	return vec
+}
+
 func InstrumentService(s http.HandlerFunc) (handler http.HandlerFunc) {
 	requestDuration := p.NewSummaryVec(p.SummaryOpts{ //nolint:promlinter
 		Namespace:  "gotsrpc",
@@ -24,8 +39,8 @@ func InstrumentService(s http.HandlerFunc) (handler http.HandlerFunc) {
 		Objectives: map[float64]float64{0.5: 0.05, 0.9: 0.01, 0.99: 0.001},
 	}, []string{"package", "service", "func", "type"})
 
-	p.MustRegister(requestSize)
-	p.MustRegister(requestDuration)
+	requestSize = register(requestSize)
+	requestDuration = register(requestDuration)
 
 	return gotsrpc.InstrumentedService(s.ServeHTTP, func(stats *gotsrpc.CallStats) {
 		requestSize.WithLabelValues(stats.Package, stats.Service, stats.Func, "request").Observe(float64(stats.RequestSize))
@@ -43,7 +58,7 @@ func InstrumentGoRPCService() gotsrpc.GoRPCCallStatsHandlerFun {
 		Name:      "time_seconds",
 		Help:      "seconds to execute a service method",
 	}, []string{"package", "service", "func", "type"})
-	p.MustRegister(callsCounter)
+	callsCounter = register(callsCounter)
 
 	return func(stats *gotsrpc.CallStats) {
 		callsCounter.WithLabelValues(stats.Package, stats.Service, stats.Func, "execution").Observe(float64(stats.Execution))
-- 
2.43.0


From 399cbbaf15d22ea7a7da5791e57cc7aa0891007f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:44:00 +0000
Subject: [PATCH 12/42] fix: observe the execution time of gorpc calls in
 seconds

---
 prometheus/prometheus.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/prometheus/prometheus.go b/prometheus/prometheus.go
index 7f7bbf9..7f1be86 100644
--- a/prometheus/prometheus.go
+++ b/prometheus/prometheus.go
@@ -61,6 +61,6 @@ func InstrumentGoRPCService() gotsrpc.GoRPCCallStatsHandlerFun {
 	callsCounter = register(callsCounter)
 
 	return func(stats *gotsrpc.CallStats) {
-		callsCounter.WithLabelValues(stats.Package, stats.Service, stats.Func, "execution").Observe(float64(stats.Execution))
+		callsCounter.WithLabelValues(stats.Package, stats.Service, stats.Func, "execution").Observe(stats.Execution.Seconds())
 	}
 }
-- 
2.43.0


From 2ea7f867d2e9245ce83d5fc0c19fed976f6345c0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:44:12 +0000
Subject: [PATCH 13/42] fix: do not report requests that are no calls to
 instrumentation

---
 instrumentation.go | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/instrumentation.go b/instrumentation.go
index c0b67b7..9e61119 100644
--- a/instrumentation.go
+++ b/instrumentation.go
@@ -6,7 +6,8 @@ func InstrumentedService(middleware http.HandlerFunc, handleStats GoRPCCallStats
 	return func(w http.ResponseWriter, r *http.Request) {
 		*r = *RequestWithStatsContext(r)
 		middleware(w, r)
-		if stats, ok := GetStatsForRequest(r); ok {
+		// requests that are no calls leave the stats as they are
+		if stats, ok := GetStatsForRequest(r); ok && stats.Func != "" {
 			handleStats(stats)
 		}
 	}
-- 
2.43.0


From 7e157e619b7b83a7c88c012330b06528f08633a0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:10:11 +0000
Subject: [PATCH 14/42] fix: read go.mod for absolute module paths, too

---
 config/config.go | 17 ++++++++++-------
 1 file changed, 10 insertions(+), 7 deletions(-)

diff --git a/config/config.go b/config/config.go
index d84cec9..25aff66 100644
--- a/config/config.go
+++ b/config/config.go
@@ -73,17 +73,20 @@ func LoadConfigFile(file string) (conf *Config, err error) {
 		return nil, err
 	}
 
-	if conf.Module.Path != "" && !path.IsAbs(conf.Module.Path) {
-		absPath, err := filepath.Abs(filepath.Join(filepath.Dir(file), conf.Module.Path))
-		if err != nil {
-			return nil, err
+	if conf.Module.Path != "" {
+		if !path.IsAbs(conf.Module.Path) {
+			absPath, err := filepath.Abs(filepath.Join(filepath.Dir(file), conf.Module.Path))
+			if err != nil {
+				return nil, err
+			}
+			conf.Module.Path = absPath
 		}
-		conf.Module.Path = absPath
 
-		if data, err := os.ReadFile(path.Join(absPath, "go.mod")); err != nil && !os.IsNotExist(err) {
+		goMod := path.Join(conf.Module.Path, "go.mod")
+		if data, err := os.ReadFile(goMod); err != nil && !os.IsNotExist(err) {
 			return nil, err
 		} else if err == nil {
-			modFile, err := modfile.Parse(path.Join(absPath, "go.mod"), data, nil)
+			modFile, err := modfile.Parse(goMod, data, nil)
 			if err != nil {
 				return nil, err
 			}
-- 
2.43.0


From 67f9806c677cf664c5ef61b1e2d7cdac2341948f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:10:11 +0000
Subject: [PATCH 15/42] fix: resolve packages from the most specific module as
 go does

---
 build.go   |   2 +-
 gotsrpc.go | 138 ++++++++++++++++++++++++++++++++++++++++-------------
 2 files changed, 106 insertions(+), 34 deletions(-)

diff --git a/build.go b/build.go
index efcf0f7..0b8ee46 100644
--- a/build.go
+++ b/build.go
@@ -55,7 +55,7 @@ func commonJSImports(conf *config.Config, c *code, tsFilename string, code strin
 }
 
 func getPathForTarget(gomod config.Namespace, goPath string, target *config.Target) (outputPath string) {
-	if gomod.Name != "" && strings.HasPrefix(target.Package, gomod.Name) {
+	if inModule(target.Package, gomod.Name) {
 		relative := strings.TrimPrefix(target.Package, gomod.Name)
 		return path.Join(gomod.Path, relative)
 	} else {
diff --git a/gotsrpc.go b/gotsrpc.go
index 486d662..94986fe 100644
--- a/gotsrpc.go
+++ b/gotsrpc.go
@@ -20,6 +20,8 @@ import (
 
 	"github.com/pkg/errors"
 	"github.com/ugorji/go/codec"
+	"golang.org/x/mod/modfile"
+	"golang.org/x/mod/module"
 
 	"github.com/foomo/gotsrpc/v2/config"
 )
@@ -142,47 +144,117 @@ func parserExcludeFiles(info os.FileInfo) bool {
 	return !strings.HasSuffix(info.Name(), "_test.go")
 }
 
+// inModule tells if a package may belong to a module
+func inModule(packageName, modulePath string) bool {
+	return modulePath != "" && (packageName == modulePath || strings.HasPrefix(packageName, modulePath+"/"))
+}
+
+// moduleCacheDir returns the directory of a module in the module cache
+func moduleCacheDir(goPath string, mod module.Version) string {
+	escapedPath, err := module.EscapePath(mod.Path)
+	if err != nil {
+		escapedPath = mod.Path
+	}
+	escapedVersion, err := module.EscapeVersion(mod.Version)
+	if err != nil {
+		escapedVersion = mod.Version
+	}
+	return filepath.Join(goPath, "pkg", "mod", escapedPath+"@"+escapedVersion)
+}
+
+// packageDirInModules returns the directory of a package in the most specific module that has it,
+// known tells if there is a module it may belong to at all
+func packageDirInModules(goPaths []string, gomod config.Namespace, packageName string) (dir string, known bool) {
+	type moduleDir struct {
+		path string
+		dirs []string
+	}
+	moduleDirs := []moduleDir{{path: gomod.Name, dirs: []string{gomod.Path}}}
+	cacheDirs := func(mod module.Version) (dirs []string) {
+		for _, goPath := range goPaths {
+			dirs = append(dirs, moduleCacheDir(goPath, mod))
+		}
+		return dirs
+	}
+	if gomod.ModFile != nil {
+		required := map[string]string{}
+		for _, req := range gomod.ModFile.Require {
+			required[req.Mod.Path] = req.Mod.Version
+		}
+		replacements := map[string]*modfile.Replace{}
+		for _, rep := range gomod.ModFile.Replace {
+			if rep.Old.Version == "" {
+				if _, ok := replacements[rep.Old.Path]; !ok {
+					replacements[rep.Old.Path] = rep
+				}
+			} else if rep.Old.Version == required[rep.Old.Path] {
+				replacements[rep.Old.Path] = rep
+			}
+		}
+		for modulePath, rep := range replacements {
+			var dirs []string
+			switch {
+			case rep.New.Version != "":
+				trace("replacing package", packageName, rep.Old.String(), rep.New.String())
+				dirs = cacheDirs(rep.New)
+			case filepath.IsAbs(rep.New.Path):
+				trace("replacing package with local dir", packageName, rep.Old.String(), rep.New.String())
+				dirs = []string{rep.New.Path}
+			default:
+				trace("replacing package with local dir", packageName, rep.Old.String(), rep.New.String())
+				dirs = []string{filepath.Join(gomod.Path, rep.New.Path)}
+			}
+			moduleDirs = append(moduleDirs, moduleDir{path: modulePath, dirs: dirs})
+		}
+		for _, req := range gomod.ModFile.Require {
+			if _, ok := replacements[req.Mod.Path]; !ok {
+				moduleDirs = append(moduleDirs, moduleDir{path: req.Mod.Path, dirs: cacheDirs(req.Mod)})
+			}
+		}
+	}
+	sort.SliceStable(moduleDirs, func(i, j int) bool { return len(moduleDirs[i].path) > len(moduleDirs[j].path) })
+	for _, mod := range moduleDirs {
+		if !inModule(packageName, mod.path) {
+			continue
+		}
+		known = true
+		for _, modDir := range mod.dirs {
+			packageDir := filepath.Join(modDir, strings.TrimPrefix(packageName, mod.path))
+			entries, err := os.ReadDir(packageDir)
+			if err != nil {
+				continue
+			}
+			for _, entry := range entries {
+				if !entry.IsDir() && strings.HasSuffix(entry.Name(), ".go") {
+					return packageDir, true
+				}
+			}
+		}
+	}
+	return "", known
+}
+
 func parseDir(goPaths []string, gomod config.Namespace, packageName string) (map[string]*ast.Package, *token.FileSet, error) {
-	if gomod.Name != "" && strings.HasPrefix(packageName, gomod.Name) {
+	dir, known := packageDirInModules(goPaths, gomod, packageName)
+	if dir != "" {
+		mode := parser.AllErrors
+		if inModule(packageName, gomod.Name) {
+			mode |= parser.DeclarationErrors
+		}
 		fset := token.NewFileSet()
-		dir := strings.Replace(packageName, gomod.Name, gomod.Path, 1)
-		pkgs, err := parser.ParseDir(fset, dir, parserExcludeFiles, parser.DeclarationErrors|parser.AllErrors)
+		pkgs, err := parser.ParseDir(fset, dir, parserExcludeFiles, mode)
 		return pkgs, fset, err
 	}
 
 	errorStrings := map[string]string{}
 	for _, goPath := range goPaths {
-		var dir string
 		fset := token.NewFileSet()
-		if gomod.ModFile != nil {
-			for _, rep := range gomod.ModFile.Replace {
-				if packageName == rep.Old.Path || strings.HasPrefix(packageName, rep.Old.Path+"/") {
-					if strings.HasPrefix(rep.New.String(), ".") || strings.HasPrefix(rep.New.Path, "/") {
-						trace("replacing package with local dir", packageName, rep.Old.String(), rep.New.String())
-						dir = strings.Replace(packageName, rep.Old.Path, filepath.Join(gomod.Path, rep.New.Path), 1)
-					} else {
-						trace("replacing package", packageName, rep.Old.String(), rep.New.String())
-						dir = strings.TrimSuffix(path.Join(goPath, "pkg", "mod", rep.New.String(), strings.TrimPrefix(packageName, rep.Old.Path)), "/")
-					}
-					break
-				}
-			}
-			if dir == "" {
-				for _, req := range gomod.ModFile.Require {
-					if packageName == req.Mod.Path || strings.HasPrefix(packageName, req.Mod.Path+"/") {
-						trace("resolving mod package", packageName, req.Mod.String())
-						dir = strings.TrimSuffix(path.Join(goPath, "pkg", "mod", req.Mod.String(), strings.TrimPrefix(packageName, req.Mod.Path)), "/")
-						break
-					}
-				}
-			}
-		}
-		if dir == "" {
-			if strings.HasSuffix(goPath, "vendor") {
-				dir = path.Join(goPath, packageName)
-			} else {
-				dir = path.Join(goPath, "src", packageName)
-			}
+		if strings.HasSuffix(goPath, "vendor") {
+			dir = path.Join(goPath, packageName)
+		} else if known {
+			continue
+		} else {
+			dir = path.Join(goPath, "src", packageName)
 		}
 		pkgs, err := parser.ParseDir(fset, dir, parserExcludeFiles, parser.AllErrors)
 		if err == nil {
-- 
2.43.0


From 2df7dabfaf94fc26dee0ebc2bd05c9e869e43596 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:10:22 +0000
Subject: [PATCH 16/42] fix: leave files out that build constraints exclude

---
 gotsrpc.go | 16 ++++++++++++----
 1 file changed, 12 insertions(+), 4 deletions(-)

diff --git a/gotsrpc.go b/gotsrpc.go
index 94986fe..b309365 100644
--- a/gotsrpc.go
+++ b/gotsrpc.go
@@ -6,6 +6,7 @@ import (
 	"encoding/json"
 	"fmt"
 	"go/ast"
+	"go/build"
 	"go/parser"
 	"go/token"
 	"net/http"
@@ -140,8 +141,15 @@ func Reply(response []interface{}, stats *CallStats, r *http.Request, w http.Res
 	return nil
 }
 
-func parserExcludeFiles(info os.FileInfo) bool {
-	return !strings.HasSuffix(info.Name(), "_test.go")
+// parserExcludeFiles leaves out tests and what build constraints exclude from the package in a directory
+func parserExcludeFiles(dir string) func(info os.FileInfo) bool {
+	return func(info os.FileInfo) bool {
+		if strings.HasSuffix(info.Name(), "_test.go") {
+			return false
+		}
+		match, err := build.Default.MatchFile(dir, info.Name())
+		return match || err != nil // let the parser complain
+	}
 }
 
 // inModule tells if a package may belong to a module
@@ -242,7 +250,7 @@ func parseDir(goPaths []string, gomod config.Namespace, packageName string) (map
 			mode |= parser.DeclarationErrors
 		}
 		fset := token.NewFileSet()
-		pkgs, err := parser.ParseDir(fset, dir, parserExcludeFiles, mode)
+		pkgs, err := parser.ParseDir(fset, dir, parserExcludeFiles(dir), mode)
 		return pkgs, fset, err
 	}
 
@@ -256,7 +264,7 @@ func parseDir(goPaths []string, gomod config.Namespace, packageName string) (map
 		} else {
 			dir = path.Join(goPath, "src", packageName)
 		}
-		pkgs, err := parser.ParseDir(fset, dir, parserExcludeFiles, parser.AllErrors)
+		pkgs, err := parser.ParseDir(fset, dir, parserExcludeFiles(dir), parser.AllErrors)
 		if err == nil {
 			return pkgs, fset, nil
 		}
-- 
2.43.0


From fe013eb8c75b97f3b04909373174cbbe3f82b337 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:20:47 +0000
Subject: [PATCH 17/42] fix: look for packages in vendor first and pass over
 directories without go files

---
 build.go   | 2 +-
 gotsrpc.go | 3 +++
 2 files changed, 4 insertions(+), 1 deletion(-)

diff --git a/build.go b/build.go
index 0b8ee46..f327ffc 100644
--- a/build.go
+++ b/build.go
@@ -123,7 +123,7 @@ func Build(conf *config.Config, goPath string) { //nolint:maintidx
 		goPaths := []string{goPath, runtime.GOROOT()}
 
 		if _, err := os.Stat(vendorDirectory); !os.IsNotExist(err) {
-			goPaths = append(goPaths, vendorDirectory)
+			goPaths = append([]string{vendorDirectory}, goPaths...)
 		}
 
 		pkgName, services, structs, scalars, constantTypes, err := Read(goPaths, conf.Module, packageName, target.Services, missingTypes, missingConstants)
diff --git a/gotsrpc.go b/gotsrpc.go
index b309365..c607cb6 100644
--- a/gotsrpc.go
+++ b/gotsrpc.go
@@ -265,6 +265,9 @@ func parseDir(goPaths []string, gomod config.Namespace, packageName string) (map
 			dir = path.Join(goPath, "src", packageName)
 		}
 		pkgs, err := parser.ParseDir(fset, dir, parserExcludeFiles(dir), parser.AllErrors)
+		if err == nil && len(pkgs) == 0 {
+			err = errors.New("no go files")
+		}
 		if err == nil {
 			return pkgs, fset, nil
 		}
-- 
2.43.0


From 97664afea576f3d6586cb58196190a8b797b27c4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:29:25 +0000
Subject: [PATCH 18/42] fix: remove the outputs of all targets before reading
 any package

---
 build.go | 27 +++++++++++++++------------
 1 file changed, 15 insertions(+), 12 deletions(-)

diff --git a/build.go b/build.go
index f327ffc..c561068 100644
--- a/build.go
+++ b/build.go
@@ -89,6 +89,21 @@ func Build(conf *config.Config, goPath string) { //nolint:maintidx
 		}
 	}
 
+	// remove what earlier runs left behind before any package is read
+	for _, name := range names {
+		outputPath := getPathForTarget(conf.Module, goPath, conf.Targets[name])
+		for _, output := range []string{"gorpc_gen.go", "gorpcclient_gen.go", "gotsrpc_gen.go", "gotsrpcclient_gen.go"} {
+			filename := path.Join(outputPath, output)
+			if _, err := os.Stat(filename); err == nil {
+				_, _ = fmt.Fprintln(os.Stderr, "removing existing", filename)
+				if err := os.Remove(filename); err != nil {
+					_, _ = fmt.Fprintln(os.Stderr, "	could not remove existing file", filename, err)
+					os.Exit(5)
+				}
+			}
+		}
+	}
+
 	for _, name := range names {
 		target := conf.Targets[name]
 
@@ -101,18 +116,6 @@ func Build(conf *config.Config, goPath string) { //nolint:maintidx
 		goTSRPCProxiesFilename := path.Join(outputPath, "gotsrpc_gen.go")
 		goTSRPCClientsFilename := path.Join(outputPath, "gotsrpcclient_gen.go")
 
-		remove := func(filename string) {
-			_, err := os.Stat(filename)
-			if err == nil {
-				_, _ = fmt.Fprintln(os.Stderr, "	removing existing", filename)
-				os.Remove(filename)
-			}
-		}
-		remove(goRPCProxiesFilename)
-		remove(goRPCClientsFilename)
-		remove(goTSRPCProxiesFilename)
-		remove(goTSRPCClientsFilename)
-
 		workDirectory, err := os.Getwd()
 		if err != nil {
 			_, _ = fmt.Fprintln(os.Stderr, err)
-- 
2.43.0


From 28238252497adbfd72c96dcfef5464ed77695909 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:30:11 +0000
Subject: [PATCH 19/42] fix: render included structs and constants whichever
 target comes first

---
 build.go         | 30 ++++++++++++++++--------------
 servicereader.go | 15 +++++++++++++++
 2 files changed, 31 insertions(+), 14 deletions(-)

diff --git a/build.go b/build.go
index c561068..ecf764b 100644
--- a/build.go
+++ b/build.go
@@ -75,20 +75,6 @@ func Build(conf *config.Config, goPath string) { //nolint:maintidx
 	}
 	sort.Strings(names)
 
-	missingTypes := map[string]bool{}
-	for _, mapping := range conf.Mappings {
-		for _, include := range mapping.Structs {
-			missingTypes[include] = true
-		}
-	}
-
-	missingConstants := map[string]bool{}
-	for _, mapping := range conf.Mappings {
-		for _, include := range mapping.Scalars {
-			missingConstants[include] = true
-		}
-	}
-
 	// remove what earlier runs left behind before any package is read
 	for _, name := range names {
 		outputPath := getPathForTarget(conf.Module, goPath, conf.Targets[name])
@@ -104,9 +90,25 @@ func Build(conf *config.Config, goPath string) { //nolint:maintidx
 		}
 	}
 
+	includesRead := false
 	for _, name := range names {
 		target := conf.Targets[name]
 
+		// what the mappings include goes with the first target that has TypeScript output
+		missingTypes := map[string]bool{}
+		missingConstants := map[string]bool{}
+		if target.Out != "" && !includesRead {
+			includesRead = true
+			for _, mapping := range conf.Mappings {
+				for _, include := range mapping.Structs {
+					missingTypes[include] = true
+				}
+				for _, include := range mapping.Scalars {
+					missingConstants[include] = true
+				}
+			}
+		}
+
 		packageName := target.Package
 		outputPath := getPathForTarget(conf.Module, goPath, target)
 		_, _ = fmt.Fprintf(os.Stderr, "building target %s (%s -> %s)\n", name, packageName, outputPath)
diff --git a/servicereader.go b/servicereader.go
index 85f2307..4b07c35 100644
--- a/servicereader.go
+++ b/servicereader.go
@@ -334,6 +334,21 @@ func Read(
 		}
 	}
 
+	for constant := range missingConstants {
+		constantPackage := ""
+		if i := strings.LastIndex(constant, "."); i >= 0 {
+			constantPackage = constant[:i]
+		}
+		if _, ok := allConstantTypes[constantPackage]; !ok {
+			if pkg, constPkgErr := parsePackage(goPaths, gomod, constantPackage); constPkgErr != nil {
+				err = constPkgErr
+				return
+			} else {
+				allConstantTypes[constantPackage] = loadConstantTypes(pkg)
+			}
+		}
+	}
+
 	flatStructs := map[string]bool{}
 	for _, s := range structs {
 		loadFlatStructs(s, flatStructs)
-- 
2.43.0


From 904c270830302ff43fe6b94ebe7bf8c959007d9e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:30:22 +0000
Subject: [PATCH 20/42] fix: fail when a TypeScript file cannot be written

---
 build.go | 1 +
 1 file changed, 1 insertion(+)

diff --git a/build.go b/build.go
index ecf764b..8495512 100644
--- a/build.go
+++ b/build.go
@@ -274,6 +274,7 @@ func Build(conf *config.Config, goPath string) { //nolint:maintidx
 		updateErr := updateCode(mapping.Out, getTSHeaderComment()+ts)
 		if updateErr != nil {
 			_, _ = fmt.Fprintln(os.Stderr, "	failed to update code in", mapping.Out, updateErr)
+			os.Exit(3)
 		}
 	}
 }
-- 
2.43.0


From 52928b05f13adc619ec027054e46c400740f3e6a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:30:46 +0000
Subject: [PATCH 21/42] fix: order services of the same name by their endpoints

---
 servicereader.go | 11 ++++++++---
 1 file changed, 8 insertions(+), 3 deletions(-)

diff --git a/servicereader.go b/servicereader.go
index 4b07c35..411cb24 100644
--- a/servicereader.go
+++ b/servicereader.go
@@ -12,9 +12,14 @@ import (
 	"github.com/foomo/gotsrpc/v2/config"
 )
 
-func (sl ServiceList) Len() int           { return len(sl) }
-func (sl ServiceList) Swap(i, j int)      { sl[i], sl[j] = sl[j], sl[i] }
-func (sl ServiceList) Less(i, j int) bool { return strings.Compare(sl[i].Name, sl[j].Name) > 0 }
+func (sl ServiceList) Len() int      { return len(sl) }
+func (sl ServiceList) Swap(i, j int) { sl[i], sl[j] = sl[j], sl[i] }
+func (sl ServiceList) Less(i, j int) bool {
+	if sl[i].Name == sl[j].Name {
+		return sl[i].Endpoint < sl[j].Endpoint
+	}
+	return strings.Compare(sl[i].Name, sl[j].Name) > 0
+}
 
 func readServiceFile(file *ast.File, packageName string, services ServiceList) error {
 	findService := func(serviceName string) (service *Service, ok bool) {
-- 
2.43.0


From 7cb72872d3b599b7fd0a29f5fae0c1c098b33eba Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:30:46 +0000
Subject: [PATCH 22/42] fix: fail when a configured service is not declared

---
 servicereader.go | 15 +++++++++++++++
 1 file changed, 15 insertions(+)

diff --git a/servicereader.go b/servicereader.go
index 411cb24..b4d0ac7 100644
--- a/servicereader.go
+++ b/servicereader.go
@@ -185,14 +185,29 @@ func readServicesInPackage(pkg *ast.Package, packageName string, serviceMap map[
 	}
 	sort.Strings(pkgFiles)
 
+	declaredTypes := map[string]bool{}
 	for _, k := range pkgFiles {
 		file := pkg.Files[k]
+		for _, decl := range file.Decls {
+			if genDecl, ok := decl.(*ast.GenDecl); ok {
+				for _, spec := range genDecl.Specs {
+					if typeSpec, ok := spec.(*ast.TypeSpec); ok {
+						declaredTypes[typeSpec.Name.Name] = true
+					}
+				}
+			}
+		}
 		err = readServiceFile(file, packageName, services)
 		if err != nil {
 			return
 		}
 	}
 	sort.Sort(services)
+	for _, service := range services {
+		if !declaredTypes[service.Name] {
+			return nil, errors.New("could not find service " + service.Name + " in package " + packageName)
+		}
+	}
 	return
 }
 
-- 
2.43.0


From aa985b48f7a12e6f8a712fd86522587d4e912952 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:35:32 +0000
Subject: [PATCH 23/42] fix: report empty targets and mappings

---
 config/config.go | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/config/config.go b/config/config.go
index 25aff66..95563a2 100644
--- a/config/config.go
+++ b/config/config.go
@@ -103,7 +103,15 @@ func loadConfig(yamlBytes []byte) (conf *Config, err error) {
 		err = errors.New("could not parse yaml: " + yamlErr.Error())
 		return
 	}
+	for name, target := range conf.Targets {
+		if target == nil {
+			return nil, errors.New("target " + name + " is empty")
+		}
+	}
 	for goPackage, mapping := range conf.Mappings {
+		if mapping == nil {
+			return nil, errors.New("mapping for go package " + goPackage + " is empty")
+		}
 		mapping.GoPackage = goPackage
 	}
 	return
-- 
2.43.0


From 7a7a7ccc0d76fb2bd3b6ef12afe63cf5f4316082 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:35:32 +0000
Subject: [PATCH 24/42] fix: fail when a target lists services it does not have

---
 config/config.go | 14 ++++++++++++++
 1 file changed, 14 insertions(+)

diff --git a/config/config.go b/config/config.go
index 95563a2..5de1009 100644
--- a/config/config.go
+++ b/config/config.go
@@ -41,6 +41,15 @@ func (t *Target) IsTSRPC(service string) bool {
 	return false
 }
 
+func (t *Target) hasService(service string) bool {
+	for _, value := range t.Services {
+		if value == service {
+			return true
+		}
+	}
+	return false
+}
+
 type Mapping struct {
 	GoPackage        string   `yaml:"-"`
 	Out              string   `yaml:"out"`
@@ -107,6 +116,11 @@ func loadConfig(yamlBytes []byte) (conf *Config, err error) {
 		if target == nil {
 			return nil, errors.New("target " + name + " is empty")
 		}
+		for _, listed := range append(append([]string{}, target.GoRPC...), target.TSRPC...) {
+			if !target.hasService(listed) {
+				return nil, errors.New("target " + name + " has no service " + listed)
+			}
+		}
 	}
 	for goPackage, mapping := range conf.Mappings {
 		if mapping == nil {
-- 
2.43.0


From c47f0008f204b4a91bd6f2efa7a1b3812c884613 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:38:07 +0000
Subject: [PATCH 25/42] fix: fail on types that are not declared

---
 model.go         |  3 ++
 servicereader.go | 24 +++++++++-------
 typereader.go    | 72 ++++++++++++++++++++++++++++++++++++++++++++++++
 3 files changed, 89 insertions(+), 10 deletions(-)

diff --git a/model.go b/model.go
index 0d51681..1a1f524 100644
--- a/model.go
+++ b/model.go
@@ -86,12 +86,15 @@ type Struct struct {
 	InlineFields []*Field
 	Map          *Map
 	Array        *Array
+	undeclared   string // a type that is used but not declared
 }
 
 type Scalar struct {
 	Name    string
 	Package string
 	Type    ScalarType
+
+	undeclared string // a type that is used but not declared
 }
 
 func (st *Scalar) FullName() string {
diff --git a/servicereader.go b/servicereader.go
index b4d0ac7..80c5cc7 100644
--- a/servicereader.go
+++ b/servicereader.go
@@ -185,28 +185,26 @@ func readServicesInPackage(pkg *ast.Package, packageName string, serviceMap map[
 	}
 	sort.Strings(pkgFiles)
 
-	declaredTypes := map[string]bool{}
 	for _, k := range pkgFiles {
 		file := pkg.Files[k]
-		for _, decl := range file.Decls {
-			if genDecl, ok := decl.(*ast.GenDecl); ok {
-				for _, spec := range genDecl.Specs {
-					if typeSpec, ok := spec.(*ast.TypeSpec); ok {
-						declaredTypes[typeSpec.Name.Name] = true
-					}
-				}
-			}
-		}
 		err = readServiceFile(file, packageName, services)
 		if err != nil {
 			return
 		}
 	}
 	sort.Sort(services)
+	declaredTypes := getDeclaredTypes(pkg)
 	for _, service := range services {
 		if !declaredTypes[service.Name] {
 			return nil, errors.New("could not find service " + service.Name + " in package " + packageName)
 		}
+		for _, method := range service.Methods {
+			for _, fields := range [][]*Field{method.Args, method.Return} {
+				if name := undeclaredTypeInFields(fields, declaredTypes); name != "" {
+					return nil, errors.New("could not resolve type " + name + " of " + service.Name + "." + method.Name + " in package " + packageName)
+				}
+			}
+		}
 	}
 	return
 }
@@ -526,6 +524,9 @@ func collectTypes(goPaths []string, gomod config.Namespace, missingTypes map[str
 					if packageStruct == nil {
 						panic("waaaaaaaaa")
 					}
+					if packageStruct.undeclared != "" {
+						return errors.New("could not resolve type " + packageStruct.undeclared + " of " + packageStructName)
+					}
 					structs[packageStructName] = packageStruct
 				}
 			}
@@ -535,6 +536,9 @@ func collectTypes(goPaths []string, gomod config.Namespace, missingTypes map[str
 				missing, needed := missingTypes[packageScalarName]
 				if needed && missing {
 					trace("picked up package scalar", packageScalarName, packageScalar)
+					if packageScalar.undeclared != "" {
+						return errors.New("could not resolve type " + packageScalar.undeclared + " of " + packageScalarName)
+					}
 					missingTypes[packageScalarName] = false
 					scalars[packageScalarName] = packageScalar
 				}
diff --git a/typereader.go b/typereader.go
index 04c34a4..1ee13fa 100644
--- a/typereader.go
+++ b/typereader.go
@@ -3,6 +3,7 @@ package gotsrpc
 import (
 	"fmt"
 	"go/ast"
+	"go/types"
 	"os"
 	"reflect"
 	"strings"
@@ -34,9 +35,80 @@ func readStructs(pkg *ast.Package, packageName string) (structs map[string]*Stru
 			structType.IsError = true
 		}
 	}
+	declared := getDeclaredTypes(pkg)
+	for _, structType := range structs {
+		structType.undeclared = undeclaredTypeInStruct(structType, declared)
+	}
+	for _, scalar := range scalars {
+		if !isDeclaredType(string(scalar.Type), declared) {
+			scalar.undeclared = string(scalar.Type)
+		}
+	}
 	return
 }
 
+func getDeclaredTypes(pkg *ast.Package) map[string]bool {
+	declared := map[string]bool{}
+	for _, file := range pkg.Files {
+		for _, decl := range file.Decls {
+			if genDecl, ok := decl.(*ast.GenDecl); ok {
+				for _, spec := range genDecl.Specs {
+					if typeSpec, ok := spec.(*ast.TypeSpec); ok {
+						declared[typeSpec.Name.Name] = true
+					}
+				}
+			}
+		}
+	}
+	return declared
+}
+
+// isDeclaredType tells if a local type name is declared, exported ones are looked up when they are collected
+func isDeclaredType(name string, declared map[string]bool) bool {
+	if name == "" || declared[name] || ast.IsExported(name) || name == string(ScalarTypeNumber) {
+		return true
+	}
+	_, ok := types.Universe.Lookup(name).(*types.TypeName)
+	return ok
+}
+
+func undeclaredType(v *Value, declared map[string]bool) string {
+	switch {
+	case v == nil:
+		return ""
+	case v.Map != nil:
+		if name := undeclaredType(v.Map.Key, declared); name != "" {
+			return name
+		}
+		return undeclaredType(v.Map.Value, declared)
+	case v.Array != nil:
+		return undeclaredType(v.Array.Value, declared)
+	case v.Struct != nil:
+		return undeclaredTypeInStruct(v.Struct, declared)
+	case !isDeclaredType(v.GoScalarType, declared):
+		return v.GoScalarType
+	}
+	return ""
+}
+
+func undeclaredTypeInFields(fields []*Field, declared map[string]bool) string {
+	for _, field := range fields {
+		if name := undeclaredType(field.Value, declared); name != "" {
+			return name
+		}
+	}
+	return ""
+}
+
+func undeclaredTypeInStruct(s *Struct, declared map[string]bool) string {
+	for _, fields := range [][]*Field{s.Fields, s.InlineFields, s.UnionFields} {
+		if name := undeclaredTypeInFields(fields, declared); name != "" {
+			return name
+		}
+	}
+	return undeclaredType(&Value{Map: s.Map, Array: s.Array}, declared)
+}
+
 func trace(args ...interface{}) {
 	if ReaderTrace {
 		fmt.Fprintln(os.Stderr, args...)
-- 
2.43.0


From fa765b208b75ca09f33d919b4ab8217a9f09bf96 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:00:59 +0000
Subject: [PATCH 26/42] fix: leave unexported methods of interfaces out

---
 servicereader.go | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/servicereader.go b/servicereader.go
index 80c5cc7..c61c113 100644
--- a/servicereader.go
+++ b/servicereader.go
@@ -78,6 +78,10 @@ func readServiceFile(file *ast.File, packageName string, services ServiceList) e
 										continue
 									}
 									mname := fieldDecl.Names[0]
+									if !mname.IsExported() {
+										// skip this method
+										continue
+									}
 									trace(" on sth:", mname.Name)
 									// fmt.Println("interface:", ident.Name, "method:", mname.Name)
 									service.Methods = append(service.Methods, &Method{
-- 
2.43.0


From c306bf11ade808e93a7e3dbd985a039fbb129b62 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:01:12 +0000
Subject: [PATCH 27/42] fix: find packages that are not named like the last
 element of their path

---
 servicereader.go | 32 ++++++++++++++++++++++++++++++++
 1 file changed, 32 insertions(+)

diff --git a/servicereader.go b/servicereader.go
index c61c113..68017d6 100644
--- a/servicereader.go
+++ b/servicereader.go
@@ -5,9 +5,12 @@ import (
 	"fmt"
 	"go/ast"
 	"go/token"
+	"path"
 	"reflect"
 	"sort"
+	"strconv"
 	"strings"
+	"unicode"
 
 	"github.com/foomo/gotsrpc/v2/config"
 )
@@ -124,8 +127,26 @@ func standardImportName(importPath string) string {
 	return pathParts[len(pathParts)-1]
 }
 
+// assumedImportName of a package, that is not named like the last element of its path
+func assumedImportName(importPath string) string {
+	name := path.Base(importPath)
+	if strings.HasPrefix(name, "v") {
+		if _, err := strconv.Atoi(name[1:]); err == nil && path.Dir(importPath) != "." {
+			name = path.Base(path.Dir(importPath))
+		}
+	}
+	name = strings.TrimPrefix(name, "go-")
+	if i := strings.IndexFunc(name, func(r rune) bool {
+		return !unicode.IsLetter(r) && !unicode.IsDigit(r) && r != '_'
+	}); i >= 0 {
+		name = name[:i]
+	}
+	return name
+}
+
 func getFileImports(file *ast.File, packageName string) (imports fileImportSpecMap) {
 	imports = fileImportSpecMap{"": importSpec{alias: "", name: "", path: packageName}}
+	assumed := fileImportSpecMap{}
 	for _, decl := range file.Decls {
 		if genDecl, ok := decl.(*ast.GenDecl); ok {
 			if genDecl.Tok == token.IMPORT {
@@ -136,6 +157,12 @@ func getFileImports(file *ast.File, packageName string) (imports fileImportSpecM
 						importName := spec.Name.String()
 						if importName == "" || importName == "<nil>" {
 							importName = standardImportName(importPath)
+							assumedName := assumedImportName(importPath)
+							assumed[assumedName] = importSpec{
+								alias: assumedName,
+								name:  standardImportName(importPath),
+								path:  importPath,
+							}
 						}
 						imports[importName] = importSpec{
 							alias: importName,
@@ -148,6 +175,11 @@ func getFileImports(file *ast.File, packageName string) (imports fileImportSpecM
 			}
 		}
 	}
+	for name, spec := range assumed {
+		if _, ok := imports[name]; !ok {
+			imports[name] = spec
+		}
+	}
 	return imports
 }
 
-- 
2.43.0


From 669af2afdf07d493e56bec6f27a36407706726ad Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:01:27 +0000
Subject: [PATCH 28/42] fix: tell packages of the same name apart in proxies

---
 go.go | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/go.go b/go.go
index c5949fd..642b4c7 100644
--- a/go.go
+++ b/go.go
@@ -132,7 +132,7 @@ func renderTSRPCServiceProxies(services ServiceList, fullPackageName string, pac
 
 	g.l(renderImports(aliases, packageName))
 
-	renderInit(unions, aliases, packageName, g)
+	renderInit(unions, aliases, fullPackageName, g)
 
 	for _, service := range services {
 		// Check if we should render this service as ts rcp
@@ -217,7 +217,7 @@ func renderTSRPCServiceProxies(services ServiceList, fullPackageName string, pac
 
 				for _, arg := range nonHTTPRelatedArgs {
 					argName := "arg_" + arg.Name
-					argsDecls = append(argsDecls, argName+"  "+arg.Value.goType(aliases, packageName))
+					argsDecls = append(argsDecls, argName+"  "+arg.Value.goType(aliases, fullPackageName))
 					args = append(args, "&"+argName)
 					callArgs = append(callArgs, argName)
 					skipArgI++
@@ -728,7 +728,7 @@ func goMethodArgsWithoutHTTPContextRelatedArgs(m *Method) (filteredArgs []*Field
 	return
 }
 
-func renderInit(unions map[string][]string, aliases map[string]string, packageName string, g *code) {
+func renderInit(unions map[string][]string, aliases map[string]string, fullPackageName string, g *code) {
 	if len(unions) > 0 {
 		g.l("func init() {")
 		g.ind(1)
@@ -736,7 +736,7 @@ func renderInit(unions map[string][]string, aliases map[string]string, packageNa
 		for pkg, us := range unions {
 			for _, name := range us {
 				var str string
-				if packageName != pkg && aliases[pkg] != "" {
+				if fullPackageName != pkg && aliases[pkg] != "" {
 					str += aliases[pkg] + "."
 				}
 				str += name
-- 
2.43.0


From b1b41ccf310cd90580ff3f353027c2be05f4b0db Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:01:43 +0000
Subject: [PATCH 29/42] fix: give every package its own alias

---
 build.go | 13 ++++++++++++-
 go.go    | 12 ++++++++++++
 2 files changed, 24 insertions(+), 1 deletion(-)

diff --git a/build.go b/build.go
index 8495512..fcb54ea 100644
--- a/build.go
+++ b/build.go
@@ -18,8 +18,19 @@ import (
 
 func deriveCommonJSMapping(conf *config.Config) {
 	replacer := strings.NewReplacer(".", "_", "/", "_", "-", "_")
-	for _, mapping := range conf.Mappings {
+	packageNames := make([]string, 0, len(conf.Mappings))
+	for packageName := range conf.Mappings {
+		packageNames = append(packageNames, packageName)
+	}
+	sort.Strings(packageNames)
+	taken := map[string]bool{}
+	for _, packageName := range packageNames {
+		mapping := conf.Mappings[packageName]
 		mapping.TypeScriptModule = replacer.Replace(mapping.GoPackage)
+		for taken[mapping.TypeScriptModule] {
+			mapping.TypeScriptModule += "_"
+		}
+		taken[mapping.TypeScriptModule] = true
 	}
 }
 
diff --git a/go.go b/go.go
index 642b4c7..6c47581 100644
--- a/go.go
+++ b/go.go
@@ -83,6 +83,13 @@ func extractImport(packageName string, fullPackageName string, aliases map[strin
 					break
 				}
 			}
+			taken := map[string]bool{}
+			for _, otherAlias := range aliases {
+				taken[otherAlias] = true
+			}
+			for taken[alias] {
+				alias += "_"
+			}
 			aliases[packageName] = alias
 		}
 	}
@@ -126,7 +133,12 @@ func renderTSRPCServiceProxies(services ServiceList, fullPackageName string, pac
 		}
 	}
 
+	unionPackages := make([]string, 0, len(unions))
 	for pkg := range unions {
+		unionPackages = append(unionPackages, pkg)
+	}
+	sort.Strings(unionPackages)
+	for _, pkg := range unionPackages {
 		extractImport(pkg, fullPackageName, aliases)
 	}
 
-- 
2.43.0


From 0e939948be880a4215e1da93c3adf2f6fe104cc9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:01:57 +0000
Subject: [PATCH 30/42] fix: name unnamed and blank arguments and results

---
 servicereader.go | 30 ++++++++++++++++++++++++++----
 1 file changed, 26 insertions(+), 4 deletions(-)

diff --git a/servicereader.go b/servicereader.go
index 68017d6..22fd0b7 100644
--- a/servicereader.go
+++ b/servicereader.go
@@ -55,8 +55,8 @@ func readServiceFile(file *ast.File, packageName string, services ServiceList) e
 
 							service.Methods = append(service.Methods, &Method{
 								Name:   funcDecl.Name.Name,
-								Args:   readFields(funcDecl.Type.Params, fileImports),
-								Return: readFields(funcDecl.Type.Results, fileImports),
+								Args:   nameFields(readFields(funcDecl.Type.Params, fileImports), "arg_", "", "_"),
+								Return: nameFields(readFields(funcDecl.Type.Results, fileImports), "ret_", "_"),
 							})
 						}
 					}
@@ -89,8 +89,8 @@ func readServiceFile(file *ast.File, packageName string, services ServiceList) e
 									// fmt.Println("interface:", ident.Name, "method:", mname.Name)
 									service.Methods = append(service.Methods, &Method{
 										Name:   mname.Name,
-										Args:   readFields(funcDecl.Params, fileImports),
-										Return: readFields(funcDecl.Results, fileImports),
+										Args:   nameFields(readFields(funcDecl.Params, fileImports), "arg_", "", "_"),
+										Return: nameFields(readFields(funcDecl.Results, fileImports), "ret_", "_"),
 									})
 								}
 							}
@@ -203,6 +203,28 @@ func readFields(fieldList *ast.FieldList, fileImports fileImportSpecMap) (fields
 	return
 }
 
+// nameFields replaces names, that can not be used in generated code
+func nameFields(fields []*Field, prefix string, unusable ...string) []*Field {
+	taken := map[string]bool{}
+	for _, field := range fields {
+		taken[field.Name] = true
+	}
+	for index, field := range fields {
+		for _, name := range unusable {
+			if field.Name == name {
+				newName := prefix + strconv.Itoa(index)
+				for taken[newName] {
+					newName += "_"
+				}
+				field.Name = newName
+				taken[newName] = true
+				break
+			}
+		}
+	}
+	return fields
+}
+
 func readServicesInPackage(pkg *ast.Package, packageName string, serviceMap map[string]string) (services ServiceList, err error) {
 	if pkg == nil {
 		return nil, errors.New("package cannot be nil")
-- 
2.43.0


From 79fa8abe06c2ff0ccebce403f76b6a7d26e4f7c8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:02:57 +0000
Subject: [PATCH 31/42] fix: keep names of arguments and results apart from
 generated ones

---
 go.go | 96 ++++++++++++++++++++++++++++++++++++++++++-----------------
 1 file changed, 68 insertions(+), 28 deletions(-)

diff --git a/go.go b/go.go
index 6c47581..821a0e0 100644
--- a/go.go
+++ b/go.go
@@ -2,6 +2,7 @@ package gotsrpc
 
 import (
 	"fmt"
+	"go/ast"
 	"sort"
 	"strings"
 
@@ -69,6 +70,43 @@ func strfirst(str string, strfunc func(string) string) string {
 	return res
 }
 
+// nameScope holds the names that are taken where code is generated into
+type nameScope map[string]bool
+
+func newNameScope(names ...string) nameScope {
+	scope := nameScope{}
+	for _, name := range names {
+		scope[name] = true
+	}
+	return scope
+}
+
+// add a name, that is changed, if it is taken
+func (s nameScope) add(name string) string {
+	for s[name] {
+		name += "_"
+	}
+	s[name] = true
+	return name
+}
+
+func goReturnName(method *Method, index int) string {
+	name := method.Return[index].Name
+	if len(name) == 0 {
+		name = fmt.Sprintf("ret%s_%d", method.Name, index)
+	}
+	return name
+}
+
+// add the name of a struct field, that has to be exported
+func (s nameScope) addField(name string) string {
+	name = ucfirst(name)
+	if !ast.IsExported(name) {
+		name = "X" + name
+	}
+	return s.add(name)
+}
+
 func extractImport(packageName string, fullPackageName string, aliases map[string]string) {
 	r := strings.NewReplacer(".", "_", "/", "_", "-", "_")
 	if packageName != fullPackageName {
@@ -210,6 +248,7 @@ func renderTSRPCServiceProxies(services ServiceList, fullPackageName string, pac
 			g.l("case " + proxyName + method.Name + ":")
 			g.ind(1)
 			var callArgs []string
+			scope := newNameScope("args", "rets", "rw", "funcName", "callStats", "executionStart")
 			isSessionRequest := false
 			g.l("var (")
 			g.ind(1)
@@ -228,7 +267,7 @@ func renderTSRPCServiceProxies(services ServiceList, fullPackageName string, pac
 				isSessionRequest = len(method.Args)-len(nonHTTPRelatedArgs) == 2
 
 				for _, arg := range nonHTTPRelatedArgs {
-					argName := "arg_" + arg.Name
+					argName := scope.add("arg_" + arg.Name)
 					argsDecls = append(argsDecls, argName+"  "+arg.Value.goType(aliases, fullPackageName))
 					args = append(args, "&"+argName)
 					callArgs = append(callArgs, argName)
@@ -258,7 +297,7 @@ func renderTSRPCServiceProxies(services ServiceList, fullPackageName string, pac
 						retArgName += "_" + fmt.Sprint(retI)
 					}
 				}
-				returnValueNames = append(returnValueNames, lcfirst(method.Name)+ucfirst(retArgName))
+				returnValueNames = append(returnValueNames, scope.add(lcfirst(method.Name)+ucfirst(retArgName)))
 			}
 			g.l("executionStart := time.Now()")
 			if isSessionRequest {
@@ -308,18 +347,17 @@ type goMethod struct {
 func newMethodSignature(method *Method, aliases map[string]string, fullPackageName string) goMethod {
 	var args []string
 	var params []string
+	scope := newNameScope("ctx", "tsc", "args", "reply", "clientErr", "nil", "pkg_errors")
 	params = append(params, "ctx go_context.Context")
 	for _, a := range goMethodArgsWithoutHTTPContextRelatedArgs(method) {
-		args = append(args, a.Name)
-		params = append(params, a.Name+" "+a.Value.goType(aliases, fullPackageName))
+		name := scope.add(a.Name)
+		args = append(args, name)
+		params = append(params, name+" "+a.Value.goType(aliases, fullPackageName))
 	}
 	var rets []string
 	var returns []string
 	for i, r := range method.Return {
-		name := r.Name
-		if len(name) == 0 {
-			name = fmt.Sprintf("ret%s_%d", method.Name, i)
-		}
+		name := scope.add(goReturnName(method, i))
 		rets = append(rets, "&"+name)
 		returns = append(returns, name+" "+r.Value.goType(aliases, fullPackageName))
 	}
@@ -470,18 +508,16 @@ func renderGoRPCServiceProxies(services ServiceList, fullPackageName string, pac
 		for _, method := range service.Methods {
 			// Request type
 			g.l(ucfirst(service.Name+method.Name) + `Request struct {`)
+			requestFields := newNameScope()
 			for _, a := range goMethodArgsWithoutHTTPContextRelatedArgs(method) {
-				g.l(ucfirst(a.Name) + ` ` + a.Value.goType(aliases, fullPackageName))
+				g.l(requestFields.addField(a.Name) + ` ` + a.Value.goType(aliases, fullPackageName))
 			}
 			g.l(`}`)
 			// Response type
 			g.l(ucfirst(service.Name+method.Name) + `Response struct {`)
+			responseFields := newNameScope()
 			for i, r := range method.Return {
-				name := r.Name
-				if len(name) == 0 {
-					name = fmt.Sprintf("ret%s_%d", method.Name, i)
-				}
-				g.l(ucfirst(name) + ` ` + r.Value.goType(aliases, fullPackageName))
+				g.l(responseFields.addField(goReturnName(method, i)) + ` ` + r.Value.goType(aliases, fullPackageName))
 			}
 			g.l(`}`)
 			g.nl()
@@ -544,18 +580,18 @@ func renderGoRPCServiceProxies(services ServiceList, fullPackageName string, pac
 			for i := 0; i < diffNONHTTPRelatedMethodArgs; i++ {
 				argParams = append(argParams, "nil")
 			}
+			requestFields := newNameScope()
 			for _, a := range nonHTTPRelatedMethodArgs {
-				argParams = append(argParams, "req."+ucfirst(a.Name))
+				argParams = append(argParams, "req."+requestFields.addField(a.Name))
 			}
 			rets := []string{}
 			retParams := []string{}
-			for i, r := range method.Return {
-				name := r.Name
-				if len(name) == 0 {
-					name = fmt.Sprintf("ret%s_%d", method.Name, i)
-				}
+			scope := newNameScope("p", "req", "request", "response", "nil", service.Name+method.Name+"Response")
+			responseFields := newNameScope()
+			for i := range method.Return {
+				name := scope.add(goReturnName(method, i))
 				rets = append(rets, name)
-				retParams = append(retParams, ucfirst(name)+`: `+name)
+				retParams = append(retParams, responseFields.addField(goReturnName(method, i))+`: `+name)
 			}
 			g.l(`case "` + service.Name + method.Name + `Request":`)
 			if len(nonHTTPRelatedMethodArgs) > 0 {
@@ -647,18 +683,22 @@ func renderGoRPCServiceClients(services ServiceList, fullPackageName string, pac
 		for _, method := range service.Methods {
 			args := []string{}
 			params := []string{}
+			scope := newNameScope(
+				"tsc", "req", "response", "rpcCallRes", "rpcCallErr", "clientErr", "nil",
+				service.Name+method.Name+"Request", service.Name+method.Name+"Response",
+			)
+			requestFields := newNameScope()
 			for _, a := range goMethodArgsWithoutHTTPContextRelatedArgs(method) {
-				args = append(args, ucfirst(a.Name)+`: `+a.Name)
-				params = append(params, a.Name+" "+a.Value.goType(aliases, fullPackageName))
+				name := scope.add(a.Name)
+				args = append(args, requestFields.addField(a.Name)+`: `+name)
+				params = append(params, name+" "+a.Value.goType(aliases, fullPackageName))
 			}
 			rets := []string{}
 			returns := []string{}
+			responseFields := newNameScope()
 			for i, r := range method.Return {
-				name := r.Name
-				if len(name) == 0 {
-					name = fmt.Sprintf("ret%s_%d", method.Name, i)
-				}
-				rets = append(rets, "response."+ucfirst(name))
+				name := scope.add(goReturnName(method, i))
+				rets = append(rets, "response."+responseFields.addField(goReturnName(method, i)))
 				returns = append(returns, name+" "+r.Value.goType(aliases, fullPackageName))
 			}
 			returns = append(returns, "clientErr error")
-- 
2.43.0


From 614e83faae4397392e4247fee14137440e35d90d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:04:28 +0000
Subject: [PATCH 32/42] fix: let unexported services be called through gorpc

---
 go.go | 14 +++++++-------
 1 file changed, 7 insertions(+), 7 deletions(-)

diff --git a/go.go b/go.go
index 821a0e0..cf543bc 100644
--- a/go.go
+++ b/go.go
@@ -586,23 +586,23 @@ func renderGoRPCServiceProxies(services ServiceList, fullPackageName string, pac
 			}
 			rets := []string{}
 			retParams := []string{}
-			scope := newNameScope("p", "req", "request", "response", "nil", service.Name+method.Name+"Response")
+			scope := newNameScope("p", "req", "request", "response", "nil", ucfirst(service.Name+method.Name)+"Response")
 			responseFields := newNameScope()
 			for i := range method.Return {
 				name := scope.add(goReturnName(method, i))
 				rets = append(rets, name)
 				retParams = append(retParams, responseFields.addField(goReturnName(method, i))+`: `+name)
 			}
-			g.l(`case "` + service.Name + method.Name + `Request":`)
+			g.l(`case "` + ucfirst(service.Name+method.Name) + `Request":`)
 			if len(nonHTTPRelatedMethodArgs) > 0 {
-				g.l(`req := request.(` + service.Name + method.Name + `Request)`)
+				g.l(`req := request.(` + ucfirst(service.Name+method.Name) + `Request)`)
 			}
 			if len(rets) > 0 {
 				g.l(strings.Join(rets, ", ") + ` := p.service.` + method.Name + `(` + strings.Join(argParams, ", ") + `)`)
 			} else {
 				g.l(`p.service.` + method.Name + `(` + strings.Join(argParams, ", ") + `)`)
 			}
-			g.l(`response = ` + service.Name + method.Name + `Response{` + strings.Join(retParams, ", ") + `}`)
+			g.l(`response = ` + ucfirst(service.Name+method.Name) + `Response{` + strings.Join(retParams, ", ") + `}`)
 		}
 		g.l(`default:`)
 		g.l(`fmt.Println("Unknown request type", reflect.TypeOf(request).String())`)
@@ -685,7 +685,7 @@ func renderGoRPCServiceClients(services ServiceList, fullPackageName string, pac
 			params := []string{}
 			scope := newNameScope(
 				"tsc", "req", "response", "rpcCallRes", "rpcCallErr", "clientErr", "nil",
-				service.Name+method.Name+"Request", service.Name+method.Name+"Response",
+				ucfirst(service.Name+method.Name)+"Request", ucfirst(service.Name+method.Name)+"Response",
 			)
 			requestFields := newNameScope()
 			for _, a := range goMethodArgsWithoutHTTPContextRelatedArgs(method) {
@@ -703,7 +703,7 @@ func renderGoRPCServiceClients(services ServiceList, fullPackageName string, pac
 			}
 			returns = append(returns, "clientErr error")
 			g.l(`func (tsc *` + clientName + `) ` + method.Name + `(` + strings.Join(params, ", ") + `) (` + strings.Join(returns, ", ") + `) {`)
-			g.l(`req := ` + service.Name + method.Name + `Request{` + strings.Join(args, ", ") + `}`)
+			g.l(`req := ` + ucfirst(service.Name+method.Name) + `Request{` + strings.Join(args, ", ") + `}`)
 			if len(rets) > 0 {
 				g.l(`rpcCallRes, rpcCallErr := tsc.Client.Call(req)`)
 			} else {
@@ -714,7 +714,7 @@ func renderGoRPCServiceClients(services ServiceList, fullPackageName string, pac
 			g.l(`return`)
 			g.l(`}`)
 			if len(rets) > 0 {
-				g.l(`response := rpcCallRes.(` + service.Name + method.Name + `Response)`)
+				g.l(`response := rpcCallRes.(` + ucfirst(service.Name+method.Name) + `Response)`)
 				g.l(`return ` + strings.Join(rets, ", ") + `, nil`)
 			} else {
 				g.l(`return nil`)
-- 
2.43.0


From 47d173b92b5a8c52a42b586df3bf25e694ba40a3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:06:59 +0000
Subject: [PATCH 33/42] fix: render interface types that are an argument or
 result themselves by their name

---
 servicereader.go | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/servicereader.go b/servicereader.go
index 22fd0b7..a170009 100644
--- a/servicereader.go
+++ b/servicereader.go
@@ -511,8 +511,13 @@ func fixFieldStructs(fields []*Field, structs map[string]*Struct, scalars map[st
 			}
 			scalar, scalarExists := scalars[name]
 			if scalarExists {
+				f.Value.Scalar = &Scalar{
+					Name:    f.Value.StructType.Name,
+					Package: f.Value.StructType.Package,
+					Type:    scalar.Type,
+				}
+				f.Value.ScalarType = ScalarType(f.Value.StructType.Name)
 				f.Value.StructType = nil
-				f.Value.Scalar = scalar
 			}
 		}
 	}
-- 
2.43.0


From d02b076a746fc76fc624edd5b05bca11f2060ea3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:07:13 +0000
Subject: [PATCH 34/42] fix: read pointers to slices, maps and interfaces

---
 typereader.go | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/typereader.go b/typereader.go
index 1ee13fa..70b8b55 100644
--- a/typereader.go
+++ b/typereader.go
@@ -261,6 +261,8 @@ func readAstStarExpr(v *Value, starExpr *ast.StarExpr, fileImports fileImportSpe
 		readAstStructType(v, starExprType, fileImports)
 	case *ast.SelectorExpr:
 		readAstSelectorExpr(v, starExprType, fileImports)
+	case *ast.ArrayType, *ast.MapType, *ast.InterfaceType:
+		v.loadExpr(starExprType, fileImports)
 	default:
 		trace("a pointer on what", reflect.ValueOf(starExpr.X).Type().String())
 	}
-- 
2.43.0


From 4ad6859db5818e1bd246256f81ce764377561f4f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:11:29 +0000
Subject: [PATCH 35/42] fix: keep names in TypeScript clients apart from
 reserved ones

---
 typscriptclient.go | 16 +++++++++++++---
 1 file changed, 13 insertions(+), 3 deletions(-)

diff --git a/typscriptclient.go b/typscriptclient.go
index 78b171f..1238382 100644
--- a/typscriptclient.go
+++ b/typscriptclient.go
@@ -8,6 +8,13 @@ import (
 	"github.com/foomo/gotsrpc/v2/config"
 )
 
+// names that can not be used for arguments in TypeScript
+var tsReservedNames = []string{
+	"arguments", "await", "case", "catch", "class", "const", "debugger", "delete", "do", "enum", "eval", "export",
+	"extends", "false", "finally", "function", "implements", "in", "instanceof", "let", "new", "null", "private",
+	"protected", "public", "static", "super", "this", "throw", "true", "try", "typeof", "void", "while", "with", "yield",
+}
+
 func renderTypescriptClient(service *Service, mappings config.TypeScriptMappings, scalars map[string]*Scalar, structs map[string]*Struct, ts *code) error {
 	clientName := service.Name + "Client"
 
@@ -24,7 +31,9 @@ func renderTypescriptClient(service *Service, mappings config.TypeScriptMappings
 	ts.l(") {}")
 
 	for _, method := range service.Methods {
-		ts.app("async " + lcfirst(method.Name) + "(")
+		// the class has a constructor and a transport already
+		ts.app("async " + newNameScope("constructor", "transport").add(lcfirst(method.Name)) + "(")
+		scope := newNameScope(append([]string{"response"}, tsReservedNames...)...)
 		var callArgs []string
 		argOffset := 0
 		for index, arg := range method.Args {
@@ -47,10 +56,11 @@ func renderTypescriptClient(service *Service, mappings config.TypeScriptMappings
 			if index > argOffset {
 				ts.app(", ")
 			}
-			ts.app(arg.tsName())
+			argName := scope.add(arg.tsName())
+			ts.app(argName)
 			ts.app(":")
 			arg.Value.tsType(mappings, scalars, structs, ts, arg.JSONInfo)
-			callArgs = append(callArgs, arg.Name)
+			callArgs = append(callArgs, argName)
 			argCount++
 		}
 		ts.app("):")
-- 
2.43.0


From 414eead5da566bb9ad53b3d4e02b22c44eb41a05 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:52:14 +0000
Subject: [PATCH 36/42] fix: render bytes as they are transported in JSON

---
 servicereader.go |  6 +++---
 typereader.go    |  4 ++--
 typescript.go    | 26 +++++++++++++++-----------
 3 files changed, 20 insertions(+), 16 deletions(-)

diff --git a/servicereader.go b/servicereader.go
index a170009..746fbab 100644
--- a/servicereader.go
+++ b/servicereader.go
@@ -285,14 +285,14 @@ func loadConstantTypes(pkg *ast.Package) map[string]interface{} {
 								constantTypes[spec.Name.Name] = "any"
 							case *ast.Ident:
 								switch specType.Name {
-								case "byte":
+								case "any":
 									constantTypes[spec.Name.Name] = "any"
 								case "string":
 									constantTypes[spec.Name.Name] = "string"
 								case "bool":
 									constantTypes[spec.Name.Name] = "boolean"
-								case "float", "float32", "float64",
-									"int", "int8", "int16", "int32", "int64",
+								case "byte", "float", "float32", "float64",
+									"int", "int8", "int16", "int32", "int64", "rune",
 									"uint", "uint8", "uint16", "uint32", "uint64":
 									constantTypes[spec.Name.Name] = "number"
 								default:
diff --git a/typereader.go b/typereader.go
index 70b8b55..ef09752 100644
--- a/typereader.go
+++ b/typereader.go
@@ -200,11 +200,11 @@ func getScalarFromAstIdent(ident *ast.Ident) ScalarType {
 		return ScalarTypeString
 	case "bool":
 		return ScalarTypeBool
-	case "byte":
+	case "byte", "uint8":
 		return ScalarTypeByte
 	case "float", "float32", "float64",
 		"int", "int8", "int16", "int32", "int64",
-		"uint", "uint8", "uint16", "uint32", "uint64":
+		"uint", "uint16", "uint32", "uint64", "rune":
 		return ScalarTypeNumber
 	default:
 		if ident.Obj != nil && ident.Obj.Decl != nil && reflect.ValueOf(ident.Obj.Decl).Type().String() == "*ast.TypeSpec" {
diff --git a/typescript.go b/typescript.go
index affc3d4..1008c4f 100644
--- a/typescript.go
+++ b/typescript.go
@@ -41,13 +41,7 @@ func (v *Value) tsType(mappings config.TypeScriptMappings, scalars map[string]*S
 			ts.app("|null")
 		}
 	case v.Array != nil:
-		if v.Array.Value.ScalarType != ScalarTypeByte {
-			ts.app("Array<")
-		}
-		v.Array.Value.tsType(mappings, scalars, structs, ts, nil)
-		if v.Array.Value.ScalarType != ScalarTypeByte {
-			ts.app(">")
-		}
+		v.Array.tsType(mappings, scalars, structs, ts)
 		if jsonInfo == nil || !jsonInfo.OmitEmpty {
 			ts.app("|null")
 		}
@@ -104,10 +98,21 @@ func (v *Value) tsType(mappings config.TypeScriptMappings, scalars map[string]*S
 	}
 }
 
+// tsType renders an array, bytes are transported as a base64 encoded string
+func (a *Array) tsType(mappings config.TypeScriptMappings, scalars map[string]*Scalar, structs map[string]*Struct, ts *code) {
+	if a.Value.ScalarType == ScalarTypeByte && !a.Value.IsPtr {
+		ts.app("string")
+		return
+	}
+	ts.app("Array<")
+	a.Value.tsType(mappings, scalars, structs, ts, nil)
+	ts.app(">")
+}
+
 func tsTypeFromScalarType(scalarType ScalarType) string {
 	switch scalarType { //nolint:exhaustive
 	case ScalarTypeByte:
-		return "string"
+		return "number"
 	case ScalarTypeBool:
 		return "boolean"
 	}
@@ -136,9 +141,8 @@ func renderTypescriptStruct(str *Struct, mappings config.TypeScriptMappings, sca
 	ts.l("// " + str.FullName())
 	switch {
 	case str.Array != nil:
-		ts.app("export type " + str.Name + " = Array<")
-		str.Array.Value.tsType(mappings, scalars, structs, ts, nil)
-		ts.app(">")
+		ts.app("export type " + str.Name + " = ")
+		str.Array.tsType(mappings, scalars, structs, ts)
 		ts.nl()
 	case str.Map != nil:
 		ts.app("export type " + str.Name + " = Record<")
-- 
2.43.0


From 1b0345f026307ca33bbd25d229d18a3af88fe8a9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:52:17 +0000
Subject: [PATCH 37/42] fix: let named slices and maps of other files and
 packages be null in TypeScript

---
 typescript.go | 19 ++++++++++++-------
 1 file changed, 12 insertions(+), 7 deletions(-)

diff --git a/typescript.go b/typescript.go
index 1008c4f..90edb6c 100644
--- a/typescript.go
+++ b/typescript.go
@@ -37,12 +37,12 @@ func (v *Value) tsType(mappings config.TypeScriptMappings, scalars map[string]*S
 		ts.app(",")
 		v.Map.Value.tsType(mappings, scalars, structs, ts, nil)
 		ts.app(">")
-		if jsonInfo == nil || !jsonInfo.OmitEmpty {
+		if v.tsNullable(nil, jsonInfo) {
 			ts.app("|null")
 		}
 	case v.Array != nil:
 		v.Array.tsType(mappings, scalars, structs, ts)
-		if jsonInfo == nil || !jsonInfo.OmitEmpty {
+		if v.tsNullable(nil, jsonInfo) {
 			ts.app("|null")
 		}
 	case v.Scalar != nil:
@@ -57,7 +57,7 @@ func (v *Value) tsType(mappings config.TypeScriptMappings, scalars map[string]*S
 				tsType = value
 			}
 			ts.app(tsType)
-			if v.IsPtr && (jsonInfo == nil || !jsonInfo.OmitEmpty) {
+			if v.tsNullable(structs[v.Scalar.FullName()], jsonInfo) {
 				ts.app("|null")
 			}
 			return
@@ -71,10 +71,7 @@ func (v *Value) tsType(mappings config.TypeScriptMappings, scalars map[string]*S
 				tsModule = mapping.TypeScriptModule
 			}
 			ts.app(tsModule + "." + v.StructType.Name)
-			hiddenStruct, isHiddenStruct := structs[v.StructType.FullName()]
-			if isHiddenStruct && (hiddenStruct.Array != nil || hiddenStruct.Map != nil) && (jsonInfo == nil || !jsonInfo.OmitEmpty) {
-				ts.app("|null")
-			} else if v.IsPtr && (jsonInfo == nil || !jsonInfo.OmitEmpty) {
+			if v.tsNullable(structs[v.StructType.FullName()], jsonInfo) {
 				ts.app("|null")
 			}
 			return
@@ -98,6 +95,14 @@ func (v *Value) tsType(mappings config.TypeScriptMappings, scalars map[string]*S
 	}
 }
 
+// tsNullable tells if null is transported for some values, hidden is the array or map a local or imported name can stand for
+func (v *Value) tsNullable(hidden *Struct, jsonInfo *JSONInfo) bool {
+	if jsonInfo != nil && jsonInfo.OmitEmpty {
+		return false
+	}
+	return v.IsPtr || v.Array != nil || v.Map != nil || hidden != nil && (hidden.Array != nil || hidden.Map != nil)
+}
+
 // tsType renders an array, bytes are transported as a base64 encoded string
 func (a *Array) tsType(mappings config.TypeScriptMappings, scalars map[string]*Scalar, structs map[string]*Struct, ts *code) {
 	if a.Value.ScalarType == ScalarTypeByte && !a.Value.IsPtr {
-- 
2.43.0


From e7cba1c55dbc7bb267e7fc8d9271a27c5e50923c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:52:19 +0000
Subject: [PATCH 38/42] fix: quote JSON names that are no TypeScript
 identifiers

---
 typereader.go | 5 ++++-
 typescript.go | 8 ++++++++
 2 files changed, 12 insertions(+), 1 deletion(-)

diff --git a/typereader.go b/typereader.go
index ef09752..d9cceca 100644
--- a/typereader.go
+++ b/typereader.go
@@ -156,7 +156,10 @@ func extractJSONInfo(tag string) *JSONInfo {
 		case "":
 			// do nothing
 		case "-":
-			ignore = true
+			// "-," is a field named "-"
+			if ignore = len(jsonTags) == 1; !ignore {
+				name = "-"
+			}
 		default:
 			name = jsonTags[0]
 		}
diff --git a/typescript.go b/typescript.go
index 90edb6c..f033c49 100644
--- a/typescript.go
+++ b/typescript.go
@@ -3,7 +3,9 @@ package gotsrpc
 import (
 	"errors"
 	"go/ast"
+	"regexp"
 	"sort"
+	"strconv"
 	"strings"
 
 	"github.com/iancoleman/strcase"
@@ -16,9 +18,15 @@ func (f *Field) tsName() string {
 	if f.JSONInfo != nil && len(f.JSONInfo.Name) > 0 {
 		n = f.JSONInfo.Name
 	}
+	if len(n) > 0 && !tsIdentifier.MatchString(n) {
+		return strconv.Quote(n)
+	}
 	return n
 }
 
+// tsIdentifier matches names, that can be used without quotes
+var tsIdentifier = regexp.MustCompile(`^[\pL_$][\pL\pN_$]*$`)
+
 var tsTypeAliases = map[string]string{
 	"time.Time": "number",
 }
-- 
2.43.0


From 37cc71b6dc57903f23b139342c26451d2d3d3622 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:52:24 +0000
Subject: [PATCH 39/42] fix: render embedded structs with JSON tags in
 TypeScript as they are transported

---
 typereader.go |  3 ++-
 typescript.go | 36 ++++++++++++++++++++++--------------
 2 files changed, 24 insertions(+), 15 deletions(-)

diff --git a/typereader.go b/typereader.go
index d9cceca..90f5a24 100644
--- a/typereader.go
+++ b/typereader.go
@@ -413,7 +413,8 @@ func readFieldList(fieldList []*ast.Field, fileImports fileImportSpecMap) (field
 					} else if jsonInfo.Ignore {
 						trace("ignoring this one", field, names, value, jsonInfo)
 						continue
-					} else if jsonInfo.Inline {
+					} else if jsonInfo.Inline || len(jsonInfo.Name) == 0 {
+						// without a name of its own the fields of an embedded struct are inlined
 						inlineFields = append(inlineFields, &Field{
 							Name:     name,
 							Value:    value,
diff --git a/typescript.go b/typescript.go
index f033c49..5b21194 100644
--- a/typescript.go
+++ b/typescript.go
@@ -87,6 +87,10 @@ func (v *Value) tsType(mappings config.TypeScriptMappings, scalars map[string]*S
 		ts.app(v.StructType.Name)
 	case v.Struct != nil:
 		// v.Struct.Value.tsType(mappings, ts)
+		if len(v.Struct.InlineFields) > 0 {
+			renderInlineFields(v.Struct.InlineFields, " & ", mappings, scalars, structs, ts)
+			ts.app(" & ")
+		}
 		ts.l("{").ind(1)
 		renderStructFields(v.Struct.Fields, mappings, scalars, structs, ts)
 		ts.ind(-1).app("}")
@@ -134,7 +138,7 @@ func tsTypeFromScalarType(scalarType ScalarType) string {
 
 func renderStructFields(fields []*Field, mappings config.TypeScriptMappings, scalars map[string]*Scalar, structs map[string]*Struct, ts *code) {
 	for _, f := range fields {
-		if len(f.Name) == 0 {
+		if len(f.tsName()) == 0 {
 			continue
 		} else if f.JSONInfo != nil && f.JSONInfo.Ignore {
 			continue
@@ -150,6 +154,22 @@ func renderStructFields(fields []*Field, mappings config.TypeScriptMappings, sca
 	}
 }
 
+func renderInlineFields(inlineFields []*Field, separator string, mappings config.TypeScriptMappings, scalars map[string]*Scalar, structs map[string]*Struct, ts *code) {
+	for i, inlineField := range inlineFields {
+		if i > 0 {
+			ts.app(separator)
+		}
+		if inlineField.Value.IsPtr {
+			ts.app("Partial<")
+		}
+		inlineField.Value.tsType(mappings, scalars, structs, ts, &JSONInfo{OmitEmpty: true})
+		if inlineField.Value.IsPtr {
+			ts.app(">")
+		}
+		ts.app(" ")
+	}
+}
+
 func renderTypescriptStruct(str *Struct, mappings config.TypeScriptMappings, scalars map[string]*Scalar, structs map[string]*Struct, ts *code) error {
 	ts.l("// " + str.FullName())
 	switch {
@@ -209,19 +229,7 @@ func renderTypescriptStruct(str *Struct, mappings config.TypeScriptMappings, sca
 		}
 	case len(str.InlineFields) > 0:
 		ts.app("export interface " + str.Name + " extends ")
-		for i, inlineField := range str.InlineFields {
-			if i > 0 {
-				ts.app(", ")
-			}
-			if inlineField.Value.IsPtr {
-				ts.app("Partial<")
-			}
-			inlineField.Value.tsType(mappings, scalars, structs, ts, &JSONInfo{OmitEmpty: true})
-			if inlineField.Value.IsPtr {
-				ts.app(">")
-			}
-			ts.app(" ")
-		}
+		renderInlineFields(str.InlineFields, ", ", mappings, scalars, structs, ts)
 		ts.app("{")
 		ts.nl()
 		ts.ind(1)
-- 
2.43.0


From a30ab8c689d3a33ad78ea2d4bd7d6da04118fffe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:52:27 +0000
Subject: [PATCH 40/42] fix: give enum members the names and values of their
 constants

---
 servicereader.go | 18 +++++++++++++++---
 typescript.go    | 38 ++++++++++++++++++++++++++++++++++++--
 2 files changed, 51 insertions(+), 5 deletions(-)

diff --git a/servicereader.go b/servicereader.go
index 746fbab..6df5f6e 100644
--- a/servicereader.go
+++ b/servicereader.go
@@ -308,14 +308,14 @@ func loadConstantTypes(pkg *ast.Package) map[string]interface{} {
 					for _, spec := range genDecl.Specs {
 						if spec, ok := spec.(*ast.ValueSpec); ok {
 							if specType, ok := spec.Type.(*ast.Ident); ok {
-								for _, val := range spec.Values {
-									if valType, ok := val.(*ast.BasicLit); ok {
+								for i, val := range spec.Values {
+									if valType := getBasicLit(val); valType != nil {
 										if _, ok := constantTypes[specType.Name]; !ok {
 											constantTypes[specType.Name] = map[string]*ast.BasicLit{}
 										} else if _, ok := constantTypes[specType.Name].(map[string]*ast.BasicLit); !ok {
 											constantTypes[specType.Name] = map[string]*ast.BasicLit{}
 										}
-										constantTypes[specType.Name].(map[string]*ast.BasicLit)[spec.Names[0].Name] = valType //nolint:forcetypeassert
+										constantTypes[specType.Name].(map[string]*ast.BasicLit)[spec.Names[i].Name] = valType //nolint:forcetypeassert
 									}
 								}
 							}
@@ -328,6 +328,18 @@ func loadConstantTypes(pkg *ast.Package) map[string]interface{} {
 	return constantTypes
 }
 
+func getBasicLit(expr ast.Expr) *ast.BasicLit {
+	switch exprType := expr.(type) {
+	case *ast.BasicLit:
+		return exprType
+	case *ast.UnaryExpr:
+		if lit, ok := exprType.X.(*ast.BasicLit); ok && exprType.Op == token.SUB {
+			return &ast.BasicLit{Kind: lit.Kind, Value: "-" + lit.Value}
+		}
+	}
+	return nil
+}
+
 func Read(
 	goPaths []string,
 	gomod config.Namespace,
diff --git a/typescript.go b/typescript.go
index 5b21194..2a02e99 100644
--- a/typescript.go
+++ b/typescript.go
@@ -1,8 +1,11 @@
 package gotsrpc
 
 import (
+	"encoding/json"
 	"errors"
 	"go/ast"
+	"go/constant"
+	"go/token"
 	"regexp"
 	"sort"
 	"strconv"
@@ -289,9 +292,9 @@ func renderTypescriptStructsToPackages(
 					}
 					sort.Strings(keys)
 					packageCodeMap[packageConstantTypeName].l("export enum " + packageConstantTypeName + " {").ind(1)
+					members := tsEnumMembers(packageConstantTypeName, keys)
 					for _, k := range keys {
-						enum := strings.TrimPrefix(strcase.ToCamel(k), packageConstantTypeName)
-						packageCodeMap[packageConstantTypeName].l(enum + " = " + packageConstantTypeValuesList[k].Value + ",")
+						packageCodeMap[packageConstantTypeName].l(members[k] + " = " + tsLiteral(packageConstantTypeValuesList[k]) + ",")
 					}
 					packageCodeMap[packageConstantTypeName].ind(-1).l("}")
 				} else if packageConstantTypeValuesString, ok := packageConstantTypeValues.(string); ok {
@@ -315,6 +318,37 @@ func renderTypescriptStructsToPackages(
 	return nil
 }
 
+// tsEnumMembers names the members of an enum after its constants
+func tsEnumMembers(enumName string, constants []string) map[string]string {
+	members := map[string]string{}
+	uses := map[string]int{}
+	for _, constant := range constants {
+		members[constant] = strings.TrimPrefix(strcase.ToCamel(constant), enumName)
+		uses[members[constant]]++
+	}
+	for constant, member := range members {
+		if uses[member] > 1 || !tsIdentifier.MatchString(member) {
+			members[constant] = constant
+		}
+	}
+	return members
+}
+
+// tsLiteral renders a literal, what is written differently in TypeScript is rendered by its value
+func tsLiteral(lit *ast.BasicLit) string {
+	value := constant.MakeFromLiteral(lit.Value, lit.Kind, 0)
+	switch {
+	case lit.Kind == token.STRING && strings.ContainsAny(lit.Value, "\\`") && value.Kind() == constant.String:
+		if data, err := json.Marshal(constant.StringVal(value)); err == nil {
+			return string(data)
+		}
+	case lit.Kind == token.CHAR && value.Kind() == constant.Int,
+		lit.Kind == token.INT && len(lit.Value) > 1 && lit.Value[0] == '0' && value.Kind() == constant.Int:
+		return value.ExactString()
+	}
+	return lit.Value
+}
+
 func split(str string, seps []string) []string {
 	var res []string
 	strs := []string{str}
-- 
2.43.0


From ee6fa8455f035bf488949cb10c23966461fe4797 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:10:50 +0000
Subject: [PATCH 41/42] fix: let errors.Cause end for errors that were received

---
 error.go | 20 +++++++++++++++++++-
 1 file changed, 19 insertions(+), 1 deletion(-)

diff --git a/error.go b/error.go
index 80eac35..7e06f3e 100644
--- a/error.go
+++ b/error.go
@@ -23,6 +23,9 @@ type Error struct {
 func NewError(err error) *Error {
 	// skip *withStack error type
 	err = skipStack(err)
+	if v, ok := err.(*rootError); ok { //nolint:errorlint
+		return v.err
+	}
 
 	// check if already transformed
 	if v, ok := err.(*Error); ok { //nolint:errorlint
@@ -94,7 +97,22 @@ func (e *Error) Cause() error {
 	if e.ErrCause != nil {
 		return e.ErrCause
 	}
-	return e
+	return &rootError{err: e}
+}
+
+// rootError is the end of a chain of causes, it has none itself
+type rootError struct {
+	err *Error
+}
+
+// Error interface
+func (e *rootError) Error() string {
+	return e.err.Error()
+}
+
+// Unwrap interface
+func (e *rootError) Unwrap() error {
+	return e.err
 }
 
 // Format interface
-- 
2.43.0


From 7b69a0a4ed3d99b8160976a0edaf8c01179fa9c1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:55:07 +0000
Subject: [PATCH 42/42] fix: refuse configurations whose outputs overwrite each
 other

---
 config/config.go | 38 ++++++++++++++++++++++++++++++++++++++
 1 file changed, 38 insertions(+)

diff --git a/config/config.go b/config/config.go
index 5de1009..8217167 100644
--- a/config/config.go
+++ b/config/config.go
@@ -128,5 +128,43 @@ func loadConfig(yamlBytes []byte) (conf *Config, err error) {
 		}
 		mapping.GoPackage = goPackage
 	}
+	err = conf.checkOutputs()
 	return
 }
+
+// checkOutputs makes sure, that no output overwrites another one
+func (c *Config) checkOutputs() error {
+	writers := map[string]string{}
+	check := func(writer, output string) error {
+		if other, ok := writers[output]; ok {
+			return errors.New(other + " and " + writer + " have the same output " + output)
+		}
+		writers[output] = writer
+		return nil
+	}
+	for name, target := range c.Targets {
+		var outputs []string
+		if target.Out != "" {
+			outputs = append(outputs, filepath.Clean(target.Out))
+		}
+		if len(target.TSRPC) > 0 {
+			outputs = append(outputs, "tsrpc of "+target.Package)
+		}
+		if len(target.GoRPC) > 0 {
+			outputs = append(outputs, "gorpc of "+target.Package)
+		}
+		for _, output := range outputs {
+			if err := check("target "+name, output); err != nil {
+				return err
+			}
+		}
+	}
+	for goPackage, mapping := range c.Mappings {
+		if mapping.Out != "" {
+			if err := check("mapping "+goPackage, filepath.Clean(mapping.Out)); err != nil {
+				return err
+			}
+		}
+	}
+	return nil
+}
-- 
2.43.0

