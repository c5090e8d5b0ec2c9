package lib

import (
	"fmt"
	"math"
	"reflect"
	"sort"
	"strings"
	"time"
)

// Enc is the encoding the values are to travel in; it limits the alphabet to what the encoding can represent.
type Enc int

const (
	Msgpack Enc = iota
	JSON
	Gob
)

func (e Enc) String() string { return [...]string{"msgpack", "json", "gob"}[e] }

var timeType = reflect.TypeOf(time.Time{})

// Opt steers the alphabet.
type Opt struct {
	Enc   Enc
	Depth int  // nesting depth of deviations
	Big   bool // include sizes at the encodings' length boundaries
}

// Distinct returns a non-zero value of t that differs for different seeds.
func Distinct(t reflect.Type, seed int, depth int) reflect.Value {
	v := reflect.New(t).Elem()
	if t == timeType {
		v.Set(reflect.ValueOf(time.UnixMilli(1700000000123 + int64(seed)*1000)))
		return v
	}
	switch t.Kind() {
	case reflect.Bool:
		v.SetBool(seed%2 == 0)
	case reflect.Int, reflect.Int8, reflect.Int16, reflect.Int32, reflect.Int64:
		v.SetInt(int64(11 + seed%100))
	case reflect.Uint, reflect.Uint8, reflect.Uint16, reflect.Uint32, reflect.Uint64:
		v.SetUint(uint64(12 + seed%100))
	case reflect.Float32, reflect.Float64:
		v.SetFloat(float64(seed) + 0.5)
	case reflect.String:
		v.SetString(fmt.Sprintf("s%d", seed))
	case reflect.Interface:
		if t.NumMethod() == 0 {
			v.Set(reflect.ValueOf(fmt.Sprintf("any%d", seed)))
		}
	case reflect.Slice:
		if depth <= 0 {
			return v
		}
		v.Set(reflect.MakeSlice(t, 0, 2))
		v.Set(reflect.Append(v, Distinct(t.Elem(), seed*3+1, depth-1), Distinct(t.Elem(), seed*3+2, depth-1)))
	case reflect.Array:
		for i := 0; i < t.Len(); i++ {
			v.Index(i).Set(Distinct(t.Elem(), seed*3+i, depth-1))
		}
	case reflect.Map:
		if depth <= 0 {
			return v
		}
		v.Set(reflect.MakeMap(t))
		v.SetMapIndex(Distinct(t.Key(), seed*3+1, depth-1), Distinct(t.Elem(), seed*3+1, depth-1))
		v.SetMapIndex(Distinct(t.Key(), seed*3+2, depth-1), Distinct(t.Elem(), seed*3+2, depth-1))
	case reflect.Ptr:
		if depth <= 0 {
			return v
		}
		v.Set(reflect.New(t.Elem()))
		v.Elem().Set(Distinct(t.Elem(), seed+7, depth-1))
	case reflect.Struct:
		for i := 0; i < t.NumField(); i++ {
			if t.Field(i).PkgPath != "" {
				continue
			}
			v.Field(i).Set(Distinct(t.Field(i).Type, seed*5+i, depth-1))
		}
	}
	return v
}

var (
	bigIntBounds = []int64{0, -1, 1, 2, -2, 31, 32, -32, -33, 127, 128, -128, -129, 255, 256, 32767, 32768, -32768, -32769, 65535, 65536,
		math.MaxInt32, math.MaxInt32 + 1, math.MinInt32, math.MinInt32 - 1, math.MaxUint32, math.MaxUint32 + 1,
		1<<53 - 1, 1 << 53, 1<<53 + 1, -(1 << 53) - 1, math.MaxInt64, math.MinInt64}
	uintBounds = []uint64{0, 1, 31, 32, 127, 128, 255, 256, 32768, 65535, 65536, math.MaxInt32, math.MaxUint32, math.MaxUint32 + 1,
		1 << 53, 1<<53 + 1, math.MaxInt64, math.MaxInt64 + 1, math.MaxUint64}
	floats  = []float64{0, math.Copysign(0, -1), 1, -1, 0.1, -0.5, 1.5, 1e10, 1e21, 1e-7, 123456789.123456789, math.MaxFloat64, math.SmallestNonzeroFloat64, math.Pi}
	strs    = []string{"", "a", " ", "0", "null", "true", "\"", "\\", "\\\"", "/", "</script>", "&<>", "'", "\n", "\t\r", "\x00", "\x01\x1f", "\x7f", "ä", "日本語", "😀", "\u2028\u2029", "\ufffd", "[]", "{}", "a,b", "2006-01-02T15:04:05Z"}
	strLens = []int{15, 16, 31, 32, 255, 256}
	bigLens = []int{65535, 65536}
)

// Values returns the alphabet of t. The first value is the distinct baseline for seed.
func Values(t reflect.Type, seed int, o Opt) []reflect.Value {
	out := []reflect.Value{Distinct(t, seed, 4)}
	add := func(v reflect.Value) { out = append(out, v) }
	conv := func(x any) { add(reflect.ValueOf(x).Convert(t)) }
	if t == timeType {
		return out
	}
	switch t.Kind() {
	case reflect.Bool:
		conv(true)
		conv(false)
	case reflect.Int, reflect.Int8, reflect.Int16, reflect.Int32, reflect.Int64:
		for _, x := range bigIntBounds {
			if !reflect.Zero(t).OverflowInt(x) {
				conv(x)
			}
		}
	case reflect.Uint, reflect.Uint8, reflect.Uint16, reflect.Uint32, reflect.Uint64:
		for _, x := range uintBounds {
			if !reflect.Zero(t).OverflowUint(x) {
				conv(x)
			}
		}
	case reflect.Float32, reflect.Float64:
		for _, x := range floats {
			if t.Kind() == reflect.Float32 {
				x = float64(float32(x))
				if math.IsInf(x, 0) {
					x = math.MaxFloat32
				}
			}
			conv(x)
		}
		if o.Enc != JSON {
			conv(math.Inf(1))
			conv(math.Inf(-1))
			conv(math.NaN())
		}
	case reflect.String:
		for _, s := range strs {
			conv(s)
		}
		for _, n := range strLens {
			conv(strings.Repeat("x", n))
		}
		if o.Big {
			for _, n := range bigLens {
				conv(strings.Repeat("y", n))
			}
		}
		if o.Enc == Msgpack || o.Enc == Gob {
			conv("\xff\xfe")
		}
	case reflect.Interface:
		if t.NumMethod() != 0 {
			return out
		}
		add(reflect.Zero(t))
		for _, x := range []any{"", "txt", true, false, 1.5, -2.25, int64(-5), uint64(7), map[string]any{}, map[string]any{"k": "v", "n": map[string]any{"x": true}}, []any{}, []any{"a", nil, 2.5}} {
			if o.Enc == Gob {
				switch x.(type) {
				case map[string]any, []any:
					continue
				}
			}
			w := reflect.New(t).Elem()
			w.Set(reflect.ValueOf(x))
			add(w)
		}
	case reflect.Slice:
		add(reflect.Zero(t))
		add(reflect.MakeSlice(t, 0, 0))
		one := func(e reflect.Value) { s := reflect.MakeSlice(t, 1, 1); s.Index(0).Set(e); add(s) }
		if o.Depth > 0 {
			for _, e := range Values(t.Elem(), seed+1, o.sub()) {
				one(e)
			}
		} else {
			one(Distinct(t.Elem(), seed+1, 2))
		}
		lens := []int{3}
		if simple(t.Elem()) {
			lens = append(lens, 15, 16, 17, 255, 256)
			if o.Big {
				lens = append(lens, 65535, 65536)
			}
		} else if o.Depth > 0 {
			lens = append(lens, 16)
		}
		for _, n := range lens {
			s := reflect.MakeSlice(t, n, n)
			for i := 0; i < n; i++ {
				s.Index(i).Set(Distinct(t.Elem(), seed+i, 1))
			}
			add(s)
		}
	case reflect.Array:
		add(reflect.Zero(t))
	case reflect.Map:
		add(reflect.Zero(t))
		add(reflect.MakeMap(t))
		if o.Depth > 0 {
			for _, k := range Values(t.Key(), seed+1, o.sub()) {
				if k.Kind() == reflect.Float64 && math.IsNaN(k.Float()) {
					continue
				}
				m := reflect.MakeMap(t)
				m.SetMapIndex(k, Distinct(t.Elem(), seed+2, 2))
				add(m)
			}
			for _, e := range Values(t.Elem(), seed+1, o.sub()) {
				m := reflect.MakeMap(t)
				m.SetMapIndex(Distinct(t.Key(), seed+3, 2), e)
				add(m)
			}
		}
		if t.Key().Kind() == reflect.String {
			m := reflect.MakeMap(t)
			for i := 0; i < 17; i++ {
				m.SetMapIndex(reflect.ValueOf(fmt.Sprintf("k%d", i)).Convert(t.Key()), Distinct(t.Elem(), seed+i, 1))
			}
			add(m)
		}
	case reflect.Ptr:
		add(reflect.Zero(t))
		p := reflect.New(t.Elem())
		add(p)
		if o.Depth > 0 {
			for _, e := range Values(t.Elem(), seed+1, o.sub()) {
				p := reflect.New(t.Elem())
				p.Elem().Set(e)
				add(p)
			}
		}
	case reflect.Struct:
		add(reflect.Zero(t))
		if o.Depth > 0 {
			for i := 0; i < t.NumField(); i++ {
				if t.Field(i).PkgPath != "" {
					continue
				}
				for _, e := range Values(t.Field(i).Type, seed*5+i, o.sub()) {
					v := Distinct(t, seed, 4)
					v.Field(i).Set(e)
					add(v)
					if e.IsZero() {
						continue
					}
					z := reflect.New(t).Elem()
					z.Field(i).Set(e)
					add(z)
				}
			}
		}
	}
	return out
}

func (o Opt) sub() Opt { o.Depth--; return o }

func simple(t reflect.Type) bool {
	switch t.Kind() {
	case reflect.Struct, reflect.Slice, reflect.Map, reflect.Ptr, reflect.Interface, reflect.Array:
		return false
	}
	return true
}

// EqOpt says which differences an encoding may introduce.
type EqOpt struct {
	TimeMS   bool // instants are compared to the millisecond
	GobZero  bool // nil and empty collections, nil and pointer-to-zero are the same
	NilEmpty bool // nil and empty collections are the same
}

// Equal compares a (sent) and b (received); it returns a description of the first difference, or "".
func Equal(a, b reflect.Value, o EqOpt) string { return eq(a, b, o, "", false) }

func isEmptyish(v reflect.Value) bool {
	switch v.Kind() {
	case reflect.Slice, reflect.Map:
		return v.Len() == 0
	case reflect.Ptr:
		return v.IsNil() || isEmptyish(v.Elem()) || v.Elem().IsZero()
	case reflect.Struct:
		for i := 0; i < v.NumField(); i++ {
			if v.Type().Field(i).PkgPath == "" && !isEmptyish(v.Field(i)) {
				return false
			}
		}
		return true
	}
	return v.IsZero()
}

func eq(a, b reflect.Value, o EqOpt, path string, dyn bool) string {
	if !a.IsValid() || !b.IsValid() {
		if a.IsValid() != b.IsValid() {
			return fmt.Sprintf("%s: %s vs %s", path, Show(a), Show(b))
		}
		return ""
	}
	if dyn {
		// values inside interface{}: numbers by value, other kinds as they are
		if na, ok := num(a); ok {
			nb, ok2 := num(b)
			if !ok2 || na != nb {
				return fmt.Sprintf("%s: %s vs %s", path, Show(a), Show(b))
			}
			return ""
		}
	}
	if a.Type() != b.Type() {
		if !(dyn && a.Kind() == b.Kind()) {
			return fmt.Sprintf("%s: type %s vs %s", path, a.Type(), b.Type())
		}
	}
	if a.Type() == timeType && a.CanInterface() {
		ta, tb := a.Interface().(time.Time), b.Interface().(time.Time)
		if o.TimeMS {
			if ta.UnixMilli() != tb.UnixMilli() {
				return fmt.Sprintf("%s: %s vs %s", path, ta, tb)
			}
			return ""
		}
		if !ta.Equal(tb) {
			return fmt.Sprintf("%s: %s vs %s", path, ta, tb)
		}
		return ""
	}
	if o.GobZero && isEmptyish(a) && isEmptyish(b) {
		return ""
	}
	switch a.Kind() {
	case reflect.Interface:
		if a.IsNil() || b.IsNil() {
			if a.IsNil() != b.IsNil() {
				return fmt.Sprintf("%s: %s vs %s", path, Show(a), Show(b))
			}
			return ""
		}
		return eq(a.Elem(), b.Elem(), o, path, true)
	case reflect.Ptr:
		if a.IsNil() || b.IsNil() {
			if a.IsNil() != b.IsNil() {
				return fmt.Sprintf("%s: %s vs %s", path, Show(a), Show(b))
			}
			return ""
		}
		return eq(a.Elem(), b.Elem(), o, path+"*", dyn)
	case reflect.Slice, reflect.Array:
		if a.Kind() == reflect.Slice && a.IsNil() != b.IsNil() && !dyn && !o.NilEmpty && !o.GobZero {
			return fmt.Sprintf("%s: nil=%v vs nil=%v", path, a.IsNil(), b.IsNil())
		}
		if a.Len() != b.Len() {
			return fmt.Sprintf("%s: len %d vs %d (%s vs %s)", path, a.Len(), b.Len(), Show(a), Show(b))
		}
		for i := 0; i < a.Len(); i++ {
			if d := eq(a.Index(i), b.Index(i), o, fmt.Sprintf("%s[%d]", path, i), dyn); d != "" {
				return d
			}
		}
		return ""
	case reflect.Map:
		if a.IsNil() != b.IsNil() && !dyn && !o.NilEmpty && !o.GobZero {
			return fmt.Sprintf("%s: nil=%v vs nil=%v", path, a.IsNil(), b.IsNil())
		}
		if a.Len() != b.Len() {
			return fmt.Sprintf("%s: len %d vs %d (%s vs %s)", path, a.Len(), b.Len(), Show(a), Show(b))
		}
		for _, k := range a.MapKeys() {
			bv := b.MapIndex(k)
			if !bv.IsValid() {
				return fmt.Sprintf("%s: key %s missing", path, Show(k))
			}
			if d := eq(a.MapIndex(k), bv, o, fmt.Sprintf("%s[%s]", path, Show(k)), dyn); d != "" {
				return d
			}
		}
		return ""
	case reflect.Struct:
		for i := 0; i < a.NumField(); i++ {
			if a.Type().Field(i).PkgPath != "" {
				continue
			}
			if d := eq(a.Field(i), b.Field(i), o, path+"."+a.Type().Field(i).Name, dyn); d != "" {
				return d
			}
		}
		return ""
	case reflect.Float32, reflect.Float64:
		x, y := a.Float(), b.Float()
		if x == y || (math.IsNaN(x) && math.IsNaN(y)) {
			return ""
		}
		return fmt.Sprintf("%s: %v vs %v", path, x, y)
	}
	if a.Interface() != b.Interface() {
		return fmt.Sprintf("%s: %s vs %s", path, Show(a), Show(b))
	}
	return ""
}

func num(v reflect.Value) (string, bool) {
	switch v.Kind() {
	case reflect.Int, reflect.Int8, reflect.Int16, reflect.Int32, reflect.Int64:
		return fmt.Sprint(v.Int()), true
	case reflect.Uint, reflect.Uint8, reflect.Uint16, reflect.Uint32, reflect.Uint64:
		return fmt.Sprint(v.Uint()), true
	case reflect.Float32, reflect.Float64:
		f := v.Float()
		if f == math.Trunc(f) && math.Abs(f) < 1e15 {
			return fmt.Sprint(int64(f)), true
		}
		return fmt.Sprint(f), true
	}
	return "", false
}

// Show renders a value canonically (pointers followed, maps sorted), shortened.
func Show(v reflect.Value) string {
	s := show(v, 6)
	if len(s) > 300 {
		s = fmt.Sprintf("%s...(%d)", s[:300], len(s))
	}
	return s
}

// Full renders a value canonically without shortening.
func Full(v reflect.Value) string { return show(v, 12) }

func show(v reflect.Value, d int) string {
	if !v.IsValid() {
		return "nil"
	}
	if d < 0 {
		return "…"
	}
	if v.Type() == timeType && v.CanInterface() {
		return v.Interface().(time.Time).UTC().Format(time.RFC3339Nano)
	}
	switch v.Kind() {
	case reflect.Ptr:
		if v.IsNil() {
			return "nil"
		}
		return "&" + show(v.Elem(), d-1)
	case reflect.Interface:
		if v.IsNil() {
			return "nil"
		}
		return "i:" + show(v.Elem(), d-1)
	case reflect.String:
		return fmt.Sprintf("%q", v.String())
	case reflect.Slice:
		if v.IsNil() {
			return "nil[]"
		}
		var p []string
		for i := 0; i < v.Len(); i++ {
			p = append(p, show(v.Index(i), d-1))
		}
		return "[" + strings.Join(p, " ") + "]"
	case reflect.Map:
		if v.IsNil() {
			return "nilmap"
		}
		var p []string
		for _, k := range v.MapKeys() {
			p = append(p, show(k, d-1)+":"+show(v.MapIndex(k), d-1))
		}
		sort.Strings(p)
		return "{" + strings.Join(p, " ") + "}"
	case reflect.Struct:
		var p []string
		for i := 0; i < v.NumField(); i++ {
			if v.Type().Field(i).PkgPath != "" {
				continue
			}
			p = append(p, v.Type().Field(i).Name+"="+show(v.Field(i), d-1))
		}
		return v.Type().Name() + "(" + strings.Join(p, " ") + ")"
	}
	return fmt.Sprint(v)
}
