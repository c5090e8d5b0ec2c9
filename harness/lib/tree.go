package lib

import (
	"encoding/base64"
	"encoding/binary"
	"encoding/json"
	"fmt"
	"math"
	"reflect"
	"sort"
	"strconv"
	"strings"
)

// Node is an encoding-independent document; the emitters below are the harness's own, independent of the code under test.
type Node struct {
	Kind byte // n nil, b bool, i int, u uint, f float, s string, y bytes, a array, m map, r raw text/bytes
	B    bool
	I    int64
	U    uint64
	F    float64
	F32  bool
	S    string
	A    []*Node
	K    []*Node // map keys
	T    reflect.Type
	Wide int // 0 minimal msgpack form, 1.. wider forms
}

// ToNode builds the document of a value.
func ToNode(v reflect.Value) *Node {
	t := v.Type()
	n := &Node{T: t}
	switch v.Kind() {
	case reflect.Bool:
		n.Kind, n.B = 'b', v.Bool()
	case reflect.Int, reflect.Int8, reflect.Int16, reflect.Int32, reflect.Int64:
		n.Kind, n.I = 'i', v.Int()
	case reflect.Uint, reflect.Uint8, reflect.Uint16, reflect.Uint32, reflect.Uint64:
		n.Kind, n.U = 'u', v.Uint()
	case reflect.Float32, reflect.Float64:
		n.Kind, n.F, n.F32 = 'f', v.Float(), v.Kind() == reflect.Float32
	case reflect.String:
		n.Kind, n.S = 's', v.String()
	case reflect.Interface:
		if v.IsNil() {
			n.Kind = 'n'
			return n
		}
		c := ToNode(v.Elem())
		c.T = t
		return c
	case reflect.Ptr:
		if v.IsNil() {
			n.Kind = 'n'
			return n
		}
		c := ToNode(v.Elem())
		c.T = t
		return c
	case reflect.Slice:
		if v.IsNil() {
			n.Kind = 'n'
			return n
		}
		if t.Elem().Kind() == reflect.Uint8 {
			n.Kind, n.S = 'y', string(v.Bytes())
			return n
		}
		n.Kind = 'a'
		for i := 0; i < v.Len(); i++ {
			n.A = append(n.A, ToNode(v.Index(i)))
		}
	case reflect.Map:
		if v.IsNil() {
			n.Kind = 'n'
			return n
		}
		n.Kind = 'm'
		ks := v.MapKeys()
		sort.Slice(ks, func(i, j int) bool { return Full(ks[i]) < Full(ks[j]) })
		for _, k := range ks {
			kn := ToNode(k)
			n.K = append(n.K, kn)
			n.A = append(n.A, ToNode(v.MapIndex(k)))
		}
	case reflect.Struct:
		n.Kind = 'm'
		for i := 0; i < t.NumField(); i++ {
			f := t.Field(i)
			if f.PkgPath != "" {
				continue
			}
			name := f.Name
			tag := strings.Split(f.Tag.Get("json"), ",")
			if tag[0] == "-" {
				continue
			}
			if tag[0] != "" {
				name = tag[0]
			}
			omit := false
			for _, o := range tag[1:] {
				omit = omit || o == "omitempty"
			}
			if omit && v.Field(i).IsZero() {
				continue
			}
			n.K = append(n.K, &Node{Kind: 's', S: name})
			n.A = append(n.A, ToNode(v.Field(i)))
		}
	default:
		panic("ToNode " + t.String())
	}
	return n
}

// List is the document of an argument list.
func List(vs []reflect.Value) *Node {
	n := &Node{Kind: 'a'}
	for _, v := range vs {
		n.A = append(n.A, ToNode(v))
	}
	return n
}

func (n *Node) Clone() *Node {
	c := *n
	c.A, c.K = nil, nil
	for _, x := range n.A {
		c.A = append(c.A, x.Clone())
	}
	for _, x := range n.K {
		c.K = append(c.K, x.Clone())
	}
	return &c
}

// Walk visits every value node (not keys) with a setter path.
func (n *Node) Walk(f func(path string, x *Node)) { n.walk("", f) }

func (n *Node) walk(p string, f func(string, *Node)) {
	f(p, n)
	for i, c := range n.A {
		if n.Kind == 'm' {
			c.walk(p+"."+n.K[i].S+fmt.Sprint(n.K[i].I), f)
		} else {
			c.walk(fmt.Sprintf("%s[%d]", p, i), f)
		}
	}
}

// JSONText emits JSON.
func (n *Node) JSONText(sp string) string {
	switch n.Kind {
	case 'n':
		return "null"
	case 'b':
		return strconv.FormatBool(n.B)
	case 'i':
		return strconv.FormatInt(n.I, 10)
	case 'u':
		return strconv.FormatUint(n.U, 10)
	case 'f':
		b, _ := json.Marshal(n.F)
		if n.F32 {
			b, _ = json.Marshal(float32(n.F))
		}
		return string(b)
	case 's':
		b, _ := json.Marshal(n.S)
		return string(b)
	case 'y':
		return `"` + base64.StdEncoding.EncodeToString([]byte(n.S)) + `"`
	case 'r':
		return n.S
	case 'a':
		var p []string
		for _, c := range n.A {
			p = append(p, sp+c.JSONText(sp)+sp)
		}
		return "[" + strings.Join(p, ",") + "]"
	case 'm':
		var p []string
		for i, c := range n.A {
			k := n.K[i].JSONText(sp)
			if n.K[i].Kind != 's' {
				k = `"` + k + `"`
			}
			p = append(p, sp+k+sp+":"+sp+c.JSONText(sp)+sp)
		}
		return "{" + strings.Join(p, ",") + "}"
	}
	panic("kind")
}

func be(n int, x uint64) []byte {
	b := make([]byte, 8)
	binary.BigEndian.PutUint64(b, x)
	return b[8-n:]
}

// Msgpack emits msgpack; wide widens every header by that many steps where possible.
func (n *Node) Msgpack(wide int) []byte {
	hdr := func(fixMax int, fix byte, forms []byte, l int, small bool) []byte {
		w := wide
		if l <= fixMax && w == 0 {
			return []byte{fix | byte(l)}
		}
		if l <= fixMax {
			w--
		}
		sizes := []int{2, 4}
		if small {
			sizes = []int{1, 2, 4}
		}
		for i, s := range sizes {
			if uint64(l) < 1<<(8*s) || s == 4 {
				j := i + w
				if j >= len(sizes) {
					j = len(sizes) - 1
				}
				return append([]byte{forms[j]}, be(sizes[j], uint64(l))...)
			}
		}
		panic("len")
	}
	switch n.Kind {
	case 'n':
		return []byte{0xc0}
	case 'b':
		if n.B {
			return []byte{0xc3}
		}
		return []byte{0xc2}
	case 'u', 'i':
		if n.Kind == 'i' && n.I < 0 {
			i := n.I
			form := 0
			switch {
			case i >= -32:
				form = 0
			case i >= math.MinInt8:
				form = 1
			case i >= math.MinInt16:
				form = 2
			case i >= math.MinInt32:
				form = 3
			default:
				form = 4
			}
			form += wide
			if form > 4 {
				form = 4
			}
			if form == 0 {
				return []byte{byte(int8(i))}
			}
			return append([]byte{0xcf + byte(form)}, be(1<<(form-1), uint64(i))...)
		}
		u := n.U
		if n.Kind == 'i' {
			u = uint64(n.I)
		}
		form := 0
		switch {
		case u < 128:
			form = 0
		case u <= math.MaxUint8:
			form = 1
		case u <= math.MaxUint16:
			form = 2
		case u <= math.MaxUint32:
			form = 3
		default:
			form = 4
		}
		form += wide
		if form > 4 {
			form = 4
		}
		if form == 0 {
			return []byte{byte(u)}
		}
		return append([]byte{0xcb + byte(form)}, be(1<<(form-1), u)...)
	case 'f':
		if n.F32 && wide == 0 {
			return append([]byte{0xca}, be(4, uint64(math.Float32bits(float32(n.F))))...)
		}
		return append([]byte{0xcb}, be(8, math.Float64bits(n.F))...)
	case 's', 'y':
		return append(hdr(31, 0xa0, []byte{0xd9, 0xda, 0xdb}, len(n.S), true), n.S...)
	case 'r':
		return []byte(n.S)
	case 'a':
		b := hdr(15, 0x90, []byte{0xdc, 0xdd}, len(n.A), false)
		for _, c := range n.A {
			b = append(b, c.Msgpack(wide)...)
		}
		return b
	case 'm':
		b := hdr(15, 0x80, []byte{0xde, 0xdf}, len(n.A), false)
		for i, c := range n.A {
			b = append(b, n.K[i].Msgpack(wide)...)
			b = append(b, c.Msgpack(wide)...)
		}
		return b
	}
	panic("kind")
}
