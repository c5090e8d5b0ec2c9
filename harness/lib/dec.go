package lib

import (
	"bytes"
	"encoding/binary"
	"encoding/json"
	"fmt"
	"io"
	"math"
	"math/big"
	"strings"
)

// DecJSON decodes exactly one JSON document; numbers become canonical strings.
func DecJSON(b []byte) (any, error) {
	d := json.NewDecoder(bytes.NewReader(b))
	d.UseNumber()
	var v any
	if err := d.Decode(&v); err != nil {
		return nil, err
	}
	if _, err := d.Token(); err != io.EOF {
		return nil, fmt.Errorf("data after the document")
	}
	return canon(v), nil
}

type Num string

func canon(v any) any {
	switch x := v.(type) {
	case json.Number:
		r, ok := new(big.Rat).SetString(x.String())
		if !ok {
			return Num(x.String())
		}
		return ratNum(r)
	case []any:
		for i := range x {
			x[i] = canon(x[i])
		}
	case map[string]any:
		for k := range x {
			x[k] = canon(x[k])
		}
	}
	return v
}

func ratNum(r *big.Rat) Num {
	if r.IsInt() {
		return Num(r.Num().String())
	}
	f, _ := r.Float64()
	return Num(fmt.Sprint(f))
}

// DecMsgpack decodes exactly one msgpack value; numbers become canonical strings, map keys their rendering.
func DecMsgpack(b []byte) (any, error) {
	v, rest, err := decMsg(b, 0)
	if err != nil {
		return nil, err
	}
	if len(rest) > 0 {
		return nil, fmt.Errorf("%d bytes after the value", len(rest))
	}
	return v, nil
}

func decMsg(b []byte, depth int) (any, []byte, error) {
	if len(b) == 0 || depth > 100 {
		return nil, nil, io.ErrUnexpectedEOF
	}
	c, b := b[0], b[1:]
	need := func(n int) ([]byte, error) {
		if n < 0 || len(b) < n {
			return nil, io.ErrUnexpectedEOF
		}
		x := b[:n]
		b = b[n:]
		return x, nil
	}
	length := func(n int) (int, error) {
		x, err := need(n)
		if err != nil {
			return 0, err
		}
		switch n {
		case 1:
			return int(x[0]), nil
		case 2:
			return int(binary.BigEndian.Uint16(x)), nil
		}
		return int(binary.BigEndian.Uint32(x)), nil
	}
	str := func(n int, err error) (any, []byte, error) {
		if err != nil {
			return nil, nil, err
		}
		x, err := need(n)
		return string(x), b, err
	}
	arr := func(n int, err error) (any, []byte, error) {
		if err != nil {
			return nil, nil, err
		}
		out := []any{}
		for i := 0; i < n; i++ {
			var v any
			if v, b, err = decMsg(b, depth+1); err != nil {
				return nil, nil, err
			}
			out = append(out, v)
		}
		return out, b, nil
	}
	dict := func(n int, err error) (any, []byte, error) {
		if err != nil {
			return nil, nil, err
		}
		out := map[string]any{}
		for i := 0; i < n; i++ {
			var k, v any
			if k, b, err = decMsg(b, depth+1); err != nil {
				return nil, nil, err
			}
			if v, b, err = decMsg(b, depth+1); err != nil {
				return nil, nil, err
			}
			out[fmt.Sprint(k)] = v
		}
		return out, b, nil
	}
	switch {
	case c <= 0x7f:
		return Num(fmt.Sprint(c)), b, nil
	case c >= 0xe0:
		return Num(fmt.Sprint(int8(c))), b, nil
	case c >= 0xa0 && c <= 0xbf:
		return str(int(c&31), nil)
	case c >= 0x90 && c <= 0x9f:
		return arr(int(c&15), nil)
	case c >= 0x80 && c <= 0x8f:
		return dict(int(c&15), nil)
	}
	switch c {
	case 0xc0:
		return nil, b, nil
	case 0xc2:
		return false, b, nil
	case 0xc3:
		return true, b, nil
	case 0xc4, 0xd9:
		return str(length(1))
	case 0xc5, 0xda:
		return str(length(2))
	case 0xc6, 0xdb:
		return str(length(4))
	case 0xdc:
		return arr(length(2))
	case 0xdd:
		return arr(length(4))
	case 0xde:
		return dict(length(2))
	case 0xdf:
		return dict(length(4))
	case 0xca:
		x, err := need(4)
		if err != nil {
			return nil, nil, err
		}
		return floatNum(float64(math.Float32frombits(binary.BigEndian.Uint32(x)))), b, nil
	case 0xcb:
		x, err := need(8)
		if err != nil {
			return nil, nil, err
		}
		return floatNum(math.Float64frombits(binary.BigEndian.Uint64(x))), b, nil
	case 0xcc, 0xcd, 0xce, 0xcf:
		x, err := need(1 << (c - 0xcc))
		if err != nil {
			return nil, nil, err
		}
		var u uint64
		for _, y := range x {
			u = u<<8 | uint64(y)
		}
		return Num(fmt.Sprint(u)), b, nil
	case 0xd0, 0xd1, 0xd2, 0xd3:
		n := 1 << (c - 0xd0)
		x, err := need(n)
		if err != nil {
			return nil, nil, err
		}
		var u uint64
		for _, y := range x {
			u = u<<8 | uint64(y)
		}
		s := 64 - 8*n
		return Num(fmt.Sprint(int64(u<<s) >> s)), b, nil
	case 0xd4, 0xd5, 0xd6, 0xd7, 0xd8:
		x, err := need(1 + 1<<(c-0xd4))
		return fmt.Sprintf("ext%x", x), b, err
	case 0xc7:
		n, err := length(1)
		if err != nil {
			return nil, nil, err
		}
		x, err := need(n + 1)
		return fmt.Sprintf("ext%x", x), b, err
	}
	return nil, nil, fmt.Errorf("byte %#x", c)
}

func floatNum(f float64) Num {
	if math.IsNaN(f) || math.IsInf(f, 0) {
		return Num(fmt.Sprint(f))
	}
	return ratNum(new(big.Rat).SetFloat64(f))
}

// MediaType is the part of a content type before its parameters.
func MediaType(ct string) string {
	s, _, _ := strings.Cut(ct, ";")
	return strings.ToLower(strings.TrimSpace(s))
}
