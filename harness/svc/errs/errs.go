package errs

import (
	"errors"
	"fmt"
	"time"
)

var (
	ErrPlain  = errors.New("plain sentinel")
	ErrOther  = errors.New("other: sentinel: with colons")
	ErrEmpty  = errors.New("")
	ErrSuffix = errors.New("EOF suffix")
)

// Struct is a pointer error with data.
type Struct struct {
	Code  int               `json:"code"`
	Text  string            `json:"text"`
	Bag   map[string]string `json:"bag"`
	Inner *Detail           `json:"inner"`
}

type Detail struct {
	A int
	B []string
}

func (e *Struct) Error() string { return fmt.Sprintf("struct error %d %s", e.Code, e.Text) }

// ErrorCode is picked up by the call statistics.
func (e *Struct) ErrorCode() int { return 4000 + e.Code }

// Value is a value-typed struct error.
type Value struct {
	Num  int64
	Name string
}

func (e Value) Error() string { return fmt.Sprintf("value error %d %s", e.Num, e.Name) }

// Scalar is a string-kind error.
type Scalar string

func (e Scalar) Error() string { return string(e) }

// Code is a number-kind error.
type Code int

func (e Code) Error() string { return fmt.Sprintf("code %d", int(e)) }

// Unit has no data.
type Unit struct{}

func (Unit) Error() string { return "unit error" }

// Wrap wraps another error.
type Wrap struct {
	Op  string
	Err error `json:"-"`
}

func (w *Wrap) Error() string { return w.Op + ": " + w.Err.Error() }
func (w *Wrap) Unwrap() error { return w.Err }

// Opaque wraps with a message of its own.
type Opaque struct {
	Msg string
	Err error `json:"-"`
}

func (w *Opaque) Error() string { return w.Msg }
func (w *Opaque) Unwrap() error { return w.Err }

const (
	ScalarOne Scalar = "scalar one"
	ScalarTwo Scalar = "scalar two"
)

// Errs returns errors in every declared shape.
//
//vh:record
type Errs interface {
	Plain() error
	WithResult(a int) (string, error)
	Named() (n int, err error)
	TwoErrors() (first error, second error)
	First() (err error, n int)
	TypedPtr() *Struct
	TypedPtrResult() (int, *Struct)
	TypedValue() Value
	TypedScalar() Scalar
	TypedScalarResult() (n int, err Scalar)
	TypedScalarPtr() *Scalar
	TypedCode() *Code
	Nothing()
	One(a int) int
	Many(a string, b []int) (x map[string]int, y string, err error)
}

// Base is embedded by Rich.
type Base struct {
	ID   int
	Tags []string
}

// Rich carries data in the shapes an error may have.
type Rich struct {
	Base
	Renamed string            `json:"other_name"`
	Raw     []byte            `json:"raw"`
	At      time.Time         `json:"at"`
	Big     uint64            `json:"big"`
	Neg     int8              `json:"neg"`
	F       float64           `json:"f"`
	On      bool              `json:"on,omitempty"`
	Inner   *Detail           `json:"inner"`
	List    []Detail          `json:"list"`
	Map     map[string]Detail `json:"map"`
	Any     interface{}       `json:"any"`
	hidden  int
}

func (e *Rich) Error() string { return "rich error " + e.Renamed }

// Live has a field no encoding can carry.
type Live struct {
	Name string
	Done chan struct{}
}

func (e *Live) Error() string { return "live error " + e.Name }
