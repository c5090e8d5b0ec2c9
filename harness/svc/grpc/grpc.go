package grpc

import (
	"net/http"

	"example.com/vh/rt"
	parts "example.com/vh/svc/grpc/twin"
)

type Colour string
type Level int

type Item struct {
	ID    int64
	Name  string
	Tags  []string
	Attr  map[string]Level
	Inner *Inner
	Twin  parts.Twin
}

type Inner struct {
	N    *int
	Rate float64
	Raw  []byte
}

type Items []Item

// Failure is a typed error.
type Failure struct {
	Code int
	Text string
}

func (f *Failure) Error() string { return f.Text }

//vh:record
type Api interface {
	Nothing()
	Take(a string)
	Give() int
	One(a int) int
	Sum(a, b int, c string) (total int, text string)
	Many(a int, b string, c []string, d map[string]int, e bool, f float64) (x int, y string, z []string, w map[string]int, v bool, u float64)
	Struct(v Item) Item
	Ptr(v *Item, n *int) (*Item, *int)
	All(v []Item, m map[string]Item, l Items) ([]Item, map[string]Item, Items)
	Foreign(v parts.Twin, p *parts.Twin, l []parts.Twin) (parts.Twin, *parts.Twin, []parts.Twin)
	Kinds(c Colour, l Level, m map[Colour]Level) (Level, Colour, map[Level]Colour)
	Raw(w http.ResponseWriter, r *http.Request, a string, n int) (string, int)
	RawOnly(w http.ResponseWriter, r *http.Request) string
	Fail(a string) (string, error)
	Failed(a string) *Failure
	Numbers(a int8, b int16, c int32, d int64, e uint8, f uint16, g uint32, h uint64, i float32) (int8, int16, int32, int64, uint8, uint16, uint32, uint64, float32)
	Bytes(b []byte, bb [][]byte) ([]byte, [][]byte)
}

//vh:record
type Other interface {
	One(a int) int
	Take(a string)
	Sum(a, b int, c string) (total int, text string)
}

// Calc is a service of struct type.
type Calc struct {
	Rec *rt.Recorder
}

func (c *Calc) One(a int) int {
	return rt.As[int](c.Rec.Do("Calc", "One", a), 0)
}

func (c *Calc) Pair(w http.ResponseWriter, r *http.Request, a string, b Item) (Item, string, error) {
	x := c.Rec.Do("Calc", "Pair", w, r, a, b)
	return rt.As[Item](x, 0), rt.As[string](x, 1), rt.As[error](x, 2)
}

func (c *Calc) Nothing() {
	c.Rec.Do("Calc", "Nothing")
}

// Unlisted is no GoRPC service.
type Unlisted struct{}

func (u *Unlisted) Gone() {}
