package echo

import (
	"net/http"

	"example.com/vh/rt"
	leaf "example.com/vh/svc/echo/sub"
	"example.com/vh/svc/other"
)

type Colour string

const (
	ColourRed  Colour = "red"
	ColourBlue Colour = "blue"
)

type Level int

const (
	LevelLow  Level = 1
	LevelHigh Level = 2
)

type Point struct {
	X int     `json:"x"`
	Y int     `json:"y"`
	N string  `json:"n"`
	F float64 `json:"f"`
}

type Tree struct {
	Name   string           `json:"name"`
	Left   *Tree            `json:"left"`
	Right  *Tree            `json:"right,omitempty"`
	Kids   []*Tree          `json:"kids"`
	ByName map[string]Point `json:"byName"`
	Inner  struct {
		U uint8  `json:"u"`
		S string `json:"s"`
	} `json:"inner"`
}

type Points []Point
type Grid [][]int
type Dict map[string]int

type All struct {
	B   bool
	I   int
	I8  int8
	I16 int16
	I32 int32
	I64 int64
	U   uint
	U8  uint8
	U16 uint16
	U32 uint32
	U64 uint64
	F32 float32
	F64 float64
	S   string
	Bs  []byte
	P   *int
	PP  *Point
	M   map[string]string
	Any interface{}
	C   Colour
	L   Level
}

//vh:record
// Echo is an interface service; its methods cover the argument and result shapes.
type Echo interface {
	Nothing()
	Take(a string)
	Give() int
	GiveStr() string
	One(a int) int
	Bool(v bool) bool
	Ints(a int, b int8, c int16, d int32, e int64) (a2 int, b2 int8, c2 int16, d2 int32, e2 int64)
	Uints(a uint, b uint8, c uint16, d uint32, e uint64) (a2 uint, b2 uint8, c2 uint16, d2 uint32, e2 uint64)
	Floats(a float32, b float64) (float32, float64)
	Str(s string) string
	Lone(a Lone, b map[string]Lone, c Nest, d *Nest) (Lone, []Lone, Nest)
	Bytes(b []byte) []byte
	Swap(a, b string) (first, second string)
	Triple(a, b, c int) (int, int, int)
	Struct(p Point) Point
	Ptr(p *Point) *Point
	PtrScalar(p *int, s *string) (*int, *string)
	Slice(p []Point, q []*Point, r []string) ([]Point, []*Point, []string)
	Map(m map[string]int, n map[string]*Point, o map[int]string) (map[string]int, map[string]*Point, map[int]string)
	Nested(a [][]int, b map[string][]string, c []map[string]int, d map[string]map[string]bool) ([][]int, map[string][]string, []map[string]int, map[string]map[string]bool)
	Tree(t *Tree) *Tree
	All(a All) All
	NamedTypes(c Colour, l Level, p Points, g Grid, d Dict) (Colour, Level, Points, Grid, Dict)
	Foreign(n other.Name, i other.Item, p *other.Item, ns other.Names, ix other.Index, w other.Wrap) (other.Name, other.Item, *other.Item, other.Names, other.Index, other.Wrap)
	Aliased(l leaf.Leaf, k leaf.Key, m map[leaf.Key]leaf.Leaf, s []leaf.Leaf) (leaf.Leaf, leaf.Key, map[leaf.Key]leaf.Leaf, []leaf.Leaf)
	Any(v interface{}) interface{}
	NamedResults(a int, b string) (count int, text string, list []string)
	Raw(w http.ResponseWriter, r *http.Request)
	RawArgs(w http.ResponseWriter, r *http.Request, a string, b int) (int, string)
	Grouped(a, b int, c, d string) (x, y int, z string)
	Mixed(s string, p *Point, l []int, m map[string]Colour, f float64) (m2 map[string]Colour, f2 float64, s2 string, l2 []int, p2 *Point)
}

// Plain is a struct service with methods in two files.
type Plain struct {
	Rec *rt.Recorder
}

func (s *Plain) Hello(name string) string {
	return rt.As[string](s.Rec.Do("Plain", "Hello", name), 0)
}

func (s *Plain) Add(a, b int64) (sum int64) {
	return rt.As[int64](s.Rec.Do("Plain", "Add", a, b), 0)
}

func (s *Plain) hidden() {}

// Lone and Nest consist of a pointer.
type Lone struct {
	N *int `json:"n,omitempty"`
}

type Nest struct {
	L Lone `json:"l"`
}
