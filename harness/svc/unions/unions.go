package unions

import (
	"time"

	"example.com/vh/svc/unions/parts"
)

type WordA string
type WordB string
type WordC string

const (
	WordAOne   WordA = "one"
	WordATwo   WordA = "two"
	WordBThree WordB = "three"
	WordCFour  WordC = "four"
)

// Word is a union of string enums.
type Word struct {
	A *WordA `json:"a,omitempty" gotsrpc:"union"`
	B *WordB `json:"b,omitempty" gotsrpc:"union"`
	C *WordC `json:"c,omitempty" gotsrpc:"union"`
}

type Circle struct {
	Kind   string `json:"kind" gotsrpc:"type:'circle'"`
	Radius int    `json:"radius"`
}

type Square struct {
	Kind string   `json:"kind" gotsrpc:"type:'square'"`
	Side float64  `json:"side"`
	Tags []string `json:"tags"`
}

type Group struct {
	Kind  string           `json:"kind" gotsrpc:"type:'group'"`
	Items []Shape          `json:"items"`
	ByKey map[string]*Shape `json:"byKey"`
	Note  *Word            `json:"note,omitempty"`
}

// Shape is a union of structs, one of which holds shapes.
type Shape struct {
	Circle *Circle `json:"circle,omitempty" gotsrpc:"union"`
	Square *Square `json:"square,omitempty" gotsrpc:"union"`
	Group  *Group  `json:"group,omitempty" gotsrpc:"union"`
}

// Plain is a union of values instead of pointers.
type Plain struct {
	Circle Circle `json:"circle,omitempty" gotsrpc:"union"`
	At     Moment `json:"at,omitempty" gotsrpc:"union"`
}

type Moment struct {
	When time.Time `json:"when"`
	Name string    `json:"name"`
}

// Single has one member only.
type Single struct {
	Only *Moment `json:"only,omitempty" gotsrpc:"union"`
}

// Wrap consists of a pointer, too.
type Wrap struct {
	Inner Single `json:"inner"`
}

// Either is a union of unions.
type Either struct {
	Shape *Shape        `json:"shape,omitempty" gotsrpc:"union"`
	Part  *parts.Choice `json:"part,omitempty" gotsrpc:"union"`
}

// only reachable through one way each
type (
	InSlice struct {
		A *Circle `json:"a,omitempty" gotsrpc:"union"`
		B *Square `json:"b,omitempty" gotsrpc:"union"`
	}
	InMap struct {
		A *Circle `json:"a,omitempty" gotsrpc:"union"`
		B *Square `json:"b,omitempty" gotsrpc:"union"`
	}
	InPtr struct {
		A *Circle `json:"a,omitempty" gotsrpc:"union"`
		B *Square `json:"b,omitempty" gotsrpc:"union"`
	}
	InField struct {
		A *Circle `json:"a,omitempty" gotsrpc:"union"`
		B *Square `json:"b,omitempty" gotsrpc:"union"`
	}
	InAnon struct {
		A *Circle `json:"a,omitempty" gotsrpc:"union"`
		B *Square `json:"b,omitempty" gotsrpc:"union"`
	}
	InDeep struct {
		A *Circle `json:"a,omitempty" gotsrpc:"union"`
		B *Square `json:"b,omitempty" gotsrpc:"union"`
	}
	InNamed struct {
		A *Circle `json:"a,omitempty" gotsrpc:"union"`
		B *Square `json:"b,omitempty" gotsrpc:"union"`
	}
	InBase struct {
		A *Circle `json:"a,omitempty" gotsrpc:"union"`
		B *Square `json:"b,omitempty" gotsrpc:"union"`
	}
	InMember struct {
		A *Circle `json:"a,omitempty" gotsrpc:"union"`
		B *Square `json:"b,omitempty" gotsrpc:"union"`
	}
	InArg struct {
		A *Circle `json:"a,omitempty" gotsrpc:"union"`
		B *Square `json:"b,omitempty" gotsrpc:"union"`
	}
)

type Named []InNamed

type Base struct {
	Base InBase `json:"base"`
	N    int    `json:"n"`
}

type Carrier struct {
	Inner InMember `json:"inner"`
	Kind  string   `json:"kind"`
}

type ViaMember struct {
	C *Carrier `json:"c,omitempty" gotsrpc:"union"`
	S *Square  `json:"s,omitempty" gotsrpc:"union"`
}

type Holder struct {
	Field InField `json:"field"`
	Anon  struct {
		U InAnon `json:"u"`
	} `json:"anon"`
	Deep  map[string][]*InDeep `json:"deep"`
	Named Named                `json:"named"`
	Base  `json:",inline"`
	Opt   *Shape `json:"opt,omitempty"`
	Null  *Shape `json:"null"`
	Last  string `json:"last"`
}

//vh:record
type Unions interface {
	Word() Word
	WordPtr() *Word
	Shape() Shape
	ShapePtr() *Shape
	Plain() Plain
	Single() (s Single, n int)
	SingleMap() (map[string]Single, []Single, *Single)
	Wrap() (Wrap, map[string]Wrap, []Wrap)
	WrapArg(a Wrap, b Single, c map[string]Single, d []Wrap) (Wrap, Single)
	Anything() (interface{}, []interface{}, map[string]interface{})
	Either() Either
	Slice() []InSlice
	Map() map[string]InMap
	Ptr() []*InPtr
	Holder() Holder
	Holders() (a []Holder, b map[string]*Holder)
	ViaMember() ViaMember
	Foreign() parts.Choice
	ForeignBox() (*parts.Box, error)
	Arg(a InArg, n int) int
	Echo(a Shape, b *Word, c []Shape, d map[string]Word) (Shape, *Word, []Shape, map[string]Word)
	Several(n int) (n2 int, w Word, s []Shape, e *Either)
}

//vh:record
type Extra interface {
	Only() (parts.OnlyExtra, Word)
}
