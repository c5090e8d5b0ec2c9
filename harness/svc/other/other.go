package other

import "example.com/vh/svc/echo/sub"

type Name string
type Num int64
type Flag bool
type Ratio float64

type Item struct {
	ID    int64    `json:"id"`
	Label string   `json:"label"`
	Tags  []string `json:"tags,omitempty"`
	Next  *Item    `json:"next,omitempty"`
}

type Names []Name
type Index map[Name]*Item

type Wrap struct {
	Sub sub.Leaf            `json:"sub"`
	Map map[string]sub.Leaf `json:"map"`
}
