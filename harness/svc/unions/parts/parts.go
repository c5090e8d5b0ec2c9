package parts

type Left struct {
	Kind string `json:"kind" gotsrpc:"type:'left'"`
	L    []int  `json:"l"`
}

type Right struct {
	Kind string         `json:"kind" gotsrpc:"type:'right'"`
	R    map[string]int `json:"r"`
	Next *Choice        `json:"next,omitempty"`
}

type Choice struct {
	Left  *Left  `json:"left,omitempty" gotsrpc:"union"`
	Right *Right `json:"right,omitempty" gotsrpc:"union"`
}

// Inside is reachable through Box only.
type Inside struct {
	Left  *Left  `json:"left,omitempty" gotsrpc:"union"`
	Right *Right `json:"right,omitempty" gotsrpc:"union"`
}

type Box struct {
	Inside  Inside            `json:"inside"`
	Choices []Choice          `json:"choices"`
	By      map[string]Choice `json:"by"`
}

type OnlyExtra struct {
	Left  *Left  `json:"left,omitempty" gotsrpc:"union"`
	Right *Right `json:"right,omitempty" gotsrpc:"union"`
}

// InMore is used by another target only.
type InMore struct {
	Left  *Left  `json:"left,omitempty" gotsrpc:"union"`
	Right *Right `json:"right,omitempty" gotsrpc:"union"`
}
