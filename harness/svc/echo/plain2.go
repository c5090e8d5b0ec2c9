package echo

import (
	"example.com/vh/rt"
	stuff "example.com/vh/svc/other"
)

func (s *Plain) Item(in *stuff.Item, n stuff.Num) (*stuff.Item, stuff.Num) {
	r := s.Rec.Do("Plain", "Item", in, n)
	return rt.As[*stuff.Item](r, 0), rt.As[stuff.Num](r, 1)
}

func (s *Plain) Last() {
	s.Rec.Do("Plain", "Last")
}
