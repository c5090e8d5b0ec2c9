// Package more is a second target; its service is a struct.
package more

import (
	"example.com/vh/rt"
	x "example.com/vh/svc/unions/parts"
)

type Here struct {
	Left *x.Left `json:"left,omitempty" gotsrpc:"union"`
	Mine *Mine   `json:"mine,omitempty" gotsrpc:"union"`
}

type Mine struct {
	Kind string `json:"kind" gotsrpc:"type:'mine'"`
	M    *Here  `json:"m,omitempty"`
}

type More struct {
	Rec *rt.Recorder
}

func (s *More) Here() []Here {
	return rt.As[[]Here](s.Rec.Do("More", "Here"), 0)
}

func (s *More) There() (map[string][]x.InMore, *x.Choice) {
	r := s.Rec.Do("More", "There")
	return rt.As[map[string][]x.InMore](r, 0), rt.As[*x.Choice](r, 1)
}
