package times

import "time"

type Days []time.Time

type Calendar map[string]time.Time

type Span struct {
	From time.Time  `json:"from"`
	To   *time.Time `json:"to,omitempty"`
}

type Stamp struct {
	At    time.Time             `json:"at"`
	Opt   *time.Time            `json:"opt,omitempty"`
	Must  *time.Time            `json:"must"`
	List  []time.Time           `json:"list"`
	Ptrs  []*time.Time          `json:"ptrs"`
	By    map[string]time.Time  `json:"by"`
	ByPtr map[string]*time.Time `json:"byPtr"`
	Span  Span                  `json:"span"`
	Sub   *Span                 `json:"sub,omitempty"`
	Spans []Span                `json:"spans"`
	Name  string                `json:"name"`
}

// Times passes time values in every position.
//
//vh:record
type Times interface {
	One(t time.Time) time.Time
	Ptr(t *time.Time) *time.Time
	Slice(ts []time.Time) []time.Time
	PtrSlice(ts []*time.Time) []*time.Time
	Map(ts map[string]time.Time) map[string]time.Time
	PtrMap(ts map[string]*time.Time) map[string]*time.Time
	Nested(ts [][]time.Time, m map[string][]time.Time) ([][]time.Time, map[string][]time.Time)
	Struct(s Stamp) Stamp
	StructPtr(s *Stamp) *Stamp
	Structs(s []Span, p []*Span, m map[string]Span) ([]Span, []*Span, map[string]Span)
	Named(d Days, c Calendar) (Days, Calendar)
	Several(a time.Time, n string, b *time.Time, c time.Time) (x time.Time, m string, y *time.Time, z time.Time)
}
