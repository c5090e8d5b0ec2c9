package route

import "net/http"

// Route has names that are prefixes, suffixes and case variants of each other and of its endpoint.
//
//vh:record
type Route interface {
	Get(a int) string
	GetAll(a int) string
	GetAllItems(a int, b string) string
	GETALL(a int) string
	Route(a int) string
	R(a int) string
	Reset()
	Raw(w http.ResponseWriter, r *http.Request)
	RawArg(w http.ResponseWriter, r *http.Request, a int) string
	Nothing()
	Äußern(a int) string
	Zz_9(a int) string
}

// Second shares method names with Route.
//
//vh:record
type Second interface {
	Get(a int) string
	Only(a int) string
	Reset()
}

// Third has one method only.
//
//vh:record
type Third interface {
	Get(a int) string
}
