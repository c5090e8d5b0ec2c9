package twin

type Twin struct {
	A, B int
	Next *Twin
}

// Api has the name and a method of the service next door.
//
//vh:record
type Api interface {
	One(a int) int
	Twin(t Twin) Twin
}
