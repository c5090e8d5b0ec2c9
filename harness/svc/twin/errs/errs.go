// Package errs has the same name and type names as svc/errs.
package errs

import "fmt"

type Struct struct {
	Code int    `json:"code"`
	Text string `json:"text"`
}

func (e *Struct) Error() string { return fmt.Sprintf("struct error %d %s", e.Code, e.Text) }

type Scalar string

func (e Scalar) Error() string { return string(e) }
