// Package driver has a name which means something else in generated code.
package driver

type (
	Kind int
	Text string
	List []Kind
	Obj  struct{ A, B int }
)
