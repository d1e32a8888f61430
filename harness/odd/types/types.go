// Package types has a name which means something else in generated code.
package types

type (
	Kind int
	Text string
	List []Kind
	Obj  struct{ A, B int }
)
