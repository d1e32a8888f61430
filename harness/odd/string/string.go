// Package string has a name which means something else in generated code.
package string

type (
	Kind int
	Text string
	List []Kind
	Obj  struct{ A, B int }
)
