// Package encoding has a name which means something else in generated code.
package encoding

type (
	Kind int
	Text string
	List []Kind
	Obj  struct{ A, B int }
)
