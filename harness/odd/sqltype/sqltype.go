// Package sqltype has a name which means something else in generated code.
package sqltype

type (
	Kind int
	Text string
	List []Kind
	Obj  struct{ A, B int }
)
