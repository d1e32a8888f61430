// Package val has a name which means something else in generated code.
package val

type (
	Kind int
	Text string
	List []Kind
	Obj  struct{ A, B int }
)
