// Package strconv has a name which means something else in generated code.
package strconv

type (
	Kind int
	Text string
	List []Kind
	Obj  struct{ A, B int }
)
