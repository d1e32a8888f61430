// Package right has a type of the same name as one of package mtypes.
package right

type Meta struct {
	RightNote string
	RightN    *int64
}
