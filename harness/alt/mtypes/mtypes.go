// Package mtypes has the name of another package the models import.
package mtypes

type Label int

type Geo struct {
	X, Y int
}

type Level string
