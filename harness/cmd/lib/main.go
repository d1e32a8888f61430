// Command lib checks the run-time library (sequel/...): properties C01 to C10.
package main

import (
	"fmt"
	"os"

	"verifharness/pbt"
)

var props = map[string]func(s *pbt.Session){}

func main() {
	if len(os.Args) < 2 || props[os.Args[1]] == nil {
		fmt.Fprintln(os.Stderr, "usage: lib PROPERTY")
		os.Exit(3)
	}
	s := pbt.NewSession(os.Args[1])
	s.Scale = 8
	props[os.Args[1]](s)
	os.Exit(s.Finish())
}
