// Command gen checks the code generator and the code it writes: properties C11 to C20
// here, and C21 to C30 in a program built from generated code.
package main

import (
	"fmt"
	"os"

	"verifharness/pbt"
)

var props = map[string]func(s *pbt.Session){}

func main() {
	if len(os.Args) < 2 || props[os.Args[1]] == nil {
		fmt.Fprintln(os.Stderr, "usage: gen PROPERTY")
		os.Exit(3)
	}
	s := pbt.NewSession(os.Args[1])
	props[os.Args[1]](s)
	os.Exit(s.Finish())
}
