package dbt

import (
	"os"

	"verifharness/pbt"
)

// Props are the checks.
var Props = map[string]func(s *pbt.Session){}

// Main is the main function of the program of generated code.
func Main() {
	remember()
	s := pbt.NewSession(os.Args[1])
	Props[os.Args[1]](s)
	os.Exit(s.Finish())
}
