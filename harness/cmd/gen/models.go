package main

import (
	"fmt"
	"strings"
	"time"

	"verifharness/gspec"
	"verifharness/pbt"
)

func specCase(mode string, o gspec.Options, more func(t *pbt.T, m *mod, s *gspec.Spec, bin string)) func(t *pbt.T) {
	return func(t *pbt.T) {
		s := gspec.New(t, o)
		if len(s.Models()) == 0 {
			t.Discard()
		}
		m := newMod()
		defer m.remove()
		bin := m.buildSpec(t, s)
		for _, md := range s.Models() {
			for _, c := range s.Columns(md) {
				t.NonTrivial(fmt.Sprintf("%s %s %v%v%v %d", s.Dialect, c.Type, c.PK, c.Auto, c.RO, len(c.Path)))
			}
		}
		if mode != "" {
			m.child(t, bin, mode)
		}
		if more != nil {
			more(t, m, s, bin)
		}
	}
}

// nilGetters is the probe of a known finding: the getter of a field below a nil embedded pointer panics
// (testcase/struct-field/embedded and pointer pin the getters).
func nilGetters(t *pbt.T) {
	m := newMod()
	defer m.remove()
	m.write("src/model.go", `package src

type Base struct {
	Name string
}

type User struct {
	*Base
	Age int64
}
`)
	m.write("cmd/main.go", `package main

import (
	"fmt"

	"scratch/src"
)

func main() {
	fmt.Println("age", src.User{}.ColumnAge().Value())
	defer func() { fmt.Println("panic", recover()) }()
	fmt.Printf("name %q\n", src.User{}.ColumnName().Value())
}
`)
	if msg, ok := m.generate(t, map[string]any{"Source": []string{"./src"}, "Driver": "mysql", "SkipModTidy": true}); !ok {
		t.Fail("nil embeds", "%s", clip(msg, 800))
	}
	out, code := m.run("go", "run", "./cmd")
	if code != 0 || !strings.HasPrefix(out, "age 0\n") {
		t.Fail("nil embeds", "the getters of a model with a nil embedded pointer: exit code %d\n%s", code, clip(out, 2000))
	}
	if !strings.Contains(out, "panic <nil>") {
		t.Fail("getter below a nil embedded pointer", "%s", clip(out, 800))
	}
}

func init() {
	props["C11"] = func(s *pbt.Session) {
		s.Rule = "distinct (dialect, field type, key/auto/readonly, embedding depth) of the columns in the packages that were generated and compiled"
		s.Run(pbt.Check{Name: "package", Run: specCase("", gspec.Options{Structs: 8}, nil), Cases: 56, Thorough: 600, CaseTimeout: 5 * time.Minute, MaxShrink: 60, Limit: 100000})
	}
	props["C13"] = func(s *pbt.Session) {
		s.Rule = "as C11, of the columns whose methods were called"
		s.Run(pbt.Check{Name: "lines", Run: specCase("lines", gspec.Options{Structs: 8}, nil), Cases: 56, Thorough: 600, CaseTimeout: 5 * time.Minute, MaxShrink: 60, Limit: 100000})
	}
	props["C31"] = func(s *pbt.Session) {
		s.Rule = "as C11, of the columns whose getters were called"
		s.Run(pbt.Check{Name: "getters", Run: specCase("getters", gspec.Options{Structs: 8}, nil), Cases: 56, Thorough: 600, CaseTimeout: 5 * time.Minute, MaxShrink: 60, Limit: 100000})
		s.Fixed("nil embeds", nilGetters)
	}
	props["C14"] = func(s *pbt.Session) {
		s.Rule = "as C11, of the columns which were written and read back"
		s.Run(pbt.Check{Name: "trip", Run: specCase("trip", gspec.Options{Structs: 8}, nil), Cases: 56, Thorough: 600, CaseTimeout: 5 * time.Minute, MaxShrink: 60, Limit: 100000})
	}
}
