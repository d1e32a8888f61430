package main

import (
	"fmt"
	"strings"
	"time"

	"verifharness/gspec"
	"verifharness/pbt"
)

func handWritten(t *pbt.T) {
	s := gspec.New(t, gspec.Options{Structs: 6})
	s.DrawHand(t)
	n := 0
	for _, md := range s.Models() {
		n += len(md.Hand)
		for _, h := range md.Hand {
			t.Logf("%s has %s", md.Go, h)
		}
	}
	if n == 0 {
		t.Discard()
	}
	m := newMod()
	defer m.remove()
	bin := m.buildSpec(t, s)
	count, _ := m.child(t, bin, "hand")
	for k := range count {
		t.NonTrivial(fmt.Sprintf("%s %s", s.Dialect, k))
	}
}

// handColumns is the probe of a known finding: the insert statement of a model names the declared
// columns, also when the model has a method "Columns" (testcase/schema/custom-declare pins this).
func handColumns(t *pbt.T) {
	m := newMod()
	defer m.remove()
	m.write("src/model.go", `package src

type Pair struct {
	A string
	B string
}

func (Pair) Columns() []string { return []string{"b", "a"} }

func (v Pair) Values() []any { return []any{v.B, v.A} }

func (v *Pair) Addrs() []any { return []any{&v.B, &v.A} }
`)
	if msg, ok := m.generate(t, map[string]any{"Source": []string{"./src"}, "Driver": "mysql", "SkipModTidy": true}); !ok {
		t.Fail("hand columns", "%s", clip(msg, 800))
	}
	text, _ := m.read("src/generated.go")
	i := strings.Index(text, "InsertOneStmt()")
	if i < 0 {
		return // an insert asks the methods
	}
	q := text[i:]
	if j := strings.Index(q, "\n}"); j >= 0 {
		q = q[:j]
	}
	if a, b := strings.Index(q, "`a`"), strings.Index(q, "`b`"); a >= 0 && a < b && strings.Contains(q, "v.Values()") {
		t.Fail("InsertOneStmt names the declared columns", "Columns() is hand-written as b, a and so is Values(), but the statement is %s", q)
	}
}

// handEmbeds is the probe of a known finding: the statements of a model with an embedded field do not
// use its hand-written methods (they cannot be left to the runtime as those of other models are,
// because a statement of the embedded model would take their place).
func handEmbeds(t *pbt.T) {
	m := newMod()
	defer m.remove()
	m.write("src/model.go", `package src

type Base struct {
	ID   int64 `+"`"+`sql:",pk"`+"`"+`
	Name string
}

type User struct {
	Base
	Age int
}

func (User) HasPK() {}

func (v User) PK() (string, int, any) { return "hand", 0, "hand" }
`)
	if msg, ok := m.generate(t, map[string]any{"Source": []string{"./src"}, "Driver": "mysql", "SkipModTidy": true}); !ok {
		t.Fail("hand embeds", "%s", clip(msg, 800))
	}
	text, _ := m.read("src/generated.go")
	i := strings.Index(text, "(v User) FindOneByPKStmt()")
	if i < 0 {
		t.Fail("hand embeds", "a statement of Base takes the place of that of User")
	}
	q := text[i:]
	if j := strings.Index(q, "\n}"); j >= 0 {
		q = q[:j]
	}
	if !strings.Contains(q, "v.PK()") {
		t.Fail("statements of a model which embeds another", "User has a hand-written PK(), but the statement is %s", q)
	}
}

func init() {
	props["C18"] = func(s *pbt.Session) {
		s.Rule = "distinct (dialect, hand-written method or dependent use) which was exercised"
		s.Run(pbt.Check{Name: "hand", Run: handWritten, Cases: 56, Thorough: 600, CaseTimeout: 5 * time.Minute, MaxShrink: 60, Limit: 100000})
		s.Fixed("hand columns", handColumns)
		s.Fixed("hand embeds", handEmbeds)
	}
}
