package dbt

import (
	"fmt"
	"math/rand/v2"
	"regexp"
	"strconv"
	"strings"
	"time"

	"verifharness/emudb"
	"verifharness/pbt"
)

func init() { Props["C29"] = c29 }

func c29(s *pbt.Session) {
	s.Rule = "an operation that sends values, run twice with others"
	s.Assume = []string{"MySQL and PostgreSQL are represented by an emulation on SQLite, which counts the placeholders",
		"limits, offsets and the number of rows or values belong to the shape of an operation"}
	s.Run(pbt.Check{Name: "values", Cases: 16000, Thorough: 400000, Run: values29})
}

var hostile = []string{"'", "''", "\"", "`", "\\", "\\'", "?", "$1", "--", "/*", ";", "%", "_", "'); DELETE FROM user; --", " OR 1=1 ", "é", "\n", ")", "$$", "#"}

// marks makes values which are nowhere else.
type marks struct {
	rng     *rand.Rand
	hostile bool
	n       int64
	text    []string // what must not be in a statement
}

func (g *marks) value(c Col) any {
	if c.Null && g.hostile && g.rng.IntN(4) == 0 {
		return nil
	}
	g.n++
	n := 700000000 + 104729*g.n%99999989 + 5
	if g.hostile {
		n += 100000000
	}
	word := "zq" + strconv.FormatInt(n, 10)
	if g.hostile {
		for i := g.rng.IntN(4); i >= 0; i-- {
			word += hostile[g.rng.IntN(len(hostile))]
		}
	}
	g.text = append(g.text, strconv.FormatInt(n, 10))
	switch c.Kind {
	case "int", "uint":
		if c.Bits == 8 {
			return n % 100
		}
		if g.hostile && c.Kind == "int" && g.rng.IntN(2) == 0 {
			return -n
		}
		return n
	case "bool":
		return n & 1
	case "float":
		return float64(n) + 0.5
	case "float32":
		f := float32(n)
		g.text = append(g.text, fmt.Sprint(f), strconv.FormatFloat(float64(f), 'f', -1, 32))
		return float64(f)
	case "string":
		return word
	case "bytes":
		return B(word)
	case "time":
		tm := time.Unix(n, n%1000*1000).UTC()
		g.text = append(g.text, tm.Format("15:04:05"))
		return tm.Format(emudb.TimeLayout)
	case "json":
		return fmt.Sprintf(`{"K":"zq%d","N":%d}`, n, n)
	}
	panic(c.Kind)
}

var numbered = regexp.MustCompile(`\$\d+`)

func values29(t *pbt.T) {
	k := pickKit(t)
	m := pickModel(t, k, func(*Model) bool { return true })
	sp := m.Spec
	seed := t.Uint64()
	mark := t.Mark()
	type run struct {
		log  []emudb.Stmt
		out  outcome
		o    op
		rows []Row
		g    *marks
	}
	one := func(t *pbt.T, hostile bool) run {
		g := &marks{rng: rand.New(rand.NewPCG(seed, 1)), hostile: hostile}
		t.Aux = g.value
		rows := sp.rows(t, 3)
		o := m.op(t, rows)
		t.Aux = nil
		w := newWorld(k, m)
		defer w.close()
		w.put(sp, rows)
		w.d.Logging(true)
		out := o.run(bg, w)
		return run{w.d.Log(), out, o, rows, g}
	}
	a := one(t, false)
	b := one(t.Again(mark), true)
	t.Logf("first: %s\n  on %s", a.o.text, showRows(sp, a.rows))
	t.Logf("then: %s\n  on %s", b.o.text, showRows(sp, b.rows))
	args := 0
	for i, r := range []run{a, b} {
		for _, st := range r.log {
			args += len(st.Args)
			t.Logf("run %d: %s %v", i+1, st.Query, st.Args)
		}
	}
	for i, r := range []run{a, b} {
		for _, st := range r.log {
			for _, x := range r.g.text {
				if strings.Contains(st.Query, x) {
					t.Fail("value in text", "run %d: the text of %q has a value (%s)", i+1, st.Query, x)
				}
			}
			if strings.ContainsAny(st.Query, "'") {
				t.Fail("literal", "run %d: the text %q has a literal", i+1, st.Query)
			}
			if _, err := emudb.Translate(k.Dialect, st.Query, len(st.Args)); err != nil {
				t.Fail("statement", "run %d: %v", i+1, err)
			}
			if k.Dialect == "postgres" {
				for j, p := range numbered.FindAllString(st.Query, -1) {
					if p != fmt.Sprintf("$%d", j+1) {
						t.Fail("order", "run %d: placeholder %d of %q is %s", i+1, j+1, st.Query, p)
					}
				}
			}
		}
	}
	if args > 0 {
		t.NonTrivial(pbt.Hash(k.Key(), sp.Go, a.o.text, b.o.text))
	}
	x, y := a.log, b.log
	if n := min(len(x), len(y)); a.o.name == "Page" {
		// how many pages there are depends on the rows
		x, y = x[:n], y[:n]
	}
	if len(x) != len(y) {
		t.Fail("count", "%d statements, then %d", len(x), len(y))
	}
	for i := range x {
		// what comes after the first pages is the end of the rows
		if x[i].Query != y[i].Query {
			t.Fail("text", "the text depends on the values:\n  %s\n  %s", x[i].Query, y[i].Query)
		}
		if len(x[i].Args) != len(y[i].Args) {
			t.Fail("arguments", "%d arguments, then %d", len(x[i].Args), len(y[i].Args))
		}
	}
}
