package dbt

import (
	"database/sql"
	"errors"
	"fmt"
	"sort"
	"strconv"
	"strings"

	"verifharness/pbt"
)

func init() { Props["C24"] = c24 }

func c24(s *pbt.Session) {
	s.Rule = "a query with a condition which some rows fulfil and some don't"
	s.Assume = []string{"MySQL and PostgreSQL are represented by an emulation on SQLite which refuses what they refuse",
		"text compares by its bytes; patterns have no backslash"}
	s.Run(pbt.Check{Name: "query", Cases: 30000, Thorough: 900000, Run: func(t *pbt.T) { queries(t, 7) }})
	s.Run(pbt.Check{Name: "many rows", Cases: 100, Thorough: 3000, MaxShrink: 100, Limit: 200000, Run: func(t *pbt.T) { queries(t, 1500) }})
	s.Run(pbt.Check{Name: "groups", Cases: 3000, Thorough: 60000, Run: countGroups})
	s.Run(pbt.Check{Name: "no table", Cases: 24, Run: func(t *pbt.T) {
		k := pickKit(t)
		w := newWorld(k)
		defer w.close()
		what := t.N(4)
		t.Logf("helper %d", what)
		if err := k.Orphan(bg, w.db, what); err == nil {
			t.Fail("no error", "a statement for a model without a table: no error")
		}
	}})
}

// copyOf is a table with the columns of the model, and another name.
func (s *Spec) copyOf() *Spec {
	c := *s
	c.Table = "copy_" + s.Table
	return &c
}

// part compares the result of a query with the rows it should be taken from.
func part(t *pbt.T, m *Model, o ordering, matches, got []Row, offset, limit int, what string) {
	s := m.Spec
	want := o.sort(m.K.Dialect, matches)
	off := min(offset, len(want))
	end := len(want)
	if limit > 0 {
		end = min(end, off+limit)
	}
	want = want[off:end]
	bad := len(got) != len(want)
	for i := 0; i < len(want) && !bad; i++ {
		bad = o.compare(m.K.Dialect, got[i], want[i]) != 0
	}
	if bad {
		t.Fail(what, "%s gives\n    %s\nexpected\n    %s", what, showRows(s, got), showRows(s, want))
	}
	// every row is one of the matches, and none comes more often
	left := map[string]int{}
	for _, r := range matches {
		left[fmt.Sprintf("%#v", []any(r))]++
	}
	for _, r := range got {
		k := fmt.Sprintf("%#v", []any(r))
		if left[k]--; left[k] < 0 {
			t.Fail(what, "%s gives %s, which is no row of\n    %s", what, s.show(r), showRows(s, matches))
		}
	}
}

func (m *Model) columnNames() []string {
	var l []string
	for i := range m.Spec.Cols {
		l = append(l, m.name(i))
	}
	return l
}

// read is the expression which gives a column.
func (m *Model) read(i int) string {
	if m.Spec.Cols[i].Coded {
		return "peek(" + m.name(i) + ")"
	}
	return m.name(i)
}

func (m *Model) readAll() (l []string) {
	for i := range m.Spec.Cols {
		l = append(l, m.read(i))
	}
	return l
}

func queries(t *pbt.T, most int) {
	k := pickKit(t)
	m := pickModel(t, k, func(*Model) bool { return true })
	sp := m.Spec
	w := newWorld(k, m)
	defer w.close()
	rows := sp.rows(t, most)
	w.put(sp, rows)
	t.Logf("table:\n    %s", showRows(sp, rows))
	var s Select
	if t.P(1, 6) {
		other := sp.copyOf()
		for _, ddl := range other.DDL() {
			w.d.Raw(ddl)
		}
		rows = sp.rows(t, 5)
		w.put(other, rows)
		s.From = other.Table
		t.Logf("copy:\n    %s", showRows(sp, rows))
	}
	var c *cond
	if t.P(7, 8) {
		cc := m.cond(t, rows, 3)
		c = &cc
		s.Where = c.clause
		t.Logf("where %s", c.text)
	}
	o := m.ordering(t, 3, t.P(3, 4))
	s.OrderBy = o.clauses
	if t.P(1, 6) {
		s.Select = m.readAll()
	}
	matches := selected(rows, c)
	if t.P(1, 8) {
		s.GroupBy = m.columnNames()
		seen := map[string]bool{}
		var distinct []Row
		for _, r := range matches {
			if k := fmt.Sprintf("%#v", []any(r)); !seen[k] {
				seen[k] = true
				distinct = append(distinct, r)
			}
		}
		matches = distinct
	}
	if c != nil && len(matches) > 0 && len(matches) < len(rows) {
		t.NonTrivial(pbt.Hash(k.Key(), sp.Go, c.text, o.text(sp), len(rows)))
	}
	if t.P(1, 4) {
		t.Logf("QueryOneStmt order by %s, group %v", o.text(sp), s.GroupBy)
		v, err := m.QueryOne(bg, w.db, s)
		w.settled(t, "QueryOneStmt")
		if len(matches) == 0 {
			if !errors.Is(err, sql.ErrNoRows) {
				t.Fail("missing row", "QueryOneStmt without a matching row: %v", err)
			}
			return
		}
		if err != nil {
			t.Fail("QueryOneStmt error", "QueryOneStmt: %v", err)
		}
		part(t, m, o, matches, []Row{sp.canon(v)}, 0, 1, "QueryOneStmt")
		return
	}
	if t.P(1, 3) {
		s.Limit = limit(t, max(4, most-4))
	}
	if t.P(1, 3) {
		s.Offset = offset(t, 4)
	}
	t.Logf("QueryStmt order by %s, group %v, limit %d, offset %d", o.text(sp), s.GroupBy, s.Limit, s.Offset)
	l, err := m.Query(bg, w.db, s)
	w.settled(t, "QueryStmt")
	if err != nil {
		t.Fail("QueryStmt error", "QueryStmt: %v", err)
	}
	part(t, m, o, matches, m.elems(l), int(s.Offset), int(s.Limit), "QueryStmt")
	w.expectTable(t, sp, w.table(sp), "QueryStmt")
}

func countGroups(t *pbt.T) {
	k := pickKit(t)
	m := pickModel(t, k, func(m *Model) bool { return true })
	sp := m.Spec
	w := newWorld(k, m)
	defer w.close()
	rows := sp.rows(t, 10)
	w.put(sp, rows)
	t.Logf("table:\n    %s", showRows(sp, rows))
	var cols []int
	for i, c := range sp.Cols {
		if c.Kind == "string" || c.Kind == "int" {
			cols = append(cols, i)
		}
	}
	if len(cols) == 0 {
		t.Discard()
	}
	col := cols[t.N(len(cols))]
	c := m.cond(t, rows, 2)
	from := sp.Table
	if sp.DB != "" {
		from = sp.DB + "." + from
	}
	if k.Quoted {
		q := m.name(col)[:1]
		if sp.Pkg == "m" && sp.DB == "" {
			from = q + from + q
		}
	}
	ord := m.Cols[sp.Cols[col].Name].Asc()
	t.Logf("where %s group by %s", c.text, sp.Cols[col].Name)
	got, err := k.Groups(bg, w.db, Select{Select: []string{m.read(col), "COUNT(*)"}, From: from, Where: c.clause,
		GroupBy: []string{m.name(col)}, OrderBy: append(ordering{}.clauses, ord)})
	if err != nil {
		t.Fail("group error", "QueryStmt with groups: %v", err)
	}
	count := map[any]int64{}
	var keys []any
	for _, r := range selected(rows, &c) {
		if count[r[col]]++; count[r[col]] == 1 {
			keys = append(keys, r[col])
		}
	}
	o := ordering{cols: []int{0}, desc: []bool{false}}
	sort.SliceStable(keys, func(i, j int) bool { return o.compare(k.Dialect, Row{keys[i]}, Row{keys[j]}) < 0 })
	var want, have []string
	for _, key := range keys {
		want = append(want, fmt.Sprintf("%#v: %d", key, count[key]))
	}
	for _, g := range got {
		key := g.Key
		if b, ok := key.([]byte); ok {
			key = string(b)
		}
		if text, ok := key.(string); ok && sp.Cols[col].Kind == "int" {
			if n, err := strconv.ParseInt(text, 10, 64); err == nil {
				key = n
			}
		}
		have = append(have, fmt.Sprintf("%#v: %d", key, g.N))
	}
	if len(want) > 1 {
		t.NonTrivial(pbt.Hash(k.Key(), sp.Go, col, c.text, len(rows)))
	}
	if strings.Join(want, "\n") != strings.Join(have, "\n") {
		t.Fail("groups", "the groups are %q, expected %q", have, want)
	}
}
