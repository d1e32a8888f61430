package dbt

import (
	"database/sql"
	"strings"

	"fmt"

	"verifharness/pbt"
)

func init() { Props["C25"] = c25 }

func c25(s *pbt.Session) {
	s.Rule = "a change of some but not all rows of the table"
	s.Assume = []string{"MySQL and PostgreSQL are represented by an emulation on SQLite which refuses what they refuse",
		"order and limit are not used with PostgreSQL, which has none in these statements"}
	s.Run(pbt.Check{Name: "change", Cases: 30000, Thorough: 900000, Run: changes})
}

// assignment draws the columns to set: neither keys nor unique columns.
func (m *Model) assignment(t *pbt.T, rows []Row) (c Change, set map[int]any, text string) {
	s := m.Spec
	set = map[int]any{}
	var cols []int
	for i, c := range s.Cols {
		if !s.isKey(i) && !c.Unique {
			cols = append(cols, i)
		}
	}
	if len(cols) == 0 {
		return
	}
	var l []string
	for n := 1 + t.N(3); n > 0; n-- {
		i := cols[t.N(len(cols))]
		if _, ok := set[i]; ok {
			continue
		}
		v := operand(t, s, i, rows)
		name := s.Cols[i].Name
		if m.Cols[name+"^"] != nil && t.P(1, 4) {
			c.Set = append(c.Set, m.Cols[name+"^"].Set(v))
			l = append(l, fmt.Sprintf("%s = upper(%#v)", name, v))
			v = upperASCII(v.(string))
		} else {
			c.Set = append(c.Set, m.Cols[name].Set(v))
			l = append(l, fmt.Sprintf("%s = %#v", name, v))
		}
		set[i] = v
	}
	return c, set, strings.Join(l, ", ")
}

func changes(t *pbt.T) {
	k := pickKit(t)
	m := pickModel(t, k, func(*Model) bool { return true })
	sp := m.Spec
	w := newWorld(k, m)
	defer w.close()
	target := sp
	rows := sp.rows(t, 6)
	w.put(sp, rows)
	t.Logf("table:\n    %s", showRows(sp, rows))
	var other []Row
	if t.P(1, 6) {
		target = sp.copyOf()
		for _, ddl := range target.DDL() {
			w.d.Raw(ddl)
		}
		other = rows
		rows = sp.rows(t, 5)
		w.put(target, rows)
		t.Logf("copy:\n    %s", showRows(sp, rows))
	}
	for n := 1 + t.N(2); n > 0; n-- {
		c, set, text := m.assignment(t, rows)
		del := set == nil || len(set) == 0 || t.P(1, 3)
		if target != sp {
			c.Table = target.Table
		}
		var where *cond
		if t.P(9, 10) {
			cc := m.cond(t, rows, 3)
			where = &cc
			c.Where = cc.clause
			text += " where " + cc.text
		}
		matches := selected(rows, where)
		if k.Dialect != "postgres" && keyed(m) && t.P(1, 3) {
			o := m.ordering(t, 2, true)
			c.OrderBy = o.clauses
			c.Limit = limit(t, 4) - 1
			text += fmt.Sprintf(" order by %s limit %d", o.text(sp), c.Limit)
			matches = o.sort(k.Dialect, matches)
			if c.Limit > 0 && len(matches) > int(c.Limit) {
				matches = matches[:c.Limit]
			}
		}
		if len(matches) > 0 && len(matches) < len(rows) {
			t.NonTrivial(pbt.Hash(k.Key(), sp.Go, text, del, len(rows)))
		}
		var next []Row
		left := map[string]int{}
		for _, r := range matches {
			left[fmt.Sprintf("%#v", []any(r))]++
		}
		for _, r := range rows {
			key := fmt.Sprintf("%#v", []any(r))
			if left[key] == 0 {
				next = append(next, r)
				continue
			}
			left[key]--
			if del {
				continue
			}
			r = r.clone()
			for i, v := range set {
				r[i] = v
			}
			next = append(next, r)
		}
		var res sql.Result
		var err error
		what := "ExecStmt update"
		if del {
			what = "ExecStmt delete"
			t.Logf("delete%s", text)
			res, err = m.ExecDel(bg, w.db, c)
		} else {
			t.Logf("update set %s", text)
			res, err = m.ExecUpd(bg, w.db, c)
		}
		w.settled(t, what)
		if err != nil {
			t.Fail(what+" error", "%s: %v", what, err)
		}
		affected(t, res, int64(len(matches)), what)
		w.expectTable(t, target, next, what)
		if target != sp {
			w.expectTable(t, sp, other, what+" of the copy")
		}
		rows = next
	}
}
