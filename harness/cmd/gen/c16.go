package main

import (
	"database/sql/driver"
	"encoding/hex"
	"fmt"
	"reflect"
	"strconv"
	"strings"
	"time"

	"verifharness/emudb"
	"verifharness/gspec"
	"verifharness/pbt"
	"verifharness/rt"
)

func fromArg(a rt.Arg) driver.Value {
	switch a.T {
	case "nil":
		return nil
	case "bytes":
		b, _ := hex.DecodeString(a.V)
		return b
	case "string":
		b, _ := hex.DecodeString(a.V)
		return string(b)
	case "time":
		t, err := time.Parse(time.RFC3339Nano, a.V)
		must(err)
		return t
	case "float64":
		f, err := strconv.ParseFloat(a.V, 64)
		must(err)
		return f
	case "int64":
		n, err := strconv.ParseInt(a.V, 10, 64)
		must(err)
		return n
	case "uint64":
		n, err := strconv.ParseUint(a.V, 10, 64)
		must(err)
		return n
	case "bool":
		return a.V == "true"
	}
	panic("argument " + a.T)
}

func fromArgs(l []rt.Arg) []driver.Value {
	out := make([]driver.Value, len(l))
	for i, a := range l {
		out[i] = emudb.Norm(fromArg(a))
	}
	return out
}

func toAny(l []driver.Value) []any {
	out := make([]any, len(l))
	for i, v := range l {
		out[i] = v
	}
	return out
}

// kept is a value up to the distinction of text and bytes, which a driver may not keep.
func keptVal(v driver.Value) driver.Value {
	if b, ok := v.([]byte); ok {
		return string(b)
	}
	return v
}

func sameRow(a, b []driver.Value) bool {
	if len(a) != len(b) {
		return false
	}
	for i := range a {
		if !reflect.DeepEqual(keptVal(a[i]), keptVal(b[i])) {
			return false
		}
	}
	return true
}

// stmtTable is the table of one model.
type stmtTable struct {
	d       *emudb.DB
	name    string
	cols    []gspec.Column
	keys    []int
	dialect string
}

func quoteLite(s string) string { return `"` + strings.ReplaceAll(s, `"`, `""`) + `"` }

func (st *stmtTable) rows() [][]driver.Value {
	var l []string
	for _, c := range st.cols {
		l = append(l, quoteLite(c.Name))
	}
	return st.d.Raw("SELECT " + strings.Join(l, ",") + " FROM " + quoteLite(st.name) + " ORDER BY rowid")
}

func (st *stmtTable) fill(rows [][]driver.Value) {
	st.d.Raw("DELETE FROM " + quoteLite(st.name))
	for _, r := range rows {
		st.d.Raw("INSERT INTO "+quoteLite(st.name)+" VALUES (?"+strings.Repeat(",?", len(r)-1)+")", r...)
	}
}

func statements(t *pbt.T, m *mod, s *gspec.Spec, bin string) {
	_, dumps := m.child(t, bin, "dump")
	byName := map[string]*rt.Dump{}
	for _, d := range dumps {
		byName[d.Model] = d
	}
	for _, md := range s.Models() {
		runStatements(t, s, md, byName[md.Go])
	}
}

// numbered says that the placeholders of a PostgreSQL statement are $1 to $n in order.
func numbered(q string, n int) bool {
	k := 0
	for i := 0; i < len(q); i++ {
		if q[i] == '$' {
			k++
			if !strings.HasPrefix(q[i+1:], strconv.Itoa(k)) {
				return false
			}
		}
	}
	return k == n
}

func runStatements(t *pbt.T, s *gspec.Spec, md *gspec.Struct, d *rt.Dump) {
	cols := s.Columns(md)
	st := &stmtTable{d: emudb.New(s.Dialect), name: s.TableName(md), cols: cols, dialect: s.Dialect}
	defer st.d.Close()
	var names, insNames []string
	auto := -1
	for i, c := range cols {
		names = append(names, quoteLite(c.Name))
		if !c.Auto && !c.RO {
			insNames = append(insNames, c.Name)
		}
		if c.Auto {
			auto = i
		}
	}
	isKey := make([]bool, len(cols))
	for i, c := range cols {
		if i == auto || auto < 0 && c.PK {
			st.keys = append(st.keys, i)
			isKey[i] = true
		}
	}
	declared := func(i int) bool { return cols[i].PK || cols[i].Auto }
	st.d.Raw("CREATE TABLE " + quoteLite(st.name) + " (" + strings.Join(names, ",") + ")")
	db := st.d.SQL()
	defer db.Close()

	var rows [][]driver.Value
	var use []rt.RowDump
	seen := map[string]bool{}
	for _, r := range d.Rows {
		row := fromArgs(r.Row)
		var key []string
		for _, k := range st.keys {
			key = append(key, fmt.Sprintf("%#v", keptVal(row[k])))
		}
		k := strings.Join(key, "|")
		if len(st.keys) > 0 && seen[k] {
			continue
		}
		seen[k] = true
		rows = append(rows, row)
		use = append(use, r)
	}
	updatable := 0
	for i := range cols {
		if !isKey[i] && !cols[i].RO && !declared(i) {
			updatable++
		}
	}
	has := func(what string, got, want bool) {
		if got != want {
			t.Fail("statement missing", "%s: %s statement: %v, want %v (columns %v)", md.Go, what, got, want, cols)
		}
	}
	fail := func(what string, c *rt.Call, format string, a ...any) {
		t.Fail(what, "%s: %s\n%s\nargs %v", md.Go, fmt.Sprintf(format, a...), c.Query, fromArgs(c.Args))
	}
	check := func(what string, c *rt.Call) {
		if s.Dialect == "postgres" && !numbered(c.Query, len(c.Args)) {
			fail(what, c, "the placeholders are not $1 to $%d in order", len(c.Args))
		}
		if !strings.Contains(c.Query, s.MustIdent(st.name)) && !strings.Contains(c.Query, st.name) {
			fail(what, c, "the table is not %s", st.name)
		}
		t.NonTrivial(fmt.Sprint(s.Dialect, what, len(cols), len(st.keys), auto >= 0, len(insNames)))
	}
	for i, r := range use {
		row := rows[i]
		has("insert", r.Insert != nil, !md.Readonly && len(insNames) > 0)
		has("find", r.Find != nil, len(st.keys) > 0)
		has("update", r.Update != nil, len(st.keys) > 0 && !md.Readonly && updatable > 0)

		if c := r.Insert; c != nil {
			check("insert", c)
			st.fill(rows[:i])
			want := make([]driver.Value, len(cols))
			for j := range cols {
				if !cols[j].Auto && !cols[j].RO {
					want[j] = row[j]
				}
			}
			args := toAny(fromArgs(c.Args))
			if s.Dialect == "postgres" {
				rs, err := db.Query(c.Query, args...)
				if err != nil {
					fail("insert", c, "%v", err)
				}
				n := 0
				for rs.Next() {
					got := make([]any, len(cols))
					dst := make([]any, len(cols))
					for k := range got {
						dst[k] = &got[k]
					}
					if err := rs.Scan(dst...); err != nil {
						rs.Close()
						fail("insert", c, "RETURNING does not give the %d columns: %v", len(cols), err)
					}
					g := make([]driver.Value, len(cols))
					for k := range got {
						g[k] = got[k]
					}
					if !sameRow(g, want) {
						rs.Close()
						fail("insert", c, "RETURNING gives %v, want %v", g, want)
					}
					n++
				}
				rs.Close()
				if n != 1 {
					fail("insert", c, "RETURNING gives %d rows", n)
				}
			} else if res, err := db.Exec(c.Query, args...); err != nil {
				fail("insert", c, "%v", err)
			} else if n, _ := res.RowsAffected(); n != 1 {
				fail("insert", c, "%d rows affected", n)
			}
			got := st.rows()
			if len(got) != i+1 || !sameRow(got[i], want) {
				fail("insert", c, "the table holds %v, want %v in the end", got, want)
			}
		}
		if c := r.Find; c != nil {
			check("find", c)
			st.fill(rows)
			rs, err := db.Query(c.Query, toAny(fromArgs(c.Args))...)
			if err != nil {
				fail("find", c, "%v", err)
			}
			n := 0
			for rs.Next() {
				got := make([]any, len(cols))
				dst := make([]any, len(cols))
				for k := range got {
					dst[k] = &got[k]
				}
				if err := rs.Scan(dst...); err != nil {
					rs.Close()
					fail("find", c, "it does not give the %d columns: %v", len(cols), err)
				}
				g := make([]driver.Value, len(cols))
				for k := range got {
					g[k] = got[k]
				}
				if !sameRow(g, row) {
					rs.Close()
					fail("find", c, "it gives %v, want %v", g, row)
				}
				n++
			}
			rs.Close()
			if n != 1 {
				fail("find", c, "it gives %d rows, want the one with the key", n)
			}
		}
		// the row with the key holds other values before
		other := func() [][]driver.Value {
			out := make([][]driver.Value, len(rows))
			for k := range rows {
				out[k] = append([]driver.Value{}, rows[k]...)
			}
			src := rows[(i+1)%len(rows)]
			for j := range cols {
				if !isKey[j] {
					out[i][j] = src[j]
				}
			}
			return out
		}
		if c := r.Update; c != nil {
			check("update", c)
			before := other()
			st.fill(before)
			res, err := db.Exec(c.Query, toAny(fromArgs(c.Args))...)
			if err != nil {
				fail("update", c, "%v", err)
			}
			if n, _ := res.RowsAffected(); n != 1 {
				fail("update", c, "%d rows affected", n)
			}
			after := st.rows()
			for k := range before {
				want := append([]driver.Value{}, before[k]...)
				if k == i {
					for j := range cols {
						if !declared(j) && !cols[j].RO {
							want[j] = row[j]
						}
					}
				}
				if !sameRow(after[k], want) {
					fail("update", c, "row %d went from %v to %v, want %v", k, before[k], after[k], want)
				}
			}
		}
		if c := r.Delete; c != nil {
			check("delete", c)
			st.fill(rows)
			if _, err := db.Exec(c.Query, toAny(fromArgs(c.Args))...); err != nil {
				fail("delete", c, "%v", err)
			}
			after := st.rows()
			if len(after) != len(rows)-1 {
				fail("delete", c, "%d rows are left of %d", len(after), len(rows))
			}
			for k := range after {
				w := k
				if k >= i {
					w = k + 1
				}
				if !sameRow(after[k], rows[w]) {
					fail("delete", c, "another row is gone")
				}
			}
		}
	}
}

func init() {
	props["C16"] = func(s *pbt.Session) {
		s.Rule = "distinct (dialect, statement, number of columns, number of key columns, auto-increment, insertable columns) of the statements which were run"
		s.Run(pbt.Check{Name: "statements", Run: specCase("", gspec.Options{Structs: 8, KeyedOnly: true}, statements), Cases: 56, Thorough: 600, CaseTimeout: 5 * time.Minute, MaxShrink: 60, Limit: 100000})
	}
}
