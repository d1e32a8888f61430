package dbt

import (
	"fmt"
	"reflect"

	"verifharness/pbt"
)

func init() { Props["C22"] = c22 }

func c22(s *pbt.Session) {
	s.Rule = "a batch of two or more rows"
	s.Assume = []string{"MySQL and PostgreSQL are represented by an emulation on SQLite which refuses what they refuse"}
	s.Run(pbt.Check{Name: "batch", Cases: 24000, Thorough: 600000, Run: func(t *pbt.T) { batch(t, 6) }})
	s.Run(pbt.Check{Name: "long batch", Cases: 120, Thorough: 3000, Run: func(t *pbt.T) { batch(t, 300) }})
	s.Run(pbt.Check{Name: "huge batch", Cases: 16, Thorough: 300, MaxShrink: 20, Limit: 4000000, Run: hugeBatch})
}

func batch(t *pbt.T, max int) {
	k := pickKit(t)
	m := pickModel(t, k, func(*Model) bool { return true })
	sp := m.Spec
	w := newWorld(k, m)
	defer w.close()
	state := sp.rows(t, 3)
	w.put(sp, state)
	t.Logf("table:\n    %s", showRows(sp, state))
	for n := 1 + t.N(2); n > 0; n-- {
		state = insertBatch(t, w, m, state, t.N(max+1))
	}
}

// hugeBatch: about as many rows as a statement may have values.
func hugeBatch(t *pbt.T) {
	k := pickKit(t)
	m := pickModel(t, k, func(m *Model) bool { return len(m.Spec.Cols) <= 4 })
	sp := m.Spec
	w := newWorld(k, m)
	defer w.close()
	w.put(sp, nil)
	insertBatch(t, w, m, nil, 300+t.N(32000/len(sp.Cols)-300))
}

func insertBatch(t *pbt.T, w *world, m *Model, state []Row, n int) []Row {
	sp := m.Spec
	u := newUses(sp, state)
	rows := make([]Row, n)
	conflict := false
	for i := range rows {
		rows[i] = sp.row(t, u, int64(t.N(3)*400))
		if !conflict && t.P(1, max(12, 3*(n-300))) && (i > 0 || len(state) > 0) {
			other := rows[0]
			if i == 0 || len(state) > 0 && t.Bool() {
				other = state[t.N(len(state))]
			}
			if !sp.Auto {
				for _, k := range sp.Key {
					rows[i][k] = other[k]
					conflict = true
				}
			}
			for j, c := range sp.Cols {
				if c.Unique {
					rows[i][j] = other[j]
					conflict = true
				}
			}
		}
		if !sp.Auto || !u.clash(sp, rows[i]) {
			u.add(sp, rows[i])
		}
		if sp.Auto {
			delete(u.keys, sp.keyOf(rows[i]))
		}
	}
	data := m.slice(rows)
	if n == 0 && t.Bool() {
		data = reflect.Zero(reflect.TypeOf(data)).Interface()
	}
	if n <= 8 {
		t.Logf("Insert\n    %s", showRows(sp, rows))
	} else {
		t.Logf("Insert of %d rows", n)
	}
	if n >= 2 {
		t.NonTrivial(fmt.Sprint(m.K.Key(), sp.Go, n, len(state), conflict))
	}
	before := w.d.Statements()
	res, err := m.Insert(bg, w.db, data)
	w.settled(t, "Insert")
	behind := reflect.ValueOf(data)
	if behind.Cap() > n {
		all := m.elems(behind.Slice(0, behind.Cap()).Interface())
		zero := sp.canon(m.New())
		for _, r := range all[n:] {
			if !r.eq(zero) {
				t.Fail("beyond the slice", "Insert wrote %s behind the end of the slice", sp.show(r))
			}
		}
	}
	if n == 0 {
		if err != nil {
			t.Fail("Insert error", "Insert of nothing: %v", err)
		}
		if w.d.Statements() != before {
			t.Fail("not a no-op", "Insert of nothing ran a statement")
		}
		affected(t, res, 0, "Insert of nothing")
		w.expectTable(t, sp, state, "Insert of nothing")
		return state
	}
	if conflict {
		if err == nil {
			t.Fail("no error", "Insert of a row which is there already: no error")
		}
		w.expectTable(t, sp, state, "the failed Insert")
		if got := m.elems(data); m.K.Dialect != "postgres" && !sameList(got, rows) {
			t.Fail("argument changed", "the failed Insert changed the slice to\n    %s", showRows(sp, got))
		}
		return state
	}
	if err != nil {
		t.Fail("Insert error", "Insert: %v", err)
	}
	affected(t, res, int64(n), "Insert")
	after := w.table(sp)
	got := m.elems(data)
	if len(after) != len(state)+n {
		t.Fail("table", "after Insert of %d rows the table has %d more rows", n, len(after)-len(state))
	}
	// the new rows, in the order in which they were inserted
	fresh := after[len(state):]
	if !sp.Auto && len(sp.Key) > 0 {
		// any order of insertion is fine, the keys tell them apart
		fresh = make([]Row, 0, n)
		at := map[string]int{}
		for i, r := range after {
			at[sp.keyOf(r)] = i
		}
		for _, r := range rows {
			i, ok := at[sp.keyOf(r)]
			if !ok {
				t.Fail("table", "after Insert there is no %s", sp.show(r))
			}
			fresh = append(fresh, after[i])
		}
	}
	for i, r := range rows {
		want := sp.stored(r)
		if sp.Auto {
			want[sp.Key[0]] = fresh[i][sp.Key[0]]
			if i > 0 && fresh[i-1][sp.Key[0]].(int64) >= fresh[i][sp.Key[0]].(int64) {
				t.Fail("order", "the generated keys are not in the order of the rows")
			}
		}
		if !fresh[i].eq(want) {
			t.Fail("inserted row", "Insert stored %s as row %d, expected %s", sp.show(fresh[i]), i, sp.show(want))
		}
		elem := r
		if m.K.Dialect == "postgres" {
			elem = want
		}
		if !got[i].eq(elem) {
			t.Fail("element", "after Insert element %d is %s, expected %s", i, sp.show(got[i]), sp.show(elem))
		}
	}
	want := append(append([]Row{}, state...), fresh...)
	w.expectTable(t, sp, want, "Insert")
	return want
}
