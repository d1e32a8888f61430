package dbt

import (
	"database/sql"
	"errors"
	"fmt"

	"verifharness/pbt"
)

func init() { Props["C21"] = c21 }

func c21(s *pbt.Session) {
	s.Rule = "a sequence with at least two operations on existing rows"
	s.Assume = []string{"MySQL and PostgreSQL are represented by an emulation on SQLite which refuses what they refuse"}
	s.Run(pbt.Check{Name: "history", Cases: 24000, Thorough: 600000, Run: history})
}

// pool21 are the rows the history inserts, finds, updates and deletes.
func history(t *pbt.T) {
	k := pickKit(t)
	m := pickModel(t, k, keyed)
	sp := m.Spec
	w := newWorld(k, m)
	defer w.close()
	state := sp.rows(t, 4)
	w.put(sp, state)
	t.Logf("table:\n    %s", showRows(sp, state))
	n := 1 + t.N(10)
	hits := 0
	for i := 0; i < n; i++ {
		state = step21(t, w, m, state, &hits)
		w.settled(t, "the operation")
	}
	if hits >= 2 {
		t.NonTrivial(fmt.Sprint(k.Key(), sp.Go, n, hits, len(state)))
	}
}

func (k *Kit) Key() string { return Variant{k.Dialect, k.Quoted}.Key() }

// some gives the key of a row of the table, or of none.
func some(t *pbt.T, s *Spec, state []Row) (Row, int) {
	if len(state) > 0 && !t.P(1, 4) {
		i := t.N(len(state))
		return state[i], i
	}
	r := s.row(t, newUses(s, state), int64(500+t.N(3)))
	return r, -1
}

// locks are the row locks in the order of the kit; SQLite has none.
var locks = map[string][]string{
	"mysql":    {"FOR UPDATE", "FOR SHARE"},
	"postgres": {"FOR UPDATE", "FOR NO KEY UPDATE", "FOR SHARE", "FOR KEY SHARE"},
	"sqlite":   {"", ""},
}

func step21(t *pbt.T, w *world, m *Model, state []Row, hits *int) []Row {
	sp := m.Spec
	switch op := t.N(6); op {
	case 0, 1: // insert
		return insertOne21(t, w, m, state, op == 1, hits)
	case 2, 3: // find, lock
		target, i := some(t, sp, state)
		v := m.withKey(target)
		before := sp.canon(v)
		name := "FindByPK"
		var err error
		if op == 2 {
			t.Logf("FindByPK %s", sp.show(before))
			err = m.Find(bg, w.db, v)
		} else {
			mode := t.N(m.K.Locks)
			name = "LockByPK"
			t.Logf("LockByPK(%d) %s", mode, sp.show(before))
			tx, e := w.db.Begin()
			if e != nil {
				panic(e)
			}
			err = m.Lock(bg, tx, v, mode)
			if got := w.d.RowLock(); got != locks[m.K.Dialect][mode] {
				t.Fail("lock", "LockByPK asked for the lock %q, expected %q", got, locks[m.K.Dialect][mode])
			}
			if e := tx.Commit(); e != nil {
				t.Fail("commit", "commit after %s: %v", name, e)
			}
		}
		switch {
		case i < 0 && !errors.Is(err, sql.ErrNoRows):
			t.Fail("missing row", "%s of a missing row: %v, expected %v", name, err, sql.ErrNoRows)
		case i >= 0 && err != nil:
			t.Fail(name+" error", "%s: %v", name, err)
		case i >= 0 && !sp.canon(v).eq(state[i]):
			t.Fail("found row", "%s gives %s, the row is %s", name, sp.show(sp.canon(v)), sp.show(state[i]))
		}
		if i >= 0 {
			*hits++
		}
		w.expectTable(t, sp, state, name)
	case 4: // update
		target, i := some(t, sp, state)
		u := newUses(sp, state)
		r := target.clone()
		for j, c := range sp.Cols {
			if !sp.isKey(j) && !(c.Unique && t.Bool()) {
				r[j] = value(t, c)
			}
		}
		_ = u
		v := m.make(r)
		ptr := t.Bool()
		t.Logf("UpdateByPK(pointer %v) %s", ptr, sp.show(r))
		res, err := m.Update(bg, w.db, v, ptr)
		if !sp.canon(v).eq(r) {
			t.Fail("argument changed", "UpdateByPK changed its argument %s to %s", sp.show(r), sp.show(sp.canon(v)))
		}
		if i < 0 {
			if err != nil {
				t.Fail("UpdateByPK error", "UpdateByPK of a missing row: %v", err)
			}
			affected(t, res, 0, "UpdateByPK of a missing row")
			w.expectTable(t, sp, state, "UpdateByPK of a missing row")
			return state
		}
		want := r.clone()
		for j, c := range sp.Cols {
			if c.RO {
				want[j] = state[i][j]
			}
		}
		rest := append(append([]Row{}, state[:i]...), state[i+1:]...)
		if newUses(sp, rest).clash(sp, want) {
			if err == nil {
				t.Fail("no error", "UpdateByPK to a value which another row has: no error")
			}
			w.expectTable(t, sp, state, "the failed UpdateByPK")
			return state
		}
		if err != nil {
			t.Fail("UpdateByPK error", "UpdateByPK: %v", err)
		}
		*hits++
		affected(t, res, 1, "UpdateByPK")
		state = append([]Row{}, state...)
		state[i] = want
		w.expectTable(t, sp, state, "UpdateByPK")
	case 5: // delete
		target, i := some(t, sp, state)
		v := m.withKey(target)
		before := sp.canon(v)
		ptr := t.Bool()
		t.Logf("DeleteByPK(pointer %v) %s", ptr, sp.show(before))
		res, err := m.Delete(bg, w.db, v, ptr)
		if err != nil {
			t.Fail("DeleteByPK error", "DeleteByPK: %v", err)
		}
		if !sp.canon(v).eq(before) {
			t.Fail("argument changed", "DeleteByPK changed its argument to %s", sp.show(sp.canon(v)))
		}
		if i < 0 {
			affected(t, res, 0, "DeleteByPK of a missing row")
		} else {
			*hits++
			affected(t, res, 1, "DeleteByPK")
			state = append(append([]Row{}, state[:i]...), state[i+1:]...)
		}
		w.expectTable(t, sp, state, "DeleteByPK")
	}
	return state
}

// newRow gives the row of the table which was not there before.
func newRow(t *pbt.T, sp *Spec, before, after []Row) (Row, []Row) {
	var found Row
	for _, r := range after {
		if sp.find(before, r) < 0 {
			if found != nil {
				t.Fail("table", "there are several new rows:\n    %s", showRows(sp, after))
			}
			found = r
		}
	}
	if found == nil {
		t.Fail("table", "there is no new row:\n    %s", showRows(sp, after))
	}
	return found, append(append([]Row{}, before...), found)
}

// stored is how a row is kept which is inserted; the key of auto is not known.
func (s *Spec) stored(r Row) Row {
	out := r.clone()
	for i, c := range s.Cols {
		if c.RO {
			out[i] = RODefault
		}
	}
	return out
}

func insertOne21(t *pbt.T, w *world, m *Model, state []Row, dup bool, hits *int) []Row {
	sp := m.Spec
	r := sp.row(t, newUses(sp, state), int64(t.N(3)*400))
	conflict := false
	if dup && len(state) > 0 {
		other := state[t.N(len(state))]
		if !sp.Auto {
			for _, k := range sp.Key {
				r[k] = other[k]
			}
			conflict = true
		}
		for i, c := range sp.Cols {
			if c.Unique && (sp.Auto || t.Bool()) {
				r[i] = other[i]
				conflict = true
			}
		}
	}
	v := m.make(r)
	t.Logf("InsertOne %s", sp.show(r))
	res, err := m.InsertOne(bg, w.db, v)
	if conflict {
		if err == nil {
			t.Fail("no error", "InsertOne of a row which is there already: no error")
		}
		w.expectTable(t, sp, state, "the failed InsertOne")
		return state
	}
	if err != nil {
		t.Fail("InsertOne error", "InsertOne: %v", err)
	}
	if m.K.Dialect != "postgres" {
		affected(t, res, 1, "InsertOne")
	}
	got, next := newRow(t, sp, state, w.table(sp))
	want := sp.stored(r)
	if sp.Auto {
		want[sp.Key[0]] = got[sp.Key[0]]
	}
	if !got.eq(want) {
		t.Fail("inserted row", "InsertOne stored %s, expected %s", sp.show(got), sp.show(want))
	}
	after := r.clone()
	if sp.Auto {
		after[sp.Key[0]] = got[sp.Key[0]]
	}
	if m.K.Dialect == "postgres" {
		after = got
	}
	if !sp.canon(v).eq(after) {
		t.Fail("inserted model", "after InsertOne the model is %s, expected %s", sp.show(sp.canon(v)), sp.show(after))
	}
	w.expectTable(t, sp, next, "InsertOne")
	if len(state) > 0 {
		*hits++
	}
	return next
}
