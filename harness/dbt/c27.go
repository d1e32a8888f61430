package dbt

import (
	"context"
	"database/sql/driver"
	"errors"
	"fmt"

	"verifharness/emudb"
	"verifharness/pbt"
)

func init() { Props["C27"] = c27 }

func c27(s *pbt.Session) {
	s.Rule = "a fault that strikes"
	s.Assume = []string{"MySQL and PostgreSQL are represented by an emulation on SQLite",
		"an error of closing a result set which was read to its end may go unreported: database/sql keeps it to itself"}
	s.Run(pbt.Check{Name: "fault", Cases: 12000, Thorough: 250000, Run: faults})
	s.Run(pbt.Check{Name: "unreadable row", Cases: 3000, Thorough: 60000, Run: unreadable})
}

var errFault = errors.New("injected fault")

func faults(t *pbt.T) {
	k := pickKit(t)
	m := pickModel(t, k, func(*Model) bool { return true })
	sp := m.Spec
	rows := sp.rows(t, 5)
	o := m.op(t, rows)
	t.Logf("table:\n    %s", showRows(sp, rows))
	t.Logf("%s", o.text)

	// without a fault
	fresh := func() *world {
		w := newWorld(k, m)
		w.put(sp, rows)
		return w
	}
	w := fresh()
	type at struct {
		step string
		n    int
	}
	var steps []at
	w.d.Fault(func(step string, n int) error {
		if step != "begin" && step != "affected" && step != "commit" {
			steps = append(steps, at{step, n})
		}
		return nil
	})
	full := o.run(bg, w)
	w.d.Fault(nil)
	end := w.table(sp)
	w.close()
	if len(steps) == 0 {
		t.Discard()
	}
	if full.err != nil {
		// ErrNoRows of a find, for example: the fault goes first
		t.Logf("without a fault: %v", full.err)
	}

	// with a fault at one of the steps
	i := t.N(len(steps))
	kind := t.N(5) // an error, a bad connection, cancelled at the step, cancelled before, a row which can't be read
	if kind == 4 {
		var next []int
		for j := range steps {
			if steps[j].step == "next" {
				next = append(next, j)
			}
		}
		if len(next) == 0 {
			t.Discard()
		}
		i = next[t.N(len(next))]
	}
	w = fresh()
	defer w.close()
	ctx, cancel := context.WithCancel(bg)
	defer cancel()
	if kind == 3 {
		cancel()
	}
	t.Logf("fault %d at %s %d", kind, steps[i].step, steps[i].n)
	j, struck := 0, false
	w.d.Fault(func(step string, n int) error {
		if step == "begin" || step == "affected" || step == "commit" {
			return nil
		}
		if j++; j-1 != i {
			return nil
		}
		struck = true
		switch kind {
		case 0:
			return errFault
		case 1:
			return driver.ErrBadConn
		case 2:
			cancel()
		case 4:
			return emudb.ErrSpoil
		}
		return nil
	})
	got := o.run(ctx, w)
	w.d.Fault(nil)
	w.settled(t, "the fault")
	if kind == 4 && w.d.Spoiled == 0 {
		t.Discard() // the end of the rows, or no number in them
	}
	if struck || kind == 3 {
		t.NonTrivial(fmt.Sprint(k.Key(), sp.Go, o.name, steps[i], kind, len(rows)))
	}
	step := steps[i].step
	complete := got.same(full)
	switch {
	case kind == 3:
		if !errors.Is(got.err, context.Canceled) {
			t.Fail("cancelled", "with a cancelled context: %s", got.show(sp))
		}
	case kind == 2:
		// it finishes, or it tells
		if got.err == nil && !complete {
			t.Fail("partial result", "cancelled at %s: %s\nthe full result is %s", step, got.show(sp), full.show(sp))
		}
		if got.err != nil && !complete && !errors.Is(got.err, context.Canceled) {
			t.Fail("other error", "cancelled at %s: %v", step, got.err)
		}
	case kind == 1 && (step == "exec" || step == "query") && o.name != "Lock" || kind == 1 && step == "connect":
		// it is tried again on another connection
		if !complete {
			t.Fail("not retried", "after a bad connection: %s\nthe full result is %s", got.show(sp), full.show(sp))
		}
	case kind == 4:
		if got.err == nil {
			t.Fail("unreadable row", "a row can't be read (%s %d): %s\nthe full result is %s", step, steps[i].n, got.show(sp), full.show(sp))
		}
		if (o.name == "Query" || o.name == "QueryOne") && len(got.rows) > 0 {
			t.Fail("rows with error", "a row can't be read: %s", got.show(sp))
		}
	case step == "rowsclose":
		if got.err == nil && !complete {
			t.Fail("partial result", "fault at %s: %s\nthe full result is %s", step, got.show(sp), full.show(sp))
		}
	default:
		want := errFault
		if kind == 1 {
			want = driver.ErrBadConn
		}
		if !errors.Is(got.err, want) {
			t.Fail("error not reported", "fault at %s %d: %s\nthe full result is %s", step, steps[i].n, got.show(sp), full.show(sp))
		}
		if (o.name == "Query" || o.name == "QueryOne") && len(got.rows) > 0 {
			t.Fail("rows with error", "fault at %s %d: %s", step, steps[i].n, got.show(sp))
		}
	}
	if o.name == "Page" && (len(got.rows) > len(full.rows) || !sameList(got.rows, full.rows[:len(got.rows)])) {
		t.Fail("partial result", "fault at %s %d: the pages have %s\nthe full result is %s", step, steps[i].n, got.show(sp), full.show(sp))
	}
	// nothing is done by half
	after := w.table(sp)
	if !sameSet(after, rows) && !sameSet(after, end) {
		t.Fail("done by half", "after a fault at %s the table has\n    %s", step, showRows(sp, after))
	}
	if got.err == nil && !sameSet(after, end) {
		t.Fail("done by half", "the operation reports no error after a fault at %s, but the table has\n    %s", step, showRows(sp, after))
	}
	// later operations work
	l, err := m.Query(bg, w.db, Select{})
	if err != nil {
		t.Fail("later operation", "after the fault: %v", err)
	}
	if !sameSet(m.elems(l), after) {
		t.Fail("later operation", "after the fault a query gives\n    %s", showRows(sp, m.elems(l)))
	}
}

// unreadable: a row of the table can't be read into the model.
func unreadable(t *pbt.T) {
	k := pickKit(t)
	m := pickModel(t, k, func(m *Model) bool {
		for _, c := range m.Spec.Cols {
			if c.Kind == "float" || c.Kind == "int" && !m.Spec.Auto {
				return true
			}
		}
		return false
	})
	sp := m.Spec
	w := newWorld(k, m)
	defer w.close()
	rows := sp.rows(t, 5)
	w.put(sp, rows)
	if len(rows) == 0 {
		t.Discard()
	}
	var cols []int
	for i, c := range sp.Cols {
		if (c.Kind == "float" || c.Kind == "int") && !sp.isKey(i) {
			cols = append(cols, i)
		}
	}
	if len(cols) == 0 {
		t.Discard()
	}
	col := sp.Cols[cols[t.N(len(cols))]]
	at := t.N(len(rows))
	w.d.Raw("UPDATE "+sp.full()+" SET "+lite(col.Name)+" = 'not a number' WHERE rowid IN (SELECT rowid FROM "+sp.full()+" ORDER BY rowid LIMIT 1 OFFSET ?)", int64(at))
	t.Logf("table:\n    %s", showRows(sp, rows))
	t.Logf("%s of row %d is 'not a number'", col.Name, at)
	t.NonTrivial(fmt.Sprint(k.Key(), sp.Go, col.Name, at, len(rows)))
	var rowsGot []Row
	var err error
	what := "QueryStmt"
	switch n := t.N(3); {
	case n == 0 && keyed(m):
		what = "paging"
		for l, e := range m.Page(Page{Limit: uint16(1 + t.N(6))})(bg, w.db, t.Bool(), nil) {
			if e != nil {
				err = e
			} else {
				rowsGot = m.elems(l)
			}
		}
		rowsGot = nil
	case n == 1 && keyed(m):
		what = "FindByPK"
		err = m.Find(bg, w.db, m.withKey(rows[at]))
	default:
		var l any
		l, err = m.Query(bg, w.db, Select{})
		rowsGot = m.elems(l)
	}
	t.Logf("%s", what)
	w.settled(t, what)
	if err == nil || len(rowsGot) > 0 {
		t.Fail("unreadable row", "%s of a row which can't be read: error %v, rows\n    %s", what, err, showRows(sp, rowsGot))
	}
}
