package dbt

import (
	"context"
	"database/sql"
	"fmt"

	"github.com/si3nloong/sqlgen/sequel"
	"verifharness/pbt"
)

// op is an operation, with its arguments; it can run again and again.
type op struct {
	name string
	text string
	m    *Model
	// the rows it gives are read from several, so a fault may cut them
	many bool
	run  func(ctx context.Context, w *world) outcome
}

// outcome is what an operation gives.
type outcome struct {
	err  error
	rows []Row
	n    int64 // rows affected
	// of pages: the rows which came before the error
	partial bool
}

func (o outcome) same(p outcome) bool {
	return (o.err == nil) == (p.err == nil) && (o.err == nil || o.err.Error() == p.err.Error()) && sameList(o.rows, p.rows) && o.n == p.n
}

func (o outcome) show(s *Spec) string {
	return fmt.Sprintf("error %v, %d affected, rows\n    %s", o.err, o.n, showRows(s, o.rows))
}

var opNames = []string{"InsertOne", "Insert", "UpsertOne", "Upsert", "Find", "Update", "Delete", "Lock", "Query", "QueryOne", "ExecUpd", "ExecDel", "Page"}

func count(res sql.Result) int64 {
	if res == nil {
		return -1
	}
	n, err := res.RowsAffected()
	if err != nil {
		return -2
	}
	return n
}

// someKey gives the key of a row of the table, or of none.
func someKey(t *pbt.T, s *Spec, rows []Row) Row {
	r, _ := some(t, s, rows)
	return r
}

func (m *Model) op(t *pbt.T, rows []Row) op {
	names := opNames
	if !keyed(m) {
		names = []string{"InsertOne", "Insert", "Query", "QueryOne", "ExecUpd", "ExecDel"}
	}
	return m.opNamed(t, names[t.N(len(names))], rows)
}

// opNamed draws the arguments of an operation on a table with the rows.
func (m *Model) opNamed(t *pbt.T, name string, rows []Row) op {
	s := m.Spec
	o := op{name: name, m: m}
	u := newUses(s, rows)
	fresh := func() Row {
		r := s.row(t, u, 0)
		if f, ok := t.Aux.(func(Col) any); ok && s.Auto {
			r[s.Key[0]] = f(s.Cols[s.Key[0]])
		}
		if !s.Auto {
			u.add(s, r)
		}
		return r
	}
	upsert := func() (UpsertOpt, []Row) {
		uo := UpsertOpt{Override: true}
		if t.P(1, 3) {
			uo.Override, uo.DoNothing = false, m.K.Dialect == "postgres"
		}
		if t.P(1, 3) {
			uo.Omit = []string{m.name(t.N(len(s.Cols)))}
		}
		n := 1
		if name == "Upsert" {
			n = 1 + t.N(3)
		}
		var l []Row
		for i := 0; i < n; i++ {
			r := fresh()
			if !s.Auto && i == 0 && t.P(1, 2) && len(rows) > 0 {
				// the row conflicts by its key and by nothing else
				for _, k := range s.Key {
					r[k] = rows[0][k]
				}
			}
			l = append(l, r)
		}
		return uo, l
	}
	switch name {
	case "InsertOne":
		r := fresh()
		o.text = s.show(r)
		o.run = func(ctx context.Context, w *world) outcome {
			v := m.make(r)
			res, err := m.InsertOne(ctx, w.db, v)
			return outcome{err: err, rows: []Row{s.canon(v)}, n: count(res)}
		}
	case "Insert":
		var l []Row
		for n := 1 + t.N(4); n > 0; n-- {
			l = append(l, fresh())
		}
		o.text = showRows(s, l)
		o.many = m.K.Dialect == "postgres"
		o.run = func(ctx context.Context, w *world) outcome {
			data := m.slice(l)
			res, err := m.Insert(ctx, w.db, data)
			return outcome{err: err, rows: m.elems(data), n: count(res)}
		}
	case "UpsertOne":
		uo, l := upsert()
		o.text = fmt.Sprintf("%+v %s", uo, s.show(l[0]))
		o.run = func(ctx context.Context, w *world) outcome {
			v := m.make(l[0])
			res, err := m.UpsertOne(ctx, w.db, v, uo)
			return outcome{err: err, rows: []Row{s.canon(v)}, n: count(res)}
		}
	case "Upsert":
		uo, l := upsert()
		o.text = fmt.Sprintf("%+v %s", uo, showRows(s, l))
		o.many = m.K.Dialect == "postgres"
		o.run = func(ctx context.Context, w *world) outcome {
			data := m.slice(l)
			res, err := m.Upsert(ctx, w.db, data, uo)
			return outcome{err: err, rows: m.elems(data), n: count(res)}
		}
	case "Find":
		r := someKey(t, s, rows)
		o.text = s.show(r)
		o.run = func(ctx context.Context, w *world) outcome {
			v := m.withKey(r)
			err := m.Find(ctx, w.db, v)
			return outcome{err: err, rows: []Row{s.canon(v)}}
		}
	case "Lock":
		r := someKey(t, s, rows)
		o.text = s.show(r)
		mode := t.N(m.K.Locks)
		o.run = func(ctx context.Context, w *world) outcome {
			tx, err := w.db.BeginTx(bg, nil)
			if err != nil {
				return outcome{err: err}
			}
			v := m.withKey(r)
			err = m.Lock(ctx, tx, v, mode)
			out := outcome{err: err, rows: []Row{s.canon(v)}}
			if e := tx.Rollback(); e != nil && out.err == nil {
				out.err = fmt.Errorf("rollback: %w", e)
			}
			return out
		}
	case "Update", "Delete":
		r := someKey(t, s, rows).clone()
		for i, c := range s.Cols {
			if !s.isKey(i) && !c.Unique {
				r[i] = value(t, c)
			}
		}
		ptr := t.Bool()
		o.text = fmt.Sprint(ptr, " ", s.show(r))
		o.run = func(ctx context.Context, w *world) outcome {
			v := m.make(r)
			f := m.Update
			if name == "Delete" {
				f = m.Delete
			}
			res, err := f(ctx, w.db, v, ptr)
			return outcome{err: err, rows: []Row{s.canon(v)}, n: count(res)}
		}
	case "Query", "QueryOne":
		var q Select
		if t.P(3, 4) {
			c := m.cond(t, rows, 2)
			q.Where = c.clause
			o.text = c.text
		}
		q.OrderBy = m.ordering(t, 2, true).clauses
		if name == "QueryOne" {
			o.run = func(ctx context.Context, w *world) outcome {
				v, err := m.QueryOne(ctx, w.db, q)
				if v == nil {
					return outcome{err: err}
				}
				return outcome{err: err, rows: []Row{s.canon(v)}}
			}
			break
		}
		if t.P(1, 3) {
			q.Limit = uint16(1 + t.N(3))
		}
		if t.P(1, 3) {
			q.Offset = uint64(t.N(3))
		}
		o.many = true
		o.run = func(ctx context.Context, w *world) outcome {
			l, err := m.Query(ctx, w.db, q)
			return outcome{err: err, rows: m.elems(l)}
		}
	case "ExecUpd", "ExecDel":
		c, set, text := m.assignment(t, rows)
		if t.P(4, 5) {
			cc := m.cond(t, rows, 2)
			c.Where = cc.clause
			text += " where " + cc.text
		}
		if len(set) == 0 {
			o.name = "ExecDel"
		}
		o.text = text
		f := m.ExecUpd
		if o.name == "ExecDel" {
			f = m.ExecDel
		}
		o.run = func(ctx context.Context, w *world) outcome {
			res, err := f(ctx, w.db, c)
			return outcome{err: err, n: count(res)}
		}
	case "Page":
		p := Page{Limit: uint16(1 + t.N(3))}
		if t.P(1, 2) {
			c := m.cond(t, rows, 1)
			p.Where = c.clause
			o.text = c.text
		}
		ord := m.ordering(t, 2, false)
		p.OrderBy = ord.clauses
		o.text += " order by " + ord.text(s)
		prev := t.Bool()
		var cur Row
		if t.P(1, 2) {
			cur = someKey(t, s, rows)
			o.text += " from " + s.show(cur)
		}
		o.many = true
		o.run = func(ctx context.Context, w *world) outcome {
			var out outcome
			var cursor any
			if cur != nil {
				cursor = m.make(cur)
			}
			for l, err := range m.Page(p)(ctx, w.db, prev, cursor) {
				if err != nil {
					out.err = err
					out.partial = true
					continue
				}
				out.rows = append(out.rows, m.elems(l)...)
				if len(out.rows) > 5000 {
					out.err = fmt.Errorf("endless paging")
					return out
				}
			}
			return out
		}
	}
	o.text = o.name + " " + o.text
	return o
}

var _ sequel.WhereClause
