package dbt

import (
	"context"
	"database/sql"
	"errors"
	"fmt"
	"reflect"

	"github.com/si3nloong/sqlgen/sequel"
	"verifharness/pbt"
)

func init() { Props["C26"] = c26 }

func c26(s *pbt.Session) {
	s.Rule = "paging through at least two pages"
	s.Assume = []string{"MySQL and PostgreSQL are represented by an emulation on SQLite which refuses what they refuse",
		"the table does not change while paging"}
	s.Run(pbt.Check{Name: "paging", Cases: 16000, Thorough: 400000, Run: paging})
	s.Run(pbt.Check{Name: "default limit", Cases: 40, Thorough: 400, Run: longPaging})
}

// pageOrder is the order of the pages: the requested one, then the keys in the direction
// of the last requested column.
func (m *Model) pageOrder(o ordering, prev bool) ordering {
	out := ordering{cols: append([]int{}, o.cols...), desc: append([]bool{}, o.desc...)}
	desc := false
	if n := len(o.desc); n > 0 {
		desc = o.desc[n-1]
	}
	for _, k := range m.Spec.Key {
		seen := false
		for _, c := range out.cols {
			seen = seen || c == k
		}
		if !seen {
			out.cols = append(out.cols, k)
			out.desc = append(out.desc, desc)
		}
	}
	if prev {
		for i := range out.desc {
			out.desc[i] = !out.desc[i]
		}
	}
	return out
}

func paging(t *pbt.T) {
	k := pickKit(t)
	m := pickModel(t, k, keyed)
	sp := m.Spec
	w := newWorld(k, m)
	defer w.close()
	rows := sp.rows(t, 9)
	w.put(sp, rows)
	t.Logf("table:\n    %s", showRows(sp, rows))
	var p Page
	if t.P(1, 8) {
		other := sp.copyOf()
		for _, ddl := range other.DDL() {
			w.d.Raw(ddl)
		}
		rows = sp.rows(t, 7)
		w.put(other, rows)
		p.From = other.Table
		t.Logf("copy:\n    %s", showRows(sp, rows))
	}
	var c *cond
	if t.P(1, 2) {
		cc := m.cond(t, rows, 2)
		c = &cc
		p.Where = cc.clause
		t.Logf("where %s", cc.text)
	}
	o := m.ordering(t, 3, false)
	p.OrderBy = o.clauses
	p.Limit = limit(t, 4)
	if t.P(1, 8) {
		p.Select = m.readAll()
	}
	prev := t.Bool()
	t.Logf("order by %s, limit %d, backwards %v", o.text(sp), p.Limit, prev)
	want := m.pageOrder(o, prev).sort(k.Dialect, selected(rows, c))
	var cursor any
	if t.P(1, 2) {
		if len(rows) > 0 && t.P(7, 8) {
			row := rows[t.N(len(rows))]
			cursor = m.withKey(row)
			t.Logf("cursor %s", sp.show(row))
			// the rows from the cursor on, whether the filter has it or not
			full := m.pageOrder(o, prev)
			var rest []Row
			for _, r := range want {
				if full.compare(k.Dialect, r, row) >= 0 {
					rest = append(rest, r)
				}
			}
			want = rest
		} else {
			missing := sp.row(t, newUses(sp, rows), 1<<40)
			cursor = m.make(missing)
			t.Logf("cursor %s, which does not exist", sp.show(missing))
			got, _, err := walk(t, w, m, p, prev, cursor, -1, bg)
			if !errors.Is(err, sql.ErrNoRows) || len(got) > 0 {
				t.Fail("missing cursor", "paging from a row which does not exist: %d rows, %v", len(got), err)
			}
			return
		}
	}
	if len(want) > int(p.Limit) {
		t.NonTrivial(pbt.Hash(k.Key(), sp.Go, o.text(sp), p.Limit, prev, len(want), cursor != nil, c != nil))
	}
	stop := -1
	if t.P(1, 5) {
		stop = t.N(4)
	}
	orderBefore := append([]sequel.OrderByClause{}, p.OrderBy...)
	got, pages, err := walk(t, w, m, p, prev, cursor, stop, bg)
	if err != nil {
		t.Fail("paging error", "paging: %v", err)
	}
	if !reflect.DeepEqual(orderBefore, append([]sequel.OrderByClause{}, p.OrderBy...)) {
		t.Fail("order changed", "paging changed the list of the order")
	}
	if stop >= 0 && pages == stop+1 {
		if n := min(len(want), pages*int(p.Limit)); !sameList(got, want[:n]) {
			t.Fail("pages", "the first %d pages have\n    %s\nexpected\n    %s", pages, showRows(sp, got), showRows(sp, want[:n]))
		}
		return
	}
	if !sameList(got, want) {
		t.Fail("pages", "the pages have\n    %s\nexpected\n    %s", showRows(sp, got), showRows(sp, want))
	}
	w.expectTable(t, sp, w.table(sp), "paging")
}

// walk goes through the pages, and stops after one of them.
func walk(t *pbt.T, w *world, m *Model, p Page, prev bool, cursor any, stop int, ctx context.Context) (rows []Row, pages int, err error) {
	pager := m.Page(p)
	limit := int(p.Limit)
	if limit == 0 {
		limit = 100
	}
	short := false
	all := 0
	rounds := 1 + t.N(3)
	again := t.Bool() // the iterator, or only the pager, is used again
	seq := pager(ctx, w.db, prev, cursor)
	for round := 0; round < rounds; round++ {
		rows, pages, err, short = nil, 0, nil, false
		if round > 0 && !again {
			seq = pager(ctx, w.db, prev, cursor)
		}
		leave := stop
		if round < rounds-1 && t.P(1, 3) {
			leave = t.N(3) // left early, and taken up again from the start
		}
		for l, e := range seq {
			if e != nil {
				if err != nil {
					t.Fail("after the error", "the pager goes on after an error")
				}
				err = e
				if l != nil && reflect.ValueOf(l).Len() > 0 {
					t.Fail("page with error", "the pager gives rows together with the error %v", e)
				}
				continue
			}
			if err != nil {
				t.Fail("after the error", "the pager goes on after an error")
			}
			if all++; all > 2000 {
				t.Fail("endless", "the pager does not end")
			}
			page := m.elems(l)
			if len(page) > limit {
				t.Fail("page size", "a page has %d rows, the limit is %d", len(page), limit)
			}
			if short && len(page) > 0 {
				t.Fail("page size", "there is a page after one which is not full")
			}
			short = len(page) < limit
			rows = append(rows, page...)
			pages++
			if v := reflect.ValueOf(l); v.Cap() > v.Len() && v.Len() > 0 {
				// the caller may append to a page
				ext := v.Slice(0, v.Len())
				reflect.Append(ext, v.Index(0))
			}
			if w.d.Open() != 0 {
				t.Fail("open rows", "a result set is open while the page is handed out")
			}
			if leave >= 0 && pages > leave {
				break
			}
		}
		w.settled(t, "paging")
	}
	return rows, pages, err
}

// longPaging: without a limit there are a hundred rows to a page.
func longPaging(t *pbt.T) {
	k := pickKit(t)
	m := pickModel(t, k, func(m *Model) bool { return m.Spec.Go == "Pair" || m.Spec.Go == "User" || m.Spec.Go == "HKey" })
	sp := m.Spec
	w := newWorld(k, m)
	defer w.close()
	n := 95 + t.N(120)
	var rows []Row
	u := newUses(sp, nil)
	for i := 0; i < n; i++ {
		r := sp.row(t, u, int64(i+1))
		u.add(sp, r)
		rows = append(rows, r)
	}
	w.put(sp, rows)
	o := m.ordering(t, 2, false)
	prev := t.Bool()
	t.Logf("%d rows, order by %s, backwards %v", n, o.text(sp), prev)
	want := m.pageOrder(o, prev).sort(k.Dialect, rows)
	got, pages, err := walk(t, w, m, Page{OrderBy: o.clauses}, prev, nil, -1, bg)
	if err != nil {
		t.Fail("paging error", "paging: %v", err)
	}
	if !sameList(got, want) {
		t.Fail("pages", "the pages of %d rows differ from the table", n)
	}
	if pages > n/100+2 {
		t.Fail("page size", "%d pages for %d rows", pages, n)
	}
	t.NonTrivial(fmt.Sprint(k.Key(), sp.Go, n, o.text(sp), prev))
}
