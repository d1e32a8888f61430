package dbt

import (
	"context"
	"database/sql"
	"database/sql/driver"
	"fmt"
	"math"
	"reflect"
	"sort"
	"strings"
	"time"

	"verifharness/emudb"
	"verifharness/pbt"
)

var bg = context.Background()

// pick gives a kit, and pickModel one of its models which has what the check needs.
func pickKit(t *pbt.T) *Kit {
	k := Kits[t.N(len(Kits))]
	t.Logf("%s, quoted identifiers: %v", k.Dialect, k.Quoted)
	return k
}

func pickModel(t *pbt.T, k *Kit, ok func(m *Model) bool) *Model {
	var l []*Model
	for _, m := range k.Models {
		if ok(m) {
			l = append(l, m)
		}
	}
	m := l[t.N(len(l))]
	t.Logf("model %s", m.Spec.Go)
	return m
}

func keyed(m *Model) bool { return len(m.Spec.Key) > 0 }

// world is a database with the tables of some models.
type world struct {
	k  *Kit
	d  *emudb.DB
	db *sql.DB
}

func newWorld(k *Kit, models ...*Model) *world {
	d := emudb.New(k.Dialect)
	d.Raw("ATTACH DATABASE ':memory:' AS shop")
	for _, m := range models {
		for _, ddl := range m.Spec.DDL() {
			d.Raw(ddl)
		}
		for _, c := range m.Spec.Cols {
			switch c.Kind {
			case "time", "bool":
				d.Kinds[c.Name] = c.Kind
			}
			if c.Kind == "int" || c.Kind == "uint" || c.Kind == "float" || c.Kind == "float32" {
				d.Numbers[c.Name] = true
			}
			if c.Coded {
				d.Kinds[c.Name] = "coded"
			}
		}
	}
	db := d.SQL()
	db.SetMaxIdleConns(4)
	return &world{k, d, db}
}

func (w *world) close() {
	w.db.Close()
	w.d.Close()
}

// table is the contents of the table of a model, in the order of insertion.
func (w *world) table(s *Spec) []Row { return w.read(s, s.full()) }

func (w *world) read(s *Spec, name string) []Row {
	var cols []string
	for _, c := range s.Cols {
		cols = append(cols, lite(c.Name))
	}
	rows := w.d.Raw("SELECT " + strings.Join(cols, ",") + " FROM " + name + " ORDER BY rowid")
	out := make([]Row, len(rows))
	for i, r := range rows {
		out[i] = make(Row, len(r))
		for j, v := range r {
			out[i][j] = kept(s.Cols[j], v)
		}
	}
	return out
}

// put writes rows past the helpers.
func (w *world) put(s *Spec, rows []Row) {
	w.putIn(s, s.full(), rows)
	// the table of the same name in the main database has a row that nobody asks for
	if s.DB != "" {
		w.putIn(s, "main."+lite(s.Table), []Row{w.decoy(s)})
	}
}

func (w *world) decoy(s *Spec) Row {
	r := make(Row, len(s.Cols))
	for i, c := range s.Cols {
		r[i] = map[string]any{"int": int64(77), "uint": int64(77), "bool": int64(1), "float": 7.5, "float32": 7.5, "string": "decoy",
			"bytes": B("decoy"), "time": "2001-01-01 00:00:00.000000000", "json": `{"K":"decoy","N":1}`}[c.Kind]
	}
	return r
}

func (w *world) putIn(s *Spec, name string, rows []Row) {
	var cols []string
	for _, c := range s.Cols {
		cols = append(cols, lite(c.Name))
	}
	for _, r := range rows {
		args := make([]driver.Value, len(r))
		for i := range r {
			args[i] = raw(r[i])
		}
		w.d.Raw("INSERT INTO "+name+" ("+strings.Join(cols, ",")+") VALUES (?"+strings.Repeat(",?", len(r)-1)+")", args...)
	}
}

// checkDecoy: nobody touched the table of the same name elsewhere.
func (w *world) checkDecoy(t *pbt.T, s *Spec) {
	if s.DB == "" {
		return
	}
	l := w.read(s, "main."+lite(s.Table))
	if len(l) != 1 || !l[0].eq(w.decoy(s)) {
		t.Fail("other database", "the table %s of another database was changed: %v", s.Table, l)
	}
}

// ---------------------------------------------------------------- values

var words = []string{"", "a", "b", "B", "ab", "aB", "%", "_", "a%", "'", "\"", "`", "?", "$1", "é", "a b", ";", "--", "NULL", "0", "'); DROP TABLE user; --", "💡", "\\", "\n"}

var times = []string{"2020-01-02 03:04:05.000000000", "2020-01-02 03:04:05.123456000", "1969-12-31 23:59:59.000001000", "2038-01-19 03:14:08.000000000", "2024-02-29 00:00:00.000000000", "1000-01-01 00:00:00.000000000"}

// value draws a value of a column; small pools make ties and conflicts.
func value(t *pbt.T, c Col) any {
	if f, ok := t.Aux.(func(Col) any); ok {
		return f(c)
	}
	if c.Null && t.P(1, 4) {
		return nil
	}
	switch c.Kind {
	case "int":
		if t.P(1, 8) {
			lim := int64(math.MaxInt64)
			if c.Bits < 64 {
				lim = 1<<(c.Bits-1) - 1
			}
			return pbt.Pick(t, lim, -lim-1, lim-1)
		}
		return int64(t.N(5)) - 1
	case "uint":
		if t.P(1, 8) {
			return int64(math.MaxUint32)
		}
		return int64(t.N(4))
	case "bool":
		return int64(t.N(2))
	case "float":
		return pbt.Pick(t, 0, 1, -1.5, 2.25, 1e300, -1e-300, 0.1, 1.0/3)
	case "float32":
		return pbt.Pick(t, 0, 1, -1.5, 2.25, float64(float32(0.1)), math.MaxFloat32)
	case "string":
		if t.P(1, 8) {
			s := t.String(6, false)
			return strings.ReplaceAll(s, "\x00", "")
		}
		return words[t.N(len(words))]
	case "time":
		return times[t.N(len(times))]
	case "bytes":
		return pbt.Pick[any](t, B(""), B("\x00\xff"), B("a"), B("'"), B("longer than the rest"))
	case "json":
		return pbt.Pick[any](t, `{"K":"","N":0}`, `{"K":"a'b","N":1}`, `{"K":"\"\\","N":-5}`)
	}
	panic(c.Kind)
}

// row draws a row which has none of the unique values in use.
func (s *Spec) row(t *pbt.T, used *uses, id int64) Row {
	r := make(Row, len(s.Cols))
	for try := 0; ; try++ {
		for i, c := range s.Cols {
			switch {
			case s.Auto && s.isKey(i):
				r[i] = id
			default:
				r[i] = value(t, c)
				if try > 0 && (s.isKey(i) || c.Unique) && c.Kind == "string" {
					r[i] = fmt.Sprintf("%v%d", r[i], len(used.keys)+try)
				}
			}
		}
		if try > 20 && len(s.Key) > 0 && !s.Auto {
			for _, k := range s.Key {
				if s.Cols[k].Kind == "int" {
					r[k] = int64(1000 + len(used.keys) + try)
				}
			}
		}
		if !used.clash(s, r) {
			return r
		}
	}
}

// uses are the unique values of a table.
type uses struct {
	keys map[string]bool
	uniq map[string]bool
}

func newUses(s *Spec, rows []Row) *uses {
	u := &uses{map[string]bool{}, map[string]bool{}}
	for _, r := range rows {
		u.add(s, r)
	}
	return u
}

func (s *Spec) keyOf(r Row) string {
	var b strings.Builder
	for _, k := range s.Key {
		fmt.Fprintf(&b, "%#v|", r[k])
	}
	return b.String()
}

func (u *uses) clash(s *Spec, r Row) bool {
	if len(s.Key) > 0 && u.keys[s.keyOf(r)] {
		return true
	}
	for i, c := range s.Cols {
		if c.Unique && u.uniq[fmt.Sprintf("%d %#v", i, r[i])] {
			return true
		}
	}
	return false
}

func (u *uses) add(s *Spec, r Row) {
	if len(s.Key) > 0 {
		u.keys[s.keyOf(r)] = true
	}
	for i, c := range s.Cols {
		if c.Unique {
			u.uniq[fmt.Sprintf("%d %#v", i, r[i])] = true
		}
	}
}

// rows draws up to max rows without conflicts, as they are in a table.
func (s *Spec) rows(t *pbt.T, max int) []Row {
	n := t.N(max + 1)
	u := newUses(s, nil)
	var out []Row
	id := int64(0)
	for i := 0; i < n; i++ {
		id += 1 + int64(t.N(3))
		r := s.row(t, u, id)
		u.add(s, r)
		out = append(out, r)
	}
	return out
}

// ---------------------------------------------------------------- models

func (m *Model) make(r Row) any {
	v := m.New()
	m.Spec.fill(v, r)
	return v
}

// slice gives a []T of rows; behind it is a row that nobody may touch.
func (m *Model) slice(rows []Row) any {
	s := m.NewSlice(len(rows), len(rows)+2)
	v := reflect.ValueOf(s)
	for i, r := range rows {
		m.Spec.fill(v.Index(i).Addr().Interface(), r)
	}
	return s
}

// elems gives the rows of a []T.
func (m *Model) elems(s any) []Row {
	if s == nil {
		return nil
	}
	v := reflect.ValueOf(s)
	out := make([]Row, v.Len())
	for i := range out {
		out[i] = m.Spec.canon(v.Index(i).Addr().Interface())
	}
	return out
}

// garbage is a model where every field has some other value.
func (m *Model) garbage() any {
	r := make(Row, len(m.Spec.Cols))
	for i, c := range m.Spec.Cols {
		r[i] = map[string]any{"int": int64(99), "uint": int64(99), "bool": int64(1), "float": 9.5, "float32": 9.5, "string": "garbage",
			"bytes": B("garbage"), "time": "1999-09-09 09:09:09.000000000", "json": `{"K":"garbage","N":99}`}[c.Kind]
	}
	return m.make(r)
}

// withKey is a model which has the key of a row, and garbage.
func (m *Model) withKey(r Row) any {
	v := m.garbage()
	g := m.Spec.canon(v)
	for _, k := range m.Spec.Key {
		g[k] = r[k]
	}
	return m.make(g)
}

func (s *Spec) find(rows []Row, key Row) int {
	for i, r := range rows {
		if s.keyOf(r) == s.keyOf(key) {
			return i
		}
	}
	return -1
}

func showRows(s *Spec, rows []Row) string {
	var l []string
	for _, r := range rows {
		l = append(l, s.show(r))
	}
	return strings.Join(l, "\n    ")
}

// sameSet: the same rows, in any order.
func sameSet(a, b []Row) bool {
	if len(a) != len(b) {
		return false
	}
	f := func(l []Row) []string {
		var out []string
		for _, r := range l {
			out = append(out, fmt.Sprintf("%#v", []any(r)))
		}
		sort.Strings(out)
		return out
	}
	return reflect.DeepEqual(f(a), f(b))
}

func sameList(a, b []Row) bool {
	if len(a) != len(b) {
		return false
	}
	for i := range a {
		if !a[i].eq(b[i]) {
			return false
		}
	}
	return true
}

// expectTable compares the table with what it should be.
func (w *world) expectTable(t *pbt.T, s *Spec, want []Row, after string) {
	got := w.table(s)
	if !sameSet(got, want) {
		t.Fail("table", "after %s the table %s has\n    %s\nexpected\n    %s", after, s.Table, showRows(s, got), showRows(s, want))
	}
	w.checkDecoy(t, s)
}

// settled: no connection is in use and no result set is open.
func (w *world) settled(t *pbt.T, after string) {
	// the connection is given back in the background when a context is cancelled
	for i := 0; ; i++ {
		if w.d.Open() == 0 && w.db.Stats().InUse == 0 {
			return
		}
		if i > 2000 {
			t.Fail("leak", "after %s: %d result sets are open, %d connections are in use", after, w.d.Open(), w.db.Stats().InUse)
		}
		time.Sleep(time.Millisecond)
	}
}

func affected(t *pbt.T, res sql.Result, want int64, what string) {
	if res == nil {
		t.Fail("no result", "%s: no result and no error", what)
	}
	n, err := res.RowsAffected()
	if err != nil {
		t.Fail("affected", "%s: RowsAffected: %v", what, err)
	}
	if n != want {
		t.Fail("affected", "%s: %d rows affected, expected %d", what, n, want)
	}
}
