// Package emudb is a database/sql driver that takes the statements of MySQL,
// PostgreSQL or SQLite, checks what each of them would refuse, and runs them on an
// in-memory SQLite database.
package emudb

import (
	"context"
	"database/sql"
	"database/sql/driver"
	"errors"
	"fmt"
	"io"
	"strconv"
	"strings"
	"sync"
	"time"

	sqlite3 "github.com/mattn/go-sqlite3"
)

// Stmt is a statement as it reached the driver.
type Stmt struct {
	Query string
	Args  []driver.Value
}

type DB struct {
	Numbers map[string]bool // columns of numbers, by name
	Spoiled int             // counts the rows which were made unreadable
	Dialect string
	// Kinds says of which columns the values are times or booleans.
	Kinds map[string]string

	mu    sync.Mutex // one statement at a time
	lite  *sqlite3.SQLiteConn
	tx    *conn
	freed *sync.Cond

	logMu sync.Mutex
	log   []Stmt
	nlog  int
	lock  string // of the last statement
	keep  bool
	// Fault is called before a step: "connect", "exec", "query", "next", "rowsclose",
	// "lastid", "affected", "begin", "commit". n is the row for "next".
	fault func(step string, n int) error
	open  int // result sets which are not closed

	inserted []int64 // what the statement inserted
	lastID   int64   // what LAST_INSERT_ID(x) was given, in MySQL
}

// TimeLayout is how times are kept: it sorts like the times.
const TimeLayout = "2006-01-02 15:04:05.000000000"

// New opens an empty database.
func New(dialect string) *DB {
	c, err := (&sqlite3.SQLiteDriver{}).Open(":memory:")
	if err != nil {
		panic(err)
	}
	d := &DB{Dialect: dialect, Kinds: map[string]string{}, Numbers: map[string]bool{"1": true}, lite: c.(*sqlite3.SQLiteConn)}
	d.freed = sync.NewCond(&d.mu)
	like := "PRAGMA case_sensitive_like = 0"
	if dialect == "postgres" {
		like = "PRAGMA case_sensitive_like = 1"
	}
	if _, err := d.lite.Exec(like, nil); err != nil {
		panic(err)
	}
	if err := d.lite.RegisterFunc("peek", func(x string) string { return x }, true); err != nil {
		panic(err)
	}
	if dialect == "mysql" {
		f := func(x int64) int64 { d.lastID = x; return x }
		if err := d.lite.RegisterFunc("last_insert_id", f, false); err != nil {
			panic(err)
		}
	}
	d.lite.RegisterUpdateHook(func(op int, _ string, _ string, rowid int64) {
		if op == sqlite3.SQLITE_INSERT {
			d.inserted = append(d.inserted, rowid)
		}
	})
	return d
}

func (d *DB) Close() { d.lite.Close() }

// SQL gives a pool on the database.
func (d *DB) SQL() *sql.DB { return sql.OpenDB(connector{d}) }

// Logging starts or stops recording the statements; Log gives and clears them.
func (d *DB) Logging(on bool) { d.logMu.Lock(); d.keep, d.log = on, nil; d.logMu.Unlock() }
func (d *DB) Log() []Stmt {
	d.logMu.Lock()
	defer d.logMu.Unlock()
	l := d.log
	d.log = nil
	return l
}

// RowLock gives the row lock which the last statement asked for.
func (d *DB) RowLock() string { d.logMu.Lock(); defer d.logMu.Unlock(); return d.lock }

// Statements counts the statements so far.
func (d *DB) Statements() int { d.logMu.Lock(); defer d.logMu.Unlock(); return d.nlog }

// Fault installs a function which is asked before every step.
func (d *DB) Fault(f func(step string, n int) error) { d.logMu.Lock(); d.fault = f; d.logMu.Unlock() }

// ErrSpoil is given for the step "next" by a function of Fault to make the row unreadable:
// one of its numbers (a column of Numbers) is no number.
var ErrSpoil = errors.New("emudb: spoil the row")

func (d *DB) step(s string, n int) error {
	d.logMu.Lock()
	f := d.fault
	d.logMu.Unlock()
	if f == nil {
		return nil
	}
	return f(s, n)
}

// Open counts the result sets which are still open.
func (d *DB) Open() int { d.logMu.Lock(); defer d.logMu.Unlock(); return d.open }

// Raw runs a statement of SQLite, outside the emulation.
func (d *DB) Raw(query string, args ...driver.Value) [][]driver.Value {
	d.mu.Lock()
	defer d.mu.Unlock()
	_, rows, err := d.query(query, args)
	if err != nil {
		panic(fmt.Sprintf("%s: %v", query, err))
	}
	return rows
}

func (d *DB) query(query string, args []driver.Value) ([]string, [][]driver.Value, error) {
	named := make([]driver.NamedValue, len(args))
	for i, a := range args {
		named[i] = driver.NamedValue{Ordinal: i + 1, Value: Norm(a)}
	}
	rs, err := d.lite.QueryContext(context.Background(), query, named)
	if err != nil {
		return nil, nil, err
	}
	defer rs.Close()
	cols := append([]string{}, rs.Columns()...)
	var out [][]driver.Value
	for {
		row := make([]driver.Value, len(cols))
		if err := rs.Next(row); err == io.EOF {
			break
		} else if err != nil {
			return nil, nil, err
		}
		for i, v := range row {
			if b, ok := v.([]byte); ok {
				row[i] = append([]byte{}, b...)
			}
		}
		out = append(out, row)
	}
	return cols, out, nil
}

// Norm is the form in which a value is kept.
func Norm(v driver.Value) driver.Value {
	switch v := v.(type) {
	case bool:
		if v {
			return int64(1)
		}
		return int64(0)
	case time.Time:
		return v.UTC().Format(TimeLayout)
	case uint64:
		if v>>63 == 0 {
			return int64(v)
		}
		return strconv.FormatUint(v, 10)
	case []byte:
		if v == nil {
			return nil
		}
		// MySQL and PostgreSQL give the same meaning to bytes and text; so does the harness
		return v
	}
	return v
}

// deliver gives the form in which the dialect hands out a kept value.
func (d *DB) deliver(col string, v driver.Value, text bool) (driver.Value, error) {
	if v == nil {
		return nil, nil
	}
	switch d.Kinds[col] {
	case "time":
		var s string
		switch v := v.(type) {
		case string:
			s = v
		case []byte:
			s = string(v)
		case time.Time:
			return v, nil
		default:
			return nil, fmt.Errorf("emudb: %T in the time column %s", v, col)
		}
		t, err := time.Parse(TimeLayout, s)
		if err != nil {
			return nil, err
		}
		if d.Dialect == "sqlite" && text {
			return t.Format(sqlite3.SQLiteTimestampFormats[0]), nil
		}
		return t, nil
	case "coded": // a column which is read through peek() only
		if s, ok := v.(string); ok {
			v = "coded " + s
		}
	case "bool":
		if n, ok := v.(int64); ok && d.Dialect != "mysql" {
			return n != 0, nil
		}
	}
	if d.Dialect == "mysql" {
		switch v := v.(type) {
		case int64:
			if text {
				return []byte(strconv.FormatInt(v, 10)), nil
			}
		case float64:
			if text {
				return []byte(strconv.FormatFloat(v, 'g', -1, 64)), nil
			}
		case string:
			return []byte(v), nil
		}
	}
	return v, nil
}

// ---------------------------------------------------------------- driver

type connector struct{ d *DB }

func (c connector) Connect(context.Context) (driver.Conn, error) {
	if err := c.d.step("connect", 0); err != nil {
		return nil, err
	}
	return &conn{d: c.d}, nil
}
func (c connector) Driver() driver.Driver { return nil }

type conn struct {
	d   *DB
	bad bool
}

func (c *conn) Prepare(q string) (driver.Stmt, error) { return nil, errors.New("emudb: no prepare") }
func (c *conn) Close() error                          { return nil }
func (c *conn) Begin() (driver.Tx, error)             { return c.BeginTx(context.Background(), driver.TxOptions{}) }

func (c *conn) BeginTx(ctx context.Context, _ driver.TxOptions) (driver.Tx, error) {
	if err := c.d.step("begin", 0); err != nil {
		return nil, err
	}
	c.d.mu.Lock()
	defer c.d.mu.Unlock()
	for c.d.tx != nil {
		c.d.freed.Wait()
	}
	if _, err := c.d.lite.Exec("BEGIN", nil); err != nil {
		return nil, err
	}
	c.d.tx = c
	return tx{c}, nil
}

type tx struct{ c *conn }

func (t tx) end(q string) error {
	d := t.c.d
	d.mu.Lock()
	defer d.mu.Unlock()
	_, err := d.lite.Exec(q, nil)
	d.tx = nil
	d.freed.Broadcast()
	return err
}
func (t tx) Commit() error   { return t.end("COMMIT") }
func (t tx) Rollback() error { return t.end("ROLLBACK") }

// CheckNamedValue converts like the drivers of the dialect: database/sql's own rules,
// and every uint64.
func (c *conn) CheckNamedValue(nv *driver.NamedValue) error {
	if u, ok := nv.Value.(uint64); ok && c.d.Dialect != "sqlite" {
		nv.Value = u
		return nil
	}
	v, err := driver.DefaultParameterConverter.ConvertValue(nv.Value)
	if err != nil {
		return err
	}
	nv.Value = v
	return nil
}

// run runs a statement and gives its rows.
func (c *conn) run(query string, args []driver.NamedValue, isQuery bool) (cols []string, rows [][]driver.Value, changed int64, last int64, err error) {
	vals := make([]driver.Value, len(args))
	for i, a := range args {
		vals[i] = a.Value
		if b, ok := a.Value.([]byte); ok && b != nil {
			vals[i] = append([]byte{}, b...)
		}
	}
	d := c.d
	d.logMu.Lock()
	d.nlog++
	if d.keep {
		d.log = append(d.log, Stmt{query, vals})
	}
	d.logMu.Unlock()
	q, err := Translate(d.Dialect, query, len(vals))
	if err != nil {
		return nil, nil, 0, 0, err
	}
	d.logMu.Lock()
	d.lock = q.Lock
	d.logMu.Unlock()
	d.mu.Lock()
	defer d.mu.Unlock()
	for d.tx != nil && d.tx != c {
		d.freed.Wait()
	}
	if !isQuery {
		// the statement counts what it changed
		before := d.total()
		d.inserted, d.lastID = d.inserted[:0], 0
		if _, _, err = d.query(q.SQL, vals); err != nil {
			return nil, nil, 0, 0, err
		}
		changed = d.total() - before
		_, r, _ := d.query("SELECT last_insert_rowid()", nil)
		last = r[0][0].(int64)
		if d.Dialect == "mysql" && q.Insert {
			// MySQL reports the first of them, or what LAST_INSERT_ID was given
			last = d.lastID
			if len(d.inserted) > 0 && last == 0 {
				last = d.inserted[0]
			}
		}
		return nil, nil, changed, last, nil
	}
	cols, rows, err = d.query(q.SQL, vals)
	if err != nil {
		return nil, nil, 0, 0, err
	}
	for _, row := range rows {
		for i, v := range row {
			if row[i], err = d.deliver(cols[i], v, len(args) == 0); err != nil {
				return nil, nil, 0, 0, err
			}
		}
	}
	return cols, rows, 0, 0, nil
}

func (d *DB) total() int64 {
	_, r, err := d.query("SELECT total_changes()", nil)
	if err != nil {
		panic(err)
	}
	return r[0][0].(int64)
}

func (c *conn) ExecContext(ctx context.Context, query string, args []driver.NamedValue) (driver.Result, error) {
	if err := c.d.step("exec", 0); err != nil {
		return nil, err
	}
	if err := ctx.Err(); err != nil {
		return nil, err
	}
	_, _, n, last, err := c.run(query, args, false)
	if err != nil {
		return nil, err
	}
	return result{c.d, n, last}, nil
}

func (c *conn) QueryContext(ctx context.Context, query string, args []driver.NamedValue) (driver.Rows, error) {
	if err := c.d.step("query", 0); err != nil {
		return nil, err
	}
	if err := ctx.Err(); err != nil {
		return nil, err
	}
	cols, rows, _, _, err := c.run(query, args, true)
	if err != nil {
		return nil, err
	}
	c.d.logMu.Lock()
	c.d.open++
	c.d.logMu.Unlock()
	return &resultSet{d: c.d, ctx: ctx, cols: cols, rows: rows}, nil
}

type result struct {
	d       *DB
	n, last int64
}

func (r result) LastInsertId() (int64, error) {
	if r.d.Dialect == "postgres" {
		return 0, errors.New("emudb: LastInsertId is not supported by PostgreSQL")
	}
	if err := r.d.step("lastid", 0); err != nil {
		return 0, err
	}
	return r.last, nil
}

func (r result) RowsAffected() (int64, error) {
	if err := r.d.step("affected", 0); err != nil {
		return 0, err
	}
	return r.n, nil
}

type resultSet struct {
	d      *DB
	ctx    context.Context
	cols   []string
	rows   [][]driver.Value
	i      int
	buf    [][]byte
	closed bool
}

func (r *resultSet) Columns() []string { return r.cols }

func (r *resultSet) Close() error {
	if !r.closed {
		r.closed = true
		r.d.logMu.Lock()
		r.d.open--
		r.d.logMu.Unlock()
		// what the driver lent is taken back
		for _, b := range r.buf {
			for i := range b {
				b[i] = 0xEE
			}
		}
		return r.d.step("rowsclose", 0)
	}
	return nil
}

func (r *resultSet) Next(dst []driver.Value) error {
	for _, b := range r.buf { // bytes are lent until the next call
		for i := range b {
			b[i] = 0xEE
		}
	}
	r.buf = r.buf[:0]
	spoil := false
	if err := r.d.step("next", r.i); err == ErrSpoil {
		spoil = true
	} else if err != nil {
		return err
	}
	if err := r.ctx.Err(); err != nil {
		return err
	}
	if r.i >= len(r.rows) {
		return io.EOF
	}
	for i, v := range r.rows[r.i] {
		if b, ok := v.([]byte); ok {
			b = append([]byte{}, b...)
			r.buf = append(r.buf, b)
			v = b
		}
		dst[i] = v
		if spoil && r.d.Numbers[r.cols[i]] {
			dst[i] = "no number"
			spoil = false
			r.d.Spoiled++
		}
	}
	r.i++
	return nil
}

// ---------------------------------------------------------------- translation

type Query struct {
	SQL    string
	Insert bool
	Lock   string
}

type token struct {
	kind byte // 's' space, 'w' word, 'i' quoted name, 'q' string, 'p' placeholder, 'o' other
	s    string
}

func lex(dialect, q string) ([]token, error) {
	var out []token
	for i := 0; i < len(q); {
		c := q[i]
		switch {
		case c == ' ' || c == '\n' || c == '\t' || c == '\r':
			j := i
			for j < len(q) && strings.IndexByte(" \n\t\r", q[j]) >= 0 {
				j++
			}
			out = append(out, token{'s', " "})
			i = j
		case c == '\'' || c == '"' || c == '`':
			j := i + 1
			var b strings.Builder
			for {
				if j >= len(q) {
					return nil, fmt.Errorf("emudb: unterminated %c in %s", c, q)
				}
				if q[j] == c {
					if j+1 < len(q) && q[j+1] == c {
						b.WriteByte(c)
						j += 2
						continue
					}
					break
				}
				b.WriteByte(q[j])
				j++
			}
			text := b.String()
			switch {
			case c == '\'', c == '"' && dialect == "mysql":
				out = append(out, token{'q', "'" + strings.ReplaceAll(text, "'", "''") + "'"})
			case c == '`' && dialect == "postgres":
				return nil, fmt.Errorf("emudb: PostgreSQL has no backtick: %s", q)
			default:
				// not with double quotes, which SQLite reads as a string when there is no such column
				out = append(out, token{'i', "`" + strings.ReplaceAll(text, "`", "``") + "`"})
			}
			i = j + 1
		case c == '?':
			if dialect == "postgres" {
				return nil, fmt.Errorf("emudb: PostgreSQL has no placeholder ?: %s", q)
			}
			out = append(out, token{'p', "?"})
			i++
		case c == '$':
			j := i + 1
			for j < len(q) && q[j] >= '0' && q[j] <= '9' {
				j++
			}
			if dialect != "postgres" || j == i+1 {
				return nil, fmt.Errorf("emudb: %s has no placeholder $: %s", dialect, q)
			}
			out = append(out, token{'p', "$" + q[i+1:j]})
			i = j
		case c == '_' || c >= 'a' && c <= 'z' || c >= 'A' && c <= 'Z' || c >= '0' && c <= '9' || c >= 0x80:
			j := i
			for j < len(q) && (q[j] == '_' || q[j] == '$' || q[j] >= 'a' && q[j] <= 'z' || q[j] >= 'A' && q[j] <= 'Z' || q[j] >= '0' && q[j] <= '9' || q[j] >= 0x80) {
				j++
			}
			out = append(out, token{'w', q[i:j]})
			i = j
		case c == '-' && i+1 < len(q) && q[i+1] == '-' || c == '/' && i+1 < len(q) && q[i+1] == '*' || c == '#':
			return nil, fmt.Errorf("emudb: comment in %s", q)
		default:
			out = append(out, token{'o', string(c)})
			i++
		}
	}
	return out, nil
}

func (t token) is(w string) bool { return t.kind == 'w' && strings.EqualFold(t.s, w) }

// match finds words (without the spaces) at position i, and gives the position after them.
func match(l []token, i int, words ...string) (int, bool) {
	for _, w := range words {
		for i < len(l) && l[i].kind == 's' {
			i++
		}
		if i >= len(l) || !(l[i].is(w) || l[i].kind == 'o' && l[i].s == w) {
			return 0, false
		}
		i++
	}
	return i, true
}

// find gives the position of words outside of parentheses.
func find(l []token, words ...string) (int, int) {
	depth := 0
	for i := range l {
		if l[i].kind == 'o' && l[i].s == "(" {
			depth++
		}
		if l[i].kind == 'o' && l[i].s == ")" {
			depth--
		}
		if depth == 0 && l[i].kind != 's' {
			if j, ok := match(l, i, words...); ok {
				return i, j
			}
		}
	}
	return -1, -1
}

func join(l []token) string {
	var b strings.Builder
	for _, t := range l {
		b.WriteString(t.s)
	}
	return b.String()
}

// Translate checks a statement of the dialect with n arguments and gives the statement
// of SQLite that does the same.
func Translate(dialect, query string, n int) (*Query, error) {
	l, err := lex(dialect, query)
	if err != nil {
		return nil, err
	}
	// one statement, placeholders which match the arguments
	places := 0
	numbered := 0
	used := map[int]bool{}
	for i, t := range l {
		switch {
		case t.kind == 'p' && t.s == "?":
			places++
			l[i].s = fmt.Sprintf("?%d", places)
		case t.kind == 'p':
			k, err := strconv.Atoi(t.s[1:])
			if err != nil || k < 1 {
				return nil, fmt.Errorf("emudb: placeholder %s in %s", t.s, query)
			}
			numbered = max(numbered, k)
			used[k] = true
			l[i].s = fmt.Sprintf("?%d", k)
		case t.kind == 'o' && t.s == ";":
			if strings.TrimSpace(join(l[i+1:])) != "" {
				return nil, fmt.Errorf("emudb: several statements in %s", query)
			}
		}
	}
	if max(places, numbered) != n {
		return nil, fmt.Errorf("emudb: %d arguments for %d placeholders in %s", n, max(places, numbered), query)
	}
	if len(used) != numbered {
		return nil, fmt.Errorf("emudb: an argument is not used in %s", query)
	}
	for len(l) > 0 && (l[len(l)-1].kind == 's' || l[len(l)-1].s == ";") {
		l = l[:len(l)-1]
	}
	q := &Query{}
	start := 0
	for start < len(l) && l[start].kind == 's' {
		start++
	}
	l = l[start:]
	if len(l) == 0 {
		return nil, fmt.Errorf("emudb: empty statement")
	}
	verb := strings.ToUpper(l[0].s)
	q.Insert = verb == "INSERT" || verb == "REPLACE"
	if dialect == "mysql" {
		if i, _ := find(l, "RETURNING"); i >= 0 {
			return nil, fmt.Errorf("emudb: MySQL has no RETURNING: %s", query)
		}
		if i, _ := find(l, "ON", "CONFLICT"); i >= 0 {
			return nil, fmt.Errorf("emudb: MySQL has no ON CONFLICT: %s", query)
		}
		if j, ok := match(l, 0, "INSERT", "IGNORE"); ok {
			l = append([]token{{'w', "INSERT"}, {'s', " "}, {'w', "OR"}, {'s', " "}, {'w', "IGNORE"}}, l[j:]...)
		}
		if i, j := find(l, "ON", "DUPLICATE", "KEY", "UPDATE"); i >= 0 {
			head, tail := l[:i], l[j:]
			var set []token
			for k := 0; k < len(tail); k++ {
				if e, ok := match(tail, k, "VALUES", "("); ok {
					set = append(set, token{'w', "excluded"}, token{'o', "."})
					for ; e < len(tail) && tail[e].s != ")"; e++ {
						set = append(set, tail[e])
					}
					k = e
					continue
				}
				set = append(set, tail[k])
			}
			l = append(append(append([]token{}, head...), token{'w', "ON CONFLICT DO UPDATE SET "}), set...)
		}
	} else {
		if i, _ := find(l, "ON", "DUPLICATE", "KEY"); i >= 0 {
			return nil, fmt.Errorf("emudb: %s has no ON DUPLICATE KEY: %s", dialect, query)
		}
		if _, ok := match(l, 0, "INSERT", "IGNORE"); ok {
			return nil, fmt.Errorf("emudb: %s has no INSERT IGNORE: %s", dialect, query)
		}
	}
	if verb == "SELECT" {
		for _, lock := range [][]string{{"FOR", "UPDATE"}, {"FOR", "SHARE"}, {"FOR", "NO", "KEY", "UPDATE"}, {"FOR", "KEY", "SHARE"}, {"LOCK", "IN", "SHARE", "MODE"}} {
			if i, j := find(l, lock...); i >= 0 {
				if dialect == "sqlite" {
					return nil, fmt.Errorf("emudb: SQLite has no row locks: %s", query)
				}
				if dialect == "mysql" && len(lock) == 4 && lock[0] == "LOCK" {
					lock = []string{"FOR", "SHARE"}
				}
				if dialect == "mysql" && len(lock) != 2 || dialect != "mysql" && lock[0] == "LOCK" {
					return nil, fmt.Errorf("emudb: %s has no such lock: %s", dialect, query)
				}
				if strings.TrimSpace(join(l[j:])) != "" {
					return nil, fmt.Errorf("emudb: after the lock: %s", query)
				}
				l, q.Lock = l[:i], strings.Join(lock, " ")
			}
		}
		if dialect == "postgres" {
			l = orderNulls(l)
		}
		if i, _ := find(l, "OFFSET"); i >= 0 {
			if k, _ := find(l, "LIMIT"); k < 0 {
				if dialect != "postgres" {
					return nil, fmt.Errorf("emudb: %s has no OFFSET without LIMIT: %s", dialect, query)
				}
				l = append(append(append([]token{}, l[:i]...), token{'w', "LIMIT -1 "}), l[i:]...)
			}
		}
		// MySQL takes no negative limit, but it takes the largest number
		for i, t := range l {
			if t.s == "18446744073709551615" {
				l[i].s = "-1"
			}
		}
		q.SQL = join(l)
		return q, nil
	}
	if verb == "UPDATE" || verb == "DELETE" {
		o, _ := find(l, "ORDER", "BY")
		m, _ := find(l, "LIMIT")
		if o >= 0 || m >= 0 {
			if dialect == "postgres" {
				return nil, fmt.Errorf("emudb: PostgreSQL has no ORDER BY or LIMIT in %s", query)
			}
			cut := o
			if cut < 0 || m >= 0 && m < cut {
				cut = m
			}
			tail := join(l[cut:])
			w, _ := find(l, "WHERE")
			where, end := "", cut
			if w >= 0 {
				where, end = join(l[w:cut]), w
			}
			var table string
			if verb == "UPDATE" {
				s, _ := find(l, "SET")
				if s < 0 {
					return nil, fmt.Errorf("emudb: no SET in %s", query)
				}
				table = join(l[1:s])
			} else {
				f, fe := find(l, "FROM")
				if f < 0 {
					return nil, fmt.Errorf("emudb: no FROM in %s", query)
				}
				table = join(l[fe:end])
			}
			q.SQL = join(l[:end]) + " WHERE rowid IN (SELECT rowid FROM " + table + " " + where + " " + tail + ")"
			return q, nil
		}
	}
	q.SQL = join(l)
	return q, nil
}

// orderNulls writes where PostgreSQL puts NULL in an order.
func orderNulls(l []token) []token {
	i, j := find(l, "ORDER", "BY")
	if i < 0 {
		return l
	}
	out := append([]token{}, l[:j]...)
	depth, desc, said := 0, false, false
	end := func() {
		switch {
		case said:
		case desc:
			out = append(out, token{'w', " NULLS FIRST"})
		default:
			out = append(out, token{'w', " NULLS LAST"})
		}
		desc, said = false, false
	}
	for ; j < len(l); j++ {
		t := l[j]
		switch {
		case t.kind == 'o' && t.s == "(":
			depth++
		case t.kind == 'o' && t.s == ")":
			depth--
		case depth == 0 && t.kind == 'o' && t.s == ",":
			end()
		case depth == 0 && t.is("DESC"):
			desc = true
		case depth == 0 && t.is("NULLS"):
			said = true
		}
		if depth == 0 && (t.is("LIMIT") || t.is("OFFSET") || t.is("FOR") || t.is("FETCH")) {
			break
		}
		out = append(out, t)
	}
	end()
	if j < len(l) {
		out = append(out, token{'s', " "})
	}
	return append(out, l[j:]...)
}
