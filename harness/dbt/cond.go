package dbt

import (
	"cmp"
	"fmt"
	"sort"
	"strings"

	"github.com/si3nloong/sqlgen/sequel"
	"verifharness/pbt"
)

type tri int8 // -1 no, 0 unknown, 1 yes

func not(a tri) tri { return -a }

func truth(b bool) tri {
	if b {
		return 1
	}
	return -1
}

// cond is a condition and its meaning.
type cond struct {
	clause sequel.WhereClause
	eval   func(r Row) tri
	text   string
	uses   int // operators
}

func compare(a, b any) int {
	switch a := a.(type) {
	case int64:
		return cmp.Compare(a, b.(int64))
	case float64:
		return cmp.Compare(a, b.(float64))
	case string:
		return strings.Compare(a, b.(string))
	case B:
		return strings.Compare(string(a), string(b.(B)))
	}
	panic(fmt.Sprintf("%T", a))
}

func rel(a, b any, ok func(int) bool) tri {
	if a == nil || b == nil {
		return 0
	}
	return truth(ok(compare(a, b)))
}

func and(a, b tri) tri { return min(a, b) }
func or(a, b tri) tri  { return max(a, b) }

// like matches a pattern without escapes.
func like(s, p []rune, fold bool) bool {
	for len(p) > 0 {
		switch p[0] {
		case '%':
			for i := 0; i <= len(s); i++ {
				if like(s[i:], p[1:], fold) {
					return true
				}
			}
			return false
		case '_':
			if len(s) == 0 {
				return false
			}
		default:
			if len(s) == 0 {
				return false
			}
			a, b := s[0], p[0]
			if fold {
				a, b = lower(a), lower(b)
			}
			if a != b {
				return false
			}
		}
		s, p = s[1:], p[1:]
	}
	return len(s) == 0
}

func lower(r rune) rune {
	if r >= 'A' && r <= 'Z' {
		return r + 32
	}
	return r
}

func upperASCII(s string) string {
	b := []byte(s)
	for i := range b {
		if b[i] >= 'a' && b[i] <= 'z' {
			b[i] -= 32
		}
	}
	return string(b)
}

// operand draws a value to compare a column with, often one which is in the table.
func operand(t *pbt.T, s *Spec, c int, rows []Row) any {
	if len(rows) > 0 && t.P(3, 5) {
		return rows[t.N(len(rows))][c]
	}
	return value(t, s.Cols[c])
}

func (m *Model) cond(t *pbt.T, rows []Row, depth int) cond {
	if depth > 0 && t.P(2, 5) {
		isAnd := t.Bool()
		n := several(t, 4)
		var l []cond
		var clauses []sequel.WhereClause
		var texts []string
		uses := 1
		for i := 0; i < n; i++ {
			c := m.cond(t, rows, depth-1)
			l = append(l, c)
			clauses = append(clauses, c.clause)
			texts = append(texts, c.text)
			uses += c.uses
		}
		if isAnd {
			return cond{m.K.And(clauses...), func(r Row) tri {
				v := tri(1)
				for _, c := range l {
					v = and(v, c.eval(r))
				}
				return v
			}, "And(" + strings.Join(texts, ", ") + ")", uses}
		}
		return cond{m.K.Or(clauses...), func(r Row) tri {
			v := tri(-1)
			for _, c := range l {
				v = or(v, c.eval(r))
			}
			return v
		}, "Or(" + strings.Join(texts, ", ") + ")", uses}
	}
	return m.leaf(t, rows)
}

func (m *Model) leaf(t *pbt.T, rows []Row) cond {
	s := m.Spec
	c := t.N(len(s.Cols))
	for s.Cols[c].Kind == "json" {
		c = t.N(len(s.Cols))
	}
	col := s.Cols[c]
	name := col.Name
	conv := func(x any) any { return x }
	arg := func() any { return operand(t, s, c, rows) }
	if m.Cols[name+"^"] != nil && t.P(1, 4) {
		name += "^"
		conv = func(x any) any { return upperASCII(x.(string)) }
	}
	o := m.Cols[name]
	one := func(op string, f func(any) sequel.WhereClause, ok func(int) bool) cond {
		v := arg()
		return cond{f(v), func(r Row) tri { return rel(r[c], convNil(conv, v), ok) }, fmt.Sprintf("%s %s %#v", name, op, v), 1}
	}
	kinds := []string{"in", "notin", "null", "notnull"}
	if o.Eq != nil {
		kinds = append(kinds, "eq", "ne", "gt", "ge", "lt", "le", "between", "notbetween", "eq", "between")
		if col.Kind == "string" {
			kinds = append(kinds, "like", "notlike", "like")
		}
	}
	switch kind := kinds[t.N(len(kinds))]; kind {
	case "eq":
		return one("=", o.Eq, func(i int) bool { return i == 0 })
	case "ne":
		return one("<>", o.Ne, func(i int) bool { return i != 0 })
	case "gt":
		return one(">", o.Gt, func(i int) bool { return i > 0 })
	case "ge":
		return one(">=", o.Ge, func(i int) bool { return i >= 0 })
	case "lt":
		return one("<", o.Lt, func(i int) bool { return i < 0 })
	case "le":
		return one("<=", o.Le, func(i int) bool { return i <= 0 })
	case "between", "notbetween":
		a, b := arg(), arg()
		f := o.Bt
		if kind == "notbetween" {
			f = o.NBt
		}
		return cond{f(a, b), func(r Row) tri {
			v := and(rel(r[c], convNil(conv, a), func(i int) bool { return i >= 0 }), rel(r[c], convNil(conv, b), func(i int) bool { return i <= 0 }))
			if kind == "notbetween" {
				return not(v)
			}
			return v
		}, fmt.Sprintf("%s %s %#v and %#v", name, kind, a, b), 1}
	case "like", "notlike":
		var p any
		if _, ok := t.Aux.(func(Col) any); ok {
			p = operand(t, s, c, rows)
		} else if !col.Null || !t.P(1, 8) {
			p = pattern(t, s, c, rows)
		}
		f := o.Li
		if kind == "notlike" {
			f = o.NLi
		}
		return cond{f(p), func(r Row) tri {
			if r[c] == nil || p == nil {
				return 0
			}
			v := truth(like([]rune(r[c].(string)), []rune(conv(p).(string)), m.K.Dialect != "postgres"))
			if kind == "notlike" {
				return not(v)
			}
			return v
		}, fmt.Sprintf("%s %s %#v", name, kind, p), 1}
	case "in", "notin":
		n := several(t, 4)
		var l []any
		if n > 0 || t.Bool() {
			l = make([]any, n)
		}
		for i := range l {
			l[i] = arg()
		}
		f := o.In
		if kind == "notin" {
			f = o.NIn
		}
		return cond{f(l), func(r Row) tri {
			v := tri(-1)
			for _, x := range l {
				v = or(v, rel(r[c], convNil(conv, x), func(i int) bool { return i == 0 }))
			}
			if kind == "notin" {
				return not(v)
			}
			return v
		}, fmt.Sprintf("%s %s %#v", name, kind, l), 1}
	case "null":
		return cond{o.Null(), func(r Row) tri { return truth(r[c] == nil) }, name + " is null", 1}
	default:
		return cond{o.NNull(), func(r Row) tri { return truth(r[c] != nil) }, name + " is not null", 1}
	}
}

// several is a number below n, or rarely a larger one.
func several(t *pbt.T, n int) int {
	if t.P(1, 12) {
		return n + t.N(10)
	}
	return t.N(n)
}

// limit is a small limit, or rarely one of another width.
func limit(t *pbt.T, n int) uint16 {
	if t.P(1, 8) {
		return pbt.Pick[uint16](t, 127, 128, 255, 256, 257, 512, 32767, 32768, 65280, 65535)
	}
	return uint16(1 + t.N(n))
}

func offset(t *pbt.T, n int) uint64 {
	if t.P(1, 12) {
		return pbt.Pick[uint64](t, 255, 256, 65535, 65536, 1<<31, 1<<32, 1<<32+1, 1<<53+1, 1<<62, 1<<63-1)
	}
	return uint64(t.N(n))
}

func convNil(f func(any) any, v any) any {
	if v == nil {
		return nil
	}
	return f(v)
}

// pattern draws a pattern without a backslash, which dialects read differently.
func pattern(t *pbt.T, s *Spec, c int, rows []Row) string {
	p := pbt.Pick(t, "%", "a%", "%b", "_", "__", "%a%", "A_", "", "a", "%\n", "é", "_%_", "%'%")
	if t.P(1, 3) {
		if v, ok := operand(t, s, c, rows).(string); ok {
			l := []rune(v)
			if len(l) > 0 {
				l[t.N(len(l))] = pbt.Pick(t, '%', '_')
			}
			p = string(l)
		}
	}
	return strings.ReplaceAll(p, `\`, "")
}

// ordering is a list of columns to order by.
type ordering struct {
	cols    []int
	desc    []bool
	clauses []sequel.OrderByClause
	total   bool // it has all the key columns
}

func (o ordering) text(s *Spec) string {
	var l []string
	for i, c := range o.cols {
		l = append(l, fmt.Sprintf("%s desc=%v", s.Cols[c].Name, o.desc[i]))
	}
	return strings.Join(l, ", ")
}

func (m *Model) ordering(t *pbt.T, max int, total bool) ordering {
	s := m.Spec
	var o ordering
	add := func(c int) {
		for _, x := range o.cols {
			if x == c {
				return
			}
		}
		desc := t.Bool()
		o.cols = append(o.cols, c)
		o.desc = append(o.desc, desc)
		if desc {
			o.clauses = append(o.clauses, m.Cols[s.Cols[c].Name].Desc())
		} else {
			o.clauses = append(o.clauses, m.Cols[s.Cols[c].Name].Asc())
		}
	}
	for n := t.N(max + 1); n > 0; n-- {
		c := t.N(len(s.Cols))
		if s.Cols[c].Kind != "json" {
			add(c)
		}
	}
	if total && len(s.Key) > 0 {
		for _, k := range s.Key {
			add(k)
		}
	}
	n := 0
	for _, c := range o.cols {
		if s.isKey(c) {
			n++
		}
	}
	o.total = len(s.Key) > 0 && n == len(s.Key)
	return o
}

// compareRows compares by an ordering.
func (o ordering) compare(dialect string, a, b Row) int {
	for i, c := range o.cols {
		d := 0
		switch x, y := a[c], b[c]; {
		case x == nil && y == nil:
		case x == nil || y == nil:
			d = -1
			if y == nil {
				d = 1
			}
			if dialect == "postgres" {
				d = -d
			}
		default:
			d = compare(x, y)
		}
		if o.desc[i] {
			d = -d
		}
		if d != 0 {
			return d
		}
	}
	return 0
}

func (o ordering) sort(dialect string, rows []Row) []Row {
	out := append([]Row{}, rows...)
	sort.SliceStable(out, func(i, j int) bool { return o.compare(dialect, out[i], out[j]) < 0 })
	return out
}

func selected(rows []Row, c *cond) []Row {
	var out []Row
	for _, r := range rows {
		if c == nil || c.eval(r) == 1 {
			out = append(out, r)
		}
	}
	return out
}
