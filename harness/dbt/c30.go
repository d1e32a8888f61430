package dbt

import (
	"database/sql"
	"database/sql/driver"
	"encoding/hex"
	"fmt"
	"math"
	"reflect"
	"strconv"
	"strings"
	"time"

	"github.com/si3nloong/sqlgen/sequel"
	"verifharness/pbt"
)

func init() { Props["C30"] = c30 }

func c30(s *pbt.Session) {
	s.Rule = "a statement with arguments and text which has placeholder characters"
	s.Assume = []string{"floats are finite; text for PostgreSQL has no NUL", "sql.RawBytes, which stand for statement text, are left out",
		"text of a statement is made of whole tokens of the dialect; values whose own methods fail or panic are left out"}
	s.Run(pbt.Check{Name: "render", Cases: 40000, Thorough: 1500000, Run: render30})
	s.Run(pbt.Check{Name: "clauses", Cases: 6000, Thorough: 150000, Run: clauses30})
	s.Run(pbt.Check{Name: "any text", Cases: 10000, Thorough: 400000, Run: anyText30})
}

// arguments

type (
	myStr   string
	myInt   int32
	myUint  uint16
	myBool  bool
	myFloat float32
	myBytes []byte
	valued  struct{ v driver.Value }
	pvalued struct{ v driver.Value }
	strInt  int // a Valuer which is a number and gives a text
)

func (v valued) Value() (driver.Value, error)   { return v.v, nil }
func (v *pvalued) Value() (driver.Value, error) { return v.v, nil }
func (v strInt) Value() (driver.Value, error)   { return fmt.Sprintf("n%d?'", int(v)), nil }

func text30(t *pbt.T, nul bool) string {
	var b strings.Builder
	for n := t.N(5); n > 0; n-- {
		switch t.N(3) {
		case 0:
			b.WriteString(hostile[t.N(len(hostile))])
		case 1:
			b.WriteString(pbt.Pick(t, "a", "?", "$2", "\n", "\r", "\t", "\b", "\f", "\x01", "\x7f", "\x1a", "\\n", "\\x00", "💡", "E'", "X'", "NULL", "%s", "%!"))
		default:
			b.WriteString(t.String(3, false))
		}
	}
	s := b.String()
	if !nul {
		s = strings.ReplaceAll(s, "\x00", "")
	}
	return s
}

// arg30 gives an argument and the value it stands for: nil, bool, *big number as text, string, B, time.Time.
func arg30(t *pbt.T, dialect string, depth int) (any, any) {
	str := func() string { return text30(t, dialect == "mysql") }
	fl := func() float64 {
		for {
			if f := t.Float64(false); !math.IsNaN(f) && !math.IsInf(f, 0) {
				return f
			}
		}
	}
	at := func() time.Time {
		tm := time.Unix(t.Int64()%253402300799, int64(t.N(1e9))).UTC()
		if tm.Year() < 1 || tm.Year() > 9999 {
			tm = time.Unix(0, 1)
		}
		return tm.In(time.FixedZone("", pbt.Pick(t, 0, 3600, -12600, 20700)))
	}
	by := func() []byte { return t.Bytes(6) }
	n := 27
	if depth > 2 {
		n = 20
	}
	switch t.N(n) {
	case 0:
		return nil, nil
	case 1, 2, 3:
		s := str()
		return s, s
	case 4:
		b := by()
		if b == nil {
			return b, nil
		}
		return b, B(b)
	case 5:
		return []byte(nil), nil
	case 6:
		b := t.Bool()
		return b, b
	case 7:
		i := t.Int64()
		switch t.N(5) {
		case 0:
			return int(i), i
		case 1:
			return int8(i), int64(int8(i))
		case 2:
			return int16(i), int64(int16(i))
		case 3:
			return int32(i), int64(int32(i))
		}
		return i, i
	case 8:
		u := t.Uint64B()
		switch t.N(5) {
		case 0:
			return uint(u), u
		case 1:
			return uint8(u), uint64(uint8(u))
		case 2:
			return uint16(u), uint64(uint16(u))
		case 3:
			return uint32(u), uint64(uint32(u))
		}
		return u, u
	case 9:
		f := fl()
		return f, f
	case 10:
		f := float32(fl())
		if math.IsInf(float64(f), 0) {
			f = 1.5
		}
		return f, float64(f)
	case 11:
		tm := at()
		return tm, tm
	case 12:
		s := str()
		return myStr(s), s
	case 13:
		i := int32(t.Int64())
		return myInt(i), int64(i)
	case 14:
		i := uint16(t.Int64())
		return myUint(i), uint64(i)
	case 15:
		b := t.Bool()
		return myBool(b), b
	case 16:
		f := float32(t.N(1000)) / 8
		return myFloat(f), float64(f)
	case 17:
		b := append([]byte{}, by()...)
		return myBytes(b), B(b)
	case 18:
		return pbt.Pick[any](t, (*string)(nil), (*int64)(nil), (*time.Time)(nil), (*pvalued)(nil), (*valued)(nil), (**string)(nil), sql.NullString{}, sql.NullInt64{}, myBytes(nil), valued{}, &pvalued{}), nil
	case 19:
		i := t.N(100)
		return strInt(i), fmt.Sprintf("n%d?'", i)
	case 20:
		s := str()
		return sql.NullString{String: s, Valid: true}, s
	case 21, 22:
		// a pointer to another argument
		v, want := arg30(t, dialect, depth+1)
		if v == nil {
			return nil, nil
		}
		p := reflect.New(reflect.TypeOf(v))
		p.Elem().Set(reflect.ValueOf(v))
		return p.Interface(), want
	case 23, 24:
		v, want := valueArg(t, str, by, fl, at)
		if t.Bool() {
			return valued{v}, want
		}
		return &pvalued{v}, want
	case 25:
		i := t.Int64()
		return sql.NullInt64{Int64: i, Valid: true}, i
	default:
		tm := at()
		return sql.NullTime{Time: tm, Valid: true}, tm
	}
}

func valueArg(t *pbt.T, str func() string, by func() []byte, fl func() float64, at func() time.Time) (driver.Value, any) {
	switch t.N(7) {
	case 0:
		return nil, nil
	case 1:
		s := str()
		return s, s
	case 2:
		b := append([]byte{}, by()...)
		return b, B(b)
	case 3:
		f := fl()
		return f, f
	case 4:
		tm := at()
		return tm, tm
	case 5:
		b := t.Bool()
		return b, b
	}
	i := t.Int64()
	return i, i
}

// literal reads a literal of the dialect and gives its value and what is left.
func literal(dialect, s string) (any, string, error) {
	word := func(w string) (string, bool) {
		if !strings.HasPrefix(strings.ToLower(s), w) {
			return "", false
		}
		rest := s[len(w):]
		if rest != "" && (rest[0] == '_' || rest[0] >= '0' && rest[0] <= '9' || rest[0] >= 'a' && rest[0] <= 'z' || rest[0] >= 'A' && rest[0] <= 'Z') {
			return "", false
		}
		return rest, true
	}
	if r, ok := word("null"); ok {
		return nil, r, nil
	}
	if r, ok := word("true"); ok {
		return true, r, nil
	}
	if r, ok := word("false"); ok {
		return false, r, nil
	}
	if s == "" {
		return nil, "", fmt.Errorf("no literal")
	}
	if c := s[0]; c == '-' || c >= '0' && c <= '9' {
		n := 1
		for n < len(s) && (s[n] >= '0' && s[n] <= '9' || s[n] == '.' || s[n] == 'e' || s[n] == 'E' || (s[n] == '-' || s[n] == '+') && (s[n-1] == 'e' || s[n-1] == 'E')) {
			n++
		}
		return number(s[:n]), s[n:], nil
	}
	blob, esc := false, dialect == "mysql"
	switch {
	case dialect != "postgres" && (s[0] == 'X' || s[0] == 'x'):
		blob = true
		s = s[1:]
	case dialect == "postgres" && (s[0] == 'E' || s[0] == 'e'):
		esc = true
		s = s[1:]
	}
	if s == "" || s[0] != '\'' {
		return nil, "", fmt.Errorf("no literal at %q", s)
	}
	var b []byte
	for i := 1; ; i++ {
		if i >= len(s) {
			return nil, "", fmt.Errorf("unterminated %q", s)
		}
		c := s[i]
		if c == '\'' {
			if i+1 < len(s) && s[i+1] == '\'' {
				b = append(b, c)
				i++
				continue
			}
			s = s[i+1:]
			break
		}
		if c == '\\' && esc {
			if i++; i >= len(s) {
				return nil, "", fmt.Errorf("unterminated %q", s)
			}
			switch c := s[i]; c {
			case 'n':
				b = append(b, '\n')
			case 't':
				b = append(b, '\t')
			case 'r':
				b = append(b, '\r')
			case 'b':
				b = append(b, '\b')
			case 'f':
				if dialect == "mysql" {
					b = append(b, 'f')
				} else {
					b = append(b, '\f')
				}
			case '0':
				if dialect != "mysql" {
					return nil, "", fmt.Errorf("escape of octal in %q", s)
				}
				b = append(b, 0)
			case 'Z':
				b = append(b, 26)
			case 'x', 'u', 'U', '1', '2', '3', '4', '5', '6', '7':
				if dialect == "postgres" {
					return nil, "", fmt.Errorf("escape \\%c in %q", c, s)
				}
				b = append(b, c)
			case '%', '_':
				if dialect == "mysql" {
					b = append(b, '\\')
				}
				b = append(b, c)
			default:
				b = append(b, c)
			}
			continue
		}
		b = append(b, c)
	}
	if blob {
		h, err := hex.DecodeString(string(b))
		return B(h), s, err
	}
	return string(b), s, nil
}

type num string

func number(s string) any { return num(s) }

// stands says whether a literal's value is the value of the argument.
func stands(dialect string, got, want any) bool {
	switch w := want.(type) {
	case nil:
		return got == nil
	case bool, B:
		if b, ok := want.(B); ok && dialect == "postgres" {
			s, ok := got.(string)
			return ok && s == `\x`+hex.EncodeToString([]byte(b))
		}
		return got == want
	case string:
		return got == want
	case int64:
		return got == num(strconv.FormatInt(w, 10))
	case uint64:
		return got == num(strconv.FormatUint(w, 10))
	case float64:
		n, ok := got.(num)
		if !ok {
			return false
		}
		f, err := strconv.ParseFloat(string(n), 64)
		return err == nil && f == w
	case time.Time:
		s, ok := got.(string)
		if !ok {
			return false
		}
		for _, l := range []string{time.RFC3339Nano, "2006-01-02 15:04:05.999999999Z07:00", "2006-01-02 15:04:05.999999999-07:00", "2006-01-02 15:04:05.999999999"} {
			if g, err := time.Parse(l, s); err == nil {
				return g.Equal(w)
			}
		}
		return false
	}
	panic(fmt.Sprintf("%T", want))
}

// statements

var tokens30 = map[string][]string{
	"": {"SELECT", "a.b", "12", "1.5", ">=", "||", "-", "/", "*", "'?'", "''", "'it''s ? $1'", "'''?'''", `"col?$1"`, `"a""?"`, "/* ? $1 ' */", "/**/", "-- ? $1 ' \"\n", "-- \n", "%", "%s", "%d", "é", "'é?'", "1", "=", "<>", "X'00'",
		"/*?*/ /*$1*/", "' -- ?'", "'/* ?'", `'"?'`, `"'?"`, "--\n"},
	"mysql":    {"`c?$1`", "`a``?`", `'a\'?'`, `"a\"?"`, `'\\'`, `'a\\\'?'`, "# ? '\n", "#\n", "5--(", "$1", "`a\\`", "@v:=", "\"it's ?\""},
	"sqlite":   {"`c?$1`", "`a``?`", `'\'`, `"\"`, "[a?b]", "[a']", "$1", "'\\' || '?'"},
	"postgres": {`E'a\'? $1'`, `e'\\'`, "$$ ? $1 $$", "$tag$ $1 ' $$ $tag$", "a$1", "éa$1b", "$9999", "$0", "/* /* $1 */ $1 */", "?", "?|", `'\'`, `"\"`, "x$tag$", "e", "E''", `'\' || '$1'`, "$é$ $1 $é$", "$a1$ $1 $a1$", "$a $b", "$1a$"},
}

func render30(t *pbt.T) {
	k := pickKit(t)
	s := k.Acquire()
	defer k.Release(s)
	if t.P(1, 4) {
		// it was in use before
		s.Var("old")
		s.WriteString("old ?")
		s.Reset()
	}
	type part struct {
		text string
		arg  int // -1 for text
	}
	var parts []part
	var wants []any
	var args []any
	write := func(x string) {
		switch t.N(3) {
		case 0:
			s.Write([]byte(x))
		case 1:
			for i := range len(x) {
				s.WriteByte(x[i])
			}
		default:
			s.WriteString(x)
		}
	}
	tricky := 0
	text := func(x string) {
		write(x)
		parts = append(parts, part{x, -1})
	}
	hold := func(i int, ph string) {
		write(ph)
		parts = append(parts, part{ph, i})
	}
	var phs []string
	for n := 1 + t.N(10); n > 0; n-- {
		switch t.N(5) {
		case 0, 1:
			l := append(append([]string{}, tokens30[""]...), tokens30[k.Dialect]...)
			tok := l[t.N(len(l))]
			if tok == "$1a$" {
				// a placeholder and a word
				continue
			}
			if strings.ContainsAny(tok, "?$") {
				tricky++
			}
			text(tok)
		case 2, 3:
			a, want := arg30(t, k.Dialect, 0)
			args, wants = append(args, a), append(wants, want)
			ph := s.Var(a)
			phs = append(phs, ph)
			hold(len(args)-1, ph)
		case 4:
			if k.Dialect == "postgres" && len(phs) > 0 && t.Bool() {
				i := t.N(len(phs))
				hold(i, phs[i])
				break
			}
			var l []any
			first := len(args)
			for j := t.N(4); j > 0; j-- {
				a, want := arg30(t, k.Dialect, 0)
				l = append(l, a)
				args, wants = append(args, a), append(wants, want)
			}
			list := s.Vars(l)
			write(list)
			// ( p , p , p )
			inner := strings.Split(strings.Trim(list, "()"), ",")
			parts = append(parts, part{"(", -1})
			for j := range l {
				if j > 0 {
					parts = append(parts, part{",", -1})
				}
				phs = append(phs, inner[j])
				parts = append(parts, part{inner[j], first + j})
			}
			parts = append(parts, part{")", -1})
		}
		text(pbt.Pick(t, " ", "\n", " , ", "(", ") ", " = ", "+ ", "<"))
	}
	checkRender(t, k, s, func(out, verb string) {
		rest := out
		for _, p := range parts {
			if p.arg < 0 {
				if !strings.HasPrefix(rest, p.text) {
					t.Fail("text changed", "%s: %q is not followed by the text %q in\n  %s\nof\n  %s", verb, out[:len(out)-len(rest)], p.text, out, s.Query())
				}
				rest = rest[len(p.text):]
				continue
			}
			got, r, err := literal(k.Dialect, rest)
			if err != nil {
				t.Fail("literal", "%s: no literal of %#v after %q in\n  %s\n(%v)", verb, args[p.arg], out[:len(out)-len(rest)], out, err)
			}
			if !stands(k.Dialect, got, wants[p.arg]) {
				t.Fail("literal", "%s: argument %d, %#v (%v), became %s, which is %#v, in\n  %s", verb, p.arg+1, args[p.arg], wants[p.arg], rest[:len(rest)-len(r)], got, out)
			}
			rest = r
		}
		if rest != "" {
			t.Fail("text changed", "%s: %q too much in\n  %s", verb, rest, out)
		}
	})
	if len(args) > 0 && tricky > 0 {
		t.NonTrivial(pbt.Hash(k.Key(), s.Query(), len(args)))
	}
}

// checkRender: the plain verbs give the text, the others what ok accepts; nothing changes.
func checkRender(t *pbt.T, k *Kit, s sequel.Stmt, ok func(out, verb string)) {
	query := strings.Clone(s.Query())
	args := append([]any{}, s.Args()...)
	t.Logf("%q", query)
	for i, a := range args {
		t.Logf("  %d: %T %#v", i+1, a, a)
	}
	for _, verb := range []string{"%s", "%v"} {
		if out := fmt.Sprintf(verb, s); out != query {
			t.Fail("plain", "%s gives %q, expected %q", verb, out, query)
		}
	}
	var first string
	for i, verb := range []string{"%+v", "%#v"} {
		out := fmt.Sprintf(verb, s)
		if strings.Contains(out, "%!v(PANIC") && !strings.Contains(query, "PANIC") {
			t.Fail("panic", "%s: %s", verb, out)
		}
		if i == 0 {
			first = out
		}
		ok(out, verb)
	}
	for _, verb := range []string{"%q", "%d", "%x", "%+s", "%10v", "%-3.2s"} {
		if out := fmt.Sprintf(verb, s); strings.Contains(out, "(PANIC") && !strings.Contains(query, "PANIC") {
			t.Fail("panic", "%s: %s", verb, out)
		}
	}
	if again := fmt.Sprintf("%+v", s); again != first {
		t.Fail("again", "formatted again, it is %q and not %q", again, first)
	}
	if s.Query() != query || len(s.Args()) != len(args) || len(args) > 0 && !reflect.DeepEqual(s.Args(), args) {
		t.Fail("modified", "formatting changed the statement to %q, %v", s.Query(), s.Args())
	}
	// it can go on
	if v := s.Var(1); k.Dialect == "postgres" && v != fmt.Sprintf("$%d", len(args)+1) {
		t.Fail("modified", "after formatting the next placeholder is %s, expected $%d", v, len(args)+1)
	}
}

// clauses30 formats statements of the generated operators.
func clauses30(t *pbt.T) {
	k := pickKit(t)
	m := pickModel(t, k, func(*Model) bool { return true })
	rows := m.Spec.rows(t, 3)
	c := m.cond(t, rows, 2)
	s := k.Acquire()
	defer k.Release(s)
	s.WriteString("SELECT 1 WHERE ")
	c.clause(s)
	if len(s.Args()) > 0 {
		t.NonTrivial(pbt.Hash(k.Key(), c.text))
	}
	query, args := s.Query(), s.Args()
	checkRender(t, k, s, func(out, verb string) {
		rest, j, n := out, 0, 0
		for i := 0; i < len(query); {
			if query[i] == '?' || query[i] == '$' {
				i++
				p := n
				if k.Dialect == "postgres" {
					e := i
					for e < len(query) && query[e] >= '0' && query[e] <= '9' {
						e++
					}
					p, _ = strconv.Atoi(query[i:e])
					p--
					i = e
				}
				n++
				_, r, err := literal(k.Dialect, rest)
				if err != nil {
					t.Fail("literal", "%s: no literal of %#v after %q in\n  %s\n(%v)", verb, args[p], out[:len(out)-len(rest)], out, err)
				}
				rest = r
				continue
			}
			if rest == "" || rest[0] != query[i] {
				t.Fail("text changed", "%s: after %q comes no %q in\n  %s\nof\n  %s", verb, out[:len(out)-len(rest)], query[i], out, query)
			}
			rest = rest[1:]
			i++
			j++
		}
		if rest != "" {
			t.Fail("text changed", "%s: %q too much in\n  %s", verb, rest, out)
		}
	})
}

// anyText30: no text and no argument makes formatting crash or change the statement.
func anyText30(t *pbt.T) {
	k := pickKit(t)
	s := k.Acquire()
	defer k.Release(s)
	n := 0
	for i := t.N(6); i > 0; i-- {
		if t.Bool() {
			a, _ := arg30(t, k.Dialect, 0)
			x := s.Var(a)
			if t.P(3, 4) {
				s.WriteString(x)
			}
			n++
			continue
		}
		s.WriteString(pbt.Pick(t, "'", `"`, "`", "$", "$$", "$a$", "$1", "$18446744073709551617", "$00", "?", "\\", "/*", "*/", "--", "#", "[", "]", "E'", "e", "\n", " ", "\xff", "é", "$é"))
		if t.Bool() {
			s.WriteString(t.String(3, true))
		}
	}
	if n > 0 {
		t.NonTrivial(pbt.Hash(k.Key(), s.Query(), n))
	}
	checkRender(t, k, s, func(string, string) {})
}
