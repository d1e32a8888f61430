package main

import (
	"bytes"
	"database/sql"
	"database/sql/driver"
	"encoding/hex"
	"encoding/json"
	"fmt"
	"math"
	"math/big"
	"reflect"
	"strconv"
	"strings"
	"unicode/utf8"

	"github.com/si3nloong/sqlgen/sequel/driver/postgres/pgtype"
	"github.com/si3nloong/sqlgen/sequel/sqltype"

	"verifharness/pbt"
)

// tok is one element of a list text as an independent grammar reads it.
type tok struct {
	text   string
	quoted bool
	null   bool
	// exact is false when the grammar is lenient about how text is read, so that only
	// its being accepted, and not its value, can be judged.
	exact bool
}

// elemType is one list element type.
type elemType struct {
	name string
	rt   reflect.Type
	gen  func(t *pbt.T) any
	// json and pg spell the element the ways a database prints it
	json func(t *pbt.T, v any) string
	pg   func(t *pbt.T, v any) string
	// jsonTok and pgTok read an element by the grammar. The second result is false when
	// the token cannot be an element at all.
	jsonTok func(tk tok) (any, bool)
	pgTok   func(tk tok) (any, bool)
	eq      func(a, b any) bool
	// badTokens are element spellings which are outside the type, in JSON and in PG arrays.
	badJSON, badPG []string
}

func conv[T any](v any) T { return reflect.ValueOf(v).Convert(reflect.TypeFor[T]()).Interface().(T) }

func intElem[T any](bits int, signed bool) *elemType {
	rt := reflect.TypeFor[T]()
	lo, hi := new(big.Int), new(big.Int)
	if signed {
		lo.Lsh(big.NewInt(-1), uint(bits-1))
		hi.Sub(hi.Lsh(big.NewInt(1), uint(bits-1)), big.NewInt(1))
	} else {
		hi.Sub(hi.Lsh(big.NewInt(1), uint(bits)), big.NewInt(1))
	}
	read := func(s string) (any, bool) {
		n, ok := new(big.Int).SetString(s, 10)
		if !ok || strings.ContainsAny(s, "_") || n.Cmp(lo) < 0 || n.Cmp(hi) > 0 {
			return nil, false
		}
		if signed {
			return conv[T](n.Int64()), true
		}
		return conv[T](n.Uint64()), true
	}
	spell := func(_ *pbt.T, v any) string { return fmt.Sprint(v) }
	bad := []string{"-", "+", "1.5", "1e3", "0x10", "1_0", "abc", "1a", "true", "''",
		new(big.Int).Add(hi, big.NewInt(1)).String(), new(big.Int).Sub(lo, big.NewInt(1)).String(), "99999999999999999999999"}
	return &elemType{
		name: rt.String(), rt: rt, eq: exactEq, json: spell, pg: spell,
		gen: func(t *pbt.T) any {
			var n *big.Int
			if signed {
				n = big.NewInt(t.Int64())
			} else {
				n = new(big.Int).SetUint64(t.Uint64B())
			}
			if n.Cmp(lo) < 0 || n.Cmp(hi) > 0 {
				n.Rsh(n, uint(64-bits))
			}
			v, ok := read(n.String())
			if !ok {
				panic("gen: " + n.String())
			}
			return v
		},
		jsonTok: func(tk tok) (any, bool) {
			if tk.null {
				return nil, false
			}
			return read(tk.text)
		},
		pgTok: func(tk tok) (any, bool) {
			if tk.null {
				return nil, false
			}
			return read(strings.TrimSpace(tk.text))
		},
		badJSON: append([]string{"null", "NULL", "[]", "{}", `"a"`}, bad...), badPG: append([]string{"NULL", `"a"`, `""`}, bad...),
	}
}

func floatElem[T any](bits int) *elemType {
	rt := reflect.TypeFor[T]()
	read := func(s string) (any, bool) {
		f, err := strconv.ParseFloat(s, bits)
		if err != nil {
			return nil, false
		}
		return conv[T](f), true
	}
	num := func(v any) float64 { return reflect.ValueOf(v).Float() }
	bad := []string{"-", "+", "1.5.5", "1e", "abc", "1a", "true", "e5", "1e999", "-1e400"}
	if bits == 32 {
		bad = append(bad, "1e39", "-3.5e38", "1e300")
	}
	return &elemType{
		name: rt.String(), rt: rt, eq: floatEq,
		gen: func(t *pbt.T) any {
			f := t.Float64(true)
			if bits == 32 {
				if g := float32(f); math.IsInf(float64(g), 0) && !math.IsInf(f, 0) {
					f = math.Copysign(math.MaxFloat32, f)
				}
				f = float64(float32(f))
			}
			return conv[T](f)
		},
		json: func(t *pbt.T, v any) string {
			f := num(v)
			s := strconv.FormatFloat(f, pbt.Pick(t, byte('g'), 'e', 'f'), -1, bits)
			if !strings.ContainsAny(s, ".e") && t.Bool() {
				s += ".0" // as MySQL prints doubles
			}
			return s
		},
		pg: func(t *pbt.T, v any) string {
			switch f := num(v); {
			case math.IsNaN(f):
				return "NaN"
			case math.IsInf(f, 1):
				return "Infinity"
			case math.IsInf(f, -1):
				return "-Infinity"
			default:
				return strconv.FormatFloat(f, 'g', -1, bits)
			}
		},
		jsonTok: func(tk tok) (any, bool) {
			if tk.null {
				return nil, false
			}
			return read(tk.text)
		},
		pgTok: func(tk tok) (any, bool) {
			if tk.null {
				return nil, false
			}
			return read(strings.TrimSpace(tk.text))
		},
		badJSON: append([]string{"null", "NULL", "[]", "{}", `"a"`}, bad...), badPG: append([]string{"NULL", `"a"`, `""`}, bad...),
	}
}

func boolElem[T any]() *elemType {
	rt := reflect.TypeFor[T]()
	return &elemType{
		name: rt.String(), rt: rt, eq: exactEq,
		gen:  func(t *pbt.T) any { return conv[T](t.Bool()) },
		json: func(_ *pbt.T, v any) string { return fmt.Sprint(v) },
		pg: func(_ *pbt.T, v any) string {
			if reflect.ValueOf(v).Bool() {
				return "t"
			}
			return "f"
		},
		jsonTok: func(tk tok) (any, bool) {
			switch {
			case tk.null:
			case tk.text == "true" || tk.text == "t":
				return conv[T](true), true
			case tk.text == "false" || tk.text == "f":
				return conv[T](false), true
			}
			return nil, false
		},
		pgTok: func(tk tok) (any, bool) {
			if tk.null {
				return nil, false
			}
			switch strings.ToLower(strings.TrimSpace(tk.text)) {
			case "t", "tr", "tru", "true", "y", "ye", "yes", "on", "1":
				return conv[T](true), true
			case "f", "fa", "fal", "fals", "false", "n", "no", "of", "off", "0":
				return conv[T](false), true
			}
			return nil, false
		},
		badJSON: []string{"null", "NULL", "[]", "{}", "yes", "tr", "truee", `"x"`, "2", "-1"}, badPG: []string{"NULL", "x", "2", `"x"`, `""`, "tt", "-1"},
	}
}

func stringElem[T any]() *elemType {
	rt := reflect.TypeFor[T]()
	str := func(v any) string { return reflect.ValueOf(v).String() }
	return &elemType{
		name: rt.String(), rt: rt, eq: exactEq,
		gen: func(t *pbt.T) any { return conv[T](t.String(8, false)) },
		json: func(t *pbt.T, v any) string {
			var b strings.Builder
			b.WriteByte('"')
			style := t.N(3)
			for _, r := range str(v) {
				must := r < 0x20 || r == '"' || r == '\\'
				if !must && (style == 0 || t.P(3, 4)) {
					b.WriteRune(r)
					continue
				}
				short := map[rune]string{'"': `\"`, '\\': `\\`, '/': `\/`, '\b': `\b`, '\f': `\f`, '\n': `\n`, '\r': `\r`, '\t': `\t`}
				if s, ok := short[r]; ok && (style < 2 || t.Bool()) {
					b.WriteString(s)
					continue
				}
				hx := pbt.Pick(t, "%04x", "%04X")
				if r >= 0x10000 {
					r -= 0x10000
					fmt.Fprintf(&b, `\u`+hx+`\u`+hx, 0xd800+(r>>10), 0xdc00+(r&0x3ff))
				} else {
					fmt.Fprintf(&b, `\u`+hx, r)
				}
			}
			b.WriteByte('"')
			return b.String()
		},
		pg: func(_ *pbt.T, v any) string { return pgArrayElem(str(v)) },
		jsonTok: func(tk tok) (any, bool) {
			if tk.null || !tk.quoted {
				return nil, false
			}
			return conv[T](tk.text), true
		},
		pgTok: func(tk tok) (any, bool) {
			if tk.null {
				return nil, false
			}
			return conv[T](tk.text), true
		},
		badJSON: []string{"null", "NULL", "[]", "{}", `{"a":"b"}`, "1", "true", "abc", `"a`, `a"`, `"a"b`, `"\u12"`, `"\ud"`, `["a"]`},
		badPG:   []string{"NULL", `"a`, `a"`, `"a"b`, `{a}`, `a{b`},
	}
}

func bytesElem[T any]() *elemType {
	rt := reflect.TypeFor[T]()
	raw := func(v any) []byte { return reflect.ValueOf(v).Bytes() }
	return &elemType{
		name: rt.String(), rt: rt,
		eq: func(a, b any) bool { return bytes.Equal(raw(a), raw(b)) },
		gen: func(t *pbt.T) any {
			if t.Bool() {
				return conv[T]([]byte(t.String(6, true)))
			}
			return conv[T](t.Bytes(8))
		},
		pg: func(t *pbt.T, v any) string {
			if t.Bool() {
				return pgArrayElem(`\x` + hex.EncodeToString(raw(v)))
			}
			var b strings.Builder
			for _, c := range raw(v) {
				switch {
				case c == '\\':
					b.WriteString(`\\`)
				case c < 0x20 || c > 0x7e:
					fmt.Fprintf(&b, `\%03o`, c)
				default:
					b.WriteByte(c)
				}
			}
			return pgArrayElem(b.String())
		},
		pgTok: func(tk tok) (any, bool) {
			if tk.null {
				return conv[T]([]byte(nil)), true
			}
			v, ok := pgByteaIn(tk.text)
			return conv[T](v), ok
		},
		badPG: []string{`"\\x1"`, `"\\xzz"`, `"\\x123"`, `"\\8"`, `"\\12"`, `"\\400"`, `"\\777"`, `"\\x0g"`, `"\\1"`, `"a`, `{a}`},
	}
}

// pgArrayElem is array_out's quoting of one element.
func pgArrayElem(s string) string {
	if s != "" && !strings.EqualFold(s, "NULL") && !strings.ContainsAny(s, "{}\",\\ \t\n\r\v\f") {
		return s
	}
	return `"` + strings.NewReplacer(`\`, `\\`, `"`, `\"`).Replace(s) + `"`
}

// pgByteaIn is PostgreSQL's byteain.
func pgByteaIn(s string) ([]byte, bool) {
	if strings.HasPrefix(s, `\x`) {
		s = strings.NewReplacer(" ", "", "\n", "", "\t", "", "\r", "").Replace(s[2:])
		b, err := hex.DecodeString(s)
		return b, err == nil
	}
	b := []byte{}
	for i := 0; i < len(s); {
		switch {
		case s[i] != '\\':
			b = append(b, s[i])
			i++
		case i+1 < len(s) && s[i+1] == '\\':
			b = append(b, '\\')
			i += 2
		case i+3 < len(s) && s[i+1] >= '0' && s[i+1] <= '3' && s[i+2] >= '0' && s[i+2] <= '7' && s[i+3] >= '0' && s[i+3] <= '7':
			b = append(b, (s[i+1]-'0')<<6|(s[i+2]-'0')<<3|(s[i+3]-'0'))
			i += 4
		default:
			return nil, false
		}
	}
	return b, true
}

// pgArrayIn reads a one-dimensional array literal by array_in's grammar.
func pgArrayIn(s string) ([]tok, bool) {
	const ws = " \t\n\r\v\f"
	i := 0
	skip := func() {
		for i < len(s) && strings.IndexByte(ws, s[i]) >= 0 {
			i++
		}
	}
	skip()
	if i >= len(s) || s[i] != '{' {
		return nil, false
	}
	i++
	var out = []tok{}
	skip()
	if i < len(s) && s[i] == '}' {
		i++
		skip()
		return out, i == len(s)
	}
	for {
		at := i
		skip()
		if i >= len(s) {
			return nil, false
		}
		tk := tok{exact: at == i}
		var b []byte
		if s[i] == '"' {
			tk.quoted = true
			for i++; ; i++ {
				if i >= len(s) {
					return nil, false
				}
				if s[i] == '\\' {
					if i++; i >= len(s) {
						return nil, false
					}
				} else if s[i] == '"' {
					break
				}
				b = append(b, s[i])
			}
			i++
			at := i
			skip()
			tk.exact = tk.exact && at == i
		} else {
			n := 0
			for i < len(s) && s[i] != ',' && s[i] != '}' {
				if s[i] == '{' || s[i] == '"' {
					return nil, false
				}
				if s[i] == '\\' {
					tk.exact = false
					if i++; i >= len(s) {
						return nil, false
					}
					b = append(b, s[i])
					n = len(b)
				} else {
					b = append(b, s[i])
					if strings.IndexByte(ws, s[i]) < 0 {
						n = len(b)
					} else {
						tk.exact = false
					}
				}
				i++
			}
			b = b[:n]
			if len(b) == 0 {
				return nil, false
			}
			tk.null = string(b) == "NULL"
			if !tk.null && strings.EqualFold(string(b), "NULL") {
				tk.exact = false // PostgreSQL reads NULL, and never prints it so
			}
		}
		tk.text = string(b)
		out = append(out, tk)
		if i >= len(s) {
			return nil, false
		}
		switch s[i] {
		case ',':
			i++
		case '}':
			i++
			at := i
			skip()
			if at != i {
				for k := range out {
					out[k].exact = false
				}
			}
			return out, i == len(s)
		default:
			return nil, false
		}
	}
}

// pgUnprinted tells whether the text holds, outside of quotes, blanks or backslashes: PostgreSQL reads those, and never prints them.
func pgUnprinted(s string) bool {
	quoted := false
	for i := 0; i < len(s); i++ {
		switch c := s[i]; {
		case quoted && c == '\\':
			i++
		case c == '"':
			quoted = !quoted
		case !quoted && strings.IndexByte(" \t\n\r\v\f\\", c) >= 0:
			return true
		}
	}
	return false
}

// jsonArrayIn reads a one-dimensional JSON-style list leniently: bare words of any kind,
// any escape and control characters in strings. Exactly what valid JSON says, when it is.
func jsonArrayIn(s string) ([]tok, bool) {
	const ws = " \t\n\r"
	i := 0
	skip := func() {
		for i < len(s) && strings.IndexByte(ws, s[i]) >= 0 {
			i++
		}
	}
	skip()
	if i >= len(s) || s[i] != '[' {
		return nil, false
	}
	i++
	var out = []tok{}
	skip()
	if i < len(s) && s[i] == ']' {
		i++
		skip()
		return out, i == len(s)
	}
	for {
		skip()
		if i >= len(s) {
			return nil, false
		}
		var tk tok
		if s[i] == '"' {
			start := i
			for i++; ; i++ {
				if i >= len(s) {
					return nil, false
				}
				if s[i] == '\\' {
					if i++; i >= len(s) {
						return nil, false
					}
					if s[i] == 'u' {
						if len(s) < i+5 {
							return nil, false
						}
						if _, err := strconv.ParseUint(s[i+1:i+5], 16, 16); err != nil || strings.Contains(s[i+1:i+5], "_") {
							return nil, false
						}
					}
				} else if s[i] == '"' {
					break
				}
			}
			i++
			tk.quoted = true
			tk.exact = utf8.ValidString(s[start:i]) && json.Unmarshal([]byte(s[start:i]), &tk.text) == nil
		} else {
			start := i
			for i < len(s) && strings.IndexByte(ws+",]", s[i]) < 0 {
				if strings.IndexByte(`[{"}`, s[i]) >= 0 {
					return nil, false
				}
				i++
			}
			tk.text = s[start:i]
			if tk.text == "" {
				return nil, false
			}
			tk.null = strings.EqualFold(tk.text, "null")
			tk.exact = true
		}
		out = append(out, tk)
		skip()
		if i >= len(s) {
			return nil, false
		}
		switch s[i] {
		case ',':
			i++
		case ']':
			i++
			skip()
			return out, i == len(s)
		default:
			return nil, false
		}
	}
}

// listType is one list column type of the library.
type listType struct {
	name string
	pg   bool
	el   *elemType
	rt   reflect.Type // the slice type []T
	// dest returns a scanner over a destination of type *[]T, given as any
	dest func(p any) sql.Scanner
	val  func(v any) driver.Valuer
}

func listT[T any](name string, pg bool, el *elemType, dest func(*[]T) sql.Scanner, val func([]T) driver.Valuer) *listType {
	return &listType{name: name, pg: pg, el: el, rt: reflect.TypeFor[[]T](),
		dest: func(p any) sql.Scanner { return dest(p.(*[]T)) }, val: func(v any) driver.Valuer { return val(v.([]T)) }}
}

func (l *listType) gen(t *pbt.T, max int, finite bool) reflect.Value {
	switch t.N(12) {
	case 0:
		return reflect.Zero(l.rt)
	case 1:
		return reflect.MakeSlice(l.rt, 0, 0)
	}
	n := t.Range(1, max)
	s := reflect.MakeSlice(l.rt, n, n)
	for i := 0; i < n; i++ {
		v := l.el.gen(t)
		if k := l.el.rt.Kind(); finite && (k == reflect.Float32 || k == reflect.Float64) {
			if f := reflect.ValueOf(v).Float(); math.IsNaN(f) || math.IsInf(f, 0) {
				v = reflect.Zero(l.el.rt).Interface()
			}
		}
		s.Index(i).Set(reflect.ValueOf(v))
	}
	return s
}

func (l *listType) equal(a, b reflect.Value) bool {
	if a.IsNil() != b.IsNil() || a.Len() != b.Len() {
		return false
	}
	for i := 0; i < a.Len(); i++ {
		if !l.el.eq(a.Index(i).Interface(), b.Index(i).Interface()) {
			return false
		}
	}
	return true
}

// render spells the list as the database would print it.
func (l *listType) render(t *pbt.T, s reflect.Value) string {
	var b strings.Builder
	if l.pg {
		b.WriteByte('{')
		for i := 0; i < s.Len(); i++ {
			if i > 0 {
				b.WriteByte(',')
			}
			b.WriteString(l.el.pg(t, s.Index(i).Interface()))
		}
		b.WriteByte('}')
		return b.String()
	}
	style := t.N(3)
	ws := func(afterComma bool) {
		switch {
		case style == 1 && afterComma: // as MySQL prints JSON
			b.WriteByte(' ')
		case style == 2:
			b.WriteString(pbt.Pick(t, "", "", " ", "\n", "\t", "  ", "\r\n"))
		}
	}
	ws(false)
	b.WriteByte('[')
	for i := 0; i < s.Len(); i++ {
		if i > 0 {
			b.WriteByte(',')
		}
		ws(i > 0)
		b.WriteString(l.el.json(t, s.Index(i).Interface()))
		ws(false)
	}
	if s.Len() == 0 {
		ws(false)
	}
	b.WriteByte(']')
	ws(false)
	return b.String()
}

// denotes reads text by the grammar and gives the list it denotes.
func (l *listType) denotes(text string) (v reflect.Value, exact, ok bool) {
	var toks []tok
	read := l.el.jsonTok
	if l.pg {
		toks, ok = pgArrayIn(text)
		read = l.el.pgTok
	} else {
		toks, ok = jsonArrayIn(text)
	}
	if !ok {
		return v, false, false
	}
	v = reflect.MakeSlice(l.rt, len(toks), len(toks))
	exact = true
	for i, tk := range toks {
		x, ok := read(tk)
		if !ok {
			return v, false, false
		}
		exact = exact && tk.exact
		v.Index(i).Set(reflect.ValueOf(x))
	}
	return v, exact, true
}

// fresh makes a destination holding old.
func (l *listType) fresh(old reflect.Value) reflect.Value {
	p := reflect.New(l.rt)
	if old.IsValid() && !old.IsNil() {
		c := reflect.MakeSlice(l.rt, old.Len(), old.Len())
		reflect.Copy(c, old)
		p.Elem().Set(c)
	}
	return p
}

type (
	lInt   int
	lI8    int8
	lI64   int64
	lU16   uint16
	lU64   uint64
	lF32   float32
	lF64   float64
	lBool  bool
	lStr   string
	lBytes []byte
)

func listTypes() []*listType {
	var ls []*listType
	add := func(l ...*listType) { ls = append(ls, l...) }
	add(jpInt[int]()...)
	add(jpInt[lInt]()...)
	add(jpInt8[int8]()...)
	add(jpInt8[lI8]()...)
	add(jpInt16[int16]()...)
	add(jpInt32[int32]()...)
	add(jpInt64[int64]()...)
	add(jpInt64[lI64]()...)
	add(jpUint[uint]()...)
	add(jpUint8[uint8]()...)
	add(jpUint16[uint16]()...)
	add(jpUint16[lU16]()...)
	add(jpUint32[uint32]()...)
	add(jpUint64[uint64]()...)
	add(jpUint64[lU64]()...)
	add(jpF32[float32]()...)
	add(jpF32[lF32]()...)
	add(jpF64[float64]()...)
	add(jpF64[lF64]()...)
	add(jpBool[bool]()...)
	add(jpBool[lBool]()...)
	add(jpStr[string]()...)
	add(jpStr[lStr]()...)
	add(pBytes[[]byte](), pBytes[lBytes]())
	return ls
}

func both[T any](el *elemType, j func(*[]T) sql.Scanner, jv func([]T) driver.Valuer, p func(*[]T) sql.Scanner, pv func([]T) driver.Valuer) []*listType {
	return []*listType{listT("json []"+el.name, false, el, j, jv), listT("pg []"+el.name, true, el, p, pv)}
}

func jpInt[T ~int]() []*listType {
	return both(intElem[T](strconv.IntSize, true), func(p *[]T) sql.Scanner { return (*sqltype.IntSlice[T])(p) }, func(v []T) driver.Valuer { return sqltype.IntSlice[T](v) },
		func(p *[]T) sql.Scanner { return (*pgtype.IntArray[T])(p) }, func(v []T) driver.Valuer { return pgtype.IntArray[T](v) })
}
func jpInt8[T ~int8]() []*listType {
	return both(intElem[T](8, true), func(p *[]T) sql.Scanner { return (*sqltype.Int8Slice[T])(p) }, func(v []T) driver.Valuer { return sqltype.Int8Slice[T](v) },
		func(p *[]T) sql.Scanner { return (*pgtype.Int8Array[T])(p) }, func(v []T) driver.Valuer { return pgtype.Int8Array[T](v) })
}
func jpInt16[T ~int16]() []*listType {
	return both(intElem[T](16, true), func(p *[]T) sql.Scanner { return (*sqltype.Int16Slice[T])(p) }, func(v []T) driver.Valuer { return sqltype.Int16Slice[T](v) },
		func(p *[]T) sql.Scanner { return (*pgtype.Int16Array[T])(p) }, func(v []T) driver.Valuer { return pgtype.Int16Array[T](v) })
}
func jpInt32[T ~int32]() []*listType {
	return both(intElem[T](32, true), func(p *[]T) sql.Scanner { return (*sqltype.Int32Slice[T])(p) }, func(v []T) driver.Valuer { return sqltype.Int32Slice[T](v) },
		func(p *[]T) sql.Scanner { return (*pgtype.Int32Array[T])(p) }, func(v []T) driver.Valuer { return pgtype.Int32Array[T](v) })
}
func jpInt64[T ~int64]() []*listType {
	return both(intElem[T](64, true), func(p *[]T) sql.Scanner { return (*sqltype.Int64Slice[T])(p) }, func(v []T) driver.Valuer { return sqltype.Int64Slice[T](v) },
		func(p *[]T) sql.Scanner { return (*pgtype.Int64Array[T])(p) }, func(v []T) driver.Valuer { return pgtype.Int64Array[T](v) })
}
func jpUint[T ~uint]() []*listType {
	return both(intElem[T](strconv.IntSize, false), func(p *[]T) sql.Scanner { return (*sqltype.UintSlice[T])(p) }, func(v []T) driver.Valuer { return sqltype.UintSlice[T](v) },
		func(p *[]T) sql.Scanner { return (*pgtype.UintArray[T])(p) }, func(v []T) driver.Valuer { return pgtype.UintArray[T](v) })
}
func jpUint8[T ~uint8]() []*listType {
	return both(intElem[T](8, false), func(p *[]T) sql.Scanner { return (*sqltype.Uint8Slice[T])(p) }, func(v []T) driver.Valuer { return sqltype.Uint8Slice[T](v) },
		func(p *[]T) sql.Scanner { return (*pgtype.Uint8Array[T])(p) }, func(v []T) driver.Valuer { return pgtype.Uint8Array[T](v) })
}
func jpUint16[T ~uint16]() []*listType {
	return both(intElem[T](16, false), func(p *[]T) sql.Scanner { return (*sqltype.Uint16Slice[T])(p) }, func(v []T) driver.Valuer { return sqltype.Uint16Slice[T](v) },
		func(p *[]T) sql.Scanner { return (*pgtype.Uint16Array[T])(p) }, func(v []T) driver.Valuer { return pgtype.Uint16Array[T](v) })
}
func jpUint32[T ~uint32]() []*listType {
	return both(intElem[T](32, false), func(p *[]T) sql.Scanner { return (*sqltype.Uint32Slice[T])(p) }, func(v []T) driver.Valuer { return sqltype.Uint32Slice[T](v) },
		func(p *[]T) sql.Scanner { return (*pgtype.Uint32Array[T])(p) }, func(v []T) driver.Valuer { return pgtype.Uint32Array[T](v) })
}
func jpUint64[T ~uint64]() []*listType {
	return both(intElem[T](64, false), func(p *[]T) sql.Scanner { return (*sqltype.Uint64Slice[T])(p) }, func(v []T) driver.Valuer { return sqltype.Uint64Slice[T](v) },
		func(p *[]T) sql.Scanner { return (*pgtype.Uint64Array[T])(p) }, func(v []T) driver.Valuer { return pgtype.Uint64Array[T](v) })
}
func jpF32[T ~float32]() []*listType {
	return both(floatElem[T](32), func(p *[]T) sql.Scanner { return (*sqltype.Float32Slice[T])(p) }, func(v []T) driver.Valuer { return sqltype.Float32Slice[T](v) },
		func(p *[]T) sql.Scanner { return (*pgtype.Float32Array[T])(p) }, func(v []T) driver.Valuer { return pgtype.Float32Array[T](v) })
}
func jpF64[T ~float64]() []*listType {
	return both(floatElem[T](64), func(p *[]T) sql.Scanner { return (*sqltype.Float64Slice[T])(p) }, func(v []T) driver.Valuer { return sqltype.Float64Slice[T](v) },
		func(p *[]T) sql.Scanner { return (*pgtype.Float64Array[T])(p) }, func(v []T) driver.Valuer { return pgtype.Float64Array[T](v) })
}
func jpBool[T ~bool]() []*listType {
	return both(boolElem[T](), func(p *[]T) sql.Scanner { return (*sqltype.BoolSlice[T])(p) }, func(v []T) driver.Valuer { return sqltype.BoolSlice[T](v) },
		func(p *[]T) sql.Scanner { return (*pgtype.BoolArray[T])(p) }, func(v []T) driver.Valuer { return pgtype.BoolArray[T](v) })
}
func jpStr[T ~string]() []*listType {
	return both(stringElem[T](), func(p *[]T) sql.Scanner { return (*sqltype.StringSlice[T])(p) }, func(v []T) driver.Valuer { return sqltype.StringSlice[T](v) },
		func(p *[]T) sql.Scanner { return (*pgtype.StringArray[T])(p) }, func(v []T) driver.Valuer { return pgtype.StringArray[T](v) })
}
func pBytes[T ~[]byte]() *listType {
	el := bytesElem[T]()
	return listT("pg []"+el.name, true, el, func(p *[]T) sql.Scanner { return (*pgtype.ByteaArray[T])(p) }, func(v []T) driver.Valuer { return pgtype.ByteaArray[T](v) })
}

// deliver gives the text as a driver does; scribble overwrites a byte delivery afterwards.
func deliver(t *pbt.T, s string) (v any, label string, scribble func()) {
	if t.Bool() {
		// a string a driver delivers is immutable, but its memory is not shared with the text here
		return strings.Clone(s), "string", func() {}
	}
	b := []byte(s)
	return b, "bytes", func() {
		for i := range b {
			b[i] = 0xAA
		}
	}
}

func valueText(v driver.Value) (string, bool) {
	switch x := v.(type) {
	case string:
		return x, true
	case []byte:
		return string(x), x != nil
	}
	return "", false
}

func roundTrip(s *pbt.Session, id string, l *listType) {
	s.Run(pbt.Check{Name: "write/" + l.name, Cases: 2500, Thorough: 100000, Run: func(t *pbt.T) {
		list := l.gen(t, 7, !l.pg)
		t.Logf("%s = %#v", l.name, list.Interface())
		v, err := l.val(list.Interface()).Value()
		if err != nil {
			t.Fail(id+":encode-error:"+l.name, "encoding failed: %v", err)
		}
		if list.IsNil() {
			if v != nil {
				t.Fail(id+":nil:"+l.name, "a nil slice is encoded as %v, want NULL", v)
			}
			p := l.fresh(l.gen(t, 3, !l.pg))
			if err := l.dest(p.Interface()).Scan(nil); err != nil || !p.Elem().IsNil() {
				t.Fail(id+":null:"+l.name, "NULL gives %#v, %v", p.Elem().Interface(), err)
			}
			return
		}
		text, ok := valueText(v)
		if !ok {
			t.Fail(id+":encode-type:"+l.name, "encoded as %T", v)
		}
		if !l.pg && !json.Valid([]byte(text)) {
			t.Fail(id+":invalid-json:"+l.name, "%q is not valid JSON", text)
		}
		got, _, ok := l.denotes(text)
		if toks, _ := pgArrayIn(text); l.pg {
			for _, tk := range toks {
				if !tk.quoted && strings.EqualFold(tk.text, "NULL") {
					t.Fail(id+":null-word:"+l.name, "encoded as %q, which holds a NULL", text)
				}
			}
		}
		if !ok || !l.equal(got, list) {
			t.Fail(id+":denotes:"+l.name, "encoded as %q, which does not denote the list (denotes %#v)", text, got)
		}
		p := l.fresh(l.gen(t, 3, !l.pg))
		d, form, scribble := deliver(t, text)
		if err := l.dest(p.Interface()).Scan(d); err != nil {
			t.Fail(id+":readback-error:"+l.name, "%q (%s) read back: %v", text, form, err)
		}
		scribble()
		if !l.equal(p.Elem(), list) {
			t.Fail(id+":readback:"+l.name, "%q (%s) reads back as %#v", text, form, p.Elem().Interface())
		}
		if list.Len() > 0 {
			t.NonTrivial(l.name + text)
		}
	}})
	s.Run(pbt.Check{Name: "read/" + l.name, Cases: 2500, Thorough: 100000, Run: func(t *pbt.T) {
		list := l.gen(t, 7, !l.pg)
		if list.IsNil() {
			list = reflect.MakeSlice(l.rt, 0, 0)
		}
		text := l.render(t, list)
		t.Logf("%s, database prints %q", l.name, text)
		if got, _, ok := l.denotes(text); !ok || !l.equal(got, list) {
			panic(fmt.Sprintf("harness: %q does not denote %#v but %#v", text, list, got))
		}
		p := l.fresh(l.gen(t, 3, !l.pg))
		d, form, scribble := deliver(t, text)
		if err := l.dest(p.Interface()).Scan(d); err != nil {
			t.Fail(id+":read-error:"+l.name, "%q (%s) rejected: %v", text, form, err)
		}
		scribble()
		if !l.equal(p.Elem(), list) {
			t.Fail(id+":read:"+l.name, "%q (%s) reads as %#v, want %#v", text, form, p.Elem().Interface(), list.Interface())
		}
		if list.Len() > 0 {
			t.NonTrivial(l.name + text)
		}
	}})
}

func malformed(s *pbt.Session, l *listType) {
	judge := func(t *pbt.T, text string) {
		old := l.gen(t, 3, !l.pg)
		p := l.fresh(old)
		d, form, _ := deliver(t, text)
		t.Logf("%s holding %#v, delivered %q (%s)", l.name, old.Interface(), text, form)
		want, exact, ok := l.denotes(text)
		err := l.dest(p.Interface()).Scan(d)
		if err != nil {
			if !l.equal(p.Elem(), old) {
				t.Fail("C07:changed:"+l.name, "after the error %v the destination holds %#v", err, p.Elem().Interface())
			}
			t.NonTrivial(l.name + text)
			return
		}
		if l.pg && pgUnprinted(text) {
			return
		}
		if !ok {
			t.Fail("C07:accepts:"+l.name, "%q accepted as %#v", text, p.Elem().Interface())
		}
		if exact && !l.equal(p.Elem(), want) {
			t.Fail("C07:invents:"+l.name, "%q read as %#v, it denotes %#v", text, p.Elem().Interface(), want.Interface())
		}
	}
	s.Run(pbt.Check{Name: "mutated/" + l.name, Cases: 3000, Thorough: 200000, Run: func(t *pbt.T) {
		list := l.gen(t, 4, !l.pg)
		if list.IsNil() {
			list = reflect.MakeSlice(l.rt, 0, 0)
		}
		b := []byte(l.render(t, list))
		for n := t.Range(1, 3); n > 0; n-- {
			c := pbt.Pick(t, `"`, `\`, ",", "{", "}", "[", "]", " ", "1", "-", "NULL", "null", "t", "a", "e", ".", "\x00", "x", `\u`, "\xff", ":", "\n", "'", "0", "9999999999")
			at := t.N(len(b) + 1)
			switch t.N(5) {
			case 0:
				b = append(b[:at:at], append([]byte(c), b[at:]...)...)
			case 1:
				if at < len(b) {
					b = append(b[:at:at], b[at+1:]...)
				}
			case 2:
				if at < len(b) {
					b = append(b[:at:at], append([]byte(c), b[at+1:]...)...)
				}
			case 3:
				b = b[:at:at]
			default:
				to := at + t.N(len(b)-at+1)
				b = append(b[:to:to], b[at:]...)
			}
		}
		judge(t, string(b))
	}})
	s.Run(pbt.Check{Name: "bad-element/" + l.name, Cases: 1500, Thorough: 50000, Run: func(t *pbt.T) {
		list := l.gen(t, 4, !l.pg)
		bad := l.el.badJSON
		if l.pg {
			bad = l.el.badPG
		}
		var parts []string
		n := 0
		if !list.IsNil() {
			n = list.Len()
		}
		for i := 0; i < n; i++ {
			if l.pg {
				parts = append(parts, l.el.pg(t, list.Index(i).Interface()))
			} else {
				parts = append(parts, l.el.json(t, list.Index(i).Interface()))
			}
		}
		at := t.N(n + 1)
		parts = append(parts[:at:at], append([]string{bad[t.N(len(bad))]}, parts[at:]...)...)
		text := strings.Join(parts, ",")
		if l.pg {
			text = "{" + text + "}"
		} else {
			text = "[" + text + "]"
		}
		if t.P(1, 6) { // nested
			text = text[:1] + text + text[len(text)-1:]
		}
		judge(t, text)
	}})
	s.Run(pbt.Check{Name: "soup/" + l.name, Cases: 1500, Thorough: 100000, Run: func(t *pbt.T) {
		var b strings.Builder
		if t.P(3, 4) {
			b.WriteString(pbt.Pick(t, "[", "{"))
		}
		for n := t.N(14); n > 0; n-- {
			if t.P(1, 8) {
				b.WriteString(t.String(3, true))
			} else {
				b.WriteString(pbt.Pick(t, `"`, `\`, ",", "{", "}", "[", "]", " ", "1", "-1", "NULL", "null", "t", "f", "true", "abc", `"a"`, `"b",`, "1.5", `\x`, `"\\x00"`, "300"))
			}
		}
		judge(t, b.String())
	}})
	s.Run(pbt.Check{Name: "wrong-type/" + l.name, Cases: 60, Thorough: 600, Run: func(t *pbt.T) {
		old := l.gen(t, 3, !l.pg)
		p := l.fresh(old)
		v := pbt.Pick(t, any(int64(1)), any(1.5), any(true), any([]int{1}), any(struct{}{}), any([]string{"a"}))
		t.Logf("%s, delivered %T(%v)", l.name, v, v)
		t.NonTrivial(fmt.Sprintf("%s%T", l.name, v))
		if err := l.dest(p.Interface()).Scan(v); err == nil {
			t.Fail("C07:accepts-type:"+l.name, "%T(%v) accepted as %#v", v, v, p.Elem().Interface())
		}
		if !l.equal(p.Elem(), old) {
			t.Fail("C07:changed:"+l.name, "after the error the destination holds %#v", p.Elem().Interface())
		}
	}})
}

func init() {
	ls := listTypes()
	props["C05"] = func(s *pbt.Session) {
		s.Rule = "a case writes one drawn slice and reads the text back, or reads one drawn JSON rendering of a slice; non-trivial: the slice is not empty (distinct by type and text)"
		for _, l := range ls {
			if !l.pg {
				roundTrip(s, "C05", l)
			}
		}
	}
	props["C06"] = func(s *pbt.Session) {
		s.Rule = "a case writes one drawn slice and reads the text back, or reads one literal as PostgreSQL's array_out prints it; non-trivial: the slice is not empty (distinct by type and text)"
		s.Assume = []string{"array_in, array_out, byteain and byteaout are transcribed from the PostgreSQL documentation; arrays have the default lower bound"}
		for _, l := range ls {
			if l.pg {
				roundTrip(s, "C06", l)
			}
		}
	}
	props["C07"] = func(s *pbt.Session) {
		s.Rule = "a case delivers a mutated list text, a list with one element outside the type, or token soup; non-trivial: it was rejected (distinct by type and text)"
		s.Assume = []string{"where the text is only lenient-grammar well-formed (bare words, unknown escapes, blanks PostgreSQL never prints) either an error or any reading is accepted"}
		for _, l := range ls {
			malformed(s, l)
		}
	}
}
