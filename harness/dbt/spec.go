// Package dbt checks the database helpers: properties C21 to C30. The models below are
// generated for every dialect, compiled together with the generated helpers, and run
// against the emulated database.
package dbt

import (
	"database/sql/driver"
	"encoding/json"
	"fmt"
	"reflect"
	"strings"
	"time"

	"verifharness/emudb"
)

// Col is a column of a model.
type Col struct {
	Name   string // in the database, without quotes
	Field  string // path of the field
	Kind   string // int uint float float32 string bytes bool time json
	Bits   int    // of integers
	Null   bool
	RO     bool
	Unique bool
	Coded  bool // can only be read as peek(column)
}

// Spec is a model.
type Spec struct {
	Go, Pkg string
	Table   string
	DB      string // its database
	Cols    []Col
	Key     []int
	Auto    bool  // the key is generated
	Dup     []int // DuplicateKeys()
	Omit    []int // OnUpsertOmitColumns()
	Quoted  bool  // only with quoted identifiers
	NoInc   bool
}

func (s *Spec) col(name string) int {
	for i, c := range s.Cols {
		if c.Name == name {
			return i
		}
	}
	return -1
}

func (s *Spec) isKey(i int) bool {
	for _, k := range s.Key {
		if k == i {
			return true
		}
	}
	return false
}

// RODefault is what the database writes to a readonly column.
const RODefault = int64(7)

func i64(name, field string) Col { return Col{Name: name, Field: field, Kind: "int", Bits: 64} }
func str(name, field string) Col { return Col{Name: name, Field: field, Kind: "string"} }

// Specs are the models of src/models.go.txt and src/hand.go.txt.
var Specs = []*Spec{
	{Go: "User", Pkg: "m", Table: "user", Key: []int{0}, Auto: true, Cols: []Col{
		i64("id", "ID"), {Name: "email", Field: "Email", Kind: "string", Unique: true}, str("name", "Name"),
		{Name: "nick", Field: "Nick", Kind: "string", Null: true}, i64("age", "Age"),
		{Name: "score", Field: "Score", Kind: "float"}, {Name: "flag", Field: "Flag", Kind: "bool"},
		{Name: "born", Field: "Born", Kind: "time"}, str("mood", "Mood")}},
	{Go: "Item", Pkg: "m", Table: "item", Key: []int{2}, Cols: []Col{
		{Name: "note", Field: "Base.Note", Kind: "int", Bits: 64, Null: true},
		{Name: "blob", Field: "Base.Blob", Kind: "bytes", Null: true}, str("sku", "Sku"),
		{Name: "qty", Field: "Qty", Kind: "uint", Bits: 32}, {Name: "rate", Field: "Rate", Kind: "float32"},
		{Name: "meta", Field: "Meta", Kind: "json"}}},
	{Go: "Pair", Pkg: "m", Table: "pairs", Key: []int{0, 2}, Cols: []Col{
		str("a", "A"), {Name: "w", Field: "W", Kind: "int", Bits: 64, Null: true}, i64("b", "B"),
		{Name: "pair_at", Field: "At", Kind: "time"}}},
	{Go: "Stamp", Pkg: "m", Table: "stamp", Key: []int{0}, Cols: []Col{
		str("code", "Code"), i64("val", "Val"), {Name: "seq", Field: "Seq", Kind: "int", Bits: 64, RO: true}}},
	{Go: "Auto", Pkg: "m", Table: "auto", Key: []int{1}, Auto: true, Cols: []Col{
		str("title", "Title"), {Name: "num", Field: "Num", Kind: "uint", Bits: 32},
		{Name: "ver", Field: "Ver", Kind: "int", Bits: 64, RO: true}, {Name: "level", Field: "Level", Kind: "int", Bits: 8}}},
	{Go: "Order", Pkg: "m", Table: "order", Key: []int{1}, Quoted: true, Cols: []Col{
		{Name: "from", Field: "From", Kind: "string", Null: true}, str("select", "Select"), i64("group", "Group")}},
	{Go: "Solo", Pkg: "m", Table: "solo", Key: []int{0}, Cols: []Col{str("k", "K")}},
	{Go: "Duo", Pkg: "m", Table: "duo", Key: []int{0, 1}, Cols: []Col{i64("a", "A"), str("b", "B")}},
	{Go: "Log", Pkg: "m", Table: "log", Cols: []Col{
		str("msg", "Msg"), {Name: "n", Field: "N", Kind: "float", Null: true}}},
	{Go: "Hand", Pkg: "m", Table: "hand_t", DB: "shop", Key: []int{0}, Cols: []Col{i64("id", "ID"), str("x", "X")}},
	{Go: "Uniq", Pkg: "m", Table: "uniq", Key: []int{0}, Dup: []int{1}, Omit: []int{3}, Cols: []Col{
		str("code", "Code"), {Name: "slug", Field: "Slug", Kind: "string", Unique: true},
		{Name: "val", Field: "Val", Kind: "int", Bits: 64, Null: true}, i64("hits", "Hits")}},
	{Go: "HKey", Pkg: "h", Table: "hkey", Key: []int{1}, Cols: []Col{
		i64("n", "N"), str("k", "K"), {Name: "s", Field: "S", Kind: "string", Null: true}}},
	{Go: "HAuto", Pkg: "h", Table: "hauto", Key: []int{1}, Auto: true, Cols: []Col{
		str("s", "S"), i64("id", "ID"), {Name: "ro", Field: "RO", Kind: "int", Bits: 64, RO: true}, i64("n", "N")}},
	{Go: "HFull", Pkg: "h", Table: "hfull", DB: "shop", Key: []int{1}, Auto: true, Cols: []Col{
		str("s", "S"), i64("id", "ID"), i64("n", "N")}},
	{Go: "Wide", Pkg: "m", Table: "wide", Key: []int{1, 9, 12}, Cols: []Col{
		i64("c_1", "C1"), str("k_1", "K1"), str("c_2", "C2"), {Name: "c_3", Field: "C3", Kind: "string", Null: true}, i64("c_4", "C4"),
		{Name: "c_5", Field: "C5", Kind: "bool"}, i64("c_6", "C6"), str("c_7", "C7"), {Name: "c_8", Field: "C8", Kind: "float"},
		i64("k_0", "K0"), {Name: "ro", Field: "RO", Kind: "int", Bits: 64, RO: true}, i64("c_9", "C9"), i64("k_2", "K2"), str("c_10", "C10")}},
	{Go: "HTri", Pkg: "h", Table: "htri", Key: []int{1, 10, 5}, Cols: []Col{
		str("c0", "C0"), str("k0", "K0"), i64("c1", "C1"), i64("c2", "C2"), i64("c3", "C3"), i64("k2", "K2"), i64("c4", "C4"), i64("c5", "C5"),
		i64("c6", "C6"), {Name: "c7", Field: "C7", Kind: "string", Null: true}, i64("k1", "K1"), i64("c8", "C8")}},
	{Go: "View", Pkg: "m", Table: "view_t", Key: []int{1}, Cols: []Col{
		i64("n", "N"), str("id", "ID"), {Name: "coded", Field: "Coded", Kind: "string", Coded: true}}},
	{Go: "Sight", Pkg: "m", Table: "sight", Key: []int{0, 2}, Cols: []Col{
		i64("x", "X"), {Name: "coded", Field: "Coded", Kind: "string", Coded: true}, i64("y", "Y"), {Name: "m", Field: "M", Kind: "string", Null: true}}},
	{Go: "HView", Pkg: "h", Table: "hview", Key: []int{1, 2}, Cols: []Col{
		{Name: "coded", Field: "Coded", Kind: "string", Coded: true}, i64("a", "A"), i64("b", "B"), i64("n", "N")}},
	{Go: "HPair", Pkg: "h", Table: "hpair", Key: []int{2, 0}, Cols: []Col{
		i64("x", "X"), i64("v", "V"), str("y", "Y")}},
}

func lite(s string) string { return `"` + strings.ReplaceAll(s, `"`, `""`) + `"` }

func (s *Spec) full() string {
	if s.DB != "" {
		return lite(s.DB) + "." + lite(s.Table)
	}
	return lite(s.Table)
}

// DDL creates the table, and one of the same name in the main database when the model
// has its own.
func (s *Spec) DDL() []string {
	var cols []string
	for i, c := range s.Cols {
		typ := map[string]string{"int": "INTEGER", "uint": "INTEGER", "bool": "INTEGER", "float": "REAL", "float32": "REAL",
			"string": "TEXT", "time": "TEXT", "bytes": "BLOB", "json": "BLOB"}[c.Kind]
		d := lite(c.Name) + " " + typ
		switch {
		case s.Auto && s.isKey(i):
			d = lite(c.Name) + " INTEGER PRIMARY KEY AUTOINCREMENT"
		case len(s.Key) == 1 && s.isKey(i):
			d += " NOT NULL PRIMARY KEY"
		case !c.Null:
			d += " NOT NULL"
		}
		if c.Unique {
			d += " UNIQUE"
		}
		if c.RO {
			d += fmt.Sprintf(" DEFAULT %d", RODefault)
		}
		cols = append(cols, d)
	}
	if len(s.Key) > 1 {
		var l []string
		for _, k := range s.Key {
			l = append(l, lite(s.Cols[k].Name))
		}
		cols = append(cols, "PRIMARY KEY ("+strings.Join(l, ",")+")")
	}
	body := " (" + strings.Join(cols, ",") + ")"
	out := []string{"CREATE TABLE " + s.full() + body}
	if s.DB != "" {
		out = append(out, "CREATE TABLE main."+lite(s.Table)+body)
	}
	return out
}

// B is bytes, as a value that compares.
type B string

// Row is a row in the form in which values are compared: nil, int64, float64, string, B.
type Row []any

func (r Row) clone() Row { return append(Row(nil), r...) }

func (r Row) eq(o Row) bool {
	if len(r) != len(o) {
		return false
	}
	for i := range r {
		if r[i] != o[i] {
			return false
		}
	}
	return true
}

type meta struct {
	K string
	N int
}

func field(v reflect.Value, path string) reflect.Value {
	for _, f := range strings.Split(path, ".") {
		v = v.FieldByName(f)
	}
	return v
}

func canonValue(c Col, v reflect.Value) any {
	if v.Kind() == reflect.Pointer {
		if v.IsNil() {
			return nil
		}
		v = v.Elem()
	}
	switch c.Kind {
	case "int":
		return v.Int()
	case "uint":
		return int64(v.Uint())
	case "bool":
		if v.Bool() {
			return int64(1)
		}
		return int64(0)
	case "float", "float32":
		return v.Float()
	case "string":
		return v.String()
	case "bytes":
		if v.IsNil() {
			return nil
		}
		return B(v.Bytes())
	case "time":
		return v.Interface().(time.Time).UTC().Format(emudb.TimeLayout)
	case "json":
		b, err := json.Marshal(v.Interface())
		if err != nil {
			panic(err)
		}
		return string(b)
	}
	panic(c.Kind)
}

// setValue sets a field (or any value) to a canonical value.
func setValue(v reflect.Value, x any) {
	if v.Kind() == reflect.Pointer {
		if x == nil {
			v.SetZero()
			return
		}
		v.Set(reflect.New(v.Type().Elem()))
		v = v.Elem()
	}
	switch x := x.(type) {
	case nil:
		v.SetZero()
	case int64:
		switch v.Kind() {
		case reflect.Bool:
			v.SetBool(x != 0)
		case reflect.Uint, reflect.Uint8, reflect.Uint16, reflect.Uint32, reflect.Uint64:
			v.SetUint(uint64(x))
		default:
			v.SetInt(x)
		}
	case float64:
		v.SetFloat(x)
	case B:
		v.SetBytes([]byte(x))
	case string:
		switch v.Kind() {
		case reflect.String:
			v.SetString(strings.Clone(x))
		case reflect.Struct:
			if v.Type() == reflect.TypeFor[time.Time]() {
				t, err := time.Parse(emudb.TimeLayout, x)
				if err != nil {
					panic(err)
				}
				v.Set(reflect.ValueOf(t))
				return
			}
			if err := json.Unmarshal([]byte(x), v.Addr().Interface()); err != nil {
				panic(err)
			}
		default:
			panic(v.Type().String())
		}
	default:
		panic(fmt.Sprintf("%T", x))
	}
}

// As gives a canonical value in a type.
func As[T any](x any) T {
	var v T
	setValue(reflect.ValueOf(&v).Elem(), x)
	return v
}

// canon gives the row of a model (a pointer to it).
func (s *Spec) canon(m any) Row {
	v := reflect.ValueOf(m).Elem()
	r := make(Row, len(s.Cols))
	for i, c := range s.Cols {
		r[i] = canonValue(c, field(v, c.Field))
	}
	return r
}

func (s *Spec) fill(m any, r Row) {
	v := reflect.ValueOf(m).Elem()
	for i, c := range s.Cols {
		setValue(field(v, c.Field), r[i])
	}
}

// kept gives the canonical form of a kept value.
func kept(c Col, v driver.Value) any {
	if v == nil {
		return nil
	}
	switch c.Kind {
	case "bytes":
		switch v := v.(type) {
		case []byte:
			return B(v)
		case string:
			return B(v)
		}
	case "json":
		var text string
		switch v := v.(type) {
		case []byte:
			text = string(v)
		case string:
			text = v
		}
		var mt meta
		if err := json.Unmarshal([]byte(text), &mt); err != nil {
			return fmt.Sprintf("not JSON: %v", v)
		}
		b, _ := json.Marshal(mt)
		return string(b)
	case "string", "time":
		if b, ok := v.([]byte); ok {
			return string(b)
		}
	case "float", "float32":
		if n, ok := v.(int64); ok {
			return float64(n)
		}
	}
	return v
}

// raw gives the form in which a canonical value is kept.
func raw(x any) driver.Value {
	if b, ok := x.(B); ok {
		return []byte(b)
	}
	return x
}

func (s *Spec) show(r Row) string {
	var b strings.Builder
	b.WriteByte('{')
	for i, c := range s.Cols {
		if i > 0 {
			b.WriteByte(' ')
		}
		fmt.Fprintf(&b, "%s:%#v", c.Name, r[i])
	}
	b.WriteByte('}')
	return b.String()
}
