// Package gspec describes packages of models: it draws them at random, renders
// them as Go source, and says what the generated code has to report for them.
package gspec

import (
	"fmt"
	"hash/fnv"
	"sort"
	"strconv"
	"strings"
	"unicode"

	"verifharness/pbt"
)

type Field struct {
	Name string   // Go name, or the name an embedded field gets
	Type string   // Go type expression in the package of the models
	Col  string   // explicit column name
	Opts []string // tag options
	Skip bool     // sql:"-"

	Embed    *Struct // embedded struct
	EmbedPtr bool
	Apart    bool // another embedded field of the model has the same name
	// unexported or blank fields are never persisted
}

type Struct struct {
	Go       string
	TypeName string // how it is spelled where it is embedded
	Decl     string // "" for a struct literal; else the right-hand side of its declaration
	Table    string // explicit table name
	Readonly bool
	Foreign  bool // declared outside the package
	TParams  string
	Model    bool // methods are generated for it
	Promotes bool // it has, or aliases a type which has, generated methods
	Fields   []*Field
	Methods  string // hand-written methods
	Hand     []string
	File     int
	Ignore   bool
}

type Spec struct {
	Dialect  string
	Naming   string
	Tag      string
	Quote    bool
	Prefix   string
	Filename string
	Strict   bool
	Locals   []string // names of the local types which are used
	Structs  []*Struct
	Types    map[string]string
	Seed     uint64
	Files    int
}

// Column is what is persisted of a field.
type Column struct {
	Name   string
	Path   []string
	Type   string
	PK     bool
	Auto   bool
	RO     bool
	GoName string
	PtrAt  []int // positions in Path which are embedded pointers
}

// ---------------------------------------------------------------- naming

func low(c byte) bool { return c >= 'a' && c <= 'z' }
func upr(c byte) bool { return c >= 'A' && c <= 'Z' }
func num(c byte) bool { return c >= '0' && c <= '9' }

// Snake splits at case changes and around digits; a run of capitals is one word, but for
// the last one when a small letter follows it.
func Snake(s string) string {
	var b strings.Builder
	for i := 0; i < len(s); i++ {
		if i > 0 {
			p, c := s[i-1], s[i]
			cut := low(p) && (upr(c) || num(c)) || num(p) && (low(c) || upr(c)) || upr(p) && num(c) ||
				upr(p) && upr(c) && i+1 < len(s) && low(s[i+1])
			if cut {
				b.WriteByte('_')
			}
		}
		if upr(s[i]) {
			b.WriteByte(s[i] + 32)
		} else {
			b.WriteByte(s[i])
		}
	}
	return b.String()
}

// Camel keeps letters and digits, starts a capital after a digit or an underscore, and
// lowers the rest of a run of capitals.
func Camel(s string, pascal bool) string {
	if s == "ID" {
		if pascal {
			return "Id"
		}
		return "id"
	}
	var b strings.Builder
	for i := 0; i < len(s); i++ {
		c := s[i]
		if c == '_' {
			continue
		}
		start := i > 0 && (num(s[i-1]) || s[i-1] == '_')
		switch {
		case i == 0 && pascal, start:
			if low(c) {
				c -= 32
			}
		case i == 0:
			if upr(c) {
				c += 32
			}
		case upr(c) && upr(s[i-1]):
			c += 32
		}
		b.WriteByte(c)
	}
	return b.String()
}

func (s *Spec) Rename(name string) string {
	switch s.Naming {
	case "camelCase":
		return Camel(name, false)
	case "PascalCase":
		return Camel(name, true)
	}
	return Snake(name)
}

// ---------------------------------------------------------------- oracle

func (s *Spec) Columns(m *Struct) []Column { return s.columns(m.Fields, nil, nil) }

func (s *Spec) columns(fs []*Field, path []string, ptrs []int) (out []Column) {
	for _, f := range fs {
		if f.Skip {
			continue
		}
		if f.Embed != nil {
			p := append(append([]string{}, path...), f.Name)
			pp := append([]int{}, ptrs...)
			if f.EmbedPtr {
				pp = append(pp, len(path))
			}
			out = append(out, s.columns(f.Embed.Fields, p, pp)...)
			continue
		}
		if !exported(f.Name) {
			continue
		}
		c := Column{Name: f.Col, Path: append(append([]string{}, path...), f.Name), Type: f.Type, GoName: f.Name, PtrAt: ptrs}
		if c.Name == "" {
			c.Name = s.Rename(f.Name)
		}
		for _, o := range f.Opts {
			switch strings.ToLower(o) {
			case "pk", "primary_key":
				c.PK = true
			case "auto_increment":
				c.Auto = true
			case "readonly":
				c.RO = true
			}
		}
		out = append(out, c)
	}
	return out
}

func exported(n string) bool {
	for _, r := range n {
		return unicode.IsUpper(r)
	}
	return false
}

func (s *Spec) TableName(m *Struct) string {
	if m.Table != "" {
		return m.Table
	}
	return s.Rename(m.Go)
}

// Ident is a column or table name as it is reported.
func (s *Spec) Ident(n string) string {
	if !s.Quote {
		return n
	}
	return s.MustIdent(n)
}

func (s *Spec) MustIdent(n string) string {
	if s.Dialect == "mysql" {
		return "`" + n + "`"
	}
	return `"` + n + `"`
}

func (s *Spec) Models() (out []*Struct) {
	for _, m := range s.Structs {
		if m.Model && !m.Ignore && len(s.Columns(m)) > 0 {
			out = append(out, m)
		}
	}
	return out
}

// ---------------------------------------------------------------- types

var Plain = []string{"string", "bool", "int", "int8", "int16", "int32", "int64", "uint", "uint8", "uint16", "uint32", "uint64", "float32", "float64", "time.Time", "byte", "rune", "[]byte"}

// Locals are the types declared next to the models.
var Locals = map[string]string{
	"LStr":    "type LStr string",
	"LInt":    "type LInt int32",
	"LUint":   "type LUint uint64",
	"LFloat":  "type LFloat float64",
	"LBool":   "type LBool bool",
	"LBytes":  "type LBytes []byte",
	"LStrs":   "type LStrs []string",
	"LInts":   "type LInts []int64",
	"LTime":   "type LTime time.Time",
	"LMap":    "type LMap map[string]LStr",
	"lPriv":   "type lPriv string",
	"LAlias":  "type LAlias = string",
	"LATime":  "type LATime = time.Time",
	"LALab":   "type LALab = mtypes.Label",
	"LAInt":   "type LAInt = LInt",
	"LABytes": "type LABytes = []byte",
	"LAStrs":  "type LAStrs = []string",
	"LAArr":   "type LAArr = [5]byte",
	"LAMap":   "type LAMap = map[string]int",
	"LAGen":   "type LAGen = LGen[LAInt]",
	"LAHv":    "type LAHv = HvInt",
	"LAText":  "type LAText = LText",
	"LPInt":   "type LPInt = *int",
	"LPStr":   "type LPStr = *LStr",
	"LPTime":  "type LPTime = *time.Time",
	"LPVal":   "type LPVal = *LVal",
	"LPAl":    "type LPAl = *LAInt",
	"LPMap":   "type LPMap = *map[string]int",
	"LPair":   "type LPair = mtypes.Pair[string, time.Time]",
	"LRunes":  "type LRunes []rune",
	"LArr":    "type LArr [6]byte",
	"lObj": `type lObj struct {
	A int
	B string
	C []float64
	D *lObj
}`,
	"LText": `type LText struct{ s string }

func (t LText) MarshalText() ([]byte, error)  { return []byte("<" + t.s + ">"), nil }
func (t *LText) UnmarshalText(b []byte) error { t.s = string(b[1 : len(b)-1]); return nil }`,
	"LVal": `type LVal struct{ n int64 }

func (t LVal) Value() (driver.Value, error) { return t.n, nil }
func (t *LVal) Scan(v any) error {
	switch v := v.(type) {
	case nil:
		t.n = 0
	case int64:
		t.n = v
	case []byte:
		n, err := strconv.ParseInt(string(v), 10, 64)
		t.n = n
		return err
	default:
		return fmt.Errorf("LVal from %T", v)
	}
	return nil
}`,
	"LGen": `type LGen[T any] struct{ V T }`,
	// types with a database representation of their own, which the default one differs from
	"HvStr": `type HvStr string

func (h HvStr) Value() (driver.Value, error) { return hvValue(string(h)) }
func (h *HvStr) Scan(v any) error { return hvScan(v, (*string)(h)) }

func hvValue(v any) (driver.Value, error) {
	b, err := json.Marshal(v)
	return "hv:" + string(b), err
}

func hvScan(v, dst any) error {
	switch t := v.(type) {
	case nil:
		return json.Unmarshal([]byte("null"), dst)
	case []byte:
		return hvScan(string(t), dst)
	case string:
		if len(t) < 3 || t[:3] != "hv:" {
			return fmt.Errorf("no mark in %q", t)
		}
		return json.Unmarshal([]byte(t[3:]), dst)
	}
	return fmt.Errorf("Scan of %T", v)
}`,
	"HvInt":  "type HvInt int64\n\nfunc (h HvInt) Value() (driver.Value, error) { return hvValue(int64(h)) }\nfunc (h *HvInt) Scan(v any) error { *h = 0; return hvScan(v, (*int64)(h)) }",
	"HvInts": "type HvInts []int\n\nfunc (h HvInts) Value() (driver.Value, error) { return hvValue([]int(h)) }\nfunc (h *HvInts) Scan(v any) error { *h = nil; return hvScan(v, (*[]int)(h)) }",
	"HvMap":  "type HvMap map[string]int\n\nfunc (h HvMap) Value() (driver.Value, error) { return hvValue(map[string]int(h)) }\nfunc (h *HvMap) Scan(v any) error { *h = nil; return hvScan(v, (*map[string]int)(h)) }",
	"HvPtr":  "type HvPtr []string\n\nfunc (h *HvPtr) Value() (driver.Value, error) {\n\tif h == nil {\n\t\treturn nil, nil\n\t}\n\treturn hvValue([]string(*h))\n}\nfunc (h *HvPtr) Scan(v any) error { *h = nil; return hvScan(v, (*[]string)(h)) }",
	"HvBool": "type HvBool bool\n\nfunc (h HvBool) Value() (driver.Value, error) { return hvValue(bool(h)) }\nfunc (h *HvBool) Scan(v any) error { *h = false; return hvScan(v, (*bool)(h)) }",
}

var scalarNamed = []string{"LStr", "LInt", "LUint", "LFloat", "LBool", "LBytes", "LStrs", "LInts", "LTime", "LMap", "lPriv", "LAlias", "LATime", "LALab", "LAInt", "LABytes", "LAStrs", "LAArr", "LAMap", "LAGen", "LAHv", "LAText", "LPair", "LRunes", "LArr", "lObj", "LText", "LVal",
	"HvStr", "HvInt", "HvInts", "HvMap", "HvPtr", "HvBool", "LGen[int]", "LGen[LGen[string]]", "LGen[mtypes.Label]", "LGen[time.Time]",
	"mtypes.Label", "mtypes.Level", "mtypes.Count", "mtypes.Ratio", "mtypes.Flag", "mtypes.Raw", "mtypes.Tags", "mtypes.Marks", "mtypes.Stamp", "mtypes.Code", "mtypes.Glyphs", "mtypes.Index",
	"mtypes.Geo", "mtypes.Email", "mtypes.Money", "mtypes.Doc", "mtypes.Color", "mtypes.Pair[string, int]", "mtypes.Pair[altm.Label, mtypes.Geo]",
	"altm.Label", "altm.Geo", "altm.Level",
	"sql.NullString", "sql.NullInt64", "sql.NullTime", "sql.NullBool", "sql.Null[int64]", "sql.Null[string]", "json.RawMessage", "json.Number",
	"netip.Addr", "uuid.UUID", "big.Int", "ti.Duration", "time.Month"}

var elemTypes = []string{"string", "bool", "int", "int8", "int16", "int32", "int64", "uint", "uint16", "uint32", "uint64", "float32", "float64", "LStr", "LInt", "LBool", "LFloat", "LUint", "mtypes.Label", "altm.Label", "rune", "byte", "time.Time", "lObj", "[]string", "[]byte", "*string", "map[string]int", "mtypes.Geo", "uuid.UUID", "any"}

// Type draws a field type.
func Type(t *pbt.T) string {
	switch t.N(10) {
	case 0, 1, 2:
		return pbt.Pick(t, Plain...)
	case 3:
		return "*" + pbt.Pick(t, Plain...)
	case 4, 5:
		if t.P(1, 6) {
			return odd(t)
		}
		if t.P(1, 12) {
			return pbt.Pick(t, "LPInt", "LPStr", "LPTime", "LPVal", "LPAl", "LPMap")
		}
		return pbt.Pick(t, scalarNamed...)
	case 6:
		if t.P(1, 6) {
			return "*" + odd(t)
		}
		return "*" + pbt.Pick(t, scalarNamed...)
	case 7:
		if t.P(1, 10) {
			return "[]" + odd(t)
		}
		return "[]" + pbt.Pick(t, elemTypes...)
	case 8:
		switch t.N(4) {
		case 0:
			return fmt.Sprintf("[%d]byte", size(t, 20))
		case 1:
			return fmt.Sprintf("[%d]rune", size(t, 6))
		case 2:
			return fmt.Sprintf("*[%d]byte", t.Range(1, 20))
		}
		return fmt.Sprintf("[%d]%s", t.Range(1, 4), pbt.Pick(t, elemTypes...))
	}
	return pbt.Pick(t, "map[string]string", "map[string]time.Time", "map[LStr]mtypes.Geo", "map[int]string", "any", "interface{}", "struct{ X int; Y ti.Time; Z struct{ W uuid.UUID } }", "*struct{ X int }", "struct{ Q mtypes.Label; R altm.Label }", "struct{ X int `json:\"x\"`; Y struct{ Z ti.Time; V struct{ U string } `json:\"v\"` } `json:\"y,omitempty\"` }", "struct{ N string \"json:\\\"n\\\" note:\\\"`\\\"\" }", "struct{ A, B []struct{ C int `json:\"c\"` } }", "[]struct{ Q int }", "*[]string", "*[]int", "*map[string]int", "*[3]rune")
}

// size draws the length of an array, sometimes one of three or four digits.
func size(t *pbt.T, max int) int {
	if t.P(1, 5) {
		return pbt.Pick(t, 99, 100, 128, 255, 1000)
	}
	return t.Range(1, max)
}

// oddNames are names of packages which mean something else in generated code.
var oddNames = []string{"v", "val", "sequel", "driver", "encoding", "strconv", "types", "sqltype", "string"}

// odd draws a type of such a package, whose import has another name in the package of the models.
func odd(t *pbt.T) string {
	return "odd" + pbt.Pick(t, oddNames...) + "." + pbt.Pick(t, "Kind", "Text", "List", "Obj")
}

func init() {
	for _, n := range oddNames {
		imports["odd"+n+"."] = fmt.Sprintf("odd%s %q", n, "verifharness/odd/"+n)
	}
}

var KeyTypes = []string{"int64", "string", "uint32", "uuid.UUID", "LStr", "LInt", "int", "mtypes.Label", "uint64", "int8", "altm.Label", "LText", "time.Time", "oddv.Kind", "oddval.Text"}
var AutoTypes = []string{"int64", "uint64", "int", "uint32", "LInt", "int32", "LUint", "oddval.Kind"}

var words = []string{"User", "ID", "Name", "URL", "HTTP", "Id", "Data2", "V", "X", "Count", "Line1", "JSON", "Big", "Total", "A1b", "Key", "A", "Ab", "ABc", "Zz9", "É", "Größe", "Ñandú", "Snake_case", "T", "At", "Is", "Value", "Type", "Select", "Order", "Group", "Val", "Err", "Time", "Str", "Sql", "Encoding", "V2"}

// Name draws an exported identifier.
func Name(t *pbt.T) string {
	n := 1 + t.N(3)
	var b strings.Builder
	for i := 0; i < n; i++ {
		w := pbt.Pick(t, words...)
		if i > 0 && t.P(1, 6) {
			b.WriteByte('_')
		}
		if i > 0 && t.P(1, 6) {
			w = strings.ToLower(w)
		}
		b.WriteString(w)
	}
	if t.P(1, 8) {
		fmt.Fprintf(&b, "%d", t.N(30))
	}
	return b.String()
}

var reserved = []string{"TableName", "HasPK", "IsAutoIncr", "ScanAutoIncr", "PK", "CompositeKey", "SQLColumns", "Columns", "Values", "Addrs", "InsertColumns", "InsertPlaceholders", "InsertOneStmt", "FindOneByPKStmt", "UpdateOneByPKStmt", "DeleteOneByPKStmt", "DatabaseName", "Convert", "Value", "Scan", "MarshalText", "UnmarshalText"}

// names hands out identifiers which do not clash in one model.
type names struct {
	used   map[string]bool
	prefix string
}

func NewNames(prefix string) *names {
	n := &names{used: map[string]bool{}, prefix: prefix}
	for _, r := range reserved {
		n.used[r] = true
	}
	return n
}

func (n *names) forms(id string) []string { return []string{id, id + "Value", n.prefix + id} }

func (n *names) Take(id string) bool {
	for _, f := range n.forms(id) {
		if n.used[f] {
			return false
		}
	}
	for _, f := range n.forms(id) {
		n.used[f] = true
	}
	return true
}

// ---------------------------------------------------------------- random specs

type Options struct {
	Structs   int  // models, at most
	KeyedOnly bool // every model has a key
	NoEmbed   bool
}

var foreign = []*Struct{
	{Go: "Base", TypeName: "mtypes.Base", Foreign: true, Fields: []*Field{{Name: "BaseID", Type: "int64", Opts: []string{"pk"}}, {Name: "CreatedAt", Type: "time.Time"}, {Name: "UpdatedAt", Type: "*time.Time"}}},
	{Go: "Audit", TypeName: "mtypes.Audit", Foreign: true, Fields: []*Field{{Name: "CreatedBy", Type: "string", Col: "made_by"}, {Name: "Revision", Type: "uint32", Opts: []string{"readonly"}}, {Name: "secret", Type: "string"}, {Name: "Hidden", Type: "string", Skip: true}}},
	{Go: "Wrapped", TypeName: "mtypes.Wrapped", Foreign: true, Fields: []*Field{{Name: "inner", Embed: &Struct{Go: "inner", Foreign: true, Fields: []*Field{{Name: "InnerA", Type: "string"}, {Name: "InnerB", Type: "[]byte"}}}}, {Name: "Outer", Type: "bool"}}},
	{Go: "Hubs", TypeName: "mtypes.Hubs", Foreign: true, Fields: []*Field{
		{Name: "HubL", Embed: &Struct{Go: "HubL", Foreign: true, Fields: []*Field{
			{Name: "Meta", EmbedPtr: true, Apart: true, Embed: &Struct{Go: "Meta", Foreign: true, Fields: []*Field{{Name: "LeftNote", Type: "string"}, {Name: "LeftN", Type: "int64"}}}},
			{Name: "LeftX", Type: "int64"}}}},
		{Name: "HubR", EmbedPtr: true, Embed: &Struct{Go: "HubR", Foreign: true, Fields: []*Field{
			{Name: "Meta", EmbedPtr: true, Apart: true, Embed: &Struct{Go: "Meta", Foreign: true, Fields: []*Field{{Name: "RightNote", Type: "string"}, {Name: "RightN", Type: "*int64"}}}},
			{Name: "RightY", Type: "string"}}}}}},
	{Go: "Boxed", TypeName: "mtypes.Boxed[mtypes.Label]", Foreign: true, Fields: []*Field{{Name: "Box", Type: "mtypes.Label"}, {Name: "BoxNote", Type: "*string"}}},
	{Go: "Boxed", TypeName: "mtypes.Boxed[[]LStr]", Foreign: true, Fields: []*Field{{Name: "Box", Type: "[]LStr"}, {Name: "BoxNote", Type: "*string"}}},
}

// New draws a package of models.
func New(t *pbt.T, o Options) *Spec {
	s := &Spec{
		Dialect: pbt.Pick(t, "mysql", "postgres", "sqlite"),
		Naming:  pbt.Pick(t, "snake_case", "camelCase", "PascalCase"),
		Tag:     pbt.Pick(t, "sql", "db"),
		Quote:   t.P(1, 3),
		Prefix:  pbt.Pick(t, "Column", "Get", "F_"),
		Strict:  !t.P(1, 4),
		Files:   t.Range(1, 2),
		Seed:    t.Uint64(),
	}
	s.Filename = pbt.Pick(t, "generated.go", "models_gen.go")
	used := map[string]bool{}
	for _, r := range []string{"LStr", "LInt", "LUint", "LFloat", "LBool", "LBytes", "LStrs", "LInts", "LTime", "LMap", "LAlias", "LATime", "LALab", "LAInt", "LABytes", "LAStrs", "LAArr", "LAMap", "LAGen", "LAHv", "LAText", "LPInt", "LPStr", "LPTime", "LPVal", "LPAl", "LPMap", "LPair", "LRunes", "LArr", "LText", "LVal", "HvStr", "HvInt", "HvInts", "HvMap", "HvPtr", "HvBool", "LGen", "Base", "Audit", "Wrapped", "Boxed", "Hubs", "HubL", "HubR", "Meta"} {
		used[r] = true
	}
	tables := map[string]bool{}
	parts := append([]*Struct{}, foreign...)
	if !o.NoEmbed {
		for i, n := 0, t.N(4); i < n; i++ {
			p := &Struct{File: t.N(s.Files)}
			switch t.N(5) {
			case 0: // an exported part is a model of its own
				p.Go = fresh(t, used, "")
				p.Model, p.Promotes = true, true
			case 1, 2:
				p.Go = fresh(t, used, "part")
			case 3: // definition of another part
				p.Go = fresh(t, used, "Def")
			case 4: // generic part
				p.Go = fresh(t, used, "Gp")
				p.TParams = "[T any]"
			}
			p.TypeName = p.Go
			ns := NewNames(s.Prefix)
			ns.Take(p.Go)
			var inner []*Struct
			if t.Bool() {
				inner = parts
			}
			s.fields(t, p, ns, map[string]bool{}, inner, t.Range(1, 3), false)
			for _, f := range p.Fields {
				p.Promotes = p.Promotes || f.Embed != nil && f.Embed.Promotes
			}
			if p.TParams != "" {
				arg := pbt.Pick(t, "int64", "LStr", "[]string", "*time.Time")
				p.TypeName = p.Go + "[" + arg + "]"
				p.Fields = append(p.Fields, &Field{Name: "Gen" + Name(t) + "V", Type: arg})
			}
			s.Structs = append(s.Structs, p)
			if strings.HasPrefix(p.Go, "Def") {
				q := *p
				q.Go = "under" + p.Go
				q.TypeName = q.Go
				p.Decl = q.Go
				s.Structs = append(s.Structs, &q)
			}
			if t.P(1, 3) && p.TParams == "" { // embedded through an alias
				a := *p
				a.Go = fresh(t, used, "Al")
				a.TypeName, a.Decl, a.Model = a.Go, "= "+p.TypeName, false
				s.Structs = append(s.Structs, &a)
				parts = append(parts, &a)
			}
			parts = append(parts, p)
		}
	} else {
		parts = nil
	}
	for i, n := 0, t.Range(1, o.Structs); i < n; i++ {
		m := &Struct{Go: fresh(t, used, ""), Model: true, File: t.N(s.Files)}
		m.TypeName = m.Go
		if t.P(1, 5) {
			m.Table = pbt.Pick(t, "custom", "tbl_", "Users", "x1", "order", "CamelTable") + fmt.Sprint(i)
		}
		if tn := strings.ToLower(s.TableName(m)); tables[tn] {
			m.Table = fmt.Sprintf("dup_%d", i)
		} else {
			tables[tn] = true
		}
		ns := NewNames(s.Prefix)
		ns.Take(m.Go)
		m.Readonly = t.P(1, 10)
		s.fields(t, m, ns, map[string]bool{}, parts, t.Range(1, 8), true)
		if o.KeyedOnly && len(s.Columns(m)) > 0 {
			key := false
			for _, c := range s.Columns(m) {
				key = key || c.PK || c.Auto
			}
			if !key {
				m.Readonly = false
				m.Fields = append(m.Fields, &Field{Name: "KeyZZ", Type: pbt.Pick(t, KeyTypes...), Opts: []string{"pk"}})
			}
		}
		s.Structs = append(s.Structs, m)
	}
	for _, st := range s.Structs {
		if st.Model && t.P(1, 15) {
			st.Ignore = true
		}
	}
	return s
}

func fresh(t *pbt.T, used map[string]bool, prefix string) string {
	for i := 0; ; i++ {
		n := prefix + Name(t)
		if i > 5 {
			n += fmt.Sprintf("N%d", len(used))
		}
		if !used[n] {
			used[n] = true
			return n
		}
	}
}

func (s *Spec) fields(t *pbt.T, m *Struct, ns *names, cols map[string]bool, parts []*Struct, n int, keys bool) {
	auto := false
	several := keys && t.P(1, 2) // many columns which are keys, or read-only
	for i := 0; i < n; i++ {
		if len(parts) > 0 && t.P(1, 5) {
			p := pbt.Pick(t, parts...)
			f := &Field{Name: base(p.TypeName), Embed: p, EmbedPtr: t.P(2, 5) && !strings.Contains(p.TypeName, "Wrapped"), Skip: t.P(1, 10)}
			if p.Promotes && (f.Skip || m.Readonly) {
				continue // Go promotes the methods, which then speak of other columns
			}
			if p.Go == "" || !s.fits(f, ns, cols, &auto) {
				continue
			}
			m.Fields = append(m.Fields, f)
			continue
		}
		f := &Field{Name: Name(t), Type: Type(t)}
		switch t.N(12) {
		case 0:
			f.Skip = true
		case 1:
			f.Name = "un" + f.Name
			if !ns.Take(f.Name) {
				continue
			}
			m.Fields = append(m.Fields, f)
			continue
		case 2:
			f.Col = pbt.Pick(t, "c", "Col", "x_", "order", "select", "UPPER", "a1") + fmt.Sprint(t.N(9))
		}
		if f.Skip {
			if !ns.Take(f.Name) {
				continue
			}
			m.Fields = append(m.Fields, f)
			continue
		}
		if keys {
			k := t.N(8)
			switch {
			case several && (k == 1 || k == 4):
				k = 0
			case several && k == 5:
				k = 2
			}
			switch k {
			case 0:
				f.Type = pbt.Pick(t, KeyTypes...)
				f.Opts = append(f.Opts, pbt.Pick(t, "pk", "primary_key", "PK"))
			case 1:
				if !auto {
					f.Type = pbt.Pick(t, AutoTypes...)
					f.Opts = append(f.Opts, "pk", "auto_increment")
					if t.Bool() {
						f.Opts = f.Opts[1:]
					}
				}
			case 2:
				f.Opts = append(f.Opts, "readonly")
			case 3:
				f.Opts = append(f.Opts, pbt.Pick(t, "size:20", "index", "unique", "unsigned"))
			}
		} else if t.P(1, 8) {
			f.Opts = append(f.Opts, "readonly")
		}
		if !s.fits(f, ns, cols, &auto) {
			continue
		}
		m.Fields = append(m.Fields, f)
	}
}

// fits takes the names of a field, or leaves everything as it was.
func (s *Spec) fits(f *Field, ns *names, cols map[string]bool, auto *bool) bool {
	used, columns, a := map[string]bool{}, map[string]bool{}, *auto
	for k := range ns.used {
		used[k] = true
	}
	for k := range cols {
		columns[k] = true
	}
	n2 := &names{used: used, prefix: ns.prefix}
	if !s.fit1(f, n2, columns, &a, false) {
		return false
	}
	ns.used = used
	*auto = a
	for k := range columns {
		cols[k] = true
	}
	return true
}

func (s *Spec) fit1(f *Field, ns *names, cols map[string]bool, auto *bool, skipped bool) bool {
	if !f.Apart && !ns.Take(f.Name) {
		return false
	}
	if f.Embed != nil {
		for _, g := range f.Embed.Fields {
			if !s.fit1(g, ns, cols, auto, skipped || f.Skip) {
				return false
			}
		}
		return true
	}
	if f.Skip || skipped || !exported(f.Name) {
		return true
	}
	for _, c := range s.columns([]*Field{f}, nil, nil) {
		k := strings.ToLower(c.Name)
		if k == "" || cols[k] {
			return false
		}
		cols[k] = true
		if c.Auto {
			if *auto {
				return false
			}
			*auto = true
		}
	}
	return true
}

func base(typeName string) string {
	if i := strings.IndexByte(typeName, '['); i >= 0 {
		typeName = typeName[:i]
	}
	if i := strings.LastIndexByte(typeName, '.'); i >= 0 {
		typeName = typeName[i+1:]
	}
	return typeName
}

// ---------------------------------------------------------------- rendering

var imports = map[string]string{"mtypes.": `"verifharness/mtypes"`, "altm.": `altm "verifharness/alt/mtypes"`, "sql.": `"database/sql"`, "json.": `"encoding/json"`,
	"netip.": `"net/netip"`, "uuid.": `"github.com/google/uuid"`, "big.": `"math/big"`, "ti.": `ti "time"`, "time.": `"time"`, "sequel.": `"github.com/si3nloong/sqlgen/sequel"`,
	"driver.": `"database/sql/driver"`, "strconv.": `"strconv"`, "fmt.": `"fmt"`}

// Sources renders the package: file name to text.
func (s *Spec) Sources(pkg string) map[string]string {
	out := map[string]string{}
	for file := 0; file < s.Files; file++ {
		var b strings.Builder
		for _, st := range s.Structs {
			if st.File == file && !st.Foreign {
				s.render(&b, st)
			}
		}
		out[fmt.Sprintf("models%d.go", file)] = Header(pkg, b.String())
	}
	var b strings.Builder
	for _, k := range sorted(Locals) {
		b.WriteString(Locals[k] + "\n\n")
	}
	// the local types are exported structs in part: they must not become models
	text := b.String()
	for _, n := range []string{"LText", "LVal"} {
		text = strings.Replace(text, "type "+n+" struct", "// +sql:ignore\ntype "+n+" struct", 1)
	}
	var hand strings.Builder
	for _, st := range s.Structs {
		if len(st.Hand) > 0 && st.Decl == "" {
			hand.WriteString(s.handText(st) + "\n")
		}
	}
	if hand.Len() > 0 {
		out["hand.go"] = Header(pkg, hand.String())
	}
	out["types.go"] = Header(pkg, text)
	return out
}

func sorted(m map[string]string) []string {
	l := make([]string, 0, len(m))
	for k := range m {
		l = append(l, k)
	}
	sort.Strings(l)
	return l
}

// Header puts the package clause and the imports which are used before the body.
func Header(pkg, body string) string {
	var b strings.Builder
	fmt.Fprintf(&b, "package %s\n\n", pkg)
	for _, k := range sorted(imports) {
		if containsRef(body, k) {
			fmt.Fprintf(&b, "import %s\n", imports[k])
		}
	}
	return b.String() + "\n" + body
}

func containsRef(body, prefix string) bool {
	for i := 0; ; {
		j := strings.Index(body[i:], prefix)
		if j < 0 {
			return false
		}
		j += i
		if j == 0 || !(unicode.IsLetter(rune(body[j-1])) || body[j-1] == '_' || body[j-1] == '.' || num(body[j-1])) {
			return true
		}
		i = j + 1
	}
}

func (s *Spec) render(b *strings.Builder, st *Struct) {
	note := ""
	switch {
	case st.Ignore:
		note = s.pick(st.Go+"#", "+sql:ignore", "+sql:ignore", "+sql:readonly,ignore", "+sql:readonly, ignore", "+sql: ignore ,readonly", "+SQL:ignore")
	case st.Readonly:
		note = s.pick(st.Go+"#", "+sql:readonly", "+sql:readonly", "+sql: readonly", "+sql:readonly , other", "+sql:other, readonly", "+SQL:readonly")
	}
	group := st.Decl == "" && st.TParams == "" && s.pick(st.Go+"()", "", "", "", "()") != ""
	if group {
		b.WriteString("type (\n")
	}
	if about := st.Go + " is generated for a check."; note == "" {
		fmt.Fprintf(b, "// %s\n", about)
	} else {
		fmt.Fprintf(b, s.pick(st.Go+"//", "// %s\n// %s\n", "// %s\n// %s\n", "// %s\n//%s\n", "// %[2]s\n// %[1]s\n", "// %[2]s\n//\n// %[1]s\n", "// %s\n//\n// %s\n//\n// The end.\n", "/*\n%s\n%s\n*/\n"), about, note)
	}
	if st.Decl != "" {
		fmt.Fprintf(b, "type %s%s %s\n\n", st.Go, st.TParams, st.Decl)
		b.WriteString(st.Methods)
		return
	}
	if group {
		fmt.Fprintf(b, "%s struct {\n", st.Go)
	} else {
		fmt.Fprintf(b, "type %s%s struct {\n", st.Go, st.TParams)
	}
	table := ""
	if st.Table != "" {
		table = fmt.Sprintf("\t_ sequel.TableName `%s:%q`\n", s.Tag, s.pick(st.Go+"_", "%s", "%s", " %s ", "%s,", "%s , other"))
		table = fmt.Sprintf(table, st.Table)
	}
	last := table != "" && s.pick(st.Go+"last", "", "", "", "last") != ""
	if !last {
		b.WriteString(table)
	}
	bare := func(f *Field) bool { return f.Embed == nil && f.Col == "" && !f.Skip && len(f.Opts) == 0 }
	for i, f := range st.Fields {
		typ := f.Type
		if st.TParams != "" && strings.HasPrefix(f.Name, "Gen") && strings.HasSuffix(f.Name, "V") {
			typ = "T"
		}
		if i+1 < len(st.Fields) && bare(f) && st.TParams == "" {
			if g := st.Fields[i+1]; bare(g) && g.Type == f.Type && s.pick(f.Name+",", "", ",") != "" {
				fmt.Fprintf(b, "\t%s,\n", f.Name)
				continue
			}
		}
		if f.Embed != nil {
			typ = f.Embed.TypeName
			if f.EmbedPtr {
				typ = "*" + typ
			}
			fmt.Fprintf(b, "\t%s", typ)
		} else {
			fmt.Fprintf(b, "\t%s %s", f.Name, typ)
		}
		tag := f.Col
		if f.Skip {
			tag = s.pick(f.Name+"-", "-", "-", " - ", "-,")
		} else if tag != "" {
			tag = s.pick(f.Name+"=", "", "", " ") + tag + s.pick(f.Name+"==", "", "", " ")
		}
		if len(f.Opts) > 0 {
			tag += "," + strings.Join(f.Opts, s.pick(f.Name+"+", ",", ",", " , ", ", ", ",,")) + s.pick(f.Name+"++", "", "", " ", ",")
		}
		if tag != "" {
			text := fmt.Sprintf(s.pick(f.Name+"``", "json:%[2]q %[1]s:%[3]q", "json:%[2]q %[1]s:%[3]q", "%[1]s:%[3]q json:%[2]q", "  %[1]s:%[3]q"), s.Tag, "j"+f.Name, tag)
			if s.pick(f.Name+`"`, "`", "`", `"`) == "`" {
				text = "`" + text + "`"
			} else {
				text = strconv.Quote(text)
			}
			b.WriteString(" " + text)
		}
		b.WriteString(s.pick(f.Name+"//", "\n", "\n", "\n", " // "+f.Name+" +sql:ignore\n"))
	}
	if last {
		b.WriteString(table)
	}
	b.WriteString("}\n")
	if group {
		b.WriteString(")\n")
	}
	b.WriteString("\n")
	b.WriteString(st.Methods)
}

// pick chooses how something is spelled, which changes nothing of what is declared: the
// first way is the plain one.
func (s *Spec) pick(salt string, ways ...string) string {
	if s.Seed == 0 {
		return ways[0]
	}
	h := fnv.New32a()
	fmt.Fprintf(h, "%d %s", s.Seed, salt)
	return ways[h.Sum32()%uint32(len(ways))]
}

// Config is the JSON of the codegen.Config for the spec.
func (s *Spec) Config(src string) map[string]any {
	return map[string]any{
		"Source": []string{src}, "Driver": s.Dialect, "NamingConvention": s.Naming, "Tag": s.Tag,
		"QuoteIdentifier": s.Quote, "Strict": s.Strict, "Exec": map[string]any{"Filename": s.Filename},
		"Getter": map[string]any{"Prefix": s.Prefix}, "SkipModTidy": true,
	}
}
