package main

import (
	"encoding/json"
	"fmt"
	"go/ast"
	"go/parser"
	"go/token"
	"os"
	"path/filepath"
	"reflect"
	"sort"
	"strconv"
	"strings"
	"time"

	"verifharness/gspec"
	"verifharness/pbt"

	"github.com/goccy/go-yaml"
	"github.com/si3nloong/sqlgen/cmd/sqlgen/codegen"
)

// settings maps the dotted path of a setting to its explicit value: a string, a bool,
// []string for src, or map[string]dataType for data_types.
type settings map[string]any

type dataType map[string]string

var stringKeys = []string{"driver", "naming_convention", "struct_tag", "getter.prefix", "exec.filename", "database.package", "database.dir", "database.filename",
	"database.operator.package", "database.operator.dir", "database.operator.filename", "migration.dsn", "migration.package", "migration.dir", "migration.filename"}
var boolKeys = []string{"quote_identifier", "read_only", "exec.skip_empty", "omit_getters", "source_map", "skip_header", "skip_mod_tidy"}

func drawText(t *pbt.T, key string) string {
	switch key {
	case "driver":
		return pbt.Pick(t, "mysql", "postgres", "sqlite")
	case "naming_convention":
		return pbt.Pick(t, "snake_case", "camelCase", "PascalCase")
	}
	if t.P(1, 4) {
		return pbt.Pick(t, "yes", "null", "~", "true", "1e3", "0x10", "12", "-", "a: b", "a # b", "#x", "'q'", `"dq"`, `back\slash`, " lead", "trail ", "multi\nline", "é世界", "{a}", "[b]", "*x", "&y", "!z", "%p", "@at", "`bt`", "a,b", "? k", "- item", "2024-01-02", "on", "\ttab", "trail\n", "no:")
	}
	return pbt.Pick(t, "alpha", "beta_db", "out/dir", "./x", "gen.go", "Prefix", "model_gen.go", "db", "sql", "tag", "user:pass@tcp(host:3306)/db?a=b", "z") + pbt.Pick(t, "", "", "1", "_v")
}

func drawSettings(t *pbt.T, den int) settings {
	s := settings{}
	for _, k := range stringKeys {
		if t.P(1, den) {
			s[k] = drawText(t, k)
		}
	}
	for _, k := range boolKeys {
		if t.P(1, den) {
			s[k] = t.Bool()
		}
	}
	if t.P(1, den) {
		s["strict"] = t.Bool()
	}
	if t.P(1, den) {
		l := []string{}
		for i := t.Range(1, 3); i > 0; i-- {
			l = append(l, pbt.Pick(t, "./**/*", "a/*.go", "src", "./models/user.go", "x y", "é/**", drawText(t, "src")))
		}
		s["src"] = l
	}
	if t.P(1, den) {
		m := map[string]dataType{}
		for i := t.Range(1, 3); i > 0; i-- {
			d := dataType{}
			for _, k := range []string{"data_type", "scan", "sql_scan", "value", "sql_value"} {
				if t.Bool() {
					d[k] = pbt.Pick(t, "varchar(20)", "{{goPath}}.String()", "ST_AsText({{.}})", "pkg/path.Func({{addr}})", drawText(t, "value"))
				}
			}
			m[pbt.Pick(t, "string", "time.Time", "github.com/a/b.T", "[]byte")] = d
		}
		s["data_types"] = m
	}
	// the place of the operator follows that of the database; the two cannot be told apart when they are equal
	for _, k := range []string{"package", "dir"} {
		if s["database."+k] != nil && s["database."+k] == s["database.operator."+k] {
			delete(s, "database.operator."+k)
		}
		if s["database.operator."+k] == "db" || s["database."+k] == "db" {
			delete(s, "database.operator."+k)
			delete(s, "database."+k)
		}
	}
	return s
}

func (s settings) str(k, def string) string {
	if v, ok := s[k].(string); ok {
		return v
	}
	return def
}

// texts are all the strings in the settings.
func (s settings) texts() (out []string) {
	for _, k := range keysOf(s) {
		switch v := s[k].(type) {
		case string:
			out = append(out, v)
		case []string:
			out = append(out, v...)
		case map[string]dataType:
			for _, d := range v {
				for _, x := range d {
					out = append(out, x)
				}
			}
		}
	}
	return out
}

func (s settings) is(k string) bool { v, _ := s[k].(bool); return v }

func (s settings) has(prefix string) bool {
	for k := range s {
		if strings.HasPrefix(k, prefix) {
			return true
		}
	}
	return false
}

// explicit is the config with the given settings and nothing else.
func (s settings) explicit() *codegen.Config {
	c := new(codegen.Config)
	if v, ok := s["src"].([]string); ok {
		c.Source = append([]string{}, v...)
	}
	set(&c.Driver, s.str("driver", ""))
	set(&c.NamingConvention, s.str("naming_convention", ""))
	c.Tag = s.str("struct_tag", "")
	c.Getter.Prefix = s.str("getter.prefix", "")
	c.Exec.Filename = s.str("exec.filename", "")
	c.Exec.SkipEmpty = s.is("exec.skip_empty")
	c.QuoteIdentifier, c.ReadOnly, c.OmitGetters, c.SourceMap, c.SkipHeader, c.SkipModTidy = s.is("quote_identifier"), s.is("read_only"), s.is("omit_getters"), s.is("source_map"), s.is("skip_header"), s.is("skip_mod_tidy")
	if v, ok := s["strict"].(bool); ok {
		c.Strict = &v
	}
	if s.has("database.") {
		c.Database = &codegen.DatabaseConfig{Package: s.str("database.package", ""), Dir: s.str("database.dir", ""), Filename: s.str("database.filename", "")}
		if s.has("database.operator.") {
			c.Database.Operator = &codegen.DatabaseOperatorConfig{Package: s.str("database.operator.package", ""), Dir: s.str("database.operator.dir", ""), Filename: s.str("database.operator.filename", "")}
		}
	}
	if s.has("migration.") {
		c.Migration = &codegen.MigrationConfig{DSN: s.str("migration.dsn", ""), Package: s.str("migration.package", ""), Dir: s.str("migration.dir", ""), Filename: s.str("migration.filename", "")}
	}
	if m, ok := s["data_types"].(map[string]dataType); ok {
		c.DataTypes = map[string]*codegen.DataType{}
		for k, d := range m {
			v := &codegen.DataType{DataType: d["data_type"], Scanner: d["scan"], Valuer: d["value"]}
			if x, ok := d["sql_scan"]; ok {
				v.SQLScanner = &x
			}
			if x, ok := d["sql_value"]; ok {
				v.SQLValuer = &x
			}
			c.DataTypes[k] = v
		}
	}
	return c
}

func set[S ~string](dst *S, v string) { *dst = S(v) }

// resolved is the config with the settings over the documented defaults.
func (s settings) resolved() *codegen.Config {
	r := settings{"driver": "mysql", "naming_convention": "snake_case", "struct_tag": "sql", "getter.prefix": "Column", "exec.filename": "generated.go",
		"database.package": "db", "database.dir": "db", "database.filename": "db.go", "database.operator.filename": "operator.go", "strict": true, "src": []string{"./**/*"}}
	for k, v := range s {
		r[k] = v
	}
	for _, k := range []string{"package", "dir"} {
		if r["database.operator."+k] == nil {
			r["database.operator."+k] = r["database."+k]
		}
	}
	if s.has("migration.") {
		for k, v := range map[string]string{"package": "migrate", "dir": "migrate", "filename": "migrate.go"} {
			if r["migration."+k] == nil {
				r["migration."+k] = v
			}
		}
	}
	c := r.explicit()
	if c.DataTypes == nil {
		c.DataTypes = map[string]*codegen.DataType{}
	}
	return c
}

func (s settings) shape() string {
	l := keysOf(s)
	return strings.Join(l, " ")
}

// ---------------------------------------------------------------- YAML

func yamlText(t *pbt.T, v string) string {
	plain := v != "" && strings.IndexFunc(v, func(r rune) bool {
		return !(r >= 'a' && r <= 'z' || r >= 'A' && r <= 'Z' || r == '_' || r == '/' || r == '.')
	}) < 0 && v[0] != '.'
	switch strings.ToLower(v) {
	case "yes", "no", "on", "off", "true", "false", "null", "nan", "y", "n":
		plain = false
	}
	if plain && t.Bool() {
		return v
	}
	if strings.ContainsAny(v, "\n\t") || t.Bool() {
		b, _ := json.Marshal(v)
		x := strings.NewReplacer(`\u003c`, "<", `\u003e`, ">", `\u0026`, "&").Replace(string(b))
		return x
	}
	return "'" + strings.ReplaceAll(v, "'", "''") + "'"
}

func (s settings) yaml(t *pbt.T) string {
	type node struct {
		kids map[string]*node
		val  any
	}
	root := &node{kids: map[string]*node{}}
	for k, v := range s {
		n := root
		for _, p := range strings.Split(k, ".") {
			if n.kids[p] == nil {
				n.kids[p] = &node{kids: map[string]*node{}}
			}
			n = n.kids[p]
		}
		n.val = v
	}
	var b strings.Builder
	if t.P(1, 4) {
		b.WriteString("# a configuration\n---\n")
	}
	var emit func(n *node, ind string)
	flowT := func(d dataType) string {
		var l []string
		for _, k := range keysOf(d) {
			l = append(l, k+": "+quoted(d[k]))
		}
		return "{" + strings.Join(l, ", ") + "}"
	}
	emit = func(n *node, ind string) {
		ks := keysOf(n.kids)
		for i := len(ks) - 1; i > 0; i-- {
			j := t.N(i + 1)
			ks[i], ks[j] = ks[j], ks[i]
		}
		for _, k := range ks {
			c := n.kids[k]
			if t.P(1, 8) {
				b.WriteString(ind + "# note\n")
			}
			b.WriteString(ind + k + ":")
			switch v := c.val.(type) {
			case string:
				b.WriteString(" " + yamlText(t, v) + pbt.Pick(t, "", "", " # why") + "\n")
			case bool:
				b.WriteString(fmt.Sprintf(" %v\n", v))
			case []string:
				if t.Bool() {
					var l []string
					for _, x := range v {
						l = append(l, quoted(x))
					}
					b.WriteString(" [" + strings.Join(l, ", ") + "]\n")
				} else {
					b.WriteString("\n")
					for _, x := range v {
						b.WriteString(ind + "  - " + yamlText(t, x) + "\n")
					}
				}
			case map[string]dataType:
				b.WriteString("\n")
				for _, k := range keysOf(v) {
					if t.Bool() || len(v[k]) == 0 {
						b.WriteString(ind + "  " + quoted(k) + ": " + flowT(v[k]) + "\n")
						continue
					}
					b.WriteString(ind + "  " + quoted(k) + ":\n")
					for _, f := range keysOf(v[k]) {
						b.WriteString(ind + "    " + f + ": " + yamlText(t, v[k][f]) + "\n")
					}
				}
			default:
				b.WriteString("\n")
				emit(c, ind+"  ")
			}
		}
	}
	emit(root, "")
	return b.String()
}

func quoted(s string) string {
	return strings.NewReplacer(`\u003c`, "<", `\u003e`, ">", `\u0026`, "&").Replace(strconv.Quote(s))
}

func tempDir() string {
	d := filepath.Join(workDir, fmt.Sprintf("cfg%d", caseNo.Add(1)))
	must(os.MkdirAll(d, 0o755))
	return d
}

func showCfg(c *codegen.Config) string {
	b, _ := json.Marshal(c)
	return string(b)
}

func same(t *pbt.T, sig, what string, got, want *codegen.Config) {
	if !reflect.DeepEqual(got, want) {
		t.Fail(sig, "%s\n gives %s\n want  %s", what, showCfg(got), showCfg(want))
	}
}

func loadCase(t *pbt.T) {
	s := drawSettings(t, pbt.Pick(t, 2, 4, 12))
	text := s.yaml(t)
	dir := tempDir()
	defer os.RemoveAll(dir)
	file := filepath.Join(dir, "x.yml")
	must(os.WriteFile(file, []byte(text), 0o644))
	t.Logf("%s", text)
	got, err := codegen.LoadConfigFrom(file)
	if err != nil {
		t.Fail("load error", "%v\n%s", err, text)
	}
	t.NonTrivial(s.shape())
	same(t, "load", text, got, s.resolved())
}

func mergeCase(t *pbt.T) {
	acc := drawSettings(t, pbt.Pick(t, 2, 6))
	cfg := acc.resolved()
	for i := t.Range(1, 4); i > 0; i-- {
		o := drawSettings(t, pbt.Pick(t, 2, 4, 12))
		for k, v := range o {
			switch v := v.(type) {
			case bool:
				if k == "strict" || v {
					acc[k] = v
				}
			case map[string]dataType:
				m := map[string]dataType{}
				if old, ok := acc[k].(map[string]dataType); ok {
					for n, d := range old {
						m[n] = d
					}
				}
				for n, d := range v {
					m[n] = d
				}
				acc[k] = m
			default:
				acc[k] = v
			}
		}
		for _, k := range []string{"package", "dir"} {
			if acc["database.operator."+k] != nil && acc["database.operator."+k] == acc["database."+k] {
				t.Discard()
			}
		}
		arg := o.explicit()
		before := showCfg(arg)
		prev := showCfg(cfg)
		cfg = cfg.Merge(arg)
		if showCfg(arg) != before {
			t.Fail("merge argument", "Merge changes its argument from %s to %s", before, showCfg(arg))
		}
		t.Logf("merge %s", before)
		same(t, "merge", prev+"\n merged with "+before, cfg, acc.resolved())
		t.NonTrivial(o.shape())
		// what is merged is the caller's own
		for i := range arg.Source {
			arg.Source[i] = "changed"
		}
		if arg.Strict != nil {
			*arg.Strict = !*arg.Strict
		}
		if arg.Database != nil {
			arg.Database.Dir = "changed"
			if arg.Database.Operator != nil {
				arg.Database.Operator.Filename = "changed"
			}
		}
		if arg.Migration != nil {
			arg.Migration.Dir = "changed"
		}
		same(t, "merge alias", "a later change of the merged config", cfg, acc.resolved())
	}
}

func malformedCase(t *pbt.T) {
	s := drawSettings(t, 4)
	text := s.yaml(t)
	dir := tempDir()
	defer os.RemoveAll(dir)
	file := filepath.Join(dir, "x.yml")
	kind := t.N(4)
	bads := []string{"src: [a", "driver: {a", "exec: text", "exec: [1]", "strict: maybe", "quote_identifier: 12x", "database: 3", "database: [x]", "data_types: [1]", "data_types: text", "driver: [a, b]", "struct_tag: {a: b}", "exec:\n  filename: [x]",
		"getter: 1", "driver: \"x", "driver: 'x", "src: {a: b}", "\tdriver: x", "exec:\n  skip_empty: text", "- a\n- b", "database:\n  operator: 7", "migration: yes", "a: b: c", "skip_mod_tidy: [true]", "src:\n  - a\n b", "data_types:\n  string: text", "strict: {}", "source_map: 1.5x"}
	switch kind {
	case 0:
		file = filepath.Join(dir, "missing.yml")
	case 1:
		must(os.MkdirAll(file, 0o755))
	default:
		bad := pbt.Pick(t, bads...)
		key, _, _ := strings.Cut(strings.TrimSpace(bad), ":")
		for k := range s {
			if k == key || strings.HasPrefix(k, key+".") {
				t.Discard()
			}
		}
		if strings.HasPrefix(bad, "-") {
			text = ""
		}
		text = strings.TrimPrefix(text, "---\n") + bad + "\n"
		must(os.WriteFile(file, []byte(text), 0o644))
		t.Logf("%s", text)
		t.NonTrivial(bad)
	}
	t.NonTrivial(fmt.Sprint(kind))
	if c, err := codegen.LoadConfigFrom(file); err == nil {
		t.Fail("malformed", "no error, but %s, for\n%s", showCfg(c), text)
	}
}

// fuzzCase: whatever the file holds, loading ends in a config or an error.
func fuzzCase(t *pbt.T) {
	text := drawSettings(t, 4).yaml(t)
	b := []byte(text)
	for i := t.Range(1, 4); i > 0 && len(b) > 0; i-- {
		at := t.N(len(b))
		switch t.N(4) {
		case 0:
			b[at] = pbt.Pick(t, []byte("\"'{}[]:-#&*!|>%@`\t\n ,?\x00\xff")...)
		case 1:
			b = append(b[:at:at], b[min(len(b), at+t.N(5)):]...)
		case 2:
			b = append(b[:at:at], append([]byte(pbt.Pick(t, "\n", ": ", "- ", "{", "]", "|\n", "&a ", "*a", "!!int ", "<<: ", "\"", "'", "? ")), b[at:]...)...)
		case 3:
			b = b[:at]
		}
	}
	dir := tempDir()
	defer os.RemoveAll(dir)
	file := filepath.Join(dir, "x.yml")
	must(os.WriteFile(file, b, 0o644))
	t.Logf("%q", b)
	c, err := codegen.LoadConfigFrom(file)
	if (c == nil) == (err == nil) {
		t.Fail("no answer", "config %v and error %v", c, err)
	}
	if err != nil {
		t.NonTrivial("error " + fmt.Sprint(len(b)))
		return
	}
	t.NonTrivial("config " + fmt.Sprint(len(b)))
	if c.Source == nil || c.Driver == "" || c.NamingConvention == "" || c.Tag == "" || c.Strict == nil || c.Exec.Filename == "" || c.Getter.Prefix == "" || c.Database == nil || c.Database.Operator == nil || c.Database.Dir == "" || c.Database.Operator.Dir == "" {
		t.Fail("default lost", "a setting is left empty: %s\n%s", showCfg(c), b)
	}
}

// initCase: what is written by init is loaded back, from the current directory.
func initCase(t *pbt.T) {
	s := drawSettings(t, pbt.Pick(t, 1, 2, 4, 12))
	dir := tempDir()
	defer os.RemoveAll(dir)
	must(os.Chdir(dir))
	defer os.Chdir(root)
	cfg := s.resolved()
	// texts which the YAML library does not print correctly are not the command's fault
	for _, v := range s.texts() {
		var back map[string]string
		if b, err := yaml.Marshal(map[string]string{"k": v}); err != nil || yaml.Unmarshal(b, &back) != nil || back["k"] != v {
			t.Discard()
		}
	}
	if t.Bool() {
		must(os.WriteFile("sqlgen.yml", []byte(strings.Repeat("# long old file\n", 200)), 0o644))
	}
	if err := codegen.Init(cfg); err != nil {
		t.Fail("init error", "%v", err)
	}
	same(t, "init argument", "Init changes its argument", cfg, s.resolved())
	text, _ := os.ReadFile("sqlgen.yml")
	t.Logf("%s", text)
	got, err := codegen.LoadConfig()
	if err != nil {
		t.Fail("init unreadable", "what Init wrote is not read back: %v\n%s", err, text)
	}
	t.NonTrivial(s.shape())
	same(t, "init", string(text), got, s.resolved())
}

// whichCase: the first of the documented names is the one that counts.
func whichCase(t *pbt.T) {
	dir := tempDir()
	defer os.RemoveAll(dir)
	must(os.Chdir(dir))
	defer os.Chdir(root)
	var first settings
	var names []string
	for _, n := range []string{"sqlgen.yml", ".sqlgen.yml", ".sqlgen.yaml", "sqlgen.yaml"} {
		if t.P(2, 5) {
			s := drawSettings(t, 4)
			names = append(names, n)
			must(os.WriteFile(n, []byte(s.yaml(t)), 0o644))
			if first == nil {
				first = s
			}
		}
	}
	must(os.WriteFile("other.yml", []byte("driver: sqlite\n"), 0o644))
	got, err := codegen.LoadConfig()
	if err != nil {
		t.Fail("load error", "%v: %v", names, err)
	}
	t.NonTrivial(fmt.Sprint(names))
	same(t, "which file", fmt.Sprint(names), got, first.resolved())
}

// ---------------------------------------------------------------- what the settings do

// decls are the methods of the models in a generated file: TypeName.Method to its text.
func decls(t *pbt.T, text string) map[string]string {
	out := map[string]string{}
	fset := token.NewFileSet()
	f, err := parser.ParseFile(fset, "", text, 0)
	if err != nil {
		t.Fail("unreadable", "the output does not parse: %v", err)
	}
	out["package"] = f.Name.Name
	for _, d := range f.Decls {
		fn, ok := d.(*ast.FuncDecl)
		if !ok {
			continue
		}
		body := text[fset.Position(fn.Pos()).Offset:fset.Position(fn.End()).Offset]
		if fn.Recv == nil {
			out[fn.Name.Name] = body
			continue
		}
		x := fn.Recv.List[0].Type
		if s, ok := x.(*ast.StarExpr); ok {
			x = s.X
		}
		if id, ok := x.(*ast.Ident); ok {
			out[id.Name+"."+fn.Name.Name] = body
		}
	}
	return out
}

// literals are the string literals in a Go text, joined.
func literals(code string) string {
	var l []string
	fset := token.NewFileSet()
	f, err := parser.ParseFile(fset, "", "package p\n"+code, 0)
	if err != nil {
		return ""
	}
	ast.Inspect(f, func(n ast.Node) bool {
		if b, ok := n.(*ast.BasicLit); ok && b.Kind == token.STRING {
			v, _ := strconv.Unquote(b.Value)
			l = append(l, v)
		}
		return true
	})
	return strings.Join(l, "|")
}

const effectModels = `package src

import "time"

type UserProfile struct {
	UserID    int64  %s
	FirstName string %s
	Note      string %s
	Born      time.Time
	Died      *time.Time
}
`

func effectCase(t *pbt.T) {
	m := newMod()
	defer m.remove()
	s := settings{}
	opt := func(k string, vs ...string) {
		if t.P(2, 5) {
			s[k] = pbt.Pick(t, vs...)
		}
	}
	opt("driver", "mysql", "postgres", "sqlite")
	opt("naming_convention", "snake_case", "camelCase", "PascalCase")
	opt("struct_tag", "sql", "db", "column")
	opt("getter.prefix", "Get", "Field", "X_")
	opt("exec.filename", "models_gen.go", "zz.go", "sqlgen.gen.go")
	opt("database.package", "store", "dbx")
	opt("database.dir", "internal/store", "dbdir")
	opt("database.filename", "conn.go", "all.go")
	opt("database.operator.package", "opx")
	opt("database.operator.dir", "internal/opx")
	opt("database.operator.filename", "op.go", "ops_gen.go")
	for _, k := range []string{"quote_identifier", "exec.skip_empty", "strict"} {
		if t.P(2, 5) {
			s[k] = t.Bool()
		}
	}
	s["skip_mod_tidy"] = true
	if s["database.dir"] != nil || s["database.operator.dir"] != nil { // Go has one package to a directory
		if s["database.operator.dir"] == nil {
			delete(s, "database.operator.package")
		} else if s["database.operator.package"] == nil {
			s["database.operator.package"] = "opx"
		}
	} else {
		delete(s, "database.operator.package")
	}
	mode := pbt.Pick(t, "cwd", "-c", "generate")
	srcs := pbt.Pick(t, "", "./src", "src/*.go", "./**/*")
	if srcs != "" && mode != "generate" {
		s["src"] = []string{srcs}
	}
	custom := t.P(1, 3)
	if custom {
		s["data_types"] = map[string]dataType{"time.Time": {"data_type": "BIGINT", "value": "verifharness/mtypes.ToNanos({{goPath}})", "scan": "verifharness/mtypes.Nanos({{addr}})", "sql_scan": "to_nanos({{.}})", "sql_value": "from_nanos({{.}})"}}
	}
	c := s.resolved()
	tag := func(tag, col string) string { return fmt.Sprintf("`%s:%q`", tag, col) }
	other := pbt.Pick(t, "sql", "db", "column")
	m.write("src/a.go", fmt.Sprintf(effectModels, tag(c.Tag, ",pk"), tag(c.Tag, "given"), tag(other, "note_"+other)))
	m.write("empty/a.go", "package empty\n\ntype E struct{ x int }\n")
	wrong := t.P(1, 4)
	if wrong {
		m.write("src/b.go", "package src\n\nfunc (UserProfile) Columns() string { return \"\" }\n")
	}
	text := s.yaml(t)
	file := pbt.Pick(t, "sqlgen.yml", ".sqlgen.yml", ".sqlgen.yaml", "sqlgen.yaml")
	var args []string
	switch mode {
	case "-c":
		file = pbt.Pick(t, "conf.yml", "etc/my.yaml")
		args = []string{pbt.Pick(t, "-c", "--config"), file}
	case "generate":
		src := srcs
		if src == "" {
			src = "./src/a.go"
		}
		args = []string{"generate", src}
		srcs = src
	}
	if srcs == "" {
		srcs = "./**/*"
	}
	m.write(file, text)
	t.Logf("sqlgen %s\n-- %s\n%s", strings.Join(args, " "), file, text)
	before := m.tree()
	out, code := m.run(filepath.Join(workDir, "sqlgen"), args...)
	after := m.tree()
	t.NonTrivial(mode + " " + s.shape())
	if wrong && *c.Strict {
		if code != 1 {
			t.Fail("strict", "strict is on, but a method of the wrong form gives exit %d:\n%s", code, clip(out, 800))
		}
		return
	}
	if code != 0 {
		t.Fail("effect error", "exit %d: %s", code, clip(out, 800))
	}
	want := map[string]bool{}
	gen := "src/" + c.Exec.Filename
	want[gen] = true
	want[filepath.Join(c.Database.Dir, c.Database.Filename)] = true
	want[filepath.Join(c.Database.Operator.Dir, c.Database.Operator.Filename)] = true
	if srcs == "./**/*" && !c.Exec.SkipEmpty {
		want["empty/"+c.Exec.Filename] = true
	}
	for f := range want {
		if _, ok := after[f]; !ok {
			t.Fail("output missing", "there is no %s; the files are %v", f, keysOf(after))
		}
	}
	for f, v := range after {
		if before[f] != v && !want[f] {
			t.Fail("output elsewhere", "%s is new or changed; expected are %v", f, keysOf(want))
		}
	}
	for f, p := range map[string]string{filepath.Join(c.Database.Dir, c.Database.Filename): c.Database.Package, filepath.Join(c.Database.Operator.Dir, c.Database.Operator.Filename): c.Database.Operator.Package, gen: "src"} {
		if got := decls(t, after[f])["package"]; got != p {
			t.Fail("package", "%s is of package %s, want %s", f, got, p)
		}
	}
	d := decls(t, after[gen])
	sp := &gspec.Spec{Dialect: string(c.Driver), Naming: string(c.NamingConvention), Quote: c.QuoteIdentifier}
	if got, w := literals(d["UserProfile.TableName"]), sp.Ident(sp.Rename("UserProfile")); got != w {
		t.Fail("table name", "TableName() gives %q, want %q", got, w)
	}
	note := sp.Rename("Note")
	if other == c.Tag {
		note = "note_" + other
	}
	cols := []string{sp.Rename("UserID"), "given", note, sp.Rename("Born"), sp.Rename("Died")}
	if !wrong {
		var l []string
		for _, x := range cols {
			l = append(l, sp.Ident(x))
		}
		if got, w := literals(d["UserProfile.Columns"]), strings.Join(l, "|"); got != w {
			t.Fail("columns", "Columns() gives %q, want %q", got, w)
		}
	}
	for _, g := range []string{"UserID", "FirstName", "Note", "Born", "Died"} {
		if d["UserProfile."+c.Getter.Prefix+g] == "" {
			t.Fail("getter prefix", "there is no %s%s", c.Getter.Prefix, g)
		}
	}
	q := literals(d["UserProfile.InsertOneStmt"])
	ph := []string{"?", "?", "?", "?", "?"}
	if c.Driver == "postgres" {
		ph = []string{"$1", "$2", "$3", "$4", "$5"}
	}
	born := sp.MustIdent(cols[3])
	if custom {
		ph[3], ph[4] = "from_nanos("+ph[3]+")", "from_nanos("+ph[4]+")"
		born = "to_nanos(" + born + ")"
	}
	var ql []string
	for _, x := range cols {
		ql = append(ql, sp.MustIdent(x))
	}
	if w := " (" + strings.Join(ql, ",") + ") VALUES (" + strings.Join(ph, ",") + ")"; !strings.Contains(q, w) {
		t.Fail("insert", "the insert is %q, want %q in it", q, w)
	}
	if f := literals(d["UserProfile.FindOneByPKStmt"]); !strings.Contains(f, born) && !(wrong && f == "") {
		t.Fail("sql_scan", "the find is %q, want %q in it", f, born)
	}
	if has := strings.Contains(d["UserProfile.Values"], "mtypes.ToNanos(v.Born)"); has != custom {
		t.Fail("value", "the value function of data_types is used: %v, want %v", has, custom)
	}
	if has := strings.Count(d["UserProfile.Values"]+d["UserProfile.DiedValue"], "mtypes.ToNanos(*v.Died)") > 0; has != custom {
		t.Fail("value", "the value function of data_types is used for the pointer: %v, want %v", has, custom)
	}
	if has := strings.Contains(d["UserProfile.Addrs"], "mtypes.Nanos(&v.Born)"); has != custom {
		t.Fail("scan", "the scan function of data_types is used: %v, want %v", has, custom)
	}
	if !wrong {
		if out, code := m.run("go", "vet", "./src"); code != 0 {
			t.Fail("does not compile", "%s\n%s", clip(out, 1000), excerpt(after[gen], out))
		}
	}
}

// invalidCase: a configuration that cannot be honoured is an error, and nothing is written.
func invalidCase(t *pbt.T) {
	m := newMod()
	defer m.remove()
	m.write("src/a.go", "package src\n\ntype A struct{ X int }\n")
	bads := []string{"driver: oracle", "driver: MySQL", "driver: mssql", "naming_convention: kebab-case", "naming_convention: snakecase", "src: ['']", "src: ['./src', ' ']", "strict: maybe", "exec: [", "database: 3"}
	bad := pbt.Pick(t, bads...)
	if !strings.HasPrefix(bad, "src") {
		bad += "\nsrc: ['./src']"
	}
	text := bad + "\nskip_mod_tidy: true\n"
	args := []string{}
	if t.Bool() {
		m.write("sqlgen.yml", text)
	} else {
		m.write("c.yml", text)
		args = []string{"-c", "c.yml"}
		if t.P(1, 4) {
			args[1] = "missing.yml"
		}
	}
	before := m.tree()
	t.Logf("sqlgen %v\n%s", args, text)
	out, code := m.run(filepath.Join(workDir, "sqlgen"), args...)
	if code != 1 || strings.Contains(out, "panic") {
		t.Fail("invalid", "exit %d: %s", code, clip(out, 1000))
	}
	t.NonTrivial(bad + fmt.Sprint(args))
	if d := diffTrees(before, m.tree(), func(string) bool { return false }); d != "" {
		t.Fail("invalid but written", "%s", d)
	}
}

func deadSetting(key, sig string, effect func(text string) bool) func(t *pbt.T) {
	return func(t *pbt.T) {
		m := newMod()
		defer m.remove()
		m.write("src/a.go", "package src\n\ntype A struct{ X int }\n")
		m.write("sqlgen.yml", "src: ['./src']\nskip_mod_tidy: true\n"+key+": true\n")
		out, code := m.run(filepath.Join(workDir, "sqlgen"))
		if code != 0 {
			t.Fail("effect error", "exit %d: %s", code, clip(out, 800))
		}
		text, _ := m.read("src/generated.go")
		tree := strings.Join(keysOf(m.tree()), " ")
		if !effect(text + tree) {
			t.Fail(sig, "%s: true changes nothing", key)
		}
	}
}

// pointerScan: the scan function of a type goes for the pointers to it as its value function does.
func pointerScan(t *pbt.T) {
	m := newMod()
	defer m.remove()
	m.write("src/a.go", "package src\n\nimport \"verifharness/mtypes\"\n\ntype A struct{ X *mtypes.Geo }\n")
	m.write("sqlgen.yml", "src: ['./src']\nskip_mod_tidy: true\ndata_types:\n  verifharness/mtypes.Geo: {data_type: X, value: 'a/b.Value({{.}})', scan: 'a/b.Scanner({{.}})'}\n")
	out, code := m.run(filepath.Join(workDir, "sqlgen"))
	if code != 0 {
		t.Fail("effect error", "exit %d: %s", code, clip(out, 800))
	}
	text, _ := m.read("src/generated.go")
	if !strings.Contains(text, "b.Value(*v.X)") {
		t.Fail("pointer value", "the value function is not used:\n%s", text)
	}
	if !strings.Contains(text, "b.Scanner(") {
		t.Fail("scan of data_types ignored for pointers", "the value function of the type is used for a pointer to it, the scan function is not")
	}
}

func init() {
	props["C20"] = func(s *pbt.Session) {
		s.Rule = "distinct sets of settings which were loaded, merged, written, or put to effect by the command; distinct malformed texts"
		sort.Strings(stringKeys)
		s.Run(pbt.Check{Name: "load", Run: loadCase, Cases: 3000, Thorough: 100000})
		s.Run(pbt.Check{Name: "merge", Run: mergeCase, Cases: 3000, Thorough: 100000})
		s.Run(pbt.Check{Name: "malformed", Run: malformedCase, Cases: 1000, Thorough: 20000})
		s.Run(pbt.Check{Name: "fuzz", Run: fuzzCase, Cases: 3000, Thorough: 200000})
		s.Run(pbt.Check{Name: "init", Run: initCase, Cases: 1000, Thorough: 20000, Serial: true})
		s.Run(pbt.Check{Name: "which", Run: whichCase, Cases: 300, Thorough: 5000, Serial: true})
		s.Run(pbt.Check{Name: "effect", Run: effectCase, Cases: 40, Thorough: 600, CaseTimeout: 5 * time.Minute, MaxShrink: 60, Limit: 100000})
		s.Run(pbt.Check{Name: "invalid", Run: invalidCase, Cases: 20, Thorough: 100, CaseTimeout: 5 * time.Minute, MaxShrink: 20, Limit: 100000})
		s.Fixed("skip_header", deadSetting("skip_header", "skip_header has no effect", func(s string) bool { return !strings.Contains(s, "DO NOT EDIT") }))
		s.Fixed("pointer scan", pointerScan)
		s.Fixed("source_map", deadSetting("source_map", "source_map has no effect", func(s string) bool { return strings.Contains(s, ".map") }))
	}
}
