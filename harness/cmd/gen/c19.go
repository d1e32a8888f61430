package main

import (
	"fmt"
	"go/ast"
	"go/parser"
	"go/token"
	"os"
	"path"
	"path/filepath"
	"slices"
	"sort"
	"strings"
	"time"

	"verifharness/pbt"
)

// srcFile is a file of the tree: what it declares, and the models among it.
type srcFile struct {
	name   string
	text   string
	models []string
	dead   bool // not a part of the package which is built
}

var fileNames = []string{"model.go", "a.go", "b.go", "user_model.go", "order_model.go", "models.go", "x_linux.go", "model_test.go", "_hidden.go", ".dot.go", "notes.md", "model.go.txt", "a_windows.go", "tagged.go", "model2.go", "é.go", "contest.go", "test.go", "a_tests.go", "windows.go", "x_unix.go", "a_amd64.go", "model.test.go"}
var dirNames = []string{"a", "b", "ab", "model", "models", "a-b", "a.b", "deep", "x1", ".hid", ".x", "_old", "testdata", "vendored", "internal", "a+b", "[a]", "A"}

func ignoreMark(t *pbt.T) string {
	return pbt.Pick(t, "+sql:ignore", "+sql:ignore", "+sql:readonly, ignore", "+sql:ignore,readonly")
}

func drawFile(t *pbt.T, name, pkg string, n int) srcFile {
	f := srcFile{name: name}
	if !strings.HasSuffix(name, ".go") {
		f.text = "package " + pkg + "\n\ntype X struct{ A int }\n"
		return f
	}
	f.dead = strings.HasSuffix(name, "_test.go") || name[0] == '_' || name[0] == '.' || strings.Contains(name, "_windows") || name == "tagged.go"
	var b strings.Builder
	if name == "tagged.go" {
		b.WriteString("//go:build never\n\n")
	}
	b.WriteString("package " + pkg + "\n\n")
	body := ""
	for i := t.N(5); i >= 0; i-- {
		id := fmt.Sprintf("%s%c%d", pbt.Pick(t, "User", "Order", "T", "É", "ID"), 'A'+n%26, i)
		model := false
		switch t.N(22) {
		case 18, 19, 20: // a group of all kinds
			body += "type (\n"
			for j := t.Range(1, 6); j > 0; j-- {
				x := fmt.Sprintf("%sG%d", id, j)
				switch t.N(12) {
				case 0:
					body += "\t" + x + " = struct{ Name string }\n"
				case 1:
					body += "\t" + x + "[T any] struct{ Name T }\n"
				case 2:
					body += "\tu" + x + " struct{ Name string }\n"
				case 3:
					body += "\t// " + ignoreMark(t) + "\n\t" + x + " struct{ Name string }\n"
				case 4:
					body += "\t" + x + " interface{ Name() string }\n"
				case 5:
					body += "\t" + x + " []string\n"
				case 6:
					body += "\t" + x + " struct{ name string }\n"
				case 7:
					body += "\t" + x + " = string\n"
				case 8:
					body += "\t" + x + " sql.NullString\n"
					f.models = append(f.models, x)
				case 9:
					body += "\t// " + x + " has a comment.\n\t" + x + " struct{ Name string } // and another\n"
					f.models = append(f.models, x)
				case 10:
					body += "\t" + x + " (struct{ Name string })\n"
					f.models = append(f.models, x)
				default:
					body += "\t" + x + " struct {\n\t\tName string\n\t\tn    int\n\t}\n"
					f.models = append(f.models, x)
				}
			}
			body += ")\n\n"
		case 21:
			body += fmt.Sprintf("//line %s:%d\ntype %s struct {\n\tName string\n\tn int\n}\n\n", pbt.Pick(t, "gen.y", "/elsewhere/x.go", "other_test.go", "model.go"), 1+t.N(99), id)
			model = true
		case 0, 1, 2:
			body += fmt.Sprintf("type %s struct {\n\tName string\n\tn int\n}\n\n", id)
			model = true
		case 3:
			body += fmt.Sprintf("type %s struct{ name string; _ int }\n\n", id)
		case 4:
			body += fmt.Sprintf("type %s struct {\n\tName string `sql:\"-\"`\n}\n\n", id)
		case 5:
			body += fmt.Sprintf("type l%s struct{ Name string }\n\ntype %s struct {\n\tl%s\n}\n\n", id, id, id)
			model = true
		case 6:
			body += fmt.Sprintf("type %s[T any] struct{ V T; Name string }\n\n", id)
		case 7:
			body += fmt.Sprintf("type %s = struct{ Name string }\n\n", id)
		case 8:
			body += fmt.Sprintf("type %s sql.NullString\n\n", id)
			model = true
		case 9:
			body += fmt.Sprintf("func f%s() any {\n\ttype %s struct{ Name string }\n\treturn %s{}\n}\n\n", id, id, id)
		case 10:
			body += fmt.Sprintf("// %s\ntype %s struct{ Name string }\n\n", ignoreMark(t), id)
		case 11:
			body += fmt.Sprintf("type (\n\t// %s is in a group\n\t%s struct{ Name string }\n\n\t// +sql:ignore\n\tI%s struct{ Name string }\n\n\tu%s struct{ Name string }\n)\n\n", id, id, id, id)
			model = true
		case 12:
			body += fmt.Sprintf("type %s []struct{ Name string }\n\n", id)
		case 13:
			body += fmt.Sprintf("type %s interface{ Name() string }\n\ntype I%s int\n\ntype F%s func(struct{ Name string })\n\n", id, id, id)
		case 14:
			body += fmt.Sprintf("type %s struct{}\n\n", id)
		case 15:
			body += fmt.Sprintf("type %s struct {\n\t_ struct{} `sql:\"t\"`\n\tSub struct{ Name string }\n}\n\n", id)
			model = true
		case 16:
			body += fmt.Sprintf("type %s struct {\n\tPtr *string\n\tsql.NullInt64 `sql:\"-\"`\n}\n\n", id)
			model = true
		default:
			body += fmt.Sprintf("var v%s = struct{ Name string }{}\n\nconst c%s = 1\n\n", id, id)
		}
		if model {
			f.models = append(f.models, id)
		}
	}
	if strings.Contains(body, "sql.") {
		b.WriteString("import \"database/sql\"\n\n")
	}
	f.text = b.String() + body
	if f.dead {
		f.models = nil
	}
	return f
}

// globMatch matches a path by its segments: ** stands for any number of directories.
func globMatch(pat, name []string, wild bool) bool {
	if len(pat) == 0 {
		return len(name) == 0
	}
	if pat[0] == "**" {
		if globMatch(pat[1:], name, true) {
			return true
		}
		// a hidden directory is not entered
		return len(name) > 1 && name[0][0] != '.' && globMatch(pat, name[1:], true)
	}
	if len(name) == 0 {
		return false
	}
	if strings.Contains(pat[0], "*") && len(name) > 1 && name[0][0] == '.' && !strings.HasPrefix(pat[0], ".") {
		return false
	}
	return segMatch(pat[0], name[0]) && globMatch(pat[1:], name[1:], wild || strings.Contains(pat[0], "*"))
}

func segMatch(p, s string) bool {
	parts := strings.Split(p, "*")
	if len(parts) == 1 {
		return p == s
	}
	if !strings.HasPrefix(s, parts[0]) {
		return false
	}
	s = s[len(parts[0]):]
	for _, m := range parts[1 : len(parts)-1] {
		i := strings.Index(s, m)
		if i < 0 {
			return false
		}
		s = s[i+len(m):]
	}
	return strings.HasSuffix(s, parts[len(parts)-1])
}

// selects says that a source pattern covers a file, by the documentation and the usual globs.
func selects(dirs map[string]bool, files map[string]bool, src, file string) bool {
	src = strings.TrimSpace(src)
	src = path.Clean(src)
	if !strings.HasSuffix(file, ".go") || strings.HasSuffix(file, "_test.go") {
		return false
	}
	if !strings.Contains(src, "*") {
		if dirs[src] {
			return path.Dir(file) == src
		}
		return src == file
	}
	pat := strings.Split(src, "/")
	if last := pat[len(pat)-1]; last == "**" {
		pat = append(pat, "*.go")
	} else if strings.HasSuffix(last, "*") {
		pat[len(pat)-1] = last + ".go"
	}
	return globMatch(pat, strings.Split(file, "/"), false)
}

func drawPattern(t *pbt.T, dirs, files []string) string {
	dir := pbt.Pick(t, dirs...)
	var p string
	switch t.N(12) {
	case 0:
		p = dir
	case 1:
		p = pbt.Pick(t, files...)
	case 2:
		p = dir + "/" + pbt.Pick(t, "*.go", "*", "*_model.go", "model*.go", "*model*.go", "*model*", "m*l.go", "a*.go", "*a.go")
	case 3:
		p = dir + "/**"
	case 4:
		p = dir + "/**/" + pbt.Pick(t, "*.go", "*", "*_model.go", "model.go", "a/*.go", "**/*.go", "*/a.go", "models/*")
	case 5:
		p = pbt.Pick(t, "**", "**/*.go", "**/*", "*", "*.go", "**/*model.go", "**/a/**", "**/a/*.go")
	case 6: // a wildcard in the place of a directory
		seg := strings.Split(pbt.Pick(t, files...), "/")
		i := t.N(len(seg))
		r := []rune(seg[i])
		seg[i] = pbt.Pick(t, "*", "**", string(r[:1])+"*", "*"+string(r[len(r)-1:]))
		p = strings.Join(seg, "/")
	case 7:
		p = "missing" + pbt.Pick(t, "", "/*.go", "/**/*.go", "/x.go")
	case 8:
		p = dir + pbt.Pick(t, "/", "/.", "//*.go", "/./*.go", "/../"+path.Base(dir)+"/*.go")
	case 9:
		p = dir + "/" + pbt.Pick(t, fileNames...)
	case 10:
		p = string([]rune(dir)[:1]) + "*/" + pbt.Pick(t, "*.go", "**/*.go", "*", "*/*.go")
	default:
		p = pbt.Pick(t, ".", "./", "./*", "./**/*.go")
	}
	if t.P(1, 3) && !strings.HasPrefix(p, ".") {
		p = "./" + p
	}
	if t.P(1, 10) {
		p = " " + p + "\t"
	}
	return p
}

func selection(t *pbt.T) {
	m := newMod()
	defer m.remove()
	dirs, files := map[string]bool{".": true}, map[string]bool{}
	tree := map[string]srcFile{}
	var dirList []string
	for i := t.Range(1, 7); i > 0; i-- {
		d := pbt.Pick(t, dirNames...)
		if len(dirList) > 0 && t.Bool() {
			d = pbt.Pick(t, dirList...) + "/" + d
		}
		if !dirs[d] && !strings.Contains(d, "db") {
			dirList = append(dirList, d)
		}
		for x := d; x != "."; x = path.Dir(x) {
			dirs[x] = true
		}
		n := 0
		for j := t.N(4); j >= 0; j-- {
			name := pbt.Pick(t, fileNames...)
			if files[d+"/"+name] {
				continue
			}
			files[d+"/"+name] = true
			tree[d+"/"+name] = drawFile(t, name, "p", len(tree)+n)
		}
	}
	fileList := keysOf(tree)
	var srcs []string
	for i := t.Range(1, 3); i > 0; i-- {
		p := drawPattern(t, dirList, fileList)
		// a dot directory or one with brackets is no import path: only a wildcard passes by
		if q := path.Clean(strings.TrimSpace(p)); strings.Contains(q, ".hid") || strings.Contains("/"+q, "/.") || strings.Contains(q, "[a]") || strings.Contains(q, "***") || strings.Contains(q, "missing") && strings.HasPrefix(q, "..") {
			continue
		}
		srcs = append(srcs, p)
	}
	if len(srcs) == 0 {
		t.Discard()
	}
	// what has to be generated
	want := map[string][]string{}
	dirsHit := map[string]bool{}
	for f, sf := range tree {
		for _, p := range srcs {
			if selects(dirs, files, p, f) {
				if strings.Contains(f, "[a]") {
					t.Discard() // such a directory cannot be a package
				}
				d := path.Dir(f)
				if !sf.dead {
					dirsHit[d] = true
				}
				want[d] = append(want[d], sf.models...)
				break
			}
		}
	}
	for f, sf := range tree {
		m.write(f, sf.text)
		t.Logf("-- %s (models %v)\n%s", f, sf.models, sf.text)
	}
	for d := range dirs {
		os.MkdirAll(filepath.Join(m.dir, d), 0o755)
	}
	old := ""
	if t.P(1, 3) { // stale output where nothing is selected stays as it is
		old = pbt.Pick(t, dirList...)
		m.write(old+"/generated.go", "// Code generated by sqlgen, version 0; DO NOT EDIT.\n\npackage p\n")
	}
	cfg := map[string]any{"Source": srcs, "Driver": pbt.Pick(t, "mysql", "postgres", "sqlite"), "SkipModTidy": true, "Exec": map[string]any{"SkipEmpty": t.Bool()},
		"Database": map[string]any{"Dir": "zzdb", "Operator": map[string]any{"Dir": "zzdb"}}}
	t.Logf("sources %q", srcs)
	before := m.tree()
	if msg, ok := m.generate(t, cfg); !ok {
		t.Fail("refused", "sources %q: %s", srcs, msg)
	}
	after := m.tree()
	for f, text := range after {
		if path.Base(f) != "generated.go" {
			if before[f] != text && f != "config.json" && !strings.HasPrefix(f, "zzdb/") {
				t.Fail("changed file", "sources %q: %s is changed or new", srcs, f)
			}
			continue
		}
		if before[f] == text {
			continue
		}
		if !dirsHit[path.Dir(f)] {
			t.Fail("output elsewhere", "sources %q: %s is written, but no file of the directory is selected", srcs, f)
		}
	}
	for f := range before {
		if _, ok := after[f]; !ok && !(path.Base(f) == "generated.go" && want[path.Dir(f)] != nil) && !(path.Base(f) == "generated.go" && dirsHit[path.Dir(f)]) {
			if d := path.Dir(f); path.Base(f) == "generated.go" && onlyDead(tree, d, srcs, dirs, files) {
				continue
			}
			t.Fail("removed file", "sources %q: %s is gone", srcs, f)
		}
	}
	for d := range dirs {
		got := []string{}
		if text, ok := after[path.Join(d, "generated.go")]; ok {
			got = receivers(t, text)
		}
		w := append([]string{}, want[d]...)
		sort.Strings(w)
		if !slices.Equal(got, w) {
			t.Fail("models", "sources %q: in %s methods are generated for %v, want %v", srcs, d, got, w)
		}
		if len(w) > 0 {
			t.NonTrivial(fmt.Sprint(len(w), " ", strings.Count(d, "/"), " ", strings.Join(srcs, " ")))
		}
	}
}

func onlyDead(tree map[string]srcFile, d string, srcs []string, dirs, files map[string]bool) bool {
	for f := range tree {
		for _, p := range srcs {
			if path.Dir(f) == d && selects(dirs, files, p, f) {
				return true
			}
		}
	}
	return false
}

// receivers are the types with a generated TableName; every method must be of one of them.
func receivers(t *pbt.T, text string) []string {
	f, err := parser.ParseFile(token.NewFileSet(), "", text, 0)
	if err != nil {
		t.Fail("unreadable", "the output does not parse: %v", err)
	}
	has, all := map[string]bool{}, map[string]bool{}
	for _, d := range f.Decls {
		fn, ok := d.(*ast.FuncDecl)
		if !ok || fn.Recv == nil {
			continue
		}
		x := fn.Recv.List[0].Type
		if s, ok := x.(*ast.StarExpr); ok {
			x = s.X
		}
		n := x.(*ast.Ident).Name
		all[n] = true
		if fn.Name.Name == "TableName" {
			has[n] = true
		}
	}
	if len(has) != len(all) {
		t.Fail("models", "some of %v have no TableName", keysOf(all))
	}
	return keysOf(has)
}

func init() {
	props["C19"] = func(s *pbt.Session) {
		s.Rule = "distinct (number of models, depth of the directory, source patterns) of the directories in which models were generated"
		s.Run(pbt.Check{Name: "sources", Run: selection, Cases: 240, Thorough: 4000, CaseTimeout: 5 * time.Minute, MaxShrink: 120, Limit: 100000})
	}
}
