package dbt

import (
	"embed"
	"fmt"
	"strings"
)

//go:embed src
var src embed.FS

func text(name string) string {
	b, err := src.ReadFile("src/" + name)
	if err != nil {
		panic(err)
	}
	return string(b)
}

// Variant is a dialect, with or without quoted identifiers.
type Variant struct {
	Dialect string
	Quoted  bool
}

func (v Variant) Key() string {
	if v.Quoted {
		return v.Dialect + "q"
	}
	return v.Dialect
}

var Variants = []Variant{{"mysql", false}, {"postgres", false}, {"sqlite", false}, {"mysql", true}, {"postgres", true}, {"sqlite", true}}

// Models are the files of the package of models.
func (v Variant) Models() map[string]string {
	q := ""
	if v.Quoted {
		q = map[string]string{"mysql": "`", "postgres": `"`, "sqlite": `"`}[v.Dialect]
	}
	m := text("models.go.txt")
	for _, c := range []string{"slug", "hits", "n", "id"} {
		m = strings.ReplaceAll(m, `"«`+c+`»"`, fmt.Sprintf("%q", q+c+q))
	}
	m = strings.ReplaceAll(m, `"peek(«coded»)"`, fmt.Sprintf("%q", "peek("+q+"coded"+q+")"))
	out := map[string]string{"m/models.go": m}
	if v.Quoted {
		out["m/reserved.go"] = text("reserved.go.txt")
	}
	return out
}

// Config is the configuration of the generator.
func (v Variant) Config() map[string]any {
	k := v.Key()
	return map[string]any{
		"Source": []string{"./" + k + "/m"}, "Driver": v.Dialect, "QuoteIdentifier": v.Quoted, "SkipModTidy": true,
		"DataTypes": map[string]any{"scratch/" + k + "/m.Secret": map[string]any{"SQLScanner": "peek({{.}})"}},
		"Getter":   map[string]any{"Prefix": "Col"},
		"Database": map[string]any{"Dir": k + "/db", "Package": "db", "Filename": "db.go", "Operator": map[string]any{"Dir": k + "/db", "Package": "db", "Filename": "operator.go"}},
	}
}

// Adapter are the files which use the generated code.
func (v Variant) Adapter() map[string]string {
	fill := strings.NewReplacer("KEY", v.Key(), "DIALECT", v.Dialect, "QUOTED", fmt.Sprint(v.Quoted))
	a := text("adapter.go.txt")
	if v.Dialect == "postgres" {
		a += text("pg.go.txt")
	} else {
		a += text("other.go.txt")
	}
	var b strings.Builder
	fmt.Fprintf(&b, "package a\n\nimport (\n\t%q\n\t%q\n\t%q\n)\n\nfunc models() []*dbt.Model {\n\treturn []*dbt.Model{\n", "scratch/"+v.Key()+"/h", "scratch/"+v.Key()+"/m", "verifharness/dbt")
	for _, s := range Specs {
		if s.Quoted && !v.Quoted {
			continue
		}
		f := "full"
		if len(s.Key) == 0 {
			f = "bare"
		}
		t := s.Pkg + "." + s.Go
		fmt.Fprintf(&b, "\t\t%s[%s](&dbt.Model{Spec: dbt.SpecOf(%q), Cols: map[string]*dbt.ColOps{\n", f, t, s.Go)
		for _, c := range s.Cols {
			f := c.Field[strings.LastIndexByte(c.Field, '.')+1:]
			o := "ops"
			if c.Kind == "bytes" {
				o = "anyOps"
			}
			typ := map[string]string{"m.User.Mood": "m.Mood", "m.Sight.Coded": "m.Secret", "m.Item.Meta": "m.Meta", "m.User.Age": "int", "m.Stamp.Val": "int",
				"m.Auto.Ver": "int", "m.Auto.Level": "int8", "m.Auto.Num": "uint32", "m.Item.Rate": "float32", "m.Item.Qty": "uint32", "m.Uniq.Val": "*int"}[t+"."+f]
			if typ == "" {
				typ = map[string]string{"int": "int64", "float": "float64", "string": "string", "bool": "bool", "time": "time.Time", "bytes": "[]byte"}[c.Kind]
				if c.Null && c.Kind != "bytes" {
					typ = "*" + typ
				}
			}
			fmt.Fprintf(&b, "\t\t\t%q: %s[%s](%s{}.Col%s()),\n", c.Name, o, typ, t, f)
			if typ == "string" {
				fmt.Fprintf(&b, "\t\t\t%q: upper(%s{}.Col%s()),\n", c.Name+"^", t, f)
			}
		}
		b.WriteString("\t\t}}),\n")
	}
	b.WriteString("\t}\n}\n")
	ms := b.String()
	if strings.Contains(ms, "time.Time") {
		ms = strings.Replace(ms, "import (\n", "import (\n\t\"time\"\n\n", 1)
	}
	return map[string]string{
		v.Key() + "/h/h.go":      fill.Replace(text("hand.go.txt")),
		v.Key() + "/a/a.go":      fill.Replace(a),
		v.Key() + "/a/models.go": ms,
	}
}

// Program is the main package.
func Program(l []Variant) string {
	var b strings.Builder
	b.WriteString("package main\n\nimport (\n\t\"verifharness/dbt\"\n\n")
	for _, v := range l {
		fmt.Fprintf(&b, "\t_ \"scratch/%s/a\"\n", v.Key())
	}
	b.WriteString(")\n\nfunc main() { dbt.Main() }\n")
	return b.String()
}
