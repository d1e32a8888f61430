package main

import (
	"fmt"
	"os"
	"path/filepath"
	"strings"
	"time"

	"verifharness/gspec"
	"verifharness/pbt"
)

// bad is a declaration which cannot be honoured.
type bad struct {
	kind string
	src  string // declarations to add to the package
	file bool   // src is a file of its own
}

// drawBad draws an invalid model called name, with valid fields around what is wrong.
func drawBad(t *pbt.T, s *gspec.Spec, name string) bad {
	ns := gspec.NewNames(s.Prefix)
	ns.Take(name)
	col := 0
	field := func() string { // a valid field
		for {
			n := gspec.Name(t)
			if !ns.Take(n) {
				continue
			}
			col++
			return fmt.Sprintf("\t%s %s `%s:\"vf%d\"`\n", n, gspec.Type(t), s.Tag, col)
		}
	}
	id := func() string {
		for {
			if n := gspec.Name(t); ns.Take(n) {
				return n
			}
		}
	}
	tag := func(v string) string { return fmt.Sprintf("`%s:%q`", s.Tag, v) }
	var wrong []string
	var more, kind string
	unstorable := []string{"chan int", "func()", "complex128", "complex64", "[]chan string", "map[string]func() error", "*func(int) int", "[2]complex64", "[]*chan int", "unsafe.Pointer", "<-chan LStr"}
	switch kind = pbt.Pick(t, "duplicate", "duplicate", "two autos", "auto type", "readonly key", "pointer", "defined pointer", "unstorable", "undefined", "syntax", "recursive", "field is method", "value clash", "getter clash", "footprint", "column name", "import name", "embedded twice"); kind {
	case "duplicate":
		a, b := id(), id()
		n := pbt.Pick(t, "same", s.Rename(a))
		x := pbt.Pick(t, n, n+",readonly", n+",size:3")
		wrong = []string{"\t" + a + " " + gspec.Type(t) + " " + tag(n) + "\n", "\t" + b + " " + gspec.Type(t) + " " + tag(x) + "\n"}
	case "two autos":
		wrong = []string{"\t" + id() + " " + pbt.Pick(t, gspec.AutoTypes...) + " " + tag("a1,pk,auto_increment") + "\n", "\t" + id() + " " + pbt.Pick(t, gspec.AutoTypes...) + " " + tag("a2,auto_increment") + "\n"}
	case "auto type":
		wrong = []string{"\t" + id() + " " + pbt.Pick(t, "string", "bool", "float64", "time.Time", "[]byte", "*int64", "LStr", "uuid.UUID", "[]int", "struct{ A int }", "map[string]int") + " " + tag("a1,pk,auto_increment") + "\n"}
	case "readonly key":
		wrong = []string{"\t" + id() + " " + pbt.Pick(t, "int64", "uint8", "int") + " " + tag(pbt.Pick(t, "k,pk,readonly", "k,readonly,primary_key", "k,pk,size:2,readonly", "k,auto_increment,readonly", "k,readonly,auto_increment", "k,pk,auto_increment,readonly")) + "\n"}
	case "pointer":
		wrong = []string{"\t" + id() + " " + pbt.Pick(t, "**string", "***int", "**LStr", "**time.Time", "**struct{ X int }") + " " + tag("pp") + "\n"}
	case "defined pointer":
		more = "type ptrOf" + name + " *" + pbt.Pick(t, "string", "LInt", "time.Time", "mtypes.Geo") + "\n"
		wrong = []string{"\t" + id() + " ptrOf" + name + " " + tag("dp") + "\n"}
	case "unstorable":
		wrong = []string{"\t" + id() + " " + pbt.Pick(t, unstorable...) + " " + tag("un") + "\n"}
	case "undefined":
		wrong = []string{"\t" + id() + " " + pbt.Pick(t, "Missing"+name, "*Missing"+name, "[]Missing"+name, "map[string]Missing"+name, "mtypes.Missing") + " " + tag("un") + "\n"}
	case "syntax":
		wrong = []string{"\t" + id() + pbt.Pick(t, " [", " string string", " map[string", " *", " int `", " struct {", " 3int", " []") + "\n"}
	case "recursive":
		switch t.N(3) {
		case 0:
			wrong = []string{"\t*" + name + "\n"}
		case 1:
			more = "type rec" + name + " struct {\n\tRA int\n\t*rec" + name + "\n}\n"
			wrong = []string{"\trec" + name + "\n"}
		default:
			more = "type recA" + name + " struct {\n\t*recB" + name + "\n}\n\ntype recB" + name + " struct {\n\tRB string\n\t*recA" + name + "\n}\n"
			wrong = []string{"\t*recA" + name + "\n"}
		}
	case "field is method":
		wrong = []string{"\t" + pbt.Pick(t, "TableName", "Columns", "Values", "Addrs", "InsertPlaceholders", "InsertOneStmt", "PK", "FindOneByPKStmt", "UpdateOneByPKStmt") + " string " + tag("fm") + "\n",
			"\t" + id() + " int64 " + tag("fmkey,pk") + "\n"}
	case "value clash":
		a := id()
		wrong = []string{"\t" + a + " string " + tag("vc1") + "\n", "\t" + a + "Value " + gspec.Type(t) + " " + tag("vc2") + "\n"}
	case "getter clash":
		a := id()
		wrong = []string{"\t" + a + " string " + tag("gc1") + "\n", "\t" + s.Prefix + a + " " + gspec.Type(t) + " " + tag("gc2") + "\n"}
	case "footprint":
		if !s.Strict {
			return drawBad(t, s, name)
		}
		more = "func (" + pbt.Pick(t, name, "v "+name, "*"+name) + ") " + pbt.Pick(t, "TableName() int { return 1 }", "TableName(int) string { return \"\" }", "Columns() string { return \"\" }", "Columns() []int { return nil }",
			"Values() []string { return nil }", "Values() any { return nil }", "Addrs() []int { return nil }", "Addrs(int) []any { return nil }") + "\n"
	case "column name":
		wrong = []string{"\t" + id() + " string `" + s.Tag + `:"` + pbt.Pick(t, "a b", "a-b", "a.b", "é'", "a;b", "1 = 1 --", "x\\\"y") + "\"`\n"}
	case "import name":
		return bad{kind: kind, src: pbt.Pick(t, "type sequel int\n", "type sequel struct{ Q int }\n", "var sequel = 1\n", "func sequel() {}\n", "const sequel = \"x\"\n") + "\ntype " + name + " struct {\n" + field() + "\tNTime sql.NullString " + tag("nt") + "\n}\n"}
	case "embedded twice":
		more = "type tw" + name + " struct {\n\tTwA string " + tag("twa") + "\n\tTwB int " + tag("twb") + "\n}\n"
		wrong = []string{"\t" + pbt.Pick(t, "", "*") + "tw" + name + "\n", "\t" + id() + " string " + tag(pbt.Pick(t, "twa", "twb")) + "\n"}
	}
	switch kind {
	case "duplicate", "two autos", "auto type", "readonly key", "pointer", "unstorable", "column name":
		if t.P(1, 3) { // in embedded structs
			inner := "part" + name
			more += "type " + inner + " struct {\n"
			for i := range wrong {
				if i == 0 || t.Bool() {
					more += wrong[i]
					wrong[i] = ""
				}
			}
			more += "}\n"
			emb := pbt.Pick(t, "", "*") + inner
			if t.P(1, 3) {
				more += "\ntype wrap" + name + " struct {\n" + field() + "\t" + emb + "\n}\n"
				emb = pbt.Pick(t, "", "*") + "wrap" + name
			}
			wrong = append(wrong, "\t"+emb+"\n")
			kind += ", embedded"
		}
	}
	var b strings.Builder
	b.WriteString("type " + name + " struct {\n")
	for i := t.N(3); i > 0; i-- {
		b.WriteString(field())
	}
	for _, w := range wrong {
		b.WriteString(w)
		if t.P(1, 3) {
			b.WriteString(field())
		}
	}
	if len(wrong) == 0 {
		b.WriteString(field())
	}
	b.WriteString("}\n\n")
	if t.Bool() {
		return bad{kind: kind, src: b.String() + more}
	}
	return bad{kind: kind, src: more + "\n" + b.String()}
}

func badHeader(pkg, src string) string {
	h := gspec.Header(pkg, src)
	if strings.Contains(src, "unsafe.Pointer") {
		h = strings.Replace(h, "\n\n", "\n\nimport \"unsafe\"\n", 1)
	}
	return h
}

// refuseBad: old output, then an invalid model among valid ones in one of the packages.
func refuseBad(t *pbt.T) {
	p := drawPkgs(t, pbt.Pick(t, 1, 1, 1, 2, 3))
	q := p.specs[0]
	victim := t.N(len(p.dirs))
	m := newMod()
	defer m.remove()
	for i := range p.dirs {
		p.write(m, i)
	}
	cfg := p.config(t)
	hadOld := t.P(2, 3)
	valid := map[string]string{}
	if msg, ok := m.generate(t, cfg); !ok {
		t.Fail("refused", "the generator refuses the valid packages: %s", msg)
	}
	valid = m.tree()
	out := p.dirs[victim] + "/" + q.Filename
	stale := "// Code generated by sqlgen, version 0; DO NOT EDIT.\n\npackage " + filepath.Base(p.dirs[victim]) + "\n"
	if !hadOld {
		for i := range p.dirs {
			os.Remove(filepath.Join(m.dir, p.dirs[i], q.Filename))
		}
		os.RemoveAll(filepath.Join(m.dir, "db"))
	} else if t.P(1, 3) {
		m.write(out, stale)
	}
	// one after the other, each of them alone
	base := m.tree()
	for i := 0; i < 7; i++ {
		if i > 0 && !t.P(9, 10) {
			break
		}
		b := drawBad(t, p.specs[victim], "Zz"+gspec.Name(t)+"Bad")
		refuseOne(t, m, &p, cfg, b, victim, out, valid, hadOld)
		for k := range m.tree() {
			if _, ok := base[k]; !ok {
				os.Remove(filepath.Join(m.dir, k))
			}
		}
		for k, v := range base {
			m.write(k, v)
		}
	}
}

// refuseOne runs the generator with an invalid model in the package.
func refuseOne(t *pbt.T, m *mod, p *pkgs, cfg map[string]any, b bad, victim int, out string, valid map[string]string, hadOld bool) {
	q := p.specs[0]
	dir := p.dirs[victim]
	text := badHeader(filepath.Base(dir), b.src)
	name := pbt.Pick(t, "aaa_bad.go", "zzz_bad.go")
	m.write(dir+"/"+name, text)
	t.Logf("packages %v, source %v, strict %v, prefix %s\n-- %s/%s\n%s", p.dirs, cfg["Source"], q.Strict, q.Prefix, dir, name, text)
	before := m.tree()
	msg, ok := m.generate(t, cfg)
	if ok {
		gen, _ := m.read(out)
		t.Fail("accepted: "+b.kind, "the package with the invalid model is accepted; %s is now\n%s", out, clip(gen, 1500))
	}
	t.NonTrivial(b.kind + " " + q.Dialect + fmt.Sprint(hadOld, len(p.dirs)))
	if strings.TrimSpace(msg) == "" {
		t.Fail("no message", "the error says nothing")
	}
	checkAfter(t, before, m.tree(), valid, func(k string) bool { return k != out })
}

// checkAfter: every file is as before, or absent or as a valid run writes it when it is an output.
func checkAfter(t *pbt.T, before, after, valid map[string]string, fresh func(string) bool) {
	for k, v := range before {
		w, ok := after[k]
		if k == "config.json" || ok && w == v {
			continue
		}
		if isOutput(k, v) && (!ok || fresh(k) && w == valid[k]) {
			continue
		}
		t.Fail("changed file", "after the failed run %s: %s", k, firstDiff(v, w, ok))
	}
	for k, w := range after {
		if _, ok := before[k]; ok || k == "config.json" {
			continue
		}
		if fresh(k) && w == valid[k] && w != "" {
			continue
		}
		t.Fail("half-written", "after the failed run there is a file %s:\n%s", k, clip(w, 600))
	}
}

func isOutput(name, text string) bool { return strings.HasPrefix(text, "// Code generated by sqlgen") }

// failedWrite: the disk refuses the output, or a part of it.
func failedWrite(t *pbt.T) {
	p := drawPkgs(t, t.Range(1, 2))
	q := p.specs[0]
	m := newMod()
	defer m.remove()
	for i := range p.dirs {
		p.write(m, i)
	}
	cfg := p.config(t)
	if msg, ok := m.generate(t, cfg); !ok {
		t.Fail("refused", "the generator refuses the valid packages: %s", msg)
	}
	valid := m.tree()
	var outs []string
	size := 0
	for k, v := range valid {
		if isOutput(k, v) {
			outs = append(outs, k)
			size = max(size, len(v))
		}
	}
	keep := t.Bool()
	if !keep {
		for _, k := range outs {
			os.Remove(filepath.Join(m.dir, k))
		}
	}
	before := m.tree()
	// files cannot grow beyond the limit: the write fails in the middle
	limit := t.N(size/512 + 1)
	t.Logf("packages %v, %s, file size limit %d blocks of 512, earlier output %v", p.dirs, q.Dialect, limit, keep)
	out, code := m.run("bash", "-c", fmt.Sprintf("ulimit -f %d; exec %s config.json", limit, genchild)) // bash counts blocks of 1024
	after := m.tree()
	switch code {
	case 0:
		for _, k := range outs {
			if after[k] != valid[k] {
				t.Fail("silent loss", "the run reports success, but %s: %s", k, firstDiff(valid[k], after[k], after[k] != ""))
			}
		}
		return
	case 1:
	default:
		t.Fail("generator crash", "the generator exits with %d:\n%s", code, clip(out, 2000))
	}
	t.NonTrivial(fmt.Sprint(q.Dialect, limit))
	checkAfter(t, before, after, valid, func(string) bool { return true })
}

func init() {
	props["C17"] = func(s *pbt.Session) {
		s.Rule = "distinct (what is wrong, dialect, earlier output present, number of packages) of the runs that were refused, and (dialect, file size limit) of the writes that failed"
		s.Run(pbt.Check{Name: "invalid", Run: refuseBad, Cases: 48, Thorough: 1500, CaseTimeout: 5 * time.Minute, MaxShrink: 60, Limit: 100000})
		s.Run(pbt.Check{Name: "failed write", Run: failedWrite, Cases: 6, Thorough: 150, CaseTimeout: 5 * time.Minute, MaxShrink: 30, Limit: 100000})
	}
}
