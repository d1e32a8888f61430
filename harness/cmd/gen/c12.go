package main

import (
	"fmt"
	"os"
	"path/filepath"
	"sort"
	"strings"
	"time"

	"verifharness/gspec"
	"verifharness/pbt"
)

// pkgs is several packages of models with one configuration.
type pkgs struct {
	dirs   []string
	specs  []*gspec.Spec
	shared []string // one more file, with a model whose types are of packages which the other packages import as well
}

// drawShared is a model of foreign types, some of packages of the same name.
func drawShared(t *pbt.T) string {
	var b strings.Builder
	b.WriteString("// Shared is generated for a check.\ntype Shared struct {\n")
	n := t.Range(1, 5)
	for i := range n {
		fmt.Fprintf(&b, "\tFld%c %s\n", 'A'+i, pbt.Pick(t, "mtypes.Label", "altm.Label", "*altm.Label", "altm.Geo", "mtypes.Geo", "[]mtypes.Label", "[]altm.Label", "mtypes.Pair[altm.Label, mtypes.Label]", "uuid.UUID", "ti.Time", "sql.NullTime", "netip.Addr", "oddv.Kind", "oddtypes.Text", "oddencoding.List"))
	}
	b.WriteString("}\n")
	return b.String()
}

func drawPkgs(t *pbt.T, n int) pkgs {
	var p pkgs
	names := []string{"alpha", "beta/deep", "gamma", "beta", "zeta/x/y"}
	for i := 0; i < n; i++ {
		s := gspec.New(t, gspec.Options{Structs: 4})
		if i > 0 {
			c := p.specs[0]
			t0 := *s
			t0.Dialect, t0.Naming, t0.Tag, t0.Quote, t0.Prefix, t0.Strict, t0.Filename = c.Dialect, c.Naming, c.Tag, c.Quote, c.Prefix, c.Strict, c.Filename
			s = &t0
			if !consistent(s) {
				i--
				n--
				continue
			}
		}
		p.specs = append(p.specs, s)
		p.shared = append(p.shared, drawShared(t))
		p.dirs = append(p.dirs, names[len(p.dirs)])
	}
	return p
}

// consistent says that the columns of every model stay distinct under the configuration.
func consistent(s *gspec.Spec) bool {
	for _, m := range s.Structs {
		cols := map[string]bool{}
		for _, c := range s.Columns(m) {
			k := strings.ToLower(c.Name)
			if cols[k] {
				return false
			}
			cols[k] = true
		}
		names := map[string]bool{}
		for _, c := range s.Columns(m) {
			for _, f := range []string{c.GoName, c.GoName + "Value", s.Prefix + c.GoName} {
				if names[f] {
					return false
				}
				names[f] = true
			}
		}
	}
	return true
}

func (p pkgs) write(m *mod, i int) {
	dir := p.dirs[i]
	for name, text := range p.specs[i].Sources(filepath.Base(dir)) {
		m.write(dir+"/"+name, text)
	}
	if i < len(p.shared) {
		m.write(dir+"/shared.go", gspec.Header(filepath.Base(dir), p.shared[i]))
	}
}

func (p pkgs) config(t *pbt.T) map[string]any {
	var src []string
	for _, d := range p.dirs {
		src = append(src, pbt.Pick(t, "./"+d, d, d+"/*.go"))
	}
	cfg := p.specs[0].Config(".")
	cfg["Source"] = src
	return cfg
}

func diffTrees(a, b map[string]string, skip func(string) bool) string {
	var l []string
	for k, v := range a {
		if w, ok := b[k]; !skip(k) && (!ok || v != w) {
			l = append(l, fmt.Sprintf("%s: %s", k, firstDiff(v, w, ok)))
		}
	}
	for k := range b {
		if _, ok := a[k]; !ok && !skip(k) {
			l = append(l, k+": only in the second")
		}
	}
	sort.Strings(l)
	return strings.Join(l, "\n")
}

func firstDiff(a, b string, ok bool) string {
	if !ok {
		return "only in the first"
	}
	x, y := strings.Split(a, "\n"), strings.Split(b, "\n")
	for i := range min(len(x), len(y)) {
		if x[i] != y[i] {
			return fmt.Sprintf("line %d: %q, then %q", i+1, x[i], y[i])
		}
	}
	return fmt.Sprintf("%d lines, then %d", len(x), len(y))
}

func generateTwice(t *pbt.T) {
	p := drawPkgs(t, t.Range(1, 4))
	old := drawPkgs(t, 1)
	q := p.specs[0]
	m := newMod()
	defer m.remove()
	for i := range p.dirs {
		p.write(m, i)
		if len(p.specs[i].Models()) > 0 {
			t.NonTrivial(fmt.Sprint(q.Dialect, q.Naming, q.Quote, len(p.specs[i].Models()), len(p.dirs)))
		}
	}
	cfg := p.config(t)
	t.Logf("packages %v, source %v, file %s, %s", p.dirs, cfg["Source"], q.Filename, q.Dialect)
	for i := range p.dirs {
		t.Logf("-- %s/shared.go\n%s", p.dirs[i], p.shared[i])
	}
	for name, text := range p.specs[0].Sources("alpha") {
		if strings.HasPrefix(name, "models") {
			t.Logf("-- alpha/%s\n%s", name, text)
		}
	}
	gen := func(what string) map[string]string {
		if msg, ok := m.generate(t, cfg); !ok {
			t.Fail("refused", "%s: the generator refuses the packages: %s", what, msg)
		}
		tr := m.tree()
		delete(tr, "config.json")
		return tr
	}
	before := m.tree()
	first := gen("first run")
	for k, v := range before {
		if first[k] != v && k != "config.json" {
			t.Fail("source changed", "%s: %s", k, firstDiff(v, first[k], first[k] != ""))
		}
	}
	none := func(string) bool { return false }
	if d := diffTrees(first, gen("second run"), none); d != "" {
		t.Fail("second run", "a second run changes the output:\n%s", d)
	}
	clean := func() {
		for k := range first {
			if _, ok := before[k]; !ok && k != "go.sum" && k != "go.mod" {
				os.Remove(filepath.Join(m.dir, k))
			}
		}
	}
	// one package at a time
	if len(p.dirs) > 1 {
		clean()
		all := cfg["Source"]
		var last map[string]string
		for i := range p.dirs {
			cfg["Source"] = []string{p.dirs[i]}
			last = gen("run for " + p.dirs[i] + " alone")
		}
		cfg["Source"] = all
		if d := diffTrees(first, last, none); d != "" {
			t.Fail("alone", "generating one package at a time, in the order %v, changes the output:\n%s", p.dirs, d)
		}
	}
	// without the earlier files
	clean()
	rev := append([]string{}, cfg["Source"].([]string)...)
	sort.Sort(sort.Reverse(sort.StringSlice(rev)))
	cfg["Source"] = rev
	if d := diffTrees(first, gen("run in another order"), none); d != "" {
		t.Fail("order", "running again from the sources alone, in the order %v, changes the output:\n%s", rev, d)
	}
	// with the output of other models in place of the earlier files
	other := old.specs[0]
	o2 := *other
	o2.Dialect, o2.Naming, o2.Tag, o2.Quote, o2.Prefix, o2.Strict, o2.Filename = q.Dialect, q.Naming, q.Tag, q.Quote, q.Prefix, q.Strict, q.Filename
	if !consistent(&o2) {
		return
	}
	for k := range before {
		if strings.HasPrefix(k, "alpha/") {
			os.Remove(filepath.Join(m.dir, k))
		}
	}
	pkgs{dirs: []string{"alpha"}, specs: []*gspec.Spec{&o2}}.write(m, 0)
	if len(o2.Models()) == 0 {
		return
	}
	gen("run with other models")
	for name := range o2.Sources("alpha") {
		os.Remove(filepath.Join(m.dir, "alpha", name))
	}
	p.write(m, 0)
	if d := diffTrees(first, gen("run over the output of other models"), none); d != "" {
		t.Fail("stale output", "over the output of earlier models the output is another:\n%s", d)
	}
}

func init() {
	props["C12"] = func(s *pbt.Session) {
		s.Rule = "distinct (dialect, naming, quoting, number of models, number of packages) of the packages that were generated repeatedly"
		s.Run(pbt.Check{Name: "again", Run: generateTwice, Cases: 24, Thorough: 400, CaseTimeout: 5 * time.Minute, MaxShrink: 80, Limit: 100000})
	}
}
