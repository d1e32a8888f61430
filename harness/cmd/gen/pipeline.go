package main

import (
	"bytes"
	"context"
	"encoding/json"
	"fmt"
	"os"
	"os/exec"
	"path/filepath"
	"regexp"
	"sort"
	"strings"
	"sync/atomic"
	"time"

	"verifharness/gspec"
	"verifharness/pbt"
	"verifharness/rt"
)

var (
	root     = os.Getenv("VERIF_ROOT")
	workDir  = os.Getenv("VERIF_WORK")
	genchild = filepath.Join(workDir, "genchild")
	caseNo   atomic.Int64
)

// mod is a scratch module.
type mod struct{ dir string }

// newMod makes a module in a scratch directory, which the caller removes.
func newMod() *mod {
	m := &mod{dir: filepath.Join(workDir, fmt.Sprintf("case%d", caseNo.Add(1)))}
	must(os.MkdirAll(m.dir, 0o755))
	gomod, err := os.ReadFile(filepath.Join(root, "harness", "go.mod"))
	must(err)
	text := strings.Replace(string(gomod), "module verifharness", "module scratch", 1)
	text += "\nrequire verifharness v0.0.0\nreplace verifharness => " + filepath.Join(root, "harness") + "\n"
	m.write("go.mod", text)
	sum, err := os.ReadFile(filepath.Join(root, "harness", "go.sum"))
	must(err)
	m.write("go.sum", string(sum))
	return m
}

func (m *mod) remove() { os.RemoveAll(m.dir) }

func (m *mod) write(name, text string) {
	p := filepath.Join(m.dir, name)
	must(os.MkdirAll(filepath.Dir(p), 0o755))
	must(os.WriteFile(p, []byte(text), 0o644))
}

func (m *mod) read(name string) (string, bool) {
	b, err := os.ReadFile(filepath.Join(m.dir, name))
	return string(b), err == nil
}

// tree is every file below dir, by its path.
func (m *mod) tree() map[string]string {
	out := map[string]string{}
	filepath.Walk(m.dir, func(p string, fi os.FileInfo, err error) error {
		if err == nil && fi.Mode().IsRegular() {
			b, _ := os.ReadFile(p)
			rel, _ := filepath.Rel(m.dir, p)
			out[rel] = string(b)
		}
		return nil
	})
	return out
}

// run runs a command in the module and gives its output and exit code.
func (m *mod) run(name string, args ...string) (string, int) {
	return m.runIn(".", name, args...)
}

func (m *mod) runIn(dir, name string, args ...string) (string, int) {
	for try := 0; ; try++ {
		ctx, cancel := context.WithTimeout(context.Background(), 4*time.Minute)
		cmd := exec.CommandContext(ctx, name, args...)
		cmd.Dir = filepath.Join(m.dir, dir)
		cmd.Env = append(os.Environ(), "GOFLAGS=-mod=mod -buildvcs=false", "GOWORK=off", "GOMAXPROCS=4", "PWD="+cmd.Dir)
		var out bytes.Buffer
		cmd.Stdout, cmd.Stderr = &out, &out
		err := cmd.Run()
		cancel()
		text := out.String()
		code := cmd.ProcessState.ExitCode()
		if err == nil {
			return text, 0
		}
		if code == -1 && try < 2 { // killed, or it could not start: not an answer
			time.Sleep(2 * time.Second)
			continue
		}
		return text, code
	}
}

// generate runs the generator with the config; ok is false when it reported an error.
// A crash is a failure.
func (m *mod) generate(t *pbt.T, cfg any) (string, bool) {
	b, err := json.Marshal(cfg)
	must(err)
	m.write("config.json", string(b))
	out, code := m.run(genchild, "config.json")
	switch code {
	case 0:
		return out, true
	case 1:
		return strings.TrimPrefix(out, "ERROR: "), false
	}
	t.Fail("generator crash", "the generator exits with %d:\n%s", code, clip(out, 3000))
	return "", false
}

func clip(s string, n int) string {
	if len(s) > n {
		return s[:n] + "…"
	}
	return s
}

func must(err error) {
	if err != nil {
		panic(err)
	}
}

// ---------------------------------------------------------------- a package of models

var pathRe = regexp.MustCompile(`\S*/case\d+/`)

// buildSpec renders, generates and builds a spec, and gives the path of the child.
func (m *mod) buildSpec(t *pbt.T, s *gspec.Spec) string {
	for name, text := range s.Sources("m") {
		m.write("m/"+name, text)
		if strings.HasPrefix(name, "models") {
			t.Logf("-- %s\n%s", name, text)
		}
	}
	t.Logf("-- %s %s tag=%s quote=%v prefix=%s file=%s strict=%v", s.Dialect, s.Naming, s.Tag, s.Quote, s.Prefix, s.Filename, s.Strict)
	if msg, ok := m.generate(t, s.Config("./m")); !ok {
		t.Fail("refused", "the generator refuses the package: %s", msg)
	}
	models := s.Models()
	_, found := m.read("m/" + s.Filename)
	if len(models) > 0 && !found {
		t.Fail("no output", "the generator wrote no m/%s", s.Filename)
	}
	var b strings.Builder
	b.WriteString("package main\n\nimport (\n\t\"verifharness/rt\"\n\t\"scratch/m\"\n)\n\nfunc main() {\n\trt.Main([]rt.Model{\n")
	for _, st := range s.Structs {
		if st.Model {
			fmt.Fprintf(&b, "\t\t{%q, func() any { return new(m.%s) }},\n", st.Go, st.Go)
		}
	}
	b.WriteString("\t})\n}\n\nvar _ m.LStr\n")
	m.write("child/main.go", b.String())
	j, err := json.Marshal(s)
	must(err)
	m.write("spec.json", string(j))
	out, code := m.run("go", "build", "-ldflags=-s -w", "-o", "child.bin", "./child")
	if code != 0 {
		gen, _ := m.read("m/" + s.Filename)
		t.Fail("does not compile", "%s\n%s", clip(pathRe.ReplaceAllString(out, ""), 1500), excerpt(gen, out))
	}
	return filepath.Join(m.dir, "child.bin")
}

// excerpt gives the lines of the generated file the compiler complains about.
func excerpt(gen, out string) string {
	lines := strings.Split(gen, "\n")
	var b strings.Builder
	for _, mt := range regexp.MustCompile(`\.go:(\d+):\d+`).FindAllStringSubmatch(out, 4) {
		var n int
		fmt.Sscan(mt[1], &n)
		if n > 0 && n <= len(lines) {
			fmt.Fprintf(&b, "%d: %s\n", n, lines[n-1])
		}
	}
	return b.String()
}

// child runs the child in a mode; violations fail the case.
func (m *mod) child(t *pbt.T, bin, mode string) (map[string]int, []*rt.Dump) {
	out, code := m.run(bin, "spec.json", mode)
	var dumps []*rt.Dump
	for _, line := range strings.Split(strings.TrimSpace(out), "\n") {
		var r rt.Report
		if err := json.Unmarshal([]byte(line), &r); err != nil {
			break
		}
		if r.Dump != nil {
			dumps = append(dumps, r.Dump)
			continue
		}
		if r.Sig != "" {
			t.Fail(r.Sig, "%s", r.Msg)
		}
		if r.Done {
			return r.Count, dumps
		}
	}
	t.Fail("child crash", "exit %d: %s", code, clip(out, 2000))
	return nil, nil
}

func keysOf[V any](m map[string]V) []string {
	l := make([]string, 0, len(m))
	for k := range m {
		l = append(l, k)
	}
	sort.Strings(l)
	return l
}
