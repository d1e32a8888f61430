package main

import (
	"encoding/json"
	"fmt"
	"os"
	"path/filepath"
	"sync"
	"syscall"

	"verifharness/dbt"
	"verifharness/pbt"
)

func init() {
	for n := 21; n <= 30; n++ {
		props[fmt.Sprintf("C%d", n)] = database
	}
}

// database generates the models and the helpers of every dialect, compiles them with the
// checks, and becomes that program.
func database(s *pbt.Session) {
	m := newMod()
	m.dir, _ = filepath.Abs(m.dir)
	msg := buildDatabase(m)
	if msg != "" {
		s.Fixed("build", func(t *pbt.T) { t.Fail("build", "%s", msg) })
		return
	}
	bin := filepath.Join(m.dir, "child.bin")
	err := syscall.Exec(bin, []string{bin, s.Property}, os.Environ())
	fmt.Fprintln(os.Stderr, "exec:", err)
	os.Exit(3)
}

func buildDatabase(m *mod) string {
	msgs := make([]string, len(dbt.Variants))
	var wg sync.WaitGroup
	for i, v := range dbt.Variants {
		for name, text := range v.Models() {
			m.write(v.Key()+"/"+name, text)
		}
		wg.Add(1)
		go func() {
			defer wg.Done()
			b, err := json.Marshal(v.Config())
			must(err)
			m.write(v.Key()+".json", string(b))
			if out, code := m.run(genchild, v.Key()+".json"); code != 0 {
				msgs[i] = fmt.Sprintf("%s: the generator refuses the models: %s", v.Key(), clip(out, 2000))
			}
		}()
	}
	wg.Wait()
	for _, msg := range msgs {
		if msg != "" {
			return msg
		}
	}
	for _, v := range dbt.Variants {
		for name, text := range v.Adapter() {
			m.write(name, text)
		}
	}
	m.write("child/main.go", dbt.Program(dbt.Variants))
	args := []string{"build", "-ldflags=-s -w", "-o", "child.bin"}
	if os.Getenv("VERIF_RACE") != "" {
		args = append(args, "-race")
	}
	if out, code := m.run("go", append(args, "./child")...); code != 0 {
		return "the generated code does not compile: " + clip(pathRe.ReplaceAllString(out, ""), 3000)
	}
	return ""
}
