package dbt

import (
	"context"
	"fmt"
	"reflect"
	"runtime"
	"strings"
	"sync"
	"sync/atomic"

	"github.com/si3nloong/sqlgen/sequel"
	"github.com/si3nloong/sqlgen/sequel/strpool"
	"verifharness/emudb"
	"verifharness/pbt"
)

func init() { Props["C28"] = c28 }

func c28(s *pbt.Session) {
	s.Rule = "two or more operations or statements which overlap"
	s.Assume = []string{"schedules are those which the runtime makes and those which the harness forces at every call of the driver"}
	s.Run(pbt.Check{Name: "statements", Cases: 20000, Thorough: 400000, Run: statements28})
	s.Run(pbt.Check{Name: "pools", Cases: 60, Thorough: 2000, Serial: true, Run: pools28})
	s.Run(pbt.Check{Name: "nested", Cases: 5000, Thorough: 120000, Run: nested})
	s.Run(pbt.Check{Name: "values which use the library", Cases: 500, Thorough: 8000, Serial: true, Run: values28})
	s.Run(pbt.Check{Name: "concurrent", Cases: 1500, Thorough: 40000, Run: concurrent})
	s.Run(pbt.Check{Name: "one database", Cases: 500, Thorough: 10000, Run: shared28})
}

// ---------------------------------------------------------------- statements

// statements28 builds several statements at once, of pooled objects.
func statements28(t *pbt.T) {
	k := pickKit(t)
	type modelStmt struct {
		s    sequel.Stmt
		text strings.Builder
		args []any
	}
	var live []*modelStmt
	next := 0
	check := func(ms *modelStmt, when string) {
		if ms.s.Query() != ms.text.String() || len(ms.s.Args()) != len(ms.args) || len(ms.args) > 0 && !reflect.DeepEqual(ms.s.Args(), ms.args) {
			t.Fail("statement", "%s a statement has %q and %v, expected %q and %v", when, ms.s.Query(), ms.s.Args(), ms.text.String(), ms.args)
		}
	}
	holder := func(ms *modelStmt, v any) string {
		ms.args = append(ms.args, v)
		if k.Dialect == "postgres" {
			return fmt.Sprintf("$%d", len(ms.args))
		}
		return "?"
	}
	for n := 1 + t.N(30); n > 0; n-- {
		if len(live) == 0 || t.P(1, 5) && len(live) < 5 {
			ms := &modelStmt{s: k.Acquire()}
			t.Logf("%d acquired", len(live))
			for _, o := range live {
				if o.s == ms.s {
					t.Fail("same statement", "a statement in use was handed out again")
				}
			}
			check(ms, "when acquired")
			live = append(live, ms)
			continue
		}
		i := t.N(len(live))
		ms := live[i]
		switch t.N(7) {
		case 0:
			t.Logf("%d released", i)
			k.Release(ms.s)
			live = append(live[:i:i], live[i+1:]...)
		case 1:
			t.Logf("%d reset", i)
			ms.s.Reset()
			live[i] = &modelStmt{s: ms.s}
			check(live[i], "when reset")
		case 2:
			ms.s.WriteString("text ")
			ms.text.WriteString("text ")
		case 3:
			b := []byte("bytes")
			ms.s.Write(b)
			ms.s.WriteByte(';')
			ms.text.WriteString("bytes;")
			copy(b, "XXXXX")
		case 4:
			next++
			got := ms.s.Var(next)
			if want := holder(ms, next); got != want {
				t.Fail("placeholder", "Var gives %q, expected %q", got, want)
			}
			t.Logf("%d var", i)
		case 5:
			l := make([]any, t.N(4), 8)
			var want []string
			for j := range l {
				next++
				l[j] = next
				want = append(want, holder(ms, next))
			}
			back := append([]any{}, l[:8]...)
			got := ms.s.Vars(l)
			if w := "(" + strings.Join(want, ",") + ")"; got != w {
				t.Fail("placeholder", "Vars gives %q, expected %q", got, w)
			}
			if !reflect.DeepEqual(back, l[:8]) {
				t.Fail("argument changed", "Vars changed the caller's slice")
			}
			for j := range l {
				l[j] = "changed later"
			}
			t.Logf("%d vars %d", i, len(l))
		case 6:
			_ = fmt.Sprintf("%+v%s%v%#v", ms.s, ms.s, ms.s, ms.s)
		}
		for _, o := range live {
			check(o, "meanwhile")
		}
		if len(live) > 1 {
			t.NonTrivial(fmt.Sprint(k.Key(), n, i, len(live), next))
		}
	}
	for _, o := range live {
		k.Release(o.s)
	}
	k.Release(nil)
}

// pools28 takes objects from the pools, uses them and gives them back, on many threads. An object which is handed
// out is empty, and nobody else's until it's given back.
func pools28(t *pbt.T) {
	k := pickKit(t)
	threads := pbt.Pick(t, 2, 8, 32)
	held := 1 + t.N(4)
	what := pbt.Pick(t, "builders", "statements", "both")
	t.Logf("%d threads with %d %s each", threads, held, what)
	t.NonTrivial(fmt.Sprint(k.Key(), threads, held, what))
	bad := make(chan string, threads)
	var stop atomic.Bool
	var wg sync.WaitGroup
	for g := range threads {
		wg.Add(1)
		go func() {
			defer wg.Done()
			note := func(format string, args ...any) {
				if stop.CompareAndSwap(false, true) {
					bad <- fmt.Sprintf(format, args...)
				}
			}
			defer func() {
				if r := recover(); r != nil {
					note("%v", r)
				}
			}()
			text := fmt.Sprintf("text of %d", g)
			bs, ss := make([]*strings.Builder, held), make([]sequel.Stmt, held)
			for n := 0; n < 4000/held && !stop.Load(); n++ {
				if what != "statements" {
					for i := range bs {
						if bs[i] = strpool.AcquireString(); bs[i].Len() != 0 {
							note("a builder is handed out with %q", bs[i].String())
						}
						bs[i].WriteString(text)
					}
				}
				if what != "builders" {
					for i := range ss {
						if ss[i] = k.Acquire(); ss[i].Query() != "" || len(ss[i].Args()) != 0 {
							note("a statement is handed out with %q and %v", ss[i].Query(), ss[i].Args())
						}
						ss[i].WriteString(text)
						ss[i].Var(g)
					}
				}
				if g%3 == 0 {
					runtime.Gosched()
				}
				if what != "statements" {
					for _, b := range bs {
						if b.String() != text {
							note("a builder holds %q, %q was written", b.String(), text)
						}
						strpool.ReleaseString(b)
					}
				}
				if what != "builders" {
					for _, s := range ss {
						if s.Query() != text || len(s.Args()) != 1 || s.Args()[0] != any(g) {
							note("a statement holds %q and %v, %q and %d were written", s.Query(), s.Args(), text, g)
						}
						k.Release(s)
					}
				}
			}
		}()
	}
	wg.Wait()
	if len(bad) > 0 {
		t.Fail("pool", "%s", <-bad)
	}
}

// ---------------------------------------------------------------- operations

// job is a sequence of operations on a database of its own.
type job struct {
	k    *Kit
	m    *Model
	rows []Row
	ops  []op
}

func drawJob(t *pbt.T, k *Kit, max int) *job {
	m := k.Models[t.N(len(k.Models))]
	j := &job{k: k, m: m, rows: m.Spec.rows(t, 3)}
	for n := 1 + t.N(max); n > 0; n-- {
		o := m.op(t, j.rows)
		j.ops = append(j.ops, o)
		t.Logf("job on %s %s: %s", k.Key(), m.Spec.Go, o.text)
	}
	return j
}

// trace is what the driver saw and what the operations gave.
type trace struct {
	log []emudb.Stmt
	out []outcome
}

func (j *job) world() *world {
	w := newWorld(j.k, j.m)
	w.put(j.m.Spec, j.rows)
	w.d.Logging(true)
	return w
}

func (j *job) run(w *world) (tr trace) {
	for _, o := range j.ops {
		tr.out = append(tr.out, o.run(bg, w))
	}
	tr.log = w.d.Log()
	return
}

func (j *job) solo() trace {
	w := j.world()
	defer w.close()
	return j.run(w)
}

func (j *job) compare(t *pbt.T, want, got trace, when string) {
	for i := range want.log {
		if i >= len(got.log) {
			break
		}
		a, b := want.log[i], got.log[i]
		if a.Query != b.Query || !reflect.DeepEqual(a.Args, b.Args) {
			t.Fail("statement", "%s a statement of %s is\n    %q %v\nalone it is\n    %q %v", when, j.m.Spec.Go, b.Query, b.Args, a.Query, a.Args)
		}
	}
	if len(want.log) != len(got.log) {
		t.Fail("statement", "%s %d statements of %s reach the driver, alone %d", when, len(got.log), j.m.Spec.Go, len(want.log))
	}
	for i := range want.out {
		if !want.out[i].same(got.out[i]) {
			t.Fail("result", "%s %s gives %s\nalone it gives %s", when, j.ops[i].text, got.out[i].show(j.m.Spec), want.out[i].show(j.m.Spec))
		}
	}
}

func (k *Kit) checkShared(t *pbt.T) {
	want := sharedLists[k]
	if !reflect.DeepEqual(k.Shared(), want) {
		t.Fail("shared list", "a list of columns which belongs to the models was changed: %q, it was %q", k.Shared(), want)
	}
}

var sharedLists = map[*Kit][][]string{}

// remember keeps the lists of the models as they are at the start.
func remember() {
	for _, k := range Kits {
		var l [][]string
		for _, s := range k.Shared() {
			l = append(l, append([]string{}, s...))
		}
		sharedLists[k] = l
	}
}

// nested runs one operation in the middle of another: at a call of the driver, or while
// its condition is being written.
func nested(t *pbt.T) {
	k := pickKit(t)
	outer := drawJob(t, k, 1)
	inner := drawJob(t, k, 2)
	if t.P(1, 4) && outer.m.Query != nil {
		// the condition itself runs operations
		c := outer.m.cond(t, outer.rows, 2)
		m := outer.m
		run := func(ctx context.Context, w *world, where sequel.WhereClause) outcome {
			l, err := m.Query(ctx, w.db, Select{Where: where, OrderBy: m.ordering(t.Again(t.Mark()), 0, true).clauses})
			return outcome{err: err, rows: m.elems(l)}
		}
		outer.ops = []op{{name: "Query", text: "Query " + c.text, m: m, run: func(ctx context.Context, w *world) outcome { return run(ctx, w, c.clause) }}}
		want, inWant := outer.solo(), inner.solo()
		var inGot trace
		times := 0
		hook := func(sw sequel.StmtWriter) {
			sw.WriteString("(")
			if times++; times == 1 {
				w := inner.world()
				inGot = inner.run(w)
				w.close()
			}
			c.clause(sw)
			sw.WriteString(")")
		}
		plain := func(sw sequel.StmtWriter) {
			sw.WriteString("(")
			c.clause(sw)
			sw.WriteString(")")
		}
		_ = want
		outer.ops[0].run = func(ctx context.Context, w *world) outcome { return run(ctx, w, plain) }
		want = outer.solo()
		outer.ops[0].run = func(ctx context.Context, w *world) outcome { return run(ctx, w, hook) }
		t.Logf("while the condition is written")
		got := outer.solo()
		t.NonTrivial(pbt.Hash(k.Key(), outer.m.Spec.Go, inner.m.Spec.Go, c.text))
		outer.compare(t, want, got, "with operations inside,")
		inner.compare(t, inWant, inGot, "inside of another,")
		k.checkShared(t)
		return
	}
	want, inWant := outer.solo(), inner.solo()
	w := outer.world()
	defer w.close()
	at := t.N(6)
	t.Logf("at call %d of the driver", at)
	n := 0
	ran := false
	var inGot trace
	w.d.Fault(func(step string, _ int) error {
		if n++; n-1 == at {
			ran = true
			wi := inner.world()
			inGot = inner.run(wi)
			wi.close()
		}
		return nil
	})
	got := outer.run(w)
	outer.compare(t, want, got, "with operations inside,")
	if ran {
		t.NonTrivial(pbt.Hash(k.Key(), outer.ops[0].text, inner.m.Spec.Go, at))
		inner.compare(t, inWant, inGot, "inside of another,")
	}
	k.checkShared(t)
}

// values28: the values of a model are computed with the library.
func values28(t *pbt.T) {
	k := pickKit(t)
	m := k.model("HKey")
	outer := &job{k: k, m: m, rows: m.Spec.rows(t, 3)}
	for n := 1 + t.N(2); n > 0; n-- {
		o := m.op(t, outer.rows)
		outer.ops = append(outer.ops, o)
		t.Logf("%s", o.text)
	}
	inner := drawJob(t, k, 2)
	want, inWant := outer.solo(), inner.solo()
	depth := 0
	var inGot []trace
	k.OnValues(func() {
		if depth > 0 || len(inGot) > 8 {
			return
		}
		depth++
		defer func() { depth-- }()
		w := inner.world()
		inGot = append(inGot, inner.run(w))
		w.close()
	})
	defer k.OnValues(nil)
	got := outer.solo()
	k.OnValues(nil)
	outer.compare(t, want, got, "with values which use the library,")
	for _, g := range inGot {
		t.NonTrivial(pbt.Hash(k.Key(), outer.ops[0].text, inner.m.Spec.Go))
		inner.compare(t, inWant, g, "inside of the values of another,")
	}
	k.checkShared(t)
}

// concurrent runs jobs side by side, each on its own database.
func concurrent(t *pbt.T) {
	var jobs []*job
	k := pickKit(t)
	for n := 2 + t.N(4); n > 0; n-- {
		jk := k
		if t.P(1, 4) {
			jk = Kits[t.N(len(Kits))]
		}
		jobs = append(jobs, drawJob(t, jk, 4))
	}
	t.NonTrivial(fmt.Sprint(len(jobs), t.Mark(), k.Key()))
	want := make([]trace, len(jobs))
	got := make([]trace, len(jobs))
	for i, j := range jobs {
		want[i] = j.solo()
	}
	var wg sync.WaitGroup
	start := make(chan struct{})
	for i, j := range jobs {
		w := j.world()
		w.d.Fault(func(string, int) error { runtime.Gosched(); return nil })
		wg.Add(1)
		go func() {
			defer wg.Done()
			defer w.close()
			<-start
			got[i] = j.run(w)
		}()
	}
	close(start)
	wg.Wait()
	for i, j := range jobs {
		j.compare(t, want[i], got[i], "running with others,")
		j.k.checkShared(t)
	}
}

// shared28: readers of one database.
func shared28(t *pbt.T) {
	k := pickKit(t)
	m := pickModel(t, k, keyed)
	rows := m.Spec.rows(t, 6)
	var ops []op
	for n := 2 + t.N(5); n > 0; n-- {
		o := m.opNamed(t, pbt.Pick(t, "Find", "Query", "QueryOne", "Page"), rows)
		t.Logf("%s", o.text)
		ops = append(ops, o)
	}
	w := newWorld(k, m)
	defer w.close()
	w.put(m.Spec, rows)
	want := make([]outcome, len(ops))
	for i, o := range ops {
		want[i] = o.run(bg, w)
	}
	got := make([][]outcome, len(ops))
	var wg sync.WaitGroup
	for i, o := range ops {
		wg.Add(1)
		go func() {
			defer wg.Done()
			for n := 0; n < 3; n++ {
				got[i] = append(got[i], o.run(bg, w))
			}
		}()
	}
	wg.Wait()
	t.NonTrivial(fmt.Sprint(k.Key(), m.Spec.Go, len(ops), len(rows), t.Mark()))
	for i, o := range ops {
		for _, g := range got[i] {
			if !want[i].same(g) {
				t.Fail("result", "running with others, %s gives %s\nalone it gives %s", o.text, g.show(m.Spec), want[i].show(m.Spec))
			}
		}
	}
	w.settled(t, "the operations")
	k.checkShared(t)
}
