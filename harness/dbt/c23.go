package dbt

import (
	"database/sql"
	"errors"
	"fmt"
	"reflect"

	"verifharness/pbt"
)

func init() { Props["C23"] = c23 }

func c23(s *pbt.Session) {
	s.Rule = "an upsert where at least one row conflicts"
	s.Assume = []string{"MySQL and PostgreSQL are represented by an emulation on SQLite which refuses what they refuse",
		"rows which conflict with two different stored rows are left out"}
	s.Run(pbt.Check{Name: "upsert", Cases: 24000, Thorough: 600000, Run: func(t *pbt.T) { upserts(t, 4, 5) }})
	s.Run(pbt.Check{Name: "long upsert", Cases: 200, Thorough: 5000, MaxShrink: 100, Limit: 200000, Run: func(t *pbt.T) { upserts(t, 40, 250) }})
}

// same23 gives the stored row with which r conflicts (by any of the unique keys, or only by
// target), whether a conflict is outside of target, and whether there are several.
func same23(s *Spec, state []Row, r Row, target []int) (hit int, outside, several bool) {
	hit = -1
	isTarget := func(cols []int) bool { return target == nil || reflect.DeepEqual(cols, target) }
	check := func(cols []int) {
		for i, o := range state {
			eq := true
			for _, c := range cols {
				eq = eq && o[c] == r[c]
			}
			if !eq {
				continue
			}
			if !isTarget(cols) {
				outside = true
			} else if hit >= 0 && hit != i {
				several = true
			} else {
				hit = i
			}
			if !isTarget(cols) && hit >= 0 && hit != i {
				several = true
			}
		}
	}
	// the target first
	var other [][]int
	add := func(cols []int) {
		if isTarget(cols) {
			check(cols)
		} else {
			other = append(other, cols)
		}
	}
	if !s.Auto {
		add(s.Key)
	}
	for i, c := range s.Cols {
		if c.Unique {
			add([]int{i})
		}
	}
	for _, cols := range other {
		check(cols)
	}
	return
}

func upserts(t *pbt.T, table, most int) {
	k := pickKit(t)
	m := pickModel(t, k, keyed)
	w := newWorld(k, m)
	defer w.close()
	state := m.Spec.rows(t, table)
	w.put(m.Spec, state)
	t.Logf("table:\n    %s", showRows(m.Spec, state))
	for n := 1 + t.N(2); n > 0; n-- {
		state = upsert23(t, w, m, state, most)
		w.settled(t, "the operation")
	}
}

func (m *Model) name(i int) string { return m.Cols[m.Spec.Cols[i].Name].Name }

func upsert23(t *pbt.T, w *world, m *Model, state []Row, most int) []Row {
	sp := m.Spec
	pg := m.K.Dialect == "postgres"
	var o UpsertOpt
	var target []int // of PostgreSQL
	if pg {
		o.DoNothing = t.P(1, 3)
		o.Told, o.Turned = t.P(1, 3), t.Bool()
		target = sp.Key
		if sp.Dup != nil {
			target = sp.Dup
		}
		var choices [][]int
		if len(sp.Key) > 0 {
			choices = append(choices, sp.Key)
		}
		for i, c := range sp.Cols {
			if c.Unique {
				choices = append(choices, []int{i})
			}
		}
		if t.P(1, 3) {
			target = choices[t.N(len(choices))]
			o.Keys = make([]string, 0, 4)
			for _, i := range target {
				o.Keys = append(o.Keys, m.name(i))
			}
		}
	} else {
		o.Override = !t.P(1, 3)
	}
	omit := map[int]bool{}
	for _, i := range sp.Key {
		omit[i] = true
	}
	for _, i := range target {
		omit[i] = true
	}
	if pg {
		for _, i := range sp.Omit {
			omit[i] = true
		}
	}
	if t.P(1, 2) {
		o.Omit = make([]string, 0, 8)
		for i := range sp.Cols {
			if t.P(1, 3) {
				o.Omit = append(o.Omit, m.name(i))
				omit[i] = true
			}
		}
	}
	omitBefore := append([]string{}, o.Omit...)
	keysBefore := append([]string{}, o.Keys...)
	override := o.Override || pg && !o.DoNothing

	one := t.Bool()
	n := 1
	if !one {
		n = t.N(most + 1)
	}
	rows := make([]Row, n)
	u := newUses(sp, state)
	for i := range rows {
		r := sp.row(t, u, int64(t.N(3)*400))
		if t.P(1, 2) && (len(state) > 0 || i > 0) {
			var other Row
			if j := t.N(len(state) + i); j < len(state) {
				other = state[j]
			} else {
				other = rows[j-len(state)]
			}
			mode := t.N(3)
			if !sp.Auto && mode != 1 {
				for _, k := range sp.Key {
					r[k] = other[k]
				}
			}
			for j, c := range sp.Cols {
				if c.Unique && (mode != 0 || sp.Auto) {
					r[j] = other[j]
				}
			}
		} else if !sp.Auto {
			u.add(sp, r)
		}
		rows[i] = r
	}
	t.Logf("upsert (one: %v) %+v target %v\n    %s", one, o, target, showRows(sp, rows))

	// what should happen
	want := append([]Row{}, state...)
	place := make([]int, n) // where the row is now
	var conflicts, inserted int64
	fails := false
	touched := map[int]bool{}
	for i, r := range rows {
		hit, outside, several := same23(sp, want, r, target)
		if several {
			t.Discard()
		}
		if pg && hit < 0 && outside {
			fails = true
			break
		}
		if hit < 0 {
			s := sp.stored(r)
			if sp.Auto {
				s[sp.Key[0]] = int64(-1000 - i) // not known yet
			}
			want = append(want, s)
			place[i] = len(want) - 1
			touched[place[i]] = true
			inserted++
			continue
		}
		conflicts++
		place[i] = hit
		if pg && override && touched[hit] {
			t.Discard() // PostgreSQL refuses it, the emulation doesn't
		}
		touched[hit] = true
		if !override {
			place[i] = -1
			continue
		}
		next := want[hit].clone()
		for j, c := range sp.Cols {
			if !omit[j] && !c.RO {
				next[j] = r[j]
			}
		}
		rest := append(append([]Row{}, want[:hit]...), want[hit+1:]...)
		if newUses(sp, rest).clash(sp, next) {
			fails = true
			break
		}
		want[hit] = next
	}
	if conflicts > 0 {
		t.NonTrivial(fmt.Sprint(m.K.Key(), sp.Go, n, conflicts, o, one, len(state)))
	}

	var res sql.Result
	var err error
	var v any
	data := m.slice(rows)
	before := w.d.Statements()
	if one {
		v = m.make(rows[0])
		res, err = m.UpsertOne(bg, w.db, v, o)
	} else {
		res, err = m.Upsert(bg, w.db, data, o)
	}
	if !reflect.DeepEqual(append([]string{}, o.Omit...), omitBefore) || !reflect.DeepEqual(append([]string{}, o.Keys...), keysBefore) {
		t.Fail("options changed", "the upsert changed the caller's lists to %q and %q", o.Omit, o.Keys)
	}
	if n == 0 {
		if err != nil || w.d.Statements() != before {
			t.Fail("not a no-op", "upsert of nothing: %v", err)
		}
		affected(t, res, 0, "upsert of nothing")
		w.expectTable(t, sp, state, "upsert of nothing")
		return state
	}
	if fails {
		if err == nil {
			t.Fail("no error", "an upsert which can't store its row: no error")
		}
		w.expectTable(t, sp, state, "the failed upsert")
		return state
	}
	if err != nil && !(one && pg && !override && conflicts > 0 && errors.Is(err, sql.ErrNoRows)) {
		t.Fail("upsert error", "upsert: %v", err)
	}
	after := w.table(sp)
	if sp.Auto {
		// the keys of the new rows, in the order of insertion
		var fresh []Row
		for _, r := range after {
			if sp.find(state, r) < 0 {
				fresh = append(fresh, r)
			}
		}
		for i := range want {
			if key, _ := want[i][sp.Key[0]].(int64); key <= -1000 && len(fresh) > 0 {
				want[i] = want[i].clone()
				want[i][sp.Key[0]] = fresh[0][sp.Key[0]]
				fresh = fresh[1:]
			}
		}
	}
	w.expectTable(t, sp, want, "the upsert")
	if !override {
		if res != nil {
			affected(t, res, inserted, "upsert which leaves the rows alone")
		}
	} else if pg && !one || m.K.Dialect == "sqlite" && one {
		affected(t, res, int64(n), "upsert")
	}
	if one {
		now := rows[0].clone()
		if place[0] >= 0 {
			row := want[place[0]]
			if pg {
				now = row
			} else if sp.Auto {
				now[sp.Key[0]] = row[sp.Key[0]]
			}
		} else if pg {
			return want // the model is not known to be changed
		}
		if !sp.canon(v).eq(now) {
			t.Fail("upserted model", "after the upsert the model is %s, expected %s", sp.show(sp.canon(v)), sp.show(now))
		}
		return want
	}
	got := m.elems(data)
	for i, r := range rows {
		elem := r
		if pg && override {
			elem = want[place[i]]
		}
		if !got[i].eq(elem) {
			t.Fail("element", "after the upsert element %d is %s, expected %s", i, sp.show(got[i]), sp.show(elem))
		}
	}
	return want
}
