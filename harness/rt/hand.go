package rt

import (
	"database/sql/driver"
	"fmt"
	"reflect"
	"slices"
	"strings"

	"verifharness/gspec"

	"github.com/si3nloong/sqlgen/sequel"
)

// ---------------------------------------------------------------- C18: hand-written methods

func hand(c *Ctx, m *gspec.Struct, mod Model) {
	s := c.Spec
	cols := s.Columns(m)
	ins, key := gspec.Insertable(cols), gspec.Key(cols)
	is := func(n string) bool { return slices.Contains(m.Hand, n) }
	v := mod.New()
	for _, col := range cols { // every way is open: hand-written accessors say nothing of nil
		(&R{Rand: c.Rng, Dialect: s.Dialect}).Fill(at(reflect.ValueOf(v), col.Path, true), false)
	}
	// the hand-written methods answer
	for _, n := range m.Hand {
		c.Count("hand " + strings.TrimPrefix(n, s.Prefix))
		f := reflect.ValueOf(v).MethodByName(n)
		switch n {
		case "HasPK", "IsAutoIncr":
		case "TableName":
			c.want(n, f.Call(nil)[0].Interface(), gspec.HandTable(m))
		case "Columns", "InsertColumns", "SQLColumns":
			c.want(n, f.Call(nil)[0].Interface(), []string{"hand_" + n})
		case "Values":
			c.want(n, len(f.Call(nil)[0].Interface().([]any)), len(ins))
		case "Addrs":
			c.want(n, f.Call(nil)[0].Interface(), []any{"hand_addr"})
		case "InsertPlaceholders":
			c.want(n, f.Call([]reflect.Value{reflect.ValueOf(3)})[0].Interface(), "hand_3")
		case "InsertOneStmt", "FindOneByPKStmt", "UpdateOneByPKStmt":
			c.want(n, f.Call(nil)[0].Interface(), "hand_"+n)
		case "PK":
			c.want(n, f.Call(nil)[0].Interface(), "hand_pk")
		case "CompositeKey":
			c.want(n, f.Call(nil)[0].Interface(), []string{"hand_ck"})
		case "ScanAutoIncr":
			c.want(n, fmt.Sprint(f.Call([]reflect.Value{reflect.ValueOf(int64(4))})[0].Interface()), "hand_scan 4")
		default:
			c.want(n, f.Call(nil)[0].Interface(), "hand_"+n)
		}
	}
	// the others are generated all the same
	need := []string{"TableName", "Columns", "Addrs"}
	if len(ins) > 0 && !m.Readonly {
		need = append(need, "Values", "InsertPlaceholders")
		// a statement may be left out when it would have to be made of the hand-written methods
		if !is("InsertColumns") && !is("Columns") && !is("Values") && !is("InsertPlaceholders") && (s.Dialect != "postgres" || !is("SQLColumns")) {
			need = append(need, "InsertOneStmt")
		}
		if len(ins) != len(cols) {
			need = append(need, "InsertColumns")
		}
	}
	if len(key) > 0 {
		need = append(need, "HasPK")
		if !is("PK") && !is("CompositeKey") && !is("Columns") && !is("SQLColumns") {
			need = append(need, "FindOneByPKStmt")
		}
		if len(key) == 1 {
			need = append(need, "PK")
		} else {
			need = append(need, "CompositeKey")
		}
		if key[0].Auto {
			need = append(need, "IsAutoIncr", "ScanAutoIncr")
		}
	}
	for _, col := range cols {
		need = append(need, col.GoName+"Value", s.Prefix+col.GoName)
	}
	for _, n := range need {
		if !hasMethod(v, n) {
			c.Fail("method missing", "there is no %s; hand-written are %v", n, m.Hand)
		}
	}
	// what depends on them uses them
	val := func(col gspec.Column) any {
		if is(col.GoName+"Value") && (len(col.PtrAt) > 0 || strings.HasPrefix(col.Type, "*") || strings.HasPrefix(col.Type, "LP") && col.Type != "LPair") {
			c.Count("accessor used")
			return "hand_" + col.GoName + "Value"
		}
		if is(col.GoName + "Value") {
			return skipped{}
		}
		return fieldValue(v, col.GoName)
	}
	vals := func(cs []gspec.Column) (out []any) {
		for _, col := range cs {
			out = append(out, val(col))
		}
		return out
	}
	if !m.Readonly && len(ins) > 0 && !is("Values") {
		c.same("Values()", v.(sequel.Valuer).Values(), vals(ins))
	}
	table := s.MustIdent(s.TableName(m))
	if is("TableName") {
		table = gspec.HandTable(m)
	}
	// (that the statements of a model with embedded fields depend on no hand-written method is a known finding, see handEmbeds)
	embeds := slices.ContainsFunc(m.Fields, func(f *gspec.Field) bool { return f.Embed != nil })
	stmt := func(n string, lead string, want []any, from ...string) {
		if is(n) || !hasMethod(v, n) {
			return
		}
		if embeds {
			from = nil
			if slices.ContainsFunc([]string{"PK", "CompositeKey", "Values", "Columns", "InsertColumns"}, is) {
				want = nil
			}
		}
		r := call(v, n)
		q, args := r[0].String(), r[1].Interface().([]any)
		for _, h := range from {
			if is(h) {
				mark := map[string]string{"PK": "hand_pk", "CompositeKey": "hand_ck"}[h]
				if mark == "" {
					mark = "hand_" + h
				}
				if !strings.Contains(q, mark) {
					c.Fail(n+" without "+h, "%s does not use the hand-written %s: %s", n, h, q)
				}
				c.Count(n + " from " + h)
				break // the one which comes first is preferred
			}
		}
		i := strings.Index(q, lead)
		if i < 0 || !strings.HasPrefix(q[i+len(lead):], table+" ") {
			c.Fail("table of "+n, "%s does not name the table %s: %s", n, table, q)
		}
		if is("TableName") {
			c.Count("table name used")
		}
		if want == nil {
			return
		}
		c.same(n+" arguments", args, want)
	}
	w := vals(ins)
	if is("Values") {
		w = v.(sequel.Valuer).Values()
	}
	// (that it does not name the columns of a hand-written "Columns" is a known finding, see handColumns)
	stmt("InsertOneStmt", "INSERT INTO ", w, "InsertColumns")
	if s.Dialect == "postgres" {
		stmt("InsertOneStmt", "INSERT INTO ", w, "SQLColumns")
	}
	wk := vals(key)
	if is("PK") || is("CompositeKey") {
		wk = []any{"hand"}
	}
	stmt("FindOneByPKStmt", " FROM ", wk, "SQLColumns", "Columns")
	stmt("FindOneByPKStmt", " FROM ", wk, "PK", "CompositeKey")
	wu := append(vals(updatable(cols, key)), wk...)
	if is("Values") { // the marks of the columns which are updated, by position
		wu = nil
		for i, col := range ins {
			if !col.PK && !slices.ContainsFunc(key, func(k gspec.Column) bool { return k.GoName == col.GoName }) {
				wu = append(wu, fmt.Sprintf("hand_value_%d", i))
			}
		}
		wu = append(wu, wk...)
	}
	stmt("UpdateOneByPKStmt", "UPDATE ", wu, "PK", "CompositeKey")
	if len(ins) != len(cols) {
		stmt("UpdateOneByPKStmt", "UPDATE ", wu, "InsertColumns")
	} else {
		stmt("UpdateOneByPKStmt", "UPDATE ", wu, "Columns")
	}
	// types with a representation of their own
	for _, col := range cols {
		if !strings.HasPrefix(strings.TrimPrefix(col.Type, "*"), "Hv") || is(col.GoName+"Value") {
			continue
		}
		f := at(reflect.ValueOf(v), col.Path, false)
		if f.Kind() != reflect.Pointer {
			f = f.Addr()
		}
		want, err := f.Interface().(driver.Valuer).Value()
		if err != nil {
			panic(err)
		}
		got := c.drivers(col.GoName, []any{fieldValue(v, col.GoName)})[0]
		c.Count("own representation")
		if !Same(got, want) {
			c.Fail("own value", "%s (%s) is written as %#v, its own Value() gives %#v", col.GoName, col.Type, got, want)
		}
		if is("Addrs") {
			continue
		}
		dst := mod.New()
		row := make([]driver.Value, len(cols))
		for i := range cols {
			if cols[i].GoName == col.GoName {
				row[i] = want
			}
		}
		addrs := dst.(sequel.Scanner).Addrs()
		for i := range addrs {
			if row[i] == nil {
				addrs[i] = new(any)
			}
		}
		if err := Scan(row, addrs); err != nil {
			c.Fail("own scan", "%s (%s) written as %#v: %v", col.GoName, col.Type, want, err)
		}
		if got := at(reflect.ValueOf(dst), col.Path, false); !Eq(got, at(reflect.ValueOf(v), col.Path, false)) {
			c.Fail("own scan", "%s (%s) written as %#v is read as %s", col.GoName, col.Type, want, show(got))
		}
	}
}

type skipped struct{}

func updatable(cols, key []gspec.Column) (out []gspec.Column) {
	for _, col := range cols {
		isKey := col.PK || col.Auto
		for _, k := range key {
			isKey = isKey || k.GoName == col.GoName
		}
		if !isKey && !col.RO {
			out = append(out, col)
		}
	}
	return out
}

func (c *Ctx) want(n string, got, want any) {
	if !reflect.DeepEqual(got, want) {
		c.Fail("hand-written "+n, "%s gives %v, the hand-written one gives %v", n, got, want)
	}
}

func (c *Ctx) same(what string, got, want []any) {
	if len(got) != len(want) {
		c.Fail(what, "%s has %d values, want %d", what, len(got), len(want))
	}
	g := c.drivers(what, got)
	for i := range want {
		if _, ok := want[i].(skipped); ok {
			continue
		}
		if w := c.drivers(what, want[i:i+1])[0]; !Same(g[i], w) {
			c.Fail(what, "%s[%d] is %#v, want %#v", what, i, g[i], w)
		}
	}
}
