package rt

import (
	"bytes"
	"database/sql/driver"
	"fmt"
	"reflect"
	"slices"
	"strings"
	"time"

	"verifharness/gspec"

	"github.com/si3nloong/sqlgen/sequel"
)

func (c *Ctx) r(col gspec.Column) *R {
	return &R{Rand: c.Rng, Dialect: c.Spec.Dialect, Runes: strings.Contains(col.Type, "rune") || strings.Contains(col.Type, "Runes") || strings.Contains(col.Type, "Glyphs")}
}

// random fills the persisted fields of a new model; with every embedded pointer set.
func (c *Ctx) random(mod Model, cols []gspec.Column, nils bool) any {
	v := mod.New()
	for _, col := range cols {
		c.r(col).Fill(at(reflect.ValueOf(v), col.Path, true), nils)
	}
	return v
}

func insertable(m *gspec.Struct, cols []gspec.Column) (out []gspec.Column) {
	for _, c := range cols {
		if !c.RO && !c.Auto {
			out = append(out, c)
		}
	}
	return out
}

func (c *Ctx) idents(cols []gspec.Column) []string {
	l := make([]string, len(cols))
	for i, col := range cols {
		l[i] = c.Spec.Ident(col.Name)
	}
	return l
}

// Same compares two driver values.
func Same(a, b driver.Value) bool {
	switch x := a.(type) {
	case []byte:
		y, ok := b.([]byte)
		return ok && bytes.Equal(x, y)
	case time.Time:
		y, ok := b.(time.Time)
		return ok && x.Equal(y)
	}
	return reflect.DeepEqual(a, b)
}

func (c *Ctx) drivers(what string, vs []any) []driver.Value {
	out := make([]driver.Value, len(vs))
	for i, v := range vs {
		d, err := ToDriver(c.Spec.Dialect, v)
		if err != nil {
			c.Fail("not a driver value", "%s[%d] = %T %v: %v", what, i, v, v, err)
		}
		out[i] = d
	}
	return out
}

// values of every column, through the accessors.
func (c *Ctx) row(v any, cols []gspec.Column) []driver.Value {
	l := make([]any, len(cols))
	for i, col := range cols {
		l[i] = fieldValue(v, col.GoName)
	}
	return c.drivers("accessors", l)
}

func show(v reflect.Value) string {
	if !v.IsValid() {
		return "<nil on the way>"
	}
	for v.Kind() == reflect.Pointer && !v.IsNil() {
		v = v.Elem()
	}
	return fmt.Sprintf("%s(%#v)", v.Type(), v.Interface())
}

// ---------------------------------------------------------------- C15: names

func names(c *Ctx, m *gspec.Struct, mod Model) {
	v := mod.New()
	if got, want := v.(sequel.Tabler).TableName(), c.Spec.Ident(c.Spec.TableName(m)); got != want {
		c.Fail("table name", "%s: TableName() = %q, want %q", c.Spec.Naming, got, want)
	}
	got, cols := v.(sequel.Columner).Columns(), c.Spec.Columns(m)
	if len(got) != len(cols) {
		c.Fail("columns", "%d columns, want %d", len(got), len(cols))
	}
	for i, col := range cols {
		if got[i] != c.Spec.Ident(col.Name) {
			c.Fail("column name", "%s: the column of %s is %q, want %q", c.Spec.Naming, col.GoName, got[i], c.Spec.Ident(col.Name))
		}
	}
}

// ---------------------------------------------------------------- C13: columns, values and targets line up

func lines(c *Ctx, m *gspec.Struct, mod Model) {
	s := c.Spec
	cols := s.Columns(m)
	v := mod.New()
	if got := v.(sequel.Tabler).TableName(); got != s.Ident(s.TableName(m)) {
		c.Fail("table name", "TableName() = %q, want %q", got, s.Ident(s.TableName(m)))
	}
	if got := v.(sequel.Columner).Columns(); !slices.Equal(got, c.idents(cols)) {
		c.Fail("columns", "Columns() = %q, want %q", got, c.idents(cols))
	}
	ins := insertable(m, cols)
	_, isIns := v.(sequel.InsertColumner)
	_, isVal := v.(sequel.Valuer)
	if m.Readonly {
		if isVal || isIns {
			c.Fail("readonly table", "a read-only table has Values() or InsertColumns()")
		}
	} else {
		got := c.idents(cols)
		if isIns {
			got = v.(sequel.InsertColumner).InsertColumns()
		}
		if len(ins) > 0 && !slices.Equal(got, c.idents(ins)) {
			c.Fail("insert columns", "columns for insertion = %q, want %q", got, c.idents(ins))
		}
	}
	autoName := ""
	var keys []gspec.Column
	for _, col := range cols {
		if col.Auto {
			autoName = col.Name
		} else if col.PK {
			keys = append(keys, col)
		}
	}

	for round := 0; round < 3; round++ {
		v := c.random(mod, cols, true)
		before := c.row(v, cols)
		// every accessor reads its own field
		for i, col := range cols {
			c.Count("accessor")
			old := reflect.New(at(reflect.ValueOf(v), col.Path, true).Type()).Elem()
			old.Set(at(reflect.ValueOf(v), col.Path, true))
			f := at(reflect.ValueOf(v), col.Path, true)
			for try := 0; ; try++ {
				c.r(col).Fill(f, true)
				if !Eq(f, old) && !nullish(c, col, f, old) {
					break
				}
				if try > 50 {
					break
				}
			}
			changed := !Eq(f, old) && !nullish(c, col, f, old)
			after := c.row(v, cols)
			for j := range cols {
				if same := Same(before[j], after[j]); (i == j && same == changed) || (i != j && !same) {
					c.Fail("accessor", "field %v set from %s to %s: the value of column %s went from %#v to %#v", col.Path, show(old), show(f), cols[j].Name, before[j], after[j])
				}
			}
			if isVal {
				vals := c.drivers("Values()", v.(sequel.Valuer).Values())
				if len(vals) != len(ins) {
					c.Fail("values length", "%d values for the columns %q", len(vals), c.idents(ins))
				}
				k := 0
				for j, col2 := range cols {
					if col2.RO || col2.Auto {
						continue
					}
					if !Same(vals[k], after[j]) {
						c.Fail("values position", "Values()[%d] = %#v, want %#v of column %s", k, vals[k], after[j], col2.Name)
					}
					k++
				}
			}
			before = after
		}
		// keys
		pos := func(what, name string, p int, val any) {
			if p < 0 || p >= len(cols) || s.Ident(cols[p].Name) != name {
				c.Fail("key position", "%s says column %q at %d of %q", what, name, p, c.idents(cols))
			}
			if d := c.drivers(what, []any{val}); !Same(d[0], before[p]) {
				c.Fail("key value", "%s gives %#v for column %s, which holds %#v", what, d[0], name, before[p])
			}
		}
		switch k := v.(type) {
		case sequel.PrimaryKeyer:
			name, p, val := k.PK()
			pos("PK()", name, p, val)
			want := autoName
			if want == "" && len(keys) == 1 {
				want = keys[0].Name
			}
			if name != s.Ident(want) {
				c.Fail("key", "PK() is %q, want %q", name, want)
			}
			if _, ok := v.(sequel.AutoIncrKeyer); ok != (autoName != "") {
				c.Fail("auto increment", "IsAutoIncr: %v, declared: %q", ok, autoName)
			}
		case sequel.CompositeKeyer:
			ns, ps, vals := k.CompositeKey()
			if len(ns) != len(keys) || len(ps) != len(keys) || len(vals) != len(keys) || autoName != "" {
				c.Fail("key", "CompositeKey() = %q %v %v, declared %v", ns, ps, vals, keys)
			}
			for i := range ns {
				if ns[i] != s.Ident(keys[i].Name) {
					c.Fail("key", "CompositeKey() = %q, declared %v", ns, keys)
				}
				pos("CompositeKey()", ns[i], ps[i], vals[i])
			}
		default:
			if autoName != "" || len(keys) > 0 {
				c.Fail("key", "no key method, declared %q %v", autoName, keys)
			}
		}
		if autoName != "" {
			n := int64(c.Rng.IntN(100) + 1)
			w := mod.New()
			out := reflect.ValueOf(w).MethodByName("ScanAutoIncr").Call([]reflect.Value{reflect.ValueOf(n)})
			if !out[0].IsNil() {
				c.Fail("auto increment", "ScanAutoIncr(%d): %v", n, out[0])
			}
			for _, col := range cols {
				f := at(reflect.ValueOf(w), col.Path, false)
				if !f.IsValid() {
					continue
				}
				if col.Auto {
					if fmt.Sprint(f.Interface()) != fmt.Sprint(n) {
						c.Fail("auto increment", "ScanAutoIncr(%d) left %v", n, f.Interface())
					}
				} else if !f.IsZero() {
					c.Fail("auto increment", "ScanAutoIncr(%d) set %v", n, col.Path)
				}
			}
		}

		// scan targets: one column at a time comes from another row
		a, b := c.random(mod, cols, true), c.random(mod, cols, true)
		ra, rb := c.row(a, cols), c.row(b, cols)
		dst := mod.New()
		if round == 1 {
			dst = c.random(mod, cols, true)
		}
		for i := -1; i < len(cols); i++ {
			c.Count("scan")
			row := slices.Clone(ra)
			if i >= 0 {
				row[i] = rb[i]
			}
			for j := range row {
				row[j] = Deliver(s.Dialect, row[j])[0]
			}
			addrs := dst.(sequel.Scanner).Addrs()
			if len(addrs) != len(cols) {
				c.Fail("targets length", "%d targets for the columns %q", len(addrs), c.idents(cols))
			}
			if err := Scan(row, addrs); err != nil {
				c.Fail("scan error", "row %#v of columns %q: %v", row, c.idents(cols), err)
			}
			for j, col := range cols {
				src := a
				if i == j {
					src = b
				}
				want, got := at(reflect.ValueOf(src), col.Path, true), at(reflect.ValueOf(dst), col.Path, false)
				if !got.IsValid() || !nullish(c, col, want, got) && !Eq(want, got) {
					c.Fail("target position", "column %s: scanned %#v, field %v holds %s, want %s", col.Name, row[j], col.Path, show(got), show(want))
				}
			}
		}
	}

	// embedded pointers which are nil
	ptr := map[string][]string{}
	for _, col := range cols {
		for _, k := range col.PtrAt {
			ptr[strings.Join(col.Path[:k+1], ".")] = col.Path[:k+1]
		}
	}
	for key, path := range ptr {
		c.Count("nil embedded pointer")
		v := c.random(mod, cols, true)
		full := c.row(v, cols)
		f := at(reflect.ValueOf(v), path, false)
		if !f.IsValid() {
			continue
		}
		f.SetZero()
		got := c.row(v, cols)
		for j, col := range cols {
			if strings.HasPrefix(strings.Join(col.Path, ".")+".", key+".") {
				if got[j] != nil {
					c.Fail("nil embedded pointer", "with %s nil, column %s gives %#v", key, col.Name, got[j])
				}
			} else if !Same(got[j], full[j]) {
				c.Fail("nil embedded pointer", "with %s nil, column %s went from %#v to %#v", key, col.Name, full[j], got[j])
			}
		}
		if isVal {
			_ = c.drivers("Values()", v.(sequel.Valuer).Values())
		}
		row := make([]driver.Value, len(cols))
		for j := range row {
			row[j] = Deliver(s.Dialect, full[j])[0]
		}
		if err := Scan(row, v.(sequel.Scanner).Addrs()); err != nil {
			c.Fail("scan error", "row %#v with %s nil: %v", row, key, err)
		}
		if again := c.row(v, cols); true {
			for j := range cols {
				if !Same(again[j], full[j]) {
					c.Fail("nil embedded pointer", "with %s nil, scanning %#v into column %s gives %#v", key, row[j], cols[j].Name, again[j])
				}
			}
		}
	}
}

// nullish says that want and got are alike for the database: a value which is stored as NULL.
func nullish(c *Ctx, col gspec.Column, want, got reflect.Value) bool {
	// PostgreSQL: []rune is text, and nil is the empty text
	if want.Kind() == reflect.Slice && want.Type().Elem().Kind() == reflect.Int32 && want.Len() == 0 && got.Len() == 0 {
		return c.r(col).Runes
	}
	return false
}

// ---------------------------------------------------------------- C14: values survive the round trip

func trip(c *Ctx, m *gspec.Struct, mod Model) {
	s := c.Spec
	cols := s.Columns(m)
	const rounds = 12
	for i, col := range cols {
		for k := 0; k < rounds; k++ {
			v := mod.New()
			f := at(reflect.ValueOf(v), col.Path, true)
			c.r(col).Fill(f, true)
			d := c.row(v, cols)
			if want, ok := plain(f); ok {
				c.Count("trip of a plain value")
				if !stored(want, d[i]) {
					c.Fail("storage form", "column %s (%s): %s is written as %#v, want %#v", col.Name, col.Type, show(f), d[i], want)
				}
			}
			// the column clause converts like the accessor
			if name := s.Prefix + col.GoName; hasMethod(v, name) {
				cl := call(v, name)[0]
				if cn := cl.MethodByName("ColumnName").Call(nil)[0].String(); cn != s.Ident(col.Name) {
					c.Fail("clause name", "%s().ColumnName() = %q, want %q", name, cn, s.Ident(col.Name))
				}
				val := cl.MethodByName("Value").Call(nil)[0]
				if !Eq(val, f) {
					c.Fail("clause value", "%s().Value() = %v, the field holds %v", name, val, f)
				}
				var conv any = val.Interface()
				if cv := cl.MethodByName("Convert"); cv.IsValid() {
					conv = cv.Call([]reflect.Value{val})[0].Interface()
				}
				if x := c.drivers(name+"().Convert", []any{conv}); !Same(x[0], d[i]) {
					c.Fail("clause convert", "%s() converts %s to %#v, the accessor to %#v", name, show(f), x[0], d[i])
				}
			} else {
				c.Fail("no clause", "no method %s", name)
			}
			for n, form := range Deliver(s.Dialect, d[i]) {
				// an unsigned value above the signed range is written as its bit pattern, which
				// is no text the column could hold
				if _, ok := form.(string); ok && strings.Contains(col.Type, "sql.NullTime") {
					continue // the scanner of the standard library takes no text
				}
				if x, ok := d[i].(int64); ok && x < 0 && n > 0 && isUint(f.Type()) {
					continue
				}
				c.Count("trip")
				if !f.IsZero() {
					c.Count("trip of a non-zero value")
				}
				dst := c.random(mod, cols, true)
				row := c.row(dst, cols)
				for j := range row {
					row[j] = Deliver(s.Dialect, row[j])[0]
				}
				row[i] = form
				if err := Scan(row, dst.(sequel.Scanner).Addrs()); err != nil {
					c.Fail("trip error", "column %s (%s): %s was written as %#v, and delivered as %#v: %v", col.Name, col.Type, show(f), d[i], form, err)
				}
				got := at(reflect.ValueOf(dst), col.Path, false)
				if !nullish(c, col, f, got) && !Eq(f, got) {
					c.Fail("trip", "column %s (%s): %s was written as %#v, delivered as %#v (form %d) and read as %s", col.Name, col.Type, show(f), d[i], form, n, show(got))
				}
			}
		}
	}
}

// plain returns the driver value of a field of a boolean, integer, float or string type (a defined one, an alias,
// or a pointer to one), and reports whether the field is of such a type and its type has no codec of its own.
func plain(f reflect.Value) (driver.Value, bool) {
	t := f.Type()
	if t.Kind() == reflect.Pointer {
		t = t.Elem()
	}
	for i, p := 0, reflect.PointerTo(t); i < p.NumMethod(); i++ {
		switch p.Method(i).Name {
		case "Value", "Scan", "MarshalText", "UnmarshalText", "MarshalBinary", "UnmarshalBinary", "MarshalJSON", "UnmarshalJSON":
			return nil, false
		}
	}
	switch k := t.Kind(); {
	case k == reflect.Bool, k == reflect.String, k >= reflect.Int && k <= reflect.Uint64, k == reflect.Float32, k == reflect.Float64:
	case (k == reflect.Slice || k == reflect.Array) && t.Elem() == reflect.TypeFor[byte]():
	default:
		return nil, false
	}
	if f.Kind() == reflect.Pointer {
		if f.IsNil() {
			return nil, true
		}
		f = f.Elem()
	}
	switch {
	case f.Kind() == reflect.Bool:
		return f.Bool(), true
	case f.Kind() == reflect.String:
		return f.String(), true
	case f.Kind() == reflect.Slice || f.Kind() == reflect.Array:
		var b []byte
		for i := range f.Len() {
			b = append(b, byte(f.Index(i).Uint()))
		}
		return b, true
	case f.CanInt():
		return f.Int(), true
	case f.CanUint():
		return int64(f.Uint()), true
	}
	return f.Float(), true
}

// stored says that got is a way to store want: a character of a rune column is text or a number.
func stored(want, got driver.Value) bool {
	if n, ok := want.(int64); ok {
		if s, ok := got.(string); ok {
			return s == string(rune(n)) && int64(rune(n)) == n
		}
		if u, ok := got.(uint64); ok {
			return int64(u) == n
		}
	}
	if x, ok := want.([]byte); ok {
		if s, ok := got.(string); ok {
			return string(x) == s
		}
		y, ok := got.([]byte)
		return bytes.Equal(x, y) && (ok || len(x) == 0 && got == nil)
	}
	if x, ok := want.(float64); ok {
		y, ok := got.(float64)
		return ok && (x == y || x != x && y != y)
	}
	return reflect.DeepEqual(want, got)
}

func isUint(t reflect.Type) bool {
	if t.Kind() == reflect.Pointer {
		t = t.Elem()
	}
	return t.Kind() >= reflect.Uint && t.Kind() <= reflect.Uint64
}

// ---------------------------------------------------------------- C16: the statements, for the parent to run

type Arg struct {
	T string `json:"t"`
	V string `json:"v"`
}

type Call struct {
	Query string `json:"q"`
	Args  []Arg  `json:"a"`
}

type RowDump struct {
	Row    []Arg `json:"row"` // of every column
	Insert *Call `json:"insert,omitempty"`
	Find   *Call `json:"find,omitempty"`
	Update *Call `json:"update,omitempty"`
	Delete *Call `json:"delete,omitempty"`
}

type Dump struct {
	Model string    `json:"model"`
	Rows  []RowDump `json:"rows"`
}

func ToArg(d driver.Value) Arg {
	switch v := d.(type) {
	case nil:
		return Arg{"nil", ""}
	case []byte:
		return Arg{"bytes", fmt.Sprintf("%x", v)}
	case string:
		return Arg{"string", fmt.Sprintf("%x", v)}
	case time.Time:
		return Arg{"time", v.UTC().Format(time.RFC3339Nano)}
	case float64:
		return Arg{"float64", fmt.Sprintf("%x", v)}
	}
	return Arg{fmt.Sprintf("%T", d), fmt.Sprint(d)}
}

func (c *Ctx) call(what, q string, args []any) *Call {
	call := &Call{Query: q, Args: []Arg{}}
	for _, d := range c.drivers(what, args) {
		call.Args = append(call.Args, ToArg(d))
	}
	return call
}

func dump(c *Ctx, m *gspec.Struct, mod Model) {
	cols := c.Spec.Columns(m)
	out := &Dump{Model: m.Go}
	for k := 0; k < 5; k++ {
		v := c.random(mod, cols, false)
		var rd RowDump
		for _, d := range c.row(v, cols) {
			rd.Row = append(rd.Row, ToArg(d))
		}
		if x, ok := v.(sequel.SingleInserter); ok {
			q, a := x.InsertOneStmt()
			rd.Insert = c.call("InsertOneStmt()", q, a)
		}
		if x, ok := v.(sequel.KeyFinder); ok {
			q, a := x.FindOneByPKStmt()
			rd.Find = c.call("FindOneByPKStmt()", q, a)
		}
		if x, ok := v.(sequel.KeyUpdater); ok {
			q, a := x.UpdateOneByPKStmt()
			rd.Update = c.call("UpdateOneByPKStmt()", q, a)
		}
		if x, ok := v.(sequel.KeyDeleter); ok {
			q, a := x.DeleteOneByPKStmt()
			rd.Delete = c.call("DeleteOneByPKStmt()", q, a)
		}
		out.Rows = append(out.Rows, rd)
	}
	c.out.Encode(Report{Dump: out})
}
