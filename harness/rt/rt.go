// Package rt runs next to generated models: it exercises their methods and compares
// them with what the description of the models calls for.
package rt

import (
	"context"
	"database/sql"
	"database/sql/driver"
	"encoding/json"
	"fmt"
	"io"
	"math/rand/v2"
	"os"
	"reflect"
	"runtime/debug"
	"strings"
	"time"
	"unsafe"

	"verifharness/gspec"

	"github.com/si3nloong/sqlgen/sequel"
)

type Model struct {
	Name string
	New  func() any
}

// Report is what the child prints: one JSON object per line.
type Report struct {
	Sig   string         `json:"sig,omitempty"` // set for a violation
	Msg   string         `json:"msg,omitempty"`
	Count map[string]int `json:"count,omitempty"`
	Done  bool           `json:"done,omitempty"`
	Dump  *Dump          `json:"dump,omitempty"`
}

type stop struct{}

type Ctx struct {
	Spec  *gspec.Spec
	Rng   *rand.Rand
	out   *json.Encoder
	count map[string]int
	where string
}

func (c *Ctx) Fail(sig, format string, a ...any) {
	c.out.Encode(Report{Sig: sig, Msg: c.where + ": " + fmt.Sprintf(format, a...)})
	panic(stop{})
}

func (c *Ctx) Count(k string) { c.count[k]++ }

var modes = map[string]func(c *Ctx, m *gspec.Struct, mod Model){
	"lines":   lines,
	"trip":    trip,
	"dump":    dump,
	"names":   names,
	"hand":    hand,
	"getters": getters,
}

// Main is called by the child: ARGS = spec.json mode[,mode].
func Main(models []Model) {
	c := &Ctx{out: json.NewEncoder(os.Stdout), count: map[string]int{}, Spec: new(gspec.Spec)}
	b, err := os.ReadFile(os.Args[1])
	if err != nil {
		panic(err)
	}
	if err := json.Unmarshal(b, c.Spec); err != nil {
		panic(err)
	}
	defer func() {
		if v := recover(); v != nil {
			if _, ok := v.(stop); ok {
				return
			}
			c.out.Encode(Report{Sig: "panic", Msg: c.where + ": " + fmt.Sprint(v) + "\n" + trim(string(debug.Stack()))})
		}
	}()
	byName := map[string]Model{}
	for _, m := range models {
		byName[m.Name] = m
	}
	for _, mode := range strings.Split(os.Args[2], ",") {
		c.Rng = rand.New(rand.NewPCG(c.Spec.Seed, 7))
		for _, m := range c.Spec.Models() {
			c.where = m.Go
			modes[mode](c, m, byName[m.Go])
		}
	}
	c.out.Encode(Report{Done: true, Count: c.count})
}

func trim(s string) string {
	l := strings.Split(s, "\n")
	var out []string
	for _, x := range l {
		if strings.Contains(x, "runtime/") || strings.Contains(x, "panic(") {
			continue
		}
		out = append(out, x)
		if len(out) > 24 {
			break
		}
	}
	return strings.Join(out, "\n")
}

// ---------------------------------------------------------------- reflection

// at returns the field at the path, or an invalid value when a pointer on the way is nil
// and alloc is not set.
func at(v reflect.Value, path []string, alloc bool) reflect.Value {
	v = reflect.Indirect(v)
	for i, p := range path {
		f := v.FieldByName(p)
		if !f.IsValid() {
			panic("no field " + p + " in " + v.Type().String())
		}
		f = open(f)
		if i < len(path)-1 && f.Kind() == reflect.Pointer {
			if f.IsNil() {
				if !alloc {
					return reflect.Value{}
				}
				f.Set(reflect.New(f.Type().Elem()))
			}
			f = f.Elem()
		}
		v = f
	}
	return v
}

// open gives access to an unexported field.
func open(f reflect.Value) reflect.Value {
	if f.CanAddr() {
		return reflect.NewAt(f.Type(), unsafe.Pointer(f.UnsafeAddr())).Elem()
	}
	return f
}

// Call calls a method without arguments.
func call(v any, name string) []reflect.Value {
	return reflect.ValueOf(v).MethodByName(name).Call(nil)
}

func hasMethod(v any, name string) bool { return reflect.ValueOf(v).MethodByName(name).IsValid() }

// fieldValue is what the accessor of a column gives.
func fieldValue(v any, goName string) any { return call(v, goName+"Value")[0].Interface() }

// ToDriver converts an argument the way database/sql does for the drivers.
func ToDriver(dialect string, v any) (driver.Value, error) {
	// the MySQL and PostgreSQL drivers take every uint64
	if rv := reflect.ValueOf(v); rv.IsValid() && rv.Kind() == reflect.Uint64 && dialect != "sqlite" {
		if _, ok := v.(driver.Valuer); !ok {
			return rv.Uint(), nil
		}
	}
	d, err := driver.DefaultParameterConverter.ConvertValue(v)
	if err != nil {
		return nil, err
	}
	if b, ok := d.([]byte); ok {
		if b == nil {
			return nil, nil
		}
		return append([]byte{}, b...), nil
	}
	return d, nil
}

// Deliver gives the forms in which drivers of the dialect hand back what was stored.
func Deliver(dialect string, d driver.Value) []driver.Value {
	text := func(s string) []driver.Value { return []driver.Value{[]byte(s), s} }
	switch v := d.(type) {
	case nil:
		return []driver.Value{nil}
	case bool:
		switch dialect {
		case "mysql":
			n := int64(0)
			if v {
				n = 1
			}
			return []driver.Value{n, []byte(fmt.Sprint(n))}
		case "sqlite":
			n := int64(0)
			if v {
				n = 1
			}
			return []driver.Value{v, n}
		}
		return []driver.Value{v}
	case int64:
		if dialect == "mysql" {
			return []driver.Value{v, []byte(fmt.Sprint(v))}
		}
		return []driver.Value{v}
	case uint64:
		if dialect == "mysql" {
			if v>>63 == 0 {
				return []driver.Value{int64(v), []byte(fmt.Sprint(v))}
			}
			return []driver.Value{v, []byte(fmt.Sprint(v))}
		}
		if v>>63 == 0 {
			return append(text(fmt.Sprint(v)), int64(v))
		}
		return text(fmt.Sprint(v))
	case float64:
		if dialect == "mysql" {
			b, _ := json.Marshal(v)
			return []driver.Value{v, b}
		}
		return []driver.Value{v}
	case string:
		if dialect == "sqlite" {
			return []driver.Value{v}
		}
		return text(v)
	case []byte:
		return []driver.Value{v}
	case time.Time:
		if dialect == "sqlite" {
			return []driver.Value{v.UTC(), v.UTC().Format("2006-01-02 15:04:05.999999999-07:00")}
		}
		return []driver.Value{v.UTC(), v.In(time.FixedZone("x", 3600*7))}
	}
	panic(fmt.Sprintf("deliver %T", d))
}

// ---------------------------------------------------------------- a driver that gives one row

type connector struct{}
type conn struct{ row []driver.Value }
type rows struct {
	row  []driver.Value
	done bool
}

func (connector) Connect(context.Context) (driver.Conn, error) { return &conn{}, nil }
func (connector) Driver() driver.Driver                        { return nil }
func (c *conn) Prepare(string) (driver.Stmt, error)            { return nil, fmt.Errorf("no") }
func (c *conn) Close() error                                   { return nil }
func (c *conn) Begin() (driver.Tx, error)                      { return nil, fmt.Errorf("no") }
func (c *conn) CheckNamedValue(*driver.NamedValue) error       { return nil }
func (c *conn) QueryContext(_ context.Context, _ string, args []driver.NamedValue) (driver.Rows, error) {
	return &rows{row: args[0].Value.([]driver.Value)}, nil
}
func (r *rows) Columns() []string {
	l := make([]string, len(r.row))
	for i := range l {
		l[i] = fmt.Sprint("c", i)
	}
	return l
}
func (r *rows) Close() error { return nil }
func (r *rows) Next(dst []driver.Value) error {
	if r.done {
		return io.EOF
	}
	r.done = true
	for i, v := range r.row {
		// as a driver does: the bytes are only valid until the next call
		if b, ok := v.([]byte); ok {
			dst[i] = append([]byte{}, b...)
		} else {
			dst[i] = v
		}
	}
	return nil
}

var db = sql.OpenDB(connector{})

// Scan delivers a row into scan targets, by way of database/sql.
func Scan(row []driver.Value, dst []any) error {
	rs, err := db.Query("row", row)
	if err != nil {
		return err
	}
	defer rs.Close()
	if !rs.Next() {
		return fmt.Errorf("no row: %v", rs.Err())
	}
	return rs.Scan(dst...)
}

var _ = sequel.TableName{}
