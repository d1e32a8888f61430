package rt

import (
	"reflect"
	"strings"

	"verifharness/gspec"
)

// getters is C31: the typed column getters.
func getters(c *Ctx, m *gspec.Struct, mod Model) {
	s := c.Spec
	cols := s.Columns(m)
	own := map[string]bool{}
	for _, col := range cols {
		own[s.Prefix+col.GoName] = true
	}
	clause := reflect.TypeFor[interface{ ColumnName() string }]()
	ptr := reflect.TypeOf(mod.New())
	for i := range ptr.NumMethod() {
		me := ptr.Method(i)
		if me.Type.NumIn() == 1 && me.Type.NumOut() == 1 && me.Type.Out(0).Implements(clause) && !own[me.Name] {
			c.Fail("extra getter", "%s is a column getter of no persisted field", me.Name)
		}
	}
	get := func(v any, name string) reflect.Value {
		cl := call(v, name)[0]
		if cl.Kind() == reflect.Interface {
			return cl.Elem()
		}
		return cl
	}
	convert := func(name string, cl, val reflect.Value) any {
		conv := val.Interface()
		if cv := cl.MethodByName("Convert"); cv.IsValid() {
			c.Count("converted")
			conv = cv.Call([]reflect.Value{val})[0].Interface()
		}
		return c.drivers(name+"().Convert", []any{conv})[0]
	}
	for round := range 6 {
		// v is asked, w has other values
		v, w := c.random(mod, cols, true), c.random(mod, cols, true)
		if round == 0 {
			// zero values, with every embedded pointer set
			v = mod.New()
			for _, col := range cols {
				at(reflect.ValueOf(v), col.Path, true)
			}
		}
		dv, dw := c.row(v, cols), c.row(w, cols)
		for i, col := range cols {
			name := s.Prefix + col.GoName
			if !hasMethod(v, name) {
				c.Fail("no getter", "field %s has no getter %s", strings.Join(col.Path, "."), name)
			}
			cl := get(v, name)
			if cn := cl.MethodByName("ColumnName").Call(nil)[0].String(); cn != s.Ident(col.Name) {
				c.Fail("getter name", "%s().ColumnName() = %q, want %q", name, cn, s.Ident(col.Name))
			}
			f := at(reflect.ValueOf(v), col.Path, true)
			val := cl.MethodByName("Value").Call(nil)[0]
			if val.Type() != f.Type() && f.Type().Name() != "" {
				c.Fail("getter type", "%s().Value() is %s, the field %s", name, val.Type(), f.Type())
			}
			if !Eq(val, f) {
				c.Fail("getter value", "%s().Value() = %s, the field holds %s", name, show(val), show(f))
			}
			if x := convert(name, cl, val); !Same(x, dv[i]) {
				c.Fail("getter convert", "%s() converts its value %s to %#v, the model stores %#v", name, show(f), x, dv[i])
			}
			// the conversion is of the value it is given, not of the field
			g := at(reflect.ValueOf(w), col.Path, true)
			if x := convert(name, cl, g); !Same(x, dw[i]) {
				c.Fail("getter convert", "%s() of %s converts %s to %#v, a model which holds it stores %#v", name, show(f), show(g), x, dw[i])
			}
			// a getter which was taken keeps its value when the field is set
			old := reflect.New(f.Type()).Elem()
			old.Set(f)
			f.Set(g)
			if val := cl.MethodByName("Value").Call(nil)[0]; !Eq(val, old) {
				c.Fail("getter follows", "the value of %s() went from %s to %s when the field was set", name, show(old), show(val))
			}
			f.Set(old)
			c.Count("getter")
		}
	}
}
