package rt

import (
	"bytes"
	"database/sql"
	"encoding/json"
	"math"
	"math/big"
	"math/rand/v2"
	"net/netip"
	"reflect"
	"strings"
	"time"

	"verifharness/mtypes"

	"github.com/google/uuid"
)

var (
	tTime  = reflect.TypeFor[time.Time]()
	tBig   = reflect.TypeFor[big.Int]()
	tAddr  = reflect.TypeFor[netip.Addr]()
	tUUID  = reflect.TypeFor[uuid.UUID]()
	tRaw   = reflect.TypeFor[json.RawMessage]()
	tNum   = reflect.TypeFor[json.Number]()
	tEmail = reflect.TypeFor[mtypes.Email]()
)

// R draws values of any type by reflection.
type R struct {
	*rand.Rand
	Dialect string
	Runes   bool // int32 values are characters
	depth   int
	json    bool // inside a JSON document
}

func (r *R) str() string {
	atoms := []string{"", "a", "Zq", "0", " ", "'", `"`, `\`, "é", "漢", "😀", "{", "}", ",", "null", "NULL", "\n", "\t", "<&>", "true", "%", "_", "$1", "?", "`", "-", "\u2028", "{}", "[]"}
	var b strings.Builder
	for i, n := 0, r.IntN(5); i < n; i++ {
		b.WriteString(atoms[r.IntN(len(atoms))])
	}
	return b.String()
}

func (r *R) int64() int64 {
	switch r.IntN(4) {
	case 0:
		return int64(r.IntN(20)) - 5
	case 1:
		return []int64{0, 1, -1, math.MaxInt64, math.MinInt64, math.MaxInt32, math.MinInt32, 1 << 53, -(1 << 53) - 1}[r.IntN(9)]
	}
	return int64(r.Uint64()) >> r.IntN(64)
}

func (r *R) float() float64 {
	switch r.IntN(4) {
	case 0:
		return []float64{0, 1, -1, 0.1, math.MaxFloat32, math.SmallestNonzeroFloat64, 1e21, 123456789.125, -2.5e-7}[r.IntN(9)]
	case 1:
		return float64(r.IntN(2000)-1000) / 8
	}
	for {
		f := math.Float64frombits(r.Uint64())
		if !math.IsNaN(f) && !math.IsInf(f, 0) {
			return f
		}
	}
}

func (r *R) rune() rune {
	return []rune{'a', 'Z', '0', ' ', 'é', '漢', '😀', '"', '\\', ',', '{', '\'', 0x10FFFF, 1}[r.IntN(14)]
}

func (r *R) time() time.Time {
	switch r.IntN(4) {
	case 0:
		return time.Unix(0, 0).UTC()
	case 1:
		return time.Date(1+r.IntN(9998), time.Month(1+r.IntN(12)), 1+r.IntN(28), r.IntN(24), r.IntN(60), r.IntN(60), r.IntN(1000000)*1000, time.UTC)
	}
	return time.Unix(int64(r.IntN(1<<32)), int64(r.IntN(1000000))*1000).UTC()
}

// Fill sets v to a random value; nils says whether the value itself may be nil.
func (r *R) Fill(v reflect.Value, nils bool) {
	t := v.Type()
	switch t {
	case tBig:
		n := new(big.Int).SetInt64(r.int64())
		if r.IntN(2) == 0 {
			n.Mul(n, n)
		}
		v.Set(reflect.ValueOf(*n))
		return
	case tAddr:
		var b [4]byte
		var b16 [16]byte
		for i := range b16 {
			b16[i] = byte(r.IntN(256))
		}
		copy(b[:], b16[:])
		a := netip.AddrFrom4(b)
		if r.IntN(2) == 0 {
			a = netip.AddrFrom16(b16)
		}
		v.Set(reflect.ValueOf(a))
		return
	case tUUID:
		var u uuid.UUID
		for i := range u {
			u[i] = byte(r.IntN(256))
		}
		v.Set(reflect.ValueOf(u))
		return
	case tRaw:
		docs := []string{`{"a":1}`, `[]`, `"x"`, `12.5`, `true`, `{"k":[1,null,"é"]}`}
		v.SetBytes([]byte(docs[r.IntN(len(docs))]))
		return
	case tNum:
		v.SetString([]string{"0", "12", "-3.5", "1e30", "123456789012345678901234567890"}[r.IntN(5)])
		return
	case tEmail: // the two parts are joined by a NUL
		for i := range 2 {
			open(v.Field(i)).SetString(strings.ReplaceAll(r.str(), "\x00", ""))
		}
		return
	}
	if strings.HasPrefix(t.String(), "sql.Null") && t.PkgPath() == "database/sql" {
		valid := v.FieldByName("Valid")
		for i := range v.NumField() {
			if t.Field(i).Name != "Valid" {
				r.Fill(v.Field(i), false)
			}
		}
		valid.SetBool(!nils || r.IntN(3) > 0)
		if !valid.Bool() {
			v.SetZero()
		}
		return
	}
	if t.ConvertibleTo(tTime) && t.Kind() == reflect.Struct {
		if r.json && t != tTime {
			// a defined time type has no fields JSON could keep
			v.SetZero()
			return
		}
		v.Set(reflect.ValueOf(r.time()).Convert(t))
		return
	}
	switch t.Kind() {
	case reflect.Bool:
		v.SetBool(r.IntN(2) == 1)
	case reflect.Int32:
		if t.Name() == "int32" && r.Runes {
			v.SetInt(int64(r.rune()))
			return
		}
		v.SetInt(int64(int32(r.int64())))
	case reflect.Int, reflect.Int8, reflect.Int16, reflect.Int64:
		n := r.int64()
		for v.OverflowInt(n) {
			n >>= 8
		}
		v.SetInt(n)
	case reflect.Uint, reflect.Uint8, reflect.Uint16, reflect.Uint32, reflect.Uint64:
		n := uint64(r.int64())
		for v.OverflowUint(n) {
			n >>= 8
		}
		v.SetUint(n)
	case reflect.Float32:
		f := r.float()
		for v.OverflowFloat(f) {
			f /= 1e30
		}
		v.SetFloat(float64(float32(f)))
	case reflect.Float64:
		v.SetFloat(r.float())
	case reflect.String:
		v.SetString(r.str())
	case reflect.Slice:
		switch r.IntN(6) {
		case 0:
			if nils {
				v.SetZero()
				return
			}
			fallthrough
		case 1:
			v.Set(reflect.MakeSlice(t, 0, 0))
			return
		}
		n := r.IntN(5)
		v.Set(reflect.MakeSlice(t, n, n))
		for i := range n {
			r.elem(v.Index(i))
			// an element of a PostgreSQL array of bytes is never nil
			if e := v.Index(i); e.Kind() == reflect.Slice && e.IsNil() && e.Type().Elem().Kind() == reflect.Uint8 {
				e.SetBytes([]byte{})
			}
		}
	case reflect.Array:
		for i := range v.Len() {
			r.elem(v.Index(i))
		}
		// text in an array has no zeroes inside: what follows the text is zero
	case reflect.Map:
		if nils && r.IntN(5) == 0 {
			v.SetZero()
			return
		}
		v.Set(reflect.MakeMap(t))
		for range r.IntN(4) {
			k, e := reflect.New(t.Key()).Elem(), reflect.New(t.Elem()).Elem()
			r.elem(k)
			r.elem(e)
			v.SetMapIndex(k, e)
		}
	case reflect.Pointer:
		if (nils && r.IntN(4) == 0) || r.depth > 3 {
			v.SetZero()
			return
		}
		v.Set(reflect.New(t.Elem()))
		r.depth++
		r.Fill(v.Elem(), false)
		r.depth--
	case reflect.Interface:
		docs := []any{nil, true, 1.5, "x", []any{"a", 2.0, nil}, map[string]any{"k": "v"}}
		d := docs[r.IntN(len(docs))]
		if d == nil && !nils {
			d = "y"
		}
		if d == nil {
			v.SetZero()
		} else {
			v.Set(reflect.ValueOf(d))
		}
	case reflect.Struct:
		_, isJSON := reflect.New(t).Interface().(json.Unmarshaler)
		for i := range v.NumField() {
			f := t.Field(i)
			if f.IsExported() || isJSON || hasCodec(t) {
				r.elem(open(v.Field(i)))
			}
		}
	default:
		panic("fill " + t.String())
	}
}

func hasCodec(t reflect.Type) bool {
	p := reflect.New(t).Interface()
	switch p.(type) {
	case interface{ UnmarshalText([]byte) error }, sql.Scanner:
		return true
	}
	return false
}

func (r *R) elem(v reflect.Value) {
	j := r.json
	r.json = true
	r.depth++
	r.Fill(v, r.depth < 4)
	r.depth--
	r.json = j
}

// Eq is equality up to what no database keeps: the location of a time.
func Eq(a, b reflect.Value) bool {
	if !a.IsValid() || !b.IsValid() {
		return a.IsValid() == b.IsValid()
	}
	if a.Type() != b.Type() {
		return false
	}
	t := a.Type()
	if t == tBig {
		x, y := a.Interface().(big.Int), b.Interface().(big.Int)
		return x.Cmp(&y) == 0
	}
	if t == tRaw {
		return bytes.Equal(a.Bytes(), b.Bytes())
	}
	if t.Kind() == reflect.Struct && t.ConvertibleTo(tTime) {
		return a.Convert(tTime).Interface().(time.Time).Equal(b.Convert(tTime).Interface().(time.Time))
	}
	switch t.Kind() {
	case reflect.Pointer, reflect.Interface:
		if a.IsNil() || b.IsNil() {
			return a.IsNil() && b.IsNil()
		}
		return Eq(a.Elem(), b.Elem())
	case reflect.Slice:
		if a.IsNil() != b.IsNil() {
			return false
		}
		fallthrough
	case reflect.Array:
		if a.Len() != b.Len() {
			return false
		}
		for i := range a.Len() {
			if !Eq(a.Index(i), b.Index(i)) {
				return false
			}
		}
		return true
	case reflect.Map:
		if a.IsNil() != b.IsNil() || a.Len() != b.Len() {
			return false
		}
		for _, k := range a.MapKeys() {
			if !Eq(a.MapIndex(k), b.MapIndex(k)) {
				return false
			}
		}
		return true
	case reflect.Struct:
		for i := range a.NumField() {
			if !Eq(openAny(a, i), openAny(b, i)) {
				return false
			}
		}
		return true
	case reflect.Float32, reflect.Float64:
		return a.Float() == b.Float()
	}
	return a.Equal(b)
}

// openAny reads a field of a struct which may not be addressable.
func openAny(v reflect.Value, i int) reflect.Value {
	if !v.CanAddr() {
		c := reflect.New(v.Type()).Elem()
		c.Set(v)
		v = c
	}
	return open(v.Field(i))
}
