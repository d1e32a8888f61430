package main

import (
	"bytes"
	"database/sql"
	"fmt"
	"math"
	"reflect"
	"strconv"
	"strings"
	"time"
	"unicode/utf8"

	"github.com/si3nloong/sqlgen/sequel/encoding"

	"verifharness/pbt"
)

type (
	myBool  bool
	myInt   int
	myI8    int8
	myI16   int16
	myI32   int32
	myI64   int64
	myUint  uint
	myU8    uint8
	myU16   uint16
	myU32   uint32
	myU64   uint64
	myF32   float32
	myF64   float64
	myStr   string
	myBytes []byte
)

// form is one way a driver can deliver a value.
type form struct {
	label string
	v     any
}

// kind is one scalar field type: how to build a field of it, draw a value and
// spell it the ways drivers do.
type kind struct {
	name string
	// field returns a fresh field (a pointer field when ptr), holding old.
	field func(ptr bool, old any) *field
	zero  any
	// gen draws a value and the forms that deliver exactly it.
	gen func(t *pbt.T) (any, []form)
	// bad draws something the field cannot represent.
	bad func(t *pbt.T) form
	eq  func(a, b any) bool
	// strict builds a field that only takes native forms.
	strict     func(ptr bool, old any) *field
	nativeOnly func(v any) bool
}

// field is a destination with the scanner on it. get returns the value held,
// or nil for a nil pointer field.
type field struct {
	sql.Scanner
	get func() any
	// oldPtr is what the pointer field pointed to at the start, to see whether it is written through
	oldVal func() any
}

func mkField[T any](sc func(*T) sql.Scanner, scp func(**T) sql.Scanner) func(ptr bool, old any) *field {
	return func(ptr bool, old any) *field {
		if ptr {
			p := new(*T)
			var held *T
			if old != nil {
				v := clone(old.(T))
				held = &v
				*p = held
			}
			return &field{Scanner: scp(p), get: func() any {
				if *p == nil {
					return nil
				}
				return **p
			}, oldVal: func() any {
				if held == nil {
					return nil
				}
				return *held
			}}
		}
		v := new(T)
		if old != nil {
			*v = clone(old.(T))
		}
		return &field{Scanner: sc(v), get: func() any { return *v }}
	}
}

func clone[T any](v T) T {
	rv := reflect.ValueOf(&v).Elem()
	if rv.Kind() == reflect.Slice && !rv.IsNil() {
		c := reflect.MakeSlice(rv.Type(), rv.Len(), rv.Len())
		reflect.Copy(c, rv)
		rv.Set(c)
	}
	return v
}

func exactEq(a, b any) bool { return reflect.DeepEqual(a, b) }

func floatEq(a, b any) bool {
	x, y := reflect.ValueOf(a).Float(), reflect.ValueOf(b).Float()
	return math.Float64bits(x) == math.Float64bits(y) || math.IsNaN(x) && math.IsNaN(y)
}

func sint[T ~int | ~int8 | ~int16 | ~int32 | ~int64](name string, bits int, sc func(*T) sql.Scanner, scp func(**T) sql.Scanner) kind {
	lo, hi := int64(-1)<<(bits-1), int64(1)<<(bits-1)-1
	fits := func(v int64) bool { return v >= lo && v <= hi }
	return kind{
		name: name, zero: T(0), field: mkField(sc, scp), eq: exactEq,
		gen: func(t *pbt.T) (any, []form) {
			v := t.Int64()
			if !fits(v) {
				v >>= (64 - bits)
			}
			txt := strconv.FormatInt(v, 10)
			if t.P(1, 12) && v >= 0 {
				txt = strings.Repeat("0", t.Range(1, 3)) + txt
			}
			return T(v), []form{{"int64", v}, {"bytes", []byte(txt)}}
		},
		bad: func(t *pbt.T) form {
			switch t.N(8) {
			case 0, 1, 2:
				if bits < 64 {
					v := t.Int64()
					for i := 0; fits(v); i++ {
						v = pbt.Pick(t, hi+1, lo-1, hi+1+int64(t.N(300)), lo-1-int64(t.N(300)), math.MaxInt64, math.MinInt64)
						if v = v + 0; i > 3 {
							v = hi + 1
						}
					}
					if t.Bool() {
						return form{"int64 out of range", v}
					}
					return form{"text out of range", []byte(strconv.FormatInt(v, 10))}
				}
				return form{"text out of range", []byte(pbt.Pick(t, "9223372036854775808", "-9223372036854775809", "18446744073709551616", "99999999999999999999"))}
			case 3:
				return form{"malformed text", []byte(pbt.Pick(t, "", " ", "-", "+", "1.5", "1e3", "0x10", "1_000", "abc", "1 ", " 1", "--1", "1-", "NaN", "12a", "\x00", "１"))}
			case 4:
				s := t.String(6, true)
				if _, err := strconv.ParseInt(s, 10, 64); err == nil {
					s += "x"
				}
				return form{"malformed text", []byte(s)}
			case 5:
				return form{"float64", float64(t.N(100)) + 0.5}
			case 6:
				return form{"time", t.Time(time.Second)}
			default:
				return form{"unsupported type", pbt.Pick(t, any([]int{1}), any(struct{}{}), any(map[string]int{}), any(complex(1, 2)))}
			}
		},
	}
}

func uint_[T ~uint | ~uint8 | ~uint16 | ~uint32 | ~uint64](name string, bits int, sc func(*T) sql.Scanner, scp func(**T) sql.Scanner) kind {
	hi := uint64(math.MaxUint64)
	if bits < 64 {
		hi = uint64(1)<<bits - 1
	}
	return kind{
		name: name, zero: T(0), field: mkField(sc, scp), eq: exactEq,
		gen: func(t *pbt.T) (any, []form) {
			v := t.Uint64B()
			if v > hi {
				v >>= (64 - bits)
			}
			fs := []form{{"bytes", []byte(strconv.FormatUint(v, 10))}}
			if v <= math.MaxInt64 {
				fs = append(fs, form{"int64", int64(v)})
			}
			if bits == 64 {
				// what go-sql-driver/mysql delivers for BIGINT UNSIGNED in the text protocol
				fs = append(fs, form{"uint64", v})
				if v > math.MaxInt64 {
					// a signed BIGINT column holds the bit pattern, as the generated code writes it for PostgreSQL
					fs = append(fs, form{"int64 bit pattern", int64(v)})
				}
			}
			return T(v), fs
		},
		bad: func(t *pbt.T) form {
			switch t.N(8) {
			case 0, 1, 2:
				if bits < 64 {
					switch t.N(4) {
					case 0:
						return form{"int64 out of range", int64(hi) + 1 + int64(t.N(300))}
					case 1:
						return form{"int64 negative", int64(-1 - t.N(300))}
					case 2:
						if t.P(1, 2) {
							return form{"uint64 out of range", pbt.Pick(t, hi+1+uint64(t.N(300)), math.MaxInt64+1, math.MaxUint64)}
						}
						return form{"int64 out of range", pbt.Pick(t, int64(math.MaxInt64), math.MinInt64, int64(hi)+1)}
					default:
						return form{"text out of range", []byte(strconv.FormatUint(hi+1+uint64(t.N(300)), 10))}
					}
				}
				return form{"text out of range", []byte(pbt.Pick(t, "18446744073709551616", "-1", "99999999999999999999", "-9223372036854775808"))}
			case 3:
				return form{"malformed text", []byte(pbt.Pick(t, "", " ", "-", "-1", "1.5", "1e3", "0x10", "1_000", "abc", "1 ", " 1", "1-", "NaN", "12a", "\x00"))}
			case 4:
				s := t.String(6, true)
				if _, err := strconv.ParseUint(strings.TrimPrefix(s, "+"), 10, 64); err == nil {
					s += "x"
				}
				return form{"malformed text", []byte(s)}
			case 5:
				return form{"float64", float64(t.N(100)) + 0.5}
			case 6:
				return form{"time", t.Time(time.Second)}
			default:
				return form{"unsupported type", pbt.Pick(t, any([]int{1}), any(struct{}{}), any(map[string]int{}))}
			}
		},
	}
}

var boolTexts = map[bool][]string{
	true:  {"true", "1", "t", "T", "TRUE", "True"},
	false: {"false", "0", "f", "F", "FALSE", "False"},
}

func bool_[T ~bool](name string, sc func(*T) sql.Scanner, scp func(**T) sql.Scanner, ssc func(*T) sql.Scanner, sscp func(**T) sql.Scanner) kind {
	return kind{
		name: name, zero: T(false), field: mkField(sc, scp), strict: mkField(ssc, sscp), eq: exactEq,
		nativeOnly: func(v any) bool {
			switch v.(type) {
			case bool, int64:
				return true
			}
			return false
		},
		gen: func(t *pbt.T) (any, []form) {
			v := t.Bool()
			n := int64(0)
			if v {
				n = 1
			}
			s := pbt.Pick(t, boolTexts[v]...)
			return T(v), []form{{"bool", v}, {"int64", n}, {"bytes", []byte(s)}, {"string", s}}
		},
		bad: func(t *pbt.T) form {
			switch t.N(4) {
			case 0:
				s := pbt.Pick(t, "", "2", "yes", "no", "tru", "truee", " true", "true ", "-1", "on", "\x01", "\x00", "null", "tRUE")
				if t.Bool() {
					return form{"malformed text", s}
				}
				return form{"malformed text", []byte(s)}
			case 1:
				s := t.String(4, true)
				if _, err := strconv.ParseBool(s); err == nil {
					s += "x"
				}
				return form{"malformed text", []byte(s)}
			case 2:
				return form{"float64", float64(t.N(3)) + 0.5}
			default:
				return form{"time", t.Time(time.Second)}
			}
		},
	}
}

func float_[T ~float32 | ~float64](name string, bits int, sc func(*T) sql.Scanner, scp func(**T) sql.Scanner, ssc func(*T) sql.Scanner, sscp func(**T) sql.Scanner) kind {
	return kind{
		name: name, zero: T(0), field: mkField(sc, scp), strict: mkField(ssc, sscp), eq: floatEq,
		nativeOnly: func(v any) bool {
			switch v.(type) {
			case float64, float32, int64:
				return true
			}
			return false
		},
		gen: func(t *pbt.T) (any, []form) {
			f := t.Float64(true)
			if bits == 32 {
				if g := float32(f); math.IsInf(float64(g), 0) && !math.IsInf(f, 0) {
					f = math.Copysign(math.MaxFloat32, f)
				}
				f = float64(float32(f))
			}
			v := T(f)
			var fs []form
			fs = append(fs, form{"float64", f})
			if bits == 32 {
				// what go-sql-driver/mysql delivers for FLOAT
				fs = append(fs, form{"float32", float32(f)})
			}
			if !math.IsNaN(f) && !math.IsInf(f, 0) {
				verb := pbt.Pick(t, byte('g'), 'e', 'f')
				s := strconv.FormatFloat(f, verb, -1, bits)
				fs = append(fs, form{"bytes", []byte(s)}, form{"string", s})
				if f == math.Trunc(f) && math.Abs(f) < 1<<53 && !(f == 0 && math.Signbit(f)) {
					fs = append(fs, form{"int64", int64(f)})
				}
			} else {
				// PostgreSQL's spelling
				s := "NaN"
				if math.IsInf(f, 1) {
					s = "Infinity"
				} else if math.IsInf(f, -1) {
					s = "-Infinity"
				}
				fs = append(fs, form{"bytes", []byte(s)}, form{"string", s})
			}
			return v, fs
		},
		bad: func(t *pbt.T) form {
			switch t.N(5) {
			case 0:
				s := pbt.Pick(t, "", " ", "-", "1.5.2", "1e", "abc", "1 ", " 1", "--1", "1,5", "\x00", "e5", ".")
				if t.Bool() {
					return form{"malformed text", s}
				}
				return form{"malformed text", []byte(s)}
			case 1:
				return form{"text out of range", []byte(pbt.Pick(t, "1e400", "-1e400", "1e309", "-2e308"))}
			case 2:
				return form{"time", t.Time(time.Second)}
			case 3:
				if bits == 32 {
					f := math.Ldexp(1, 128+t.N(800)) * (1 + float64(t.N(1000))/1000)
					if t.Bool() {
						f = -f
					}
					if t.Bool() {
						return form{"text out of range", []byte(strconv.FormatFloat(f, 'g', -1, 64))}
					}
					return form{"float64 out of range", f}
				}
				return form{"unsupported type", []int{1}}
			default:
				return form{"unsupported type", pbt.Pick(t, any([]int{1}), any(struct{}{}), any(map[string]int{}))}
			}
		},
	}
}

func str_[T ~string | ~[]byte](name string, sc func(*T) sql.Scanner, scp func(**T) sql.Scanner, ssc func(*T) sql.Scanner, sscp func(**T) sql.Scanner) kind {
	isStr := reflect.TypeFor[T]().Kind() == reflect.String
	return kind{
		name: name, zero: T(""), field: mkField(sc, scp), strict: mkField(ssc, sscp),
		eq: func(a, b any) bool {
			if isStr {
				return a == b
			}
			return bytes.Equal(reflect.ValueOf(a).Bytes(), reflect.ValueOf(b).Bytes())
		},
		nativeOnly: func(v any) bool {
			switch v.(type) {
			case string, []byte:
				return true
			}
			return false
		},
		gen: func(t *pbt.T) (any, []form) {
			switch t.N(8) {
			case 0:
				v := t.Bool()
				return T(strconv.FormatBool(v)), []form{{"bool", v}}
			case 1:
				v := t.Int64()
				return T(strconv.FormatInt(v, 10)), []form{{"int64", v}}
			default:
				s := t.String(12, true)
				return T(s), []form{{"string", s}, {"bytes", []byte(s)}}
			}
		},
		bad: func(t *pbt.T) form {
			return form{"unsupported type", pbt.Pick(t, any([]int{1}), any(struct{}{}), any(map[string]int{}), any([]string{"a"}))}
		},
	}
}

const sqliteTime = "2006-01-02 15:04:05.999999999-07:00"

func timeKind() kind {
	return kind{
		name: "time.Time", zero: time.Time{},
		field: mkField(func(p *time.Time) sql.Scanner { return encoding.TimeScanner(p) }, func(p **time.Time) sql.Scanner { return encoding.TimeScanner(p) }),
		eq:    func(a, b any) bool { return a.(time.Time).Equal(b.(time.Time)) },
		gen: func(t *pbt.T) (any, []form) {
			ts := t.Time(time.Nanosecond)
			if t.P(1, 4) {
				ts = ts.In(time.FixedZone("", (t.N(27*4)-13*4)*900))
			}
			both := func(l, s string) []form { return []form{{l + "/bytes", []byte(s)}, {l + "/string", s}} }
			switch t.N(7) {
			case 0:
				return ts, []form{{"time", ts}}
			case 1:
				return ts, both("rfc3339", ts.Format(time.RFC3339Nano))
			case 2:
				d := ts.UTC()
				d = time.Date(d.Year(), d.Month(), d.Day(), 0, 0, 0, 0, time.UTC)
				return d, both("date", d.Format("2006-01-02"))
			case 3:
				d := ts.UTC().Truncate(time.Second)
				return d, both("datetime", d.Format("2006-01-02 15:04:05"))
			case 4:
				n := t.Range(1, 9)
				d := ts.UTC()
				unit := time.Duration(math.Pow10(9 - n))
				d = d.Truncate(unit)
				return d, both(fmt.Sprintf("fraction%d", n), d.Format("2006-01-02 15:04:05."+strings.Repeat("0", n)))
			case 5:
				d := ts.Truncate(time.Second)
				return d, []form{{"unix", d.Unix()}}
			default:
				// what mattn/go-sqlite3 stores in a TEXT column
				return ts, both("sqlite", ts.Format(sqliteTime))
			}
		},
		bad: func(t *pbt.T) form {
			switch t.N(4) {
			case 0:
				s := pbt.Pick(t, "", " ", "2024-13-01", "2024-02-30", "2023-02-29", "2024-00-10", "2024-01-32", "2024-01-01 25:00:00", "2024-01-01 10:60:00",
					"2024-01-01 10:00:60", "2024-01-01 10:00", "2024-1-1", "24-01-01", "2024/01/01", "2024-01-01T", "2024-01-01 10:00:00.", "abc", "2024-01-01 10:00:00 x",
					" 2024-01-01", "2024-01-01\n10:00:00x", "2024-01-01x", "x2024-01-01", "10:00:00")
				if t.Bool() {
					return form{"malformed text", s}
				}
				return form{"malformed text", []byte(s)}
			case 1:
				return form{"malformed text", t.String(5, true) + "x"}
			case 2:
				return form{"float64", 1.5}
			default:
				return form{"bool", true}
			}
		},
	}
}

func kinds() []kind {
	return []kind{
		sint("int", strconv.IntSize, func(p *int) sql.Scanner { return encoding.IntScanner[int](p) }, func(p **int) sql.Scanner { return encoding.IntScanner[int](p) }),
		sint("int8", 8, func(p *int8) sql.Scanner { return encoding.Int8Scanner[int8](p) }, func(p **int8) sql.Scanner { return encoding.Int8Scanner[int8](p) }),
		sint("int16", 16, func(p *int16) sql.Scanner { return encoding.Int16Scanner[int16](p) }, func(p **int16) sql.Scanner { return encoding.Int16Scanner[int16](p) }),
		sint("int32", 32, func(p *int32) sql.Scanner { return encoding.Int32Scanner[int32](p) }, func(p **int32) sql.Scanner { return encoding.Int32Scanner[int32](p) }),
		sint("int64", 64, func(p *int64) sql.Scanner { return encoding.Int64Scanner[int64](p) }, func(p **int64) sql.Scanner { return encoding.Int64Scanner[int64](p) }),
		sint("~int", strconv.IntSize, func(p *myInt) sql.Scanner { return encoding.IntScanner[myInt](p) }, func(p **myInt) sql.Scanner { return encoding.IntScanner[myInt](p) }),
		sint("~int8", 8, func(p *myI8) sql.Scanner { return encoding.Int8Scanner[myI8](p) }, func(p **myI8) sql.Scanner { return encoding.Int8Scanner[myI8](p) }),
		sint("~int16", 16, func(p *myI16) sql.Scanner { return encoding.Int16Scanner[myI16](p) }, func(p **myI16) sql.Scanner { return encoding.Int16Scanner[myI16](p) }),
		sint("~int32", 32, func(p *myI32) sql.Scanner { return encoding.Int32Scanner[myI32](p) }, func(p **myI32) sql.Scanner { return encoding.Int32Scanner[myI32](p) }),
		sint("~int64", 64, func(p *myI64) sql.Scanner { return encoding.Int64Scanner[myI64](p) }, func(p **myI64) sql.Scanner { return encoding.Int64Scanner[myI64](p) }),
		uint_("uint", strconv.IntSize, func(p *uint) sql.Scanner { return encoding.UintScanner[uint](p) }, func(p **uint) sql.Scanner { return encoding.UintScanner[uint](p) }),
		uint_("uint8", 8, func(p *uint8) sql.Scanner { return encoding.Uint8Scanner[uint8](p) }, func(p **uint8) sql.Scanner { return encoding.Uint8Scanner[uint8](p) }),
		uint_("uint16", 16, func(p *uint16) sql.Scanner { return encoding.Uint16Scanner[uint16](p) }, func(p **uint16) sql.Scanner { return encoding.Uint16Scanner[uint16](p) }),
		uint_("uint32", 32, func(p *uint32) sql.Scanner { return encoding.Uint32Scanner[uint32](p) }, func(p **uint32) sql.Scanner { return encoding.Uint32Scanner[uint32](p) }),
		uint_("uint64", 64, func(p *uint64) sql.Scanner { return encoding.Uint64Scanner[uint64](p) }, func(p **uint64) sql.Scanner { return encoding.Uint64Scanner[uint64](p) }),
		uint_("~uint", strconv.IntSize, func(p *myUint) sql.Scanner { return encoding.UintScanner[myUint](p) }, func(p **myUint) sql.Scanner { return encoding.UintScanner[myUint](p) }),
		uint_("~uint8", 8, func(p *myU8) sql.Scanner { return encoding.Uint8Scanner[myU8](p) }, func(p **myU8) sql.Scanner { return encoding.Uint8Scanner[myU8](p) }),
		uint_("~uint16", 16, func(p *myU16) sql.Scanner { return encoding.Uint16Scanner[myU16](p) }, func(p **myU16) sql.Scanner { return encoding.Uint16Scanner[myU16](p) }),
		uint_("~uint32", 32, func(p *myU32) sql.Scanner { return encoding.Uint32Scanner[myU32](p) }, func(p **myU32) sql.Scanner { return encoding.Uint32Scanner[myU32](p) }),
		uint_("~uint64", 64, func(p *myU64) sql.Scanner { return encoding.Uint64Scanner[myU64](p) }, func(p **myU64) sql.Scanner { return encoding.Uint64Scanner[myU64](p) }),
		bool_("bool", func(p *bool) sql.Scanner { return encoding.BoolScanner[bool](p) }, func(p **bool) sql.Scanner { return encoding.BoolScanner[bool](p) },
			func(p *bool) sql.Scanner { return encoding.BoolScanner[bool](p, true) }, func(p **bool) sql.Scanner { return encoding.BoolScanner[bool](p, true) }),
		bool_("~bool", func(p *myBool) sql.Scanner { return encoding.BoolScanner[myBool](p) }, func(p **myBool) sql.Scanner { return encoding.BoolScanner[myBool](p) },
			func(p *myBool) sql.Scanner { return encoding.BoolScanner[myBool](p, true) }, func(p **myBool) sql.Scanner { return encoding.BoolScanner[myBool](p, true) }),
		float_("float32", 32, func(p *float32) sql.Scanner { return encoding.Float32Scanner[float32](p) }, func(p **float32) sql.Scanner { return encoding.Float32Scanner[float32](p) },
			func(p *float32) sql.Scanner { return encoding.Float32Scanner[float32](p, true) }, func(p **float32) sql.Scanner { return encoding.Float32Scanner[float32](p, true) }),
		float_("~float32", 32, func(p *myF32) sql.Scanner { return encoding.Float32Scanner[myF32](p) }, func(p **myF32) sql.Scanner { return encoding.Float32Scanner[myF32](p) },
			func(p *myF32) sql.Scanner { return encoding.Float32Scanner[myF32](p, true) }, func(p **myF32) sql.Scanner { return encoding.Float32Scanner[myF32](p, true) }),
		float_("float64", 64, func(p *float64) sql.Scanner { return encoding.Float64Scanner[float64](p) }, func(p **float64) sql.Scanner { return encoding.Float64Scanner[float64](p) },
			func(p *float64) sql.Scanner { return encoding.Float64Scanner[float64](p, true) }, func(p **float64) sql.Scanner { return encoding.Float64Scanner[float64](p, true) }),
		float_("~float64", 64, func(p *myF64) sql.Scanner { return encoding.Float64Scanner[myF64](p) }, func(p **myF64) sql.Scanner { return encoding.Float64Scanner[myF64](p) },
			func(p *myF64) sql.Scanner { return encoding.Float64Scanner[myF64](p, true) }, func(p **myF64) sql.Scanner { return encoding.Float64Scanner[myF64](p, true) }),
		str_("string", func(p *string) sql.Scanner { return encoding.StringScanner[string](p) }, func(p **string) sql.Scanner { return encoding.StringScanner[string](p) },
			func(p *string) sql.Scanner { return encoding.StringScanner[string](p, true) }, func(p **string) sql.Scanner { return encoding.StringScanner[string](p, true) }),
		str_("~string", func(p *myStr) sql.Scanner { return encoding.StringScanner[myStr](p) }, func(p **myStr) sql.Scanner { return encoding.StringScanner[myStr](p) },
			func(p *myStr) sql.Scanner { return encoding.StringScanner[myStr](p, true) }, func(p **myStr) sql.Scanner { return encoding.StringScanner[myStr](p, true) }),
		str_("[]byte", func(p *[]byte) sql.Scanner { return encoding.StringScanner[[]byte](p) }, func(p **[]byte) sql.Scanner { return encoding.StringScanner[[]byte](p) },
			func(p *[]byte) sql.Scanner { return encoding.StringScanner[[]byte](p, true) }, func(p **[]byte) sql.Scanner { return encoding.StringScanner[[]byte](p, true) }),
		str_("~[]byte", func(p *myBytes) sql.Scanner { return encoding.StringScanner[myBytes](p) }, func(p **myBytes) sql.Scanner { return encoding.StringScanner[myBytes](p) },
			func(p *myBytes) sql.Scanner { return encoding.StringScanner[myBytes](p, true) }, func(p **myBytes) sql.Scanner { return encoding.StringScanner[myBytes](p, true) }),
		timeKind(),
		rune_("rune", func(p *rune) sql.Scanner { return encoding.RuneScanner[rune](p) }, func(p **rune) sql.Scanner { return encoding.RuneScanner[rune](p) }),
		rune_("~rune", func(p *myI32) sql.Scanner { return encoding.RuneScanner[myI32](p) }, func(p **myI32) sql.Scanner { return encoding.RuneScanner[myI32](p) }),
	}
}

// rune_ is a character, which is delivered as text.
func rune_[T ~rune](name string, sc func(*T) sql.Scanner, scp func(**T) sql.Scanner) kind {
	return kind{
		name: name, zero: T(0), field: mkField(sc, scp), eq: exactEq,
		gen: func(t *pbt.T) (any, []form) {
			v := pbt.Pick(t, rune(t.N(128)), rune(t.N(0x800)), rune(t.N(0x10000)), rune(t.N(0x110000)), 0, 'a', 0x7f, 0x80, 0x7ff, 0x800, 0xffff, 0x10000, 0x10ffff, utf8.RuneError)
			if !utf8.ValidRune(v) {
				v = 'x'
			}
			return T(v), []form{{"string", string(v)}, {"bytes", []byte(string(v))}}
		},
		bad: func(t *pbt.T) form {
			switch t.N(5) {
			case 0:
				return form{"time", t.Time(time.Second)}
			case 1:
				return form{"unsupported type", pbt.Pick(t, any([]int{1}), any(struct{}{}), any(true), any(1.5))}
			}
			s := t.String(5, true)
			if utf8.RuneCountInString(s) < 2 {
				s = "a" + s + "b"
			}
			if t.Bool() {
				return form{"more characters", []byte(s)}
			}
			return form{"more characters", s}
		},
	}
}

func show(v any) string {
	switch x := v.(type) {
	case []byte:
		return fmt.Sprintf("[]byte(%q)", x)
	case time.Time:
		return x.Format(time.RFC3339Nano)
	}
	return fmt.Sprintf("%T(%#v)", v, v)
}

// old draws what the field held before.
func oldValue(t *pbt.T, k kind) any {
	if t.Bool() {
		v, _ := k.gen(t)
		return v
	}
	return nil
}

func held(k kind, ptr bool, old any) any {
	if old == nil && !ptr {
		return k.zero
	}
	return old
}

func sameField(k kind, got, want any) bool {
	if got == nil || want == nil {
		return got == nil && want == nil
	}
	return k.eq(got, want)
}

func init() {
	ks := kinds()
	props["C01"] = func(s *pbt.Session) {
		s.Rule = "a case delivers one drawn value to a plain or pointer field of one scalar type in one of the forms a driver uses; non-trivial: the value is not the type's zero value (distinct by type, pointer or not, form and value)"
		s.Assume = []string{"the forms are those database/sql drivers deliver: int64, float64, bool, []byte, string, time.Time, plus uint64 and float32 as go-sql-driver/mysql 1.9 does, and mattn/go-sqlite3's text form of times"}
		for _, k := range ks {
			s.Run(pbt.Check{Name: "exact/" + k.name, Cases: 3000, Thorough: 150000, Run: func(t *pbt.T) {
				ptr := t.Bool()
				old := oldValue(t, k)
				want, forms := k.gen(t)
				f := forms[t.N(len(forms))]
				fl := k.field(ptr, old)
				t.Logf("%s field (pointer: %v) holding %s, driver delivers %s", k.name, ptr, show(old), show(f.v))
				if err := fl.Scan(f.v); err != nil {
					t.Fail("C01:rejects:"+k.name+":"+f.label, "%s rejected: %v", show(f.v), err)
				}
				if got := fl.get(); !sameField(k, got, want) {
					t.Fail("C01:wrong:"+k.name+":"+f.label, "field holds %s, want %s", show(got), show(want))
				}
				if !sameField(k, want, k.zero) {
					t.NonTrivial(fmt.Sprint(k.name, ptr, f.label, show(want)))
				}
			}})
			if k.strict == nil {
				continue
			}
			s.Run(pbt.Check{Name: "strict-native/" + k.name, Cases: 600, Thorough: 20000, Run: func(t *pbt.T) {
				ptr := t.Bool()
				old := oldValue(t, k)
				want, forms := k.gen(t)
				f := forms[t.N(len(forms))]
				if !k.nativeOnly(f.v) {
					t.Discard()
				}
				fl := k.strict(ptr, old)
				t.Logf("strict %s field (pointer: %v), driver delivers %s", k.name, ptr, show(f.v))
				if err := fl.Scan(f.v); err != nil {
					t.Fail("C01:strict-rejects:"+k.name+":"+f.label, "native %s rejected: %v", show(f.v), err)
				}
				if got := fl.get(); !sameField(k, got, want) {
					t.Fail("C01:strict-wrong:"+k.name+":"+f.label, "field holds %s, want %s", show(got), show(want))
				}
				t.NonTrivial(fmt.Sprint(k.name, ptr, f.label, show(want)))
			}})
		}
		// rounding: a double delivered to a float32 field, an int64 to a float field: the nearest value
		s.Run(pbt.Check{Name: "nearest-float32", Cases: 2000, Thorough: 100000, Run: func(t *pbt.T) {
			f := t.Float64(false)
			if math.IsInf(float64(float32(f)), 0) {
				t.Discard()
			}
			var v float32
			t.Logf("float32 field, driver delivers float64 %v", f)
			if err := encoding.Float32Scanner[float32](&v).Scan(f); err != nil {
				t.Fail("C01:rejects:float32:rounding", "%v", err)
			}
			if v != float32(f) {
				t.Fail("C01:wrong:float32:rounding", "got %v want %v", v, float32(f))
			}
			t.NonTrivial(fmt.Sprint(f))
		}})
		for _, k := range ks {
			var text func(any) string
			switch k.zero.(type) {
			case string, myStr:
				text = func(v any) string { return reflect.ValueOf(v).String() }
			case []byte, myBytes:
				text = func(v any) string { return string(reflect.ValueOf(v).Bytes()) }
			default:
				continue
			}
			s.Run(pbt.Check{Name: "spelled/" + k.name, Cases: 2000, Thorough: 50000, Run: func(t *pbt.T) {
				ptr := t.Bool()
				fl := k.field(ptr, oldValue(t, k))
				if t.Bool() {
					f := t.Float64(false)
					t.Logf("%s field (pointer: %v), driver delivers float64 %v", k.name, ptr, f)
					if err := fl.Scan(f); err != nil {
						t.Fail("C01:rejects:string:float64", "%v", err)
					}
					if g, err := strconv.ParseFloat(text(fl.get()), 64); err != nil || g != f {
						t.Fail("C01:wrong:string:float64", "text %q does not spell %v", text(fl.get()), f)
					}
					t.NonTrivial(fmt.Sprint(k.name, ptr, f))
					return
				}
				ts := t.Time(time.Nanosecond)
				t.Logf("%s field (pointer: %v), driver delivers %s", k.name, ptr, show(ts))
				if err := fl.Scan(ts); err != nil {
					t.Discard() // it need not be taken
				}
				for _, layout := range []string{"2006-01-02 15:04:05.999999999 -0700 MST", time.RFC3339Nano, sqliteTime, "2006-01-02 15:04:05.999999999"} {
					if g, err := time.Parse(layout, text(fl.get())); err == nil && g.Equal(ts) {
						t.NonTrivial(fmt.Sprint(k.name, ptr, ts))
						return
					}
				}
				t.Fail("C01:wrong:string:time", "text %q does not spell %s", text(fl.get()), show(ts))
			}})
		}
	}

	props["C02"] = func(s *pbt.Session) {
		s.Rule = "a case delivers something the field's type cannot represent; every case is non-trivial (distinct by type, pointer or not and delivered value)"
		for _, k := range ks {
			s.Run(pbt.Check{Name: "reject/" + k.name, Cases: 3000, Thorough: 100000, Run: func(t *pbt.T) {
				ptr := t.Bool()
				old := oldValue(t, k)
				f := k.bad(t)
				fl := k.field(ptr, old)
				t.Logf("%s field (pointer: %v) holding %s, driver delivers %s", k.name, ptr, show(old), show(f.v))
				t.NonTrivial(fmt.Sprint(k.name, ptr, f.label, show(f.v)))
				if err := fl.Scan(f.v); err == nil {
					t.Fail("C02:accepts:"+k.name+":"+f.label, "%s accepted, field now holds %s", show(f.v), show(fl.get()))
				}
				if got := fl.get(); !sameField(k, got, held(k, ptr, old)) {
					t.Fail("C02:changed:"+k.name+":"+f.label, "after the error the field holds %s, held %s", show(got), show(held(k, ptr, old)))
				}
			}})
			if k.strict == nil {
				continue
			}
			s.Run(pbt.Check{Name: "strict-reject/" + k.name, Cases: 1000, Thorough: 30000, Run: func(t *pbt.T) {
				ptr := t.Bool()
				old := oldValue(t, k)
				_, forms := k.gen(t)
				f := forms[t.N(len(forms))]
				if k.nativeOnly(f.v) {
					f = form{"bad", k.bad(t).v}
					if k.nativeOnly(f.v) && f.v != nil {
						t.Discard()
					}
				}
				fl := k.strict(ptr, old)
				t.Logf("strict %s field (pointer: %v) holding %s, driver delivers %s", k.name, ptr, show(old), show(f.v))
				t.NonTrivial(fmt.Sprint(k.name, ptr, f.label, show(f.v)))
				if err := fl.Scan(f.v); err == nil {
					t.Fail("C02:strict-accepts:"+k.name+":"+f.label, "%s accepted, field now holds %s", show(f.v), show(fl.get()))
				}
				if got := fl.get(); !sameField(k, got, held(k, ptr, old)) {
					t.Fail("C02:strict-changed:"+k.name+":"+f.label, "after the error the field holds %s", show(got))
				}
			}})
		}
	}
}
