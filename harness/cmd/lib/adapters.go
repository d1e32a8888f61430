package main

import (
	"bytes"
	"database/sql"
	"database/sql/driver"
	"encoding/binary"
	"encoding/json"
	"errors"
	"fmt"
	"math/big"
	"net/netip"
	"reflect"
	"strconv"
	"strings"
	"sync"
	"time"
	"unicode/utf8"

	"github.com/si3nloong/sqlgen/sequel/driver/postgres/pgutil"
	"github.com/si3nloong/sqlgen/sequel/encoding"
	"github.com/si3nloong/sqlgen/sequel/types"

	"verifharness/pbt"
)

// ------------------------------------------------------------------ C04

type myByte byte
type myRune rune

// arr is a fixed-size array with guard cells on both sides, to notice writes outside of it.
type arr[T ~byte | ~rune] struct {
	mem  []T
	size int
}

const guard = 0x5A

func newArr[T ~byte | ~rune](size int, old []T) arr[T] {
	a := arr[T]{make([]T, size+8), size}
	for i := range a.mem {
		a.mem[i] = guard
	}
	clear(a.cells())
	copy(a.cells(), old)
	return a
}
func (a arr[T]) cells() []T { return a.mem[4 : 4+a.size] }
func (a arr[T]) intact() bool {
	for i, c := range a.mem {
		if (i < 4 || i >= 4+a.size) && c != guard {
			return false
		}
	}
	return true
}

func arrCheck[T ~byte | ~rune](s *pbt.Session, name string, isRune bool, sc func([]T, int) sql.Scanner) {
	units := func(str string) []T {
		var u []T
		if isRune {
			for _, r := range str {
				u = append(u, T(r))
			}
		} else {
			for i := 0; i < len(str); i++ {
				u = append(u, T(str[i]))
			}
		}
		return u
	}
	s.Run(pbt.Check{Name: "array/" + name, Cases: 20000, Thorough: 400000, Run: func(t *pbt.T) {
		size := t.N(13)
		a := newArr(size, units(t.String(12, !isRune)))
		want := append([]T(nil), a.cells()...)
		t.Logf("[%d]%s holding %v", size, name, want)
		scanner := sc(a.cells(), size)
		for steps := t.Range(1, 4); steps > 0; steps-- {
			str := t.String(t.Range(1, 14), !isRune)
			u := units(str)
			var d any
			var scribble = func() {}
			form := "NULL"
			switch t.N(6) {
			case 0:
				u, str = nil, ""
			case 1, 2:
				if len(u) > size { // mostly what fits, to the last cell
					u = u[:size]
					str = ""
					for _, x := range u {
						if isRune {
							str += string(rune(x))
						} else {
							str += string([]byte{byte(x)})
						}
					}
				}
				fallthrough
			default:
				d, form, scribble = deliver(t, str)
			}
			t.Logf("delivered %q (%s)", str, form)
			err := scanner.Scan(d)
			scribble()
			if len(u) > size {
				t.NonTrivial(fmt.Sprint(name, size, form, str))
				if err == nil {
					t.Fail("C04:overflow:"+name+":"+form, "%d units accepted by an array of %d: %v", len(u), size, a.cells())
				}
				if !reflect.DeepEqual(a.cells(), want) && size > 0 {
					t.Fail("C04:changed:"+name+":"+form, "after the error the array holds %v, held %v", a.cells(), want)
				}
			} else {
				if err != nil {
					t.Fail("C04:rejects:"+name+":"+form, "%q rejected by an array of %d: %v", str, size, err)
				}
				want = make([]T, size)
				copy(want, u)
				if size > 0 && !reflect.DeepEqual(a.cells(), want) {
					t.Fail("C04:wrong:"+name+":"+form, "array holds %v, want %v", a.cells(), want)
				}
				if len(u) > 0 {
					t.NonTrivial(fmt.Sprint(name, size, form, str))
				}
			}
			if !a.intact() {
				t.Fail("C04:outside:"+name, "cells outside of the array were written: %v", a.mem)
			}
		}
	}})
	s.Run(pbt.Check{Name: "array-type/" + name, Cases: 500, Thorough: 5000, Run: func(t *pbt.T) {
		size := t.N(6)
		a := newArr(size, units(t.String(6, false)))
		want := append([]T{}, a.cells()...)
		v := pbt.Pick(t, any(int64(1)), any(1.5), any(true), any([]int{1}), any(struct{}{}))
		t.Logf("[%d]%s, delivered %T", size, name, v)
		t.NonTrivial(fmt.Sprintf("%s %d %T", name, size, v))
		if err := sc(a.cells(), size).Scan(v); err == nil {
			t.Fail("C04:accepts-type:"+name, "%T(%v) accepted", v, v)
		}
		if !reflect.DeepEqual(append([]T{}, a.cells()...), want) {
			t.Fail("C04:changed:"+name, "after the error the array holds %v", a.cells())
		}
	}})
}

// ------------------------------------------------------------------ C08

type jInner struct {
	A string
	B *int `json:"b,omitempty"`
}
type jStruct struct {
	ID    int64             `json:"id"`
	Name  string            `json:"name"`
	Tags  []string          `json:"tags"`
	Attrs map[string]any    `json:"attrs,omitempty"`
	Inner *jInner           `json:"inner"`
	Nest  map[string]jInner `json:"nest"`
	Flag  bool
	F     float64
}

// jCustom has its own JSON codec: upper-cases nothing, but wraps the text in an object.
type jCustom struct{ S string }

func (c jCustom) MarshalJSON() ([]byte, error) {
	if strings.Contains(c.S, "poison") {
		return nil, errors.New("jCustom: poison")
	}
	return json.Marshal(map[string]string{"custom": c.S})
}
func (c *jCustom) UnmarshalJSON(b []byte) error {
	var m map[string]string
	if err := json.Unmarshal(b, &m); err != nil {
		return err
	}
	if strings.Contains(m["custom"], "venom") {
		return errors.New("jCustom: venom")
	}
	c.S = m["custom"]
	return nil
}

// txt is a text codec which, like a strict type, needs a prefix; it appends to what it holds when not fresh.
type txt struct {
	Parts []string
}

func (x txt) MarshalText() ([]byte, error) {
	for _, p := range x.Parts {
		if strings.Contains(p, "poison") {
			return nil, errors.New("txt: poison")
		}
	}
	b := []byte("txt:")
	for _, p := range x.Parts {
		b = strconv.AppendQuote(b, p)
	}
	return b, nil
}
func (x *txt) UnmarshalText(b []byte) error {
	s, ok := strings.CutPrefix(string(b), "txt:")
	if !ok {
		return fmt.Errorf("txt: no prefix in %q", b)
	}
	var parts []string
	for s != "" {
		q, err := strconv.QuotedPrefix(s)
		if err != nil {
			return err
		}
		p, err := strconv.Unquote(q)
		if err != nil {
			return err
		}
		parts = append(parts, p)
		s = s[len(q):]
	}
	x.Parts = parts
	return nil
}

// bin is a binary codec: big endian number and a length-prefixed text.
type bin struct {
	N uint32
	S string
}

func (x bin) MarshalBinary() ([]byte, error) {
	if strings.Contains(x.S, "poison") {
		return nil, errors.New("bin: poison")
	}
	return append(binary.BigEndian.AppendUint32(binary.BigEndian.AppendUint32(nil, x.N), uint32(len(x.S))), x.S...), nil
}
func (x *bin) UnmarshalBinary(b []byte) error {
	if len(b) < 8 || int(binary.BigEndian.Uint32(b[4:])) != len(b)-8 {
		return fmt.Errorf("bin: malformed %x", b)
	}
	x.N, x.S = binary.BigEndian.Uint32(b), string(b[8:])
	return nil
}

// rec is a sql.Scanner that records what it is given.
type rec struct{ V any }

func (r *rec) Scan(v any) error {
	if s, ok := v.(string); ok && strings.Contains(s, "venom") {
		return errors.New("rec: venom")
	}
	if b, ok := v.([]byte); ok {
		if bytes.Contains(b, []byte("venom")) {
			return errors.New("rec: venom")
		}
		v = append([]byte{}, b...)
	}
	r.V = v
	return nil
}

func genJStruct(t *pbt.T) jStruct {
	v := jStruct{ID: t.Int64(), Name: t.String(6, false), Flag: t.Bool(), F: t.Float64(false)}
	if t.Bool() {
		for n := t.N(4); n > 0; n-- {
			v.Tags = append(v.Tags, t.String(4, false))
		}
	}
	if t.Bool() {
		v.Attrs = map[string]any{}
		for n := t.N(3) + 1; n > 0; n-- {
			v.Attrs[t.String(3, false)] = pbt.Pick(t, any(t.String(4, false)), any(float64(t.N(1000))/4), any(true), nil, any([]any{"x", 1.5}))
		}
	}
	if t.Bool() {
		v.Inner = genInner(t)
	}
	if t.Bool() {
		v.Nest = map[string]jInner{t.String(3, false): *genInner(t)}
	}
	return v
}
func genInner(t *pbt.T) *jInner {
	in := &jInner{A: t.String(4, false)}
	if t.Bool() {
		n := t.N(1000)
		in.B = &n
	}
	return in
}

// codec is one type stored through an adapter, as a value and as a pointer field.
type codec struct {
	name string
	gen  func(t *pbt.T) any // a value of the type
	// store gives the driver value for the field
	store func(v any) driver.Valuer
	// dest gives a destination of the field's type holding old (which may be nil), and its content
	dest func(old any) (sql.Scanner, func() any)
	// ptr is whether a NULL gives a nil pointer; zero is what it gives otherwise
	ptr  bool
	zero any
	// ref is the standard encoding, nil when it fails
	ref func(v any) ([]byte, error)
	// same compares an encoding with the reference encoding
	same func(a, b []byte) bool
	eq   func(a, b any) bool
	bad  func(t *pbt.T) string
}

func jsonEqual(a, b []byte) bool {
	var x, y any
	return json.Unmarshal(a, &x) == nil && json.Unmarshal(b, &y) == nil && reflect.DeepEqual(x, y)
}

func jsonCodec[T any](name string, gen func(*pbt.T) T, eq func(a, b any) bool) []codec {
	if eq == nil {
		eq = exactEq
	}
	bad := func(t *pbt.T) string {
		good, err := json.Marshal(gen(t))
		if err != nil {
			good = []byte("{}")
		}
		return pbt.Pick(t, "", "{", "}", "nul", "[1", `{"a"}`, string(good)+"x", string(good)+" {}", string(good)+"]", string(good[:len(good)/2])+"\x01", "\x00", `{"custom":"venom"}x`, string(good)+string(good))
	}
	var z T
	ref := func(v any) ([]byte, error) { return json.Marshal(v) }
	val := codec{name: "json " + name, gen: func(t *pbt.T) any { return gen(t) }, zero: z, ref: ref, same: jsonEqual, eq: eq, bad: bad,
		store: func(v any) driver.Valuer { return encoding.JSONValue(v.(T)) },
		dest: func(old any) (sql.Scanner, func() any) {
			p := new(T)
			if old != nil {
				*p = old.(T)
			}
			return encoding.JSONScanner(p), func() any { return *p }
		}}
	ptr := val
	ptr.name, ptr.ptr = "json *"+name, true
	ptr.store = func(v any) driver.Valuer { x := v.(T); return encoding.JSONValue(&x) }
	ptr.dest = func(old any) (sql.Scanner, func() any) {
		p := new(*T)
		if old != nil {
			x := old.(T)
			*p = &x
		}
		return encoding.JSONScanner(p), func() any {
			if *p == nil {
				return nil
			}
			return **p
		}
	}
	return []codec{val, ptr}
}

type textual[T any] interface {
	*T
	UnmarshalText([]byte) error
}

func textCodec[T any, P textual[T]](name string, gen func(*pbt.T) T, store func(T) driver.Valuer, enc func(T) ([]byte, error), eq func(a, b any) bool, bad ...string) []codec {
	if eq == nil {
		eq = exactEq
	}
	var z T
	val := codec{name: "text " + name, gen: func(t *pbt.T) any { return gen(t) }, zero: z, eq: eq, same: bytes.Equal,
		ref:   func(v any) ([]byte, error) { return enc(v.(T)) },
		bad:   func(t *pbt.T) string { return bad[t.N(len(bad))] },
		store: func(v any) driver.Valuer { return store(v.(T)) },
		dest: func(old any) (sql.Scanner, func() any) {
			p := new(T)
			if old != nil {
				*p = old.(T)
			}
			return encoding.TextScanner[T, P](p), func() any { return *p }
		}}
	ptr := val
	ptr.name, ptr.ptr = "text *"+name, true
	ptr.dest = func(old any) (sql.Scanner, func() any) {
		p := new(*T)
		if old != nil {
			x := old.(T)
			*p = &x
		}
		return encoding.TextScanner[T, P](p), func() any {
			if *p == nil {
				return nil
			}
			return **p
		}
	}
	return []codec{val, ptr}
}

func codecs() []codec {
	var cs []codec
	str := func(t *pbt.T) string {
		if t.P(1, 12) {
			return "po" + "ison" + t.String(2, false)
		}
		return t.String(6, false)
	}
	cs = append(cs, jsonCodec("struct", genJStruct, nil)...)
	cs = append(cs, jsonCodec("[]string", func(t *pbt.T) []string { return genJStruct(t).Tags }, nil)...)
	cs = append(cs, jsonCodec("map", func(t *pbt.T) map[string]any { return genJStruct(t).Attrs }, nil)...)
	cs = append(cs, jsonCodec("map[int]struct", func(t *pbt.T) map[int]jInner {
		if t.Bool() {
			return nil
		}
		m := map[int]jInner{}
		for n := t.N(3); n > 0; n-- {
			m[t.N(100)-50] = *genInner(t)
		}
		return m
	}, nil)...)
	cs = append(cs, jsonCodec("int", func(t *pbt.T) int64 { return t.Int64() }, nil)...)
	cs = append(cs, jsonCodec("string", func(t *pbt.T) string { return t.String(8, false) }, nil)...)
	cs = append(cs, jsonCodec("[3]int", func(t *pbt.T) [3]int { return [3]int{t.N(9), t.N(9), -t.N(9)} }, nil)...)
	cs = append(cs, jsonCodec("[]*struct", func(t *pbt.T) []*jInner {
		var l []*jInner
		for n := t.N(3); n > 0; n-- {
			if t.Bool() {
				l = append(l, genInner(t))
			} else {
				l = append(l, nil)
			}
		}
		return l
	}, nil)...)
	cs = append(cs, jsonCodec("custom", func(t *pbt.T) jCustom { return jCustom{str(t)} }, nil)...)
	cs = append(cs, jsonCodec("[]custom", func(t *pbt.T) []jCustom {
		var l []jCustom
		for n := t.N(3); n > 0; n-- {
			l = append(l, jCustom{str(t)})
		}
		return l
	}, nil)...)
	cs = append(cs, jsonCodec("time", func(t *pbt.T) time.Time { return t.Time(time.Nanosecond) }, func(a, b any) bool { return a.(time.Time).Equal(b.(time.Time)) })...)
	cs = append(cs, jsonCodec("raw", func(t *pbt.T) json.RawMessage {
		b, _ := json.Marshal(genJStruct(t))
		return b
	}, func(a, b any) bool {
		x, y := a.(json.RawMessage), b.(json.RawMessage)
		return len(x) == 0 && len(y) == 0 || jsonEqual(x, y)
	})[0])

	cs = append(cs, textCodec[txt]("txt", func(t *pbt.T) txt {
		var x txt
		for n := t.N(4); n > 0; n-- {
			x.Parts = append(x.Parts, str(t))
		}
		return x
	}, func(v txt) driver.Valuer { return encoding.TextValue(v) }, func(v txt) ([]byte, error) { return v.MarshalText() }, nil, "", "x", `txt:"`, "txt:a", "TXT:", `txt:"a"b`)...)
	cs = append(cs, textCodec[netip.Addr]("netip.Addr", func(t *pbt.T) netip.Addr {
		switch t.N(3) {
		case 0:
			return netip.Addr{}
		case 1:
			return netip.AddrFrom4([4]byte(append(t.Bytes(0), byte(t.N(256)), byte(t.N(256)), byte(t.N(256)), byte(t.N(256)))))
		}
		var b [16]byte
		for i := range b {
			b[i] = byte(t.N(256))
		}
		return netip.AddrFrom16(b)
	}, func(v netip.Addr) driver.Valuer { return encoding.TextValue(v) }, func(v netip.Addr) ([]byte, error) { return v.MarshalText() }, nil, "x", "1.2.3", "1.2.3.4.5", "::g")...)
	// copies of a big.Int share storage, so it is only used behind a pointer
	cs = append(cs, textCodec[big.Int]("big.Int", func(t *pbt.T) big.Int {
		n := new(big.Int).Mul(big.NewInt(t.Int64()), big.NewInt(t.Int64()))
		return *n
	}, func(v big.Int) driver.Valuer { return encoding.TextValue(&v) }, func(v big.Int) ([]byte, error) { return v.MarshalText() }, func(a, b any) bool {
		x, y := a.(big.Int), b.(big.Int)
		return x.Cmp(&y) == 0
	}, "x", "1.5", "--1", "1 2")[1])

	b := codec{name: "binary bin", gen: func(t *pbt.T) any { return bin{uint32(t.Uint64B()), str(t)} }, zero: bin{}, same: bytes.Equal, eq: exactEq,
		ref: func(v any) ([]byte, error) { return v.(bin).MarshalBinary() },
		bad: func(t *pbt.T) string {
			return pbt.Pick(t, "", "x", "1234567", "\x00\x00\x00\x01\x00\x00\x00\x02a", "\x00\x00\x00\x01\x00\x00\x00\x00a")
		},
		store: func(v any) driver.Valuer { return types.BinaryMarshaler(v.(bin)) },
		dest: func(old any) (sql.Scanner, func() any) {
			p := new(bin)
			if old != nil {
				*p = old.(bin)
			}
			return types.BinaryUnmarshaler(p), func() any { return *p }
		}}
	cs = append(cs, b)
	tm := codec{name: "binary time", gen: func(t *pbt.T) any { return t.Time(time.Nanosecond) }, zero: time.Time{}, same: bytes.Equal,
		eq:    func(a, b any) bool { return a.(time.Time).Equal(b.(time.Time)) },
		ref:   func(v any) ([]byte, error) { return v.(time.Time).MarshalBinary() },
		bad:   func(t *pbt.T) string { return pbt.Pick(t, "", "x", "\x01\x02", "\xff123456789abcde") },
		store: func(v any) driver.Valuer { return types.BinaryMarshaler(v.(time.Time)) },
		dest: func(old any) (sql.Scanner, func() any) {
			p := new(time.Time)
			if old != nil {
				*p = old.(time.Time)
			}
			return types.BinaryUnmarshaler(p), func() any { return *p }
		}}
	cs = append(cs, tm)
	return cs
}

// snapshot renders a value deeply, to see whether an old value was changed.
func snapshot(v any) string {
	if v == nil {
		return "<nil>"
	}
	if x, ok := v.(big.Int); ok {
		return x.String()
	}
	if b, err := json.Marshal(v); err == nil {
		return fmt.Sprintf("%T%s", v, b)
	}
	return fmt.Sprintf("%#v", v)
}

func codecCheck(s *pbt.Session, c codec) {
	s.Run(pbt.Check{Name: "adapter/" + c.name, Cases: 4000, Thorough: 150000, Run: func(t *pbt.T) {
		v := c.gen(t)
		var old any
		if t.Bool() {
			old = c.gen(t)
		}
		oldShot := snapshot(old)
		t.Logf("%s: %s, destination holding %s", c.name, snapshot(v), oldShot)
		ref, refErr := c.ref(v)
		d, err := c.store(v).Value()
		if refErr != nil {
			t.NonTrivial(c.name + "error" + snapshot(v))
			if err == nil {
				t.Fail("C08:error-lost:"+c.name, "the codec fails with %v, the adapter gives %v", refErr, d)
			}
			return
		}
		if err != nil {
			t.Fail("C08:store:"+c.name, "storing failed: %v", err)
		}
		text, ok := valueText(d)
		if !ok {
			if c.name == "json raw" && d != nil && string(ref) == "null" {
				return
			}
			t.Fail("C08:store-type:"+c.name, "stored as %T(%v)", d, d)
		}
		if !c.same([]byte(text), ref) {
			t.Fail("C08:encoding:"+c.name, "stored %q, the standard encoding is %q", text, ref)
		}
		sc, get := c.dest(old)
		dv, form, scribble := deliver(t, text)
		if err := sc.Scan(dv); err != nil {
			t.Fail("C08:read:"+c.name+":"+form, "%q read back: %v", text, err)
		}
		scribble()
		got := get()
		want := v
		if c.ptr && string(ref) == "null" && strings.HasPrefix(c.name, "json") {
			// a JSON null is a nil pointer
			if got != nil && !c.eq(got, c.zero) {
				t.Fail("C08:readback:"+c.name+":"+form, "null reads back as %s", snapshot(got))
			}
			return
		}
		if got == nil || !equiv(c, got, want) {
			t.Fail("C08:readback:"+c.name+":"+form, "%q reads back as %s, want %s", text, snapshot(got), snapshot(want))
		}
		if old != nil && snapshot(old) != oldShot && (c.ptr || !strings.HasPrefix(c.name, "text")) {
			t.Fail("C08:old-changed:"+c.name, "reading changed a value shared with the old one: %s, was %s", snapshot(old), oldShot)
		}
		if !c.eq(v, c.zero) {
			t.NonTrivial(c.name + form + text)
		}
	}})
	s.Run(pbt.Check{Name: "adapter-null/" + c.name, Cases: 400, Thorough: 10000, Run: func(t *pbt.T) {
		old := c.gen(t)
		sc, get := c.dest(old)
		t.Logf("%s holding %s, delivered NULL", c.name, snapshot(old))
		if err := sc.Scan(nil); err != nil {
			t.Fail("C08:null:"+c.name, "NULL rejected: %v", err)
		}
		got := get()
		if c.ptr && got != nil || !c.ptr && !c.eq(got, c.zero) {
			t.Fail("C08:null:"+c.name, "NULL gives %s", snapshot(got))
		}
		t.NonTrivial(c.name + snapshot(old))
	}})
	s.Run(pbt.Check{Name: "adapter-bad/" + c.name, Cases: 1000, Thorough: 30000, Run: func(t *pbt.T) {
		var old any
		if t.Bool() {
			old = c.gen(t)
		}
		sc, get := c.dest(old)
		before := snapshot(get())
		text := c.bad(t)
		if strings.HasPrefix(c.name, "json") && json.Valid([]byte(text)) {
			t.Discard()
		}
		d, form, _ := deliver(t, text)
		if t.P(1, 8) {
			d, form = pbt.Pick(t, any([]int{1}), any(struct{ X int }{1}), any(complex(1, 2))), "unsupported type"
		}
		t.Logf("%s holding %s, delivered %q (%s)", c.name, before, text, form)
		t.NonTrivial(c.name + form + text)
		if err := sc.Scan(d); err == nil {
			t.Fail("C08:accepts:"+c.name+":"+form, "%q accepted as %s", text, snapshot(get()))
		}
		if got := snapshot(get()); got != before && (c.ptr || !strings.HasPrefix(c.name, "text")) { // a text value is decoded in place
			t.Fail("C08:changed:"+c.name+":"+form, "after the error the destination holds %s, held %s", got, before)
		}
	}})
}

// equiv compares a value read back: JSON does not tell a nil slice or map inside of a
// value from what it prints the same.
func equiv(c codec, got, want any) bool {
	if c.eq(got, want) {
		return true
	}
	if !strings.HasPrefix(c.name, "json") {
		return false
	}
	a, err1 := json.Marshal(got)
	b, err2 := json.Marshal(want)
	return err1 == nil && err2 == nil && bytes.Equal(a, b)
}

func ptrCheck(s *pbt.Session) {
	s.Run(pbt.Check{Name: "ptr", Cases: 8000, Thorough: 200000, Run: func(t *pbt.T) {
		var held *rec
		if t.Bool() {
			held = &rec{V: "old"}
		}
		p := held
		var d any
		var want any
		var scribble = func() {}
		switch t.N(7) {
		case 0:
			d = nil
		case 1:
			d = t.Int64()
		case 2:
			d = t.Float64(false)
		case 3:
			d = t.Bool()
		case 4:
			d = t.Time(time.Nanosecond)
		default:
			d, _, scribble = deliver(t, pbt.Pick(t, "", "venom")+t.String(5, true))
		}
		want = d
		if b, ok := d.([]byte); ok {
			want = append([]byte{}, b...)
		}
		t.Logf("*Scanner field holding %v, delivered %s", held, show(d))
		err := encoding.PtrScanner(&p).Scan(d)
		scribble()
		if held != nil && !reflect.DeepEqual(held.V, "old") {
			t.Fail("C08:ptr-aliased", "the value of the old pointer became %v", held.V)
		}
		isVenom := false
		switch x := want.(type) {
		case string:
			isVenom = strings.Contains(x, "venom")
		case []byte:
			isVenom = bytes.Contains(x, []byte("venom"))
		}
		switch {
		case isVenom:
			t.NonTrivial(fmt.Sprint(held != nil, show(want)))
			if err == nil || p != held {
				t.Fail("C08:ptr-error", "the scanner fails; got %v, pointer replaced: %v", err, p != held)
			}
		case err != nil:
			t.Fail("C08:ptr-rejects", "%s: %v", show(want), err)
		case want == nil:
			if p != nil {
				t.Fail("C08:ptr-null", "NULL gives %v", p)
			}
		default:
			t.NonTrivial(fmt.Sprint(held != nil, show(want)))
			if p == nil || p == held || !reflect.DeepEqual(p.V, want) {
				t.Fail("C08:ptr-wrong", "delivered %s, the scanner was given %v", show(want), p)
			}
		}
	}})
	s.Run(pbt.Check{Name: "ptr-null-types", Cases: 3000, Thorough: 50000, Run: func(t *pbt.T) {
		n := t.Int64()
		p := &sql.NullInt64{Int64: 7, Valid: true}
		var d any = n
		if t.Bool() {
			d = []byte(strconv.FormatInt(n, 10))
		}
		t.Logf("*sql.NullInt64, delivered %s", show(d))
		t.NonTrivial(show(d))
		if err := encoding.PtrScanner(&p).Scan(d); err != nil || p == nil || p.Int64 != n || !p.Valid {
			t.Fail("C08:ptr-nullint", "got %v, %v", p, err)
		}
	}})
	// a text type takes numbers and booleans by their text
	s.Run(pbt.Check{Name: "text-of-native", Cases: 4000, Thorough: 50000, Run: func(t *pbt.T) {
		var x big.Int
		n := t.Int64()
		t.Logf("big.Int, delivered int64 %d", n)
		t.NonTrivial(fmt.Sprint(n))
		if err := encoding.TextScanner[big.Int, *big.Int](&x).Scan(n); err != nil || x.Int64() != n || !x.IsInt64() {
			t.Fail("C08:text-native:int64", "got %s, %v", x.String(), err)
		}
		p := new(*big.Int)
		if err := encoding.TextScanner[big.Int, *big.Int](p).Scan(n); err != nil || *p == nil || (*p).Int64() != n {
			t.Fail("C08:text-native:int64 ptr", "got %v, %v", *p, err)
		}
	}})
}

// ------------------------------------------------------------------ C09

func marshalChecks(s *pbt.Session) {
	type kindOf struct {
		name string
		// one draws a list, gives the text of the helper and a judgement of it
		one func(t *pbt.T) (text func() string, judge func(string) string, size int)
	}
	parse := func(text string, n int) ([]json.RawMessage, string) {
		var raw []json.RawMessage
		if err := json.Unmarshal([]byte(text), &raw); err != nil {
			return nil, fmt.Sprintf("%q is not valid JSON: %v", text, err)
		}
		if raw == nil || len(raw) != n {
			return nil, fmt.Sprintf("%q has %d elements, want %d", text, len(raw), n)
		}
		return raw, ""
	}
	length := func(t *pbt.T) int {
		if t.P(1, 10) {
			return 0
		}
		return t.Range(1, 9)
	}
	type cs string
	type ci int32
	type cu uint16
	type cb bool
	type cf float64
	exact := func(want []string) func(string) string {
		return func(text string) string {
			raw, msg := parse(text, len(want))
			if msg != "" {
				return msg
			}
			for i, r := range raw {
				if string(r) != want[i] {
					return fmt.Sprintf("element %d of %q is %s, want %s", i, text, r, want[i])
				}
			}
			return ""
		}
	}
	strJudge := func(want []string) func(string) string {
		return func(text string) string {
			raw, msg := parse(text, len(want))
			if msg != "" {
				return msg
			}
			for i, r := range raw {
				var got string
				if err := json.Unmarshal(r, &got); err != nil || got != want[i] {
					return fmt.Sprintf("element %d of %q is %q, want %q", i, text, got, want[i])
				}
			}
			return ""
		}
	}
	ks := []kindOf{
		{"string", func(t *pbt.T) (func() string, func(string) string, int) {
			l := make([]string, length(t))
			for i := range l {
				l[i] = t.String(6, false)
			}
			return func() string { return encoding.MarshalStringSlice(l) }, strJudge(l), len(l)
		}},
		{"~string/bytes", func(t *pbt.T) (func() string, func(string) string, int) {
			l := make([]string, length(t))
			a, b := make([]cs, len(l)), make([][]byte, len(l))
			for i := range l {
				l[i] = t.String(6, false)
				a[i], b[i] = cs(l[i]), []byte(l[i])
			}
			if t.Bool() {
				return func() string { return encoding.MarshalStringSlice(a) }, strJudge(l), len(l)
			}
			return func() string { return encoding.MarshalStringSlice(b) }, strJudge(l), len(l)
		}},
		{"int64", func(t *pbt.T) (func() string, func(string) string, int) {
			l, w := make([]int64, length(t)), []string{}
			for i := range l {
				l[i] = t.Int64()
				w = append(w, strconv.FormatInt(l[i], 10))
			}
			return func() string { return encoding.MarshalIntSlice(l) }, exact(w), len(l)
		}},
		{"~int32/int8", func(t *pbt.T) (func() string, func(string) string, int) {
			n := length(t)
			l, m, w := make([]ci, n), make([]int8, n), []string{}
			eight := t.Bool()
			for i := range l {
				l[i], m[i] = ci(t.Int64()>>32), int8(t.N(256)-128)
				if eight {
					w = append(w, strconv.Itoa(int(m[i])))
				} else {
					w = append(w, strconv.Itoa(int(l[i])))
				}
			}
			if eight {
				return func() string { return encoding.MarshalIntSlice(m) }, exact(w), n
			}
			return func() string { return encoding.MarshalIntSlice(l) }, exact(w), n
		}},
		{"uint64", func(t *pbt.T) (func() string, func(string) string, int) {
			l, w := make([]uint64, length(t)), []string{}
			for i := range l {
				l[i] = t.Uint64B()
				w = append(w, strconv.FormatUint(l[i], 10))
			}
			return func() string { return encoding.MarshalUintSlice(l) }, exact(w), len(l)
		}},
		{"~uint16/uint8", func(t *pbt.T) (func() string, func(string) string, int) {
			n := length(t)
			l, m, w := make([]cu, n), make([]uint8, n), []string{}
			eight := t.Bool()
			for i := range l {
				l[i], m[i] = cu(t.N(65536)), uint8(t.N(256))
				if eight {
					w = append(w, strconv.Itoa(int(m[i])))
				} else {
					w = append(w, strconv.Itoa(int(l[i])))
				}
			}
			if eight {
				return func() string { return encoding.MarshalUintSlice(m) }, exact(w), n
			}
			return func() string { return encoding.MarshalUintSlice(l) }, exact(w), n
		}},
		{"bool", func(t *pbt.T) (func() string, func(string) string, int) {
			l, w := make([]bool, length(t)), []string{}
			m := make([]cb, len(l))
			for i := range l {
				l[i] = t.Bool()
				m[i] = cb(l[i])
				w = append(w, strconv.FormatBool(l[i]))
			}
			if t.Bool() {
				return func() string { return encoding.MarshalBoolSlice(m) }, exact(w), len(l)
			}
			return func() string { return encoding.MarshalBoolSlice(l) }, exact(w), len(l)
		}},
		{"float64", func(t *pbt.T) (func() string, func(string) string, int) {
			l, m := make([]float64, length(t)), []cf{}
			for i := range l {
				l[i] = t.Float64(false)
				m = append(m, cf(l[i]))
			}
			judge := func(text string) string {
				raw, msg := parse(text, len(l))
				if msg != "" {
					return msg
				}
				for i, r := range raw {
					if f, err := strconv.ParseFloat(string(r), 64); err != nil || f != l[i] {
						return fmt.Sprintf("element %d of %q is %s, want %v", i, text, r, l[i])
					}
				}
				return ""
			}
			if t.Bool() {
				return func() string { return encoding.MarshalFloat64List(m) }, judge, len(l)
			}
			return func() string { return encoding.MarshalFloat64List(l) }, judge, len(l)
		}},
		{"float64 precision", func(t *pbt.T) (func() string, func(string) string, int) {
			l, w := make([]float64, length(t)), []string{}
			prec := t.N(8)
			for i := range l {
				l[i] = t.Float64(false)
				w = append(w, new(big.Float).SetFloat64(l[i]).Text('f', prec))
				if l[i] == 0 {
					w[i] = strconv.FormatFloat(l[i], 'f', prec, 64)
				}
			}
			return func() string { return encoding.MarshalFloat64List(l, prec) }, exact(w), len(l)
		}},
		{"time", func(t *pbt.T) (func() string, func(string) string, int) {
			l := make([]time.Time, length(t))
			for i := range l {
				l[i] = t.Time(time.Nanosecond)
				if t.P(1, 3) {
					l[i] = l[i].In(time.FixedZone("", (t.N(27*4)-13*4)*900))
				}
			}
			return func() string { return encoding.MarshalTimeList(l) }, func(text string) string {
				raw, msg := parse(text, len(l))
				if msg != "" {
					return msg
				}
				for i, r := range raw {
					var got time.Time
					if err := json.Unmarshal(r, &got); err != nil || !got.Equal(l[i]) {
						return fmt.Sprintf("element %d of %q is %s, want %s", i, text, r, l[i].Format(time.RFC3339Nano))
					}
				}
				return ""
			}, len(l)
		}},
	}
	for _, k := range ks {
		s.Run(pbt.Check{Name: "marshal/" + k.name, Cases: 8000, Thorough: 200000, Run: func(t *pbt.T) {
			text, judge, n := k.one(t)
			got := text()
			t.Logf("%s list of %d: %q", k.name, n, clip(got))
			if msg := judge(got); msg != "" {
				t.Fail("C09:wrong:"+k.name, "%s", msg)
			}
			if n > 0 {
				t.NonTrivial(k.name + got)
			}
		}})
	}
	s.Run(pbt.Check{Name: "marshal-concurrent", Cases: 300, Thorough: 5000, Serial: true, Run: func(t *pbt.T) {
		type job struct {
			name  string
			text  func() string
			judge func(string) string
		}
		var jobs [6][]job
		for g := range jobs {
			for n := t.Range(1, 4); n > 0; n-- {
				k := ks[t.N(len(ks))]
				text, judge, _ := k.one(t)
				jobs[g] = append(jobs[g], job{k.name, text, judge})
			}
		}
		var wg sync.WaitGroup
		var mu sync.Mutex
		bad := ""
		for _, js := range jobs {
			wg.Add(1)
			go func() {
				defer wg.Done()
				defer func() {
					if e := recover(); e != nil {
						mu.Lock()
						bad = fmt.Sprint("panic: ", e)
						mu.Unlock()
					}
				}()
				for r := 0; r < 30; r++ {
					for _, j := range js {
						if msg := j.judge(j.text()); msg != "" {
							mu.Lock()
							bad = j.name + ": " + msg
							mu.Unlock()
						}
					}
				}
			}()
		}
		wg.Wait()
		t.Logf("6 goroutines marshalling lists at once")
		t.NonTrivial(fmt.Sprint(t.N(1 << 30)))
		if bad != "" {
			t.Fail("C09:concurrent", "%s", bad)
		}
	}})
}

func clip(s string) string {
	if len(s) > 200 {
		return s[:200] + "…"
	}
	return s
}

// ------------------------------------------------------------------ C10

// pgLiteral reads one string literal by PostgreSQL's lexical rules (” doubling in both forms, C-style
// escapes in E'…'), and gives its value and what follows it. backslash_quote's safe_encoding default lets \'
// through only for client encodings where it is safe; a literal relying on it is refused here.
func pgLiteral(s string) (val, rest string, ok bool) {
	esc := false
	if strings.HasPrefix(s, "E'") || strings.HasPrefix(s, "e'") {
		esc, s = true, s[1:]
	}
	if !strings.HasPrefix(s, "'") {
		return "", "", false
	}
	var b []byte
	for i := 1; i < len(s); {
		c := s[i]
		switch {
		case c == '\'' && i+1 < len(s) && s[i+1] == '\'':
			b = append(b, '\'')
			i += 2
		case c == '\'':
			return string(b), s[i+1:], true
		case c == '\\' && esc:
			if i+1 >= len(s) {
				return "", "", false
			}
			e := s[i+1]
			i += 2
			switch e {
			case 'b':
				b = append(b, '\b')
			case 'f':
				b = append(b, '\f')
			case 'n':
				b = append(b, '\n')
			case 'r':
				b = append(b, '\r')
			case 't':
				b = append(b, '\t')
			case '\'':
				return "", "", false
			case '0', '1', '2', '3', '4', '5', '6', '7':
				n, k := 0, 0
				for i--; i < len(s) && k < 3 && s[i] >= '0' && s[i] <= '7'; k++ {
					n = n*8 + int(s[i]-'0')
					i++
				}
				b = append(b, byte(n))
			case 'x', 'u', 'U':
				max := map[byte]int{'x': 2, 'u': 4, 'U': 8}[e]
				k := 0
				for k < max && i+k < len(s) && strings.IndexByte("0123456789abcdefABCDEF", s[i+k]) >= 0 {
					k++
				}
				if k == 0 || e != 'x' && k != max {
					return "", "", false
				}
				n, _ := strconv.ParseUint(s[i:i+k], 16, 64)
				if e == 'x' {
					b = append(b, byte(n))
				} else {
					b = utf8.AppendRune(b, rune(n))
				}
				i += k
			default:
				b = append(b, e)
			}
		default:
			b = append(b, c)
			i++
		}
	}
	return "", "", false
}

func quoteChecks(s *pbt.Session) {
	text := func(t *pbt.T) string {
		return strings.ReplaceAll(t.String(t.Range(1, 20), true), "\x00", "")
	}
	s.Run(pbt.Check{Name: "quote", Cases: 40000, Thorough: 2000000, Run: func(t *pbt.T) {
		str := text(t)
		q := pgutil.Quote(str)
		t.Logf("Quote(%q) = %s", str, q)
		v, rest, ok := pgLiteral(q)
		if !ok || rest != "" {
			t.Fail("C10:not-literal", "%s is not one complete literal (value so far %q, left %q)", q, v, rest)
		}
		if v != str {
			t.Fail("C10:value", "%s denotes %q, want %q", q, v, str)
		}
		if strings.ContainsAny(str, "'\\\n\t\r\b\f") {
			t.NonTrivial(str)
		}
	}})
	s.Run(pbt.Check{Name: "quote-joined", Cases: 10000, Thorough: 200000, Run: func(t *pbt.T) {
		n := t.Range(2, 5)
		want := make([]string, n)
		var b strings.Builder
		for i := range want {
			want[i] = text(t)
			if i > 0 {
				b.WriteString(" || ")
			}
			b.WriteString(pgutil.Quote(want[i]))
		}
		rest := b.String()
		t.Logf("%s", rest)
		for i := range want {
			v, r, ok := pgLiteral(rest)
			if !ok || v != want[i] {
				t.Fail("C10:joined", "literal %d reads as %q, want %q", i, v, want[i])
			}
			if i < n-1 {
				if r, ok = strings.CutPrefix(r, " || "); !ok {
					t.Fail("C10:joined", "after literal %d: %q", i, r)
				}
			} else if r != "" {
				t.Fail("C10:joined", "left over: %q", r)
			}
			rest = r
		}
		t.NonTrivial(b.String())
	}})
	s.Run(pbt.Check{Name: "quote-long", Cases: 200, Thorough: 3000, Run: func(t *pbt.T) {
		unit := text(t)
		str := strings.Repeat(unit, t.Range(50, 2000))
		q := pgutil.Quote(str)
		v, rest, ok := pgLiteral(q)
		t.Logf("Quote of %d bytes of %q", len(str), unit)
		if !ok || rest != "" || v != str {
			t.Fail("C10:value", "a text of %d bytes does not read back", len(str))
		}
		t.NonTrivial(unit)
	}})
}

// ------------------------------------------------------------------ C03

// arbitrary draws a value of any of the types which drivers deliver.
func arbitrary(t *pbt.T, k kind) form {
	switch t.N(9) {
	case 0:
		return form{"bool", t.Bool()}
	case 1:
		return form{"int64", t.Int64()}
	case 2:
		return form{"int64", int64(t.N(4)) - 1}
	case 3:
		return form{"float64", t.Float64(false)}
	case 4:
		return form{"time", t.Time(time.Nanosecond)}
	case 5:
		return form{"uint64", t.Uint64B()}
	case 6:
		return form{"string", t.String(4, true)}
	case 7:
		return form{"bytes", []byte(t.String(4, true))}
	}
	_, fs := k.gen(t)
	return fs[t.N(len(fs))]
}

func replaceChecks(s *pbt.Session) {
	for _, k := range kinds() {
		s.Run(pbt.Check{Name: "null/" + k.name, Cases: 1500, Thorough: 30000, Run: func(t *pbt.T) {
			ptr := t.Bool()
			old, _ := k.gen(t)
			mk := k.field
			if k.strict != nil && t.P(1, 4) {
				mk = k.strict
			}
			fl := mk(ptr, old)
			t.Logf("%s field (pointer: %v) holding %s, driver delivers NULL", k.name, ptr, show(old))
			if err := fl.Scan(nil); err != nil {
				t.Fail("C03:null-rejected:"+k.name, "NULL rejected: %v", err)
			}
			got := fl.get()
			if ptr && got != nil || !ptr && !sameField(k, got, k.zero) {
				t.Fail("C03:null:"+k.name, "NULL gives %s", show(got))
			}
			if ptr && !sameField(k, fl.oldVal(), old) {
				t.Fail("C03:null-through:"+k.name, "NULL wrote through the old pointer, which now gives %s", show(fl.oldVal()))
			}
			t.NonTrivial(fmt.Sprint(k.name, ptr, show(old)))
		}})
		s.Run(pbt.Check{Name: "history/" + k.name, Cases: 3000, Thorough: 60000, Run: func(t *pbt.T) {
			ptr := t.Bool()
			old := oldValue(t, k)
			fl := k.field(ptr, old)
			t.Logf("%s field (pointer: %v) holding %s", k.name, ptr, show(old))
			want := held(k, ptr, old)
			for n := t.Range(1, 5); n > 0; n-- {
				switch t.N(5) {
				case 0:
					t.Logf("  NULL")
					if err := fl.Scan(nil); err != nil {
						t.Fail("C03:null-rejected:"+k.name, "NULL rejected: %v", err)
					}
					want = k.zero
					if ptr {
						want = nil
					}
				case 1:
					f := k.bad(t)
					t.Logf("  %s", show(f.v))
					if err := fl.Scan(f.v); err == nil {
						t.Discard() // C02 judges that
					}
				default:
					v, forms := k.gen(t)
					f := forms[t.N(len(forms))]
					t.Logf("  %s", show(f.v))
					d := f.v
					var buf []byte
					if b, ok := d.([]byte); ok {
						buf = append([]byte{}, b...)
						d = buf
					}
					if err := fl.Scan(d); err != nil {
						t.Discard() // C01 judges that
					}
					for i := range buf {
						buf[i] = '#' // the driver reuses its buffer
					}
					want = v
				}
				if got := fl.get(); !sameField(k, got, want) {
					t.Fail("C03:history:"+k.name, "the field holds %s, want %s", show(got), show(want))
				}
				if ptr && old != nil && !sameField(k, fl.oldVal(), old) {
					t.Fail("C03:through:"+k.name, "the old pointer's value became %s", show(fl.oldVal()))
				}
			}
			t.NonTrivial(fmt.Sprint(k.name, ptr, show(old), show(want), t.N(1<<20)))
		}})
		// any driver value: whether it is taken, and as what, does not depend on what was there
		s.Run(pbt.Check{Name: "arbitrary/" + k.name, Cases: 1500, Thorough: 30000, Run: func(t *pbt.T) {
			ptr := t.Bool()
			mk := k.field
			if k.strict != nil && t.P(1, 4) {
				mk = k.strict
			}
			old := [2]any{oldValue(t, k), oldValue(t, k)}
			f := arbitrary(t, k)
			t.Logf("%s fields (pointer: %v) holding %s and %s, driver delivers %s", k.name, ptr, show(old[0]), show(old[1]), show(f.v))
			var got [2]any
			var errs [2]error
			for i := range got {
				fl := mk(ptr, old[i])
				d := f.v
				var buf []byte
				if b, ok := d.([]byte); ok {
					buf = append([]byte{}, b...)
					d = buf
				}
				errs[i] = fl.Scan(d)
				for j := range buf {
					buf[j] = '#'
				}
				got[i] = fl.get()
				if ptr && old[i] != nil && !sameField(k, fl.oldVal(), old[i]) {
					t.Fail("C03:through:"+k.name, "the old pointer's value became %s", show(fl.oldVal()))
				}
				if errs[i] != nil && !sameField(k, got[i], held(k, ptr, old[i])) {
					t.Fail("C03:error:"+k.name, "after the error %v the field holds %s", errs[i], show(got[i]))
				}
			}
			if (errs[0] == nil) != (errs[1] == nil) {
				t.Fail("C03:depends:"+k.name, "the errors are %v and %v", errs[0], errs[1])
			}
			if errs[0] == nil && !sameField(k, got[0], got[1]) {
				t.Fail("C03:depends:"+k.name, "the fields hold %s and %s", show(got[0]), show(got[1]))
			}
			if errs[0] == nil && ptr && got[0] == nil {
				t.Fail("C03:nothing:"+k.name, "the pointer is nil")
			}
			if errs[0] == nil {
				t.NonTrivial(fmt.Sprint(k.name, ptr, show(old[0]), show(old[1]), show(f.v)))
			}
		}})
	}
	for _, l := range listTypes() {
		s.Run(pbt.Check{Name: "list-history/" + l.name, Cases: 1500, Thorough: 30000, Run: func(t *pbt.T) {
			old := l.gen(t, 4, !l.pg)
			p := l.fresh(old)
			t.Logf("%s holding %#v", l.name, old.Interface())
			want := old
			for n := t.Range(1, 4); n > 0; n-- {
				if t.P(1, 4) {
					t.Logf("  NULL")
					if err := l.dest(p.Interface()).Scan(nil); err != nil {
						t.Fail("C03:null-rejected:"+l.name, "NULL rejected: %v", err)
					}
					want = reflect.Zero(l.rt)
				} else {
					// what was read before stays with whoever holds it
					before := p.Elem().Interface()
					snap := fmt.Sprintf("%#v", before)
					want = l.gen(t, 5, !l.pg)
					if want.IsNil() {
						want = reflect.MakeSlice(l.rt, 0, 0)
					}
					text := l.render(t, want)
					d, form, scribble := deliver(t, text)
					t.Logf("  %q (%s)", text, form)
					if err := l.dest(p.Interface()).Scan(d); err != nil {
						t.Discard() // C05 and C06 judge that
					}
					scribble()
					if got := fmt.Sprintf("%#v", before); got != snap {
						t.Fail("C03:through:"+l.name, "the slice read before became %s, was %s", got, snap)
					}
				}
				if !l.equal(p.Elem(), want) {
					t.Fail("C03:history:"+l.name, "the field holds %#v, want %#v", p.Elem().Interface(), want.Interface())
				}
			}
			t.NonTrivial(fmt.Sprint(l.name, old, want))
		}})
	}
}

func init() {
	props["C03"] = func(s *pbt.Session) {
		s.Rule = "a case sends a NULL, or a history of deliveries (values, NULLs and rejected ones, byte buffers overwritten afterwards), into one field; every case is non-trivial (distinct by type, old and last content)"
		replaceChecks(s)
	}
	props["C04"] = func(s *pbt.Session) {
		s.Rule = "a case sends a history of texts, byte strings and NULLs into an array of 0 to 12 cells with guard cells around it; non-trivial: a delivered text is not empty (distinct by type, size, form and text)"
		arrCheck(s, "byte", false, func(v []byte, n int) sql.Scanner { return encoding.ByteArrayScanner(v, n) })
		arrCheck(s, "~byte", false, func(v []myByte, n int) sql.Scanner { return encoding.ByteArrayScanner(v, n) })
		arrCheck(s, "rune", true, func(v []rune, n int) sql.Scanner { return encoding.RuneArrayScanner(v, n) })
		arrCheck(s, "~rune", true, func(v []myRune, n int) sql.Scanner { return encoding.RuneArrayScanner(v, n) })
	}
	props["C08"] = func(s *pbt.Session) {
		s.Rule = "a case stores one drawn value through an adapter and reads it back into a destination that may hold another value, or delivers a text its codec refuses, or NULL; non-trivial: the value is not the zero value (distinct by type, form and text)"
		for _, c := range codecs() {
			codecCheck(s, c)
		}
		ptrCheck(s)
	}
	props["C09"] = func(s *pbt.Session) {
		s.Rule = "a case prints one drawn list and parses it with encoding/json; non-trivial: the list is not empty (distinct by type and text)"
		marshalChecks(s)
	}
	props["C10"] = func(s *pbt.Session) {
		s.Rule = "a case quotes one or several drawn strings and reads the text by PostgreSQL's lexical rules; non-trivial: a string holds a quote, backslash or control character (distinct by string)"
		s.Assume = []string{"NUL characters are excluded: PostgreSQL text cannot hold them"}
		quoteChecks(s)
	}
}
