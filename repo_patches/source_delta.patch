From a3481ffeb497b20a478fc2b86eb3eecbd6bc205b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:16:27 +0000
Subject: [PATCH 01/49] fix: reject out of range integers instead of wrapping
 them on scan

---
 sequel/encoding/int.go  | 3 +++
 sequel/encoding/uint.go | 4 ++++
 2 files changed, 7 insertions(+)

diff --git a/sequel/encoding/int.go b/sequel/encoding/int.go
index a9120bc..b89711f 100644
--- a/sequel/encoding/int.go
+++ b/sequel/encoding/int.go
@@ -79,6 +79,9 @@ func (i *signedIntScanner[T, Addr]) Scan(v any) error {
 		}
 	case int64:
 		val := T(vi)
+		if int64(val) != vi {
+			return fmt.Errorf(`sequel/encoding: value %d is out of range for int%d`, vi, i.bitSize)
+		}
 		switch any(i.addr).(type) {
 		case **T:
 			*(**T)(unsafe.Pointer(i.addr)) = &val
diff --git a/sequel/encoding/uint.go b/sequel/encoding/uint.go
index 472420d..cc877d4 100644
--- a/sequel/encoding/uint.go
+++ b/sequel/encoding/uint.go
@@ -80,6 +80,10 @@ func (u *unsignedIntScanner[T, Addr]) Scan(v any) error {
 		}
 	case int64:
 		val := T(vi)
+		// A 64-bit unsigned integer may be stored as its signed counterpart
+		if int64(val) != vi {
+			return fmt.Errorf(`sequel/encoding: value %d is out of range for uint%d`, vi, u.bitSize)
+		}
 		switch any(u.addr).(type) {
 		case **T:
 			*(**T)(unsafe.Pointer(u.addr)) = &val
-- 
2.43.0


From 843f2145690f4e54dfe474b2765a09cfa3f671b7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:16:31 +0000
Subject: [PATCH 02/49] fix: scan the uint64 and float32 values the MySQL
 driver delivers

---
 sequel/encoding/float.go | 24 ++++++++++++++++++++++++
 sequel/encoding/uint.go  | 15 +++++++++++++++
 2 files changed, 39 insertions(+)

diff --git a/sequel/encoding/float.go b/sequel/encoding/float.go
index 5cadbb5..c146e54 100644
--- a/sequel/encoding/float.go
+++ b/sequel/encoding/float.go
@@ -62,6 +62,18 @@ func (f *float32Scanner[T, Addr]) Scan(v any) error {
 		default:
 			panic("unreachable")
 		}
+	case float32:
+		val := T(vi)
+		switch any(f.addr).(type) {
+		case **T:
+			*(**T)(unsafe.Pointer(f.addr)) = &val
+			return nil
+		case *T:
+			*(*T)(unsafe.Pointer(f.addr)) = val
+			return nil
+		default:
+			panic("unreachable")
+		}
 	case int64:
 		val := T(vi)
 		switch any(f.addr).(type) {
@@ -149,6 +161,18 @@ func (f *float64Scanner[T, Addr]) Scan(v any) error {
 		default:
 			panic("unreachable")
 		}
+	case float32:
+		val := T(vi)
+		switch any(f.addr).(type) {
+		case **T:
+			*(**T)(unsafe.Pointer(f.addr)) = &val
+			return nil
+		case *T:
+			*(*T)(unsafe.Pointer(f.addr)) = val
+			return nil
+		default:
+			panic("unreachable")
+		}
 	case int64:
 		val := T(vi)
 		switch any(f.addr).(type) {
diff --git a/sequel/encoding/uint.go b/sequel/encoding/uint.go
index cc877d4..90ea5bb 100644
--- a/sequel/encoding/uint.go
+++ b/sequel/encoding/uint.go
@@ -94,6 +94,21 @@ func (u *unsignedIntScanner[T, Addr]) Scan(v any) error {
 		default:
 			panic("unreachable")
 		}
+	case uint64:
+		val := T(vi)
+		if uint64(val) != vi {
+			return fmt.Errorf(`sequel/encoding: value %d is out of range for uint%d`, vi, u.bitSize)
+		}
+		switch any(u.addr).(type) {
+		case **T:
+			*(**T)(unsafe.Pointer(u.addr)) = &val
+			return nil
+		case *T:
+			*(*T)(unsafe.Pointer(u.addr)) = val
+			return nil
+		default:
+			panic("unreachable")
+		}
 	default:
 		return fmt.Errorf(`sequel/encoding: unable to scan %T to ~uint`, vi)
 	}
-- 
2.43.0


From 09dd9596571332a6cf60fa1e80a073c581add130 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:17:00 +0000
Subject: [PATCH 03/49] fix: reject float values that overflow float32 on scan

---
 sequel/encoding/float.go | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/sequel/encoding/float.go b/sequel/encoding/float.go
index c146e54..fd5aee3 100644
--- a/sequel/encoding/float.go
+++ b/sequel/encoding/float.go
@@ -3,6 +3,7 @@ package encoding
 import (
 	"database/sql"
 	"fmt"
+	"math"
 	"strconv"
 	"unsafe"
 )
@@ -52,6 +53,9 @@ func (f *float32Scanner[T, Addr]) Scan(v any) error {
 		}
 	case float64:
 		val := T(vi)
+		if math.IsInf((float64)(val), 0) && !math.IsInf(vi, 0) {
+			return fmt.Errorf(`sequel/encoding: value %v is out of range for float32`, vi)
+		}
 		switch any(f.addr).(type) {
 		case **T:
 			*(**T)(unsafe.Pointer(f.addr)) = &val
-- 
2.43.0


From 5b9397ed0e08b8a9ad45980ce7493c96a802e3de Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:17:01 +0000
Subject: [PATCH 04/49] fix: scan the timestamp text written by the SQLite
 driver

---
 sequel/encoding/time.go | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/sequel/encoding/time.go b/sequel/encoding/time.go
index 97efc8e..e9bd139 100644
--- a/sequel/encoding/time.go
+++ b/sequel/encoding/time.go
@@ -12,6 +12,8 @@ var (
 	ddmmyyyy         = regexp.MustCompile(`^\d{4}\-\d{2}\-\d{2}$`)
 	ddmmyyyyhhmmss   = regexp.MustCompile(`^\d{4}\-\d{2}\-\d{2}\s\d{2}\:\d{2}:\d{2}$`)
 	ddmmyyyyhhmmsstz = regexp.MustCompile(`^\d{4}\-\d{2}\-\d{2}\s\d{2}\:\d{2}:\d{2}\.\d+$`)
+	// The layout which SQLite driver is using when it store `time.Time` as text
+	sqliteTimestamp = regexp.MustCompile(`^\d{4}\-\d{2}\-\d{2}\s\d{2}\:\d{2}:\d{2}(\.\d+)?[\+\-]\d{2}\:\d{2}$`)
 )
 
 type tsScanner[T addrOrPtr[time.Time]] struct {
@@ -103,6 +105,8 @@ func parseTime(str string) (time.Time, error) {
 		return time.Parse("2006-01-02 15:04:05", str)
 	case ddmmyyyyhhmmsstz.MatchString(str):
 		return time.Parse("2006-01-02 15:04:05.999999", str)
+	case sqliteTimestamp.MatchString(str):
+		return time.Parse("2006-01-02 15:04:05.999999999-07:00", str)
 	default:
 		return time.Parse(time.RFC3339Nano, str)
 	}
-- 
2.43.0


From 4d67a7979faa96b554c4b532c6ccc8b566c82b5a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:17:01 +0000
Subject: [PATCH 05/49] fix: clear the rest of a byte array when a shorter
 value is scanned

---
 sequel/encoding/byte_array.go | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/sequel/encoding/byte_array.go b/sequel/encoding/byte_array.go
index 594943c..12601c2 100644
--- a/sequel/encoding/byte_array.go
+++ b/sequel/encoding/byte_array.go
@@ -31,6 +31,7 @@ func (s *byteArrScanner[T]) Scan(v any) error {
 		for i := range bytes {
 			s.v[i] = T(bytes[i])
 		}
+		clear(s.v[len(bytes):s.size])
 	case []byte:
 		if len(b) > s.size {
 			return fmt.Errorf(`sequel/encoding: byte array overflow, should be %d, but it is %d`, s.size, len(b))
@@ -38,6 +39,7 @@ func (s *byteArrScanner[T]) Scan(v any) error {
 		for i := range b {
 			s.v[i] = T(b[i])
 		}
+		clear(s.v[len(b):s.size])
 		return nil
 	default:
 		return fmt.Errorf(`sequel/encoding: unsupported scan type %T for [%d]~byte`, b, s.size)
-- 
2.43.0


From 185636f793bc1cdc7217e865dc686bc60c18867e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:17:02 +0000
Subject: [PATCH 06/49] fix: scan rune arrays by character and clear what is
 left of the old value

---
 sequel/encoding/rune_array.go | 20 ++++++++++++--------
 1 file changed, 12 insertions(+), 8 deletions(-)

diff --git a/sequel/encoding/rune_array.go b/sequel/encoding/rune_array.go
index 46b75f8..e3be52e 100644
--- a/sequel/encoding/rune_array.go
+++ b/sequel/encoding/rune_array.go
@@ -18,26 +18,30 @@ func RuneArrayScanner[T ~rune](v []T, size int) sql.Scanner {
 func (s *runeArrScanner[T]) Scan(v any) error {
 	switch vi := v.(type) {
 	case nil:
-		s.v = make([]T, s.size)
+		clear(s.v[:s.size])
 		return nil
 	case []byte:
+		if n := utf8.RuneCount(vi); n > s.size {
+			return fmt.Errorf(`sequel/encoding: rune array overflow, should be %d, but it is %d`, s.size, n)
+		}
 		i := int(0)
 		for len(vi) > 0 {
-			if i >= s.size {
-				return fmt.Errorf(`sequel/encoding: rune array overflow, should be %d, but it is %d`, s.size, i)
-			}
 			r, size := utf8.DecodeRune(vi)
 			s.v[i] = T(r)
 			i++
 			vi = vi[size:]
 		}
+		clear(s.v[i:s.size])
 	case string:
-		if len(vi) > s.size {
-			return fmt.Errorf(`sequel/encoding: rune array overflow, should be %d, but it is %d`, s.size, len(vi))
+		if n := utf8.RuneCountInString(vi); n > s.size {
+			return fmt.Errorf(`sequel/encoding: rune array overflow, should be %d, but it is %d`, s.size, n)
 		}
-		for i := range vi {
-			s.v[i] = T(vi[i])
+		i := int(0)
+		for _, r := range vi {
+			s.v[i] = T(r)
+			i++
 		}
+		clear(s.v[i:s.size])
 	default:
 		return fmt.Errorf(`sequel/encoding: unsupported scan type %T for [%d]~rune`, vi, s.size)
 	}
-- 
2.43.0


From 87b436e28cb06ea569c84afb23ee7fccde7901d4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:19:00 +0000
Subject: [PATCH 07/49] fix: scan into a new value when the target is a pointer

---
 sequel/encoding/pointer.go | 27 ++++++++++++++++++++-------
 sequel/encoding/text.go    | 31 +++++++++++++++++++++----------
 2 files changed, 41 insertions(+), 17 deletions(-)

diff --git a/sequel/encoding/pointer.go b/sequel/encoding/pointer.go
index 5359745..4df6e7a 100644
--- a/sequel/encoding/pointer.go
+++ b/sequel/encoding/pointer.go
@@ -26,12 +26,25 @@ type addrOfPtr[T any, Ptr interface {
 }
 
 func (p *addrOfPtr[T, Ptr, Addr]) Scan(v any) error {
-	switch vt := v.(type) {
+	switch v.(type) {
 	case nil:
 		*(*Ptr)(unsafe.Pointer(p.v)) = nil
 		return nil
+	}
+
+	// Scan into a new value, as the pointer may be nil or shared with something else
+	val := Ptr(new(T))
+	if err := p.scan(val, v); err != nil {
+		return err
+	}
+	*p.v = val
+	return nil
+}
+
+func (p *addrOfPtr[T, Ptr, Addr]) scan(ptr Ptr, v any) error {
+	switch vt := v.(type) {
 	case string:
-		switch vi := any(*p.v).(type) {
+		switch vi := any(ptr).(type) {
 		case sql.Scanner:
 			return vi.Scan(vt)
 		case encoding.TextUnmarshaler:
@@ -42,7 +55,7 @@ func (p *addrOfPtr[T, Ptr, Addr]) Scan(v any) error {
 			return fmt.Errorf(`sql/encoding: unsupported %T`, vi)
 		}
 	case []byte:
-		switch vi := any(*p.v).(type) {
+		switch vi := any(ptr).(type) {
 		case sql.Scanner:
 			return vi.Scan(vt)
 		case encoding.TextUnmarshaler:
@@ -53,7 +66,7 @@ func (p *addrOfPtr[T, Ptr, Addr]) Scan(v any) error {
 			return fmt.Errorf(`sql/encoding: unsupported %T`, vi)
 		}
 	case bool:
-		switch vi := any(*p.v).(type) {
+		switch vi := any(ptr).(type) {
 		case sql.Scanner:
 			return vi.Scan(vt)
 		case encoding.TextUnmarshaler:
@@ -68,7 +81,7 @@ func (p *addrOfPtr[T, Ptr, Addr]) Scan(v any) error {
 			return fmt.Errorf(`sql/encoding: unsupported %T`, vi)
 		}
 	case int64:
-		switch vi := any(*p.v).(type) {
+		switch vi := any(ptr).(type) {
 		case sql.Scanner:
 			return vi.Scan(vt)
 		case encoding.TextUnmarshaler:
@@ -82,7 +95,7 @@ func (p *addrOfPtr[T, Ptr, Addr]) Scan(v any) error {
 			return fmt.Errorf(`sql/encoding: unsupported %T`, vi)
 		}
 	case float64:
-		switch vi := any(*p.v).(type) {
+		switch vi := any(ptr).(type) {
 		case sql.Scanner:
 			return vi.Scan(vt)
 		case encoding.TextUnmarshaler:
@@ -97,7 +110,7 @@ func (p *addrOfPtr[T, Ptr, Addr]) Scan(v any) error {
 			return fmt.Errorf(`sql/encoding: unsupported %T`, vi)
 		}
 	case time.Time:
-		switch vi := any(*p.v).(type) {
+		switch vi := any(ptr).(type) {
 		case sql.Scanner:
 			return vi.Scan(vt)
 		case encoding.TextUnmarshaler:
diff --git a/sequel/encoding/text.go b/sequel/encoding/text.go
index 28afc43..0df3551 100644
--- a/sequel/encoding/text.go
+++ b/sequel/encoding/text.go
@@ -53,7 +53,7 @@ func (t *textScanner[T, Ptr, Addr]) Scan(v any) error {
 	case string:
 		switch vi := any(t.v).(type) {
 		case *Ptr:
-			return (*vi).UnmarshalText(unsafe.Slice(unsafe.StringData(vt), len(vt)))
+			return unmarshalTextPtr(vi, unsafe.Slice(unsafe.StringData(vt), len(vt)))
 		case Ptr:
 			return vi.UnmarshalText(unsafe.Slice(unsafe.StringData(vt), len(vt)))
 		default:
@@ -62,20 +62,17 @@ func (t *textScanner[T, Ptr, Addr]) Scan(v any) error {
 	case []byte:
 		switch vi := any(t.v).(type) {
 		case *Ptr:
-			return (*vi).UnmarshalText(vt)
+			return unmarshalTextPtr(vi, vt)
 		case Ptr:
 			return vi.UnmarshalText(vt)
 		default:
 			panic("unreachable")
 		}
 	case bool:
-		b := []byte{0}
-		if vt {
-			b = []byte{1}
-		}
+		b := strconv.AppendBool(nil, vt)
 		switch vi := any(t.v).(type) {
 		case *Ptr:
-			return (*vi).UnmarshalText(b)
+			return unmarshalTextPtr(vi, b)
 		case Ptr:
 			return vi.UnmarshalText(b)
 		default:
@@ -85,7 +82,7 @@ func (t *textScanner[T, Ptr, Addr]) Scan(v any) error {
 		val := strconv.FormatInt(vt, 10)
 		switch vi := any(t.v).(type) {
 		case *Ptr:
-			return (*vi).UnmarshalText(unsafe.Slice(unsafe.StringData(val), len(val)))
+			return unmarshalTextPtr(vi, unsafe.Slice(unsafe.StringData(val), len(val)))
 		case Ptr:
 			return vi.UnmarshalText(unsafe.Slice(unsafe.StringData(val), len(val)))
 		default:
@@ -95,7 +92,7 @@ func (t *textScanner[T, Ptr, Addr]) Scan(v any) error {
 		val := strconv.FormatFloat(vt, 'f', -1, 64)
 		switch vi := any(t.v).(type) {
 		case *Ptr:
-			return (*vi).UnmarshalText(unsafe.Slice(unsafe.StringData(val), len(val)))
+			return unmarshalTextPtr(vi, unsafe.Slice(unsafe.StringData(val), len(val)))
 		case Ptr:
 			return vi.UnmarshalText(unsafe.Slice(unsafe.StringData(val), len(val)))
 
@@ -109,7 +106,7 @@ func (t *textScanner[T, Ptr, Addr]) Scan(v any) error {
 		}
 		switch vi := any(t.v).(type) {
 		case *Ptr:
-			return (*vi).UnmarshalText(b)
+			return unmarshalTextPtr(vi, b)
 		case Ptr:
 			return vi.UnmarshalText(b)
 		default:
@@ -119,3 +116,17 @@ func (t *textScanner[T, Ptr, Addr]) Scan(v any) error {
 		return fmt.Errorf(`sequel/encoding: unable to TextUnmarshal %T`, vt)
 	}
 }
+
+// unmarshalTextPtr decodes the text into a new value, as the pointer may be
+// nil or shared with something else.
+func unmarshalTextPtr[T any, Ptr interface {
+	*T
+	encoding.TextUnmarshaler
+}](addr *Ptr, text []byte) error {
+	val := Ptr(new(T))
+	if err := val.UnmarshalText(text); err != nil {
+		return err
+	}
+	*addr = val
+	return nil
+}
-- 
2.43.0


From 24edfa534d4bcb86ac0d6d7dfaa48f31c99effd7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:21:38 +0000
Subject: [PATCH 08/49] fix: decode the whole JSON text into a new value

---
 sequel/encoding/json.go | 22 +++++++++++++++-------
 1 file changed, 15 insertions(+), 7 deletions(-)

diff --git a/sequel/encoding/json.go b/sequel/encoding/json.go
index f887a95..8046432 100644
--- a/sequel/encoding/json.go
+++ b/sequel/encoding/json.go
@@ -24,7 +24,7 @@ func (j jsonValuer[T]) Value() (driver.Value, error) {
 	case json.RawMessage:
 		return []byte(vj)[:], nil
 	case json.Marshaler:
-		return vj.MarshalJSON()
+		return json.Marshal(vj)
 	default:
 		buf := new(bytes.Buffer)
 		if err := json.NewEncoder(buf).Encode(j.v); err != nil {
@@ -45,9 +45,7 @@ func JSONScanner[T any, Addr interface{ *T }](addr Addr) sql.Scanner {
 func (j *jsonScanner[T, Addr]) Scan(v any) error {
 	switch vi := v.(type) {
 	case nil:
-		switch vj := any(j.v).(type) {
-		case json.Unmarshaler:
-			return vj.UnmarshalJSON(nil)
+		switch any(j.v).(type) {
 		case **T:
 			*(**T)(unsafe.Pointer(j.v)) = nil
 			return nil
@@ -59,12 +57,22 @@ func (j *jsonScanner[T, Addr]) Scan(v any) error {
 			panic("unreachable")
 		}
 	case string:
-		return json.NewDecoder(bytes.NewBufferString(vi)).Decode(j.v)
+		return j.unmarshal([]byte(vi))
 	case []byte:
-		return json.NewDecoder(bytes.NewBuffer(vi)).Decode(j.v)
+		return j.unmarshal(vi)
 	case json.RawMessage:
-		return json.NewDecoder(bytes.NewBuffer(vi)).Decode(j.v)
+		return j.unmarshal(vi)
 	default:
 		return fmt.Errorf(`sequel/encoding: invalid scan type for JSON, %T`, v)
 	}
 }
+
+// unmarshal decodes the whole text into a new value, json would otherwise merge it with the old value.
+func (j *jsonScanner[T, Addr]) unmarshal(b []byte) error {
+	var v T
+	if err := json.Unmarshal(b, &v); err != nil {
+		return err
+	}
+	*(*T)(unsafe.Pointer(j.v)) = v
+	return nil
+}
-- 
2.43.0


From 4f59f46d4a044712409d12ce3ea3933175b58d7d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:22:16 +0000
Subject: [PATCH 09/49] fix: read and write JSON list columns as valid JSON

---
 sequel/sqltype/bool_slice.go   |  30 +++-----
 sequel/sqltype/int_slice.go    |  21 +++---
 sequel/sqltype/string_slice.go | 133 ++++++++++++++++++++++++++-------
 3 files changed, 127 insertions(+), 57 deletions(-)

diff --git a/sequel/sqltype/bool_slice.go b/sequel/sqltype/bool_slice.go
index 79c22d5..370a927 100644
--- a/sequel/sqltype/bool_slice.go
+++ b/sequel/sqltype/bool_slice.go
@@ -4,6 +4,7 @@ import (
 	"database/sql"
 	"database/sql/driver"
 	"fmt"
+	"strconv"
 	"unsafe"
 )
 
@@ -22,21 +23,17 @@ func (a BoolSlice[T]) Value() (driver.Value, error) {
 	}
 
 	if n := len(a); n > 0 {
-		// There will be exactly two curly brackets, N bytes of values,
+		// There will be two square brackets, at most 5*N bytes of values,
 		// and N-1 bytes of delimiters.
-		b := make([]byte, 1+2*n)
+		b := make([]byte, 1, 1+6*n)
+		b[0] = '['
 
-		for i := 0; i < n; i++ {
-			b[2*i] = ','
-			if a[i] {
-				b[1+2*i] = 't'
-			} else {
-				b[1+2*i] = 'f'
-			}
+		b = strconv.AppendBool(b, bool(a[0]))
+		for i := 1; i < n; i++ {
+			b = append(b, ',')
+			b = strconv.AppendBool(b, bool(a[i]))
 		}
-
-		b[0] = '['
-		b[2*n] = ']'
+		b = append(b, ']')
 		return unsafe.String(unsafe.SliceData(b), len(b)), nil
 	}
 	return "[]", nil
@@ -66,13 +63,10 @@ func (a *BoolSlice[T]) scanBytes(src []byte) error {
 	} else {
 		b := make(BoolSlice[T], len(elems))
 		for i, v := range elems {
-			if len(v) != 1 {
-				return fmt.Errorf("sqltype: could not parse boolean array index %d: invalid boolean %q", i, v)
-			}
-			switch v[0] {
-			case 't':
+			switch string(v) {
+			case "true", "t":
 				b[i] = true
-			case 'f':
+			case "false", "f":
 				b[i] = false
 			default:
 				return fmt.Errorf("sqltype: could not parse boolean array index %d: invalid boolean %q", i, v)
diff --git a/sequel/sqltype/int_slice.go b/sequel/sqltype/int_slice.go
index 932de30..db749eb 100644
--- a/sequel/sqltype/int_slice.go
+++ b/sequel/sqltype/int_slice.go
@@ -3,6 +3,7 @@ package sqltype
 import (
 	"database/sql/driver"
 	"fmt"
+	"math/bits"
 	"strconv"
 	"unsafe"
 )
@@ -23,7 +24,7 @@ func (a IntSlice[T]) Value() (driver.Value, error) {
 
 // Scan implements the sql.Scanner interface.
 func (a *IntSlice[T]) Scan(src any) error {
-	return arrayScan(a, src, "IntSlice")
+	return arrayScan(bits.UintSize, a, src, "IntSlice")
 }
 
 // Value implements the driver.Valuer interface.
@@ -33,7 +34,7 @@ func (a Int8Slice[T]) Value() (driver.Value, error) {
 
 // Scan implements the sql.Scanner interface.
 func (a *Int8Slice[T]) Scan(src any) error {
-	return arrayScan(a, src, "Int8Slice")
+	return arrayScan(8, a, src, "Int8Slice")
 }
 
 // Value implements the driver.Valuer interface.
@@ -43,7 +44,7 @@ func (a Int16Slice[T]) Value() (driver.Value, error) {
 
 // Scan implements the sql.Scanner interface.
 func (a *Int16Slice[T]) Scan(src any) error {
-	return arrayScan(a, src, "Int16Slice")
+	return arrayScan(16, a, src, "Int16Slice")
 }
 
 // Value implements the driver.Valuer interface.
@@ -53,7 +54,7 @@ func (a Int32Slice[T]) Value() (driver.Value, error) {
 
 // Scan implements the sql.Scanner interface.
 func (a *Int32Slice[T]) Scan(src any) error {
-	return arrayScan(a, src, "Int32Slice")
+	return arrayScan(32, a, src, "Int32Slice")
 }
 
 // Value implements the driver.Valuer interface.
@@ -63,11 +64,11 @@ func (a Int64Slice[T]) Value() (driver.Value, error) {
 
 // Scan implements the sql.Scanner interface.
 func (a *Int64Slice[T]) Scan(src any) error {
-	return arrayScan(a, src, "Int64Slice")
+	return arrayScan(64, a, src, "Int64Slice")
 }
 
 func scanBytes[T ~int | ~int8 | ~int16 | ~int32 | ~int64 |
-	~uint | ~uint8 | ~uint16 | ~uint32 | ~uint64 | ~uintptr, Arr interface{ ~[]T }](a *Arr, src []byte, t string) error {
+	~uint | ~uint8 | ~uint16 | ~uint32 | ~uint64 | ~uintptr, Arr interface{ ~[]T }](bitSize int, a *Arr, src []byte, t string) error {
 	elems, err := scanLinearArray(src, []byte{','}, t)
 	if err != nil {
 		return err
@@ -77,7 +78,7 @@ func scanBytes[T ~int | ~int8 | ~int16 | ~int32 | ~int64 |
 	} else {
 		b := make([]T, len(elems))
 		for i, v := range elems {
-			n, err := strconv.ParseInt(unsafe.String(unsafe.SliceData(v), len(v)), 10, 64)
+			n, err := strconv.ParseInt(unsafe.String(unsafe.SliceData(v), len(v)), 10, bitSize)
 			if err != nil {
 				return fmt.Errorf("sqltype: parsing array element index %d: %v", i, err)
 			}
@@ -89,12 +90,12 @@ func scanBytes[T ~int | ~int8 | ~int16 | ~int32 | ~int64 |
 }
 
 func arrayScan[T ~int | ~int8 | ~int16 | ~int32 | ~int64 |
-	~uint | ~uint8 | ~uint16 | ~uint32 | ~uint64 | ~uintptr, Arr interface{ ~[]T }](a *Arr, src any, t string) error {
+	~uint | ~uint8 | ~uint16 | ~uint32 | ~uint64 | ~uintptr, Arr interface{ ~[]T }](bitSize int, a *Arr, src any, t string) error {
 	switch src := src.(type) {
 	case []byte:
-		return scanBytes(a, src, t)
+		return scanBytes(bitSize, a, src, t)
 	case string:
-		return scanBytes(a, unsafe.Slice(unsafe.StringData(src), len(src)), t)
+		return scanBytes(bitSize, a, unsafe.Slice(unsafe.StringData(src), len(src)), t)
 	case nil:
 		*a = nil
 		return nil
diff --git a/sequel/sqltype/string_slice.go b/sequel/sqltype/string_slice.go
index 38544e1..ae1e974 100644
--- a/sequel/sqltype/string_slice.go
+++ b/sequel/sqltype/string_slice.go
@@ -4,7 +4,10 @@ import (
 	"bytes"
 	"database/sql/driver"
 	"fmt"
+	"strconv"
 	"strings"
+	"unicode/utf16"
+	"unicode/utf8"
 	"unsafe"
 )
 
@@ -23,10 +26,10 @@ func (a StringSlice[T]) Value() (driver.Value, error) {
 		b := make([]byte, 1, 1+3*n)
 		b[0] = '['
 
-		b = appendArrayQuotedBytes(b, []byte(a[0]))
+		b = appendQuotedString(b, string(a[0]))
 		for i := 1; i < n; i++ {
 			b = append(b, ',')
-			b = appendArrayQuotedBytes(b, []byte(a[i]))
+			b = appendQuotedString(b, string(a[i]))
 		}
 		b = append(b, ']')
 		return unsafe.String(unsafe.SliceData(b), len(b)), nil
@@ -61,7 +64,11 @@ func (a *StringSlice[T]) scanBytes(src []byte) error {
 			if v == nil {
 				return fmt.Errorf("sqltype: parsing array element index %d: cannot convert nil to string", i)
 			}
-			b[i] = T(v)
+			str, err := unquoteString(v)
+			if err != nil {
+				return fmt.Errorf("sqltype: parsing array element index %d: %v", i, err)
+			}
+			b[i] = T(str)
 		}
 		*a = b
 	}
@@ -71,7 +78,7 @@ func (a *StringSlice[T]) scanBytes(src []byte) error {
 func parseArray(src, del []byte) (dims []int, elems [][]byte, err error) {
 	var depth, i int
 
-	if len(src) < 1 || src[0] != '[' {
+	if i = skipSpaces(src, i); i >= len(src) || src[i] != '[' {
 		return nil, nil, fmt.Errorf("sqltype: unable to parse array; expected %q at offset %d", ']', 0)
 	}
 
@@ -80,18 +87,21 @@ Open:
 		switch src[i] {
 		case '[':
 			depth++
-			i++
+			i = skipSpaces(src, i+1)
 		case ']':
+			if depth > 1 {
+				return nil, nil, fmt.Errorf("sqltype: unable to parse array; unexpected %q at offset %d", src[i], i)
+			}
 			elems = make([][]byte, 0)
 			goto Close
 		default:
 			break Open
 		}
 	}
-	dims = make([]int, i)
+	dims = make([]int, depth)
 
 Element:
-	for i < len(src) {
+	for i = skipSpaces(src, i); i < len(src); {
 		switch src[i] {
 		case '[':
 			if depth == len(dims) {
@@ -99,23 +109,21 @@ Element:
 			}
 			depth++
 			dims[depth-1] = 0
-			i++
+			i = skipSpaces(src, i+1)
 		case '"':
-			var elem = []byte{}
+			// The element keeps its quotes, so that "null" and null can be told apart
+			var start = i
 			var escape bool
 			for i++; i < len(src); i++ {
 				if escape {
-					elem = append(elem, src[i])
 					escape = false
 				} else {
 					switch src[i] {
-					default:
-						elem = append(elem, src[i])
 					case '\\':
 						escape = true
 					case '"':
-						elems = append(elems, elem)
 						i++
+						elems = append(elems, src[start:i])
 						break Element
 					}
 				}
@@ -123,11 +131,11 @@ Element:
 		default:
 			for start := i; i < len(src); i++ {
 				if bytes.HasPrefix(src[i:], del) || src[i] == ']' {
-					elem := src[start:i]
+					elem := bytes.TrimRight(src[start:i], spaces)
 					if len(elem) == 0 {
 						return nil, nil, fmt.Errorf("sqltype: unable to parse array; unexpected %q at offset %d", src[i], i)
 					}
-					if bytes.Equal(elem, []byte("NULL")) {
+					if bytes.Equal(elem, []byte("null")) || bytes.Equal(elem, []byte("NULL")) {
 						elem = nil
 					}
 					elems = append(elems, elem)
@@ -137,7 +145,7 @@ Element:
 		}
 	}
 
-	for i < len(src) {
+	for i = skipSpaces(src, i); i < len(src); {
 		if bytes.HasPrefix(src[i:], del) && depth > 0 {
 			dims[depth-1]++
 			i += len(del)
@@ -145,7 +153,7 @@ Element:
 		} else if src[i] == ']' && depth > 0 {
 			dims[depth-1]++
 			depth--
-			i++
+			i = skipSpaces(src, i+1)
 		} else {
 			return nil, nil, fmt.Errorf("sqltype: unable to parse array; unexpected %q at offset %d", src[i], i)
 		}
@@ -155,7 +163,7 @@ Close:
 	for i < len(src) {
 		if src[i] == ']' && depth > 0 {
 			depth--
-			i++
+			i = skipSpaces(src, i+1)
 		} else {
 			return nil, nil, fmt.Errorf("sqltype: unable to parse array; unexpected %q at offset %d", src[i], i)
 		}
@@ -184,19 +192,86 @@ func scanLinearArray(src, del []byte, typ string) (elems [][]byte, err error) {
 	return elems, err
 }
 
-func appendArrayQuotedBytes(b, v []byte) []byte {
+// spaces are the insignificant white spaces of JSON
+const spaces = " \t\r\n"
+
+func skipSpaces(src []byte, i int) int {
+	for i < len(src) && strings.IndexByte(spaces, src[i]) >= 0 {
+		i++
+	}
+	return i
+}
+
+// appendQuotedString appends the string as a JSON string.
+func appendQuotedString(b []byte, v string) []byte {
+	const hex = "0123456789abcdef"
+
 	b = append(b, '"')
-	for {
-		i := bytes.IndexAny(v, `"\`)
-		if i < 0 {
-			b = append(b, v...)
-			break
-		}
-		if i > 0 {
-			b = append(b, v[:i]...)
+	for i := 0; i < len(v); i++ {
+		switch c := v[i]; {
+		case c == '"' || c == '\\':
+			b = append(b, '\\', c)
+		case c < 0x20:
+			b = append(b, `\u00`...)
+			b = append(b, hex[c>>4], hex[c&0xf])
+		default:
+			b = append(b, c)
 		}
-		b = append(b, '\\', v[i])
-		v = v[i+1:]
 	}
 	return append(b, '"')
 }
+
+// unquoteString returns the value of a JSON string.
+func unquoteString(v []byte) (string, error) {
+	if len(v) < 2 || v[0] != '"' || v[len(v)-1] != '"' {
+		return "", fmt.Errorf("invalid string %q", v)
+	}
+
+	v = v[1 : len(v)-1]
+	b := make([]byte, 0, len(v))
+	for i := 0; i < len(v); i++ {
+		if v[i] != '\\' || i+1 >= len(v) {
+			b = append(b, v[i])
+			continue
+		}
+		i++
+		switch v[i] {
+		case 'b':
+			b = append(b, '\b')
+		case 'f':
+			b = append(b, '\f')
+		case 'n':
+			b = append(b, '\n')
+		case 'r':
+			b = append(b, '\r')
+		case 't':
+			b = append(b, '\t')
+		case 'u':
+			r, ok := parseHex4(v[i+1:])
+			if !ok {
+				return "", fmt.Errorf("invalid escape in string %q", v)
+			}
+			i += 4
+			if utf16.IsSurrogate(r) {
+				if bytes.HasPrefix(v[i+1:], []byte(`\u`)) {
+					if r2, ok := parseHex4(v[i+3:]); ok && utf16.DecodeRune(r, r2) != utf8.RuneError {
+						r = utf16.DecodeRune(r, r2)
+						i += 6
+					}
+				}
+			}
+			b = utf8.AppendRune(b, r)
+		default:
+			b = append(b, v[i])
+		}
+	}
+	return string(b), nil
+}
+
+func parseHex4(v []byte) (rune, bool) {
+	if len(v) < 4 {
+		return 0, false
+	}
+	n, err := strconv.ParseUint(string(v[:4]), 16, 16)
+	return rune(n), err == nil
+}
-- 
2.43.0


From 4c4c9016fcefa323c0a3d2a5f9ac4ad54184b8be Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:22:40 +0000
Subject: [PATCH 10/49] fix: range check the elements of PostgreSQL integer
 arrays

---
 sequel/driver/postgres/pgtype/array.go      | 23 +++++++++++---
 sequel/driver/postgres/pgtype/int_array.go  | 16 +++++-----
 sequel/driver/postgres/pgtype/uint_array.go | 34 ++++++++++++++++++---
 3 files changed, 56 insertions(+), 17 deletions(-)

diff --git a/sequel/driver/postgres/pgtype/array.go b/sequel/driver/postgres/pgtype/array.go
index 69715f2..1cd5192 100644
--- a/sequel/driver/postgres/pgtype/array.go
+++ b/sequel/driver/postgres/pgtype/array.go
@@ -8,13 +8,25 @@ import (
 	"strings"
 )
 
-func arrayScan[T ~int | ~int8 | ~int16 | ~int32 | ~int64 |
-	~uint | ~uint8 | ~uint16 | ~uint32 | ~uint64 | ~uintptr, Arr interface{ ~[]T }](a *Arr, src any, t string) error {
+func arrayScan[T ~int | ~int8 | ~int16 | ~int32 | ~int64, Arr interface{ ~[]T }](bitSize int, a *Arr, src any, t string) error {
 	switch src := src.(type) {
 	case []byte:
-		return scanBytes(a, src, t)
+		return scanBytes(bitSize, a, src, t)
 	case string:
-		return scanBytes(a, ([]byte)(src), t)
+		return scanBytes(bitSize, a, ([]byte)(src), t)
+	case nil:
+		*a = nil
+		return nil
+	}
+	return fmt.Errorf("pgtype: cannot convert %T to %s", src, t)
+}
+
+func arrayUScan[T ~uint | ~uint8 | ~uint16 | ~uint32 | ~uint64 | ~uintptr, Arr interface{ ~[]T }](bitSize int, a *Arr, src any, t string) error {
+	switch src := src.(type) {
+	case []byte:
+		return scanUBytes(bitSize, a, src, t)
+	case string:
+		return scanUBytes(bitSize, a, ([]byte)(src), t)
 	case nil:
 		*a = nil
 		return nil
@@ -86,6 +98,9 @@ Open:
 			depth++
 			i++
 		case '}':
+			if depth > 1 {
+				return nil, nil, fmt.Errorf("pgtype: unable to parse array; unexpected %q at offset %d", src[i], i)
+			}
 			elems = make([][]byte, 0)
 			goto Close
 		default:
diff --git a/sequel/driver/postgres/pgtype/int_array.go b/sequel/driver/postgres/pgtype/int_array.go
index d0593aa..19cea76 100644
--- a/sequel/driver/postgres/pgtype/int_array.go
+++ b/sequel/driver/postgres/pgtype/int_array.go
@@ -3,6 +3,7 @@ package pgtype
 import (
 	"database/sql/driver"
 	"fmt"
+	"math/bits"
 	"strconv"
 	"unsafe"
 )
@@ -23,7 +24,7 @@ func (a IntArray[T]) Value() (driver.Value, error) {
 
 // Scan implements the sql.Scanner interface.
 func (a *IntArray[T]) Scan(src any) error {
-	return arrayScan(a, src, "IntArray")
+	return arrayScan(bits.UintSize, a, src, "IntArray")
 }
 
 // Value implements the driver.Valuer interface.
@@ -33,7 +34,7 @@ func (a Int8Array[T]) Value() (driver.Value, error) {
 
 // Scan implements the sql.Scanner interface.
 func (a *Int8Array[T]) Scan(src any) error {
-	return arrayScan(a, src, "Int8Array")
+	return arrayScan(8, a, src, "Int8Array")
 }
 
 // Value implements the driver.Valuer interface.
@@ -43,7 +44,7 @@ func (a Int16Array[T]) Value() (driver.Value, error) {
 
 // Scan implements the sql.Scanner interface.
 func (a *Int16Array[T]) Scan(src any) error {
-	return arrayScan(a, src, "Int16Array")
+	return arrayScan(16, a, src, "Int16Array")
 }
 
 // Value implements the driver.Valuer interface.
@@ -53,7 +54,7 @@ func (a Int32Array[T]) Value() (driver.Value, error) {
 
 // Scan implements the sql.Scanner interface.
 func (a *Int32Array[T]) Scan(src any) error {
-	return arrayScan(a, src, "Int32Array")
+	return arrayScan(32, a, src, "Int32Array")
 }
 
 // Value implements the driver.Valuer interface.
@@ -63,11 +64,10 @@ func (a Int64Array[T]) Value() (driver.Value, error) {
 
 // Scan implements the sql.Scanner interface.
 func (a *Int64Array[T]) Scan(src any) error {
-	return arrayScan(a, src, "Int64Array")
+	return arrayScan(64, a, src, "Int64Array")
 }
 
-func scanBytes[T ~int | ~int8 | ~int16 | ~int32 | ~int64 |
-	~uint | ~uint8 | ~uint16 | ~uint32 | ~uint64 | ~uintptr, Arr interface{ ~[]T }](a *Arr, src []byte, t string) error {
+func scanBytes[T ~int | ~int8 | ~int16 | ~int32 | ~int64, Arr interface{ ~[]T }](bitSize int, a *Arr, src []byte, t string) error {
 	elems, err := scanLinearArray(src, []byte{','}, t)
 	if err != nil {
 		return err
@@ -77,7 +77,7 @@ func scanBytes[T ~int | ~int8 | ~int16 | ~int32 | ~int64 |
 	} else {
 		b := make([]T, len(elems))
 		for i, v := range elems {
-			n, err := strconv.ParseInt(unsafe.String(unsafe.SliceData(v), len(v)), 10, 64)
+			n, err := strconv.ParseInt(unsafe.String(unsafe.SliceData(v), len(v)), 10, bitSize)
 			if err != nil {
 				return fmt.Errorf("pgtype: parsing array element index %d: %v", i, err)
 			}
diff --git a/sequel/driver/postgres/pgtype/uint_array.go b/sequel/driver/postgres/pgtype/uint_array.go
index 6fddf59..952ecdc 100644
--- a/sequel/driver/postgres/pgtype/uint_array.go
+++ b/sequel/driver/postgres/pgtype/uint_array.go
@@ -2,6 +2,9 @@ package pgtype
 
 import (
 	"database/sql/driver"
+	"fmt"
+	"strconv"
+	"unsafe"
 )
 
 // Uint64Array represents a one-dimensional array of the PostgreSQL integer types.
@@ -20,7 +23,7 @@ func (a UintArray[T]) Value() (driver.Value, error) {
 
 // Scan implements the sql.Scanner interface.
 func (a *UintArray[T]) Scan(src any) error {
-	return arrayScan(a, src, "UintArray")
+	return arrayUScan(int(unsafe.Sizeof(T(0)))*8, a, src, "UintArray")
 }
 
 // Value implements the driver.Valuer interface.
@@ -30,7 +33,7 @@ func (a Uint8Array[T]) Value() (driver.Value, error) {
 
 // Scan implements the sql.Scanner interface.
 func (a *Uint8Array[T]) Scan(src any) error {
-	return arrayScan(a, src, "Uint8Array")
+	return arrayUScan(8, a, src, "Uint8Array")
 }
 
 // Value implements the driver.Valuer interface.
@@ -40,7 +43,7 @@ func (a Uint16Array[T]) Value() (driver.Value, error) {
 
 // Scan implements the sql.Scanner interface.
 func (a *Uint16Array[T]) Scan(src any) error {
-	return arrayScan(a, src, "Uint16Array")
+	return arrayUScan(16, a, src, "Uint16Array")
 }
 
 // Value implements the driver.Valuer interface.
@@ -50,7 +53,7 @@ func (a Uint32Array[T]) Value() (driver.Value, error) {
 
 // Scan implements the sql.Scanner interface.
 func (a *Uint32Array[T]) Scan(src any) error {
-	return arrayScan(a, src, "Uint32Array")
+	return arrayUScan(32, a, src, "Uint32Array")
 }
 
 // Value implements the driver.Valuer interface.
@@ -60,5 +63,26 @@ func (a Uint64Array[T]) Value() (driver.Value, error) {
 
 // Scan implements the sql.Scanner interface.
 func (a *Uint64Array[T]) Scan(src any) error {
-	return arrayScan(a, src, "Uint64Array")
+	return arrayUScan(64, a, src, "Uint64Array")
+}
+
+func scanUBytes[T ~uint | ~uint8 | ~uint16 | ~uint32 | ~uint64 | ~uintptr, Arr interface{ ~[]T }](bitSize int, a *Arr, src []byte, t string) error {
+	elems, err := scanLinearArray(src, []byte{','}, t)
+	if err != nil {
+		return err
+	}
+	if *a != nil && len(elems) == 0 {
+		*a = (*a)[:0]
+	} else {
+		b := make([]T, len(elems))
+		for i, v := range elems {
+			n, err := strconv.ParseUint(unsafe.String(unsafe.SliceData(v), len(v)), 10, bitSize)
+			if err != nil {
+				return fmt.Errorf("pgtype: parsing array element index %d: %v", i, err)
+			}
+			b[i] = T(n)
+		}
+		*a = b
+	}
+	return nil
 }
-- 
2.43.0


From fe3d9b04ce13309414d028ea58f16a874ad430db Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:22:48 +0000
Subject: [PATCH 11/49] fix: print exact JSON from the list marshalling helpers

---
 sequel/encoding/marshaler.go | 17 ++++++++++++-----
 1 file changed, 12 insertions(+), 5 deletions(-)

diff --git a/sequel/encoding/marshaler.go b/sequel/encoding/marshaler.go
index b7932bf..bd956bf 100644
--- a/sequel/encoding/marshaler.go
+++ b/sequel/encoding/marshaler.go
@@ -1,6 +1,7 @@
 package encoding
 
 import (
+	"encoding/json"
 	"strconv"
 	"time"
 
@@ -11,9 +12,9 @@ func MarshalStringSlice[V ~[]byte | ~string](list []V) string {
 	if n := len(list); n > 0 {
 		blr := strpool.AcquireString()
 		defer strpool.ReleaseString(blr)
-		blr.WriteString("[" + strconv.Quote((string)(list[0])))
+		blr.WriteString("[" + quoteString((string)(list[0])))
 		for i := 1; i < n; i++ {
-			blr.WriteString("," + strconv.Quote((string)(list[i])))
+			blr.WriteString("," + quoteString((string)(list[i])))
 		}
 		blr.WriteByte(']')
 		return blr.String()
@@ -65,7 +66,7 @@ func MarshalBoolSlice[V ~bool](list []V) string {
 
 func MarshalFloat64List[V ~float64](list []V, prec ...int) string {
 	if n := len(list); n > 0 {
-		var p int
+		var p = -1
 		if len(prec) > 0 {
 			p = prec[0]
 		}
@@ -85,12 +86,18 @@ func MarshalTimeList[V time.Time](list []V) string {
 	if n := len(list); n > 0 {
 		blr := strpool.AcquireString()
 		defer strpool.ReleaseString(blr)
-		blr.WriteString("[" + (time.Time)(list[0]).Format(strconv.Quote(time.RFC3339)))
+		blr.WriteString("[" + (time.Time)(list[0]).Format(strconv.Quote(time.RFC3339Nano)))
 		for i := 1; i < n; i++ {
-			blr.WriteString("," + (time.Time)(list[i]).Format(strconv.Quote(time.RFC3339)))
+			blr.WriteString("," + (time.Time)(list[i]).Format(strconv.Quote(time.RFC3339Nano)))
 		}
 		blr.WriteByte(']')
 		return blr.String()
 	}
 	return "[]"
 }
+
+// quoteString returns the string as a JSON string
+func quoteString(s string) string {
+	b, _ := json.Marshal(s)
+	return string(b)
+}
-- 
2.43.0


From b61be5826000d087c519b0e2240e76bac21e2a28 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:23:02 +0000
Subject: [PATCH 12/49] fix: scan text and NULL into binary values

---
 sequel/types/binary.go | 18 +++++++++++++++++-
 1 file changed, 17 insertions(+), 1 deletion(-)

diff --git a/sequel/types/binary.go b/sequel/types/binary.go
index 8a161f1..be97fc0 100644
--- a/sequel/types/binary.go
+++ b/sequel/types/binary.go
@@ -40,8 +40,24 @@ func BinaryUnmarshaler[T any, Ptr interface {
 func (b binaryUnmarshaler[T, Ptr]) Scan(v any) error {
 	switch vi := v.(type) {
 	case []byte:
-		return b.v.UnmarshalBinary(vi)
+		return b.unmarshal(vi)
+	case string:
+		return b.unmarshal([]byte(vi))
+	case nil:
+		var zero T
+		*b.v = zero
+		return nil
 	default:
 		return fmt.Errorf(`sequel/types: binary must be []byte`)
 	}
 }
+
+// unmarshal decodes into a new value, so that nothing of the old value is left.
+func (b binaryUnmarshaler[T, Ptr]) unmarshal(data []byte) error {
+	var v T
+	if err := Ptr(&v).UnmarshalBinary(data); err != nil {
+		return err
+	}
+	*b.v = v
+	return nil
+}
-- 
2.43.0


From f9d5882518e39d17871c9b4da3cdf7cf98a112ea Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:26:50 +0000
Subject: [PATCH 13/49] fix: reject stray quotes and brackets in PostgreSQL
 arrays

---
 sequel/driver/postgres/pgtype/array.go | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/sequel/driver/postgres/pgtype/array.go b/sequel/driver/postgres/pgtype/array.go
index 1cd5192..1fdb330 100644
--- a/sequel/driver/postgres/pgtype/array.go
+++ b/sequel/driver/postgres/pgtype/array.go
@@ -141,6 +141,9 @@ Element:
 			}
 		default:
 			for start := i; i < len(src); i++ {
+				if src[i] == '"' || src[i] == '{' {
+					return nil, nil, fmt.Errorf("pgtype: unable to parse array; unexpected %q at offset %d", src[i], i)
+				}
 				if bytes.HasPrefix(src[i:], del) || src[i] == '}' {
 					elem := src[start:i]
 					if len(elem) == 0 {
-- 
2.43.0


From aa1fda65dd69afe83df056566247fb60aa047e55 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:33:17 +0000
Subject: [PATCH 14/49] fix: copy the bytes which are owned by the driver on
 scan

---
 sequel/encoding/string.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/sequel/encoding/string.go b/sequel/encoding/string.go
index 572406e..502af87 100644
--- a/sequel/encoding/string.go
+++ b/sequel/encoding/string.go
@@ -54,7 +54,7 @@ func (s *strScanner[T, Ptr]) Scan(v any) error {
 			panic("unreachable")
 		}
 	case []byte:
-		val := T(vi)
+		val := T(string(vi)) // The driver owns the bytes, so it have to be copied
 		switch any(s.addr).(type) {
 		case **T:
 			*(**T)(unsafe.Pointer(s.addr)) = &val
-- 
2.43.0


From 127092541615c1c6ecd15f103d2e5708ae476214 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:54:16 +0000
Subject: [PATCH 15/49] fix: print the types of several packages and named
 slices in the generated code

---
 cmd/sqlgen/codegen/expr.go     | 32 +++++++++++++++++---------------
 cmd/sqlgen/codegen/generate.go | 17 ++++-------------
 cmd/sqlgen/codegen/package.go  | 10 ++++++++++
 3 files changed, 31 insertions(+), 28 deletions(-)

diff --git a/cmd/sqlgen/codegen/expr.go b/cmd/sqlgen/codegen/expr.go
index e6468be..c54b29c 100644
--- a/cmd/sqlgen/codegen/expr.go
+++ b/cmd/sqlgen/codegen/expr.go
@@ -54,15 +54,14 @@ func (e Expr) Format(pkg *Package, args ...ExprParams) string {
 			return params.GoPath
 		},
 		"elemType": func() string {
-			switch t := params.Type.(type) {
+			t := baseType(params.Type)
+			switch ut := t.Underlying().(type) {
 			case *types.Array:
-				return importPkgIfNeeded(pkg, t.Elem().String())
+				return pkg.TypeString(ut.Elem())
 			case *types.Slice:
-				return importPkgIfNeeded(pkg, t.Elem().String())
-			case *types.Pointer:
-				return importPkgIfNeeded(pkg, t.Elem().String())
+				return pkg.TypeString(ut.Elem())
 			default:
-				return importPkgIfNeeded(pkg, params.Type.String())
+				return pkg.TypeString(t)
 			}
 		},
 		"addrOfGoPath": func() string {
@@ -72,15 +71,7 @@ func (e Expr) Format(pkg *Package, args ...ExprParams) string {
 			return "&" + params.GoPath
 		},
 		"baseType": func() string {
-			t := params.Type
-			for t != nil {
-				nt, ok := t.(*types.Pointer)
-				if !ok {
-					break
-				}
-				t = nt.Elem()
-			}
-			return importPkgIfNeeded(pkg, t.String())
+			return pkg.TypeString(baseType(params.Type))
 		},
 		"addr": func() string {
 			return "&" + params.GoPath
@@ -106,6 +97,17 @@ func (e Expr) Format(pkg *Package, args ...ExprParams) string {
 	return str
 }
 
+// baseType is the type without the pointers
+func baseType(t types.Type) types.Type {
+	for {
+		v, ok := t.(*types.Pointer)
+		if !ok {
+			return t
+		}
+		t = v.Elem()
+	}
+}
+
 func importPkgIfNeeded(pkg *Package, importPath string) string {
 	matches := pkgRegexp.FindStringSubmatch(importPath)
 	if len(matches) > 0 {
diff --git a/cmd/sqlgen/codegen/generate.go b/cmd/sqlgen/codegen/generate.go
index f6b8f4a..819fd61 100644
--- a/cmd/sqlgen/codegen/generate.go
+++ b/cmd/sqlgen/codegen/generate.go
@@ -300,10 +300,7 @@ func (g *Generator) generateModels(
 				typeStr = aliasname
 
 			default:
-				typeStr = f.Type.String()
-				if idx := strings.Index(typeStr, "."); idx > 0 {
-					typeStr = Expr(typeStr).Format(importPkgs)
-				}
+				typeStr = importPkgs.TypeString(f.Type)
 				if isBasic {
 					fprintfln(w, "func (v %s) %s() sequel.ColumnClause[%s] {", t.GoName, g.config.Getter.Prefix+f.GoName, typeStr)
 				} else {
@@ -461,7 +458,7 @@ func (g *Generator) buildScanner(w io.Writer, importPkgs *Package, table *compil
 	fprintfln(w, "func (v *%s) %s() []any {", table.GoName, methodName(sqlScanner))
 	for _, f := range table.GoPtrPaths() {
 		fprintfln(w, "if v%s == nil {", f.GoPath)
-		fmt.Fprintf(w, `v%s = new(%s)`, f.GoPath, Expr(strings.TrimPrefix(f.Type.String(), "*")).Format(importPkgs, ExprParams{}))
+		fmt.Fprintf(w, `v%s = new(%s)`, f.GoPath, importPkgs.TypeString(assertAsPtr[types.Pointer](f.Type).Elem()))
 		fprintfln(w, "}")
 	}
 	fprintfln(w, "return []any{")
@@ -781,10 +778,7 @@ func printStruct(w io.Writer, importPkgs *Package, s *types.Struct) {
 				fmt.Fprint(w, f.Name()+" ")
 				printStruct(w, importPkgs, ft)
 			} else {
-				typeStr := f.Type().String()
-				if idx := strings.Index(typeStr, "."); idx > 0 {
-					typeStr = Expr(typeStr).Format(importPkgs)
-				}
+				typeStr := importPkgs.TypeString(f.Type())
 				fmt.Fprint(w, f.Name()+" "+typeStr)
 				if tag := s.Tag(i); len(tag) > 0 {
 					fmt.Fprintf(w, " `%s`", s.Tag(i))
@@ -792,10 +786,7 @@ func printStruct(w io.Writer, importPkgs *Package, s *types.Struct) {
 				fmt.Fprintln(w)
 			}
 		default:
-			typeStr := f.Type().String()
-			if idx := strings.Index(typeStr, "."); idx > 0 {
-				typeStr = Expr(typeStr).Format(importPkgs)
-			}
+			typeStr := importPkgs.TypeString(f.Type())
 			if f.Embedded() {
 				fmt.Fprint(w, typeStr)
 			} else {
diff --git a/cmd/sqlgen/codegen/package.go b/cmd/sqlgen/codegen/package.go
index cf312f3..43994a1 100644
--- a/cmd/sqlgen/codegen/package.go
+++ b/cmd/sqlgen/codegen/package.go
@@ -54,6 +54,16 @@ func (p *Package) Import(pkg *types.Package) (*types.Package, bool) {
 	return pkg, true
 }
 
+// TypeString prints the type as it is written in this package, and imports every package it refers to
+func (p *Package) TypeString(t types.Type) string {
+	return types.TypeString(t, func(pkg *types.Package) string {
+		if v, _ := p.Import(types.NewPackage(pkg.Path(), pkg.Name())); v != nil {
+			return v.Name()
+		}
+		return ""
+	})
+}
+
 func (p *Package) newAliasIfExists(pkg *types.Package) string {
 	pkgName, newPkgName := pkg.Name(), pkg.Name()
 	for i := 1; ; i++ {
-- 
2.43.0


From f5515a31a68f554b4bcace4138b0da9896a256fa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:32:20 +0000
Subject: [PATCH 16/49] fix: resolve the model fields by their types

Fields declared together, embedded structs which are aliases, defined from
other structs or generic, excluded embedded structs, annotations of grouped
types and types local to a function were lost or mixed up. Auto increment
fields which are not integers and defined pointer types are refused.
---
 cmd/sqlgen/internal/compiler/compiler.go |  24 +-
 cmd/sqlgen/internal/compiler/parser.go   | 306 +++++++----------------
 2 files changed, 95 insertions(+), 235 deletions(-)

diff --git a/cmd/sqlgen/internal/compiler/compiler.go b/cmd/sqlgen/internal/compiler/compiler.go
index 629a7b8..f71a6d2 100644
--- a/cmd/sqlgen/internal/compiler/compiler.go
+++ b/cmd/sqlgen/internal/compiler/compiler.go
@@ -163,20 +163,20 @@ func (c *Column) Size() uint8 {
 type structCache struct {
 	name *ast.Ident
 	doc  *ast.CommentGroup
-	t    *ast.StructType
-	pkg  *packages.Package
+	t    *types.Struct
 }
 
 type structField struct {
 	name string
 	t    types.Type
 
-	index    []int
 	exported bool
 	embedded bool
-	parent   *structField
-	tag      reflect.StructTag
-	paths    []*structField
+	// The embedded field which can't be referred to in this package
+	hidden bool
+	parent *structField
+	tag    reflect.StructTag
+	paths  []*structField
 }
 
 type FieldPath struct {
@@ -224,21 +224,15 @@ func (s *structField) fieldPaths() []*structField {
 	s.paths = append(s.paths, s)
 	p := s.parent
 	for p != nil {
-		s.paths = append(s.paths, p)
+		if !p.hidden {
+			s.paths = append(s.paths, p)
+		}
 		p = p.parent
 	}
 	reverse(s.paths)
 	return s.paths
 }
 
-type typeQueue struct {
-	idx  []int
-	prev *structField
-	doc  *ast.CommentGroup
-	t    *ast.StructType
-	pkg  *packages.Package
-}
-
 func reverse[S ~[]E, E any](s S) {
 	for i, j := 0, len(s)-1; i < j; i, j = i+1, j-1 {
 		s[i], s[j] = s[j], s[i]
diff --git a/cmd/sqlgen/internal/compiler/parser.go b/cmd/sqlgen/internal/compiler/parser.go
index 1ff95d0..2f1273c 100644
--- a/cmd/sqlgen/internal/compiler/parser.go
+++ b/cmd/sqlgen/internal/compiler/parser.go
@@ -5,7 +5,6 @@ import (
 	"go/ast"
 	"go/token"
 	"go/types"
-	"log"
 	"reflect"
 	"regexp"
 	"sort"
@@ -100,40 +99,21 @@ func Parse(dir string, cfg *Config) (*Package, error) {
 				// ```go
 				// type A = time.Time
 				// ```
-				switch t := typeSpec.Type.(type) {
-				case *ast.StructType:
-					structCaches = append(structCaches, structCache{name: typeSpec.Name, doc: genDecl.Doc, t: t, pkg: pkg})
-
-				case *ast.SelectorExpr:
-					var (
-						pkgPath   = pkg.TypesInfo.ObjectOf(t.Sel).Pkg()
-						importPkg = pkg.Imports[pkgPath.Path()]
-						obj       *ast.Object
-					)
-
-					for i := range importPkg.Syntax {
-						obj = importPkg.Syntax[i].Scope.Lookup(t.Sel.Name)
-						if obj != nil {
-							break
-						}
-					}
-
-					// Skip if unable to find the specific object
-					if obj == nil {
-						continue
-					}
-
-					decl := assertAsPtr[ast.TypeSpec](obj.Decl)
-					if decl == nil {
+				switch typeSpec.Type.(type) {
+				case *ast.StructType, *ast.SelectorExpr:
+					// Struct without type parameters, and not declared in a function
+					st, ok := objType.Type().Underlying().(*types.Struct)
+					if !ok || typeSpec.TypeParams != nil || objType.Parent() != pkg.Types.Scope() {
 						continue
 					}
-
-					if v := assertAsPtr[ast.StructType](decl.Type); v != nil {
-						structCaches = append(structCaches, structCache{name: typeSpec.Name, doc: genDecl.Doc, t: v, pkg: importPkg})
+					doc := typeSpec.Doc
+					if doc == nil {
+						doc = genDecl.Doc
 					}
+					structCaches = append(structCaches, structCache{name: typeSpec.Name, doc: doc, t: st})
 
 				default:
-					return true
+					continue
 				}
 			}
 			return true
@@ -160,191 +140,11 @@ func Parse(dir string, cfg *Config) (*Package, error) {
 	for len(structCaches) > 0 {
 		// Pop the first item for further inspection
 		s := structCaches[0]
-		// Struct queue, this is useful when handling embedded struct
-		q := []typeQueue{{t: s.t, doc: s.doc, pkg: s.pkg}}
-		structFields := make([]*structField, 0)
-
-		var f typeQueue
-		// Resolve every field on the struct, including nested struct
-		for len(q) > 0 {
-			f = q[0]
-
-			// If the struct has empty field, just skip
-			if len(f.t.Fields.List) == 0 {
-				goto nextQueue
-			}
-
-			// Loop every struct field
-			for i := range f.t.Fields.List {
-				var tag reflect.StructTag
-				fi := f.t.Fields.List[i]
-				if fi.Tag != nil {
-					// Trim backtick
-					tag = reflect.StructTag(strings.TrimFunc(fi.Tag.Value, func(r rune) bool {
-						return r == '`'
-					}))
-				}
-
-				// If the field is embedded struct
-				// `Type` can be either *ast.Ident or *ast.SelectorExpr
-				if fi.Names == nil {
-					t := fi.Type
-
-					// If it's an embedded struct with pointer
-					// we need to get the underlying type
-					if ut := assertAsPtr[ast.StarExpr](fi.Type); ut != nil {
-						t = ut.X
-					}
-
-					switch vi := t.(type) {
-					// Local struct
-					case *ast.Ident:
-						// Object is nil when it's not found in current scope (different file)
-						obj := vi.Obj
-						if vi.Obj == nil {
-							// Since it's a local struct, we will find it in the local module files
-							for i := range f.pkg.Syntax {
-								obj = f.pkg.Syntax[i].Scope.Lookup(vi.Name)
-								// exit when found the struct
-								if obj != nil {
-									break
-								}
-							}
-						}
-						// After lookup still cannot find the type, then skip
-						if obj == nil {
-							continue
-						}
-
-						t := obj.Decl.(*ast.TypeSpec)
-						switch t.Type.(type) {
-						case *ast.StructType:
-							ft := &structField{
-								name:  types.ExprString(vi),
-								t:     f.pkg.TypesInfo.TypeOf(fi.Type),
-								index: append(f.idx, i),
-								// paths:    append(f.paths, path),
-								exported: vi.IsExported(),
-								embedded: true,
-								parent:   f.prev,
-								tag:      tag,
-							}
-							structFields = append(structFields, ft)
-
-							q = append(q, typeQueue{
-								idx:  append(f.idx, i),
-								prev: ft,
-								t:    t.Type.(*ast.StructType),
-								pkg:  f.pkg,
-							})
-							continue
-						case *ast.ArrayType:
-							continue
-						}
-
-					// Embedded with imported struct
-					case *ast.SelectorExpr:
-						var (
-							t         = f.pkg.TypesInfo.TypeOf(vi)
-							pkgPath   = t.String()
-							idx       = strings.LastIndex(pkgPath, ".")
-							importPkg = f.pkg.Imports[pkgPath[:idx]]
-							obj       *ast.Object
-						)
-
-						for i := range importPkg.Syntax {
-							obj = importPkg.Syntax[i].Scope.Lookup(vi.Sel.Name)
-							if obj != nil {
-								break
-							}
-						}
-
-						// Skip if unable to find the specific object
-						if obj == nil {
-							continue
-						}
-
-						decl := assertAsPtr[ast.TypeSpec](obj.Decl)
-						if decl == nil {
-							continue
-						}
-
-						// If it's a embedded struct, we continue on next loop
-						if st := assertAsPtr[ast.StructType](decl.Type); st != nil {
-							ft := &structField{
-								name:     types.ExprString(vi.Sel),
-								t:        f.pkg.TypesInfo.TypeOf(fi.Type),
-								index:    append(f.idx, i),
-								exported: vi.Sel.IsExported(),
-								embedded: true,
-								parent:   f.prev,
-								tag:      tag,
-							}
-
-							q = append(q, typeQueue{
-								idx:  append(f.idx, i),
-								t:    st,
-								prev: ft,
-								pkg:  importPkg,
-							})
-							structFields = append(structFields, ft)
-						}
-						continue
-					}
-				}
-
-				// Every struct field
-				switch fv := fi.Type.(type) {
-				// Imported types
-				case *ast.SelectorExpr:
-					// If the field type is a Go imported enum,
-					// we will inspect it
-					importPkg, ok := f.pkg.Imports[types.ExprString(fv.X)]
-					if ok {
-						log.Println(importPkg)
-						// 	for _, file := range importPkg.Syntax {
-						// 		ast.Inspect(file, func(n ast.Node) bool {
-						// 			mapEnumIfExists(importPkg, n, enumMap)
-						// 			return true
-						// 		})
-						// 	}
-					}
-
-				// Local types
-				case *ast.Ident:
-					if fv.Obj != nil {
-
-					}
-				}
-
-				for j, n := range fi.Names {
-					structFields = append(structFields, &structField{
-						name:     types.ExprString(n),
-						t:        f.pkg.TypesInfo.TypeOf(fi.Type),
-						index:    append(f.idx, i+j),
-						exported: n.IsExported(),
-						parent:   f.prev,
-						tag:      tag,
-					})
-				}
-			}
-
-		nextQueue:
-			q = q[1:]
+		structFields, err := flattenFields(pkg.Types, s.t, cfg.Tag, nil)
+		if err != nil {
+			return nil, fmt.Errorf("sqlgen: struct %q %w", s.name, err)
 		}
 
-		sort.Slice(structFields, func(i, j int) bool {
-			for k, f := range structFields[i].index {
-				if k >= len(structFields[j].index) {
-					return false
-				}
-				if f != structFields[j].index[k] {
-					return f < structFields[j].index[k]
-				}
-			}
-			return len(structFields[i].index) < len(structFields[j].index)
-		})
-
 		table := &Table{
 			GoName: types.ExprString(s.name),
 			Name:   cfg.RenameFunc(types.ExprString(s.name)),
@@ -356,12 +156,12 @@ func Parse(dir string, cfg *Config) (*Package, error) {
 		pos := 0
 
 		if s.doc != nil {
-			comment := f.doc.Text()
+			comment := s.doc.Text()
 			if annotationRegexp.MatchString(comment) {
 				annotations := annotationRegexp.FindStringSubmatch(comment)
 				flags := strings.Split(annotations[1], ",")
 				for len(flags) > 0 {
-					switch flags[0] {
+					switch strings.TrimSpace(flags[0]) {
 					case "readonly":
 						table.Readonly = true
 					case "ignore":
@@ -374,10 +174,6 @@ func Parse(dir string, cfg *Config) (*Package, error) {
 		}
 
 		for _, f := range structFields {
-			if ptrCount(f.t) > 1 {
-				return nil, fmt.Errorf(`sqlgen: pointer of pointer is not supported`)
-			}
-
 			var tagPaths []string
 			tagVal := f.tag.Get(cfg.Tag)
 			name := cfg.RenameFunc(f.name)
@@ -416,6 +212,12 @@ func Parse(dir string, cfg *Config) (*Package, error) {
 			if f.embedded {
 				continue
 			}
+			if ptrCount(f.t) > 1 {
+				return nil, fmt.Errorf(`sqlgen: pointer of pointer is not supported`)
+			}
+			if _, ok := f.t.Underlying().(*types.Pointer); ok && !f.IsPtr() {
+				return nil, fmt.Errorf("sqlgen: struct %q has field %q of a defined pointer type, which is not supported", s.name, f.name)
+			}
 
 			if _, ok := nameMap[name]; ok {
 				return nil, fmt.Errorf("sqlgen: struct %q has duplicate column name %q in directory %q", s.name, name, dir)
@@ -437,6 +239,9 @@ func Parse(dir string, cfg *Config) (*Package, error) {
 					if table.autoIncrKey != nil {
 						return nil, fmt.Errorf(`sqlgen: you cannot have multiple auto increment key`)
 					}
+					if b, ok := f.t.Underlying().(*types.Basic); !ok || b.Info()&types.IsInteger == 0 {
+						return nil, fmt.Errorf("sqlgen: struct %q has auto increment field %q which is not an integer", s.name, f.name)
+					}
 					table.autoIncrKey = column
 				} else {
 					table.Keys = append(table.Keys, column)
@@ -462,12 +267,73 @@ func Parse(dir string, cfg *Config) (*Package, error) {
 	return goPkg, nil
 }
 
+// flattenFields returns the fields of the struct in order, the fields of the embedded structs follow their own.
+func flattenFields(pkg *types.Package, st *types.Struct, tagKey string, parent *structField) ([]*structField, error) {
+	fields := make([]*structField, 0, st.NumFields())
+	for i := 0; i < st.NumFields(); i++ {
+		v := st.Field(i)
+		f := &structField{
+			name:     v.Name(),
+			t:        v.Type(),
+			exported: v.Exported(),
+			embedded: v.Embedded(),
+			parent:   parent,
+			tag:      reflect.StructTag(st.Tag(i)),
+		}
+		ptr, isPtr := types.Unalias(v.Type()).(*types.Pointer)
+		if isPtr {
+			f.t = ptr
+		}
+		if !f.embedded {
+			fields = append(fields, f)
+			continue
+		}
+
+		t := v.Type()
+		if isPtr {
+			t = ptr.Elem()
+		}
+		ut, ok := t.Underlying().(*types.Struct)
+		if !ok {
+			continue
+		}
+		// The field is out of reach when it's an unexported type of other package,
+		// but its fields are promoted to the parent
+		f.hidden = !f.exported && v.Pkg() != pkg
+		if f.hidden && isPtr {
+			continue
+		}
+		fields = append(fields, f)
+		if name, _, _ := strings.Cut(f.tag.Get(tagKey), ","); strings.TrimSpace(name) == "-" {
+			continue
+		}
+		for p := parent; p != nil; p = p.parent {
+			if types.Identical(baseType(p.t), baseType(f.t)) {
+				return nil, fmt.Errorf("has recursive embedded struct %q", f.name)
+			}
+		}
+		children, err := flattenFields(pkg, ut, tagKey, f)
+		if err != nil {
+			return nil, err
+		}
+		fields = append(fields, children...)
+	}
+	return fields, nil
+}
+
+func baseType(t types.Type) types.Type {
+	if v, ok := t.(*types.Pointer); ok {
+		t = v.Elem()
+	}
+	return types.Unalias(t)
+}
+
 // This is to count the underlying pointer of a type
 func ptrCount(t types.Type) int {
 	var total int
 loop:
 	for t != nil {
-		if v, ok := t.(*types.Pointer); ok {
+		if v, ok := t.Underlying().(*types.Pointer); ok {
 			total++
 			t = v.Elem()
 		} else {
-- 
2.43.0


From bd56aff0834f585d138e7cc39c20a40b51a1ea84 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:35:55 +0000
Subject: [PATCH 17/49] fix: map every supported field type to a value and
 scanner that match

Pointers of slices and arrays, defined arrays, runes, bytes, PostgreSQL
runes and byte strings, SQLite times and unsigned integers, and codecs with
pointer receivers did not compile or could not be read back.
---
 .../codegen/dialect/mysql/column_type.go      |  6 +-
 .../codegen/dialect/postgres/column_type.go   | 26 ++----
 .../codegen/dialect/sqlite/column_type.go     |  8 +-
 cmd/sqlgen/codegen/expr.go                    |  2 +-
 cmd/sqlgen/codegen/generate.go                | 35 ++++++--
 cmd/sqlgen/codegen/tool.go                    | 26 +++++-
 sequel/encoding/null.go                       | 26 ++++++
 sequel/encoding/rune.go                       | 83 +++++++++++++++++++
 8 files changed, 175 insertions(+), 37 deletions(-)
 create mode 100644 sequel/encoding/null.go
 create mode 100644 sequel/encoding/rune.go

diff --git a/cmd/sqlgen/codegen/dialect/mysql/column_type.go b/cmd/sqlgen/codegen/dialect/mysql/column_type.go
index b188fb9..cae1d59 100644
--- a/cmd/sqlgen/codegen/dialect/mysql/column_type.go
+++ b/cmd/sqlgen/codegen/dialect/mysql/column_type.go
@@ -18,12 +18,12 @@ func (s *mysqlDriver) ColumnDataTypes() map[string]*dialect.ColumnType {
 		"rune": {
 			DataType: s.columnDataType("CHAR(1)"),
 			Valuer:   "(string)({{goPath}})",
-			Scanner:  "{{addrOfGoPath}}",
+			Scanner:  goutil.GenericFuncName(encoding.RuneScanner[rune, *rune], "{{baseType}}", "{{addr}}"),
 		},
 		"byte": {
 			DataType: s.columnDataType("CHAR(1)"),
-			Valuer:   "{{goPath}}",
-			Scanner:  "{{addrOfGoPath}}",
+			Valuer:   "(int64)({{goPath}})",
+			Scanner:  goutil.GenericFuncName(encoding.Uint8Scanner[uint8, *uint8], "{{baseType}}", "{{addr}}"),
 		},
 		"string": {
 			DataType: func(col dialect.GoColumn) string {
diff --git a/cmd/sqlgen/codegen/dialect/postgres/column_type.go b/cmd/sqlgen/codegen/dialect/postgres/column_type.go
index 49ab708..9877183 100644
--- a/cmd/sqlgen/codegen/dialect/postgres/column_type.go
+++ b/cmd/sqlgen/codegen/dialect/postgres/column_type.go
@@ -19,12 +19,12 @@ func (s *postgresDriver) ColumnDataTypes() map[string]*dialect.ColumnType {
 		"rune": {
 			DataType: s.columnDataType("char(1)"),
 			Valuer:   "(string)({{goPath}})",
-			Scanner:  "{{addrOfGoPath}}",
+			Scanner:  goutil.GenericFuncName(encoding.RuneScanner[rune, *rune], "{{baseType}}", "{{addr}}"),
 		},
 		"byte": {
 			DataType: s.columnDataType("char(1)"),
-			Valuer:   "{{goPath}}",
-			Scanner:  "{{addrOfGoPath}}",
+			Valuer:   "(int64)({{goPath}})",
+			Scanner:  goutil.GenericFuncName(encoding.Uint8Scanner[uint8, *uint8], "{{baseType}}", "{{addr}}"),
 		},
 		"string": {
 			DataType: func(col dialect.GoColumn) string {
@@ -131,16 +131,6 @@ func (s *postgresDriver) ColumnDataTypes() map[string]*dialect.ColumnType {
 			Valuer:  "{{goPath}}[:]",
 			Scanner: goutil.GenericFunc(encoding.ByteArrayScanner[byte], "{{goPath}}[:]", "{{len}}"),
 		},
-		"[...]string": {
-			DataType: s.columnDataType("text[{{len}}]"),
-			Valuer:   "github.com/si3nloong/sqlgen/sequel/driver/postgres/pgtype.StringArray[{{elemType}}]({{goPath}}[:])",
-			Scanner:  "github.com/si3nloong/sqlgen/sequel/driver/postgres/pgtype.StringArray[{{elemType}}]({{goPath}}[:])",
-		},
-		"[...]bool": {
-			DataType: s.columnDataType("bool[{{len}}]"),
-			Valuer:   "github.com/si3nloong/sqlgen/sequel/driver/postgres/pgtype.BoolArray[{{elemType}}]({{goPath}}[:])",
-			Scanner:  "(*github.com/si3nloong/sqlgen/sequel/driver/postgres/pgtype.BoolArray[{{elemType}}])({{addrOfGoPath}}[:])",
-		},
 		"[]string": {
 			DataType: s.columnDataType("text[]"),
 			Valuer:   "github.com/si3nloong/sqlgen/sequel/driver/postgres/pgtype.StringArray[{{elemType}}]({{goPath}})",
@@ -148,13 +138,13 @@ func (s *postgresDriver) ColumnDataTypes() map[string]*dialect.ColumnType {
 		},
 		"[]rune": {
 			DataType: s.columnDataType("text"),
-			Valuer:   "string({{goPath}}[:])",
-			Scanner:  "github.com/si3nloong/sqlgen/sequel/types.FixedSizeRunes({{goPath}})",
+			Valuer:   "string({{goPath}})",
+			Scanner:  goutil.GenericFunc(encoding.RunesScanner[rune, []rune], "{{addrOfGoPath}}"),
 		},
 		"[]byte": {
 			DataType: s.columnDataType("blob"),
 			Valuer:   "{{goPath}}",
-			Scanner:  "{{addrOfGoPath}}",
+			Scanner:  goutil.GenericFuncName(encoding.StringScanner[[]byte, *[]byte], "{{baseType}}", "{{addr}}"),
 		},
 		"[]bool": {
 			DataType: s.columnDataType("bool[]"),
@@ -163,8 +153,8 @@ func (s *postgresDriver) ColumnDataTypes() map[string]*dialect.ColumnType {
 		},
 		"[][]byte": {
 			DataType: s.columnDataType("bytea"),
-			Valuer:   "github.com/si3nloong/sqlgen/sequel/driver/postgres/pgtype.ByteArray({{goPath}})",
-			Scanner:  "github.com/si3nloong/sqlgen/sequel/driver/postgres/pgtype.ByteArray({{goPath}})",
+			Valuer:   "(github.com/si3nloong/sqlgen/sequel/driver/postgres/pgtype.ByteaArray[{{elemType}}])({{goPath}})",
+			Scanner:  "(*github.com/si3nloong/sqlgen/sequel/driver/postgres/pgtype.ByteaArray[{{elemType}}])({{addrOfGoPath}})",
 		},
 		"[]int": {
 			DataType: s.columnDataType("int4[]"),
diff --git a/cmd/sqlgen/codegen/dialect/sqlite/column_type.go b/cmd/sqlgen/codegen/dialect/sqlite/column_type.go
index fa29e97..48fdff3 100644
--- a/cmd/sqlgen/codegen/dialect/sqlite/column_type.go
+++ b/cmd/sqlgen/codegen/dialect/sqlite/column_type.go
@@ -18,12 +18,12 @@ func (s *sqliteDriver) ColumnDataTypes() map[string]*dialect.ColumnType {
 		"rune": {
 			DataType: s.columnDataType("TEXT"),
 			Valuer:   "(string)({{goPath}})",
-			Scanner:  "{{addrOfGoPath}}",
+			Scanner:  goutil.GenericFuncName(encoding.RuneScanner[rune, *rune], "{{baseType}}", "{{addr}}"),
 		},
 		"byte": {
 			DataType: s.columnDataType("BLOB"),
-			Valuer:   "{{goPath}}",
-			Scanner:  "{{addrOfGoPath}}",
+			Valuer:   "(int64)({{goPath}})",
+			Scanner:  goutil.GenericFuncName(encoding.Uint8Scanner[uint8, *uint8], "{{baseType}}", "{{addr}}"),
 		},
 		"string": {
 			DataType: s.columnDataType("TEXT", ""),
@@ -82,7 +82,7 @@ func (s *sqliteDriver) ColumnDataTypes() map[string]*dialect.ColumnType {
 		},
 		"uint64": {
 			DataType: s.columnDataType("INTEGER", false),
-			Valuer:   "{{goPath}}",
+			Valuer:   "(int64)({{goPath}})",
 			Scanner:  goutil.GenericFuncName(encoding.Uint64Scanner[uint64, *uint64], "{{elemType}}", "{{addr}}"),
 		},
 		"float32": {
diff --git a/cmd/sqlgen/codegen/expr.go b/cmd/sqlgen/codegen/expr.go
index c54b29c..b62502f 100644
--- a/cmd/sqlgen/codegen/expr.go
+++ b/cmd/sqlgen/codegen/expr.go
@@ -77,7 +77,7 @@ func (e Expr) Format(pkg *Package, args ...ExprParams) string {
 			return "&" + params.GoPath
 		},
 	}
-	if params.Len > 0 {
+	if params.Len >= 0 {
 		funcMap["len"] = func() int64 {
 			return params.Len
 		}
diff --git a/cmd/sqlgen/codegen/generate.go b/cmd/sqlgen/codegen/generate.go
index 819fd61..adf7a5a 100644
--- a/cmd/sqlgen/codegen/generate.go
+++ b/cmd/sqlgen/codegen/generate.go
@@ -696,17 +696,27 @@ func (g *Generator) valuer(importPkgs *Package, goPath string, t types.Type) str
 		return goPath
 	}
 	utype, isPtr := underlyingType(t)
+	addr := "&" + goPath
+	if goPath[0] == '*' {
+		addr = goPath[1:]
+	}
 	if columnType, ok := g.columnTypes[t.String()]; ok && columnType.Valuer != "" {
 		return Expr(columnType.Valuer).Format(importPkgs, ExprParams{GoPath: goPath, Type: t, IsPtr: isPtr})
-	} else if _, wrong := types.MissingMethod(utype, goSqlValuer, true); wrong {
-		if isPtr {
-			return Expr("(database/sql/driver.Valuer)({{goPath}})").Format(importPkgs, ExprParams{GoPath: goPath, Type: t, IsPtr: isPtr})
-		}
+	} else if isValuer(utype) {
 		return goPath
+	} else if isValuer(types.NewPointer(utype)) {
+		return addr
 	} else if columnType, ok := g.columnDataType(t); ok && columnType.Valuer != "" {
+		// The index is taken before the pointer is dereferenced
+		if goPath[0] == '*' && strings.Contains(columnType.Valuer, "{{goPath}}[") {
+			goPath = "(" + goPath + ")"
+		}
 		return Expr(columnType.Valuer).Format(importPkgs, ExprParams{GoPath: goPath, IsPtr: isPtr, Type: t, Len: arraySize(t)})
-	} else if isImplemented(utype, textMarshaler) {
-		return Expr(goutil.GenericFunc(encoding.TextValue[time.Time], "{{goPath}}")).Format(importPkgs, ExprParams{GoPath: goPath, Type: t, IsPtr: isPtr})
+	} else if isTextCodec(utype) {
+		if !isImplemented(utype, textMarshaler) {
+			goPath = addr
+		}
+		return Expr(goutil.GenericFunc(encoding.TextValue[time.Time], "{{.}}")).Format(importPkgs, ExprParams{GoPath: goPath, Type: t, IsPtr: isPtr})
 	}
 	return Expr(g.defaultColumnTypes["*"].Valuer).Format(importPkgs, ExprParams{GoPath: goPath, Type: t, IsPtr: isPtr})
 }
@@ -720,7 +730,8 @@ func (g *Generator) scanner(importPkgs *Package, goPath string, t types.Type) st
 			return goPath
 		}
 	case *types.Named:
-		if tv.String() == typeOfTime {
+		// SQLite has no time, it's a text
+		if tv.String() == typeOfTime && g.config.Driver != Sqlite {
 			return goPath
 		}
 	}
@@ -733,9 +744,15 @@ func (g *Generator) scanner(importPkgs *Package, goPath string, t types.Type) st
 		}
 		return goPath
 	} else if columnType, ok := g.columnDataType(t); ok && columnType.Scanner != "" {
+		if isPtr && !strings.Contains(columnType.Scanner, "{{addr}}") {
+			// The scanner is not aware of the pointer
+			inner := Expr(columnType.Scanner).Format(importPkgs, ExprParams{GoPath: "v", Type: t, IsPtr: isPtr, Len: arraySize(t)})
+			return strings.TrimSuffix(Expr(goutil.GenericFunc(encoding.NullScanner[string], "{{addr}}")).Format(importPkgs, ExprParams{GoPath: goPath}), ")") +
+				", func(v " + importPkgs.TypeString(t) + ") " + Expr("database/sql.Scanner").Format(importPkgs) + " { return " + inner + " })"
+		}
 		return Expr(columnType.Scanner).Format(importPkgs, ExprParams{GoPath: goPath, Type: t, IsPtr: isPtr, Len: arraySize(t)})
-	} else if isImplemented(ptr, textUnmarshaler) {
-		return Expr(goutil.GenericFuncName(encoding.TextScanner[time.Time, *time.Time, *time.Time], "{{elemType}}", "{{addr}}")).Format(importPkgs, ExprParams{GoPath: goPath, Type: t, IsPtr: isPtr})
+	} else if isTextCodec(ptr.Elem()) {
+		return Expr(goutil.GenericFuncName(encoding.TextScanner[time.Time, *time.Time, *time.Time], "{{baseType}}", "{{addr}}")).Format(importPkgs, ExprParams{GoPath: goPath, Type: t, IsPtr: isPtr})
 	}
 	return Expr(g.defaultColumnTypes["*"].Scanner).Format(importPkgs, ExprParams{GoPath: goPath, Type: t, IsPtr: isPtr})
 }
diff --git a/cmd/sqlgen/codegen/tool.go b/cmd/sqlgen/codegen/tool.go
index 3ac4fdc..99444c2 100644
--- a/cmd/sqlgen/codegen/tool.go
+++ b/cmd/sqlgen/codegen/tool.go
@@ -4,6 +4,7 @@ import (
 	"fmt"
 	"go/types"
 	"regexp"
+	"strings"
 
 	"github.com/si3nloong/sqlgen/cmd/sqlgen/codegen/dialect"
 )
@@ -65,7 +66,7 @@ loop:
 		}
 	}
 	// Find fixed size array mapper
-	if matches := arrayRegexp.FindStringSubmatch(typeStr); len(matches) > 0 {
+	if matches := arrayRegexp.FindStringSubmatch(strings.TrimPrefix(typeStr, "*")); len(matches) > 0 {
 		if v, ok := g.defaultColumnTypes["[...]"+matches[2]]; ok {
 			// len, _ := strconv.Atoi(matches[1])
 			return v, true
@@ -84,7 +85,7 @@ func assertAsPtr[T any](v any) *T {
 
 func arraySize(t types.Type) int64 {
 	for t != nil {
-		switch vt := t.(type) {
+		switch vt := t.Underlying().(type) {
 		case *types.Pointer:
 			t = vt.Elem()
 		case *types.Array:
@@ -101,6 +102,27 @@ func isImplemented(t types.Type, iv *types.Interface) bool {
 	return method == nil && !wrongType
 }
 
+// isValuer reports whether the type has the method of "database/sql/driver.Valuer", the
+// interface can't be used because it's not from the same package loader as the type.
+func isValuer(t types.Type) bool {
+	m := types.NewMethodSet(t).Lookup(nil, "Value")
+	if m == nil {
+		return false
+	}
+	sig, ok := m.Type().(*types.Signature)
+	if !ok || sig.Params().Len() > 0 || sig.Results().Len() != 2 {
+		return false
+	}
+	return types.Unalias(sig.Results().At(0).Type()).String() == "database/sql/driver.Value" &&
+		sig.Results().At(1).Type().String() == "error"
+}
+
+// isTextCodec reports whether the type can be written as text, and read back from it
+func isTextCodec(t types.Type) bool {
+	ptr := types.NewPointer(t)
+	return isImplemented(ptr, textMarshaler) && isImplemented(ptr, textUnmarshaler)
+}
+
 func pointerType(t types.Type) (*types.Pointer, bool) {
 	v, ok := t.(*types.Pointer)
 	if ok {
diff --git a/sequel/encoding/null.go b/sequel/encoding/null.go
new file mode 100644
index 0000000..1806d66
--- /dev/null
+++ b/sequel/encoding/null.go
@@ -0,0 +1,26 @@
+package encoding
+
+import "database/sql"
+
+type nullScanner[T any] struct {
+	addr    **T
+	scanner func(*T) sql.Scanner
+}
+
+// NullScanner scans into the pointer with the scanner of its value, the pointer is nil when it's NULL
+func NullScanner[T any](addr **T, scanner func(*T) sql.Scanner) sql.Scanner {
+	return &nullScanner[T]{addr: addr, scanner: scanner}
+}
+
+func (s *nullScanner[T]) Scan(v any) error {
+	if v == nil {
+		*s.addr = nil
+		return nil
+	}
+	val := new(T)
+	if err := s.scanner(val).Scan(v); err != nil {
+		return err
+	}
+	*s.addr = val
+	return nil
+}
diff --git a/sequel/encoding/rune.go b/sequel/encoding/rune.go
new file mode 100644
index 0000000..2a6074d
--- /dev/null
+++ b/sequel/encoding/rune.go
@@ -0,0 +1,83 @@
+package encoding
+
+import (
+	"database/sql"
+	"fmt"
+	"unicode/utf8"
+	"unsafe"
+)
+
+type runeScanner[T ~rune, Addr addrOrPtr[T]] struct {
+	addr Addr
+}
+
+// RuneScanner scans a single character
+func RuneScanner[T ~rune, Addr addrOrPtr[T]](addr Addr) sql.Scanner {
+	return &runeScanner[T, Addr]{addr: addr}
+}
+
+func (s *runeScanner[T, Addr]) Scan(v any) error {
+	var str string
+	switch vi := v.(type) {
+	case nil:
+		switch any(s.addr).(type) {
+		case **T:
+			*(**T)(unsafe.Pointer(s.addr)) = nil
+		default:
+			*(*T)(unsafe.Pointer(s.addr)) = 0
+		}
+		return nil
+	case []byte:
+		str = string(vi)
+	case string:
+		str = vi
+	default:
+		return fmt.Errorf(`sequel/encoding: unsupported scan type %T for ~rune`, vi)
+	}
+
+	var val T
+	if str != "" {
+		r, size := utf8.DecodeRuneInString(str)
+		if size != len(str) {
+			return fmt.Errorf(`sequel/encoding: rune overflow, %q is more than a character`, str)
+		}
+		val = T(r)
+	}
+	switch any(s.addr).(type) {
+	case **T:
+		*(**T)(unsafe.Pointer(s.addr)) = &val
+	default:
+		*(*T)(unsafe.Pointer(s.addr)) = val
+	}
+	return nil
+}
+
+type runesScanner[T ~rune, S ~[]T] struct {
+	addr *S
+}
+
+// RunesScanner scans the characters of a text
+func RunesScanner[T ~rune, S ~[]T](addr *S) sql.Scanner {
+	return &runesScanner[T, S]{addr: addr}
+}
+
+func (s *runesScanner[T, S]) Scan(v any) error {
+	var str string
+	switch vi := v.(type) {
+	case nil:
+		*s.addr = nil
+		return nil
+	case []byte:
+		str = string(vi)
+	case string:
+		str = vi
+	default:
+		return fmt.Errorf(`sequel/encoding: unsupported scan type %T for []~rune`, vi)
+	}
+	val := make(S, 0, len(str))
+	for _, r := range str {
+		val = append(val, T(r))
+	}
+	*s.addr = val
+	return nil
+}
-- 
2.43.0


From 82714f310281a6ff61bf3ab33d17b453619440f2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:37:32 +0000
Subject: [PATCH 18/49] fix: keep the letters which are not ASCII in names

---
 cmd/sqlgen/codegen/generate.go       | 8 +++++---
 cmd/sqlgen/internal/strfmt/strfmt.go | 3 ++-
 2 files changed, 7 insertions(+), 4 deletions(-)

diff --git a/cmd/sqlgen/codegen/generate.go b/cmd/sqlgen/codegen/generate.go
index adf7a5a..0731ae1 100644
--- a/cmd/sqlgen/codegen/generate.go
+++ b/cmd/sqlgen/codegen/generate.go
@@ -93,11 +93,13 @@ func (g *Generator) LogError(err error) {
 }
 
 func (g *Generator) Quote(str string) string {
+	// It can't be quoted as it is
+	if strings.ContainsRune(str, g.quoteRune) || (g.quoteRune == '"' && strings.ContainsAny(str, "\\\n")) {
+		return strconv.Quote(str)
+	}
 	buf := make([]byte, 0, len(str))
 	buf = append(buf, byte(g.quoteRune))
-	for i := range str {
-		buf = append(buf, byte(str[i]))
-	}
+	buf = append(buf, str...)
 	buf = append(buf, byte(g.quoteRune))
 	return unsafe.String(unsafe.SliceData(buf), len(buf))
 }
diff --git a/cmd/sqlgen/internal/strfmt/strfmt.go b/cmd/sqlgen/internal/strfmt/strfmt.go
index 37d624f..3935e20 100644
--- a/cmd/sqlgen/internal/strfmt/strfmt.go
+++ b/cmd/sqlgen/internal/strfmt/strfmt.go
@@ -40,7 +40,8 @@ func toCamelInitCase(s string, initCase bool) string {
 		}
 		prevIsCap = vIsCap
 
-		if vIsCap || vIsLow {
+		// The bytes of the other letters are kept as they are
+		if vIsCap || vIsLow || v >= 0x80 {
 			n.WriteByte(v)
 			capNext = false
 		} else if vIsNum := v >= '0' && v <= '9'; vIsNum {
-- 
2.43.0


From 0ef7eda0c17b7f74b534cb2e875bc180545cb069 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:38:16 +0000
Subject: [PATCH 19/49] fix: keep the methods declared by the user and refuse
 what can't be generated

Generated methods promoted from embedded models are no longer taken as
hand-written, every hand-written method is kept, a name conflict, a strict
mode error or an unformattable output is reported before anything is
written, and the statements by key number their own arguments.
---
 cmd/sqlgen/codegen/codegen.go            |  10 +-
 cmd/sqlgen/codegen/generate.go           | 165 +++++++++++++++++------
 cmd/sqlgen/internal/compiler/compiler.go |  57 +++++++-
 cmd/sqlgen/internal/compiler/parser.go   |   2 +
 4 files changed, 183 insertions(+), 51 deletions(-)

diff --git a/cmd/sqlgen/codegen/codegen.go b/cmd/sqlgen/codegen/codegen.go
index 7ca3d3a..3bc4b86 100644
--- a/cmd/sqlgen/codegen/codegen.go
+++ b/cmd/sqlgen/codegen/codegen.go
@@ -241,16 +241,16 @@ func parseGoPackage(
 			return err
 		}
 
-		if err := g.generateModels(dir, schema); err != nil {
-			return err
-		}
-
 		// If the `skip_empty` is true,
 		// we do not generate the go file
-		if g.config.Exec.SkipEmpty {
+		if g.config.Exec.SkipEmpty && len(schema.Tables) == 0 {
 			goto nextDir
 		}
 
+		if err := g.generateModels(dir, schema); err != nil {
+			return err
+		}
+
 		// if g.config.Migration != nil {
 		// 	if err := os.MkdirAll(g.config.Migration.Dir, os.ModePerm); err != nil {
 		// 		return err
diff --git a/cmd/sqlgen/codegen/generate.go b/cmd/sqlgen/codegen/generate.go
index 0731ae1..79d8fbb 100644
--- a/cmd/sqlgen/codegen/generate.go
+++ b/cmd/sqlgen/codegen/generate.go
@@ -5,6 +5,9 @@ import (
 	"bytes"
 	"database/sql"
 	"fmt"
+	"go/ast"
+	"go/parser"
+	"go/token"
 	"go/types"
 	"io"
 	"os"
@@ -83,11 +86,16 @@ func newGenerator(cfg *Config, d dialect.Dialect) (*Generator, error) {
 	return gen, nil
 }
 
+// strictError stops the generation in strict mode
+type strictError struct {
+	error
+}
+
 func (g *Generator) LogError(err error) {
 	// When it's strict mode, the program will stop once
 	// it encounter any error
 	if g.config.Strict != nil && *g.config.Strict {
-		panic(err)
+		panic(strictError{err})
 	}
 	g.errs = append(g.errs, err)
 }
@@ -119,7 +127,17 @@ func (g *Generator) QuoteIdentifier(str string) string {
 func (g *Generator) generateModels(
 	dstDir string,
 	schema *compiler.Package,
-) error {
+) (err error) {
+	defer func() {
+		if v := recover(); v != nil {
+			strict, ok := v.(strictError)
+			if !ok {
+				panic(v)
+			}
+			err = strict.error
+		}
+	}()
+	tables := schema.Tables
 	importPkgs := NewPackage(schema.Pkg.PkgPath, schema.Pkg.Name)
 	importPkgs.Import(types.NewPackage("strings", ""))
 	importPkgs.Import(types.NewPackage("strconv", ""))
@@ -154,23 +172,36 @@ func (g *Generator) generateModels(
 		}
 
 		if t.HasPK() {
-			fprintfln(w, "func (%s) HasPK() {}", t.GoName)
+			if !t.HasMethod("HasPK") {
+				fprintfln(w, "func (%s) HasPK() {}", t.GoName)
+			}
 			pk, ok := t.AutoIncrKey()
 			if ok {
-				fprintfln(w, "func (%s) IsAutoIncr() {}", t.GoName)
-				fprintfln(w, `func (v *%s) ScanAutoIncr(val int64) error {
-	v.%s = %s(val)
+				if !t.HasMethod("IsAutoIncr") {
+					fprintfln(w, "func (%s) IsAutoIncr() {}", t.GoName)
+				}
+				if !t.HasMethod("ScanAutoIncr") {
+					fprintfln(w, "func (v *%s) ScanAutoIncr(val int64) error {", t.GoName)
+					for _, f := range pk.GoPtrPaths() {
+						fprintfln(w, "if v%s == nil {", f.GoPath)
+						fprintfln(w, "v%s = new(%s)", f.GoPath, importPkgs.TypeString(assertAsPtr[types.Pointer](f.Type).Elem()))
+						fprintfln(w, "}")
+					}
+					fprintfln(w, `v%s = %s(val)
 	return nil
-}`, t.GoName, pk.GoName, pk.Type)
+}`, pk.GoPath, importPkgs.TypeString(pk.Type))
+				}
 			} else if len(t.Keys) == 1 {
 				pk = t.Keys[0]
 			}
-			if pk != nil {
+			if pk == nil {
+				if !t.HasMethod("CompositeKey") {
+					g.buildCompositeKeys(w, importPkgs, t)
+				}
+			} else if !t.HasMethod("PK") {
 				fprintfln(w, `func (v %s) PK() (string, int, any) {
 	return %s, %d, %s
 }`, t.GoName, g.Quote(g.QuoteIdentifier(pk.Name)), pk.Pos, g.getOrValue(importPkgs, "v", pk))
-			} else {
-				g.buildCompositeKeys(w, importPkgs, t)
 			}
 		}
 
@@ -178,7 +209,9 @@ func (g *Generator) generateModels(
 		if method, isWrongType := t.Implements(sqlQueryColumner); isWrongType {
 			g.LogError(fmt.Errorf(`sqlgen: struct %q has function "SQLColumns" but wrong footprint`, t.Name))
 		} else if method != nil && !isWrongType {
-			g.buildSqlColumns(w, t)
+			if err := g.buildSqlColumns(w, t); err != nil {
+				return err
+			}
 		}
 
 		// Build the "Columns" function which return the column names
@@ -218,7 +251,7 @@ func (g *Generator) generateModels(
 			insertColumns := t.InsertColumns()
 			if n := len(insertColumns); n > 0 {
 				// If the insertable columns is not tally with the table columns means the struct has readonly columns
-				if n != len(t.Columns) {
+				if n != len(t.Columns) && !t.HasMethod("InsertColumns") {
 					fprintfln(w, "func (%s) InsertColumns() []string {", t.GoName)
 					fmt.Fprint(w, "return []string{")
 					fmt.Fprint(w, g.Quote(g.QuoteIdentifier(insertColumns[0].Name)))
@@ -229,7 +262,9 @@ func (g *Generator) generateModels(
 					fprintfln(w, "}")
 				}
 
-				if g.staticVar {
+				if t.HasMethod("InsertPlaceholders") {
+					// The placeholders is declared by user
+				} else if g.staticVar {
 					fprintfln(w, `func (%s) InsertPlaceholders(row int) string {
 	return "(%s)" // %d
 }`, t.GoName, strings.Repeat(","+g.dialect.QuoteVar(0), len(insertColumns))[1:], len(insertColumns))
@@ -247,19 +282,32 @@ func (g *Generator) generateModels(
 					fprintfln(w, "}")
 				}
 
-				g.buildInsertOne(w, importPkgs, t)
+				if !t.HasMethod("InsertOneStmt") {
+					if err := g.buildInsertOne(w, importPkgs, t); err != nil {
+						return err
+					}
+				}
 			}
 		}
 
 		if t.HasPK() {
-			g.buildFindByPK(w, importPkgs, t)
-			if !t.Readonly && len(t.ColumnsWithoutPK()) > 0 {
-				g.buildUpdateByPK(w, importPkgs, t)
+			if !t.HasMethod("FindOneByPKStmt") {
+				if err := g.buildFindByPK(w, importPkgs, t); err != nil {
+					return err
+				}
+			}
+			if !t.Readonly && len(t.ColumnsWithoutPK()) > 0 && !t.HasMethod("UpdateOneByPKStmt") {
+				if err := g.buildUpdateByPK(w, importPkgs, t); err != nil {
+					return err
+				}
 			}
 		}
 
 		// Build getter
 		for _, f := range t.Columns {
+			if t.HasMethod(strings.TrimSuffix(valueFunc(f), "()")) {
+				continue
+			}
 			fprintfln(w, "func (v %s) %s any {", t.GoName, valueFunc(f))
 			queue := []string{}
 			// Find all the possible pointer paths
@@ -286,6 +334,9 @@ func (g *Generator) generateModels(
 		}
 
 		for _, f := range t.Columns {
+			if t.HasMethod(g.config.Getter.Prefix + f.GoName) {
+				continue
+			}
 			var typeStr string
 			isBasic := g.isBasicType(f.Type)
 			switch vt := f.Type.(type) {
@@ -336,16 +387,6 @@ func (g *Generator) generateModels(
 		schema.Tables = schema.Tables[1:]
 	}
 
-	if err := os.MkdirAll(dstDir, os.ModePerm); err != nil {
-		return err
-	}
-	fileDest := filepath.Join(dstDir, g.config.Exec.Filename)
-	f, err := os.OpenFile(fileDest, os.O_RDWR|os.O_CREATE|os.O_TRUNC, os.ModePerm)
-	if err != nil {
-		return err
-	}
-	defer f.Close()
-
 	rw := bytes.NewBufferString(``)
 	g.buildHeader(rw)
 	fprintfln(rw, "package %s", schema.Pkg.Name)
@@ -370,10 +411,37 @@ func (g *Generator) generateModels(
 	if err != nil {
 		return err
 	}
+	if err := checkConflicts(formatted, tables); err != nil {
+		return err
+	}
 
-	mustNoError(f.Write(formatted))
+	if err := os.MkdirAll(dstDir, os.ModePerm); err != nil {
+		return err
+	}
+	return os.WriteFile(filepath.Join(dstDir, g.config.Exec.Filename), formatted, os.ModePerm)
+}
 
-	return f.Close()
+// checkConflicts reports the methods which can't be declared, because the model has a field or other method of the same name
+func checkConflicts(src []byte, tables []*compiler.Table) error {
+	file, err := parser.ParseFile(token.NewFileSet(), "", src, parser.SkipObjectResolution)
+	if err != nil {
+		return err
+	}
+	models := lo.KeyBy(tables, func(t *compiler.Table) string { return t.GoName })
+	declared := make(map[string]struct{})
+	for _, d := range file.Decls {
+		fn, ok := d.(*ast.FuncDecl)
+		if !ok || fn.Recv == nil {
+			continue
+		}
+		recv := strings.TrimPrefix(types.ExprString(fn.Recv.List[0].Type), "*")
+		_, ok = declared[recv+"."+fn.Name.Name]
+		if t := models[recv]; ok || (t != nil && t.HasField(fn.Name.Name)) {
+			return fmt.Errorf("sqlgen: struct %q has more than one field or method %q", recv, fn.Name.Name)
+		}
+		declared[recv+"."+fn.Name.Name] = struct{}{}
+	}
+	return nil
 }
 
 func (g *Generator) buildHeader(w io.Writer) {
@@ -387,7 +455,7 @@ func (g *Generator) buildCompositeKeys(w io.Writer, importPkgs *Package, table *
 		if i > 0 {
 			fmt.Fprint(w, `,`)
 		}
-		fmt.Fprint(w, g.Quote(f.Name))
+		fmt.Fprint(w, g.Quote(g.QuoteIdentifier(f.Name)))
 	}
 	fmt.Fprint(w, `}, []int{`)
 	for i, f := range table.Keys {
@@ -489,6 +557,7 @@ func (g *Generator) buildFindByPK(w io.Writer, importPkgs *Package, t *compiler.
 	var query string
 	if method, isWrongType := t.Implements(sqlTabler); isWrongType {
 		g.LogError(fmt.Errorf(`sqlgen: struct %q has function "TableName" but wrong footprint`, t.GoName))
+		buf.WriteString(g.MustQuoteIdentifier(t.Name))
 	} else if method != nil {
 		buf.WriteString(g.MustQuoteIdentifier(t.Name))
 	} else {
@@ -496,11 +565,16 @@ func (g *Generator) buildFindByPK(w io.Writer, importPkgs *Package, t *compiler.
 		buf.Reset()
 	}
 	buf.WriteString(" WHERE ")
-	if pk, ok := t.AutoIncrKey(); ok {
-		buf.WriteString(g.MustQuoteIdentifier(pk.Name) + " = " + g.dialect.QuoteVar(1))
-	} else if len(t.Keys) == 1 {
-		pk := t.Keys[0]
-		buf.WriteString(g.MustQuoteIdentifier(pk.Name) + " = " + g.dialect.QuoteVar(1))
+	pk, ok := t.AutoIncrKey()
+	if !ok && len(t.Keys) == 1 {
+		pk = t.Keys[0]
+	}
+	if pk != nil {
+		valuer, err := g.sqlValuer(pk, 0)
+		if err != nil {
+			return err
+		}
+		buf.WriteString(g.MustQuoteIdentifier(pk.Name) + " = " + valuer)
 	} else {
 		keyNames := lo.Map(t.Keys, func(v *compiler.Column, _ int) string {
 			return g.MustQuoteIdentifier(v.Name)
@@ -543,6 +617,7 @@ func (g *Generator) buildInsertOne(w io.Writer, importPkgs *Package, t *compiler
 	buf := strpool.AcquireString()
 	if method, isWrongType := t.Implements(sqlTabler); isWrongType {
 		g.LogError(fmt.Errorf(`sqlgen: struct %q has function "TableName" but wrong footprint`, t.GoName))
+		buf.WriteString("INSERT INTO " + g.MustQuoteIdentifier(t.Name))
 	} else if method != nil {
 		buf.WriteString("INSERT INTO " + g.MustQuoteIdentifier(t.Name))
 	} else {
@@ -585,7 +660,7 @@ func (g *Generator) buildInsertOne(w io.Writer, importPkgs *Package, t *compiler
 	// If the columns and after filter columns is the same
 	// mean it has no auto increment key
 	fprintfln(w, `func (v %s) InsertOneStmt() (string, []any) {`, t.GoName)
-	if len(columns) == len(t.Columns) {
+	if len(columns) == len(t.Columns) || t.HasMethod(methodName(sqlValuer)) {
 		fprintfln(w, `return %s, v.Values()`, query+g.Quote(buf.String()))
 		strpool.ReleaseString(buf)
 	} else {
@@ -608,6 +683,7 @@ func (g *Generator) buildUpdateByPK(w io.Writer, importPkgs *Package, t *compile
 	var query string
 	if method, isWrongType := t.Implements(sqlTabler); isWrongType {
 		g.LogError(fmt.Errorf(`sqlgen: struct %q has function "TableName" but wrong footprint`, t.GoName))
+		buf.WriteString("UPDATE " + g.MustQuoteIdentifier(t.Name))
 	} else if method != nil {
 		buf.WriteString("UPDATE " + g.MustQuoteIdentifier(t.Name))
 	} else {
@@ -626,12 +702,16 @@ func (g *Generator) buildUpdateByPK(w io.Writer, importPkgs *Package, t *compile
 		buf.WriteString(g.MustQuoteIdentifier(f.Name) + " = " + valuer)
 	}
 	buf.WriteString(" WHERE ")
-	if pk, ok := t.AutoIncrKey(); ok {
-		buf.WriteString(g.MustQuoteIdentifier(pk.Name) + " = " + g.dialect.QuoteVar(len(t.Columns)))
-		columns = append(columns, pk)
-	} else if len(t.Keys) == 1 {
-		pk := t.Keys[0]
-		buf.WriteString(g.MustQuoteIdentifier(pk.Name) + " = " + g.dialect.QuoteVar(len(t.Columns)))
+	pk, ok := t.AutoIncrKey()
+	if !ok && len(t.Keys) == 1 {
+		pk = t.Keys[0]
+	}
+	if pk != nil {
+		valuer, err := g.sqlValuer(pk, len(columns))
+		if err != nil {
+			return err
+		}
+		buf.WriteString(g.MustQuoteIdentifier(pk.Name) + " = " + valuer)
 		columns = append(columns, pk)
 	} else {
 		keyNames := lo.Map(t.Keys, func(v *compiler.Column, _ int) string {
@@ -664,7 +744,6 @@ func (g *Generator) buildUpdateByPK(w io.Writer, importPkgs *Package, t *compile
 	}
 	fprintfln(w, "}")
 	fprintfln(w, "}")
-	strpool.ReleaseString(buf)
 	return nil
 }
 
diff --git a/cmd/sqlgen/internal/compiler/compiler.go b/cmd/sqlgen/internal/compiler/compiler.go
index f71a6d2..7c1f582 100644
--- a/cmd/sqlgen/internal/compiler/compiler.go
+++ b/cmd/sqlgen/internal/compiler/compiler.go
@@ -3,6 +3,8 @@ package compiler
 import (
 	"errors"
 	"go/ast"
+	"go/parser"
+	"go/token"
 	"go/types"
 	"reflect"
 	"regexp"
@@ -39,7 +41,9 @@ type Table struct {
 	Keys    []*Column
 	Columns []*Column
 
-	t types.Type
+	t    types.Type
+	pkg  *types.Package
+	fset *token.FileSet
 	// +sqlgen:readonly
 	Readonly    bool
 	autoIncrKey *Column
@@ -91,11 +95,58 @@ func (t *Table) InsertColumns() []*Column {
 }
 
 func (t *Table) Implements(T *types.Interface) (*types.Func, bool) {
-	return types.MissingMethod(t.t, T, true)
+	return t.missingMethod(t.t, T)
 }
 
 func (t *Table) PtrImplements(T *types.Interface) (*types.Func, bool) {
-	return types.MissingMethod(types.NewPointer(t.t), T, true)
+	return t.missingMethod(types.NewPointer(t.t), T)
+}
+
+// missingMethod ignores the generated methods which are promoted from the embedded models
+func (t *Table) missingMethod(V types.Type, T *types.Interface) (*types.Func, bool) {
+	method, isWrongType := types.MissingMethod(V, T, true)
+	for i := range T.NumMethods() {
+		m := T.Method(i)
+		obj, index, _ := types.LookupFieldOrMethod(V, true, t.pkg, m.Name())
+		if fn, ok := obj.(*types.Func); ok && len(index) > 1 && t.isGenerated(fn.Pos()) {
+			return m, false
+		}
+	}
+	return method, isWrongType
+}
+
+func (t *Table) isGenerated(pos token.Pos) bool {
+	filename := t.fset.Position(pos).Filename
+	f, err := parser.ParseFile(token.NewFileSet(), filename, nil, parser.PackageClauseOnly|parser.ParseComments)
+	return err == nil && ast.IsGenerated(f)
+}
+
+// HasMethod reports whether the method is declared on the model by the user
+func (t *Table) HasMethod(name string) bool {
+	named, ok := t.t.(*types.Named)
+	if !ok {
+		return false
+	}
+	for i := range named.NumMethods() {
+		if named.Method(i).Name() == name {
+			return true
+		}
+	}
+	return false
+}
+
+// HasField reports whether the struct itself has the field
+func (t *Table) HasField(name string) bool {
+	st, ok := t.t.Underlying().(*types.Struct)
+	if !ok {
+		return false
+	}
+	for i := range st.NumFields() {
+		if st.Field(i).Name() == name {
+			return true
+		}
+	}
+	return false
 }
 
 type Column struct {
diff --git a/cmd/sqlgen/internal/compiler/parser.go b/cmd/sqlgen/internal/compiler/parser.go
index 2f1273c..f7ba258 100644
--- a/cmd/sqlgen/internal/compiler/parser.go
+++ b/cmd/sqlgen/internal/compiler/parser.go
@@ -149,6 +149,8 @@ func Parse(dir string, cfg *Config) (*Package, error) {
 			GoName: types.ExprString(s.name),
 			Name:   cfg.RenameFunc(types.ExprString(s.name)),
 			t:      pkg.TypesInfo.TypeOf(s.name),
+			pkg:    pkg.Types,
+			fset:   pkg.Fset,
 		}
 
 		// To store struct fields, to prevent field name collision
-- 
2.43.0


From c34d503c66e5b2e53ddc26f6c74185e30a1ddb1e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:42:56 +0000
Subject: [PATCH 20/49] fix: keep the settings which are left out when the
 configs are merged or loaded

---
 cmd/sqlgen/cmd.go              |  13 +++--
 cmd/sqlgen/codegen/codegen.go  |  15 +++--
 cmd/sqlgen/codegen/config.go   | 100 +++++++++++++++++++++++----------
 cmd/sqlgen/codegen/generate.go |   3 +
 cmd/sqlgen/codegen/init.go     |   2 +-
 cmd/sqlgen/generate.go         |   7 ++-
 cmd/sqlgen/init.go             |   5 +-
 7 files changed, 101 insertions(+), 44 deletions(-)

diff --git a/cmd/sqlgen/cmd.go b/cmd/sqlgen/cmd.go
index 1120145..15b804d 100644
--- a/cmd/sqlgen/cmd.go
+++ b/cmd/sqlgen/cmd.go
@@ -27,17 +27,18 @@ var (
 			}
 		},
 		RunE: func(cmd *cobra.Command, args []string) error {
-			var (
-				cfg = codegen.DefaultConfig()
-				err error
-			)
-
 			// If user passing config file, then we load from it.
 			if rootOpts.config != "" {
-				cfg, err = codegen.LoadConfigFrom(rootOpts.config)
+				cfg, err := codegen.LoadConfigFrom(rootOpts.config)
 				if err != nil {
 					return err
 				}
+				return codegen.Generate(cfg)
+			}
+
+			cfg, err := codegen.LoadConfig()
+			if err != nil {
+				return err
 			}
 			return codegen.Generate(cfg)
 		},
diff --git a/cmd/sqlgen/codegen/codegen.go b/cmd/sqlgen/codegen/codegen.go
index 3bc4b86..1d243b4 100644
--- a/cmd/sqlgen/codegen/codegen.go
+++ b/cmd/sqlgen/codegen/codegen.go
@@ -46,9 +46,16 @@ func Generate(c *Config) error {
 		return err
 	}
 
-	cfg := DefaultConfig()
-	if c != nil {
-		cfg = cfg.Merge(c)
+	cfg, err := LoadConfig()
+	if err != nil {
+		return err
+	}
+	cfg = cfg.Merge(c)
+
+	switch cfg.NamingConvention {
+	case SnakeCase, CamelCase, PascalCase:
+	default:
+		return fmt.Errorf("sqlgen: unknown naming convention %q", cfg.NamingConvention)
 	}
 
 	dialect, ok := dialect.GetDialect((string)(cfg.Driver))
@@ -172,7 +179,7 @@ func Generate(c *Config) error {
 	}
 
 	if cfg.Database.Operator != nil {
-		_ = syscall.Unlink(filepath.Join(cfg.Database.Dir, cfg.Database.Operator.Filename))
+		_ = syscall.Unlink(filepath.Join(cfg.Database.Operator.Dir, cfg.Database.Operator.Filename))
 		if err := renderTemplate(
 			generator,
 			"operator.go.tpl",
diff --git a/cmd/sqlgen/codegen/config.go b/cmd/sqlgen/codegen/config.go
index 4ac3c22..f0a851b 100644
--- a/cmd/sqlgen/codegen/config.go
+++ b/cmd/sqlgen/codegen/config.go
@@ -1,6 +1,9 @@
 package codegen
 
 import (
+	"cmp"
+	"errors"
+	"io"
 	"maps"
 	"os"
 	"path/filepath"
@@ -183,7 +186,18 @@ func (c *Config) initIfEmpty() {
 }
 
 func (c *Config) Merge(mapCfg *Config) *Config {
-	c.QuoteIdentifier = mapCfg.QuoteIdentifier
+	if mapCfg.QuoteIdentifier {
+		c.QuoteIdentifier = true
+	}
+	if mapCfg.ReadOnly {
+		c.ReadOnly = true
+	}
+	if mapCfg.OmitGetters {
+		c.OmitGetters = true
+	}
+	if mapCfg.SourceMap {
+		c.SourceMap = true
+	}
 	if mapCfg.Source != nil {
 		c.Source = append([]string{}, mapCfg.Source...)
 	}
@@ -209,20 +223,9 @@ func (c *Config) Merge(mapCfg *Config) *Config {
 	if mapCfg.Exec.Filename != "" {
 		c.Exec.Filename = mapCfg.Exec.Filename
 	}
+	c.initIfEmpty()
 	if mapCfg.Database != nil {
-		c.Database = &DatabaseConfig{
-			Dir:      mapCfg.Database.Dir,
-			Package:  mapCfg.Database.Package,
-			Filename: mapCfg.Database.Filename,
-		}
-
-		if mapCfg.Database.Operator != nil {
-			c.Database.Operator = &DatabaseOperatorConfig{
-				Dir:      mapCfg.Database.Operator.Dir,
-				Package:  mapCfg.Database.Operator.Package,
-				Filename: mapCfg.Database.Operator.Filename,
-			}
-		}
+		c.Database = c.Database.merge(mapCfg.Database)
 	}
 	if mapCfg.SkipHeader {
 		c.SkipHeader = true
@@ -231,20 +234,43 @@ func (c *Config) Merge(mapCfg *Config) *Config {
 		c.SkipModTidy = true
 	}
 	if mapCfg.Migration != nil {
-		c.Migration = &MigrationConfig{
-			DSN:      mapCfg.Migration.DSN,
-			Package:  mapCfg.Migration.Package,
-			Dir:      mapCfg.Migration.Dir,
-			Filename: mapCfg.Migration.Filename,
+		if c.Migration == nil {
+			c.Migration = new(MigrationConfig)
 		}
+		c.Migration.DSN = cmp.Or(mapCfg.Migration.DSN, c.Migration.DSN)
+		c.Migration.Package = cmp.Or(mapCfg.Migration.Package, c.Migration.Package)
+		c.Migration.Dir = cmp.Or(mapCfg.Migration.Dir, c.Migration.Dir)
+		c.Migration.Filename = cmp.Or(mapCfg.Migration.Filename, c.Migration.Filename)
 	}
-	if mapCfg.DataTypes != nil {
-		maps.Copy(c.DataTypes, mapCfg.DataTypes)
-	}
+	maps.Copy(c.DataTypes, mapCfg.DataTypes)
 	c.initIfEmpty()
 	return c
 }
 
+// merge returns the config overridden by what is set in "other", the location of
+// the operator follows the location of the database unless it's set explicitly.
+func (c DatabaseConfig) merge(other *DatabaseConfig) *DatabaseConfig {
+	op := *c.Operator
+	if op.Package == c.Package {
+		op.Package = ""
+	}
+	if op.Dir == c.Dir {
+		op.Dir = ""
+	}
+	c.Package = cmp.Or(other.Package, c.Package)
+	c.Dir = cmp.Or(other.Dir, c.Dir)
+	c.Filename = cmp.Or(other.Filename, c.Filename)
+	if other.Operator != nil {
+		op.Package = cmp.Or(other.Operator.Package, op.Package)
+		op.Dir = cmp.Or(other.Operator.Dir, op.Dir)
+		op.Filename = cmp.Or(other.Operator.Filename, op.Filename)
+	}
+	op.Package = cmp.Or(op.Package, c.Package)
+	op.Dir = cmp.Or(op.Dir, c.Dir)
+	c.Operator = &op
+	return &c
+}
+
 func (c Config) RenameFunc() func(string) string {
 	switch c.NamingConvention {
 	case SnakeCase:
@@ -267,14 +293,21 @@ func LoadConfigFrom(src string) (*Config, error) {
 	return cfg, nil
 }
 
-func DefaultConfig() *Config {
-	cfg := new(Config)
-	cfg.Init()
+// LoadConfig loads the config from the current directory,
+// or the default values when there is no config file.
+func LoadConfig() (*Config, error) {
 	file, exists := findCfgInDir(fileutil.Getpwd())
-	if !exists {
-		return cfg
+	if exists {
+		return LoadConfigFrom(file)
 	}
-	if err := decodeToFile(file, cfg); err != nil {
+	cfg := new(Config)
+	cfg.Init()
+	return cfg, nil
+}
+
+func DefaultConfig() *Config {
+	cfg, err := LoadConfig()
+	if err != nil {
 		panic(err)
 	}
 	return cfg
@@ -286,10 +319,19 @@ func decodeToFile(src string, cfg *Config) error {
 		return err
 	}
 	defer f.Close()
+	// The location of the operator is the location of the database by default
+	cfg.Database.Operator.Package = ""
+	cfg.Database.Operator.Dir = ""
 	dec := yaml.NewDecoder(f)
-	if err := dec.Decode(cfg); err != nil {
+	// The file without any setting is not an error
+	if err := dec.Decode(cfg); err != nil && !errors.Is(err, io.EOF) {
 		return err
 	}
+	if cfg.Strict == nil {
+		strict := true
+		cfg.Strict = &strict
+	}
+	cfg.initIfEmpty()
 	return nil
 }
 
diff --git a/cmd/sqlgen/codegen/generate.go b/cmd/sqlgen/codegen/generate.go
index 79d8fbb..8c7817c 100644
--- a/cmd/sqlgen/codegen/generate.go
+++ b/cmd/sqlgen/codegen/generate.go
@@ -73,6 +73,9 @@ func newGenerator(cfg *Config, d dialect.Dialect) (*Generator, error) {
 	}
 	gen.columnTypes = make(map[string]*dialect.ColumnType)
 	for k, decl := range cfg.DataTypes {
+		if decl == nil {
+			continue
+		}
 		gen.columnTypes[k] = &dialect.ColumnType{
 			DataType: func(c dialect.GoColumn) string {
 				return decl.DataType
diff --git a/cmd/sqlgen/codegen/init.go b/cmd/sqlgen/codegen/init.go
index 3c2abba..5bd475e 100644
--- a/cmd/sqlgen/codegen/init.go
+++ b/cmd/sqlgen/codegen/init.go
@@ -85,7 +85,7 @@ func renderTemplate(
 			if filepath.Base(pkg.Path()) == pkg.Name() {
 				fprintfln(w, strconv.Quote(pkg.Path()))
 			} else {
-				fprintfln(w, pkg.Name()+strconv.Quote(pkg.Path()))
+				fprintfln(w, pkg.Name()+" "+strconv.Quote(pkg.Path()))
 			}
 		}
 		fprintfln(w, ")")
diff --git a/cmd/sqlgen/generate.go b/cmd/sqlgen/generate.go
index e77c417..ddcd2c2 100644
--- a/cmd/sqlgen/generate.go
+++ b/cmd/sqlgen/generate.go
@@ -16,9 +16,10 @@ var (
 		Short: "Generate boilerplate code based on go struct",
 		Args:  cobra.ExactArgs(1),
 		RunE: func(cmd *cobra.Command, args []string) error {
-			var (
-				cfg = codegen.DefaultConfig()
-			)
+			cfg, err := codegen.LoadConfig()
+			if err != nil {
+				return err
+			}
 
 			// // Create new watcher.
 			// watcher, err := fsnotify.NewWatcher()
diff --git a/cmd/sqlgen/init.go b/cmd/sqlgen/init.go
index cac3ed2..47dedbf 100644
--- a/cmd/sqlgen/init.go
+++ b/cmd/sqlgen/init.go
@@ -79,7 +79,10 @@ func runInitCommand(cmd *cobra.Command, args []string) error {
 		return noInterruptError(err)
 	}
 
-	cfg := codegen.DefaultConfig()
+	cfg, err := codegen.LoadConfig()
+	if err != nil {
+		return err
+	}
 	switch answer.SqlDriver {
 	case string(codegen.MySQL):
 		cfg.Driver = codegen.MySQL
-- 
2.43.0


From c0fc733e4dc22732d1f9db7ff5036bdbc4984ce6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:44:23 +0000
Subject: [PATCH 21/49] fix: select exactly the files which are matched by the
 sources

---
 cmd/sqlgen/codegen/codegen.go      | 220 ++++++++---------------------
 cmd/sqlgen/codegen/path_matcher.go | 121 ++++++++++++++--
 2 files changed, 170 insertions(+), 171 deletions(-)

diff --git a/cmd/sqlgen/codegen/codegen.go b/cmd/sqlgen/codegen/codegen.go
index 1d243b4..50facbe 100644
--- a/cmd/sqlgen/codegen/codegen.go
+++ b/cmd/sqlgen/codegen/codegen.go
@@ -4,11 +4,9 @@ import (
 	"embed"
 	"errors"
 	"fmt"
-	"io/fs"
 	"log/slog"
 	"os"
 	"os/exec"
-	"path"
 	"path/filepath"
 	"regexp"
 	"strings"
@@ -20,20 +18,12 @@ import (
 	"github.com/samber/lo"
 	"github.com/si3nloong/sqlgen/cmd/sqlgen/codegen/dialect"
 	"github.com/si3nloong/sqlgen/cmd/sqlgen/internal/compiler"
-	"github.com/si3nloong/sqlgen/cmd/sqlgen/internal/fileutil"
 )
 
 var (
 	//go:embed templates/*.go.tpl
 	codegenTemplates embed.FS
 
-	// https://pkg.go.dev/cmd/go#hdr-Generate_Go_files_by_processing_source
-	path2Regex = strings.NewReplacer(
-		`.`, `\.`,
-		`*`, `.*`,
-		`\`, `[\\/]`,
-		`/`, `[\\/]`,
-	)
 	nameRegex = regexp.MustCompile(`(?i)^[a-z]+[a-z0-9\_]*$`)
 	go121     = lo.Must1(semver.NewConstraint(">= 1.2.1"))
 	// goTagRegexp   = regexp.MustCompile(`(?i)^([a-z][a-z_]*[a-z])(\:(\w+))?$`)
@@ -68,99 +58,36 @@ func Generate(c *Config) error {
 		return err
 	}
 
-	var (
-		srcDir  string
-		sources = make([]string, 0, len(cfg.Source))
-	)
-	sources = append(sources, cfg.Source...)
-
 	// Resolve every source provided
-	for len(sources) > 0 {
-		srcDir = strings.TrimSpace(sources[0])
-		if srcDir == "" {
-			return fmt.Errorf("sqlgen: source directory %q is empty path", srcDir)
-		}
-
-		if srcDir == "." {
-			srcDir = fileutil.Getpwd()
-			// If the prefix is ".", mean it's refer to current directory
-		} else if srcDir[0] == '.' {
-			srcDir = fileutil.Getpwd() + srcDir[1:]
-		} else if srcDir[0] != '/' {
-			srcDir = filepath.Join(fileutil.Getpwd(), srcDir)
+	dirs := make([]string, 0)
+	matchers := make(map[string]FileMatcher)
+	for _, src := range cfg.Source {
+		src = strings.TrimSpace(src)
+		if src == "" {
+			return fmt.Errorf("sqlgen: source directory %q is empty path", src)
 		}
 
-		// If suffix is *, we will add go extension to it
-		if srcDir[len(srcDir)-1] == '*' {
-			srcDir = srcDir + ".go"
+		slog.Info("Processing", "src", src)
+		files, err := matchFiles(absPath(src))
+		if err != nil {
+			return fmt.Errorf(`sqlgen: failed to walk schema %s: %w`, src, err)
 		}
-
-		slog.Info("Processing", "dir", srcDir)
-
-		// File: examples/testdata/test.go
-		// Folder: examples/testdata
-		// Wildcard: [examples/**, examples/testdata/**/*.go,  examples/testdata/**/*]
-		// File wildcard: [examples/testdata/*model.go, examples/testdata/*_model.go]
-		var (
-			rootDir    string
-			r                  = regexp.MustCompile(`(?i)((?:\/)([a-z][a-z0-9-_.]+\/)*)\w*\*\w*(?:\.go)`)
-			subMatches         = r.FindStringSubmatch(srcDir)
-			matcher    Matcher = new(EmptyMatcher)
-			dirs               = make([]string, 0)
-		)
-
-		if strings.Contains(srcDir, "**") {
-			paths := strings.SplitN(srcDir, "**", 2)
-			rootDir = strings.TrimSuffix(strings.TrimSpace(paths[0]), "/")
-			suffix := `(?:[\\/]\w+\.\w+)`
-			if paths[1] != "" {
-				suffix = path2Regex.Replace(paths[1])
+		for _, f := range files {
+			if filepath.Base(f) == cfg.Exec.Filename {
+				continue
 			}
-			if err := filepath.WalkDir(rootDir, func(path string, d fs.DirEntry, err error) error {
-				// If the directory is not exists, the "d" will be nil
-				if d == nil || !d.IsDir() {
-					// If it's not a folder, we skip!
-					return nil
-				}
-				dirs = append(dirs, strings.TrimPrefix(path, rootDir))
-				return nil
-			}); err != nil {
-				return fmt.Errorf(`sqlgen: failed to walk schema %s: %w`, paths[0], err)
-			}
-			matcher = &RegexMatcher{regexp.MustCompile(path2Regex.Replace(rootDir) + `([\\/][a-z0-9_-]+)*` + suffix)}
-		} else if len(subMatches) > 0 {
-			rootDir = strings.TrimSuffix(subMatches[1], "/")
-			dirs = append(dirs, "")
-			slog.Info("Submatch", "rootDir", rootDir, "dir", path2Regex.Replace(srcDir))
-			matcher = &RegexMatcher{regexp.MustCompile(path2Regex.Replace(srcDir))}
-		} else {
-			fi, err := os.Stat(srcDir)
-			// If the file or folder not exists, we skip!
-			if os.IsNotExist(err) {
-				goto nextSrc
-			} else if err != nil {
-				return err
-			}
-
-			if fi.IsDir() {
-				// If it's just a folder
-				matcher = FolderMatcher(srcDir)
-			} else {
-				// If it's just a file
-				srcDir = filepath.Dir(srcDir)
-				matcher = FileMatcher{filepath.Join(srcDir, fi.Name()): struct{}{}}
+			dir := filepath.Dir(f)
+			if _, ok := matchers[dir]; !ok {
+				dirs = append(dirs, dir)
+				matchers[dir] = make(FileMatcher)
 			}
-
-			rootDir = srcDir
-			dirs = append(dirs, "")
+			matchers[dir][f] = struct{}{}
 		}
-
-		if err := parseGoPackage(generator, rootDir, dirs, matcher); err != nil {
+	}
+	for _, dir := range dirs {
+		if err := parseGoPackage(generator, dir, matchers[dir]); err != nil {
 			return err
 		}
-
-	nextSrc:
-		sources = sources[1:]
 	}
 
 	if cfg.Database != nil {
@@ -200,78 +127,53 @@ func Generate(c *Config) error {
 
 func parseGoPackage(
 	g *Generator,
-	rootDir string,
-	dirs []string,
+	dir string,
 	matcher Matcher,
 ) error {
-	var dir string
-	var filename string
-	rename := g.config.RenameFunc()
-
-	for len(dirs) > 0 {
-		dir = path.Join(rootDir, dirs[0])
-
-		// Sometimes user might place db destination in the source as well
-		// In this situation, we're not process the folder, we will skip it
-		// if the file is exists in db folder
-		pwd := fileutil.Getpwd()
-		if idx := lo.IndexOf([]string{
-			path.Join(pwd, g.config.Database.Dir),
-			path.Join(pwd, g.config.Database.Operator.Dir),
-		}, dir); idx >= 0 {
-			dirs = dirs[1:]
-			continue
-		}
-
-		slog.Info("Process", "dir", dir)
-		if fileutil.IsDirEmptyFiles(dir, g.config.Exec.Filename) {
-			slog.Info("Folder is empty, so not processing")
-			dirs = dirs[1:]
-			continue
-		}
-
-		filename = path.Join(dir, g.config.Exec.Filename)
-		// Unlink the generated file, ignore the error
-		_ = syscall.Unlink(filename)
-
-		slog.Info("Parse go package", "dir", dir)
-		// Since we're loading one directory at a time,
-		// the return results will only return one package back
-		schema, err := compiler.Parse(dir, &compiler.Config{
-			Tag:        g.config.Tag,
-			RenameFunc: rename,
-			Matcher:    matcher,
-		})
-		if errors.Is(err, compiler.ErrSkip) {
-			goto nextDir
-		} else if err != nil {
-			return err
-		}
+	// Sometimes user might place db destination in the source as well
+	// In this situation, we're not process the folder, we will skip it
+	// if the file is exists in db folder
+	if lo.Contains([]string{
+		absPath(g.config.Database.Dir),
+		absPath(g.config.Database.Operator.Dir),
+	}, dir) {
+		return nil
+	}
 
-		// If the `skip_empty` is true,
-		// we do not generate the go file
-		if g.config.Exec.SkipEmpty && len(schema.Tables) == 0 {
-			goto nextDir
-		}
+	// Unlink the generated file, ignore the error
+	_ = syscall.Unlink(filepath.Join(dir, g.config.Exec.Filename))
+
+	slog.Info("Parse go package", "dir", dir)
+	// Since we're loading one directory at a time,
+	// the return results will only return one package back
+	schema, err := compiler.Parse(dir, &compiler.Config{
+		Tag:        g.config.Tag,
+		RenameFunc: g.config.RenameFunc(),
+		Matcher:    matcher,
+	})
+	if errors.Is(err, compiler.ErrSkip) {
+		return nil
+	} else if err != nil {
+		return err
+	}
 
-		if err := g.generateModels(dir, schema); err != nil {
-			return err
-		}
+	// If the `skip_empty` is true,
+	// we do not generate the go file
+	if g.config.Exec.SkipEmpty && len(schema.Tables) == 0 {
+		return nil
+	}
 
-		// if g.config.Migration != nil {
-		// 	if err := os.MkdirAll(g.config.Migration.Dir, os.ModePerm); err != nil {
-		// 		return err
-		// 	}
+	return g.generateModels(dir, schema)
 
-		// 	if err := g.genMigrations(schema); err != nil {
-		// 		return err
-		// 	}
-		// }
+	// if g.config.Migration != nil {
+	// 	if err := os.MkdirAll(g.config.Migration.Dir, os.ModePerm); err != nil {
+	// 		return err
+	// 	}
 
-	nextDir:
-		dirs = dirs[1:]
-	}
-	return nil
+	// 	if err := g.genMigrations(schema); err != nil {
+	// 		return err
+	// 	}
+	// }
 }
 
 func goModTidy() error {
diff --git a/cmd/sqlgen/codegen/path_matcher.go b/cmd/sqlgen/codegen/path_matcher.go
index bc5a0d5..d836ccd 100644
--- a/cmd/sqlgen/codegen/path_matcher.go
+++ b/cmd/sqlgen/codegen/path_matcher.go
@@ -1,20 +1,19 @@
 package codegen
 
 import (
+	"io/fs"
+	"os"
+	"path/filepath"
 	"regexp"
 	"strings"
+
+	"github.com/si3nloong/sqlgen/cmd/sqlgen/internal/fileutil"
 )
 
 type Matcher interface {
 	Match(v string) bool
 }
 
-type EmptyMatcher struct{}
-
-func (*EmptyMatcher) Match(v string) bool {
-	return true
-}
-
 type FileMatcher map[string]struct{}
 
 func (f FileMatcher) Match(v string) bool {
@@ -22,12 +21,6 @@ func (f FileMatcher) Match(v string) bool {
 	return ok
 }
 
-type FolderMatcher string
-
-func (f FolderMatcher) Match(v string) bool {
-	return strings.HasPrefix(v, (string)(f))
-}
-
 type RegexMatcher struct {
 	*regexp.Regexp
 }
@@ -35,3 +28,107 @@ type RegexMatcher struct {
 func (r *RegexMatcher) Match(v string) bool {
 	return r.MatchString(v)
 }
+
+// matchFiles returns the go files which are selected by the source,
+// it is either one of them :
+//
+//	File: examples/testdata/test.go
+//	Folder: examples/testdata
+//	Wildcard: [examples/**, examples/testdata/**/*.go, examples/testdata/**/*]
+//	File wildcard: [examples/testdata/*model.go, examples/testdata/*_model.go]
+func matchFiles(src string) ([]string, error) {
+	// If suffix is *, we will add go extension to it
+	if strings.HasSuffix(src, "**") {
+		src = filepath.Join(src, "*.go")
+	} else if strings.HasSuffix(src, "*") {
+		src = src + ".go"
+	}
+
+	rootDir, matcher := src, Matcher(nil)
+	if idx := strings.IndexByte(src, '*'); idx >= 0 {
+		rootDir = filepath.Dir(src[:idx] + "*")
+		matcher = &RegexMatcher{globRegexp(src)}
+	} else {
+		fi, err := os.Stat(src)
+		// If the file or folder not exists, we skip!
+		if os.IsNotExist(err) {
+			return nil, nil
+		} else if err != nil {
+			return nil, err
+		}
+
+		if fi.IsDir() {
+			// If it's just a folder
+			matcher = &RegexMatcher{globRegexp(filepath.Join(src, "*.go"))}
+		} else {
+			// If it's just a file
+			rootDir = filepath.Dir(src)
+			matcher = FileMatcher{src: struct{}{}}
+		}
+	}
+
+	files := make([]string, 0)
+	err := filepath.WalkDir(rootDir, func(path string, d fs.DirEntry, err error) error {
+		// If the directory is not exists, the "d" will be nil
+		if d == nil {
+			return nil
+		}
+		if d.IsDir() {
+			// The hidden folder is not covered by the wildcard
+			if path != rootDir && strings.HasPrefix(d.Name(), ".") {
+				return filepath.SkipDir
+			}
+			return nil
+		}
+		if filepath.Ext(path) == ".go" && !strings.HasSuffix(path, "_test.go") && matcher.Match(path) {
+			files = append(files, path)
+		}
+		return nil
+	})
+	return files, err
+}
+
+// globRegexp returns the regexp of the whole path, the "*" covers everything
+// but the path separator, and the "**" covers every folder.
+func globRegexp(pattern string) *regexp.Regexp {
+	var blr strings.Builder
+	blr.WriteString(`(?s)^`)
+	prev := byte('/')
+	pattern = filepath.ToSlash(pattern)
+	for pattern != "" {
+		first := pattern[0]
+		switch {
+		case prev == '/' && strings.HasPrefix(pattern, "**/"):
+			first = '/'
+			blr.WriteString(`(?:[^\\/]+[\\/])*`)
+			pattern = pattern[3:]
+		case strings.HasPrefix(pattern, "**"):
+			blr.WriteString(`.*`)
+			pattern = pattern[2:]
+		case pattern[0] == '*':
+			blr.WriteString(`[^\\/]*`)
+			pattern = pattern[1:]
+		case pattern[0] == '/':
+			blr.WriteString(`[\\/]`)
+			pattern = pattern[1:]
+		default:
+			n := strings.IndexAny(pattern, "*/")
+			if n < 0 {
+				n = len(pattern)
+			}
+			blr.WriteString(regexp.QuoteMeta(pattern[:n]))
+			pattern = pattern[n:]
+		}
+		prev = first
+	}
+	blr.WriteString(`$`)
+	return regexp.MustCompile(blr.String())
+}
+
+// absPath returns the path which is relative to the current directory
+func absPath(path string) string {
+	if filepath.IsAbs(path) {
+		return filepath.Clean(path)
+	}
+	return filepath.Join(fileutil.Getpwd(), path)
+}
-- 
2.43.0


From 13940abbc3f81972cd381f4894e5aaeb6fc5f7d9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:03:37 +0000
Subject: [PATCH 22/49] fix: read the tag options case insensitively

---
 cmd/sqlgen/internal/compiler/tag.go | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/cmd/sqlgen/internal/compiler/tag.go b/cmd/sqlgen/internal/compiler/tag.go
index af3bfa8..b5f42f4 100644
--- a/cmd/sqlgen/internal/compiler/tag.go
+++ b/cmd/sqlgen/internal/compiler/tag.go
@@ -37,7 +37,8 @@ func parseTag(tagVal []string) *structTag {
 			continue
 		}
 		paths := strings.SplitN(v, ":", 2)
-		tag.pos[paths[0]] = 0
+		// Tags are case insensitive
+		tag.pos[strings.ToLower(strings.TrimSpace(paths[0]))] = 0
 	}
 	return &tag
 }
-- 
2.43.0


From cb023fb5c0b24336b940d32f12b5bead7717d32e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:03:37 +0000
Subject: [PATCH 23/49] fix: map the pointers of defined types like the types

---
 cmd/sqlgen/codegen/tool.go | 7 -------
 1 file changed, 7 deletions(-)

diff --git a/cmd/sqlgen/codegen/tool.go b/cmd/sqlgen/codegen/tool.go
index 99444c2..65e2aa5 100644
--- a/cmd/sqlgen/codegen/tool.go
+++ b/cmd/sqlgen/codegen/tool.go
@@ -49,13 +49,6 @@ loop:
 		default:
 			break loop
 		}
-		if v, ok := g.defaultColumnTypes[typeStr]; ok {
-			return v, true
-		}
-		if prev == t {
-			break loop
-		}
-		t = prev
 	}
 	if v, ok := g.defaultColumnTypes[typeStr]; ok {
 		return v, true
-- 
2.43.0


From b207aae401afb147aaeb3c80471a70d5af03ee20 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:03:37 +0000
Subject: [PATCH 24/49] fix: scan NULL into nil bytes

---
 sequel/encoding/string.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/sequel/encoding/string.go b/sequel/encoding/string.go
index 502af87..aa3c6cc 100644
--- a/sequel/encoding/string.go
+++ b/sequel/encoding/string.go
@@ -36,7 +36,7 @@ func (s *strScanner[T, Ptr]) Scan(v any) error {
 			*(**T)(unsafe.Pointer(s.addr)) = nil
 			return nil
 		case *T:
-			*(*T)(unsafe.Pointer(s.addr)) = T("")
+			*(*T)(unsafe.Pointer(s.addr)) = *new(T)
 			return nil
 		default:
 			panic("unreachable")
-- 
2.43.0


From 43272fe7c6e5d616f05d76a51da6f5888da9f1d3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:11:04 +0000
Subject: [PATCH 25/49] fix: store the types which are defined as time.Time as
 times

---
 cmd/sqlgen/codegen/generate.go | 13 +++++++++++++
 cmd/sqlgen/codegen/tool.go     | 11 +++++++++++
 2 files changed, 24 insertions(+)

diff --git a/cmd/sqlgen/codegen/generate.go b/cmd/sqlgen/codegen/generate.go
index 8c7817c..8cb5efa 100644
--- a/cmd/sqlgen/codegen/generate.go
+++ b/cmd/sqlgen/codegen/generate.go
@@ -801,6 +801,8 @@ func (g *Generator) valuer(importPkgs *Package, goPath string, t types.Type) str
 			goPath = addr
 		}
 		return Expr(goutil.GenericFunc(encoding.TextValue[time.Time], "{{.}}")).Format(importPkgs, ExprParams{GoPath: goPath, Type: t, IsPtr: isPtr})
+	} else if isDefinedTime(utype) {
+		return Expr("(time.Time)({{goPath}})").Format(importPkgs, ExprParams{GoPath: goPath, Type: t, IsPtr: isPtr})
 	}
 	return Expr(g.defaultColumnTypes["*"].Valuer).Format(importPkgs, ExprParams{GoPath: goPath, Type: t, IsPtr: isPtr})
 }
@@ -837,6 +839,17 @@ func (g *Generator) scanner(importPkgs *Package, goPath string, t types.Type) st
 		return Expr(columnType.Scanner).Format(importPkgs, ExprParams{GoPath: goPath, Type: t, IsPtr: isPtr, Len: arraySize(t)})
 	} else if isTextCodec(ptr.Elem()) {
 		return Expr(goutil.GenericFuncName(encoding.TextScanner[time.Time, *time.Time, *time.Time], "{{baseType}}", "{{addr}}")).Format(importPkgs, ExprParams{GoPath: goPath, Type: t, IsPtr: isPtr})
+	} else if isDefinedTime(ptr.Elem()) {
+		timePtr := func(goPath string) string {
+			return Expr(goutil.GenericFunc(encoding.TimeScanner[*time.Time], "{{.}}")).Format(importPkgs, ExprParams{
+				GoPath: Expr("(*time.Time)({{addrOfGoPath}})").Format(importPkgs, ExprParams{GoPath: goPath, IsPtr: isPtr}),
+			})
+		}
+		if isPtr {
+			return strings.TrimSuffix(Expr(goutil.GenericFunc(encoding.NullScanner[string], "{{addr}}")).Format(importPkgs, ExprParams{GoPath: goPath}), ")") +
+				", func(v " + importPkgs.TypeString(t) + ") " + Expr("database/sql.Scanner").Format(importPkgs) + " { return " + timePtr("v") + " })"
+		}
+		return timePtr(goPath)
 	}
 	return Expr(g.defaultColumnTypes["*"].Scanner).Format(importPkgs, ExprParams{GoPath: goPath, Type: t, IsPtr: isPtr})
 }
diff --git a/cmd/sqlgen/codegen/tool.go b/cmd/sqlgen/codegen/tool.go
index 65e2aa5..6307e9e 100644
--- a/cmd/sqlgen/codegen/tool.go
+++ b/cmd/sqlgen/codegen/tool.go
@@ -116,6 +116,17 @@ func isTextCodec(t types.Type) bool {
 	return isImplemented(ptr, textMarshaler) && isImplemented(ptr, textUnmarshaler)
 }
 
+// isDefinedTime reports whether the type is defined as "time.Time", and has no JSON codec
+// of its own. The methods of "time.Time" are not inherited, and it has no exported field.
+func isDefinedTime(t types.Type) bool {
+	s, ok := t.Underlying().(*types.Struct)
+	if !ok || s.NumFields() == 0 || s.Field(0).Pkg() == nil || s.Field(0).Pkg().Path() != "time" || s.Field(0).Name() != "wall" {
+		return false
+	}
+	m, _, _ := types.LookupFieldOrMethod(types.NewPointer(t), true, nil, "MarshalJSON")
+	return m == nil
+}
+
 func pointerType(t types.Type) (*types.Pointer, bool) {
 	v, ok := t.(*types.Pointer)
 	if ok {
-- 
2.43.0


From 3977444e77635d1b6dce1e8361a284db5dbfcdbf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:32:51 +0000
Subject: [PATCH 26/49] fix: report the syntax errors of the package

---
 cmd/sqlgen/internal/compiler/parser.go | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/cmd/sqlgen/internal/compiler/parser.go b/cmd/sqlgen/internal/compiler/parser.go
index f7ba258..a7e13e7 100644
--- a/cmd/sqlgen/internal/compiler/parser.go
+++ b/cmd/sqlgen/internal/compiler/parser.go
@@ -42,6 +42,12 @@ func Parse(dir string, cfg *Config) (*Package, error) {
 	}
 
 	pkg := pkgs[0]
+	for _, err := range pkg.Errors {
+		// The other errors may be caused by the generated code which is missing
+		if err.Kind == packages.ParseError {
+			return nil, fmt.Errorf("sqlgen: %w", err)
+		}
+	}
 	structCaches := make([]structCache, 0)
 
 	// Loop thru every go files
-- 
2.43.0


From d1f0cd65b28926f94a865fd453ac61bc3aee9a38 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:32:51 +0000
Subject: [PATCH 27/49] fix: refuse unstorable field types and import names the
 package declares

---
 cmd/sqlgen/codegen/generate.go | 56 ++++++++++++++++++++++++++++++++--
 cmd/sqlgen/codegen/package.go  |  4 ++-
 2 files changed, 56 insertions(+), 4 deletions(-)

diff --git a/cmd/sqlgen/codegen/generate.go b/cmd/sqlgen/codegen/generate.go
index 8cb5efa..d682d0c 100644
--- a/cmd/sqlgen/codegen/generate.go
+++ b/cmd/sqlgen/codegen/generate.go
@@ -11,6 +11,7 @@ import (
 	"go/types"
 	"io"
 	"os"
+	"path"
 	"path/filepath"
 	"strconv"
 	"strings"
@@ -146,6 +147,15 @@ func (g *Generator) generateModels(
 	importPkgs.Import(types.NewPackage("strconv", ""))
 	importPkgs.Import(types.NewPackage("database/sql/driver", ""))
 	importPkgs.Import(types.NewPackage("github.com/si3nloong/sqlgen/sequel", ""))
+	importPkgs.scope = schema.Pkg.Types.Scope()
+
+	for _, t := range tables {
+		for _, f := range t.Columns {
+			if !g.isStorable(f.Type) {
+				return fmt.Errorf("sqlgen: struct %q has field %q of type %s, which can't be stored", t.GoName, f.GoName, f.Type)
+			}
+		}
+	}
 
 	bw := bytes.NewBufferString(``)
 	w := bufio.NewWriter(bw)
@@ -414,7 +424,7 @@ func (g *Generator) generateModels(
 	if err != nil {
 		return err
 	}
-	if err := checkConflicts(formatted, tables); err != nil {
+	if err := checkConflicts(formatted, tables, importPkgs.scope); err != nil {
 		return err
 	}
 
@@ -424,12 +434,22 @@ func (g *Generator) generateModels(
 	return os.WriteFile(filepath.Join(dstDir, g.config.Exec.Filename), formatted, os.ModePerm)
 }
 
-// checkConflicts reports the methods which can't be declared, because the model has a field or other method of the same name
-func checkConflicts(src []byte, tables []*compiler.Table) error {
+// checkConflicts reports the methods which can't be declared, because the model has a field or other method of the same name,
+// and the imports which can't be made, because the package has an identifier of the same name
+func checkConflicts(src []byte, tables []*compiler.Table, scope *types.Scope) error {
 	file, err := parser.ParseFile(token.NewFileSet(), "", src, parser.SkipObjectResolution)
 	if err != nil {
 		return err
 	}
+	for _, spec := range file.Imports {
+		name := path.Base(strings.Trim(spec.Path.Value, `"`))
+		if spec.Name != nil {
+			name = spec.Name.Name
+		}
+		if scope.Lookup(name) != nil {
+			return fmt.Errorf("sqlgen: %q conflicts with the import of %s", name, spec.Path.Value)
+		}
+	}
 	models := lo.KeyBy(tables, func(t *compiler.Table) string { return t.GoName })
 	declared := make(map[string]struct{})
 	for _, d := range file.Decls {
@@ -807,6 +827,36 @@ func (g *Generator) valuer(importPkgs *Package, goPath string, t types.Type) str
 	return Expr(g.defaultColumnTypes["*"].Valuer).Format(importPkgs, ExprParams{GoPath: goPath, Type: t, IsPtr: isPtr})
 }
 
+// isStorable reports whether there is a way to write and read the type
+func (g *Generator) isStorable(t types.Type) bool {
+	if _, ok := g.columnTypes[t.String()]; ok {
+		return true
+	}
+	utype, _ := underlyingType(t)
+	if isValuer(types.NewPointer(utype)) || isTextCodec(utype) {
+		return true
+	}
+	if m, _, _ := types.LookupFieldOrMethod(types.NewPointer(utype), true, nil, "MarshalJSON"); m != nil {
+		return true
+	}
+	switch v := utype.Underlying().(type) {
+	case *types.Chan, *types.Signature:
+		return false
+	case *types.Basic:
+		return v.Info()&types.IsComplex == 0 && v.Kind() != types.UnsafePointer && v.Kind() != types.Invalid
+	case *types.Pointer:
+		return g.isStorable(v.Elem())
+	case *types.Slice:
+		return g.isStorable(v.Elem())
+	case *types.Array:
+		return g.isStorable(v.Elem())
+	case *types.Map:
+		return g.isStorable(v.Elem())
+	default:
+		return true
+	}
+}
+
 func (g *Generator) scanner(importPkgs *Package, goPath string, t types.Type) string {
 	// This is to prevent auto cast if the value is driver.Value
 	switch tv := t.(type) {
diff --git a/cmd/sqlgen/codegen/package.go b/cmd/sqlgen/codegen/package.go
index 43994a1..a6719fa 100644
--- a/cmd/sqlgen/codegen/package.go
+++ b/cmd/sqlgen/codegen/package.go
@@ -13,6 +13,8 @@ type Package struct {
 	name    string
 	cache   map[string]*types.Package
 	imports []*types.Package
+	// The identifiers declared by the package itself
+	scope *types.Scope
 }
 
 func NewPackage(path, name string) *Package {
@@ -67,7 +69,7 @@ func (p *Package) TypeString(t types.Type) string {
 func (p *Package) newAliasIfExists(pkg *types.Package) string {
 	pkgName, newPkgName := pkg.Name(), pkg.Name()
 	for i := 1; ; i++ {
-		if _, ok := p.cache[newPkgName]; ok {
+		if _, ok := p.cache[newPkgName]; ok || (p.scope != nil && p.scope.Lookup(newPkgName) != nil) {
 			newPkgName = pkgName + strconv.Itoa(i)
 			continue
 		}
-- 
2.43.0


From 791889adae69441516b87819db57bbb74d1ff9d6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:34:23 +0000
Subject: [PATCH 28/49] fix: write the whole generated file or none of it

---
 cmd/sqlgen/codegen/generate.go           |  3 ++-
 cmd/sqlgen/codegen/init.go               |  3 ++-
 cmd/sqlgen/internal/fileutil/fileutil.go | 13 +++++++++++++
 3 files changed, 17 insertions(+), 2 deletions(-)

diff --git a/cmd/sqlgen/codegen/generate.go b/cmd/sqlgen/codegen/generate.go
index d682d0c..ce42619 100644
--- a/cmd/sqlgen/codegen/generate.go
+++ b/cmd/sqlgen/codegen/generate.go
@@ -23,6 +23,7 @@ import (
 	"github.com/si3nloong/sqlgen"
 	"github.com/si3nloong/sqlgen/cmd/sqlgen/codegen/dialect"
 	"github.com/si3nloong/sqlgen/cmd/sqlgen/internal/compiler"
+	"github.com/si3nloong/sqlgen/cmd/sqlgen/internal/fileutil"
 	"github.com/si3nloong/sqlgen/cmd/sqlgen/internal/goutil"
 	"github.com/si3nloong/sqlgen/sequel/encoding"
 	"github.com/si3nloong/sqlgen/sequel/strpool"
@@ -431,7 +432,7 @@ func (g *Generator) generateModels(
 	if err := os.MkdirAll(dstDir, os.ModePerm); err != nil {
 		return err
 	}
-	return os.WriteFile(filepath.Join(dstDir, g.config.Exec.Filename), formatted, os.ModePerm)
+	return fileutil.WriteFile(filepath.Join(dstDir, g.config.Exec.Filename), formatted)
 }
 
 // checkConflicts reports the methods which can't be declared, because the model has a field or other method of the same name,
diff --git a/cmd/sqlgen/codegen/init.go b/cmd/sqlgen/codegen/init.go
index 5bd475e..a5b64d4 100644
--- a/cmd/sqlgen/codegen/init.go
+++ b/cmd/sqlgen/codegen/init.go
@@ -12,6 +12,7 @@ import (
 	"text/template"
 
 	"github.com/goccy/go-yaml"
+	"github.com/si3nloong/sqlgen/cmd/sqlgen/internal/fileutil"
 	"golang.org/x/tools/imports"
 )
 
@@ -109,7 +110,7 @@ func renderTemplate(
 	}
 
 	slog.Info("Creating " + fileDest)
-	if err := os.WriteFile(fileDest, formatted, os.ModePerm); err != nil {
+	if err := fileutil.WriteFile(fileDest, formatted); err != nil {
 		return err
 	}
 	return nil
diff --git a/cmd/sqlgen/internal/fileutil/fileutil.go b/cmd/sqlgen/internal/fileutil/fileutil.go
index ab0804a..52e7074 100644
--- a/cmd/sqlgen/internal/fileutil/fileutil.go
+++ b/cmd/sqlgen/internal/fileutil/fileutil.go
@@ -19,6 +19,19 @@ func IsFileExists(path string) bool {
 	return err == nil
 }
 
+// WriteFile writes the whole file or, when it fails, leaves what was there before.
+func WriteFile(path string, data []byte) error {
+	tmp := path + ".tmp"
+	err := os.WriteFile(tmp, data, os.ModePerm)
+	if err == nil {
+		err = os.Rename(tmp, path)
+	}
+	if err != nil {
+		_ = os.Remove(tmp)
+	}
+	return err
+}
+
 func CurDir() string {
 	_, path, _, _ := runtime.Caller(1)
 	return filepath.Dir(path)
-- 
2.43.0


From cd1df52f84dbd0fe02230df1e813b7cc927c5097 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:00:10 +0000
Subject: [PATCH 29/49] fix: let the data types of the user go before the basic
 types

---
 cmd/sqlgen/codegen/generate.go | 14 ++++++++++----
 1 file changed, 10 insertions(+), 4 deletions(-)

diff --git a/cmd/sqlgen/codegen/generate.go b/cmd/sqlgen/codegen/generate.go
index ce42619..7691d3e 100644
--- a/cmd/sqlgen/codegen/generate.go
+++ b/cmd/sqlgen/codegen/generate.go
@@ -780,6 +780,10 @@ func (g *Generator) getOrValue(importPkgs *Package, obj string, f *compiler.Colu
 }
 
 func (g *Generator) isBasicType(t types.Type) bool {
+	// The user may have its own way to write the type
+	if columnType, ok := g.columnTypes[t.String()]; ok && columnType.Valuer != "" {
+		return false
+	}
 	// This is to prevent auto cast if the value is driver.Value
 	switch tv := t.(type) {
 	case *types.Basic:
@@ -859,6 +863,11 @@ func (g *Generator) isStorable(t types.Type) bool {
 }
 
 func (g *Generator) scanner(importPkgs *Package, goPath string, t types.Type) string {
+	ptr, isPtr := pointerType(t)
+	// The user may have its own way to read the type
+	if columnType, ok := g.columnTypes[t.String()]; ok && columnType.Scanner != "" {
+		return Expr(columnType.Scanner).Format(importPkgs, ExprParams{GoPath: goPath, Type: t, IsPtr: isPtr})
+	}
 	// This is to prevent auto cast if the value is driver.Value
 	switch tv := t.(type) {
 	case *types.Basic:
@@ -872,10 +881,7 @@ func (g *Generator) scanner(importPkgs *Package, goPath string, t types.Type) st
 			return goPath
 		}
 	}
-	ptr, isPtr := pointerType(t)
-	if columnType, ok := g.columnTypes[t.String()]; ok && columnType.Scanner != "" {
-		return Expr(columnType.Scanner).Format(importPkgs, ExprParams{GoPath: goPath, Type: t, IsPtr: isPtr})
-	} else if isImplemented(ptr, goSqlScanner) {
+	if isImplemented(ptr, goSqlScanner) {
 		if isPtr {
 			return Expr(goutil.GenericFunc(encoding.PtrScanner[sql.NullString], "{{addr}}")).Format(importPkgs, ExprParams{GoPath: goPath, Type: t, IsPtr: isPtr})
 		}
-- 
2.43.0


From ab74becce302f51c2b15515ccf340bcbdfdcd507 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:14:25 +0000
Subject: [PATCH 30/49] fix: insert the values of the insertable columns

---
 cmd/sqlgen/codegen/templates/db.go.tpl | 188 ++++++++++---------------
 1 file changed, 75 insertions(+), 113 deletions(-)

diff --git a/cmd/sqlgen/codegen/templates/db.go.tpl b/cmd/sqlgen/codegen/templates/db.go.tpl
index 9d68c69..a7434aa 100644
--- a/cmd/sqlgen/codegen/templates/db.go.tpl
+++ b/cmd/sqlgen/codegen/templates/db.go.tpl
@@ -21,7 +21,8 @@ func InsertOne[T sequel.ColumnValuer, Ptr interface {
 		query, args := v.InsertOneStmt()
 		return db.QueryRowContext(ctx, query, args...).Scan(model.Addrs()...)
 	default:
-		columns, args := model.Columns(), model.Values()
+		columns, autoIdx := insertColumns(model)
+		args := insertValues(model, autoIdx)
 		stmt := strpool.AcquireString()
 		stmt.WriteString("INSERT INTO " + DbTable(model) + " (" + strings.Join(columns, ",") + ") VALUES ({{ quoteVar 1 }}")
 		noOfArgs := len(args)
@@ -35,9 +36,8 @@ func InsertOne[T sequel.ColumnValuer, Ptr interface {
 	}
 }	
 {{ else }}
-type autoIncrKeyInserter interface {
+type autoIncrKeyScanner interface {
 	sequel.AutoIncrKeyer
-	sequel.SingleInserter
 	ScanAutoIncr(int64) error
 }
 
@@ -45,26 +45,30 @@ func InsertOne[T sequel.ColumnValuer, Ptr interface {
 	sequel.ColumnValuer
 	sequel.PtrScanner[T]
 }](ctx context.Context, db *sql.DB, model Ptr) (sql.Result, error) {
+	var (
+		query string
+		args  []any
+	)
 	switch v := any(model).(type) {
-	case autoIncrKeyInserter:
-		query, args := v.InsertOneStmt()
-		result, err := db.ExecContext(ctx, query, args...)
-		if err != nil {
-			return nil, err
-		}
+	case sequel.SingleInserter:
+		query, args = v.InsertOneStmt()
+	default:
+		columns, autoIdx := insertColumns(model)
+		args = insertValues(model, autoIdx)
+		query = "INSERT INTO " + DbTable(model) + " (" + strings.Join(columns, ",") + ") VALUES (" + strings.Repeat("{{ quoteVar 1 }},", len(columns)-1) + "{{ quoteVar 1 }});"
+	}
+	result, err := db.ExecContext(ctx, query, args...)
+	if err != nil {
+		return nil, err
+	}
+	if v, ok := any(model).(autoIncrKeyScanner); ok {
 		i64, err := result.LastInsertId()
 		if err != nil {
 			return nil, err
 		}
 		return result, v.ScanAutoIncr(i64)
-	case sequel.SingleInserter:
-		query, args := v.InsertOneStmt()
-		return db.ExecContext(ctx, query, args...)
-	default:
-		columns, args := model.Columns(), model.Values()
-		query := "INSERT INTO "+DbTable(model)+" ("+strings.Join(columns, ",")+") VALUES ("+strings.Repeat("{{ quoteVar 1 }},", len(columns) - 1)+"{{ quoteVar 1 }});"
-		return db.ExecContext(ctx, query, args...)
 	}
+	return result, nil
 }
 {{ end }}
 
@@ -78,67 +82,30 @@ func Insert[T sequel.Inserter, Ptr sequel.PtrScanner[T]](ctx context.Context, db
 	}
 
 	model := data[0]
-	columns := model.Columns()
+	columns, autoIdx := insertColumns(model)
+	args := make([]any, 0, len(columns)*noOfData)
 	stmt := strpool.AcquireString()
-
-	switch v := any(model).(type) {
-	case sequel.AutoIncrKeyer:
-		_, idx, _ := v.PK()
-		columns = append(columns[:idx], columns[idx+1:]...)
-		noOfCols := len(columns)
-		cols := strings.Join(columns, ",")
-		args := make([]any, 0, noOfCols*noOfData)
-		stmt.WriteString("INSERT INTO " + DbTable(model) + " (" + cols + ") VALUES ")
-		for i := range data {
-			if i > 0 {
-				stmt.WriteString("," + model.InsertPlaceholders(i))
-			} else {
-				stmt.WriteString(model.InsertPlaceholders(i))
-			}
-			values := data[i].Values()
-			values = append(values[:idx], values[idx+1:]...)
-			args = append(args, values...)
-		}
-		stmt.WriteString(" RETURNING " + strings.Join(TableColumns(model), ",") + ";")
-		rows, err := db.QueryContext(ctx, stmt.String(), args...)
-		strpool.ReleaseString(stmt) // Deallocate statement
-		if err != nil {
-			return nil, err
-		}
-		defer rows.Close()
-		var i int64
-		for rows.Next() {
-			if err := rows.Scan(Ptr(&data[i]).Addrs()...); err != nil {
-				return nil, err
-			}
-			i++
-		}
-		return sequel.NewRowsAffectedResult(i), rows.Close()
-	default:
-		noOfCols := len(columns)
-		args := make([]any, 0, noOfCols*noOfData)
-		stmt.WriteString("INSERT INTO " + DbTable(model) + " (" + strings.Join(columns, ",") + ") VALUES "+ model.InsertPlaceholders(0))
-		args = append(args, data[0].Values()...)
-		for i := 1; i < noOfData; i++ {
-			stmt.WriteString("," + model.InsertPlaceholders(i))
-			args = append(args, data[i].Values()...)
-		}
-		stmt.WriteString(" RETURNING " + strings.Join(TableColumns(model), ",") + ";")
-		rows, err := db.QueryContext(ctx, stmt.String(), args...)
-		strpool.ReleaseString(stmt) // Deallocate statement
-		if err != nil {
+	stmt.WriteString("INSERT INTO " + DbTable(model) + " (" + strings.Join(columns, ",") + ") VALUES " + model.InsertPlaceholders(0))
+	args = append(args, insertValues(model, autoIdx)...)
+	for i := 1; i < noOfData; i++ {
+		stmt.WriteString("," + model.InsertPlaceholders(i))
+		args = append(args, insertValues(data[i], autoIdx)...)
+	}
+	stmt.WriteString(" RETURNING " + strings.Join(TableColumns(model), ",") + ";")
+	rows, err := db.QueryContext(ctx, stmt.String(), args...)
+	strpool.ReleaseString(stmt) // Deallocate statement
+	if err != nil {
+		return nil, err
+	}
+	defer rows.Close()
+	var i int64
+	for rows.Next() {
+		if err := rows.Scan(Ptr(&data[i]).Addrs()...); err != nil {
 			return nil, err
 		}
-		defer rows.Close()
-		var i int64
-		for rows.Next() {
-			if err := rows.Scan(Ptr(&data[i]).Addrs()...); err != nil {
-				return nil, err
-			}
-			i++
-		}
-		return sequel.NewRowsAffectedResult(i), rows.Close()
+		i++
 	}
+	return sequel.NewRowsAffectedResult(i), rows.Close()
 }
 {{ else }}
 // Insert is a helper function to insert multiple records.
@@ -149,48 +116,20 @@ func Insert[T sequel.ColumnValuer](ctx context.Context, db *sql.DB, data []T) (s
 	}
 
 	model := data[0]
-	columns := model.Columns()
+	columns, autoIdx := insertColumns(model)
+	args := make([]any, 0, len(columns)*noOfData)
+	placeholder := "(" + strings.Repeat(",{{ quoteVar 1 }}", len(columns))[1:] + ")"
 	stmt := strpool.AcquireString()
-
-	switch v := any(model).(type) {
-	case sequel.AutoIncrKeyer:
-		_, idx, _ := v.PK()
-		columns = append(columns[:idx], columns[idx+1:]...)
-		noOfCols := len(columns)
-		cols := strings.Join(columns, ",")
-		args := make([]any, 0, noOfCols*noOfData)
-		stmt.WriteString("INSERT INTO " + DbTable(model) + " (" + cols + ") VALUES ")
-		placeholder := "(" + strings.Repeat(",{{ quoteVar 1 }}", noOfCols)[1:] + ")"
-		for i := range data {
-			if i > 0 {
-				stmt.WriteString("," + placeholder)
-			} else {
-				stmt.WriteString(placeholder)
-			}
-			values := data[i].Values()
-			values = append(values[:idx], values[idx+1:]...)
-			args = append(args, values...)
-		}
-		stmt.WriteByte(';')
-		result, err := db.ExecContext(ctx, stmt.String(), args...)
-		strpool.ReleaseString(stmt)
-		return result, err
-	default:
-		noOfCols := len(columns)
-		cols := strings.Join(columns, ",")
-		args := make([]any, 0, noOfCols*noOfData)
-		placeholder := "(" + strings.Repeat(",{{ quoteVar 1 }}", noOfCols)[1:] + ")"
-		stmt.WriteString("INSERT INTO " + DbTable(model) + " (" + cols + ") VALUES "+ placeholder)
-		args = append(args, data[0].Values()...)
-		for i := 1; i < noOfData; i++ {
-			stmt.WriteString("," + placeholder)
-			args = append(args, data[i].Values()...)
-		}
-		stmt.WriteByte(';')
-		result, err := db.ExecContext(ctx, stmt.String(), args...)
-		strpool.ReleaseString(stmt)
-		return result, err
+	stmt.WriteString("INSERT INTO " + DbTable(model) + " (" + strings.Join(columns, ",") + ") VALUES " + placeholder)
+	args = append(args, insertValues(model, autoIdx)...)
+	for i := 1; i < noOfData; i++ {
+		stmt.WriteString("," + placeholder)
+		args = append(args, insertValues(data[i], autoIdx)...)
 	}
+	stmt.WriteByte(';')
+	result, err := db.ExecContext(ctx, stmt.String(), args...)
+	strpool.ReleaseString(stmt)
+	return result, err
 }
 {{ end }}
 
@@ -1544,6 +1483,29 @@ func TableColumns[T sequel.Columner](model T) []string {
 	return model.Columns()
 }
 
+// insertColumns returns the columns to insert. If the values has the auto increment key,
+// which is left to the database, it returns the position of the key as well.
+func insertColumns[T sequel.Columner](model T) ([]string, int) {
+	if v, ok := any(model).(sequel.InsertColumner); ok {
+		return v.InsertColumns(), -1
+	}
+	columns := model.Columns()
+	if v, ok := any(model).(sequel.AutoIncrKeyer); ok {
+		_, idx, _ := v.PK()
+		return append(columns[:idx:idx], columns[idx+1:]...), idx
+	}
+	return columns, -1
+}
+
+// insertValues returns the values of the columns to insert.
+func insertValues[T sequel.Valuer](model T, autoIdx int) []any {
+	values := model.Values()
+	if autoIdx < 0 {
+		return values
+	}
+	return append(values[:autoIdx:autoIdx], values[autoIdx+1:]...)
+}
+
 func dbName(model any) string {
 	if v, ok := model.(sequel.Databaser); ok {
 		return v.DatabaseName() + "."
-- 
2.43.0


From bd1cd68e96af762c14590b34c6811daf0a44b1c5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:14:57 +0000
Subject: [PATCH 31/49] fix: upsert with matching columns, placeholders and
 conflict clauses

---
 cmd/sqlgen/codegen/templates/db.go.tpl | 537 ++++++++++---------------
 1 file changed, 205 insertions(+), 332 deletions(-)

diff --git a/cmd/sqlgen/codegen/templates/db.go.tpl b/cmd/sqlgen/codegen/templates/db.go.tpl
index a7434aa..cd94da7 100644
--- a/cmd/sqlgen/codegen/templates/db.go.tpl
+++ b/cmd/sqlgen/codegen/templates/db.go.tpl
@@ -175,80 +175,13 @@ func UpsertOne[T sequel.KeyValuer, Ptr interface{
 		opts[i](&opt)
 	}
 
-	var (
-		stmt     = strpool.AcquireString()
-		columns  = model.Columns()
-		noOfCols = len(columns)
-		values   = model.Values()
-	)
+	columns, autoIdx := insertColumns(model)
+	stmt := strpool.AcquireString()
 	defer strpool.ReleaseString(stmt)
-
-	switch v := any(model).(type) {
-	case sequel.AutoIncrKeyer:
-		pkName, idx, _ := v.PK()
-		opt.omitFields = append(opt.omitFields, pkName)
-		columns = append(columns[:idx], columns[idx+1:]...)
-		values = append(values[:idx], values[idx+1:]...)
-		// Don't include auto increment primary key on INSERT
-		stmt.WriteString("INSERT INTO " + DbTable(model) + " (" + strings.Join(columns, ",") + ") VALUES ")
-	case sequel.PrimaryKeyer:
-		pkName, _, _ := v.PK()
-		opt.omitFields = append(opt.omitFields, pkName)
-		stmt.WriteString("INSERT INTO " + DbTable(model) + " (" + strings.Join(columns, ",") + ") VALUES ")
-	case sequel.CompositeKeyer:
-		keyNames, _, _ := v.CompositeKey()
-		opt.omitFields = append(opt.omitFields, keyNames...)
-		stmt.WriteString("INSERT INTO " + DbTable(model) + " (" + strings.Join(columns, ",") + ") VALUES ")
-	default:
-		panic("unreachable")
-	}
-	stmt.WriteString(model.InsertPlaceholders(0))
-	if len(opt.duplicateKeys) > 0 {
-		stmt.WriteString(" ON CONFLICT(" + strings.Join(opt.duplicateKeys, ",") + ")")
-	} else {
-		switch vi := any(model).(type) {
-		case duplicateKeyer:
-			keys := vi.DuplicateKeys()
-			opt.omitFields = append(opt.omitFields, keys...)
-			stmt.WriteString(" ON CONFLICT(" + strings.Join(keys, ",") + ")")
-		case sequel.PrimaryKeyer:
-			pkName, _, _ := vi.PK()
-			stmt.WriteString(" ON CONFLICT(" + pkName + ")")
-		case sequel.CompositeKeyer:
-			names, _, _ := vi.CompositeKey()
-			stmt.WriteString(" ON CONFLICT(" + strings.Join(names, ",") + ")")
-		default:
-			panic("unreachable")
-		}
-	}
-	if opt.doNothing {
-		stmt.WriteString(" DO NOTHING")
-	} else {
-		stmt.WriteString(" DO UPDATE SET ")
-		omitDict := make(map[string]struct{})
-		noOfCols = len(columns)
-		if omitter, ok := any(model).(setOnUpsertOmitter); ok {
-			opt.omitFields = append(opt.omitFields, omitter.OnUpsertOmitColumns()...)
-		}
-		for i := range opt.omitFields {
-			omitDict[opt.omitFields[i]] = struct{}{}
-		}
-		first := true
-		for i := 0; i < noOfCols; i++ {
-			if _, ok := omitDict[columns[i]]; ok {
-				continue
-			}
-			if first {
-				stmt.WriteString(columns[i] + " = EXCLUDED." + columns[i])
-			} else {
-				stmt.WriteString(","+ columns[i] + " = EXCLUDED." + columns[i])
-			}
-			first = false
-		}
-		clear(omitDict)
-	}
+	stmt.WriteString("INSERT INTO " + DbTable(model) + " (" + strings.Join(columns, ",") + ") VALUES " + model.InsertPlaceholders(0))
+	writeOnConflict(stmt, model, columns, &opt)
 	stmt.WriteString(" RETURNING " + strings.Join(TableColumns(model), ",") + ";")
-	return db.QueryRowContext(ctx, stmt.String(), values...).Scan(model.Addrs()...)
+	return db.QueryRowContext(ctx, stmt.String(), insertValues(model, autoIdx)...).Scan(model.Addrs()...)
 }
 
 // Upsert is a helper function to upsert multiple records.
@@ -261,111 +194,28 @@ func Upsert[T interface {
 		return new(sequel.EmptyResult), nil
 	}
 
-	var (
-		model    = data[0]
-		columns  = model.Columns()
-		noOfCols = len(columns)
-		args     = make([]any, 0, noOfCols*noOfData)
-		opt      upsertOpts
-	)
-
+	var opt upsertOpts
 	for i := range opts {
 		opts[i](&opt)
 	}
 
-	var stmt = strpool.AcquireString()
-	switch v := any(model).(type) {
-	case sequel.AutoIncrKeyer:
-		pkName, idx, _ := v.PK()
-		opt.omitFields = append(opt.omitFields, pkName)
-		columns = append(columns[:idx], columns[idx+1:]...)
-		// Don't include auto increment primary key on INSERT
-		stmt.WriteString("INSERT INTO " + DbTable(model) + " (" + strings.Join(columns, ",") + ") VALUES ")
-		
-		for i := 0; i < noOfData; i++ {
-			if i > 0 {
-				stmt.WriteString("," + model.InsertPlaceholders(i))
-			} else {
-				stmt.WriteString(model.InsertPlaceholders(i))
-			}
-			values := data[i].Values()
-			values = append(values[:idx], values[idx+1:]...)
-			args = append(args, values...)
-		}
-	case sequel.PrimaryKeyer:
-		pkName, _, _ := v.PK()
-		opt.omitFields = append(opt.omitFields, pkName)
-		stmt.WriteString("INSERT INTO " + DbTable(model) + " (" + strings.Join(columns, ",") + ") VALUES ")
-		for i := 0; i < noOfData; i++ {
-			if i > 0 {
-				stmt.WriteString("," + model.InsertPlaceholders(i))
-			} else {
-				stmt.WriteString(model.InsertPlaceholders(i))
-			}
-			args = append(args, data[i].Values()...)
-		}
-	case sequel.CompositeKeyer:
-		keyNames, _, _ := v.CompositeKey()
-		opt.omitFields = append(opt.omitFields, keyNames...)
-		stmt.WriteString("INSERT INTO " + DbTable(model) + " (" + strings.Join(columns, ",") + ") VALUES ")
-		for i := 0; i < noOfData; i++ {
-			if i > 0 {
-				stmt.WriteString("," + model.InsertPlaceholders(i))
-			} else {
-				stmt.WriteString(model.InsertPlaceholders(i))
-			}
-			args = append(args, data[i].Values()...)
-		}
-	default:
-		panic("unreachable")
-	}
-	if len(opt.duplicateKeys) > 0 {
-		stmt.WriteString(" ON CONFLICT(" + strings.Join(opt.duplicateKeys, ",") + ")")
-	} else {
-		switch vi := any(model).(type) {
-		case duplicateKeyer:
-			keys := vi.DuplicateKeys()
-			opt.omitFields = append(opt.omitFields, keys...)
-			stmt.WriteString(" ON CONFLICT(" + strings.Join(keys, ",") + ")")
-		case sequel.PrimaryKeyer:
-			pkName, _, _ := vi.PK()
-			stmt.WriteString(" ON CONFLICT(" + pkName + ")")
-		case sequel.CompositeKeyer:
-			names, _, _ := vi.CompositeKey()
-			// // Exclude primary key, don't update it
-			// for i := len(idxs) - 1; i >= 0; i-- {
-			// 	columns = append(columns[:idxs[i]], columns[idxs[i]+1:]...)
-			// }
-			stmt.WriteString(" ON CONFLICT(" + strings.Join(names, ",") + ")")
-		default:
-			panic("unreachable")
-		}
+	model := data[0]
+	columns, autoIdx := insertColumns(model)
+	args := make([]any, 0, len(columns)*noOfData)
+	stmt := strpool.AcquireString()
+	stmt.WriteString("INSERT INTO " + DbTable(model) + " (" + strings.Join(columns, ",") + ") VALUES " + model.InsertPlaceholders(0))
+	args = append(args, insertValues(model, autoIdx)...)
+	for i := 1; i < noOfData; i++ {
+		stmt.WriteString("," + model.InsertPlaceholders(i))
+		args = append(args, insertValues(data[i], autoIdx)...)
 	}
+	writeOnConflict(stmt, model, columns, &opt)
 	if opt.doNothing {
-		stmt.WriteString(" DO NOTHING")
-	} else {
-		stmt.WriteString(" DO UPDATE SET ")
-		omitDict := make(map[string]struct{})
-		if omitter, ok := any(model).(setOnUpsertOmitter); ok {
-			opt.omitFields = append(opt.omitFields, omitter.OnUpsertOmitColumns()...)
-		}
-		columns = model.Columns()
-		for i := range opt.omitFields {
-			omitDict[opt.omitFields[i]] = struct{}{}
-		}
-		first := true
-		for i := 0; i < noOfCols; i++ {
-			if _, ok := omitDict[columns[i]]; ok {
-				continue
-			}
-			if first {
-				stmt.WriteString(columns[i] + " = EXCLUDED." + columns[i])
-			} else {
-				stmt.WriteString(","+ columns[i] + " = EXCLUDED." + columns[i])
-			}
-			first = false
-		}
-		clear(omitDict)
+		// Only the inserted rows are returned, it's unknown which records they belong to
+		stmt.WriteByte(';')
+		result, err := db.ExecContext(ctx, stmt.String(), args...)
+		strpool.ReleaseString(stmt) // Deallocate statement
+		return result, err
 	}
 	stmt.WriteString(" RETURNING " + strings.Join(TableColumns(model), ",") + ";")
 	rows, err := db.QueryContext(ctx, stmt.String(), args...)
@@ -383,91 +233,116 @@ func Upsert[T interface {
 	}
 	return sequel.NewRowsAffectedResult(i), rows.Close()
 }
+
+// writeOnConflict writes what to do with the existing record, the keys and the omitted columns will never be updated.
+func writeOnConflict(stmt *strings.Builder, model any, columns []string, opt *upsertOpts) {
+	omitDict := make(map[string]struct{})
+	var keys []string
+	switch v := model.(type) {
+	case sequel.PrimaryKeyer:
+		pkName, _, _ := v.PK()
+		keys = []string{pkName}
+	case sequel.CompositeKeyer:
+		keys, _, _ = v.CompositeKey()
+	default:
+		panic("unreachable")
+	}
+	for i := range keys {
+		omitDict[keys[i]] = struct{}{}
+	}
+	if len(opt.duplicateKeys) > 0 {
+		keys = opt.duplicateKeys
+	} else if v, ok := model.(duplicateKeyer); ok {
+		keys = v.DuplicateKeys()
+	}
+	stmt.WriteString(" ON CONFLICT(" + strings.Join(keys, ",") + ")")
+	if opt.doNothing {
+		stmt.WriteString(" DO NOTHING")
+		return
+	}
+	for i := range keys {
+		omitDict[keys[i]] = struct{}{}
+	}
+	for i := range opt.omitFields {
+		omitDict[opt.omitFields[i]] = struct{}{}
+	}
+	if v, ok := model.(setOnUpsertOmitter); ok {
+		omitted := v.OnUpsertOmitColumns()
+		for i := range omitted {
+			omitDict[omitted[i]] = struct{}{}
+		}
+	}
+	stmt.WriteString(" DO UPDATE SET ")
+	first := true
+	for i := range columns {
+		if _, ok := omitDict[columns[i]]; ok {
+			continue
+		}
+		if !first {
+			stmt.WriteByte(',')
+		}
+		stmt.WriteString(columns[i] + " = EXCLUDED." + columns[i])
+		first = false
+	}
+	if first {
+		// There is nothing to update, the value of the key is the same
+		stmt.WriteString(keys[0] + " = EXCLUDED." + keys[0])
+	}
+}
 {{ else }}
 func UpsertOne[T sequel.KeyValuer, Ptr sequel.KeyValueScanner[T]](ctx context.Context, db *sql.DB, model Ptr, override bool, omittedFields ...string) (sql.Result, error) {
+	columns, autoIdx := insertColumns(model)
+	values := insertValues(model, autoIdx)
 	stmt := strpool.AcquireString()
 	defer strpool.ReleaseString(stmt)
-	switch v := any(model).(type) {
-	case sequel.PrimaryKeyer:
-		pkName, idx, _ := v.PK()
-		columns := model.Columns()
-		if !override {
-			stmt.WriteString("INSERT IGNORE INTO " + DbTable(model) + " (" + strings.Join(columns, ",") + ") VALUES (" + strings.Repeat(",?", len(columns))[1:] + ");")
-		} else {
-			omitDict := map[string]struct{}{pkName: {}}
-			for i := range omittedFields {
-				omitDict[omittedFields[i]] = struct{}{}
-			}
-			noOfCols := len(columns)
-			stmt.WriteString("INSERT INTO " + DbTable(model) + " (" + strings.Join(columns, ",") + ") VALUES (" + strings.Repeat(",?", noOfCols)[1:] + ") ON DUPLICATE KEY UPDATE ")
-			first := true
-			for i := range columns {
-				if _, ok := omitDict[columns[i]]; ok {
-					continue
-				}
-				if first {
-					stmt.WriteString(columns[i] + " =VALUES(" + columns[i] + ")")
-				} else {
-					stmt.WriteString(","+ columns[i] + " =VALUES(" + columns[i] + ")")
-				}
-				first = false
-			}
-			clear(omitDict)
-		}
-		if _, ok := any(model).(sequel.AutoIncrKeyer); ok {
-			result, err := db.ExecContext(ctx, stmt.String(), model.Values()...)
-			if err != nil {
-				return nil, err
-			}
-			i64, err := result.LastInsertId()
-			if err != nil {
-				return nil, err
-			}
-			switch v := model.Addrs()[idx].(type) {
-			case *int64:
-				*v = i64
-			case sql.Scanner:
-				if err := v.Scan(i64); err != nil {
-					return nil, err
-				}
-			default:
-				return nil, fmt.Errorf(`sqlgen: invalid auto increment data type %T`, v)
-			}
-			return result, nil
-		}
-		return db.ExecContext(ctx, stmt.String(), model.Values()...)
-	case sequel.CompositeKeyer:
-		names, idxs, _ := v.CompositeKey()
-		columns := model.Columns()
-		if !override {
-			stmt.WriteString("INSERT IGNORE INTO " + DbTable(model) + " (" + strings.Join(columns, ",") + ") VALUES (" + strings.Repeat(",?", len(columns))[1:] + ");")
-		} else {
-			dict := make(map[string]struct{})
-			for i := range append(names, omittedFields...) {
-				dict[omittedFields[i]] = struct{}{}
-			}
-			noOfCols := len(columns)
-			stmt.WriteString("INSERT INTO " + DbTable(model) + " (" + strings.Join(columns, ",") + ") VALUES (" + strings.Repeat(",?", noOfCols)[1:] + ") ON DUPLICATE KEY UPDATE ")
-			// Exclude composite key, don't update it
-			for i := len(idxs) - 1; i >= 0; i-- {
-				columns = append(columns[:idxs[i]], columns[idxs[i]+1:]...)
-			}
-			for i := range columns {
-				if _, ok := dict[columns[i]]; ok {
-					continue
-				}
-				if i < noOfCols-1 {
-					stmt.WriteString(columns[i] + " =VALUES(" + columns[i] + "),")
-				} else {
-					stmt.WriteString(columns[i] + " =VALUES(" + columns[i] + ")")
-				}
-			}
-			clear(dict)
+	writeUpsertInto(stmt, override)
+	stmt.WriteString(DbTable(model) + " (" + strings.Join(columns, ",") + ") VALUES (" + strings.Repeat(",{{ quoteVar 1 }}", len(columns))[1:] + ")")
+	writeOnConflict(stmt, model, columns, override, omittedFields)
+	v, ok := any(model).(sequel.AutoIncrKeyer)
+	if !ok {
+		stmt.WriteByte(';')
+		return db.ExecContext(ctx, stmt.String(), values...)
+	}
+	{{ if eq driver "sqlite" -}}
+	{{- /* sqlite */ -}}
+	// The last insert id is not changed when the record is updated
+	pkName, idx, _ := v.PK()
+	stmt.WriteString(" RETURNING " + pkName + ";")
+	switch err := db.QueryRowContext(ctx, stmt.String(), values...).Scan(model.Addrs()[idx]); err {
+	case nil:
+		return sequel.NewRowsAffectedResult(1), nil
+	case sql.ErrNoRows:
+		return new(sequel.EmptyResult), nil
+	default:
+		return nil, err
+	}
+	{{ else -}}
+	_, idx, _ := v.PK()
+	stmt.WriteByte(';')
+	result, err := db.ExecContext(ctx, stmt.String(), values...)
+	if err != nil {
+		return nil, err
+	}
+	i64, err := result.LastInsertId()
+	if err != nil {
+		return nil, err
+	}
+	if i64 == 0 {
+		// The existing record is left alone
+		return result, nil
+	}
+	switch v := model.Addrs()[idx].(type) {
+	case *int64:
+		*v = i64
+	case sql.Scanner:
+		if err := v.Scan(i64); err != nil {
+			return nil, err
 		}
-		return db.ExecContext(ctx, stmt.String(), model.Values()...)
 	default:
-		panic("unreachable")
+		return nil, fmt.Errorf(`sqlgen: invalid auto increment data type %T`, v)
 	}
+	return result, nil
+	{{ end -}}
 }
 
 // Upsert is a helper function to upsert multiple records.
@@ -480,97 +355,95 @@ func Upsert[T interface {
 		return new(sequel.EmptyResult), nil
 	}
 
-	var (
-		model    = data[0]
-		columns  = model.Columns()
-		noOfCols = len(columns)
-		args     = make([]any, 0, noOfCols*noOfData)
-	)
-
-	var stmt = strpool.AcquireString()
+	model := data[0]
+	columns, autoIdx := insertColumns(model)
+	args := make([]any, 0, len(columns)*noOfData)
+	stmt := strpool.AcquireString()
 	defer strpool.ReleaseString(stmt)
-	switch v := any(model).(type) {
-	case sequel.AutoIncrKeyer:
-		pkName, idx, _ := v.PK()
-		omittedFields = append(omittedFields, pkName)
-		// Don't include auto increment primary key on INSERT
-		columns = append(columns[:idx], columns[idx+1:]...)
-		if override {
-			stmt.WriteString("INSERT INTO " + DbTable(model) + " (" + strings.Join(columns, ",") + ") VALUES ")
-		} else {
-			stmt.WriteString("INSERT IGNORE INTO " + DbTable(model) + " (" + strings.Join(columns, ",") + ") VALUES ")
-		}
-		placeholder := ",(" + strings.Repeat(",?", noOfCols)[1:] + ")"
-		for i := 0; i < noOfData; i++ {
-			if i > 0 {
-				stmt.WriteString(placeholder)
-			} else {
-				stmt.WriteString(placeholder[1:])
-			}
-			values := data[i].Values()
-			values = append(values[:idx], values[idx+1:]...)
-			args = append(args, values...)
-		}
+	writeUpsertInto(stmt, override)
+	stmt.WriteString(DbTable(model) + " (" + strings.Join(columns, ",") + ") VALUES " + model.InsertPlaceholders(0))
+	args = append(args, insertValues(model, autoIdx)...)
+	for i := 1; i < noOfData; i++ {
+		stmt.WriteString("," + model.InsertPlaceholders(i))
+		args = append(args, insertValues(data[i], autoIdx)...)
+	}
+	writeOnConflict(stmt, model, columns, override, omittedFields)
+	stmt.WriteByte(';')
+	return db.ExecContext(ctx, stmt.String(), args...)
+}
+
+func writeUpsertInto(stmt *strings.Builder, override bool) {
+	{{ if eq driver "sqlite" -}}
+	{{- /* sqlite */ -}}
+	stmt.WriteString("INSERT INTO ")
+	{{ else -}}
+	if override {
+		stmt.WriteString("INSERT INTO ")
+	} else {
+		stmt.WriteString("INSERT IGNORE INTO ")
+	}
+	{{ end -}}
+}
+
+// writeOnConflict writes what to do with the existing record, the keys and the omitted columns will never be updated.
+func writeOnConflict(stmt *strings.Builder, model any, columns []string, override bool, omittedFields []string) {
+	if !override {
+		{{ if eq driver "sqlite" -}}
+		{{- /* sqlite */ -}}
+		stmt.WriteString(" ON CONFLICT DO NOTHING")
+		{{ end -}}
+		return
+	}
+	omitDict := make(map[string]struct{})
+	for i := range omittedFields {
+		omitDict[omittedFields[i]] = struct{}{}
+	}
+	var keys []string
+	switch v := model.(type) {
 	case sequel.PrimaryKeyer:
 		pkName, _, _ := v.PK()
-		omittedFields = append(omittedFields, pkName)
-		if override {
-			stmt.WriteString("INSERT INTO " + DbTable(model) + " (" + strings.Join(columns, ",") + ") VALUES ")
-		} else {
-			stmt.WriteString("INSERT IGNORE INTO " + DbTable(model) + " (" + strings.Join(columns, ",") + ") VALUES ")
-		}
-		for i := 0; i < noOfData; i++ {
-			if i > 0 {
-				stmt.WriteString("," + model.InsertPlaceholders(i))
-			} else {
-				stmt.WriteString(model.InsertPlaceholders(i))
-			}
-			args = append(args, data[i].Values()...)
-		}
+		keys = []string{pkName}
 	case sequel.CompositeKeyer:
-		if override {
-			stmt.WriteString("INSERT INTO " + DbTable(model) + " (" + strings.Join(columns, ",") + ") VALUES ")
-		} else {
-			stmt.WriteString("INSERT IGNORE INTO " + DbTable(model) + " (" + strings.Join(columns, ",") + ") VALUES ")
-		}
-		for i := 0; i < noOfData; i++ {
-			if i > 0 {
-				stmt.WriteString("," + model.InsertPlaceholders(i))
-			} else {
-				stmt.WriteString(model.InsertPlaceholders(i))
-			}
-			args = append(args, data[i].Values()...)
-		}
-		_, idxs, _ := v.CompositeKey()
-		// Exclude primary key, don't update it
-		for i := len(idxs) - 1; i >= 0; i-- {
-			columns = append(columns[:idxs[i]], columns[idxs[i]+1:]...)
-		}
+		keys, _, _ = v.CompositeKey()
+	default:
+		panic("unreachable")
 	}
-	if override {
-		stmt.WriteString(" ON DUPLICATE KEY UPDATE ")
-		// Don't update primary key when we do upsert
-		omitDict := map[string]struct{}{}
-		for i := range omittedFields {
-			omitDict[omittedFields[i]] = struct{}{}
+	for i := range keys {
+		omitDict[keys[i]] = struct{}{}
+	}
+	{{ if eq driver "sqlite" -}}
+	{{- /* sqlite */ -}}
+	stmt.WriteString(" ON CONFLICT DO UPDATE SET ")
+	{{ else -}}
+	stmt.WriteString(" ON DUPLICATE KEY UPDATE ")
+	{{ end -}}
+	first := true
+	{{ if ne driver "sqlite" -}}
+	if _, ok := model.(sequel.AutoIncrKeyer); ok {
+		// To get the key of the existing record
+		stmt.WriteString(keys[0] + "=LAST_INSERT_ID(" + keys[0] + ")")
+		first = false
+	}
+	{{ end -}}
+	for i := range columns {
+		if _, ok := omitDict[columns[i]]; ok {
+			continue
 		}
-		noOfCols = len(columns)
-		first := true
-		for i := range columns {
-			if _, ok := omitDict[columns[i]]; ok {
-				continue
-			}
-			if first {
-				stmt.WriteString(columns[i] + "=VALUES(" + columns[i] + ")")
-			} else {
-				stmt.WriteString(","+ columns[i] + "=VALUES(" + columns[i] + ")")
-			}
-			first = false
+		if !first {
+			stmt.WriteByte(',')
 		}
-		clear(omitDict)
+		{{ if eq driver "sqlite" -}}
+		{{- /* sqlite */ -}}
+		stmt.WriteString(columns[i] + "=EXCLUDED." + columns[i])
+		{{ else -}}
+		stmt.WriteString(columns[i] + "=VALUES(" + columns[i] + ")")
+		{{ end -}}
+		first = false
+	}
+	if first {
+		// There is nothing to update
+		stmt.WriteString(keys[0] + "=" + keys[0])
 	}
-	stmt.WriteByte(';')
-	return db.ExecContext(ctx, stmt.String(), args...)
 }
 {{ end }}
 
-- 
2.43.0


From 0aae917e86c4b2106fd6e39098e4fe730067466b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:15:26 +0000
Subject: [PATCH 32/49] fix: update by key with the values of the other columns

---
 cmd/sqlgen/codegen/templates/db.go.tpl | 54 +++++++++++++++-----------
 1 file changed, 32 insertions(+), 22 deletions(-)

diff --git a/cmd/sqlgen/codegen/templates/db.go.tpl b/cmd/sqlgen/codegen/templates/db.go.tpl
index cd94da7..d11bee3 100644
--- a/cmd/sqlgen/codegen/templates/db.go.tpl
+++ b/cmd/sqlgen/codegen/templates/db.go.tpl
@@ -484,53 +484,42 @@ func UpdateByPK[T sequel.KeyValuer](ctx context.Context, db *sql.DB, model T) (s
 		query, args := v.UpdateOneByPKStmt()
 		return db.ExecContext(ctx, query, args...)
 	case sequel.PrimaryKeyer:
-		pkName, pkIdx, pk := v.PK()
-		columns := model.Columns()
-		columns = append(columns[:pkIdx], columns[pkIdx+1:]...)
-		values := model.Values()
-		values = append(values[:pkIdx], append(values[pkIdx+1:], pk)...)
+		pkName, _, pk := v.PK()
+		columns, values := updateColumns(model, []string{pkName}, []any{pk})
 		{{ if isStaticVar -}}
 		return db.ExecContext(ctx, "UPDATE "+DbTable(model)+" SET "+strings.Join(columns, " = {{ quoteVar 1 }},")+" = {{ quoteVar 1 }} WHERE "+pkName+" = {{ quoteVar 1 }};", append(values, pk)...)
 		{{ else -}}
 		stmt := strpool.AcquireString()
 		defer strpool.ReleaseString(stmt)
-		stmt.WriteString("UPDATE "+DbTable(model)+" SET "+ columns[0] +" = "+ wrapVar(1))
+		stmt.WriteString("UPDATE " + DbTable(model) + " SET " + columns[0] + " = " + wrapVar(1))
 		noOfColumn := len(columns)
 		for i := 1; i < noOfColumn; i++ {
-			stmt.WriteString(","+ columns[i] +" = "+ wrapVar(i + 1))
+			stmt.WriteString("," + columns[i] + " = " + wrapVar(i+1))
 		}
-		stmt.WriteString(" WHERE "+ pkName +" = "+ wrapVar(noOfColumn + 2)+ ";")
+		stmt.WriteString(" WHERE " + pkName + " = " + wrapVar(noOfColumn+1) + ";")
 		return db.ExecContext(ctx, stmt.String(), append(values, pk)...)
 		{{ end -}}
 	case sequel.CompositeKeyer:
-		columns := model.Columns()
-		keyNames, keyIdxs, keys := v.CompositeKey()
-		values := model.Values()
-		sort.Ints(keyIdxs)
-		for i := len(keyIdxs) - 1; i >= 0; i-- {
-			columns = append(columns[:keyIdxs[i]], columns[keyIdxs[i]+1:]...)
-			values = append(values[:keyIdxs[i]], values[keyIdxs[i]+1:]...)
-		}
-		noOfColumn := len(columns)
-		args := make([]any, 0, noOfColumn+len(keys))
+		keyNames, _, keys := v.CompositeKey()
+		columns, values := updateColumns(model, keyNames, keys)
 		{{ if isStaticVar -}}
 		query := "UPDATE " + DbTable(model) + " SET " +strings.Join(columns, " = {{ quoteVar 1 }},")+" = {{ quoteVar 1 }} WHERE (" + strings.Join(keyNames, ",") + ") = ({{ quoteVar 1 }}" + strings.Repeat(",{{ quoteVar 1 }}", len(keyNames)-1)+");"
-		return db.ExecContext(ctx, query, append(args, keys...)...)
+		return db.ExecContext(ctx, query, append(values, keys...)...)
 		{{ else -}}
 		stmt := strpool.AcquireString()
 		defer strpool.ReleaseString(stmt)
 		stmt.WriteString("UPDATE " + DbTable(model) + " SET " + columns[0] + " = {{ quoteVar 1}}")
+		noOfColumn := len(columns)
 		for i := 1; i < noOfColumn; i++ {
 			stmt.WriteString("," + columns[i] + " = " + wrapVar(i+1))
 		}
 		stmt.WriteString(" WHERE (" + strings.Join(keyNames, ",") + ") = (" + wrapVar(noOfColumn+1))
 		noOfKey := len(keyNames)
 		for i := 1; i < noOfKey; i++ {
-			stmt.WriteString("," + columns[i] + " = " + wrapVar(noOfColumn+i+1))
+			stmt.WriteString("," + wrapVar(noOfColumn+i+1))
 		}
 		stmt.WriteString(");")
-		args = append(args, values...)
-		return db.ExecContext(ctx, stmt.String(), append(args, keys...)...)
+		return db.ExecContext(ctx, stmt.String(), append(values, keys...)...)
 		{{ end -}}
 	default:
 		panic("unreachable")
@@ -1379,6 +1368,27 @@ func insertValues[T sequel.Valuer](model T, autoIdx int) []any {
 	return append(values[:autoIdx:autoIdx], values[autoIdx+1:]...)
 }
 
+// updateColumns returns the columns to update and their values, which are all of the columns except the keys.
+func updateColumns[T sequel.KeyValuer](model T, keyNames []string, keys []any) ([]string, []any) {
+	var (
+		names, autoIdx = insertColumns(model)
+		vals           = insertValues(model, autoIdx)
+		columns        = make([]string, 0, len(names))
+		values         = make([]any, 0, len(names)+len(keys))
+	)
+	for i := range names {
+		if !slices.Contains(keyNames, names[i]) {
+			columns = append(columns, names[i])
+			values = append(values, vals[i])
+		}
+	}
+	if len(columns) == 0 {
+		// There is nothing to update, the keys are the same
+		return keyNames, append(values, keys...)
+	}
+	return columns, values
+}
+
 func dbName(model any) string {
 	if v, ok := model.(sequel.Databaser); ok {
 		return v.DatabaseName() + "."
-- 
2.43.0


From 0e8b7eaf76a425e546557461a98008b968f9fb6a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:15:32 +0000
Subject: [PATCH 33/49] fix: leave out the row level lock which SQLite doesn't
 have

---
 cmd/sqlgen/codegen/templates/db.go.tpl | 16 +++++++++++++---
 1 file changed, 13 insertions(+), 3 deletions(-)

diff --git a/cmd/sqlgen/codegen/templates/db.go.tpl b/cmd/sqlgen/codegen/templates/db.go.tpl
index d11bee3..49f73ce 100644
--- a/cmd/sqlgen/codegen/templates/db.go.tpl
+++ b/cmd/sqlgen/codegen/templates/db.go.tpl
@@ -581,11 +581,11 @@ func LockByPK[T sequel.KeyValuer, Ptr sequel.KeyValueScanner[T]](ctx context.Con
 	switch v := any(model).(type) {
 	case sequel.PrimaryKeyer:
 		pkName, _, pk := v.PK()
-		return tx.QueryRowContext(ctx, "SELECT "+strings.Join(TableColumns(model), ",")+" FROM "+DbTable(model)+" WHERE "+pkName+" = {{ quoteVar 1 }} LIMIT 1 "+ locker.LockMode() +";", pk).Scan(model.Addrs()...)
+		return tx.QueryRowContext(ctx, "SELECT "+strings.Join(TableColumns(model), ",")+" FROM "+DbTable(model)+" WHERE "+pkName+" = {{ quoteVar 1 }} LIMIT 1"+ lockClause(locker) +";", pk).Scan(model.Addrs()...)
 	case sequel.CompositeKeyer:
 		keyNames, _, keys := v.CompositeKey()
 		{{ if isStaticVar -}}
-		return tx.QueryRowContext(ctx, "SELECT "+strings.Join(TableColumns(model), ",")+" FROM "+DbTable(model)+" WHERE ("+strings.Join(keyNames, ",")+") = ({{ quoteVar 1 }}"+strings.Repeat(",{{ quoteVar 1 }}", len(keyNames) - 1)+") LIMIT 1 "+ locker.LockMode() +";", keys...).Scan(model.Addrs()...)
+		return tx.QueryRowContext(ctx, "SELECT "+strings.Join(TableColumns(model), ",")+" FROM "+DbTable(model)+" WHERE ("+strings.Join(keyNames, ",")+") = ({{ quoteVar 1 }}"+strings.Repeat(",{{ quoteVar 1 }}", len(keyNames) - 1)+") LIMIT 1"+ lockClause(locker) +";", keys...).Scan(model.Addrs()...)
 		{{ else -}}
 		stmt := strpool.AcquireString()
 		stmt.WriteString("SELECT " + strings.Join(TableColumns(model), ",") + " FROM " + DbTable(model) + " WHERE ("+ strings.Join(keyNames, ",") +") = ({{ quoteVar 1 }}")
@@ -593,7 +593,7 @@ func LockByPK[T sequel.KeyValuer, Ptr sequel.KeyValueScanner[T]](ctx context.Con
 		for i := 1; i < noOfKey; i++ {
 			stmt.WriteString(","+ wrapVar(i+1))
 		}
-		stmt.WriteString(") LIMIT 1 "+ locker.LockMode() +";")
+		stmt.WriteString(") LIMIT 1"+ lockClause(locker) +";")
 		row := tx.QueryRowContext(ctx, stmt.String(), keys...)
 		strpool.ReleaseString(stmt)
 		return row.Scan(model.Addrs()...)
@@ -603,6 +603,16 @@ func LockByPK[T sequel.KeyValuer, Ptr sequel.KeyValueScanner[T]](ctx context.Con
 	}
 }
 
+func lockClause(locker sequel.RowLevelLocker) string {
+	{{ if eq driver "sqlite" -}}
+	{{- /* sqlite */ -}}
+	// SQLite locks the whole database in a transaction, it has no row level lock
+	return ""
+	{{ else -}}
+	return " " + locker.LockMode()
+	{{ end -}}
+}
+
 type PaginateStmt struct {
 	Select    []string
 	FromTable string
-- 
2.43.0


From 837dc78391bbd94142a49edcaca8147975361157 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:15:38 +0000
Subject: [PATCH 34/49] fix: report the errors of reading the rows

---
 cmd/sqlgen/codegen/templates/db.go.tpl | 39 +++++++++++++++++++++++---
 1 file changed, 35 insertions(+), 4 deletions(-)

diff --git a/cmd/sqlgen/codegen/templates/db.go.tpl b/cmd/sqlgen/codegen/templates/db.go.tpl
index 49f73ce..66cb523 100644
--- a/cmd/sqlgen/codegen/templates/db.go.tpl
+++ b/cmd/sqlgen/codegen/templates/db.go.tpl
@@ -105,7 +105,13 @@ func Insert[T sequel.Inserter, Ptr sequel.PtrScanner[T]](ctx context.Context, db
 		}
 		i++
 	}
-	return sequel.NewRowsAffectedResult(i), rows.Close()
+	if err := rows.Err(); err != nil {
+		return nil, err
+	}
+	if err := rows.Close(); err != nil {
+		return nil, err
+	}
+	return sequel.NewRowsAffectedResult(i), nil
 }
 {{ else }}
 // Insert is a helper function to insert multiple records.
@@ -231,7 +237,13 @@ func Upsert[T interface {
 		}
 		i++
 	}
-	return sequel.NewRowsAffectedResult(i), rows.Close()
+	if err := rows.Err(); err != nil {
+		return nil, err
+	}
+	if err := rows.Close(); err != nil {
+		return nil, err
+	}
+	return sequel.NewRowsAffectedResult(i), nil
 }
 
 // writeOnConflict writes what to do with the existing record, the keys and the omitted columns will never be updated.
@@ -765,7 +777,15 @@ func (r *Pager[T, Ptr]) Prev(ctx context.Context, db *sql.DB, cursor ...T) iter.
 				}
 				data = append(data, v)
 			}
-			rows.Close()
+			if err := rows.Err(); err != nil {
+				rows.Close()
+				yield(nil, err)
+				return
+			}
+			if err := rows.Close(); err != nil {
+				yield(nil, err)
+				return
+			}
 
 			noOfRecord := len(data)
 			if uint16(noOfRecord) <= maxLimit {
@@ -928,7 +948,15 @@ func (r *Pager[T, Ptr]) Next(ctx context.Context, db *sql.DB, cursor ...T) iter.
 				}
 				data = append(data, v)
 			}
-			rows.Close()
+			if err := rows.Err(); err != nil {
+				rows.Close()
+				yield(nil, err)
+				return
+			}
+			if err := rows.Close(); err != nil {
+				yield(nil, err)
+				return
+			}
 
 			noOfRecord := len(data)
 			if uint16(noOfRecord) <= maxLimit {
@@ -1031,6 +1059,9 @@ func QueryStmt[T any, Ptr sequel.PtrScanner[T]](ctx context.Context, db *sql.DB,
 		}
 		result = append(result, v)
 	}
+	if err := rows.Err(); err != nil {
+		return nil, err
+	}
 	if err := rows.Close(); err != nil {
 		return nil, err
 	}
-- 
2.43.0


From 289eb4ab505cf92513c19a7c9ea35ee2c623c002 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:16:13 +0000
Subject: [PATCH 35/49] fix: write a limit for the offset where it's required

---
 cmd/sqlgen/codegen/templates/db.go.tpl | 13 +++++++++++++
 1 file changed, 13 insertions(+)

diff --git a/cmd/sqlgen/codegen/templates/db.go.tpl b/cmd/sqlgen/codegen/templates/db.go.tpl
index 66cb523..65d9070 100644
--- a/cmd/sqlgen/codegen/templates/db.go.tpl
+++ b/cmd/sqlgen/codegen/templates/db.go.tpl
@@ -1041,6 +1041,19 @@ func QueryStmt[T any, Ptr sequel.PtrScanner[T]](ctx context.Context, db *sql.DB,
 		blr.WriteString(" LIMIT " + strconv.Itoa((int)(stmt.Limit)))
 	}
 	if stmt.Offset > 0 {
+		{{ if eq driver "mysql" -}}
+		{{- /* mysql */ -}}
+		if stmt.Limit == 0 {
+			// The offset must come with a limit
+			blr.WriteString(" LIMIT 18446744073709551615")
+		}
+		{{ else if eq driver "sqlite" -}}
+		{{- /* sqlite */ -}}
+		if stmt.Limit == 0 {
+			// The offset must come with a limit
+			blr.WriteString(" LIMIT -1")
+		}
+		{{ end -}}
 		blr.WriteString(" OFFSET " + strconv.FormatUint(stmt.Offset, 10))
 	}
 	blr.WriteByte(';')
-- 
2.43.0


From 7526ad29d24feabad10cdf7d79d8f2b92ddef1ea Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:16:19 +0000
Subject: [PATCH 36/49] fix: update and delete the table which is asked for

---
 cmd/sqlgen/codegen/templates/db.go.tpl | 13 +++++++++----
 1 file changed, 9 insertions(+), 4 deletions(-)

diff --git a/cmd/sqlgen/codegen/templates/db.go.tpl b/cmd/sqlgen/codegen/templates/db.go.tpl
index 65d9070..6c93302 100644
--- a/cmd/sqlgen/codegen/templates/db.go.tpl
+++ b/cmd/sqlgen/codegen/templates/db.go.tpl
@@ -1111,6 +1111,7 @@ func QueryOneStmt[T any, Ptr sequel.PtrScanner[T]](ctx context.Context, db *sql.
 		case sequel.Tabler:
 			blr.WriteString(" FROM " + DbTable(vj))
 		default:
+			ReleaseStmt(blr)
 			return nil, fmt.Errorf("missing table name for model %T", v)
 		}
 	}
@@ -1178,10 +1179,12 @@ func ExecStmt[T any, Stmt interface {
 
 	switch vi := any(stmt).(type) {
 	case UpdateStmt:
-		if vt, ok := any(v).(sequel.Tabler); ok {
+		if vi.Table != "" {
+			blr.WriteString("UPDATE " + dbName(v) + vi.Table)
+		} else if vt, ok := any(v).(sequel.Tabler); ok {
 			blr.WriteString("UPDATE " + DbTable(vt))
 		} else {
-			blr.WriteString("UPDATE " + dbName(v) + vi.Table)
+			return nil, fmt.Errorf("missing table name for model %T", v)
 		}
 		if len(vi.Set) > 0 {
 			blr.WriteString(" SET ")
@@ -1217,10 +1220,12 @@ func ExecStmt[T any, Stmt interface {
 		{{ end -}}
 
 	case DeleteStmt:
-		if vt, ok := any(v).(sequel.Tabler); ok {
+		if vi.FromTable != "" {
+			blr.WriteString("DELETE FROM " + dbName(v) + vi.FromTable)
+		} else if vt, ok := any(v).(sequel.Tabler); ok {
 			blr.WriteString("DELETE FROM " + DbTable(vt))
 		} else {
-			blr.WriteString("DELETE FROM " + dbName(v) + vi.FromTable)
+			return nil, fmt.Errorf("missing table name for model %T", v)
 		}
 		if vi.Where != nil {
 			blr.WriteString(" WHERE ")
-- 
2.43.0


From e769d4252281249f0de153d1975f7ca3bf09e51f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:16:26 +0000
Subject: [PATCH 37/49] fix: write the logical meaning of the empty conditions

---
 cmd/sqlgen/codegen/templates/db.go.tpl       |  3 ++
 cmd/sqlgen/codegen/templates/operator.go.tpl | 50 +++++++++++++-------
 2 files changed, 37 insertions(+), 16 deletions(-)

diff --git a/cmd/sqlgen/codegen/templates/db.go.tpl b/cmd/sqlgen/codegen/templates/db.go.tpl
index 6c93302..52c2ad6 100644
--- a/cmd/sqlgen/codegen/templates/db.go.tpl
+++ b/cmd/sqlgen/codegen/templates/db.go.tpl
@@ -1300,6 +1300,9 @@ func (s *SqlStmt) Vars(values []any) string {
 	noOfLen := len(values)
 	s.args = append(s.args, values...)
 	{{ if isStaticVar -}}
+	if noOfLen == 0 {
+		return "()"
+	}
 	return "(" + strings.Repeat(",{{ varRune }}", noOfLen)[1:] + ")"
 	{{ else -}}
 	buf := new(strings.Builder)
diff --git a/cmd/sqlgen/codegen/templates/operator.go.tpl b/cmd/sqlgen/codegen/templates/operator.go.tpl
index de50d7b..29aad15 100644
--- a/cmd/sqlgen/codegen/templates/operator.go.tpl
+++ b/cmd/sqlgen/codegen/templates/operator.go.tpl
@@ -2,29 +2,37 @@
 
 func And(clauses ...sequel.WhereClause) sequel.WhereClause {
 	return func(w sequel.StmtWriter) {
-		if n := len(clauses); n > 0 {
-			w.WriteByte('(')
-			clauses[0](w)
-			for i := 1; i < n; i++ {
-				w.WriteString(" AND ")
-				clauses[i](w)
-			}
-			w.WriteByte(')')
+		n := len(clauses)
+		if n == 0 {
+			// Every record fulfils all of the conditions
+			w.WriteString("(1 = 1)")
+			return
+		}
+		w.WriteByte('(')
+		clauses[0](w)
+		for i := 1; i < n; i++ {
+			w.WriteString(" AND ")
+			clauses[i](w)
 		}
+		w.WriteByte(')')
 	}
 }
 
 func Or(clauses ...sequel.WhereClause) sequel.WhereClause {
 	return func(w sequel.StmtWriter) {
-		if n := len(clauses); n > 0 {
-			w.WriteByte('(')
-			clauses[0](w)
-			for i := 1; i < n; i++ {
-				w.WriteString(" OR ")
-				clauses[i](w)
-			}
-			w.WriteByte(')')
+		n := len(clauses)
+		if n == 0 {
+			// None of the record fulfils any of the conditions
+			w.WriteString("(1 = 0)")
+			return
 		}
+		w.WriteByte('(')
+		clauses[0](w)
+		for i := 1; i < n; i++ {
+			w.WriteString(" OR ")
+			clauses[i](w)
+		}
+		w.WriteByte(')')
 	}
 }
 
@@ -56,6 +64,11 @@ func NotEqual[T comparable](column sequel.ColumnClause[T], value T) sequel.Where
 
 func In[T any](column sequel.ColumnClause[T], values []T) sequel.WhereClause {
 	return func(w sequel.StmtWriter) {
+		if len(values) == 0 {
+			// None of the record is in the empty list
+			w.WriteString("(1 = 0)")
+			return
+		}
 		args := make([]any, len(values))
 		switch vi := column.(type) {
 		case sequel.SQLColumnClause[T]:
@@ -77,6 +90,11 @@ func In[T any](column sequel.ColumnClause[T], values []T) sequel.WhereClause {
 
 func NotIn[T any](column sequel.ColumnClause[T], values []T) sequel.WhereClause {
 	return func(w sequel.StmtWriter) {
+		if len(values) == 0 {
+			// Every record is not in the empty list
+			w.WriteString("(1 = 1)")
+			return
+		}
 		args := make([]any, len(values))
 		switch vi := column.(type) {
 		case sequel.SQLColumnClause[T]:
-- 
2.43.0


From 59add428d92fd7a6fd3fb38b6820d48bfe9f0652 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:16:58 +0000
Subject: [PATCH 38/49] fix: write the arguments of SQL columns with their
 function

---
 cmd/sqlgen/codegen/templates/operator.go.tpl | 36 ++++++++++++--------
 1 file changed, 21 insertions(+), 15 deletions(-)

diff --git a/cmd/sqlgen/codegen/templates/operator.go.tpl b/cmd/sqlgen/codegen/templates/operator.go.tpl
index 29aad15..bac3309 100644
--- a/cmd/sqlgen/codegen/templates/operator.go.tpl
+++ b/cmd/sqlgen/codegen/templates/operator.go.tpl
@@ -40,7 +40,7 @@ func Equal[T comparable](column sequel.ColumnClause[T], value T) sequel.WhereCla
 	return func(w sequel.StmtWriter) {
 		switch vi := column.(type) {
 		case sequel.SQLColumnClause[T]:
-			w.WriteString(vi.ColumnName() + " = " + w.Var(vi.Convert(value)))
+			w.WriteString(vi.ColumnName() + " = " + vi.SQLColumn(w.Var(vi.Convert(value))))
 		case sequel.ColumnConvertClause[T]:
 			w.WriteString(vi.ColumnName() + " = " + w.Var(vi.Convert(value)))
 		default:
@@ -53,7 +53,7 @@ func NotEqual[T comparable](column sequel.ColumnClause[T], value T) sequel.Where
 	return func(w sequel.StmtWriter) {
 		switch vi := column.(type) {
 		case sequel.SQLColumnClause[T]:
-			w.WriteString(vi.ColumnName() + " <> " + w.Var(vi.Convert(value)))
+			w.WriteString(vi.ColumnName() + " <> " + vi.SQLColumn(w.Var(vi.Convert(value))))
 		case sequel.ColumnConvertClause[T]:
 			w.WriteString(vi.ColumnName() + " <> " + w.Var(vi.Convert(value)))
 		default:
@@ -72,9 +72,12 @@ func In[T any](column sequel.ColumnClause[T], values []T) sequel.WhereClause {
 		args := make([]any, len(values))
 		switch vi := column.(type) {
 		case sequel.SQLColumnClause[T]:
-			for idx := range values {
-				args[idx] = vi.Convert(values[idx])
+			w.WriteString(column.ColumnName() + " IN (" + vi.SQLColumn(w.Var(vi.Convert(values[0]))))
+			for idx := 1; idx < len(values); idx++ {
+				w.WriteString("," + vi.SQLColumn(w.Var(vi.Convert(values[idx]))))
 			}
+			w.WriteByte(')')
+			return
 		case sequel.ColumnConvertClause[T]:
 			for idx := range values {
 				args[idx] = vi.Convert(values[idx])
@@ -98,9 +101,12 @@ func NotIn[T any](column sequel.ColumnClause[T], values []T) sequel.WhereClause
 		args := make([]any, len(values))
 		switch vi := column.(type) {
 		case sequel.SQLColumnClause[T]:
-			for idx := range values {
-				args[idx] = vi.Convert(values[idx])
+			w.WriteString(column.ColumnName() + " NOT IN (" + vi.SQLColumn(w.Var(vi.Convert(values[0]))))
+			for idx := 1; idx < len(values); idx++ {
+				w.WriteString("," + vi.SQLColumn(w.Var(vi.Convert(values[idx]))))
 			}
+			w.WriteByte(')')
+			return
 		case sequel.ColumnConvertClause[T]:
 			for idx := range values {
 				args[idx] = vi.Convert(values[idx])
@@ -118,7 +124,7 @@ func GreaterThan[T comparable](column sequel.ColumnClause[T], value T) sequel.Wh
 	return func(w sequel.StmtWriter) {
 		switch vi := column.(type) {
 		case sequel.SQLColumnClause[T]:
-			w.WriteString(vi.ColumnName() + " > " + w.Var(vi.Convert(value)))
+			w.WriteString(vi.ColumnName() + " > " + vi.SQLColumn(w.Var(vi.Convert(value))))
 		case sequel.ColumnConvertClause[T]:
 			w.WriteString(vi.ColumnName() + " > " + w.Var(vi.Convert(value)))
 		default:
@@ -131,7 +137,7 @@ func GreaterThanOrEqual[T comparable](column sequel.ColumnClause[T], value T) se
 	return func(w sequel.StmtWriter) {
 		switch vi := column.(type) {
 		case sequel.SQLColumnClause[T]:
-			w.WriteString(vi.ColumnName() + " >= " + w.Var(vi.Convert(value)))
+			w.WriteString(vi.ColumnName() + " >= " + vi.SQLColumn(w.Var(vi.Convert(value))))
 		case sequel.ColumnConvertClause[T]:
 			w.WriteString(vi.ColumnName() + " >= " + w.Var(vi.Convert(value)))
 		default:
@@ -144,7 +150,7 @@ func LessThan[T comparable](column sequel.ColumnClause[T], value T) sequel.Where
 	return func(w sequel.StmtWriter) {
 		switch vi := column.(type) {
 		case sequel.SQLColumnClause[T]:
-			w.WriteString(vi.ColumnName() + " < " + w.Var(vi.Convert(value)))
+			w.WriteString(vi.ColumnName() + " < " + vi.SQLColumn(w.Var(vi.Convert(value))))
 		case sequel.ColumnConvertClause[T]:
 			w.WriteString(vi.ColumnName() + " < " + w.Var(vi.Convert(value)))
 		default:
@@ -157,7 +163,7 @@ func LessThanOrEqual[T comparable](column sequel.ColumnClause[T], value T) seque
 	return func(w sequel.StmtWriter) {
 		switch vi := column.(type) {
 		case sequel.SQLColumnClause[T]:
-			w.WriteString(vi.ColumnName() + " <= " + w.Var(vi.Convert(value)))
+			w.WriteString(vi.ColumnName() + " <= " + vi.SQLColumn(w.Var(vi.Convert(value))))
 		case sequel.ColumnConvertClause[T]:
 			w.WriteString(vi.ColumnName() + " <= " + w.Var(vi.Convert(value)))
 		default:
@@ -170,7 +176,7 @@ func Like[T comparable](column sequel.ColumnClause[T], value T) sequel.WhereClau
 	return func(w sequel.StmtWriter) {
 		switch vi := column.(type) {
 		case sequel.SQLColumnClause[T]:
-			w.WriteString(vi.ColumnName() + " LIKE " + w.Var(vi.Convert(value)))
+			w.WriteString(vi.ColumnName() + " LIKE " + vi.SQLColumn(w.Var(vi.Convert(value))))
 		case sequel.ColumnConvertClause[T]:
 			w.WriteString(vi.ColumnName() + " LIKE " + w.Var(vi.Convert(value)))
 		default:
@@ -183,7 +189,7 @@ func NotLike[T comparable](column sequel.ColumnClause[T], value T) sequel.WhereC
 	return func(w sequel.StmtWriter) {
 		switch vi := column.(type) {
 		case sequel.SQLColumnClause[T]:
-			w.WriteString(vi.ColumnName() + " NOT LIKE " + w.Var(vi.Convert(value)))
+			w.WriteString(vi.ColumnName() + " NOT LIKE " + vi.SQLColumn(w.Var(vi.Convert(value))))
 		case sequel.ColumnConvertClause[T]:
 			w.WriteString(vi.ColumnName() + " NOT LIKE " + w.Var(vi.Convert(value)))
 		default:
@@ -208,7 +214,7 @@ func Between[T comparable](column sequel.ColumnClause[T], from, to T) sequel.Whe
 	return func(w sequel.StmtWriter) {
 		switch vi := column.(type) {
 		case sequel.SQLColumnClause[T]:
-			w.WriteString(vi.ColumnName() + " BETWEEN " + w.Var(vi.Convert(from)) + " AND " + w.Var(vi.Convert(to)))
+			w.WriteString(vi.ColumnName() + " BETWEEN " + vi.SQLColumn(w.Var(vi.Convert(from))) + " AND " + vi.SQLColumn(w.Var(vi.Convert(to))))
 		case sequel.ColumnConvertClause[T]:
 			w.WriteString(vi.ColumnName() + " BETWEEN " + w.Var(vi.Convert(from)) + " AND " + w.Var(vi.Convert(to)))
 		default:
@@ -221,7 +227,7 @@ func NotBetween[T comparable](column sequel.ColumnClause[T], from, to T) sequel.
 	return func(w sequel.StmtWriter) {
 		switch vi := column.(type) {
 		case sequel.SQLColumnClause[T]:
-			w.WriteString(vi.ColumnName() + " NOT BETWEEN " + w.Var(vi.Convert(from)) + " AND " + w.Var(vi.Convert(to)))
+			w.WriteString(vi.ColumnName() + " NOT BETWEEN " + vi.SQLColumn(w.Var(vi.Convert(from))) + " AND " + vi.SQLColumn(w.Var(vi.Convert(to))))
 		case sequel.ColumnConvertClause[T]:
 			w.WriteString(vi.ColumnName() + " NOT BETWEEN " + w.Var(vi.Convert(from)) + " AND " + w.Var(vi.Convert(to)))
 		default:
@@ -234,7 +240,7 @@ func Set[T any](column sequel.ColumnClause[T], value T) sequel.SetClause {
 	return func(w sequel.StmtWriter) {
 		switch vi := column.(type) {
 		case sequel.SQLColumnClause[T]:
-			w.WriteString(column.ColumnName() + " = " + w.Var(vi.Convert(value)))
+			w.WriteString(column.ColumnName() + " = " + vi.SQLColumn(w.Var(vi.Convert(value))))
 		case sequel.ColumnConvertClause[T]:
 			w.WriteString(column.ColumnName() + " = " + w.Var(vi.Convert(value)))
 		default:
-- 
2.43.0


From 3266e8f09a885322daa25797a3a13cd1c9579a6a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:18:09 +0000
Subject: [PATCH 39/49] fix: page through the records in order

---
 cmd/sqlgen/codegen/templates/db.go.tpl | 488 ++++++++++---------------
 1 file changed, 188 insertions(+), 300 deletions(-)

diff --git a/cmd/sqlgen/codegen/templates/db.go.tpl b/cmd/sqlgen/codegen/templates/db.go.tpl
index 52c2ad6..f4d0568 100644
--- a/cmd/sqlgen/codegen/templates/db.go.tpl
+++ b/cmd/sqlgen/codegen/templates/db.go.tpl
@@ -647,334 +647,222 @@ type Pager[T sequel.KeyValuer, Ptr sequel.KeyValueScanner[T]] struct {
 	stmt *PaginateStmt
 }
 
+// Prev goes through the records in the reverse order, it starts from the cursor if there is any.
 func (r *Pager[T, Ptr]) Prev(ctx context.Context, db *sql.DB, cursor ...T) iter.Seq2[[]T, error] {
+	return r.paginate(ctx, db, cursor, true)
+}
+
+// Next goes through the records in order, it starts from the cursor if there is any.
+func (r *Pager[T, Ptr]) Next(ctx context.Context, db *sql.DB, cursor ...T) iter.Seq2[[]T, error] {
+	return r.paginate(ctx, db, cursor, false)
+}
+
+func (r *Pager[T, Ptr]) paginate(ctx context.Context, db *sql.DB, cursor []T, reverse bool) iter.Seq2[[]T, error] {
 	return func(yield func([]T, error) bool) {
 		var (
 			v         T
-			hasCursor bool
-			maxLimit  = r.stmt.Limit
+			hasCursor = len(cursor) > 0
+			maxLimit  = (int)(r.stmt.Limit)
 		)
-		if len(cursor) > 0 {
+		if hasCursor {
 			v = cursor[0]
-			hasCursor = true
 		}
-		blr := AcquireStmt()
-		defer ReleaseStmt(blr)
-
 		for {
-			if hasCursor {
-				if err := FindByPK(ctx, db, Ptr(&v)); err != nil {
-					yield(nil, err)
-					return
-				}
-			}
-
-			blr.WriteString("SELECT " + strings.Join(TableColumns(v), ",") + " FROM " + DbTable(v) + " WHERE ")
-			if r.stmt.Where != nil {
-				r.stmt.Where(blr)
-			}
-
-			if n := len(r.stmt.OrderBy); n > 0 {
-				colDict := make(map[string]int)
-				columns := v.Columns()
-				values := v.Values()
-				for i := range columns {
-					colDict[columns[i]] = i
-				}
-
-				buf := strpool.AcquireString()
-				for i := 0; i < n; i++ {
-					orderedColumn := r.stmt.OrderBy[i]
-					columnName := orderedColumn.ColumnName()
-					value := values[colDict[columnName]]
-					if orderedColumn.Asc() {
-						// If ascending
-						blr.WriteString(columnName + " <= " + blr.Var(value) + " AND ")
-						buf.WriteString(columnName + " < " + blr.Var(value) + " OR ")
-					} else {
-						// If descending
-						blr.WriteString(columnName + " >= " + blr.Var(value) + " AND ")
-						buf.WriteString(columnName + " > " + blr.Var(value) + " OR ")
-					}
-				}
-				clear(colDict)
-				blr.WriteString("("+ buf.String())
-				strpool.ReleaseString(buf)
-			}
-
-			if hasCursor {
-				// Check the primary key and compare value
-				switch vi := any(v).(type) {
-				case sequel.CompositeKeyer:
-					pkNames, _, vals := vi.CompositeKey()
-					blr.WriteString("((" + strings.Join(pkNames, ",") + ") <= " + blr.Vars(vals)+")")
-				case sequel.PrimaryKeyer:
-					pkName, _, val := vi.PK()
-					blr.WriteString("("+pkName + " <= " + blr.Var(val)+")")
-				default:
-					panic("unreachable")
-				}
-			}
-			
-
-			blr.WriteString(" ORDER BY ")
-			if len(r.stmt.OrderBy) > 0 {
-				for i := range r.stmt.OrderBy {
-					if r.stmt.OrderBy[i].Asc() {
-						blr.WriteString(r.stmt.OrderBy[i].ColumnName() + " ASC,")
-					} else {
-						blr.WriteString(r.stmt.OrderBy[i].ColumnName() + " DESC,")
-					}
-				}
-				var (
-					suffix  = " DESC"
-					lastCol = r.stmt.OrderBy[len(r.stmt.OrderBy)-1]
-				)
-				if lastCol.Asc() {
-					suffix = " ASC"
-				}
-				switch vi := any(v).(type) {
-				case sequel.CompositeKeyer:
-					pkNames, _, _ := vi.CompositeKey()
-					blr.WriteString("("+ strings.Join(pkNames, ",") +")"+ suffix)
-				case sequel.PrimaryKeyer:
-					pkName, _, _ := vi.PK()
-					blr.WriteString(pkName + suffix)
-				default:
-					panic("unreachable")
-				}
-			} else {
-				// If there is no order by clause,
-				// descending is the default order
-				switch vi := any(v).(type) {
-				case sequel.CompositeKeyer:
-					pkNames, _, _ := vi.CompositeKey()
-					blr.WriteString("("+ strings.Join(pkNames, ",") +") DESC")
-				case sequel.PrimaryKeyer:
-					pkName, _, _ := vi.PK()
-					blr.WriteString(pkName + " DESC")
-				default:
-					panic("unreachable")
-				}
-			}
-			// Add one to limit to find next cursor
-			blr.WriteString(" LIMIT " + strconv.Itoa((int)(r.stmt.Limit+1)) + ";")
-
-			rows, err := db.QueryContext(ctx, blr.Query(), blr.Args()...)
-			blr.Reset()
+			data, err := r.fetch(ctx, db, v, hasCursor, reverse)
 			if err != nil {
 				yield(nil, err)
 				return
 			}
-
-			data := make([]T, 0, r.stmt.Limit+1)
-			for rows.Next() {
-				var v T
-				if err := rows.Scan(Ptr(&v).Addrs()...); err != nil {
-					rows.Close()
-					yield(nil, err)
-					return
-				}
-				data = append(data, v)
-			}
-			if err := rows.Err(); err != nil {
-				rows.Close()
-				yield(nil, err)
-				return
-			}
-			if err := rows.Close(); err != nil {
-				yield(nil, err)
-				return
-			}
-
-			noOfRecord := len(data)
-			if uint16(noOfRecord) <= maxLimit {
-				if !yield(data, nil) {
-					return
-				}
+			if len(data) <= maxLimit {
+				yield(data, nil)
 				return
 			}
-
-			if !yield(data[:noOfRecord-1], nil) {
+			if !yield(data[:maxLimit:maxLimit], nil) {
 				return
 			}
-
-			v = data[noOfRecord-1] // Set next cursor
-			data = nil // Reset result
+			v = data[maxLimit] // Set next cursor
 			hasCursor = true
 		}
 	}
 }
 
-func (r *Pager[T, Ptr]) Next(ctx context.Context, db *sql.DB, cursor ...T) iter.Seq2[[]T, error] {
-	return func(yield func([]T, error) bool) {
-		var (
-			v         T
-			hasCursor bool
-			maxLimit  = r.stmt.Limit
-		)
-		if len(cursor) > 0 {
-			v = cursor[0]
-			hasCursor = true
+// fetch queries one more record than the limit, it's the cursor of the next page.
+func (r *Pager[T, Ptr]) fetch(ctx context.Context, db *sql.DB, v T, hasCursor, reverse bool) ([]T, error) {
+	var (
+		keyNames []string
+		keys     []any
+		table    = DbTable(v)
+		columns  = r.stmt.Select
+	)
+	switch vi := any(v).(type) {
+	case sequel.PrimaryKeyer:
+		pkName, _, pk := vi.PK()
+		keyNames, keys = []string{pkName}, []any{pk}
+	case sequel.CompositeKeyer:
+		keyNames, _, keys = vi.CompositeKey()
+	default:
+		panic("unreachable")
+	}
+	if r.stmt.FromTable != "" {
+		table = dbName(v) + r.stmt.FromTable
+	}
+	if len(columns) == 0 {
+		columns = TableColumns(v)
+	}
+	orders := r.orders(keyNames, reverse)
+	blr := AcquireStmt()
+	defer ReleaseStmt(blr)
+	if hasCursor {
+		// The cursor must exist
+		var exists int
+		blr.WriteString("SELECT 1 FROM " + table + " WHERE ")
+		writeKeys(blr, keyNames, keys)
+		blr.WriteString(" LIMIT 1;")
+		if err := db.QueryRowContext(ctx, blr.Query(), blr.Args()...).Scan(&exists); err != nil {
+			return nil, err
 		}
-		blr := AcquireStmt()
-		defer ReleaseStmt(blr)
-
-		for {
-			if hasCursor {
-				if err := FindByPK(ctx, db, Ptr(&v)); err != nil {
-					yield(nil, err)
-					return
-				}
-			}
-
-			blr.WriteString("SELECT " + strings.Join(TableColumns(v), ",") + " FROM " + DbTable(v) + " WHERE ")
-			if r.stmt.Where != nil {
-				r.stmt.Where(blr)
-			}
-
-			if len(r.stmt.OrderBy) > 0 {
-				colDict := make(map[string]int)
-				columns := v.Columns()
-				values := v.Values()
-				for i := range columns {
-					colDict[columns[i]] = i
-				}
-
-				for i, orderBy := range r.stmt.OrderBy {
-					colName := orderBy.ColumnName()
-					val := values[colDict[colName]]
-					if i > 0 {
-						blr.WriteString(" AND ")
-					}
-					if orderBy.Asc() {
-						// If ascending
-						blr.WriteString(colName + " >= " + blr.Var(val))
-					} else {
-						// If descending
-						blr.WriteString(colName + " <= " + blr.Var(val))
-					}
-				}
-				blr.WriteString(" AND (")
-				for i, orderBy := range r.stmt.OrderBy {
-					colName := orderBy.ColumnName()
-					val := values[colDict[colName]]
-					if i > 0 {
-						blr.WriteString(" OR ")
-					}
-					if orderBy.Asc() {
-						// If ascending
-						blr.WriteString(colName + " > " + blr.Var(val))
-					} else {
-						// If descending
-						blr.WriteString(colName + " < " + blr.Var(val))
-					}
-				}
-				clear(colDict)
-				blr.WriteString(" OR ")
-			}
-
-			if hasCursor {
-				// Check the primary key and compare value
-				switch vi := any(v).(type) {
-				case sequel.CompositeKeyer:
-					pkNames, _, vals := vi.CompositeKey()
-					blr.WriteString("((" + strings.Join(pkNames, ",") + ") >= " + blr.Vars(vals)+")")
-				case sequel.PrimaryKeyer:
-					pkName, _, val := vi.PK()
-					blr.WriteString("("+pkName + " >= " + blr.Var(val)+")")
-				default:
-					panic("unreachable")
-				}
-			}
-
-			blr.WriteString(" ORDER BY ")
-			if len(r.stmt.OrderBy) > 0 {
-				for i := range r.stmt.OrderBy {
-					if r.stmt.OrderBy[i].Asc() {
-						blr.WriteString(r.stmt.OrderBy[i].ColumnName() + " ASC,")
-					} else {
-						blr.WriteString(r.stmt.OrderBy[i].ColumnName() + " DESC,")
-					}
-				}
-				var (
-					suffix  = " ASC"
-					lastCol = r.stmt.OrderBy[len(r.stmt.OrderBy)-1]
-				)
-				if !lastCol.Asc() {
-					suffix = " DESC"
-				}
-				switch vi := any(v).(type) {
-				case sequel.CompositeKeyer:
-					pkNames, _, _ := vi.CompositeKey()
-					blr.WriteString("("+ strings.Join(pkNames, ",") +")"+ suffix)
-				case sequel.PrimaryKeyer:
-					pkName, _, _ := vi.PK()
-					blr.WriteString(pkName + suffix)
-				default:
-					panic("unreachable")
-				}
-			} else {
-				// If there is no order by clause,
-				// ascending is the default order
-				switch vi := any(v).(type) {
-				case sequel.CompositeKeyer:
-					pkNames, _, _ := vi.CompositeKey()
-					blr.WriteString("("+ strings.Join(pkNames, ",") +") ASC")
-				case sequel.PrimaryKeyer:
-					pkName, _, _ := vi.PK()
-					blr.WriteString(pkName)
-				default:
-					panic("unreachable")
-				}
-			}
-			// Add one to limit to find next cursor
-			blr.WriteString(" LIMIT " + strconv.Itoa((int)(r.stmt.Limit+1)) + ";")
-
-			rows, err := db.QueryContext(ctx, blr.Query(), blr.Args()...)
-			blr.Reset()
-			if err != nil {
-				yield(nil, err)
-				return
-			}
+		blr.Reset()
+	}
+	blr.WriteString("SELECT " + strings.Join(columns, ",") + " FROM " + table)
+	if r.stmt.Where != nil {
+		blr.WriteString(" WHERE (")
+		r.stmt.Where(blr)
+		blr.WriteByte(')')
+	}
+	if hasCursor {
+		if r.stmt.Where != nil {
+			blr.WriteString(" AND ")
+		} else {
+			blr.WriteString(" WHERE ")
+		}
+		writeCursor(blr, orders, table, keyNames, keys)
+	}
+	blr.WriteString(" ORDER BY ")
+	for i, order := range orders {
+		if i > 0 {
+			blr.WriteByte(',')
+		}
+		if order.Asc() {
+			blr.WriteString(order.ColumnName() + " ASC")
+		} else {
+			blr.WriteString(order.ColumnName() + " DESC")
+		}
+	}
+	// Add one to limit to find next cursor
+	blr.WriteString(" LIMIT " + strconv.Itoa((int)(r.stmt.Limit)+1) + ";")
 
-			data := make([]T, 0, r.stmt.Limit+1)
-			for rows.Next() {
-				var v T
-				if err := rows.Scan(Ptr(&v).Addrs()...); err != nil {
-					rows.Close()
-					yield(nil, err)
-					return
-				}
-				data = append(data, v)
-			}
-			if err := rows.Err(); err != nil {
-				rows.Close()
-				yield(nil, err)
-				return
-			}
-			if err := rows.Close(); err != nil {
-				yield(nil, err)
-				return
-			}
+	rows, err := db.QueryContext(ctx, blr.Query(), blr.Args()...)
+	if err != nil {
+		return nil, err
+	}
+	defer rows.Close()
+	data := make([]T, 0)
+	for rows.Next() {
+		var v T
+		if err := rows.Scan(Ptr(&v).Addrs()...); err != nil {
+			return nil, err
+		}
+		data = append(data, v)
+	}
+	if err := rows.Err(); err != nil {
+		return nil, err
+	}
+	if err := rows.Close(); err != nil {
+		return nil, err
+	}
+	return data, nil
+}
 
-			noOfRecord := len(data)
-			if uint16(noOfRecord) <= maxLimit {
-				if !yield(data, nil) {
-					return
-				}
-				return
-			}
+// orders returns the requested order, the ties are broken by the keys.
+func (r *Pager[T, Ptr]) orders(keyNames []string, reverse bool) []sequel.OrderByClause {
+	var (
+		orders   = make([]sequel.OrderByClause, 0, len(r.stmt.OrderBy)+len(keyNames))
+		seen     = make(map[string]struct{})
+		noOfKeys int
+		// Ascending is the default order
+		asc = true
+	)
+	add := func(columnName string, asc bool) {
+		// The records are in order once there are all the keys
+		if _, ok := seen[columnName]; ok || noOfKeys == len(keyNames) {
+			return
+		}
+		seen[columnName] = struct{}{}
+		if slices.Contains(keyNames, columnName) {
+			noOfKeys++
+		}
+		orders = append(orders, sequel.OrderByColumn(columnName, asc != reverse))
+	}
+	for _, order := range r.stmt.OrderBy {
+		asc = order.Asc()
+		add(order.ColumnName(), asc)
+	}
+	for _, keyName := range keyNames {
+		add(keyName, asc)
+	}
+	return orders
+}
 
-			if !yield(data[:noOfRecord-1], nil) {
-				return
-			}
+// writeKeys writes the condition of the record with the keys.
+func writeKeys(w sequel.StmtWriter, keyNames []string, keys []any) {
+	for i := range keyNames {
+		if i > 0 {
+			w.WriteString(" AND ")
+		}
+		w.WriteString(keyNames[i] + " = " + w.Var(keys[i]))
+	}
+}
 
-			v = data[noOfRecord-1] // Set next cursor
-			data = nil // Reset result
-			hasCursor = true
+// writeCursor writes the condition of the records which are not before the record with the keys.
+func writeCursor(w sequel.StmtWriter, orders []sequel.OrderByClause, table string, keyNames []string, keys []any) {
+	order := orders[0]
+	columnName := order.ColumnName()
+	operator := " > "
+	if !order.Asc() {
+		operator = " < "
+	}
+	if idx := slices.Index(keyNames, columnName); idx >= 0 {
+		if len(orders) == 1 {
+			// The last one is always a key
+			w.WriteString(columnName + operator[:2] + "= " + w.Var(keys[idx]))
+			return
 		}
+		w.WriteString("(" + columnName + operator + w.Var(keys[idx]) + " OR (" + columnName + " = " + w.Var(keys[idx]) + " AND ")
+		writeCursor(w, orders[1:], table, keyNames, keys)
+		w.WriteString("))")
+		return
 	}
+	writeValue := func() {
+		w.WriteString("(SELECT " + columnName + " FROM " + table + " WHERE ")
+		writeKeys(w, keyNames, keys)
+		w.WriteByte(')')
+	}
+	w.WriteString("(" + columnName + operator)
+	writeValue()
+	{{ if eq driver "postgres" -}}
+	{{- /* postgres */ -}}
+	// NULL is greater than the others
+	nullFirst := !order.Asc()
+	{{ else -}}
+	// NULL is lesser than the others
+	nullFirst := order.Asc()
+	{{ end -}}
+	if nullFirst {
+		w.WriteString(" OR (" + columnName + " IS NOT NULL AND ")
+		writeValue()
+		w.WriteString(" IS NULL)")
+	} else {
+		w.WriteString(" OR (" + columnName + " IS NULL AND ")
+		writeValue()
+		w.WriteString(" IS NOT NULL)")
+	}
+	w.WriteString(" OR ((" + columnName + " = ")
+	writeValue()
+	w.WriteString(" OR (" + columnName + " IS NULL AND ")
+	writeValue()
+	w.WriteString(" IS NULL)) AND ")
+	writeCursor(w, orders[1:], table, keyNames, keys)
+	w.WriteString("))")
 }
 
 type SelectStmt struct {
-- 
2.43.0


From 737ac6c13009ef730addbad74a472cecff3f7b74 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:18:57 +0000
Subject: [PATCH 40/49] fix: format the statement with its own arguments as
 literals

---
 cmd/sqlgen/codegen/templates/db.go.tpl | 167 ++++++++++++++++---------
 1 file changed, 108 insertions(+), 59 deletions(-)

diff --git a/cmd/sqlgen/codegen/templates/db.go.tpl b/cmd/sqlgen/codegen/templates/db.go.tpl
index f4d0568..08f8a83 100644
--- a/cmd/sqlgen/codegen/templates/db.go.tpl
+++ b/cmd/sqlgen/codegen/templates/db.go.tpl
@@ -1242,39 +1242,71 @@ func (s *SqlStmt) Format(f fmt.State, verb rune) {
 		}
 	}
 
-	var (
-		args = make([]any, len(s.args))
-		idx  int
-		i    = 1
-	)
-
-	copy(args, s.args)
-
-	for {
-		{{ if isStaticVar -}}
-		idx = strings.Index(str, "?")
-		{{ else -}}
-		placeholder := wrapVar(i)
-		idx = strings.Index(str, placeholder)
-		{{ end -}}
-		if idx < 0 {
-			f.Write(unsafe.Slice(unsafe.StringData(str), len(str)))
-			break
+	{{ if isStaticVar -}}
+	var args = s.args
+	{{ end -}}
+	for i := 0; i < len(str); {
+		if n := skipLiteral(str[i:]); n > 0 {
+			io.WriteString(f, str[i:i+n])
+			i += n
+			continue
 		}
-
-		f.Write([]byte(str[:idx]))
-		v := strf(args[0])
-		f.Write(unsafe.Slice(unsafe.StringData(v), len(v)))
 		{{ if isStaticVar -}}
-		str = str[idx+1:]
+		if str[i] == {{ quote varRune }}[0] && len(args) > 0 {
+			io.WriteString(f, strf(args[0]))
+			args = args[1:]
+			i++
+			continue
+		}
 		{{ else -}}
-		str = str[idx+len(placeholder):]
+		if str[i] == {{ quote varRune }}[0] {
+			end := i + 1
+			for end < len(str) && str[end] >= '0' && str[end] <= '9' {
+				end++
+			}
+			if pos, err := strconv.Atoi(str[i+1:end]); err == nil && pos > 0 && pos <= len(s.args) {
+				io.WriteString(f, strf(s.args[pos-1]))
+				i = end
+				continue
+			}
+		}
 		{{ end -}}
-		args = args[1:]
+		f.Write([]byte{str[i]})
 		i++
 	}
 }
 
+// skipLiteral returns the length of the literal, quoted identifier or comment which the text begins with.
+func skipLiteral(str string) int {
+	switch c := str[0]; {
+	case c == '\'' || c == '"' || c == '`':
+		for i := 1; i < len(str); i++ {
+			{{ if eq driver "mysql" -}}
+			{{- /* mysql */ -}}
+			if str[i] == '\\' && c != '`' {
+				i++
+				continue
+			}
+			{{ end -}}
+			if str[i] == c {
+				return i + 1
+			}
+		}
+		return len(str)
+	case strings.HasPrefix(str, "--"):
+		if i := strings.IndexByte(str, '\n'); i >= 0 {
+			return i + 1
+		}
+		return len(str)
+	case strings.HasPrefix(str, "/*"):
+		if i := strings.Index(str[2:], "*/"); i >= 0 {
+			return i + 4
+		}
+		return len(str)
+	}
+	return 0
+}
+
 func (s *SqlStmt) Reset() {
 	s.args = nil
 	s.pos = 0
@@ -1352,54 +1384,71 @@ func wrapVar(i int) string {
 }
 {{ end }}
 
+// quote returns the string literal.
+func quote(str string) string {
+	{{ if eq driver "postgres" -}}
+	return pgutil.Quote(str)
+	{{ else if eq driver "mysql" -}}
+	return "'" + strings.NewReplacer("'", "''", `\`, `\\`, "\x00", `\0`).Replace(str) + "'"
+	{{ else -}}
+	return "'" + strings.ReplaceAll(str, "'", "''") + "'"
+	{{ end -}}
+}
+
 func strf(v any) string {
 	switch vi := v.(type) {
 	case nil:
 		return "NULL"
 	case string:
-	{{ if eq driver "postgres" -}}
-		return pgutil.Quote(vi)
-	{{ else -}}
-		return strconv.Quote(vi)
-	{{ end -}}
+		return quote(vi)
 	case []byte:
-	{{ if eq driver "postgres" -}}
-		return pgutil.Quote(unsafe.String(unsafe.SliceData(vi), len(vi)))
-	{{ else -}}
-		return strconv.Quote(unsafe.String(unsafe.SliceData(vi), len(vi)))
-	{{ end -}}
+		if vi == nil {
+			return "NULL"
+		}
+		{{ if eq driver "postgres" -}}
+		return `'\x` + hex.EncodeToString(vi) + "'"
+		{{ else -}}
+		return "X'" + hex.EncodeToString(vi) + "'"
+		{{ end -}}
 	case bool:
 		return strconv.FormatBool(vi)
 	case int64:
 		return strconv.FormatInt(vi, 10)
 	case float64:
-		return strconv.FormatFloat(vi, 'f', 10, 64)
+		return strconv.FormatFloat(vi, 'g', -1, 64)
 	case time.Time:
-		return strconv.Quote(vi.Format(time.RFC3339))
+		return quote(vi.Format(time.RFC3339Nano))
 	case sql.RawBytes:
 		return unsafe.String(unsafe.SliceData(vi), len(vi))
-	case driver.Valuer:
-		val, _ := vi.Value()
+	}
+	vt := reflect.ValueOf(v)
+	if vt.Kind() == reflect.Pointer && vt.IsNil() {
+		return "NULL"
+	}
+	if vi, ok := v.(driver.Valuer); ok {
+		val, err := vi.Value()
+		if err != nil {
+			return quote(err.Error())
+		}
 		return strf(val)
-	default:
-		vt := reflect.ValueOf(v)
-		switch vt.Kind() {
-		case reflect.String:
-		{{ if eq driver "postgres" -}}
-			return pgutil.Quote(vt.String())
-		{{ else -}}
-			return strconv.Quote(vt.String())
-		{{ end -}}
-		case reflect.Bool:
-			return strconv.FormatBool(vt.Bool())
-		case reflect.Int, reflect.Int8, reflect.Int16, reflect.Int32, reflect.Int64:
-			return strconv.FormatInt(vt.Int(), 10)
-		case reflect.Uint, reflect.Uint8, reflect.Uint16, reflect.Uint32, reflect.Uint64:
-			return strconv.FormatUint(vt.Uint(), 10)
-		case reflect.Float32, reflect.Float64:
-			return strconv.FormatFloat(vt.Float(), 'f', 10, 64)
-		default:
-			panic("unreachable")
+	}
+	switch vt.Kind() {
+	case reflect.Pointer:
+		return strf(vt.Elem().Interface())
+	case reflect.String:
+		return quote(vt.String())
+	case reflect.Bool:
+		return strconv.FormatBool(vt.Bool())
+	case reflect.Int, reflect.Int8, reflect.Int16, reflect.Int32, reflect.Int64:
+		return strconv.FormatInt(vt.Int(), 10)
+	case reflect.Uint, reflect.Uint8, reflect.Uint16, reflect.Uint32, reflect.Uint64:
+		return strconv.FormatUint(vt.Uint(), 10)
+	case reflect.Float32, reflect.Float64:
+		return strconv.FormatFloat(vt.Float(), 'g', -1, 64)
+	case reflect.Slice:
+		if vt.Type().Elem().Kind() == reflect.Uint8 {
+			return strf(vt.Bytes())
 		}
 	}
-}
\ No newline at end of file
+	return quote(fmt.Sprint(v))
+}
-- 
2.43.0


From 2d6b0162d0117760ce42954ac997a63b96c115ba Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:23:14 +0000
Subject: [PATCH 41/49] fix: write the statements of a model in the database of
 the model

---
 cmd/sqlgen/codegen/generate.go | 54 ++++++++++++++++------------------
 1 file changed, 26 insertions(+), 28 deletions(-)

diff --git a/cmd/sqlgen/codegen/generate.go b/cmd/sqlgen/codegen/generate.go
index 7691d3e..ecf430e 100644
--- a/cmd/sqlgen/codegen/generate.go
+++ b/cmd/sqlgen/codegen/generate.go
@@ -564,6 +564,27 @@ func (g *Generator) buildScanner(w io.Writer, importPkgs *Package, table *compil
 	fprintfln(w, "}")
 }
 
+// writeTableName writes the table name, it returns the Go expression of what is written so far
+// if the name is only known by the methods of the model
+func (g *Generator) writeTableName(buf *strings.Builder, t *compiler.Table) (query string) {
+	if method, isWrongType := t.Implements(sqlDatabaser); method == nil && !isWrongType {
+		query = g.Quote(buf.String()) + "+ v.DatabaseName() +"
+		buf.Reset()
+		buf.WriteByte('.')
+	}
+	method, isWrongType := t.Implements(sqlTabler)
+	if isWrongType {
+		g.LogError(fmt.Errorf(`sqlgen: struct %q has function "TableName" but wrong footprint`, t.GoName))
+	}
+	if isWrongType || method != nil {
+		buf.WriteString(g.MustQuoteIdentifier(t.Name))
+		return query
+	}
+	query += g.Quote(buf.String()) + "+ v.TableName() +"
+	buf.Reset()
+	return query
+}
+
 func (g *Generator) buildFindByPK(w io.Writer, importPkgs *Package, t *compiler.Table) error {
 	buf := strpool.AcquireString()
 	buf.WriteString("SELECT ")
@@ -578,16 +599,7 @@ func (g *Generator) buildFindByPK(w io.Writer, importPkgs *Package, t *compiler.
 		buf.WriteString(scanner)
 	}
 	buf.WriteString(" FROM ")
-	var query string
-	if method, isWrongType := t.Implements(sqlTabler); isWrongType {
-		g.LogError(fmt.Errorf(`sqlgen: struct %q has function "TableName" but wrong footprint`, t.GoName))
-		buf.WriteString(g.MustQuoteIdentifier(t.Name))
-	} else if method != nil {
-		buf.WriteString(g.MustQuoteIdentifier(t.Name))
-	} else {
-		query = g.Quote(buf.String()) + "+ v.TableName() +"
-		buf.Reset()
-	}
+	query := g.writeTableName(buf, t)
 	buf.WriteString(" WHERE ")
 	pk, ok := t.AutoIncrKey()
 	if !ok && len(t.Keys) == 1 {
@@ -637,16 +649,9 @@ func (g *Generator) buildFindByPK(w io.Writer, importPkgs *Package, t *compiler.
 }
 
 func (g *Generator) buildInsertOne(w io.Writer, importPkgs *Package, t *compiler.Table) error {
-	var query string
 	buf := strpool.AcquireString()
-	if method, isWrongType := t.Implements(sqlTabler); isWrongType {
-		g.LogError(fmt.Errorf(`sqlgen: struct %q has function "TableName" but wrong footprint`, t.GoName))
-		buf.WriteString("INSERT INTO " + g.MustQuoteIdentifier(t.Name))
-	} else if method != nil {
-		buf.WriteString("INSERT INTO " + g.MustQuoteIdentifier(t.Name))
-	} else {
-		query = g.Quote("INSERT INTO ") + "+ v.TableName() +"
-	}
+	buf.WriteString("INSERT INTO ")
+	query := g.writeTableName(buf, t)
 	buf.WriteString(" (")
 	columns := t.InsertColumns()
 	for i, f := range columns {
@@ -704,15 +709,8 @@ func (g *Generator) buildInsertOne(w io.Writer, importPkgs *Package, t *compiler
 
 func (g *Generator) buildUpdateByPK(w io.Writer, importPkgs *Package, t *compiler.Table) error {
 	buf := strpool.AcquireString()
-	var query string
-	if method, isWrongType := t.Implements(sqlTabler); isWrongType {
-		g.LogError(fmt.Errorf(`sqlgen: struct %q has function "TableName" but wrong footprint`, t.GoName))
-		buf.WriteString("UPDATE " + g.MustQuoteIdentifier(t.Name))
-	} else if method != nil {
-		buf.WriteString("UPDATE " + g.MustQuoteIdentifier(t.Name))
-	} else {
-		query = g.Quote("UPDATE ") + "+ v.TableName() +"
-	}
+	buf.WriteString("UPDATE ")
+	query := g.writeTableName(buf, t)
 	buf.WriteString(" SET ")
 	columns := t.ColumnsWithoutPK()
 	for i, f := range columns {
-- 
2.43.0


From 79c49cbcd758172c9698e4fedfed4ef2b988468a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:40:15 +0000
Subject: [PATCH 42/49] fix: set nothing but the key of the upserted model

---
 cmd/sqlgen/codegen/templates/db.go.tpl | 10 +++++++---
 1 file changed, 7 insertions(+), 3 deletions(-)

diff --git a/cmd/sqlgen/codegen/templates/db.go.tpl b/cmd/sqlgen/codegen/templates/db.go.tpl
index 08f8a83..af40e69 100644
--- a/cmd/sqlgen/codegen/templates/db.go.tpl
+++ b/cmd/sqlgen/codegen/templates/db.go.tpl
@@ -318,16 +318,17 @@ func UpsertOne[T sequel.KeyValuer, Ptr sequel.KeyValueScanner[T]](ctx context.Co
 	{{ if eq driver "sqlite" -}}
 	{{- /* sqlite */ -}}
 	// The last insert id is not changed when the record is updated
+	var i64 int64
 	pkName, idx, _ := v.PK()
 	stmt.WriteString(" RETURNING " + pkName + ";")
-	switch err := db.QueryRowContext(ctx, stmt.String(), values...).Scan(model.Addrs()[idx]); err {
+	switch err := db.QueryRowContext(ctx, stmt.String(), values...).Scan(&i64); err {
 	case nil:
-		return sequel.NewRowsAffectedResult(1), nil
 	case sql.ErrNoRows:
 		return new(sequel.EmptyResult), nil
 	default:
 		return nil, err
 	}
+	result := sequel.NewRowsAffectedResult(1)
 	{{ else -}}
 	_, idx, _ := v.PK()
 	stmt.WriteByte(';')
@@ -343,6 +344,10 @@ func UpsertOne[T sequel.KeyValuer, Ptr sequel.KeyValueScanner[T]](ctx context.Co
 		// The existing record is left alone
 		return result, nil
 	}
+	{{ end -}}
+	if v, ok := any(model).(autoIncrKeyScanner); ok {
+		return result, v.ScanAutoIncr(i64)
+	}
 	switch v := model.Addrs()[idx].(type) {
 	case *int64:
 		*v = i64
@@ -354,7 +359,6 @@ func UpsertOne[T sequel.KeyValuer, Ptr sequel.KeyValueScanner[T]](ctx context.Co
 		return nil, fmt.Errorf(`sqlgen: invalid auto increment data type %T`, v)
 	}
 	return result, nil
-	{{ end -}}
 }
 
 // Upsert is a helper function to upsert multiple records.
-- 
2.43.0


From 10bbba37e8a3eb0f90daed5d0aa8505485407f7c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:00:22 +0000
Subject: [PATCH 43/49] fix: replace no placeholder within the literals, names
 and comments of the dialect when formatting

---
 cmd/sqlgen/codegen/templates/db.go.tpl | 102 +++++++++++++++++++++----
 1 file changed, 89 insertions(+), 13 deletions(-)

diff --git a/cmd/sqlgen/codegen/templates/db.go.tpl b/cmd/sqlgen/codegen/templates/db.go.tpl
index af40e69..4319744 100644
--- a/cmd/sqlgen/codegen/templates/db.go.tpl
+++ b/cmd/sqlgen/codegen/templates/db.go.tpl
@@ -1284,33 +1284,109 @@ func (s *SqlStmt) Format(f fmt.State, verb rune) {
 func skipLiteral(str string) int {
 	switch c := str[0]; {
 	case c == '\'' || c == '"' || c == '`':
-		for i := 1; i < len(str); i++ {
-			{{ if eq driver "mysql" -}}
-			{{- /* mysql */ -}}
-			if str[i] == '\\' && c != '`' {
-				i++
-				continue
-			}
-			{{ end -}}
-			if str[i] == c {
-				return i + 1
-			}
+		{{ if eq driver "mysql" -}}
+		{{- /* mysql */ -}}
+		return skipQuoted(str, c != '`')
+		{{ else -}}
+		return skipQuoted(str, false)
+		{{ end -}}
+	{{ if eq driver "postgres" -}}
+	{{- /* postgres */ -}}
+	case c == '$':
+		// Dollar quoted literal
+		n := 1 + skipWord(str[1:])
+		if n >= len(str) || str[n] != '$' || (str[1] >= '0' && str[1] <= '9') {
+			return 0
+		}
+		if i := strings.Index(str[n+1:], str[:n+1]); i >= 0 {
+			return 2*(n+1) + i
 		}
 		return len(str)
-	case strings.HasPrefix(str, "--"):
-		if i := strings.IndexByte(str, '\n'); i >= 0 {
+	case isWord(c):
+		n := skipWord(str)
+		for n < len(str) && str[n] == '$' {
+			n++
+			n += skipWord(str[n:])
+		}
+		if n == 1 && (c == 'e' || c == 'E') && len(str) > 1 && str[1] == '\'' {
+			return 1 + skipQuoted(str[1:], true)
+		}
+		return n
+	{{ else if eq driver "mysql" -}}
+	case c == '#':
+		return skipLine(str)
+	{{ else -}}
+	case c == '[':
+		if i := strings.IndexByte(str, ']'); i >= 0 {
 			return i + 1
 		}
 		return len(str)
+	{{ end -}}
+	case strings.HasPrefix(str, "--"):
+		{{ if eq driver "mysql" -}}
+		{{- /* mysql */ -}}
+		if len(str) > 2 && str[2] > ' ' {
+			return 0
+		}
+		{{ end -}}
+		return skipLine(str)
 	case strings.HasPrefix(str, "/*"):
+		{{ if eq driver "postgres" -}}
+		{{- /* postgres */ -}}
+		depth := 1
+		for i := 2; i < len(str); i++ {
+			if strings.HasPrefix(str[i:], "/*") {
+				depth++
+				i++
+			} else if strings.HasPrefix(str[i:], "*/") {
+				depth--
+				i++
+				if depth == 0 {
+					return i + 1
+				}
+			}
+		}
+		{{ else -}}
 		if i := strings.Index(str[2:], "*/"); i >= 0 {
 			return i + 4
 		}
+		{{ end -}}
 		return len(str)
 	}
 	return 0
 }
 
+// skipQuoted returns the length of the quoted text which the text begins with.
+func skipQuoted(str string, backslash bool) int {
+	for i := 1; i < len(str); i++ {
+		if backslash && str[i] == '\\' {
+			i++
+		} else if str[i] == str[0] {
+			return i + 1
+		}
+	}
+	return len(str)
+}
+
+func skipLine(str string) int {
+	if i := strings.IndexByte(str, '\n'); i >= 0 {
+		return i + 1
+	}
+	return len(str)
+}
+{{ if eq driver "postgres" }}
+func skipWord(str string) int {
+	n := 0
+	for n < len(str) && isWord(str[n]) {
+		n++
+	}
+	return n
+}
+
+func isWord(c byte) bool {
+	return c == '_' || c >= 'a' && c <= 'z' || c >= 'A' && c <= 'Z' || c >= '0' && c <= '9' || c >= 0x80
+}
+{{ end }}
 func (s *SqlStmt) Reset() {
 	s.args = nil
 	s.pos = 0
-- 
2.43.0


From 347db3ee236403da4be7781b9443fc7df7874706 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:09:31 +0000
Subject: [PATCH 44/49] fix: generate no statement which depends on a method
 declared by user

---
 cmd/sqlgen/codegen/generate.go           | 10 ++++++----
 cmd/sqlgen/internal/compiler/compiler.go | 21 ++++++++++++++++++---
 2 files changed, 24 insertions(+), 7 deletions(-)

diff --git a/cmd/sqlgen/codegen/generate.go b/cmd/sqlgen/codegen/generate.go
index ecf430e..142a400 100644
--- a/cmd/sqlgen/codegen/generate.go
+++ b/cmd/sqlgen/codegen/generate.go
@@ -296,7 +296,8 @@ func (g *Generator) generateModels(
 					fprintfln(w, "}")
 				}
 
-				if !t.HasMethod("InsertOneStmt") {
+				// The columns which are declared by user are only known at runtime
+				if !t.HasMethod("InsertOneStmt") && !t.OnlyAtRuntime("InsertColumns") {
 					if err := g.buildInsertOne(w, importPkgs, t); err != nil {
 						return err
 					}
@@ -304,13 +305,14 @@ func (g *Generator) generateModels(
 			}
 		}
 
-		if t.HasPK() {
-			if !t.HasMethod("FindOneByPKStmt") {
+		// The keys, columns and values which are declared by user are only known at runtime
+		if t.HasPK() && !t.OnlyAtRuntime("PK", "CompositeKey", methodName(sqlColumner)) {
+			if !t.HasMethod("FindOneByPKStmt") && !t.OnlyAtRuntime(methodName(sqlQueryColumner)) {
 				if err := g.buildFindByPK(w, importPkgs, t); err != nil {
 					return err
 				}
 			}
-			if !t.Readonly && len(t.ColumnsWithoutPK()) > 0 && !t.HasMethod("UpdateOneByPKStmt") {
+			if !t.Readonly && len(t.ColumnsWithoutPK()) > 0 && !t.HasMethod("UpdateOneByPKStmt") && !t.OnlyAtRuntime("InsertColumns", methodName(sqlValuer)) {
 				if err := g.buildUpdateByPK(w, importPkgs, t); err != nil {
 					return err
 				}
diff --git a/cmd/sqlgen/internal/compiler/compiler.go b/cmd/sqlgen/internal/compiler/compiler.go
index 7c1f582..ec96574 100644
--- a/cmd/sqlgen/internal/compiler/compiler.go
+++ b/cmd/sqlgen/internal/compiler/compiler.go
@@ -8,6 +8,7 @@ import (
 	"go/types"
 	"reflect"
 	"regexp"
+	"slices"
 
 	"github.com/samber/lo"
 	"github.com/si3nloong/sqlgen/sequel"
@@ -121,20 +122,34 @@ func (t *Table) isGenerated(pos token.Pos) bool {
 	return err == nil && ast.IsGenerated(f)
 }
 
-// HasMethod reports whether the method is declared on the model by the user
-func (t *Table) HasMethod(name string) bool {
+// HasMethod reports whether one of the methods is declared on the model by the user
+func (t *Table) HasMethod(names ...string) bool {
 	named, ok := t.t.(*types.Named)
 	if !ok {
 		return false
 	}
 	for i := range named.NumMethods() {
-		if named.Method(i).Name() == name {
+		if slices.Contains(names, named.Method(i).Name()) {
 			return true
 		}
 	}
 	return false
 }
 
+// OnlyAtRuntime reports whether a statement which depends on the methods can only be built at runtime,
+// because one of them is declared on the model by the user. A statement of an embedded model would
+// take its place when it is not generated, so that a model which embeds another has its own.
+func (t *Table) OnlyAtRuntime(methods ...string) bool {
+	if st, ok := t.t.Underlying().(*types.Struct); ok {
+		for i := range st.NumFields() {
+			if st.Field(i).Embedded() {
+				return false
+			}
+		}
+	}
+	return t.HasMethod(methods...)
+}
+
 // HasField reports whether the struct itself has the field
 func (t *Table) HasField(name string) bool {
 	st, ok := t.t.Underlying().(*types.Struct)
-- 
2.43.0


From 11cc9f905105733dc197b4a20ae8c0da49f2f3b4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:08:54 +0000
Subject: [PATCH 45/49] fix: return the columns which are declared by user from
 an insert

---
 cmd/sqlgen/codegen/generate.go | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/cmd/sqlgen/codegen/generate.go b/cmd/sqlgen/codegen/generate.go
index 142a400..f16ba31 100644
--- a/cmd/sqlgen/codegen/generate.go
+++ b/cmd/sqlgen/codegen/generate.go
@@ -297,7 +297,8 @@ func (g *Generator) generateModels(
 				}
 
 				// The columns which are declared by user are only known at runtime
-				if !t.HasMethod("InsertOneStmt") && !t.OnlyAtRuntime("InsertColumns") {
+				returnsSQLColumns := g.config.Driver == Postgres && t.OnlyAtRuntime(methodName(sqlQueryColumner))
+				if !t.HasMethod("InsertOneStmt") && !t.OnlyAtRuntime("InsertColumns") && !returnsSQLColumns {
 					if err := g.buildInsertOne(w, importPkgs, t); err != nil {
 						return err
 					}
-- 
2.43.0


From dd6b9e825b375a9b0f19d969de10b19fa7e3575f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:26:25 +0000
Subject: [PATCH 46/49] fix: generate the methods of a struct whose type is in
 parentheses

---
 cmd/sqlgen/internal/compiler/parser.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/cmd/sqlgen/internal/compiler/parser.go b/cmd/sqlgen/internal/compiler/parser.go
index a7e13e7..1470341 100644
--- a/cmd/sqlgen/internal/compiler/parser.go
+++ b/cmd/sqlgen/internal/compiler/parser.go
@@ -105,7 +105,7 @@ func Parse(dir string, cfg *Config) (*Package, error) {
 				// ```go
 				// type A = time.Time
 				// ```
-				switch typeSpec.Type.(type) {
+				switch ast.Unparen(typeSpec.Type).(type) {
 				case *ast.StructType, *ast.SelectorExpr:
 					// Struct without type parameters, and not declared in a function
 					st, ok := objType.Type().Underlying().(*types.Struct)
-- 
2.43.0


From 60987173c7956aba3de6051c027a0b0ae095549b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:27:50 +0000
Subject: [PATCH 47/49] fix: generate the methods of models behind line
 directives

---
 cmd/sqlgen/internal/compiler/compiler.go | 2 +-
 cmd/sqlgen/internal/compiler/parser.go   | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/cmd/sqlgen/internal/compiler/compiler.go b/cmd/sqlgen/internal/compiler/compiler.go
index ec96574..394f231 100644
--- a/cmd/sqlgen/internal/compiler/compiler.go
+++ b/cmd/sqlgen/internal/compiler/compiler.go
@@ -117,7 +117,7 @@ func (t *Table) missingMethod(V types.Type, T *types.Interface) (*types.Func, bo
 }
 
 func (t *Table) isGenerated(pos token.Pos) bool {
-	filename := t.fset.Position(pos).Filename
+	filename := t.fset.PositionFor(pos, false).Filename
 	f, err := parser.ParseFile(token.NewFileSet(), filename, nil, parser.PackageClauseOnly|parser.ParseComments)
 	return err == nil && ast.IsGenerated(f)
 }
diff --git a/cmd/sqlgen/internal/compiler/parser.go b/cmd/sqlgen/internal/compiler/parser.go
index 1470341..542c8d5 100644
--- a/cmd/sqlgen/internal/compiler/parser.go
+++ b/cmd/sqlgen/internal/compiler/parser.go
@@ -87,7 +87,7 @@ func Parse(dir string, cfg *Config) (*Package, error) {
 					continue
 				}
 
-				filename := pkg.Fset.Position(typeSpec.Name.NamePos).Filename
+				filename := pkg.Fset.PositionFor(typeSpec.Name.NamePos, false).Filename
 				if !cfg.Matcher.Match(filename) {
 					continue
 				}
-- 
2.43.0


From f0ba3e862f7794128ee06de3d5c7e4a1ee28d294 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:00:35 +0000
Subject: [PATCH 48/49] fix: import packages whose name means something else in
 the generated code

---
 cmd/sqlgen/codegen/expr.go    | 2 +-
 cmd/sqlgen/codegen/package.go | 7 ++++++-
 2 files changed, 7 insertions(+), 2 deletions(-)

diff --git a/cmd/sqlgen/codegen/expr.go b/cmd/sqlgen/codegen/expr.go
index b62502f..11c9957 100644
--- a/cmd/sqlgen/codegen/expr.go
+++ b/cmd/sqlgen/codegen/expr.go
@@ -110,7 +110,7 @@ func baseType(t types.Type) types.Type {
 
 func importPkgIfNeeded(pkg *Package, importPath string) string {
 	matches := pkgRegexp.FindStringSubmatch(importPath)
-	if len(matches) > 0 {
+	if len(matches) > 0 && !isReservedName(matches[1]) {
 		p, _ := pkg.Import(types.NewPackage(matches[1], filepath.Base(matches[1])))
 		if p != nil {
 			importPath = strings.Replace(importPath, matches[1], p.Name(), -1)
diff --git a/cmd/sqlgen/codegen/package.go b/cmd/sqlgen/codegen/package.go
index a6719fa..800c9ae 100644
--- a/cmd/sqlgen/codegen/package.go
+++ b/cmd/sqlgen/codegen/package.go
@@ -69,7 +69,7 @@ func (p *Package) TypeString(t types.Type) string {
 func (p *Package) newAliasIfExists(pkg *types.Package) string {
 	pkgName, newPkgName := pkg.Name(), pkg.Name()
 	for i := 1; ; i++ {
-		if _, ok := p.cache[newPkgName]; ok || (p.scope != nil && p.scope.Lookup(newPkgName) != nil) {
+		if _, ok := p.cache[newPkgName]; ok || isReservedName(newPkgName) || (p.scope != nil && p.scope.Lookup(newPkgName) != nil) {
 			newPkgName = pkgName + strconv.Itoa(i)
 			continue
 		}
@@ -77,3 +77,8 @@ func (p *Package) newAliasIfExists(pkg *types.Package) string {
 	}
 	return newPkgName
 }
+
+// isReservedName reports the names which mean something else in the generated code
+func isReservedName(name string) bool {
+	return name == "v" || name == "val" || types.Universe.Lookup(name) != nil
+}
-- 
2.43.0


From 91bc3ead468e640d30016da9bf23e6587b84a93d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:46:10 +0000
Subject: [PATCH 49/49] fix: keep the tags of the fields of a struct literal in
 the type of its getter

---
 cmd/sqlgen/codegen/generate.go | 34 ++++++++++++----------------------
 1 file changed, 12 insertions(+), 22 deletions(-)

diff --git a/cmd/sqlgen/codegen/generate.go b/cmd/sqlgen/codegen/generate.go
index f16ba31..7bee5ba 100644
--- a/cmd/sqlgen/codegen/generate.go
+++ b/cmd/sqlgen/codegen/generate.go
@@ -944,33 +944,23 @@ func printStruct(w io.Writer, importPkgs *Package, s *types.Struct) {
 	fmt.Fprintln(w, "struct{")
 	for i := 0; i < s.NumFields(); i++ {
 		f := s.Field(i)
+		if !f.Embedded() {
+			fmt.Fprint(w, f.Name()+" ")
+		}
 		switch ft := f.Type().(type) {
 		case *types.Struct:
-			if !f.Embedded() {
-				fmt.Fprint(w, f.Name()+" ")
-				printStruct(w, importPkgs, ft)
-			} else {
-				typeStr := importPkgs.TypeString(f.Type())
-				fmt.Fprint(w, f.Name()+" "+typeStr)
-				if tag := s.Tag(i); len(tag) > 0 {
-					fmt.Fprintf(w, " `%s`", s.Tag(i))
-				}
-				fmt.Fprintln(w)
-			}
+			printStruct(w, importPkgs, ft)
 		default:
-			typeStr := importPkgs.TypeString(f.Type())
-			if f.Embedded() {
-				fmt.Fprint(w, typeStr)
-			} else {
-				fmt.Fprint(w, f.Name()+" "+typeStr)
-			}
-			if tag := s.Tag(i); len(tag) > 0 {
-				fmt.Fprintf(w, " `%s`", s.Tag(i))
-			}
-			fmt.Fprintln(w)
+			fmt.Fprint(w, importPkgs.TypeString(f.Type()))
 		}
+		if tag := s.Tag(i); strconv.CanBackquote(tag) && len(tag) > 0 {
+			fmt.Fprintf(w, " `%s`", tag)
+		} else if len(tag) > 0 {
+			fmt.Fprint(w, " "+strconv.Quote(tag))
+		}
+		fmt.Fprintln(w)
 	}
-	fmt.Fprintln(w, "}")
+	fmt.Fprint(w, "}")
 }
 
 func methodName(i *types.Interface) string {
-- 
2.43.0

