// Package mtypes holds the field types the generated models import.
package mtypes

import (
	"database/sql"
	"database/sql/driver"
	"encoding/json"
	"errors"
	"fmt"
	"strconv"
	"strings"
	"time"

	"verifharness/mtypes/right"
)

type (
	Label  string
	Level  int16
	Count  uint64
	Ratio  float32
	Flag   bool
	Raw    []byte
	Tags   []string
	Marks  []int32
	Stamp  time.Time
	Code   [4]byte
	Glyphs []rune
	Index  map[string]int
)

// Geo has no codec: it is stored as JSON.
type Geo struct {
	Lat, Lng float64
	Name     string
}

// Email has a text codec with unexported state.
type Email struct{ local, host string }

func (e Email) MarshalText() ([]byte, error) { return []byte(e.local + "\x00" + e.host), nil }
func (e *Email) UnmarshalText(b []byte) error {
	l, h, ok := strings.Cut(string(b), "\x00")
	if !ok {
		return fmt.Errorf("mtypes: bad email %q", b)
	}
	e.local, e.host = l, h
	return nil
}

// Money has its own Valuer and Scanner.
type Money struct{ cents int64 }

func (m Money) Value() (driver.Value, error) { return m.cents, nil }
func (m *Money) Scan(v any) error {
	switch v := v.(type) {
	case nil:
		m.cents = 0
	case int64:
		m.cents = v
	case []byte:
		n, err := strconv.ParseInt(string(v), 10, 64)
		if err != nil {
			return err
		}
		m.cents = n
	default:
		return fmt.Errorf("mtypes: money from %T", v)
	}
	return nil
}

// Doc has its own JSON codec.
type Doc struct{ title string }

func (d Doc) MarshalJSON() ([]byte, error) { return json.Marshal([]string{"doc", d.title}) }
func (d *Doc) UnmarshalJSON(b []byte) error {
	var l []string
	if err := json.Unmarshal(b, &l); err != nil {
		return err
	}
	if len(l) != 2 || l[0] != "doc" {
		return errors.New("mtypes: not a doc")
	}
	d.title = l[1]
	return nil
}

// Color is an enum of strings with a text codec on a non-struct type.
type Color int

func (c Color) MarshalText() ([]byte, error) { return []byte("c" + strconv.Itoa(int(c))), nil }
func (c *Color) UnmarshalText(b []byte) error {
	n, err := strconv.Atoi(strings.TrimPrefix(string(b), "c"))
	*c = Color(n)
	return err
}

type Pair[K comparable, V any] struct {
	Key K
	Val V
}

// Base and the rest are embedded by models.
type Base struct {
	BaseID    int64 `sql:",pk" db:",pk"`
	CreatedAt time.Time
	UpdatedAt *time.Time
}

type Audit struct {
	CreatedBy string `sql:"made_by" db:"made_by"`
	Revision  uint32 `sql:",readonly" db:",readonly"`
	secret    string
	Hidden    string `sql:"-" db:"-"`
}

type inner struct {
	InnerA string
	InnerB []byte
}

// Wrapped promotes the fields of an unexported struct.
type Wrapped struct {
	inner
	Outer bool
}

type Boxed[T any] struct {
	Box     T
	BoxNote *string
}

// Hubs embeds two types of the same name.
type (
	Hubs struct {
		HubL
		*HubR
	}
	HubL struct {
		*Meta
		LeftX int64
	}
	HubR struct {
		*right.Meta
		RightY string
	}
	Meta struct {
		LeftNote string
		LeftN    int64
	}
)

// Nanos scans a time from its nanoseconds.
func Nanos(t *time.Time) sql.Scanner { return (*nanos)(t) }

type nanos time.Time

func (n *nanos) Scan(v any) error {
	x, ok := v.(int64)
	if !ok {
		return fmt.Errorf("nanos from %T", v)
	}
	*n = nanos(time.Unix(0, x).UTC())
	return nil
}

// ToNanos writes it.
func ToNanos(t time.Time) any { return t.UnixNano() }
