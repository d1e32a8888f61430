package gspec

import (
	"fmt"
	"strings"

	"verifharness/pbt"
)

// Insertable are the columns which are written by an insert.
func Insertable(cols []Column) (out []Column) {
	for _, c := range cols {
		if !c.RO && !c.Auto {
			out = append(out, c)
		}
	}
	return out
}

// Key is the auto-increment column, or else the key columns.
func Key(cols []Column) (out []Column) {
	for _, c := range cols {
		if c.Auto {
			return []Column{c}
		}
	}
	for _, c := range cols {
		if c.PK {
			out = append(out, c)
		}
	}
	return out
}

// DrawHand lets the user declare some of the methods of some models.
func (s *Spec) DrawHand(t *pbt.T) {
	for _, m := range s.Models() {
		if m.Decl != "" || m.Promotes || t.P(1, 5) {
			continue
		}
		cols := s.Columns(m)
		key := Key(cols)
		names := []string{"TableName", "Columns", "Addrs", "SQLColumns"}
		if ins := Insertable(cols); len(ins) > 0 && !m.Readonly {
			names = append(names, "Values", "InsertPlaceholders", "InsertOneStmt")
			if len(ins) != len(cols) {
				names = append(names, "InsertColumns")
			}
		}
		if len(key) > 0 {
			names = append(names, "HasPK", "FindOneByPKStmt")
			if len(key) == 1 {
				names = append(names, "PK")
			} else {
				names = append(names, "CompositeKey")
			}
			if key[0].Auto {
				names = append(names, "IsAutoIncr", "ScanAutoIncr")
			}
			if !m.Readonly {
				names = append(names, "UpdateOneByPKStmt")
			}
		}
		for _, c := range cols {
			names = append(names, c.GoName+"Value", s.Prefix+c.GoName)
		}
		for _, n := range names {
			if t.P(1, 4) {
				m.Hand = append(m.Hand, n)
			}
		}
	}
}

// HandTable and the others are what the hand-written methods give.
func HandTable(m *Struct) string { return "hand_" + strings.ToLower(fmt.Sprintf("%x", m.Go)) }

func (s *Spec) handText(m *Struct) string {
	var b strings.Builder
	cols := s.Columns(m)
	for i, n := range m.Hand {
		recv := "(v " + m.Go + ")"
		if i%2 == 1 {
			recv = "(" + m.Go + ")"
		}
		var body string
		switch n {
		case "TableName":
			body = fmt.Sprintf("() string { return %q }", HandTable(m))
		case "Columns", "InsertColumns", "SQLColumns":
			body = fmt.Sprintf("() []string { return []string{%q} }", "hand_"+n)
		case "Values":
			body = "() []any { return []any{"
			for i := range Insertable(cols) {
				body += fmt.Sprintf("\"hand_value_%d\",", i)
			}
			body += "} }"
		case "Addrs":
			recv = "(v *" + m.Go + ")"
			body = "() []any { return []any{\"hand_addr\"} }"
		case "InsertPlaceholders":
			body = "(row int) string { return \"hand_\" + strconv.Itoa(row) }"
		case "InsertOneStmt", "FindOneByPKStmt", "UpdateOneByPKStmt":
			body = fmt.Sprintf("() (string, []any) { return %q, []any{} }", "hand_"+n)
		case "HasPK", "IsAutoIncr":
			body = "() {}"
		case "PK":
			body = "() (string, int, any) { return \"hand_pk\", 0, \"hand\" }"
		case "CompositeKey":
			body = "() ([]string, []int, []any) { return []string{\"hand_ck\"}, []int{0}, []any{\"hand\"} }"
		case "ScanAutoIncr":
			recv = "(v *" + m.Go + ")"
			body = "(n int64) error { return fmt.Errorf(\"hand_scan %d\", n) }"
		default:
			if strings.HasSuffix(n, "Value") {
				body = fmt.Sprintf("() any { return %q }", "hand_"+n)
			} else {
				body = fmt.Sprintf("() string { return %q }", "hand_"+n)
			}
		}
		fmt.Fprintf(&b, "func %s %s%s\n\n", recv, n, body)
	}
	return b.String()
}
