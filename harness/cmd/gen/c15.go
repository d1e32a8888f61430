package main

import (
	"fmt"
	"strings"
	"time"
	"unicode"

	"verifharness/gspec"
	"verifharness/pbt"
)

// identifier draws an exported Go identifier, of words or of any letters.
func identifier(t *pbt.T) string {
	if t.P(1, 4) {
		return gspec.Name(t)
	}
	var b strings.Builder
	for i, n := 0, t.Range(1, 12); i < n; i++ {
		switch k := t.N(8); {
		case i == 0:
			b.WriteRune(rune('A' + t.N(26)))
		case k < 3:
			b.WriteRune(rune('a' + t.N(26)))
		case k < 6:
			b.WriteRune(rune('A' + t.N(26)))
		case k == 6:
			b.WriteRune(rune('0' + t.N(10)))
		default:
			b.WriteRune(pbt.Pick(t, '_', 'é', 'Ü', 'ß', '漢'))
		}
	}
	return b.String()
}

// kept says that got has the letters and digits of the identifier, in order.
func kept(id, got string) bool {
	strip := func(s string) string {
		return strings.Map(func(r rune) rune {
			if r == '_' {
				return -1
			}
			return unicode.ToLower(r)
		}, s)
	}
	return strip(id) == strip(got)
}

func namesCase(t *pbt.T) {
	s := &gspec.Spec{
		Dialect: pbt.Pick(t, "mysql", "postgres", "sqlite"), Naming: pbt.Pick(t, "snake_case", "camelCase", "PascalCase"),
		Tag: "sql", Prefix: "Column", Strict: true, Filename: "generated.go", Files: 1, Quote: t.P(1, 4),
	}
	types := map[string]bool{}
	for _, r := range []string{"LStr", "LInt", "LUint", "LFloat", "LBool", "LBytes", "LStrs", "LInts", "LTime", "LMap", "LAlias", "LATime", "LALab", "LAInt", "LABytes", "LAStrs", "LAArr", "LAMap", "LAGen", "LAHv", "LAText", "LPInt", "LPStr", "LPTime", "LPVal", "LPAl", "LPMap", "LPair", "LRunes", "LArr", "LText", "LVal", "LGen"} {
		types[r] = true
	}
	for i, n := 0, t.Range(1, 6); i < n; i++ {
		m := &gspec.Struct{Go: identifier(t), Model: true}
		m.TypeName = m.Go
		if types[m.Go] {
			continue
		}
		types[m.Go] = true
		used := gspec.NewNames(s.Prefix)
		cols := map[string]bool{}
		for j, k := 0, t.Range(1, 40); j < k; j++ {
			f := &gspec.Field{Name: identifier(t), Type: "string"}
			col := s.Rename(f.Name)
			if col == "" || cols[strings.ToLower(col)] || !used.Take(f.Name) {
				continue
			}
			cols[strings.ToLower(col)] = true
			m.Fields = append(m.Fields, f)
			t.NonTrivial(s.Naming + shape(f.Name))
			if !kept(f.Name, col) {
				panic(fmt.Sprintf("the oracle loses letters: %q %q", f.Name, col))
			}
			if s.Naming == "snake_case" && s.Rename(col) != col {
				panic(fmt.Sprintf("the oracle is not idempotent: %q %q", f.Name, col))
			}
		}
		if len(m.Fields) > 0 {
			s.Structs = append(s.Structs, m)
		}
	}
	if len(s.Structs) == 0 {
		t.Discard()
	}
	m := newMod()
	defer m.remove()
	bin := m.buildSpec(t, s)
	m.child(t, bin, "names")
}

// shape is the classes of the characters of an identifier.
func shape(id string) string {
	return strings.Map(func(r rune) rune {
		switch {
		case r == '_':
			return '_'
		case r > 127:
			return 'u'
		case unicode.IsUpper(r):
			return 'A'
		case unicode.IsDigit(r):
			return '0'
		}
		return 'a'
	}, id)
}

func init() {
	props["C15"] = func(s *pbt.Session) {
		s.Rule = "distinct (convention, sequence of character classes) of the identifiers which became columns"
		s.Run(pbt.Check{Name: "names", Run: namesCase, Cases: 40, Thorough: 600, CaseTimeout: 5 * time.Minute, MaxShrink: 80, Limit: 100000})
	}
}
