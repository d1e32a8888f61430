// Package pbt is a small property-based-testing kit: cases are drawn from a
// recorded stream of choices, so that any failing case can be replayed and
// shrunk by editing the stream (delete, zero, lower), without a shrinker per
// type.
package pbt

import (
	"crypto/sha256"
	"encoding/binary"
	"encoding/json"
	"fmt"
	"math"
	"math/rand/v2"
	"os"
	"path/filepath"
	"runtime/debug"
	"sort"
	"strconv"
	"strings"
	"sync"
	"time"
)

// ---------------------------------------------------------------- choices

// T is one case being generated and judged.
type T struct {
	rng     *rand.Rand
	replay  []uint64
	pos     int
	rec     []uint64
	pure    bool // replay only: past the end of the stream every choice is 0
	log     []string
	nontriv map[string]struct{}
	limit   int

	// Aux is for the generators of a check.
	Aux any
}

// Mark is a position in the choices of the case.
func (t *T) Mark() int { return len(t.rec) }

// Again gives a T which makes the choices that were made since the mark once more.
func (t *T) Again(mark int) *T {
	return &T{replay: append([]uint64(nil), t.rec[mark:]...), pure: true, limit: t.limit}
}

type stop struct{ f *Failure }
type discard struct{}

// Failure describes a broken property. Sig identifies the kind of failure:
// shrinking keeps it fixed and known findings are matched by it.
type Failure struct {
	Sig string
	Msg string
}

func (t *T) draw() uint64 {
	var v uint64
	if t.pos < len(t.replay) {
		v = t.replay[t.pos]
	} else if t.pure {
		v = 0
	} else {
		v = t.rng.Uint64()
	}
	t.pos++
	return v
}

func (t *T) put(v uint64) uint64 {
	t.rec = append(t.rec, v)
	if len(t.rec) > t.limit {
		panic(discard{})
	}
	return v
}

// Uint64 draws a full 64-bit choice.
func (t *T) Uint64() uint64 { return t.put(t.draw()) }

// N draws from [0,n).
func (t *T) N(n int) int {
	if n <= 1 {
		return 0
	}
	return int(t.put(t.draw() % uint64(n)))
}

// Range draws from [lo,hi].
func (t *T) Range(lo, hi int) int { return lo + t.N(hi-lo+1) }

// Bool draws a boolean; it shrinks to false.
func (t *T) Bool() bool { return t.N(2) == 1 }

// P is true in about num of den cases; it shrinks to false.
func (t *T) P(num, den int) bool { return t.N(den) >= den-num }

// Logf adds a line to the description of the case.
func (t *T) Logf(format string, a ...any) { t.log = append(t.log, fmt.Sprintf(format, a...)) }

// NonTrivial marks the case as non-trivial; key is what makes it distinct.
func (t *T) NonTrivial(key string) {
	if t.nontriv == nil {
		t.nontriv = map[string]struct{}{}
	}
	t.nontriv[key] = struct{}{}
}

// Discard abandons the case.
func (t *T) Discard() { panic(discard{}) }

// Fail reports a violation and ends the case.
func (t *T) Fail(sig, format string, a ...any) {
	panic(stop{&Failure{Sig: sig, Msg: fmt.Sprintf(format, a...)}})
}

// Pick draws one of the given values; it shrinks to the first.
func Pick[V any](t *T, vs ...V) V { return vs[t.N(len(vs))] }

// Int64 draws a signed 64-bit integer, biased to boundaries of every width.
func (t *T) Int64() int64 {
	switch t.N(6) {
	case 0:
		return int64(t.N(32)) - 8
	case 1:
		w := Pick(t, 7, 8, 15, 16, 31, 32, 53, 62, 63)
		v := int64(uint64(1) << uint(w))
		v += int64(t.N(5)) - 2
		if t.Bool() {
			v = -v
		}
		return v
	case 2:
		return Pick(t, int64(0), 1, -1, math.MaxInt64, math.MinInt64, math.MaxInt64-1, math.MinInt64+1)
	case 3:
		return int64(t.N(1<<16)) - 1<<15
	default:
		return int64(t.Uint64() >> uint(t.N(64)))
	}
}

// Uint64B draws an unsigned 64-bit integer, biased to boundaries.
func (t *T) Uint64B() uint64 {
	switch t.N(5) {
	case 0:
		return uint64(t.N(20))
	case 1:
		w := Pick(t, 7, 8, 15, 16, 31, 32, 53, 63)
		return uint64(1)<<uint(w) + uint64(t.N(5)) - 2
	case 2:
		return Pick(t, uint64(0), 1, math.MaxUint64, math.MaxInt64, math.MaxInt64+1, math.MaxUint64-1)
	default:
		return t.Uint64() >> uint(t.N(64))
	}
}

// Float64 draws a finite float, or also an infinity or NaN.
func (t *T) Float64(special bool) float64 {
	switch t.N(7) {
	case 0:
		return float64(t.N(64)-16) / 4
	case 1:
		return Pick(t, 0.1, -0.1, 1e21, 1e-7, math.MaxFloat64, math.SmallestNonzeroFloat64, math.MaxFloat32, math.SmallestNonzeroFloat32, 1<<53, 1<<53+2, 16777217, -math.MaxFloat64, 123456789.125, math.Copysign(0, -1))
	case 2:
		f := math.Float64frombits(t.Uint64())
		if !special && (math.IsNaN(f) || math.IsInf(f, 0)) {
			return 1.5
		}
		return f
	case 3:
		if special {
			return Pick(t, math.NaN(), math.Inf(1), math.Inf(-1))
		}
		return float64(t.Int64())
	case 4:
		return float64(t.Int64()) / float64(Pick(t, 3, 7, 10, 1000))
	default:
		return float64(t.N(2000000)-1000000) / 1000
	}
}

var stringAtoms = []string{
	"a", "b", "z", "A", "0", "9", " ", "", ",", "\"", "\\", "'", "{", "}", "[", "]", "(", ")", "NULL", "null",
	"\n", "\t", "\r", "\b", "\f", "\x00", "\x01", "\x1f", "\x7f", "é", "ß", "日本", "🎉", "\u2028", "\ufffd", "<", ">", "&",
	"%", "_", "?", "$1", "$10", ";", "--", "/*", "`", "\\n", "\\u0041", "\\\"", "t", "f", "true", "1.5", "e", "+", "-", ".", ":", "/", "@", "#",
}

// String draws a string built of characters that are special somewhere in
// SQL, JSON, arrays or Go quoting, plus plain ones. It is valid UTF-8 unless
// raw is set.
func (t *T) String(maxAtoms int, raw bool) string {
	if maxAtoms > 0 && t.P(1, 12) {
		return wordAtoms[t.N(len(wordAtoms))]
	}
	n := t.N(maxAtoms + 1)
	var b strings.Builder
	for i := 0; i < n; i++ {
		switch t.N(6) {
		case 0, 1:
			b.WriteByte(byte('a' + t.N(26)))
		case 2, 3, 4:
			b.WriteString(stringAtoms[t.N(len(stringAtoms))])
		default:
			if raw && t.P(1, 2) {
				b.WriteByte(byte(t.N(256)))
			} else {
				r := rune(t.N(0x2ff0) + 1)
				if t.P(1, 8) {
					r = rune(0x10000 + t.N(0x1000))
				}
				b.WriteRune(r)
			}
		}
	}
	return b.String()
}

// wordAtoms are whole texts with a meaning of their own somewhere on the way.
var wordAtoms = []string{
	"null", "NULL", "Null", "nUlL", "nil", "true", "false", "t", "f", "0", "1", "-1", "007", "1e3", "0x10", "NaN", "inf", "-Infinity",
	"{}", "[]", `""`, "''", "{NULL}", "[null]", `\x`, `\x00`, `\N`, "?", "$1", "%s", "%%", "--", "/*", ";", "2024-01-02", "2024-01-02 03:04:05", "DEFAULT",
}

// Bytes draws raw bytes.
func (t *T) Bytes(max int) []byte {
	n := t.N(max + 1)
	b := make([]byte, n)
	for i := range b {
		b[i] = byte(t.N(256))
	}
	return b
}

// Time draws an instant between 1970 and 2200 with the given granularity.
func (t *T) Time(gran time.Duration) time.Time {
	sec := int64(t.N(7258118400))
	ns := int64(0)
	switch t.N(3) {
	case 1:
		ns = int64(t.N(1_000_000_000))
	case 2:
		ns = int64(t.N(1000)) * 1_000_000
	}
	return time.Unix(sec, ns).UTC().Truncate(gran)
}

// ---------------------------------------------------------------- running

// Check is one property check; Run judges one generated case.
type Check struct {
	Name string
	Run  func(t *T)
	// Cases is how many cases the quick tier draws; the thorough tier draws
	// Thorough (default 20 times as many).
	Cases    int
	Thorough int
	// Serial runs the cases one at a time.
	Serial bool
	// CaseTimeout bounds one case: past it the case counts as a hang.
	CaseTimeout time.Duration
	// MaxShrink bounds the shrinking attempts (default 3000).
	MaxShrink int
	// Limit is the longest choice stream (default 20000).
	Limit int
}

type outcome struct {
	fail    *Failure
	rec     []uint64
	log     []string
	nontriv map[string]struct{}
	disc    bool
}

func runCase(c *Check, rng *rand.Rand, replay []uint64, pure bool) (out outcome) {
	limit := c.Limit
	if limit == 0 {
		limit = 20000
	}
	t := &T{rng: rng, replay: replay, pure: pure, limit: limit}
	body := func() (o outcome) {
		defer func() {
			if r := recover(); r != nil {
				switch v := r.(type) {
				case stop:
					o.fail = v.f
				case discard:
					o.disc = true
				default:
					o.fail = &Failure{Sig: c.Name + ":panic", Msg: fmt.Sprintf("panic: %v\n%s", r, trimStack(debug.Stack()))}
				}
			}
			o.rec, o.log, o.nontriv = t.rec, t.log, t.nontriv
		}()
		c.Run(t)
		return
	}
	if c.CaseTimeout == 0 {
		return body()
	}
	ch := make(chan outcome, 1)
	go func() { ch <- body() }()
	select {
	case o := <-ch:
		return o
	case <-time.After(c.CaseTimeout):
		// the stream is still being used by the stuck goroutine: copy what is there
		return outcome{fail: &Failure{Sig: c.Name + ":hang", Msg: fmt.Sprintf("case did not finish within %s", c.CaseTimeout)}, rec: append([]uint64(nil), t.rec...), log: append([]string(nil), t.log...)}
	}
}

func trimStack(b []byte) string {
	s := string(b)
	lines := strings.Split(s, "\n")
	var keep []string
	for _, l := range lines {
		if strings.Contains(l, "/pbt/") || strings.Contains(l, "runtime/") {
			continue
		}
		keep = append(keep, l)
		if len(keep) > 24 {
			break
		}
	}
	return strings.Join(keep, "\n")
}

// Known is one entry of known_findings.json.
type Known struct {
	Property string `json:"property"`
	Sig      string `json:"sig"`
	What     string `json:"what"`
	Status   string `json:"status"` // "open" or "fixed: ..."
}

// Session collects the checks of one property run.
type Session struct {
	// Scale multiplies the number of cases of the quick tier.
	Scale     int
	Property  string
	Seed      uint64
	Thorough  bool
	Root      string // /verif
	Rule      string
	Level     string
	Assume    []string
	Extra     map[string]any
	start     time.Time
	evals     int
	discarded int
	nontriv   map[string]struct{}
	samples   []any
	violation []string
	known     map[string]Known
	knownHit  map[string]bool
	perCheck  map[string]int
	mu        sync.Mutex
	replayArg *Replay
	replaySet bool
}

// Replay is the file a violation leaves.
type Replay struct {
	Property string   `json:"property"`
	Check    string   `json:"check"`
	Seed     uint64   `json:"seed"`
	Sig      string   `json:"sig"`
	Message  string   `json:"message"`
	Case     []string `json:"case"`
	Choices  []uint64 `json:"choices"`
	HowTo    string   `json:"how_to"`
}

// NewSession reads the environment: VERIF_SEED, VERIF_TIER, VERIF_ROOT.
func NewSession(prop string) *Session {
	s := &Session{Property: prop, Level: "exploration", start: time.Now(), nontriv: map[string]struct{}{}, known: map[string]Known{}, knownHit: map[string]bool{}, perCheck: map[string]int{}, Extra: map[string]any{}}
	s.Seed = 1
	if v, err := strconv.ParseUint(os.Getenv("VERIF_SEED"), 10, 64); err == nil {
		s.Seed = v
	}
	s.Thorough = os.Getenv("VERIF_TIER") == "thorough"
	s.Root = os.Getenv("VERIF_ROOT")
	if s.Root == "" {
		s.Root = "/verif"
	}
	if b, err := os.ReadFile(filepath.Join(s.Root, "known_findings.json")); err == nil {
		var ks []Known
		if err := json.Unmarshal(b, &ks); err != nil {
			fmt.Fprintln(os.Stderr, "known_findings.json:", err)
			os.Exit(3)
		}
		for _, k := range ks {
			if k.Property == prop && k.Status == "open" {
				s.known[k.Sig] = k
			}
		}
	}
	if p := os.Getenv("VERIF_REPLAY"); p != "" {
		b, err := os.ReadFile(p)
		if err != nil {
			fmt.Fprintln(os.Stderr, err)
			os.Exit(3)
		}
		s.replayArg = new(Replay)
		if err := json.Unmarshal(b, s.replayArg); err != nil {
			fmt.Fprintln(os.Stderr, err)
			os.Exit(3)
		}
	}
	return s
}

// CaseRng is the deterministic source of case i of a check.
func (s *Session) CaseRng(check string, i int) *rand.Rand {
	h := sha256.Sum256([]byte(fmt.Sprintf("%s/%s/%d/%d", s.Property, check, s.Seed, i)))
	return rand.New(rand.NewPCG(binary.LittleEndian.Uint64(h[:8]), binary.LittleEndian.Uint64(h[8:16])))
}

// Run draws and judges the cases of one check.
func (s *Session) Run(c Check) {
	if s.replayArg != nil {
		if s.replayArg.Check != c.Name {
			return
		}
		s.replaySet = true
		o := runCase(&c, rand.New(rand.NewPCG(1, 1)), s.replayArg.Choices, true)
		for _, l := range o.log {
			fmt.Println("  case:", l)
		}
		if o.fail != nil {
			fmt.Printf("replay fails: [%s] %s\n", o.fail.Sig, o.fail.Msg)
			s.violation = append(s.violation, o.fail.Sig)
		} else {
			fmt.Println("replay passes")
		}
		return
	}
	n := c.Cases
	if s.Scale > 0 {
		n *= s.Scale
	}
	if s.Thorough {
		n = c.Thorough
		if n == 0 {
			n = c.Cases * 20
		}
	}
	workers := 8
	if c.Serial {
		workers = 1
	}
	var (
		wg    sync.WaitGroup
		fails = map[string]struct {
			i int
			o outcome
		}{}
		next int
	)
	samplesWanted := 3
	for w := 0; w < workers; w++ {
		wg.Add(1)
		go func() {
			defer wg.Done()
			for {
				s.mu.Lock()
				if next >= n {
					s.mu.Unlock()
					return
				}
				// take a small block, stop early once an unknown failure is in
				for _, f := range fails {
					if _, ok := s.known[f.o.fail.Sig]; !ok {
						s.mu.Unlock()
						return
					}
				}
				lo := next
				blk := 16
				if c.Serial || c.CaseTimeout > time.Minute {
					blk = 1
				}
				next += blk
				hi := min(next, n)
				s.mu.Unlock()
				for i := lo; i < hi; i++ {
					o := runCase(&c, s.CaseRng(c.Name, i), nil, false)
					s.mu.Lock()
					if o.disc {
						s.discarded++
					} else {
						s.evals++
						s.perCheck[c.Name]++
						for k := range o.nontriv {
							h := sha256.Sum256([]byte(c.Name + "\x00" + k))
							s.nontriv[string(h[:10])] = struct{}{}
						}
						if samplesWanted > 0 && len(o.nontriv) > 0 && len(o.log) > 0 {
							samplesWanted--
							s.samples = append(s.samples, map[string]any{"check": c.Name, "case": clip(o.log)})
						}
					}
					if o.fail != nil {
						if f, ok := fails[o.fail.Sig]; !ok || i < f.i {
							fails[o.fail.Sig] = struct {
								i int
								o outcome
							}{i, o}
						}
					}
					s.mu.Unlock()
				}
			}
		}()
	}
	wg.Wait()
	var sigs []string
	for sig := range fails {
		sigs = append(sigs, sig)
	}
	sort.Slice(sigs, func(i, j int) bool { return fails[sigs[i]].i < fails[sigs[j]].i })
	first := true
	for _, sig := range sigs {
		f := fails[sig]
		if k, ok := s.known[sig]; ok {
			s.hitKnown(k)
			continue
		}
		switch {
		case c.CaseTimeout <= time.Minute:
			s.report(c.Name, shrink(&c, f.o))
		case first: // the cases are expensive
			s.report(c.Name, shrinkWide(&c, f.o))
		}
		first = false
	}
}

// Fixed judges one deterministic case (a regression or a probe of a known finding).
func (s *Session) Fixed(name string, f func(t *T)) {
	c := Check{Name: name, Cases: 1, Thorough: 1, Serial: true, Run: f}
	s.Run(c)
}

func (s *Session) hitKnown(k Known) {
	if s.knownHit[k.Sig] {
		return
	}
	s.knownHit[k.Sig] = true
	fmt.Printf("KNOWN-FINDING: property=%s %s [%s]\n", s.Property, k.What, k.Sig)
}

func clip(l []string) []string {
	var out []string
	for i, x := range l {
		if i >= 12 {
			out = append(out, fmt.Sprintf("... %d more lines", len(l)-i))
			break
		}
		if len(x) > 600 {
			x = x[:600] + "..."
		}
		out = append(out, x)
	}
	return out
}

func (s *Session) report(check string, o outcome) {
	dir := filepath.Join(s.Root, "evidence", "replay")
	_ = os.MkdirAll(dir, 0o755)
	p := filepath.Join(dir, fmt.Sprintf("%s-%s-%d.json", s.Property, sanitize(check), len(s.violation)))
	r := Replay{Property: s.Property, Check: check, Seed: s.Seed, Sig: o.fail.Sig, Message: o.fail.Msg, Case: o.log, Choices: o.rec,
		HowTo: fmt.Sprintf("cd /verif && ./run.sh %s --replay %s", s.Property, p)}
	b, _ := json.MarshalIndent(r, "", " ")
	_ = os.WriteFile(p, b, 0o644)
	fmt.Printf("counterexample (%s, %d choices): [%s] %s\n", check, len(o.rec), o.fail.Sig, o.fail.Msg)
	for _, l := range clip(o.log) {
		fmt.Println("  case:", l)
	}
	fmt.Printf("VIOLATION property=%s replay=%s\n", s.Property, p)
	s.violation = append(s.violation, o.fail.Sig)
}

func sanitize(s string) string {
	return strings.Map(func(r rune) rune {
		if r >= 'a' && r <= 'z' || r >= 'A' && r <= 'Z' || r >= '0' && r <= '9' || r == '-' {
			return r
		}
		return '_'
	}, s)
}

// Finish writes the evidence file and returns the exit code.
func (s *Session) Finish() int {
	if s.replayArg != nil {
		if !s.replaySet {
			fmt.Println("replay: no such check", s.replayArg.Check)
			return 3
		}
		if len(s.violation) > 0 {
			fmt.Printf("VIOLATION property=%s replay=%s\n", s.Property, os.Getenv("VERIF_REPLAY"))
			return 1
		}
		return 0
	}
	tier := "quick"
	if s.Thorough {
		tier = "thorough"
	}
	if len(s.samples) > 24 {
		s.samples = s.samples[:24]
	}
	var hits []string
	for k := range s.knownHit {
		hits = append(hits, k)
	}
	sort.Strings(hits)
	cov := map[string]any{
		"evaluations": s.evals, "distinct_nontrivial": len(s.nontriv), "rule": s.Rule, "samples": s.samples,
		"discarded": s.discarded, "cases_per_check": s.perCheck, "known_findings_reproduced": hits,
	}
	for k, v := range s.Extra {
		cov[k] = v
	}
	ev := map[string]any{
		"property": s.Property, "tier": tier, "seed": s.Seed, "level": s.Level, "coverage": cov,
		"assumptions": s.Assume, "wall_s": math.Round(time.Since(s.start).Seconds()*100) / 100, "violations": len(s.violation),
	}
	if s.Assume == nil {
		ev["assumptions"] = []string{}
	}
	b, err := json.MarshalIndent(ev, "", " ")
	if err != nil {
		fmt.Fprintln(os.Stderr, "evidence:", err)
		return 3
	}
	dir := filepath.Join(s.Root, "evidence")
	_ = os.MkdirAll(dir, 0o755)
	if err := os.WriteFile(filepath.Join(dir, s.Property+".json"), b, 0o644); err != nil {
		fmt.Fprintln(os.Stderr, "evidence:", err)
		return 3
	}
	fmt.Printf("%s %s seed=%d: %d cases (%d distinct non-trivial, %d discarded), %d violations, %d known findings, %.1fs\n",
		s.Property, tier, s.Seed, s.evals, len(s.nontriv), s.discarded, len(s.violation), len(s.knownHit), time.Since(s.start).Seconds())
	if len(s.violation) > 0 {
		return 1
	}
	return 0
}

// Count adds cases judged outside Run (for instance in a child process).
func (s *Session) Count(check string, evals int, nontriv []string, samples []any) {
	s.mu.Lock()
	defer s.mu.Unlock()
	s.evals += evals
	s.perCheck[check] += evals
	for _, k := range nontriv {
		h := sha256.Sum256([]byte(check + "\x00" + k))
		s.nontriv[string(h[:10])] = struct{}{}
	}
	for _, x := range samples {
		if len(s.samples) < 24 {
			s.samples = append(s.samples, x)
		}
	}
}

// ---------------------------------------------------------------- shrinking

func shrink(c *Check, o outcome) outcome {
	budget := c.MaxShrink
	if budget == 0 {
		budget = 3000
	}
	deadline := time.Now().Add(60 * time.Second)
	if o.fail != nil && strings.HasSuffix(o.fail.Sig, ":hang") {
		budget = 40
	}
	best := o
	try := func(cand []uint64) bool {
		if budget <= 0 || time.Now().After(deadline) {
			return false
		}
		budget--
		r := runCase(c, rand.New(rand.NewPCG(1, 1)), cand, true)
		if r.fail != nil && r.fail.Sig == o.fail.Sig && less(r.rec, best.rec) {
			best = r
			return true
		}
		return false
	}
	// the stream as recorded must reproduce the failure
	r := runCase(c, rand.New(rand.NewPCG(1, 1)), o.rec, true)
	if r.fail == nil || r.fail.Sig != o.fail.Sig {
		best.fail = &Failure{Sig: o.fail.Sig, Msg: o.fail.Msg + "\n(not reproduced on replay: depends on state outside the case)"}
		return best
	}
	for improved := true; improved && budget > 0; {
		improved = false
		for size := len(best.rec) / 2; size >= 1; size /= 2 {
			for i := 0; i+size <= len(best.rec); {
				cand := append(append([]uint64(nil), best.rec[:i]...), best.rec[i+size:]...)
				if try(cand) {
					improved = true
				} else {
					i += size
				}
				if budget <= 0 {
					break
				}
			}
		}
		for i := 0; i < len(best.rec); i++ {
			if best.rec[i] == 0 {
				continue
			}
			cand := append([]uint64(nil), best.rec...)
			cand[i] = 0
			if try(cand) {
				improved = true
				continue
			}
			lo, hi := uint64(0), best.rec[i]
			for lo+1 < hi && budget > 0 && i < len(best.rec) {
				mid := lo + (hi-lo)/2
				cand = append([]uint64(nil), best.rec...)
				cand[i] = mid
				if try(cand) {
					improved = true
					if i < len(best.rec) {
						hi = best.rec[i]
					} else {
						break
					}
				} else {
					lo = mid
				}
			}
		}
	}
	return best
}

// shrinkWide tries eight candidates at a time.
func shrinkWide(c *Check, o outcome) outcome {
	budget := c.MaxShrink
	if budget == 0 {
		budget = 200
	}
	deadline := time.Now().Add(70 * time.Second)
	best := o
	alive := func() bool { return budget > 0 && time.Now().Before(deadline) }
	// try gives the smallest of the candidates which still fails
	try := func(cands [][]uint64) bool {
		outs := make([]outcome, len(cands))
		var wg sync.WaitGroup
		for i := range cands {
			wg.Add(1)
			go func() {
				defer wg.Done()
				outs[i] = runCase(c, rand.New(rand.NewPCG(1, 1)), cands[i], true)
			}()
		}
		wg.Wait()
		budget -= len(cands)
		ok := false
		for _, r := range outs {
			if r.fail != nil && r.fail.Sig == o.fail.Sig && less(r.rec, best.rec) {
				best, ok = r, true
			}
		}
		return ok
	}
	for size := len(best.rec) / 2; size >= 1 && alive(); {
		improved := false
		for i := 0; i+size <= len(best.rec) && alive(); {
			var cands [][]uint64
			k := i
			for ; k+size <= len(best.rec) && len(cands) < 8; k += size {
				cands = append(cands, append(append([]uint64(nil), best.rec[:k]...), best.rec[k+size:]...))
			}
			if try(cands) {
				improved = true
			} else {
				i = k
			}
		}
		if !improved || size == 1 {
			size /= 2
		}
	}
	for i := 0; i < len(best.rec) && alive(); {
		var cands [][]uint64
		k := i
		for ; k < len(best.rec) && len(cands) < 8; k++ {
			if best.rec[k] != 0 {
				cand := append([]uint64(nil), best.rec...)
				cand[k] = 0
				cands = append(cands, cand)
			}
		}
		if len(cands) == 0 || !try(cands) {
			i = k
		}
	}
	return best
}

func less(a, b []uint64) bool {
	if len(a) != len(b) {
		return len(a) < len(b)
	}
	for i := range a {
		if a[i] != b[i] {
			return a[i] < b[i]
		}
	}
	return false
}

// Hash is a short digest, for distinctness keys.
func Hash(parts ...any) string {
	h := sha256.Sum256([]byte(fmt.Sprintf("%#v", parts)))
	return fmt.Sprintf("%x", h[:8])
}
