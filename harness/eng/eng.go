// Package eng is a small property-based testing engine: structured cases made of parameters and a list of
// operations, seeded generation, execution in worker processes, shrinking to a minimal case and replay files.
package eng

import (
	"crypto/sha256"
	"encoding/hex"
	"encoding/json"
	"fmt"
	"math/rand"
	"runtime/debug"
	"sort"
	"strings"
)

// Op is one operation of a history. Its integers are raw: whoever executes the operation reduces them to the range
// that makes sense at that moment, so that any sub-sequence of a history is a valid history too.
type Op struct {
	K          string
	A, B, C, D int64  `json:",omitempty"`
	S          string `json:",omitempty"`
}

// Case is one generated test case; it is fully serialisable and its execution is a pure function of it.
type Case struct {
	Property string
	Suite    string
	P        map[string]int64 `json:",omitempty"`
	Ops      []Op             `json:",omitempty"`
}

func (c *Case) Clone() *Case {
	d := &Case{Property: c.Property, Suite: c.Suite, P: map[string]int64{}, Ops: append([]Op(nil), c.Ops...)}
	for k, v := range c.P {
		d.P[k] = v
	}
	return d
}

func (c *Case) Hash() string {
	bz, _ := json.Marshal(c)
	h := sha256.Sum256(bz)
	return hex.EncodeToString(h[:8])
}

// Violation is a broken property. Sig identifies the kind of failure (it must not depend on generated values), so that
// shrinking keeps to the same failure and known findings can be told from new ones.
type Violation struct {
	Sig string
	Msg string
}

func (v *Violation) Error() string { return v.Sig + ": " + v.Msg }

func Violatef(sig, format string, args ...interface{}) *Violation {
	return &Violation{Sig: sig, Msg: fmt.Sprintf(format, args...)}
}

// Stats is what one case reports about itself.
type Stats struct {
	Classes    map[string]int64
	NonTrivial bool
	Steps      int64
}

func (s *Stats) Count(class string) { s.Add(class, 1) }
func (s *Stats) Add(class string, n int64) {
	if s == nil {
		return
	}
	if s.Classes == nil {
		s.Classes = map[string]int64{}
	}
	s.Classes[class] += n
}

// Suite is one generator with its oracle.
type Suite struct {
	Name string
	Gen  func(r *R) *Case
	// Run executes the case. A nil result means that the property held.
	Run func(c *Case, st *Stats) *Violation
	// Number of cases per tier.
	Quick, Thorough int
	// Enumerate, if set, gives further fixed cases (run before the generated ones).
	Enumerate func() []*Case
}

type Property struct {
	ID          string
	Rule        string
	Assumptions []string
	Suites      []*Suite
}

func (p *Property) Suite(name string) *Suite {
	for _, s := range p.Suites {
		if s.Name == name {
			return s
		}
	}
	return nil
}

var registry = map[string]*Property{}

func Register(p *Property) {
	if registry[p.ID] != nil {
		panic("duplicate property " + p.ID)
	}
	registry[p.ID] = p
}

func Get(id string) *Property { return registry[id] }

func IDs() []string {
	var ids []string
	for id := range registry {
		ids = append(ids, id)
	}
	sort.Strings(ids)
	return ids
}

// HarnessError is a problem of the harness itself (not of the code under test): it is never reported as a violation.
type HarnessError struct{ Msg string }

func (e HarnessError) Error() string { return "harness error: " + e.Msg }

func Bug(format string, args ...interface{}) { panic(HarnessError{fmt.Sprintf(format, args...)}) }

// Fail lets deeply nested oracle code abort the case with a violation.
func Fail(sig, format string, args ...interface{}) { panic(Violatef(sig, format, args...)) }

// Exec runs one case, turning panics into results.
func Exec(s *Suite, c *Case, st *Stats) (v *Violation, herr error) {
	defer func() {
		if r := recover(); r != nil {
			switch x := r.(type) {
			case *Violation:
				v = x
			case HarnessError:
				herr = x
			default:
				stack := string(debug.Stack())
				v = &Violation{Sig: "panic/" + panicSite(stack), Msg: fmt.Sprintf("unexpected panic: %v\n%s", r, trimStack(stack))}
			}
		}
	}()
	return s.Run(c.Clone(), st), nil
}

// panicSite finds the topmost frame that belongs to the code under test. A panic that comes from the harness is a
// harness error.
func panicSite(stack string) string {
	lines := strings.Split(stack, "\n")
	seenPanic := false
	for i := 0; i < len(lines); i++ {
		l := lines[i]
		if strings.HasPrefix(l, "panic(") {
			seenPanic = true
			continue
		}
		if !seenPanic {
			continue
		}
		if strings.HasPrefix(l, "github.com/arterynetwork/artr/") {
			if j := strings.LastIndex(l, "("); j > 0 {
				l = l[:j]
			}
			l = strings.TrimPrefix(l, "github.com/arterynetwork/artr/")
			return l
		}
		if strings.HasPrefix(l, "verif/harness/") {
			panic(HarnessError{"panic inside the harness:\n" + stack})
		}
	}
	return "unknown"
}

func trimStack(s string) string {
	lines := strings.Split(s, "\n")
	if len(lines) > 60 {
		lines = lines[:60]
	}
	return strings.Join(lines, "\n")
}

// R is a seeded source with helpers used by the generators.
type R struct{ *rand.Rand }

func NewR(seed int64) *R { return &R{rand.New(rand.NewSource(seed))} }

// Range gives a number in [lo, hi].
func (r *R) Range(lo, hi int64) int64 {
	if hi <= lo {
		return lo
	}
	return lo + r.Int63n(hi-lo+1)
}
func (r *R) Bool() bool           { return r.Intn(2) == 0 }
func (r *R) Chance(pc int) bool   { return r.Intn(100) < pc }
func (r *R) Raw() int64           { return r.Int63n(1 << 40) }
func (r *R) Pick(n int) int       { return r.Intn(n) }
func (r *R) Of(xs ...int64) int64 { return xs[r.Intn(len(xs))] }
func (r *R) OfS(xs ...string) string {
	return xs[r.Intn(len(xs))]
}

// Magnitude gives a number whose order of magnitude is uniform, up to 10^maxExp.
func (r *R) Magnitude(maxExp int) int64 {
	e := r.Intn(maxExp + 1)
	n := int64(1)
	for i := 0; i < e; i++ {
		n *= 10
	}
	return r.Range(n/10, n)
}

// Weighted picks a key by weight (deterministically for equal input).
type W struct {
	K string
	N int
}

func (r *R) Weighted(ws []W) string {
	t := 0
	for _, w := range ws {
		t += w.N
	}
	x := r.Intn(t)
	for _, w := range ws {
		if x < w.N {
			return w.K
		}
		x -= w.N
	}
	panic("unreachable")
}

// Mod reduces a raw integer into [0, n).
func Mod(x int64, n int) int {
	if n <= 0 {
		return 0
	}
	m := x % int64(n)
	if m < 0 {
		m += int64(n)
	}
	return int(m)
}
