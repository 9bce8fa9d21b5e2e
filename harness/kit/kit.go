// Package kit is what every check is made of: it runs generated cases in
// shards, counts and samples them for the evidence file, keeps the description
// of the case that failed for the replay file, and contains what the code under
// test does wrong (panics, logrus.Fatal, hangs).
package kit

import (
	"crypto/sha256"
	"encoding/binary"
	"encoding/json"
	"flag"
	"fmt"
	"io"
	"os"
	"path/filepath"
	"runtime"
	"runtime/debug"
	"sort"
	"strconv"
	"strings"
	"sync"
	"sync/atomic"
	"testing"
	"time"

	"github.com/sirupsen/logrus"
	"pgregory.net/rapid"
)

// Fatals counts the calls of logrus.Fatal, each of which would have ended the
// process; see init.
var Fatals int64

var fatalStack atomic.Value

func init() {
	logrus.SetOutput(io.Discard)
	logrus.SetLevel(logrus.PanicLevel)
	// logrus.Fatal runs the exit handlers and then os.Exit. Ending the goroutine
	// here makes the call observable: it doesn't return, as in production, but
	// the check goes on.
	logrus.RegisterExitHandler(func() {
		atomic.AddInt64(&Fatals, 1)
		fatalStack.Store(string(debug.Stack()))
		runtime.Goexit()
	})
}

// FatalStack is the stack of the last logrus.Fatal.
func FatalStack() string {
	s, _ := fatalStack.Load().(string)
	return trim(s)
}

// Thorough tells the tier.
func Thorough() bool { return os.Getenv("VERIF_TIER") == "thorough" }

func seed() uint64 {
	s := os.Getenv("VERIF_SEED")
	n, err := strconv.ParseInt(s, 10, 64)
	if err != nil && s != "" {
		h := sha256.Sum256([]byte(s))
		return binary.BigEndian.Uint64(h[:])
	}
	return uint64(n)
}

type part struct {
	Name     string         `json:"part"`
	Cases    int            `json:"cases"`
	Distinct int            `json:"distinct_nontrivial"`
	Classes  map[string]int `json:"classes"`
	seen     map[[16]byte]struct{}
}

// Violation is a failed part.
type Violation struct {
	Part    string
	Test    string
	Message string
	Case    string
	Seed    uint64
}

// Prop collects what one property's check did.
type Prop struct {
	t     *testing.T
	id    string
	rule  string
	start time.Time

	mu         sync.Mutex
	parts      []*part
	samples    []string
	violations []Violation
	// first is the shard that failed first; the others stop then
	first  atomic.Value
	known  map[string]string
	extra  map[string]any
	assume []string
}

// New begins the check of a property. rule says what a non-trivial case is.
func New(t *testing.T, id, rule string, assume ...string) *Prop {
	p := &Prop{t: t, id: id, rule: rule, start: time.Now(), known: map[string]string{}, assume: assume, extra: map[string]any{}}
	t.Cleanup(p.finish)
	return p
}

// Extra adds a figure to the evidence.
func (p *Prop) Extra(k string, v any) {
	p.mu.Lock()
	defer p.mu.Unlock()
	p.extra[k] = v
}

// AddExtra adds n to a counter in the evidence.
func (p *Prop) AddExtra(k string, n int) {
	p.mu.Lock()
	defer p.mu.Unlock()
	v, _ := p.extra[k].(int)
	p.extra[k] = v + n
}

func (p *Prop) finish() {
	p.mu.Lock()
	defer p.mu.Unlock()
	evals, distinct := 0, 0
	for _, x := range p.parts {
		x.Distinct = len(x.seen)
		evals += x.Cases
		distinct += x.Distinct
	}
	cov := map[string]any{
		"evaluations": evals, "distinct_nontrivial": distinct, "rule": p.rule,
		"samples": p.samples, "parts": p.parts,
	}
	for k, v := range p.extra {
		cov[k] = v
	}
	level := "exploration"
	ev := map[string]any{
		"property": p.id, "tier": "quick", "seed": int64(seed()), "level": level, "coverage": cov,
		"assumptions": append([]string{}, p.assume...), "wall_s": time.Since(p.start).Seconds(),
		"violations": len(p.violations),
	}
	if Thorough() {
		ev["tier"] = "thorough"
	}
	keys := []string{}
	for k := range p.known {
		keys = append(keys, k)
	}
	sort.Strings(keys)
	known := []map[string]string{}
	for _, k := range keys {
		known = append(known, map[string]string{"key": k, "what": p.known[k]})
	}
	write("result.json", map[string]any{"evidence": ev, "violations": p.violations, "known": known, "failed": p.t.Failed()})
}

func outDir() string {
	if d := os.Getenv("VERIF_OUT"); d != "" {
		return d
	}
	return os.TempDir()
}

func write(name string, v any) {
	b, err := json.MarshalIndent(v, "", " ")
	if err == nil {
		err = os.WriteFile(filepath.Join(outDir(), name), b, 0644)
	}
	if err != nil {
		fmt.Fprintln(os.Stderr, "kit:", err)
		os.Exit(3)
	}
}

// Budget is how many cases a part runs, split over the shards, which run
// concurrently.
type Budget struct {
	Quick, Thorough, Shards int
	// Journal keeps the running case on disk, for crashes of the process.
	Journal bool
	// Shrink bounds the minimisation of a failure.
	Shrink time.Duration
	// Steps is the average length of histories (rapid's Repeat).
	Steps int
}

// Case is one generated case.
type Case struct {
	*rapid.T
	prop    *Prop
	part    *part
	journal string
	mu      sync.Mutex
	desc    strings.Builder
	classes map[string]int
	key     []byte
	counted bool
	message string
}

func (c *Case) text() string {
	c.mu.Lock()
	defer c.mu.Unlock()
	return c.desc.String()
}

// Fatalf fails the case.
func (c *Case) Fatalf(format string, args ...any) {
	c.message = fmt.Sprintf(format, args...)
	c.T.Fatalf("%s", c.message)
}

// Note adds to the description of the case.
func (c *Case) Note(format string, args ...any) {
	c.mu.Lock()
	defer c.mu.Unlock()
	fmt.Fprintf(&c.desc, format+"\n", args...)
	if c.journal != "" {
		os.WriteFile(c.journal, []byte(c.part.Name+"\n"+c.desc.String()), 0644)
	}
}

// Class counts the case under a name.
func (c *Case) Class(format string, args ...any) { c.classes[fmt.Sprintf(format, args...)]++ }

// NonTrivial marks the case non-trivial; key is what makes it distinct, by
// default its description.
func (c *Case) NonTrivial(key ...[]byte) {
	c.counted = true
	for _, k := range key {
		c.key = append(c.key, k...)
	}
}

// Known reports a violation that may be a listed finding. It returns after
// recording it when it is listed, and fails the case otherwise.
func (c *Case) Known(key, what string) {
	var list struct {
		Findings []struct{ Property, Key string }
	}
	b, err := os.ReadFile(os.Getenv("VERIF_KNOWN"))
	if err == nil {
		err = json.Unmarshal(b, &list)
	}
	if err == nil {
		for _, f := range list.Findings {
			if f.Property == c.prop.id && f.Key == key {
				c.prop.mu.Lock()
				c.prop.known[key] = what
				c.prop.mu.Unlock()
				return
			}
		}
	}
	c.Fatalf("%s: %s", key, what)
}

var flagMu sync.Mutex

func setFlag(name, val string) {
	if err := flag.Set(name, val); err != nil {
		panic(err)
	}
}

// Part runs f on generated cases.
func (p *Prop) Part(name string, b Budget, f func(c *Case)) {
	if only := os.Getenv("VERIF_PART"); only != "" && only != name {
		return
	}
	n := b.Quick
	if Thorough() {
		n = b.Thorough
	}
	if x, err := strconv.Atoi(os.Getenv("VERIF_CASES")); err == nil && x > 0 {
		n = x
	}
	if b.Shards == 0 {
		b.Shards = 1
	}
	if b.Shrink == 0 {
		b.Shrink = 15 * time.Second
	}
	if b.Steps == 0 {
		b.Steps = 30
	}
	pt := &part{Name: name, Classes: map[string]int{}, seen: map[[16]byte]struct{}{}}
	p.mu.Lock()
	p.parts = append(p.parts, pt)
	p.mu.Unlock()

	p.t.Run(name, func(t *testing.T) {
		for s := 0; s < b.Shards; s++ {
			checks := n / b.Shards
			if s < n%b.Shards {
				checks++
			}
			if checks == 0 {
				continue
			}
			t.Run(fmt.Sprintf("s%d", s), func(t *testing.T) {
				t.Parallel()
				p.shard(t, pt, s, checks, b, f)
			})
		}
	})
}

func (p *Prop) shard(t *testing.T, pt *part, s, checks int, b Budget, f func(c *Case)) {
	h := sha256.Sum256([]byte(fmt.Sprintf("%d/%s/%s/%d", seed(), p.id, pt.Name, s)))
	sd := binary.BigEndian.Uint64(h[:8]) | 1

	// last is the last case, lastFailed the last one that failed
	var last, lastFailed *Case
	defer func() {
		// the other shards stopped in the middle
		if first, _ := p.first.Load().(string); !t.Failed() || first != "" && first != t.Name() {
			return
		}
		v := Violation{Part: pt.Name, Test: t.Name(), Seed: sd}
		if lastFailed != nil {
			last = lastFailed
		}
		if last != nil {
			v.Case = last.desc.String()
		}
		p.mu.Lock()
		p.violations = append(p.violations, v)
		p.mu.Unlock()
	}()

	// rapid reads its settings when it starts, so hold them until then
	flagMu.Lock()
	var once sync.Once
	defer once.Do(flagMu.Unlock)
	setFlag("rapid.seed", strconv.FormatUint(sd, 10))
	setFlag("rapid.checks", strconv.Itoa(checks))
	setFlag("rapid.steps", strconv.Itoa(b.Steps))
	setFlag("rapid.shrinktime", b.Shrink.String())

	var failed time.Time
	rapid.Check(t, func(rt *rapid.T) {
		once.Do(flagMu.Unlock)
		// rapid looks at the time between the choices that it minimises only,
		// and one of them may take a hundred runs
		if !failed.IsZero() && time.Since(failed) > b.Shrink && shrinking() {
			return
		}
		// one failure is enough
		if first, _ := p.first.Load().(string); first != "" && first != t.Name() {
			return
		}
		// rapid runs the minimal case twice more to show what it says
		if lastFailed != nil && lastFailed.message != "" && time.Since(failed) > b.Shrink+15*time.Second && reporting() {
			rt.Fatalf("%s", lastFailed.message)
		}
		ok := false
		var c *Case
		defer func() {
			r := recover()
			if r != nil {
				// ends the case as before
				defer panic(r)
			}
			// rapid gives up a case that it can't generate, which is no failure
			if !ok && fmt.Sprintf("%T", r) != "rapid.invalidData" {
				lastFailed = c
				if p.first.CompareAndSwap(nil, t.Name()) {
					// for check.py, should the rest take too long
					write("first.json", map[string]any{"part": pt.Name, "test": t.Name(), "seed": sd, "case": c.text(), "message": c.message})
				}
				if failed.IsZero() {
					failed = time.Now()
				}
			}
		}()
		c = &Case{T: rt, prop: p, part: pt, classes: map[string]int{}}
		if b.Journal {
			c.journal = filepath.Join(outDir(), fmt.Sprintf("journal-%s-%d", pt.Name, s))
		}
		last = c
		running.Store(c, true)
		defer running.Delete(c)
		f(c)
		ok = true
		if c.journal != "" {
			os.Remove(c.journal)
		}
		p.mu.Lock()
		defer p.mu.Unlock()
		pt.Cases++
		for k, n := range c.classes {
			pt.Classes[k] += n
		}
		if c.counted {
			key := c.key
			if len(key) == 0 {
				key = []byte(c.desc.String())
			}
			h := sha256.Sum256(key)
			var k [16]byte
			copy(k[:], h[:])
			pt.seen[k] = struct{}{}
			// a few samples, spread over the run
			if n := len(pt.seen); n == 1 || n == 40 || n == 1000 {
				d := c.desc.String()
				if len(d) > 1500 {
					d = d[:1500] + "..."
				}
				p.samples = append(p.samples, pt.Name+": "+strings.TrimSpace(d))
			}
		}
	})
}

// shrinking tells whether rapid is minimising a failure.
func shrinking() bool { return within("rapid.(*shrinker)") }

// reporting tells whether rapid runs a case to report it.
func reporting() bool { return within("rapid.captureTestOutput") || !within("rapid.doCheck") }

func within(name string) bool {
	pc := make([]uintptr, 64)
	frames := runtime.CallersFrames(pc[:runtime.Callers(1, pc)])
	for {
		f, more := frames.Next()
		if strings.Contains(f.Function, name) {
			return true
		}
		if !more {
			return false
		}
	}
}

// Outcome is how guarded code ended.
type Outcome struct {
	Panic any
	Fatal bool
	Stack string
}

// OK tells that the code returned.
func (o Outcome) OK() bool { return o.Panic == nil && !o.Fatal }

func (o Outcome) String() string {
	if o.Fatal {
		return "it called logrus.Fatal, which ends the process\n" + o.Stack
	}
	if o.Panic != nil {
		return fmt.Sprintf("it panicked: %v\n%s", o.Panic, o.Stack)
	}
	return "it returned"
}

// HangLimit is how long guarded code may take.
const HangLimit = 2 * time.Minute

func trim(s string) string {
	if len(s) > 4000 {
		s = s[:4000]
	}
	return s
}

// Do runs code under test.
func Do(f func()) (o Outcome) {
	ch := make(chan struct{})
	go func() {
		returned := false
		defer func() {
			if r := recover(); r != nil {
				o.Panic, o.Stack = r, trim(string(debug.Stack()))
			} else if !returned {
				o.Fatal, o.Stack = true, FatalStack()
			}
			close(ch)
		}()
		f()
		returned = true
	}()
	t := time.NewTimer(HangLimit)
	defer t.Stop()
	select {
	case <-ch:
	case <-t.C:
		Hang(fmt.Sprintf("the code under test did not return within %v", HangLimit))
	}
	return o
}

// running are the cases under way.
var running sync.Map

// Hang ends the check: something that can't be undone is stuck. Running the
// case again to minimise it would only get stuck again.
func Hang(what string) {
	var cases []string
	running.Range(func(k, _ any) bool {
		c := k.(*Case)
		c.mu.Lock()
		cases = append(cases, c.part.Name+": "+c.desc.String())
		c.mu.Unlock()
		return true
	})
	buf := make([]byte, 1<<20)
	buf = buf[:runtime.Stack(buf, true)]
	write("hang.json", map[string]any{"what": what, "cases": cases, "stacks": string(buf)})
	fmt.Fprintln(os.Stderr, "kit: hang:", what)
	os.Exit(4)
}

// Must runs code under test that has to return.
func (c *Case) Must(what string, f func()) {
	if o := Do(f); !o.OK() {
		c.Fatalf("%s: %v", what, o)
	}
}
