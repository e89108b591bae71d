// Package kit is the common runtime of every check: seeded randomness, counting of what was
// really observed, violation/known-finding reporting, replay files and the evidence file.
package kit

import (
	"crypto/sha256"
	"encoding/hex"
	"encoding/json"
	"fmt"
	"hash/fnv"
	"math/rand/v2"
	"os"
	"path/filepath"
	"runtime"
	"runtime/debug"
	"sort"
	"strconv"
	"strings"
	"sync"
	"time"
	"unicode"
	"unicode/utf8"
)

// out is the real standard output; what the code under test prints goes nowhere.
var out = os.Stdout

func init() {
	if os.Getenv("VERIF_LOG") == "" {
		if n, err := os.OpenFile(os.DevNull, os.O_WRONLY, 0); err == nil {
			os.Stdout = n
		}
	}
}

type Check struct {
	ID, Tier string
	Seed     int64
	Level    string
	Rule     string
	Assume   []string

	mu        sync.Mutex
	start     time.Time
	evals     int
	distinct  map[uint64]struct{}
	counts    map[string]int
	samples   []any
	sampleKey map[string]int
	viol      map[string]string // sig -> what
	known     map[string]bool   // sigs listed for this property
	knownText map[string]string
	knownSeen map[string]bool
	errs      []string
	extra     map[string]any
}

func root() string {
	if r := os.Getenv("VERIF_ROOT"); r != "" {
		return r
	}
	return "/verif"
}

func newCheck(id string) *Check {
	c := &Check{ID: id, Tier: "quick", Seed: 1, Level: "exploration", start: time.Now(),
		distinct: map[uint64]struct{}{}, counts: map[string]int{}, sampleKey: map[string]int{},
		viol: map[string]string{}, known: map[string]bool{}, knownText: map[string]string{}, knownSeen: map[string]bool{}, extra: map[string]any{}}
	if t := os.Getenv("VERIF_TIER"); t == "thorough" {
		c.Tier = t
	}
	if s, err := strconv.ParseInt(os.Getenv("VERIF_SEED"), 10, 64); err == nil {
		c.Seed = s
	}
	b, _ := os.ReadFile(filepath.Join(root(), "known-findings.txt"))
	for _, l := range strings.Split(string(b), "\n") {
		// known: property=P01 sig=<sig> <text>
		if !strings.HasPrefix(l, "known: property="+id+" ") {
			continue
		}
		f := strings.SplitN(l, " ", 4)
		if len(f) >= 3 && strings.HasPrefix(f[2], "sig=") {
			sig := strings.TrimPrefix(f[2], "sig=")
			c.known[sig] = true
			if len(f) == 4 {
				c.knownText[sig] = f[3]
			}
		}
	}
	return c
}

// Main runs body and ends the process with the verdict.
func Main(id string, body func(c *Check)) {
	c := newCheck(id)
	func() {
		defer func() {
			if p := recover(); p != nil {
				st := string(debug.Stack())
				if FromSUT(st) {
					c.Violation("panic-escaped", "code under test panicked: %v\n%s", p, st)
				} else {
					c.Broken("harness panic: %v\n%s", p, st)
				}
			}
		}()
		body(c)
	}()
	c.finish()
}

// harnessDir is where the harness is compiled from, with the final slash.
var harnessDir = func() string {
	_, f, _, _ := runtime.Caller(0)
	return strings.TrimSuffix(f, "kit/kit.go")
}()

// FromSUT tells whether the innermost non-runtime frame of a stack belongs to the code under test.
func FromSUT(stack string) bool {
	i := strings.LastIndex(stack, "panic(")
	if i >= 0 {
		stack = stack[i:]
	}
	// Judged by the file of the innermost frame that is ours or the code's: functions inlined into a caller carry its name.
	for _, l := range strings.Split(stack, "\n") {
		if !strings.HasPrefix(l, "\t") {
			continue
		}
		switch {
		case strings.HasPrefix(l, "\t/repo/"):
			return true
		case strings.HasPrefix(l, "\t"+harnessDir):
			return false
		}
	}
	return false
}

func (c *Check) Thorough() bool { return c.Tier == "thorough" }

// N picks the quick or thorough amount.
func (c *Check) N(quick, thorough int) int {
	if c.Thorough() {
		return thorough
	}
	return quick
}

// Rand gives an independent stream for a label, determined by the seed.
func (c *Check) Rand(label string) *rand.Rand {
	h := fnv.New64a()
	h.Write([]byte(label))
	return rand.New(rand.NewPCG(uint64(c.Seed), h.Sum64()))
}

// Eval counts one evaluation; key identifies the case for distinctness ("" = trivial).
func (c *Check) Eval(key string) {
	c.mu.Lock()
	defer c.mu.Unlock()
	c.evals++
	if key != "" {
		h := fnv.New64a()
		h.Write([]byte(key))
		c.distinct[h.Sum64()] = struct{}{}
	}
}

func (c *Check) Count(name string) { c.CountN(name, 1) }
func (c *Check) CountN(name string, n int) {
	c.mu.Lock()
	c.counts[name] += n
	c.mu.Unlock()
}
func (c *Check) Get(name string) int {
	c.mu.Lock()
	defer c.mu.Unlock()
	return c.counts[name]
}

func (c *Check) Extra(name string, v any) {
	c.mu.Lock()
	c.extra[name] = v
	c.mu.Unlock()
}

// Sample keeps up to 3 samples per class, 40 overall.
func (c *Check) Sample(class string, format string, a ...any) {
	c.mu.Lock()
	defer c.mu.Unlock()
	if c.sampleKey[class] >= 3 || len(c.samples) >= 40 {
		return
	}
	c.sampleKey[class]++
	s := fmt.Sprintf(format, a...)
	if len(s) > 600 {
		s = s[:600] + "…"
	}
	c.samples = append(c.samples, class+": "+s)
}

func clean(sig string) string {
	var b strings.Builder
	for _, r := range sig {
		if r >= 'a' && r <= 'z' || r >= 'A' && r <= 'Z' || r >= '0' && r <= '9' || strings.ContainsRune("-_.:/+", r) {
			b.WriteRune(r)
		} else {
			b.WriteByte('_')
		}
	}
	return b.String()
}

// Violation reports a violation, once per signature.
func (c *Check) Violation(sig string, format string, a ...any) {
	sig = clean(sig)
	c.mu.Lock()
	defer c.mu.Unlock()
	if c.known[sig] {
		if !c.knownSeen[sig] {
			c.knownSeen[sig] = true
			fmt.Fprintf(out, "KNOWN-FINDING: property=%s sig=%s %s\n", c.ID, sig, c.knownText[sig])
		}
		return
	}
	if _, dup := c.viol[sig]; dup {
		return
	}
	what := printable(fmt.Sprintf(format, a...))
	c.viol[sig] = what
	if len(c.viol) > 25 {
		return
	}
	h := sha256.Sum256([]byte(sig))
	dir := filepath.Join(root(), "evidence", "replay")
	os.MkdirAll(dir, 0o755)
	p := filepath.Join(dir, c.ID+"-"+hex.EncodeToString(h[:4])+".txt")
	os.WriteFile(p, []byte(fmt.Sprintf("property=%s\nsignature=%s\nseed=%d tier=%s\nrerun: VERIF_SEED=%d bin/check %s %s\n\n%s\n", c.ID, sig, c.Seed, c.Tier, c.Seed, c.ID, c.Tier, what)), 0o644)
	if len(what) > 1500 {
		what = what[:1500] + "…"
	}
	fmt.Fprintf(out, "violation [%s] %s\n", sig, what)
	fmt.Fprintf(out, "VIOLATION property=%s replay=%s\n", c.ID, p)
}

// Must reports a violation unless ok.
func (c *Check) Must(ok bool, sig string, format string, a ...any) bool {
	if !ok {
		c.Violation(sig, format, a...)
	}
	return ok
}

func (c *Check) Violations() int {
	c.mu.Lock()
	defer c.mu.Unlock()
	return len(c.viol)
}

// printable keeps a report readable where it quotes raw bytes.
func printable(s string) string {
	return strings.Map(func(r rune) rune {
		if r == '\n' || r == '\t' || (unicode.IsPrint(r) && r != utf8.RuneError) {
			return r
		}
		return '?'
	}, s)
}

// Broken marks the check itself as unable to decide.
func (c *Check) Broken(format string, a ...any) {
	c.mu.Lock()
	defer c.mu.Unlock()
	s := fmt.Sprintf(format, a...)
	c.errs = append(c.errs, s)
	if len(c.errs) < 10 {
		fmt.Fprintf(os.Stderr, "CHECK-ERROR %s: %s\n", c.ID, s)
	}
}

// Require marks the check broken if a counter stayed below min (nothing observed).
func (c *Check) Require(name string, min int) {
	if got := c.Get(name); got < min && c.Violations() == 0 {
		c.Broken("observed only %d of %s, need %d", got, name, min)
	}
}

func (c *Check) finish() {
	c.mu.Lock()
	defer c.mu.Unlock()
	cov := map[string]any{"evaluations": c.evals, "distinct_nontrivial": len(c.distinct), "rule": c.Rule, "samples": c.samples}
	names := make([]string, 0, len(c.counts))
	for k := range c.counts {
		names = append(names, k)
	}
	sort.Strings(names)
	obs := map[string]int{}
	for _, k := range names {
		obs[k] = c.counts[k]
	}
	cov["observed"] = obs
	for k, v := range c.extra {
		cov[k] = v
	}
	if c.samples == nil {
		cov["samples"] = []any{}
	}
	ev := map[string]any{"property": c.ID, "tier": c.Tier, "seed": c.Seed, "level": c.Level, "coverage": cov,
		"assumptions": c.Assume, "wall_s": time.Since(c.start).Seconds(), "violations": len(c.viol)}
	if c.Assume == nil {
		ev["assumptions"] = []string{}
	}
	if len(c.knownSeen) > 0 {
		var l []string
		for k := range c.knownSeen {
			l = append(l, k)
		}
		sort.Strings(l)
		cov["known_findings_seen"] = l
	}
	b, _ := json.MarshalIndent(ev, "", " ")
	os.MkdirAll(filepath.Join(root(), "evidence"), 0o755)
	os.WriteFile(filepath.Join(root(), "evidence", c.ID+".json"), append(b, '\n'), 0o644)
	for sig := range c.known {
		if !c.knownSeen[sig] {
			fmt.Fprintf(out, "note: known finding not observed in this run: property=%s sig=%s\n", c.ID, sig)
		}
	}
	fmt.Fprintf(out, "%s %s: %d evaluations, %d distinct, %d violations, %.1fs\n", c.ID, c.Tier, c.evals, len(c.distinct), len(c.viol), time.Since(c.start).Seconds())
	if len(c.viol) > 0 {
		os.Exit(1)
	}
	if len(c.errs) > 0 || c.evals == 0 || len(c.distinct) < 2 {
		fmt.Fprintf(os.Stderr, "CHECK-ERROR %s: %d errors, %d evaluations\n", c.ID, len(c.errs), c.evals)
		os.Exit(3)
	}
	os.Exit(0)
}

// Try runs f and returns the panic (with stack) if it panicked.
func Try(f func()) (panicked string) {
	defer func() {
		if p := recover(); p != nil {
			panicked = fmt.Sprintf("%v\n%s", p, debug.Stack())
		}
	}()
	f()
	return ""
}

func Hex(b []byte) string {
	if len(b) > 120 {
		return hex.EncodeToString(b[:120]) + fmt.Sprintf("…(%d bytes)", len(b))
	}
	return hex.EncodeToString(b)
}

// Bytes gives n seeded random bytes.
func Bytes(r *rand.Rand, n int) []byte {
	b := make([]byte, n)
	for i := range b {
		b[i] = byte(r.Uint32())
	}
	return b
}
