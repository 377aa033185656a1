package pbt

// Harness: runs the sub-checks of one property under rapid with a fixed seed, counts what was
// generated, keeps samples, knows the recorded findings, writes the evidence file and, when a
// sub-check fails, a replay file with the shrunk case.

import (
	"encoding/binary"
	"encoding/json"
	"flag"
	"fmt"
	"hash/fnv"
	"os"
	"path/filepath"
	"runtime/debug"
	"sort"
	"strconv"
	"strings"
	"sync"
	"testing"
	"time"

	"pgregory.net/rapid"
)

type finding struct {
	Property string `json:"property"`
	Sig      string `json:"sig"`
	What     string `json:"what"`
}

type knownFile struct {
	Findings []finding `json:"findings"`
	Fixed    []string  `json:"fixed"`
}

var (
	envTier    = getenv("VERIF_TIER", "quick")
	envSeed    = seedFromEnv()
	envOut     = getenv("VERIF_OUT", "")
	envReplay  = getenv("VERIF_REPLAY_DIR", "")
	envScale   = floatEnv("VERIF_SCALE", 1)
	envOnlySub = os.Getenv("VERIF_SUB")
	known      = loadKnown()
)

func getenv(k, d string) string {
	if v := os.Getenv(k); v != "" {
		return v
	}
	return d
}

func floatEnv(k string, d float64) float64 {
	if f, err := strconv.ParseFloat(os.Getenv(k), 64); err == nil && f > 0 {
		return f
	}
	return d
}

func seedFromEnv() uint64 {
	n, err := strconv.ParseInt(os.Getenv("VERIF_SEED"), 10, 64)
	if err != nil {
		n = 1
	}
	return uint64(n)
}

func loadKnown() map[string]finding {
	out := map[string]finding{}
	p := os.Getenv("VERIF_KNOWN")
	if p == "" {
		p = "../known_findings.json"
	}
	b, err := os.ReadFile(p)
	if err != nil {
		return out
	}
	var k knownFile
	if err := json.Unmarshal(b, &k); err != nil {
		panic(fmt.Sprintf("known findings file: %v", err))
	}
	for _, f := range k.Findings {
		out[f.Property+"\x00"+f.Sig] = f
	}
	return out
}

// P is one property under check.
type P struct {
	t     *testing.T
	id    string
	rule  string
	start time.Time

	mu        sync.Mutex
	evals     int
	distinct  map[uint64]struct{}
	nontriv   int
	labels    map[string]int
	samples   []string
	subEvals  map[string]int
	knownHits map[string]int
	failures  []string // replay paths
}

// C is one generated case.
type C struct {
	*rapid.T
	p    *P
	sub  string
	desc string
	last *string
}

type knownStop struct{}

// The code under test prints parse trees to the standard streams on syntax errors; keep its output
// away from ours.
var stdout = os.Stdout

func start(t *testing.T, id, rule string) *P {
	if null, err := os.OpenFile(os.DevNull, os.O_WRONLY, 0); err == nil && os.Getenv("VERIF_NOISE") == "" {
		os.Stdout, os.Stderr = null, null
	}
	return &P{t: t, id: id, rule: rule, start: time.Now(), distinct: map[uint64]struct{}{},
		labels: map[string]int{}, subEvals: map[string]int{}, knownHits: map[string]int{}}
}

func setFlag(name, val string) {
	if err := flag.Set(name, val); err != nil {
		panic(err)
	}
}

func hash64(s string) uint64 {
	h := fnv.New64a()
	h.Write([]byte(s))
	return h.Sum64()
}

// sub runs one sub-check with n cases in the quick tier.
func (p *P) sub(name string, n int, f func(c *C)) {
	if envOnlySub != "" && envOnlySub != name {
		return
	}
	n = int(float64(n) * envScale)
	if envTier == "thorough" {
		n *= 6
	}
	if n < 1 {
		n = 1
	}
	seed := envSeed*0x9E3779B97F4A7C15 ^ hash64(p.id+"/"+name)
	if seed == 0 {
		seed = 1
	}
	setFlag("rapid.checks", strconv.Itoa(n))
	setFlag("rapid.seed", strconv.FormatUint(seed, 10))
	setFlag("rapid.nofailfile", "true")
	setFlag("rapid.shrinktime", "8s")
	var last string
	var failedOnce bool
	var curDesc string
	var caseStart time.Time
	var wmu sync.Mutex
	stop := make(chan struct{})
	go func() {
		tk := time.NewTicker(5 * time.Second)
		defer tk.Stop()
		for {
			select {
			case <-stop:
				return
			case <-tk.C:
				wmu.Lock()
				d, st := curDesc, caseStart
				wmu.Unlock()
				if !st.IsZero() && time.Since(st) > 120*time.Second {
					path := p.writeReplay(name, "the case did not terminate within 120 s\ncase: "+d)
					p.failures = append(p.failures, path)
					fmt.Fprintf(stdout, "\nVIOLATION property=%s replay=%s\n", p.id, path)
					os.Exit(1)
				}
			}
		}
	}()
	ok := p.t.Run(name, func(t *testing.T) {
		rapid.Check(t, func(rt *rapid.T) {
			c := &C{T: rt, p: p, sub: name, last: &last}
			wmu.Lock()
			caseStart = time.Now()
			curDesc = ""
			wmu.Unlock()
			defer func() {
				wmu.Lock()
				caseStart = time.Time{}
				wmu.Unlock()
			}()
			if !failedOnce {
				p.evals++
				p.subEvals[name]++
			}
			defer func() {
				r := recover()
				if r == nil {
					return
				}
				if _, isKnown := r.(knownStop); isKnown {
					return
				}
				if tn := fmt.Sprintf("%T", r); strings.HasPrefix(tn, "rapid.") || strings.HasPrefix(tn, "*rapid.") {
					if tn == "rapid.stopTest" {
						failedOnce = true
					}
					panic(r)
				}
				st := shortStack(string(debug.Stack()))
				sig := "panic:" + panicSite(st)
				if c.knownHit(sig) {
					return
				}
				failedOnce = true
				last = fmt.Sprintf("[%s/%s] panic: %v (sig %q)\ncase: %s\n%s", p.id, name, r, sig, c.desc, st)
				rt.Fatalf("panic: %v at %s", r, panicSite(st))
			}()
			f(c)
		})
	})
	close(stop)
	if !ok {
		if last == "" {
			last = "sub-check failed without message (see log)"
		}
		path := p.writeReplay(name, last)
		p.failures = append(p.failures, path)
	}
}

// panicSite gives the innermost frame of the stack that lies in the code under test.
func panicSite(stack string) string {
	lines := strings.Split(stack, "\n")
	seenPanic := false
	for _, l := range lines {
		if strings.HasPrefix(l, "panic(") {
			seenPanic = true
			continue
		}
		if seenPanic && strings.HasPrefix(l, "github.com/substrait-io/substrait-go/v8") {
			s := strings.TrimPrefix(l, "github.com/substrait-io/substrait-go/v8")
			if i := strings.LastIndex(s, "("); i > 0 {
				s = s[:i]
			}
			return strings.TrimPrefix(s, "/")
		}
	}
	return "harness"
}

// shortStack keeps the frames from the panic on that belong to the code under test or the checks.
func shortStack(st string) string {
	lines := strings.Split(st, "\n")
	var out []string
	seen := false
	for i := 0; i+1 < len(lines); i++ {
		l := lines[i]
		if strings.HasPrefix(l, "panic(") {
			seen = true
			out = append(out, "panic(")
			continue
		}
		if seen && (strings.HasPrefix(l, "github.com/substrait-io/") || strings.HasPrefix(l, "verif/pbt.Test")) {
			out = append(out, l, lines[i+1])
		}
		if len(out) > 24 {
			break
		}
	}
	return strings.Join(out, "\n")
}

func (p *P) writeReplay(sub, msg string) string {
	dir := envReplay
	if dir == "" {
		dir = os.TempDir()
	}
	_ = os.MkdirAll(dir, 0o755)
	path := filepath.Join(dir, fmt.Sprintf("%s-%s-seed%d.txt", p.id, strings.ReplaceAll(sub, "/", "_"), envSeed))
	body := fmt.Sprintf("property=%s sub=%s seed=%d tier=%s scale=%g\n%s\n", p.id, sub, envSeed, envTier, envScale, msg)
	_ = os.WriteFile(path, []byte(body), 0o644)
	return path
}

// Case records the case: its description and whether it is non-trivial by the property's rule.
func (c *C) Case(nontrivial bool, format string, args ...any) {
	if c.desc != "" { // a further case of the same draw
		c.p.evals++
		c.p.subEvals[c.sub]++
	}
	c.desc = fmt.Sprintf(format, args...)
	if nontrivial {
		h := hash64(c.sub + "\x00" + c.desc)
		if _, ok := c.p.distinct[h]; !ok {
			c.p.distinct[h] = struct{}{}
			if c.p.subEvals[c.sub] >= 20 && len(c.p.samples) < 24 && c.p.labels["sample:"+c.sub] < 2 {
				c.p.labels["sample:"+c.sub]++
				s := c.desc
				if len(s) > 600 {
					s = s[:600] + "..."
				}
				c.p.samples = append(c.p.samples, c.sub+": "+s)
			}
		}
	}
}

// Label counts a class of cases.
func (c *C) Label(l string) { c.p.labels[c.sub+"/"+l]++ }

func (c *C) knownHit(sig string) bool {
	if _, ok := known[c.p.id+"\x00"+sig]; ok {
		c.p.knownHits[sig]++
		return true
	}
	return false
}

// Fail reports a violation; sig names the failing call site or input class. A violation whose
// signature is listed in known_findings.json is counted and the case ends quietly.
func (c *C) Fail(sig, format string, args ...any) {
	if c.knownHit(sig) {
		panic(knownStop{})
	}
	msg := fmt.Sprintf(format, args...)
	*c.last = fmt.Sprintf("[%s/%s] %s (sig %q)\ncase: %s", c.p.id, c.sub, msg, sig, c.desc)
	c.T.Fatalf("%s", sig)
}

// Soft is Fail, except that the case goes on after a listed finding.
func (c *C) Soft(sig, format string, args ...any) {
	if !c.knownHit(sig) {
		c.Fail(sig, format, args...)
	}
}

// Check is Fail unless ok.
func (c *C) Check(ok bool, sig, format string, args ...any) {
	if !ok {
		c.Fail(sig, format, args...)
	}
}

// NoPanic runs f and reports a panic in it as a violation.
func (c *C) NoPanic(label string, f func()) {
	defer func() {
		r := recover()
		if r == nil {
			return
		}
		if _, isKnown := r.(knownStop); isKnown {
			panic(r)
		}
		if tn := fmt.Sprintf("%T", r); strings.HasPrefix(tn, "rapid.") || strings.HasPrefix(tn, "*rapid.") {
			panic(r)
		}
		st := shortStack(string(debug.Stack()))
		c.Fail("panic:"+panicSite(st), "%s: panic: %v\n%s", label, r, st)
	}()
	f()
}

func (p *P) finish() {
	type evidence struct {
		Property   string         `json:"property"`
		Tier       string         `json:"tier"`
		Seed       uint64         `json:"seed"`
		Level      string         `json:"level"`
		Coverage   map[string]any `json:"coverage"`
		Assumption []string       `json:"assumptions,omitempty"`
		WallS      float64        `json:"wall_s"`
		Violations int            `json:"violations"`
	}
	labels := map[string]int{}
	for k, v := range p.labels {
		if !strings.HasPrefix(k, "sample:") {
			labels[k] = v
		}
	}
	var ks []string
	for sig := range p.knownHits {
		ks = append(ks, sig)
	}
	sort.Strings(ks)
	var samples []any
	for _, s := range p.samples {
		samples = append(samples, s)
	}
	if samples == nil {
		samples = []any{}
	}
	ev := evidence{Property: p.id, Tier: envTier, Seed: envSeed, Level: "exploration",
		Coverage: map[string]any{
			"evaluations":         p.evals,
			"distinct_nontrivial": len(p.distinct),
			"rule":                p.rule,
			"samples":             samples,
			"cases_per_sub_check": p.subEvals,
			"classes":             labels,
			"known_finding_hits":  p.knownHits,
		},
		WallS: time.Since(p.start).Seconds(), Violations: len(p.failures)}
	if envOut != "" {
		b, err := json.MarshalIndent(ev, "", " ")
		if err != nil {
			p.t.Fatalf("evidence: %v", err)
		}
		if err := os.WriteFile(envOut, append(b, '\n'), 0o644); err != nil {
			p.t.Fatalf("evidence: %v", err)
		}
		var hb []byte
		for h := range p.distinct {
			hb = binary.LittleEndian.AppendUint64(hb, h)
		}
		_ = os.WriteFile(envOut+".hashes", hb, 0o644)
	}
	for _, sig := range ks {
		fmt.Fprintf(stdout, "\nKNOWN-FINDING: property=%s %s: %s\n", p.id, sig, known[p.id+"\x00"+sig].What)
	}
	for _, f := range p.failures {
		b, _ := os.ReadFile(f)
		if len(b) > 6000 {
			b = append(b[:6000:6000], []byte("\n...")...)
		}
		fmt.Fprintf(stdout, "--- %s\n%s\n", f, b)
		fmt.Fprintf(stdout, "\nVIOLATION property=%s replay=%s\n", p.id, f)
	}
}
