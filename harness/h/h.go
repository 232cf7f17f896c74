// Package h is the small framework shared by all generated checks: a check is a
// generator of plain-data cases plus a function that runs one case against the
// code under test and its oracle. Cases are JSON, so a shrunk failing case is
// itself the replay file.
package h

import (
	"crypto/sha256"
	"encoding/hex"
	"encoding/json"
	"flag"
	"fmt"
	"hash/fnv"
	"io"
	"os"
	"runtime"
	"runtime/debug"
	"sort"
	"strings"
	"sync/atomic"
	"testing"
	"time"

	log "github.com/sirupsen/logrus"
	"pgregory.net/rapid"
)

// Case statistics, filled in while a case runs.
type Stats struct {
	Classes    map[string]int
	NonTrivial bool
	Evals      int
}

func (s *Stats) Class(format string, a ...any) { s.Classes[fmt.Sprintf(format, a...)]++ }
func (s *Stats) Eval(n int)                    { s.Evals += n }
func (s *Stats) NT()                           { s.NonTrivial = true }

type Check struct {
	Prop, Name, Rule string
	Quick, Thorough  int
	gen              func(*rapid.T) any
	run              func(any, *Stats) error
	decode           func([]byte) (any, error)
}

var registry []*Check

// Add registers a check. quick and thorough are the numbers of generated cases over all shards.
func Add[T any](prop, name, rule string, quick, thorough int, gen func(*rapid.T) T, run func(T, *Stats) error) {
	registry = append(registry, &Check{
		Prop: prop, Name: name, Rule: rule, Quick: quick, Thorough: thorough,
		gen: func(t *rapid.T) any { return gen(t) },
		run: func(c any, s *Stats) error { return run(c.(T), s) },
		decode: func(b []byte) (any, error) {
			var c T
			err := json.Unmarshal(b, &c)
			return c, err
		},
	})
}

// FatalExit is what log.Fatal in the code under test becomes.
type FatalExit struct{ Msg string }

// Infra is a failure of the machinery itself (never a verdict).
type Infra struct{ Err error }

func Must(err error) {
	if err != nil {
		panic(Infra{err})
	}
}

type fatalHook struct{}

var lastFatal string
var fatals atomic.Int64

// Fatals counts the log.Fatal calls of the code under test.
func Fatals() int64 { return fatals.Load() }

func (fatalHook) Levels() []log.Level { return []log.Level{log.FatalLevel} }
func (fatalHook) Fire(e *log.Entry) error {
	lastFatal = e.Message
	fatals.Add(1)
	return nil
}

func init() {
	log.SetOutput(io.Discard)
	log.SetLevel(log.FatalLevel)
	log.AddHook(fatalHook{})
	log.StandardLogger().ExitFunc = func(int) { panic(FatalExit{lastFatal}) }
}

// Catch runs f and reports a log.Fatal inside it. Other panics propagate.
func Catch(f func()) (msg string, fatal bool) {
	defer func() {
		if r := recover(); r != nil {
			if fe, ok := r.(FatalExit); ok {
				msg, fatal = fe.Msg, true
				return
			}
			panic(r)
		}
	}()
	f()
	return "", false
}

func (c *Check) runSafe(v any, s *Stats) (err error) {
	defer func() {
		if r := recover(); r != nil {
			switch x := r.(type) {
			case Infra:
				fmt.Fprintf(os.Stderr, "INFRA: %v\n%s\n", x.Err, debug.Stack())
				os.Exit(3)
			case FatalExit:
				err = fmt.Errorf("the oracle stopped (log.Fatal): %s\n%s", x.Msg, trimStack(debug.Stack()))
			default:
				err = fmt.Errorf("panic: %v\n%s", r, trimStack(debug.Stack()))
			}
		}
	}()
	return c.run(v, s)
}

func trimStack(b []byte) string {
	var out []string
	for _, l := range strings.Split(string(b), "\n") {
		if strings.Contains(l, "/repo/") || strings.Contains(l, "/verif/") {
			out = append(out, strings.TrimSpace(l))
		}
	}
	if len(out) > 12 {
		out = out[:12]
	}
	return strings.Join(out, "\n")
}

type Result struct {
	Check    string         `json:"check"`
	Rule     string         `json:"rule"`
	Evals    int            `json:"evals"`
	Cases    int            `json:"cases"`
	Classes  map[string]int `json:"classes"`
	NTHashes []string       `json:"nt_hashes"`
	Samples  []any          `json:"samples"`
	Failed   bool           `json:"failed"`
}

type Repro struct {
	Prop  string          `json:"property"`
	Check string          `json:"check"`
	Case  json.RawMessage `json:"case"`
	Error string          `json:"error"`
}

func env(k, d string) string {
	if v := os.Getenv(k); v != "" {
		return v
	}
	return d
}

func envInt(k string, d int) int {
	n := d
	fmt.Sscanf(os.Getenv(k), "%d", &n)
	return n
}

// RunAll runs every check of one property for one shard, and writes its statistics.
func RunAll(t *testing.T) {
	prop := env("VERIF_PROP", "")
	only := env("VERIF_CHECK", "")
	shard, shards := envInt("VERIF_SHARD", 0), envInt("VERIF_SHARDS", 1)
	seed := envInt("VERIF_SEED", 1)
	scale := envInt("VERIF_SCALE", 100)
	tier := env("VERIF_TIER", "quick")
	var results []*Result
	defer func() {
		if p := os.Getenv("VERIF_STATS"); p != "" {
			b, _ := json.Marshal(results)
			os.WriteFile(p, b, 0644)
		}
	}()
	for _, c := range registry {
		if c.Prop != prop || (only != "" && c.Name != only) {
			continue
		}
		n := c.Quick
		if tier == "thorough" {
			n = c.Thorough
		}
		n = max(1, n*scale/100)
		cnt := n / shards
		if shard < n%shards {
			cnt++
		}
		if cnt == 0 {
			continue
		}
		hs := fnv.New64a()
		fmt.Fprintf(hs, "%d/%d/%s/%s", seed, shard, c.Prop, c.Name)
		rs := hs.Sum64() >> 1
		if rs == 0 {
			rs = 1
		}
		flag.Set("rapid.checks", fmt.Sprint(cnt))
		flag.Set("rapid.seed", fmt.Sprint(rs))
		flag.Set("rapid.nofailfile", "true")
		flag.Set("rapid.shrinktime", env("VERIF_SHRINK", "25s"))
		res := &Result{Check: c.Name, Rule: c.Rule, Classes: map[string]int{}}
		results = append(results, res)
		seen := map[string]bool{}
		failed := false
		ok := t.Run(c.Name, func(t *testing.T) {
			rapid.Check(t, func(rt *rapid.T) {
				v := c.gen(rt)
				s := &Stats{Classes: map[string]int{}}
				stop := c.watch(v)
				pending := c.pending(v)
				err := c.runSafe(v, s)
				pending()
				stop()
				if !failed {
					res.Cases++
					if s.Evals == 0 {
						s.Evals = 1
					}
					res.Evals += s.Evals
					for k := range s.Classes {
						res.Classes[k]++
					}
					if s.NonTrivial {
						b, _ := json.Marshal(v)
						sum := sha256.Sum256(b)
						k := hex.EncodeToString(sum[:8])
						if !seen[k] {
							seen[k] = true
							res.NTHashes = append(res.NTHashes, k)
							if len(res.Samples) < 2 && len(b) < 6000 {
								res.Samples = append(res.Samples, json.RawMessage(b))
							}
						}
					}
				}
				if err != nil {
					failed = true
					if p := os.Getenv("VERIF_REPLAY_OUT"); p != "" {
						b, _ := json.Marshal(v)
						r, _ := json.MarshalIndent(Repro{c.Prop, c.Name, b, err.Error()}, "", " ")
						os.WriteFile(p, r, 0644)
					}
					rt.Fatalf("%s", FirstLine(err))
				}
			})
		})
		if !ok {
			res.Failed = true
			return
		}
	}
	if len(results) == 0 && shard == 0 {
		fmt.Fprintln(os.Stderr, "INFRA: no check for", prop)
		os.Exit(3)
	}
}

// pending leaves the case behind in case the process does not survive it (a data race, a fatal error of the runtime).
func (c *Check) pending(v any) func() {
	p := os.Getenv("VERIF_PENDING")
	if p == "" {
		return func() {}
	}
	b, _ := json.Marshal(v)
	r, _ := json.MarshalIndent(Repro{c.Prop, c.Name, b, "the process did not survive the case"}, "", " ")
	os.WriteFile(p, r, 0644)
	return func() { os.Remove(p) }
}

// Hang is how long a case may take; only a case that is stuck takes that long.
var Hang = 150 * time.Second

// watch ends the process with a violation when a case does not finish.
func (c *Check) watch(v any) func() {
	t := time.AfterFunc(Hang, func() {
		buf := make([]byte, 1<<20)
		buf = buf[:runtime.Stack(buf, true)]
		if p := os.Getenv("VERIF_REPLAY_OUT"); p != "" {
			if _, err := os.Stat(p); err != nil { // not while shrinking
				b, _ := json.Marshal(v)
				r, _ := json.MarshalIndent(Repro{c.Prop, c.Name, b, fmt.Sprintf("the case did not finish in %v\n%s", Hang, trimStack(buf))}, "", " ")
				os.WriteFile(p, r, 0644)
			}
		}
		fmt.Printf("HANG %s/%s\n%s\n", c.Prop, c.Name, buf)
		os.Exit(1)
	})
	return func() { t.Stop() }
}

func FirstLine(err error) string {
	s := err.Error()
	if i := strings.IndexByte(s, '\n'); i >= 0 {
		s = s[:i]
	}
	return s
}

// Replay runs one saved case. It returns an error if the violation is still there.
func Replay(path string) error {
	b, err := os.ReadFile(path)
	Must(err)
	var r Repro
	Must(json.Unmarshal(b, &r))
	for _, c := range registry {
		if c.Prop == r.Prop && c.Name == r.Check {
			v, err := c.decode(r.Case)
			Must(err)
			defer c.watch(v)()
			return c.runSafe(v, &Stats{Classes: map[string]int{}})
		}
	}
	panic(Infra{fmt.Errorf("unknown check %s/%s", r.Prop, r.Check)})
}

// RunNamed runs one registered check on a given JSON case (used for known findings).
func RunNamed(prop, name string, raw []byte) error {
	for _, c := range registry {
		if c.Prop == prop && c.Name == name {
			v, err := c.decode(raw)
			Must(err)
			return c.runSafe(v, &Stats{Classes: map[string]int{}})
		}
	}
	panic(Infra{fmt.Errorf("unknown check %s/%s", prop, name)})
}

func Props() []string {
	m := map[string]bool{}
	for _, c := range registry {
		m[c.Prop] = true
	}
	var out []string
	for k := range m {
		out = append(out, k)
	}
	sort.Strings(out)
	return out
}

// Known decides on a failure that known_findings.txt may list: listed, it is printed as a
// known finding; not listed, it is a violation.
func Known(prop, id string, err error) error {
	b, rerr := os.ReadFile(env("VERIF_KNOWN", "/verif/known_findings.txt"))
	Must(rerr)
	for _, l := range strings.Split(string(b), "\n") {
		if strings.HasPrefix(l, "known: property="+prop+" id="+id+" ") {
			fmt.Printf("KNOWN-FINDING: property=%s %s: %s\n", prop, id, FirstLine(err))
			return nil
		}
	}
	return err
}
