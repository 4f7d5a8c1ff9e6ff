// Package vk is the shared kit of the property checks: it runs a rapid
// property with a seed derived from VERIF_SEED, counts what was generated,
// and leaves behind the evidence and (for a failure) the shrunk case for
// check.py to pick up.
package vk

import (
	"encoding/json"
	"flag"
	"fmt"
	"hash/fnv"
	"os"
	"path/filepath"
	"runtime/metrics"
	"sort"
	"strconv"
	"strings"
	"sync"
	"testing"
	"time"

	"pgregory.net/rapid"
)

// Scratch is the directory check.py made for this run.
func Scratch() string {
	if d := os.Getenv("VK_SCRATCH"); d != "" {
		return d
	}
	d := filepath.Join(os.TempDir(), fmt.Sprintf("vk-%d", os.Getpid()))
	if err := os.MkdirAll(d, 0777); err != nil {
		Harness("scratch: %v", err)
	}
	return d
}

// Harness aborts the run: something outside the code under test went wrong.
func Harness(format string, args ...interface{}) {
	fmt.Fprintf(os.Stderr, "HARNESS-ERROR: "+format+"\n", args...)
	os.Exit(3)
}

// Thorough is true in the thorough tier.
func Thorough() bool { return os.Getenv("VERIF_TIER") == "thorough" }

func envInt(name string, def uint64) uint64 {
	if s := os.Getenv(name); s != "" {
		if x, err := strconv.ParseUint(s, 10, 64); err == nil {
			return x
		}
		if x, err := strconv.ParseInt(s, 10, 64); err == nil {
			return uint64(x)
		}
	}
	return def
}

func splitmix(x uint64) uint64 {
	x += 0x9E3779B97F4A7C15
	x = (x ^ (x >> 30)) * 0xBF58476D1CE4E5B9
	x = (x ^ (x >> 27)) * 0x94D049BB133111EB
	return x ^ (x >> 31)
}

// Seed is the seed of the named test in this run.
func Seed(name string) uint64 {
	h := fnv.New64a()
	h.Write([]byte(name))
	s := splitmix(splitmix(envInt("VERIF_SEED", 1))^h.Sum64()) +
		0x51ED27*envInt("VK_SHARD", 0)
	if s == 0 {
		s = 1
	}
	return s
}

// C is one generated case.
type C struct {
	*rapid.T
	desc   strings.Builder
	hash   uint64
	labels []string
	nt     bool
	st     *stats
}

// Desc records (part of) the generated input. Together the descriptions of a
// case are its identity and how it is written in samples and replay files.
func (c *C) Desc(format string, args ...interface{}) {
	s := fmt.Sprintf(format, args...)
	h := fnv.New64a()
	var b [8]byte
	for i := range b {
		b[i] = byte(c.hash >> (8 * uint(i)))
	}
	h.Write(b[:])
	h.Write([]byte(s))
	c.hash = h.Sum64()
	if len(s) > 1500 {
		s = s[:1500] + "..."
	}
	if c.desc.Len() > 0 {
		c.desc.WriteString("; ")
	}
	c.desc.WriteString(s)
	writeCurrent(c.st.Test, c.desc.String())
}

// Errorf fails the case at once.
func (c *C) Errorf(format string, args ...interface{}) { c.Fatalf(format, args...) }

// NonTrivial marks the case as non-trivial if cond holds.
func (c *C) NonTrivial(cond bool) {
	if cond {
		c.nt = true
	}
}

// Label counts the case under a class.
func (c *C) Label(format string, args ...interface{}) {
	c.labels = append(c.labels, fmt.Sprintf(format, args...))
}

// LabelIf counts the case under a class if cond holds.
func (c *C) LabelIf(cond bool, s string) {
	if cond {
		c.labels = append(c.labels, s)
	}
}

// Near fails unless |got-want| <= tol.
func (c *C) Near(what string, got, want, tol float64) {
	d := got - want
	if !(d <= tol && -d <= tol) { // also catches NaN
		c.Fatalf("%s: got %.17g, want %.17g +- %.3g", what, got, want, tol)
	}
}

type stats struct {
	Test        string         `json:"test"`
	Seed        uint64         `json:"seed"`
	Checks      int            `json:"checks"`
	Evaluations int            `json:"evaluations"`
	NonTrivial  int            `json:"nontrivial"`
	Classes     map[string]int `json:"classes"`
	Samples     []string       `json:"samples"`
	Hashes      []string       `json:"hashes"`
	Wall        float64        `json:"wall_s"`
	Slowest     float64        `json:"slowest_case_s"`
	hashes      map[uint64]bool
}

type violation struct {
	Test     string `json:"test"`
	Seed     uint64 `json:"seed"`
	Case     string `json:"case"`
	Message  string `json:"message"`
	Failfile string `json:"failfile"`
}

var (
	curMu   sync.Mutex
	curFile *os.File
)

// writeCurrent keeps the case being run on disk, for deaths of the process.
func writeCurrent(test, desc string) {
	curMu.Lock()
	defer curMu.Unlock()
	if curFile == nil {
		var err error
		curFile, err = os.Create(filepath.Join(Scratch(), "current"))
		if err != nil {
			Harness("current: %v", err)
		}
	}
	b := []byte(test + "\n" + desc + "\n")
	curFile.WriteAt(b, 0)
	curFile.Truncate(int64(len(b)))
}

// caseLimit is how long a single case may take. The slowest ones that are
// generated need a few seconds, on a busy machine too.
const caseLimit = 240 * time.Second

// memLimit is the memory one process may use. The largest cases that are
// generated need well under a tenth of it.
const memLimit = 14 << 30

var (
	runMu     sync.Mutex
	runCase   *C
	caseStart time.Time
	watching  bool
)

func setCase(c *C) {
	runMu.Lock()
	defer runMu.Unlock()
	if c == nil && runCase != nil {
		if d := time.Since(caseStart).Seconds(); d > runCase.st.Slowest {
			runCase.st.Slowest = d
		}
	}
	runCase, caseStart = c, time.Now()
	if c != nil {
		writeCurrent(c.st.Test, "")
	}
	if c != nil && !watching {
		watching = true
		go watch()
	}
}

// watch ends the run with a violation when a case does not finish, or takes
// memory without end.
func watch() {
	sample := []metrics.Sample{{Name: "/memory/classes/heap/objects:bytes"}}
	for {
		time.Sleep(200 * time.Millisecond)
		runMu.Lock()
		c, late := runCase, time.Since(caseStart) > caseLimit
		runMu.Unlock()
		if c == nil {
			continue
		}
		if late {
			Violate("the case does not finish within %v", caseLimit)
		}
		metrics.Read(sample)
		if sample[0].Value.Kind() == metrics.KindUint64 &&
			sample[0].Value.Uint64() > memLimit {
			Violate("the case uses more than %d GB of memory", memLimit>>30)
		}
	}
}

// Violate ends the run at once with a violation by the case being run: for
// failures that shrinking would take too long to repeat.
func Violate(format string, args ...interface{}) {
	v := violation{Message: fmt.Sprintf(format, args...)}
	if b, err := os.ReadFile(filepath.Join(Scratch(), "current")); err == nil {
		if i := strings.IndexByte(string(b), '\n'); i >= 0 {
			v.Test, v.Case = string(b[:i]), strings.TrimSpace(string(b[i:]))
		}
	}
	runMu.Lock()
	if runCase != nil {
		v.Test, v.Seed = runCase.st.Test, runCase.st.Seed
	}
	b, _ := json.Marshal(&v)
	appendLine("violations.jsonl", b)
	fmt.Fprintf(os.Stderr, "VIOLATED: %s: %s\n", v.Test, v.Message)
	os.Exit(1)
}

// Run checks prop over nQuick (or nThorough) generated cases.
func Run(t *testing.T, nQuick, nThorough int, prop func(c *C)) {
	n := nQuick
	if Thorough() {
		n = nThorough
	}
	if os.Getenv("VK_SCALE") != "" {
		if f, err := strconv.ParseFloat(os.Getenv("VK_SCALE"), 64); err == nil {
			n = int(float64(n)*f) + 1
		}
	}
	seed := Seed(t.Name())
	st := &stats{
		Test: t.Name(), Seed: seed, Checks: n,
		Classes: map[string]int{}, hashes: map[uint64]bool{},
	}
	flag.Set("rapid.checks", strconv.Itoa(n))
	flag.Set("rapid.seed", strconv.FormatUint(seed, 10))
	shrink := os.Getenv("VK_SHRINK")
	if shrink == "" {
		shrink = "15s"
	}
	flag.Set("rapid.shrinktime", shrink)

	var lastCase, lastMsg string
	failed := false
	start := time.Now()
	defer func() {
		st.Wall = time.Since(start).Seconds()
		if t.Failed() && lastCase == "" && lastMsg == "" {
			// e.g. "only generated N valid tests": our generator's fault.
			Harness("%s: rapid failed without a failing case", t.Name())
		}
		if t.Failed() {
			v := violation{
				Test: t.Name(), Seed: seed, Case: lastCase, Message: lastMsg,
			}
			ms, _ := filepath.Glob("testdata/rapid/*/*.fail")
			sort.Strings(ms)
			for _, m := range ms {
				if strings.Contains(m, strings.Replace(t.Name(), "/", "_", -1)) {
					b, _ := os.ReadFile(m)
					v.Failfile = string(b)
				}
			}
			b, _ := json.MarshalIndent(&v, "", " ")
			appendLine("violations.jsonl", compact(b))
		}
		for h := range st.hashes {
			st.Hashes = append(st.Hashes, strconv.FormatUint(h, 36))
		}
		b, err := json.Marshal(st)
		if err != nil {
			Harness("stats: %v", err)
		}
		appendLine("stats.jsonl", b)
	}()

	rapid.Check(t, func(rt *rapid.T) {
		c := &C{T: rt, st: st}
		setCase(c)
		defer setCase(nil)
		ok := false
		defer func() {
			if ok {
				if failed {
					return
				}
				st.Evaluations++
				for _, l := range c.labels {
					st.Classes[l]++
				}
				if c.nt {
					st.NonTrivial++
					if !st.hashes[c.hash] {
						st.hashes[c.hash] = true
						if len(st.Samples) < 3 || (len(st.Samples) < 8 &&
							st.NonTrivial%(n/8+1) == 0) {
							st.Samples = append(st.Samples, c.desc.String())
						}
					}
				}
				return
			}
			r := recover()
			if r != nil {
				s := fmt.Sprintf("%v", r)
				tn := fmt.Sprintf("%T", r)
				if tn == "rapid.invalidData" || tn == "rapid.stopTest" {
					if tn == "rapid.stopTest" {
						failed = true
						lastCase, lastMsg = c.desc.String(), s
					}
				} else {
					failed = true
					lastCase, lastMsg = c.desc.String(), "panic: "+s
				}
				panic(r)
			}
			// runtime.Goexit: rapid FailNow
			failed = true
			lastCase, lastMsg = c.desc.String(), "failed"
		}()
		prop(c)
		ok = true
	})
}

func compact(b []byte) []byte {
	var x interface{}
	json.Unmarshal(b, &x)
	c, _ := json.Marshal(x)
	return c
}

func appendLine(name string, b []byte) {
	f, err := os.OpenFile(filepath.Join(Scratch(), name),
		os.O_APPEND|os.O_CREATE|os.O_WRONLY, 0666)
	if err != nil {
		Harness("%s: %v", name, err)
	}
	defer f.Close()
	if _, err := f.Write(append(b, '\n')); err != nil {
		Harness("%s: %v", name, err)
	}
}

// Known reports a finding listed in known-findings.txt. It does not fail.
func Known(id, what string) {
	appendLine("known.txt", []byte(fmt.Sprintf("KNOWN-FINDING: property=%s %s", id, what)))
}

// Size draws a size from lo to hi, and now and then one up to big, so that
// nothing is only ever tried on small tables.
func Size(c *C, name string, lo, hi, big int) int {
	if rapid.IntRange(0, 11).Draw(c.T, name+" large") == 11 {
		return Round(c, name, hi, big)
	}
	return rapid.IntRange(lo, hi).Draw(c.T, name)
}

// Round draws a size in [lo, hi]. Round numbers (multiples of a power of two)
// and their neighbours are as likely as all others: sizes of buffers, blocks
// and grids are, and what goes wrong goes wrong next to them.
func Round(c *C, name string, lo, hi int) int {
	n := rapid.IntRange(lo, hi).Draw(c.T, name)
	if rapid.Bool().Draw(c.T, name+" round") {
		bits := uint(0)
		for 2<<bits <= hi {
			bits++
		}
		m := 1 << uint(rapid.IntRange(int(bits)/2, int(bits)).Draw(c.T, name+" bits"))
		r := (n+m/2)/m*m + rapid.SampledFrom([]int{0, 0, 0, 1, -1}).Draw(c.T, name+" off")
		if r >= lo && r <= hi {
			n = r
		}
	}
	return n
}

// Panics runs f and returns the recovered panic value, if any.
func Panics(f func()) (r interface{}) {
	defer func() { r = recover() }()
	f()
	return nil
}
