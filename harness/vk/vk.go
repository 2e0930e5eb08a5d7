//go:build go1.22

// Package vk is the part the monitors share: it hands out deterministic cases,
// journals the case being executed (so that a crash or a hang of the code under
// test can be attributed to it), and collects verdicts and coverage.
package vk

import (
	"bytes"
	"encoding/json"
	"fmt"
	"hash/fnv"
	"io"
	"math"
	"math/rand"
	"os"
	"path/filepath"
	"runtime"
	"runtime/debug"
	"sort"
	"strconv"
	"strings"
	"sync"
	"syscall"
	"testing"
	"time"
	"unicode/utf8"
	"unsafe"
)

// Workload drives the code under test for one property.
type Workload struct {
	Name string
	Fn   func(*Ctx)
}

var registry = map[string][]Workload{}

// Register adds a workload for a property.
func Register(prop, name string, fn func(*Ctx)) {
	registry[prop] = append(registry[prop], Workload{name, fn})
}

type violation struct {
	Case   string      `json:"case"`
	What   string      `json:"what"`
	Desc   interface{} `json:"desc,omitempty"`
	Detail string      `json:"detail,omitempty"`
}

type finding struct {
	Key  string `json:"key"`
	What string `json:"what"`
}

type results struct {
	Property    string                    `json:"property"`
	Evaluations int64                     `json:"evaluations"`
	Distinct    map[string][]string       `json:"distinct"` // set name -> hashes
	Counters    map[string]int64          `json:"counters"`
	Maxima      map[string]int64          `json:"maxima"`
	Hist        map[string]map[string]int `json:"hist"`
	Samples     []interface{}             `json:"samples"`
	Violations  []violation               `json:"violations"`
	Findings    []finding                 `json:"findings"`
	Workloads   []string                  `json:"workloads"`
	Finished    bool                      `json:"finished"`
}

// Ctx is shared by the cases of a run.
type Ctx struct {
	T     *testing.T
	Prop  string
	Seed  int64
	Tier  string
	Race  bool
	Mute  bool   // only the race detector decides
	Dir   string // scratch
	Repo  string
	Shard int
	Of    int
	only  string

	workload string
	seq      int64

	mu       sync.Mutex
	res      results
	distinct map[string]map[uint64]struct{}
	journal  *os.File
}

// Case is a single deterministic execution.
type Case struct {
	*Ctx
	ID  string
	R   *rand.Rand
	I   int
	dsc interface{}
	bad bool
}

// Main runs the workloads of the property named by VERIF_PROP.
func Main(t *testing.T) {
	prop := os.Getenv("VERIF_PROP")
	out := os.Getenv("VERIF_OUT")
	if prop == "" || out == "" {
		t.Skip("not started by run.py")
	}
	seed, _ := strconv.ParseInt(os.Getenv("VERIF_SEED"), 10, 64)
	c := &Ctx{
		T: t, Prop: prop, Seed: seed, Tier: os.Getenv("VERIF_TIER"),
		Race:     os.Getenv("VERIF_RACE") == "1",
		Dir:      os.Getenv("VERIF_SCRATCH"),
		Repo:     os.Getenv("VERIF_REPO"),
		only:     os.Getenv("VERIF_CASE"),
		Of:       1,
		distinct: map[string]map[uint64]struct{}{},
	}
	if s := os.Getenv("VERIF_SHARD"); s != "" {
		fmt.Sscanf(s, "%d/%d", &c.Shard, &c.Of)
	}
	c.res.Property = prop
	c.res.Counters = map[string]int64{}
	c.res.Maxima = map[string]int64{}
	c.res.Hist = map[string]map[string]int{}
	var err error
	c.journal, err = os.OpenFile(out+".journal", os.O_CREATE|os.O_TRUNC|os.O_WRONLY, 0644)
	if err != nil {
		t.Fatal(err)
	}
	only := os.Getenv("VERIF_WORKLOADS")
	for _, w := range registry[prop] {
		if only != "" && !contains(strings.Split(only, ","), w.Name) {
			continue
		}
		c.workload = w.Name
		c.res.Workloads = append(c.res.Workloads, w.Name)
		w.Fn(c)
	}
	c.res.Finished = true
	c.flush(out)
}

func contains(a []string, s string) bool {
	for _, x := range a {
		if x == s {
			return true
		}
	}
	return false
}

func (c *Ctx) flush(out string) {
	c.res.Distinct = map[string][]string{}
	for name, set := range c.distinct {
		l := make([]string, 0, len(set))
		for h := range set {
			l = append(l, strconv.FormatUint(h, 36))
		}
		sort.Strings(l)
		c.res.Distinct[name] = l
	}
	b, err := json.Marshal(&c.res)
	if err != nil {
		panic(err)
	}
	if err = os.WriteFile(out, b, 0644); err != nil {
		panic(err)
	}
}

// Quick reports whether the quick tier is running.
func (c *Ctx) Quick() bool { return c.Tier != "thorough" }

// N chooses the number of cases of a workload.
func (c *Ctx) N(quick, thorough int) int {
	if c.Quick() {
		if k, _ := strconv.Atoi(os.Getenv("VERIF_SCALE")); k > 1 {
			quick *= k
		}
		if quick > thorough {
			return thorough
		}
		return quick
	}
	return thorough
}

// Bound is a bound, rather than a number of cases.
func (c *Ctx) Bound(quick, thorough int) int {
	if c.Quick() {
		return quick
	}
	return thorough
}

// Cases runs cases 0..n-1, or those of them that belong to this shard.
func (c *Ctx) Cases(kind string, n int, fn func(*Case)) {
	for i := 0; i < n; i++ {
		id := fmt.Sprintf("%s/%s/%d", c.workload, kind, i)
		if c.only != "" {
			if c.only != id {
				continue
			}
		} else if i%c.Of != c.Shard {
			continue
		}
		c.runCase(id, i, fn)
		if c.tooMany() {
			return
		}
	}
}

func (c *Ctx) tooMany() bool {
	c.mu.Lock()
	defer c.mu.Unlock()
	return len(c.res.Violations) >= 5
}

// One runs a single case in the first shard.
func (c *Ctx) One(kind string, fn func(*Case)) { c.Cases(kind, 1, fn) }

func (c *Ctx) runCase(id string, i int, fn func(*Case)) {
	h := fnv.New64a()
	fmt.Fprintf(h, "%d|%s", c.Seed, id)
	cs := &Case{Ctx: c, ID: id, I: i, R: rand.New(rand.NewSource(int64(h.Sum64())))}
	c.note(id, "")
	c.mu.Lock()
	c.res.Evaluations++
	c.mu.Unlock()
	defer func() {
		if r := recover(); r != nil {
			stack := string(debug.Stack())
			if !FromCodeUnderTest(stack) {
				// the monitor is broken: make the run fail, but not as a verdict
				panic(fmt.Sprintf("monitor panic in case %s: %v\n%s", id, r, stack))
			}
			cs.Violatef("panic: %v", r)
			cs.detail(stack)
		}
	}()
	fn(cs)
}

// FromCodeUnderTest tells panics of the code under test from panics of a monitor:
// the innermost frame within the repository decides.
func FromCodeUnderTest(stack string) bool {
	if i := strings.LastIndex(stack, "\npanic("); i >= 0 {
		stack = stack[i:]
	}
	for _, l := range strings.Split(stack, "\n") {
		if !strings.Contains(l, "github.com/sjansen/pgutil/") {
			continue
		}
		return !strings.Contains(l, "/internal/zverif/")
	}
	return false
}

func (c *Ctx) note(id, desc string) {
	c.mu.Lock()
	defer c.mu.Unlock()
	c.seq++
	b, _ := json.Marshal([]interface{}{c.seq, id, desc})
	b = append(b, '\n')
	c.journal.Truncate(0)
	c.journal.WriteAt(b, 0)
}

// Describe records what the case consists of, before it is executed.
func (cs *Case) Describe(v interface{}) {
	cs.dsc = v
	b, _ := json.Marshal(v)
	cs.note(cs.ID, string(b))
}

// Violatef records a violation of the property.
func (cs *Case) Violatef(format string, args ...interface{}) {
	cs.mu.Lock()
	defer cs.mu.Unlock()
	if cs.Mute {
		return
	}
	cs.bad = true
	v := violation{Case: cs.ID, What: fmt.Sprintf(format, args...), Desc: cs.dsc}
	cs.res.Violations = append(cs.res.Violations, v)
}

func (cs *Case) detail(s string) {
	cs.mu.Lock()
	defer cs.mu.Unlock()
	if n := len(cs.res.Violations); n > 0 {
		cs.res.Violations[n-1].Detail = s
	}
}

// Detail attaches an event log or the like to the case's last violation.
func (cs *Case) Detail(s string) {
	if cs.bad {
		cs.detail(s)
	}
}

// Bad reports whether the case violated the property.
func (cs *Case) Bad() bool { return cs.bad }

// Findingf reports something identified by key that is a violation, unless it is
// listed in the known-findings file.
func (cs *Case) Findingf(key, format string, args ...interface{}) {
	cs.mu.Lock()
	defer cs.mu.Unlock()
	cs.res.Findings = append(cs.res.Findings, finding{key, fmt.Sprintf(format, args...)})
}

// Distinct counts distinct things, e.g. interleavings.
func (c *Ctx) Distinct(set, key string) {
	h := fnv.New64a()
	io.WriteString(h, key)
	c.mu.Lock()
	defer c.mu.Unlock()
	m := c.distinct[set]
	if m == nil {
		m = map[uint64]struct{}{}
		c.distinct[set] = m
	}
	m[h.Sum64()] = struct{}{}
}

// Nontrivial counts the case, identified by key, as one that was able to refute the property.
func (c *Ctx) Nontrivial(key string) { c.Distinct("nontrivial", key) }

// Count adds to a counter.
func (c *Ctx) Count(name string, n int) {
	c.mu.Lock()
	defer c.mu.Unlock()
	c.res.Counters[name] += int64(n)
}

// Max keeps the largest value seen.
func (c *Ctx) Max(name string, n int) {
	c.mu.Lock()
	defer c.mu.Unlock()
	if int64(n) > c.res.Maxima[name] {
		c.res.Maxima[name] = int64(n)
	}
}

// Hist adds to a histogram.
func (c *Ctx) Hist(name, key string) {
	c.mu.Lock()
	defer c.mu.Unlock()
	if c.res.Hist[name] == nil {
		c.res.Hist[name] = map[string]int{}
	}
	c.res.Hist[name][key]++
}

// Sample keeps the first few cases.
func (c *Ctx) Sample(v interface{}) {
	c.mu.Lock()
	defer c.mu.Unlock()
	if len(c.res.Samples) < 3 {
		c.res.Samples = append(c.res.Samples, v)
	}
}

// Scratch returns a fresh directory.
func (cs *Case) Scratch() string {
	dir, err := os.MkdirTemp(cs.Dir, "case")
	if err != nil {
		panic(err)
	}
	return dir
}

// WriteFile writes a scratch file.
func (cs *Case) WriteFile(dir, name, data string) string {
	path := filepath.Join(dir, name)
	if err := os.WriteFile(path, []byte(data), 0644); err != nil {
		panic(err)
	}
	return path
}

// JSON renders v compactly.
func JSON(v interface{}) string {
	var b bytes.Buffer
	e := json.NewEncoder(&b)
	e.SetEscapeHTML(false)
	if err := e.Encode(v); err != nil {
		return fmt.Sprintf("%+v", v)
	}
	return strings.TrimSuffix(b.String(), "\n")
}

// Recover runs fn and returns what it panicked with, if it did.
func Recover(fn func()) (r interface{}, stack string) {
	defer func() {
		if r = recover(); r != nil {
			stack = string(debug.Stack())
		}
	}()
	fn()
	return nil, ""
}

// SettledGoroutines waits until the number of goroutines does not exceed want,
// or long enough that it never will.
func SettledGoroutines(want int) int {
	n := runtime.NumGoroutine()
	for i := 0; i < 400 && n > want; i++ {
		time.Sleep(5 * time.Millisecond)
		n = runtime.NumGoroutine()
	}
	return n
}

// Size is at most max; every order of magnitude is as likely as the others, and
// often it's close to a power of two, where counters overflow and buffers grow.
func Size(r *rand.Rand, max int) int {
	if r.Intn(4) == 0 {
		if n := Boundary(r, max); n <= max {
			return n
		}
	}
	n := int(math.Exp(r.Float64()*math.Log(float64(max)+1))) - 1
	if n > max {
		n = max
	}
	return n
}

// Boundary is a power of two up to max, or differs from one by one.
func Boundary(r *rand.Rand, max int) int {
	bits := 0
	for 2<<uint(bits) <= max {
		bits++
	}
	return 1<<uint(r.Intn(bits+1)) + []int{-1, 0, 0, 1}[r.Intn(4)]
}

// Several is less than few, but occasionally as much as many.
func Several(r *rand.Rand, few, many int) int {
	if r.Intn(40) == 0 {
		return few + Size(r, many-few)
	}
	return r.Intn(few)
}

// Stretch occasionally makes a string longer, up to about max bytes.
func Stretch(r *rand.Rand, s string, max int) string {
	if s == "" || r.Intn(24) > 0 {
		return s
	}
	n := Size(r, max)
	var b strings.Builder
	b.WriteString(s)
	for b.Len() < n {
		if r.Intn(2) == 0 {
			b.WriteString(s)
		} else {
			b.WriteByte(byte('a' + r.Intn(26)))
		}
	}
	return b.String()
}

// Odd is a name that something might mistake for something else: for a comment,
// an option, a number, a pattern, a path, a keyword, or for a name that only
// differs in case, at the end of a long one, or in how it's encoded.
func Odd(r *rand.Rand) string {
	n := fmt.Sprint(r.Intn(4))
	switch r.Intn(12) {
	case 0: // punctuation, at the beginning
		return string(rune('!'+r.Intn(94))) + "n" + n
	case 1: // at the end
		return "n" + n + string(rune(' '+r.Intn(95)))
	case 2: // in between
		return "n" + string(rune(' '+r.Intn(95))) + n
	case 3: // they begin alike
		return strings.Repeat("p", Boundary(r, 300)) + n
	case 4: // they end alike
		return n + strings.Repeat("s", Boundary(r, 300))
	case 5:
		return []string{"name", "Name", "NAME", "nAME"}[r.Intn(4)] + []string{"", n}[r.Intn(2)]
	case 6:
		return []string{"\u00e9", "e\u0301", "\u00c9", "\u212b", "\u00c5", "A\u030a", "\ufb01", "fi", "ß", "ss", "ı", "i", "K", "\u212a"}[r.Intn(14)]
	case 7:
		return []string{"0", "00", "-0", "+0", "0x0", "1", "1.0", "1e0", "01", "-1", "+1", "1_0", "٣", "NaN", "Inf"}[r.Intn(15)]
	case 8:
		return []string{"true", "false", "null", "undefined", "nil", "none", "all", "default", "any", "*", "**", "?", "[a]", "{}", "[]", "()", "n/a"}[r.Intn(17)]
	case 9:
		return []string{".", "..", "...", "./n", "../n", "..n", "~", "~n", "$HOME", "${n}", "%n", "%%", "%s", "a=b", "--", "-n", "--n", "//", "/* n */", "# n", "; n", "a,b", "a;b", "a|b", "a&b", "a:b", "@n"}[r.Intn(27)]
	case 10:
		return strings.Repeat([]string{" ", "\t", "\n", ".", "-", "_", "\u00a0", "\u200b", "\x00"}[r.Intn(9)], 1+r.Intn(3)) + []string{"", "n"}[r.Intn(2)]
	}
	return Stretch(r, "n"+n, 300)
}

// Like is a name that isn't one of the names, but may look like one of them.
func Like(r *rand.Rand, names []string) string {
	have := map[string]bool{}
	for _, s := range names {
		have[s] = true
	}
	for i := 0; i < 20 && len(names) > 0; i++ {
		s := names[r.Intn(len(names))]
		switch r.Intn(10) {
		case 0:
			s = strings.ToUpper(s)
		case 1:
			s = strings.Title(s)
		case 2:
			s += []string{" ", "\t", "\n", ".", "/", "*", "0", "\x00", "'", "#"}[r.Intn(10)]
		case 3:
			s = []string{" ", "-", "/", "#", "!", "@", "+", "0", "./", "\ufeff"}[r.Intn(10)] + s
		case 4: // a prefix
			if len(s) > 0 {
				s = strings.ToValidUTF8(s[:r.Intn(len(s))], "")
			}
		case 5: // a suffix
			if len(s) > 0 {
				s = strings.ToValidUTF8(s[1+r.Intn(len(s)):], "")
			}
		case 6:
			s += s
		case 7:
			s += strings.Repeat("x", Boundary(r, 300))
		case 8:
			s = Odd(r)
		case 9:
			s = fmt.Sprintf("%q", s)
		}
		if !have[s] && utf8.ValidString(s) {
			return s
		}
	}
	s := "missing"
	for have[s] {
		s += "!"
	}
	return s
}

// Int is between min and max (inclusive), often of an unusual magnitude: close to
// a power of two or ten, or to one of the bounds.
func Int(r *rand.Rand, min, max int64) int64 {
	for {
		var n int64
		switch r.Intn(6) {
		case 0:
			n = int64(uint64(1)<<uint(r.Intn(64))) + int64(r.Intn(5)-2)
		case 1:
			n = 1
			for i := r.Intn(19); i > 0; i-- {
				n *= 10
			}
			n += int64(r.Intn(5) - 2)
		case 2:
			n = int64(r.Uint64() >> uint(r.Intn(64)))
		case 3:
			n = int64(r.Intn(100))
		case 4:
			n = min
			if max-min > 2 || max-min < 0 {
				n += int64(r.Intn(3))
			}
		case 5:
			n = max
			if max-min > 2 || max-min < 0 {
				n -= int64(r.Intn(3))
			}
		}
		if r.Intn(2) == 0 {
			n = -n
		}
		if n >= min && n <= max {
			return n
		}
	}
}

// Terminal opens a pseudo terminal.
func Terminal() (master, slave *os.File, err error) {
	master, err = os.OpenFile("/dev/ptmx", os.O_RDWR|syscall.O_NOCTTY, 0)
	if err != nil {
		return nil, nil, err
	}
	defer func() {
		if err != nil {
			master.Close()
		}
	}()
	var n, unlock uint32
	for _, x := range []struct {
		request uintptr
		arg     *uint32
	}{{syscall.TIOCGPTN, &n}, {syscall.TIOCSPTLCK, &unlock}} {
		if _, _, e := syscall.Syscall(syscall.SYS_IOCTL, master.Fd(), x.request, uintptr(unsafe.Pointer(x.arg))); e != 0 {
			return nil, nil, e
		}
	}
	slave, err = os.OpenFile(fmt.Sprintf("/dev/pts/%d", n), os.O_RDWR|syscall.O_NOCTTY, 0)
	return master, slave, err
}
