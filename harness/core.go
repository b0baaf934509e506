// Package main is the monitoring harness: it drives the real code of
// github.com/rossmerr/graphblas (built from /repo's working tree) under
// PRNG-determined workloads while monitors compare what the public API shows
// with a mathematical reference model.
package main

import (
	"context"
	"encoding/binary"
	"encoding/json"
	"fmt"
	"hash/fnv"
	"io"
	"log"
	"math/rand/v2"
	"os"
	"regexp"
	"runtime"
	"runtime/debug"
	"sort"
	"strconv"
	"strings"
	"sync"
	"sync/atomic"
	"syscall"
	"time"

	"github.com/rossmerr/graphblas/constraints"
)

// Num is every numeric element type.
type Num = constraints.Number

// Elem is every element type, logical and character ones included.
type Elem = constraints.Type

// Failure is one observed violation.
type Failure struct {
	Case int    `json:"case"`
	Key  string `json:"key"`
	Msg  string `json:"msg"`
	Desc string `json:"desc"`
}

// Case is one workload instance and its monitors' verdict.
type Case struct {
	Prop    string
	Seed    uint64
	Idx     int
	Tier    string
	R       *rand.Rand
	events  int64
	sig     uint64
	triv    bool
	desc    strings.Builder
	fails   []Failure
	counts  map[string]int64
	incon   []string
	big     bool // sizes beyond any small-size special case are drawn now and then
	area    int  // product of the big sizes drawn
	zero    bool // sizes of zero are drawn now and then
	thin    int  // if not zero, one size is long (up to this), the others very small
	long    int  // the long one, once it has been drawn
	narrow  int  // the largest of the others, so far
	huge    int  // so many sizes yet to draw are above 255
	slow    bool // the case is much larger than most
	rest    []func() string
	cancels []context.CancelFunc // of live contexts: called when the case has ended
}

type abortCase struct{}

// Fail records a violation and ends the case.
func (c *Case) Fail(key, format string, a ...any) {
	c.Report(key, format, a...)
	panic(abortCase{})
}

// Report records a violation and continues.
func (c *Case) Report(key, format string, a ...any) {
	if k, ok := strings.CutPrefix(key, "C31/"); ok && c.Prop != "C31" && c.Prop != "C32" {
		key = c.Prop + "/vast-" + k
	}
	c.fails = append(c.fails, Failure{Case: c.Idx, Key: key, Msg: fmt.Sprintf(format, a...), Desc: c.desc.String()})
}

// Ev counts monitor observations (events or comparisons).
func (c *Case) Ev(n int) { c.events += int64(n) }

// Count adds to a named counter shown in the evidence.
func (c *Case) Count(name string, n int) { c.counts[name] += int64(n) }

// Note describes the case.
func (c *Case) Note(format string, a ...any) {
	if c.desc.Len() < 6000 {
		fmt.Fprintf(&c.desc, format, a...)
		c.desc.WriteString("; ")
	}
}

// Sig mixes values into the case's signature (for counting distinct cases).
func (c *Case) Sig(a ...any) {
	h := fnv.New64a()
	var b [8]byte
	binary.LittleEndian.PutUint64(b[:], c.sig)
	h.Write(b[:])
	fmt.Fprint(h, a...)
	c.sig = h.Sum64()
}

// Trivial marks the case as not counting as non-trivial.
func (c *Case) Trivial() { c.triv = true }

// Inconclusive notes that a monitor could not decide.
func (c *Case) Inconclusive(why string) { c.incon = append(c.incon, why) }

func (c *Case) p(x float64) bool { return c.R.Float64() < x }
func (c *Case) n(k int) int {
	if k <= 0 {
		return 0
	}
	return c.R.IntN(k)
}

func pick[X any](c *Case, xs ...X) X { return xs[c.n(len(xs))] }

// Property is one check.
type Property struct {
	quick, thorough int
	fn              func(*Case)
	rule            string
}

var props = map[string]Property{}

func register(id string, quick, thorough int, rule string, fn func(*Case)) {
	props[id] = Property{quick, thorough, fn, rule}
}

// perType runs a different element type for each consecutive case.
func perType(fs ...func(*Case)) func(*Case) {
	return func(c *Case) { fs[c.Idx%len(fs)](c) }
}

// Result is what a shard reports.
type Result struct {
	Prop     string           `json:"prop"`
	Shard    int              `json:"shard"`
	Cases    int              `json:"cases"`
	Planned  int              `json:"planned"`
	Events   int64            `json:"events"`
	Slowest  int64            `json:"slowest_ms"`
	SlowCase int              `json:"slowest_case"`
	Nontriv  int              `json:"nontriv"`
	Rule     string           `json:"rule"`
	Samples  []string         `json:"samples"`
	Failures []Failure        `json:"failures"`
	Counts   map[string]int64 `json:"counts"`
	Incon    []string         `json:"inconclusive"`
	Complete bool             `json:"complete"`
}

func mix(seed uint64, prop string, idx int) (uint64, uint64) {
	h := fnv.New64a()
	fmt.Fprintf(h, "%d/%s/%d", seed, prop, idx)
	a := h.Sum64()
	fmt.Fprint(h, "x")
	return a, h.Sum64()
}

var curCase atomic.Int64
var curStart atomic.Int64 // process CPU ns when the current case began
var curPtr atomic.Pointer[Case]

func cpuNow() int64 {
	var ru syscall.Rusage
	syscall.Getrusage(syscall.RUSAGE_SELF, &ru)
	return ru.Utime.Nano() + ru.Stime.Nano()
}

// zeroProps are the properties whose workloads include matrices without rows
// or columns.
const zeroProps = "C03 C07 C08 C09 C10 C11 C12 C13 C14 C16 C17 C20 C22 C29"

// thinProps are the properties with cases in which one size is very long, and
// how long.
var thinProps = map[string]int{"C01": 2600, "C02": 2600, "C03": 2600, "C04": 2600, "C05": 1100, "C06": 1100, "C07": 2600,
	"C08": 1100, "C09": 2600, "C10": 2600, "C11": 2600, "C12": 2600, "C13": 1100, "C14": 140, "C15": 600, "C16": 1100,
	"C17": 2600, "C24": 140, "C25": 2600, "C28": 1100}

// hugeProps are the properties with a case in so many that goes beyond 65536
// cells, on one side or (squares) on both.
var hugeProps = map[string]uint64{"C01": 2500, "C02": 500, "C03": 5000, "C04": 2500, "C05": 2500, "C06": 2500, "C07": 5000,
	"C09": 10000, "C10": 2500, "C11": 10000, "C12": 5000, "C14": 10000, "C22": 2500, "C25": 2500}

var hugeAlways = os.Getenv("VH_HUGE") != "" // development

func runCase(prop string, p Property, seed uint64, idx int, tier string) (c *Case) {
	a, b := mix(seed, prop, idx)
	c = &Case{Prop: prop, Seed: seed, Idx: idx, Tier: tier, R: rand.New(rand.NewPCG(a, b)), counts: map[string]int64{}, big: a>>7%40 == 7, area: 1, zero: a>>9%50 == 3 && strings.Contains(zeroProps, prop)}
	if l := thinProps[prop]; l > 0 && a>>17%60 == 5 {
		c.thin, c.big, c.zero = l, false, false
	}
	if h := hugeProps[prop]; h > 0 && (a>>27%h == 11 || hugeAlways) {
		c.thin, c.big, c.zero, c.slow = 0, false, false, true
		if a>>48&1 == 0 && prop != "C22" {
			c.thin = 70000
		} else {
			c.huge = 2
		}
		c.Count("beyond 65536 cells", 1)
	}
	curPtr.Store(c)
	defer func() {
		for _, f := range c.cancels {
			f()
		}
	}()
	defer func() {
		if e := recover(); e != nil {
			if _, ok := e.(abortCase); ok {
				return
			}
			c.Report("panic", "unexpected panic: %v\n%s", e, trimStack(string(debug.Stack())))
		}
	}()
	p.fn(c)
	return c
}

func trimStack(s string) string {
	ls := strings.Split(s, "\n")
	if len(ls) > 40 {
		ls = ls[:40]
	}
	return strings.Join(ls, "\n")
}

func main() {
	log.SetOutput(io.Discard)
	log.SetOutput(io.Discard)
	prop := os.Getenv("VH_PROP")
	seed, _ := strconv.ParseUint(os.Getenv("VH_SEED"), 10, 64)
	tier := os.Getenv("VH_TIER")
	shard, _ := strconv.Atoi(os.Getenv("VH_SHARD"))
	shards, _ := strconv.Atoi(os.Getenv("VH_SHARDS"))
	if shards < 1 {
		shards = 1
	}
	out := os.Getenv("VH_OUT")
	p, ok := props[prop]
	if !ok {
		fmt.Fprintln(os.Stderr, "unknown property", prop)
		os.Exit(3)
	}
	n := p.quick
	if tier == "thorough" {
		n = p.thorough
	}
	if s := os.Getenv("VH_N"); s != "" {
		n, _ = strconv.Atoi(s)
	}
	var idxs []int
	if s := os.Getenv("VH_CASE"); s != "" {
		i, _ := strconv.Atoi(s)
		rep, _ := strconv.Atoi(os.Getenv("VH_REPEAT"))
		if rep < 1 {
			rep = 1
		}
		for k := 0; k < rep; k++ {
			idxs = append(idxs, i)
		}
	} else {
		for i := shard; i < n; i += shards {
			idxs = append(idxs, i)
		}
	}
	// debug.SetGCPercent(200)
	res := &Result{Prop: prop, Shard: shard, Planned: len(idxs), Rule: p.rule, Counts: map[string]int64{}}
	var mu sync.Mutex
	sigs := map[uint64]struct{}{}
	write := func() {
		res.Nontriv = len(sigs)
		b, _ := json.Marshal(res)
		if out != "" {
			os.WriteFile(out, b, 0o644)
			sb := make([]byte, 0, 8*len(sigs))
			for s := range sigs {
				sb = binary.LittleEndian.AppendUint64(sb, s)
			}
			os.WriteFile(out+".sig", sb, 0o644)
		} else {
			os.Stdout.Write(b)
			fmt.Println()
		}
	}
	var journal *os.File
	if out != "" {
		journal, _ = os.Create(out + ".cur")
	}
	finish := make(chan struct{})
	curCase.Store(-1)
	go func() { // the only goroutine that calls into the library directly
		defer close(finish)
		for _, i := range idxs {
			if journal != nil {
				journal.WriteAt([]byte(fmt.Sprintf("%-20d\n", i)), 0)
			}
			curStart.Store(cpuNow())
			curCase.Store(int64(i) + int64(res.Cases)<<32)
			c := runCase(prop, p, seed, i, tier)
			if used := cpuNow() - curStart.Load(); used > 1e9 && os.Getenv("VH_SLOW") != "" {
				fmt.Fprintf(os.Stderr, "slow case %d: %d ms: %.200s\n", i, used/1e6, c.desc.String())
			}
			took := (cpuNow() - curStart.Load()) / 1e6
			if c.slow {
				took /= 6 // more is allowed for these
			}
			mu.Lock()
			res.Cases++
			if took > res.Slowest {
				res.Slowest, res.SlowCase = took, i
			}
			res.Events += c.events
			for k, v := range c.counts {
				res.Counts[k] += v
			}
			if !c.triv {
				sigs[c.sig] = struct{}{}
			}
			if len(res.Samples) < 2 && !c.triv && c.desc.Len() > 0 {
				s := c.desc.String()
				if len(s) > 700 {
					s = s[:700] + "..."
				}
				res.Samples = append(res.Samples, fmt.Sprintf("case %d: %s", i, s))
			}
			res.Failures = append(res.Failures, c.fails...)
			if len(res.Incon) < 20 {
				res.Incon = append(res.Incon, c.incon...)
			}
			stop := len(res.Failures) >= 40
			mu.Unlock()
			if stop {
				break
			}
		}
	}()
	fatal := func(key, msg string) {
		mu.Lock()
		cc := int(curCase.Load() & 0xffffffff)
		d := ""
		res.Failures = append(res.Failures, Failure{Case: cc, Key: key, Msg: msg, Desc: d})
		write()
		os.Exit(0)
	}
	last, stuck := int64(-1), 0
	for {
		select {
		case <-finish:
			mu.Lock()
			res.Complete = res.Cases == len(idxs)
			write()
			os.Exit(0)
		case <-time.After(100 * time.Millisecond):
		}
		var ms runtime.MemStats
		runtime.ReadMemStats(&ms)
		if used := ms.HeapAlloc + ms.StackInuse; used > 1500<<20 {
			fatal("memory", fmt.Sprintf("heap and stacks grew to %d bytes and %d goroutines in one case (cases take well under 200 MB):\n%s", used, runtime.NumGoroutine(), trimStack(allStacks())))
		}
		cur := curCase.Load()
		if cur != last {
			last, stuck = cur, 0
			continue
		}
		stuck++
		if stuck < 15 {
			continue
		}
		if s := deadlocked(); s != "" && curCase.Load() == cur {
			fatal("deadlock", "every goroutine of the call is blocked for ever:\n"+s)
		}
		if cpu := cpuNow() - curStart.Load(); cpu > hangCPU && (cpu > 2*hangCPU || !curPtr.Load().slow) {
			fatal("hang", fmt.Sprintf("one case has used %.0f s of processor time without ending (cases take well under 5 s):\n%s", float64(cpu)/1e9, trimStack(allStacks())))
		}
	}
}

var hangCPU = int64(150e9)

func allStacks() string {
	b := make([]byte, 1<<20)
	return string(b[:runtime.Stack(b, true)])
}

type gor struct {
	id, state, text string
}

var gorRe = regexp.MustCompile(`^goroutine (\d+) (?:gp=\S+ m=\S+ (?:mp=\S+ )?)?\[([^\],]*)`)

func goroutines() []gor {
	var gs []gor
	for _, t := range strings.Split(allStacks(), "\n\n") {
		m := gorRe.FindStringSubmatch(t)
		if m != nil {
			gs = append(gs, gor{m[1], m[2], t})
		}
	}
	return gs
}

func blockedState(s string) bool {
	switch strings.TrimSuffix(s, " (durable)") {
	case "chan receive", "chan send", "select", "select (no cases)", "semacquire", "chan receive (nil chan)", "chan send (nil chan)",
		"sync.Mutex.Lock", "sync.RWMutex.RLock", "sync.RWMutex.Lock", "sync.WaitGroup.Wait", "sync.Cond.Wait":
		return true
	}
	return false
}

// deadlocked reports a dump if every goroutine of the harness and library,
// apart from the caller's, stays in a blocked state over many snapshots.
func deadlocked() string {
	var ids string
	var dump string
	for k := 0; k < 25; k++ {
		var cur []string
		dump = ""
		for _, g := range goroutines() {
			if strings.Contains(g.text, "main.deadlocked") {
				continue
			}
			if !strings.Contains(g.text, "main.") && !strings.Contains(g.text, "rossmerr/graphblas") {
				continue // runtime helpers
			}
			if strings.HasPrefix(g.state, "finalizer wait") {
				continue
			}
			if !blockedState(g.state) {
				return ""
			}
			cur = append(cur, g.id+g.state)
			dump += trimStack(g.text) + "\n\n"
		}
		if len(cur) == 0 {
			return ""
		}
		sort.Strings(cur)
		j := strings.Join(cur, ",")
		if k > 0 && j != ids {
			return ""
		}
		ids = j
		time.Sleep(20 * time.Millisecond)
	}
	if len(dump) > 4000 {
		dump = dump[:4000]
	}
	return dump
}

// leaked waits until no goroutine other than the caller's is inside the
// library or was created by it; it returns a dump if the remaining ones are
// blocked for ever.
func leaked() string {
	var ids string
	same := 0
	for {
		var cur []string
		dump := ""
		blocked := true
		for _, g := range goroutines() {
			if strings.Contains(g.text, "main.leaked(") {
				continue
			}
			if !strings.Contains(g.text, "rossmerr/graphblas") {
				continue
			}
			if !blockedState(g.state) {
				blocked = false
			}
			cur = append(cur, g.id+g.state)
			dump += trimStack(g.text) + "\n\n"
		}
		if len(cur) == 0 {
			return ""
		}
		sort.Strings(cur)
		j := strings.Join(cur, ",")
		if blocked && j == ids {
			same++
			if same > 40 {
				if len(dump) > 3000 {
					dump = dump[:3000]
				}
				return dump
			}
			time.Sleep(2 * time.Millisecond)
		} else {
			same = 0
			time.Sleep(200 * time.Microsecond)
		}
		ids = j
	}
}

// checkLeak fails the case if the library left goroutines behind.
func (c *Case) checkLeak(key string) {
	c.Ev(1)
	if s := leaked(); s != "" {
		c.Fail(key, "goroutines left blocked inside the library:\n%s", s)
	}
}

// expectPanic runs f and reports whether it panicked.
func panics(f func()) (did bool, val any) {
	did = true
	defer func() {
		if did {
			val = recover()
			if _, ok := val.(abortCase); ok {
				panic(val)
			}
		}
	}()
	f()
	did = false
	return
}

// parallel runs fn on n goroutines at once, each with its own generator, and
// merges what their monitors saw.
func (c *Case) parallel(n int, fn func(s *Case, i int)) {
	subs := make([]*Case, n)
	for i := range subs {
		subs[i] = &Case{Prop: c.Prop, Seed: c.Seed, Idx: c.Idx, Tier: c.Tier, R: rand.New(rand.NewPCG(c.R.Uint64(), uint64(i))), counts: map[string]int64{}}
	}
	start := make(chan struct{})
	var wg sync.WaitGroup
	for i, s := range subs {
		wg.Add(1)
		go func() {
			defer wg.Done()
			defer func() {
				if e := recover(); e != nil {
					if _, ok := e.(abortCase); !ok {
						s.Report("panic", "unexpected panic in a concurrent caller: %v\n%s", e, trimStack(string(debug.Stack())))
					}
				}
			}()
			<-start
			fn(s, i)
		}()
	}
	close(start)
	wg.Wait()
	bad := false
	for _, s := range subs {
		c.events += s.events
		for k, v := range s.counts {
			c.counts[k] += v
		}
		for _, f := range s.fails {
			f.Desc = c.desc.String() + f.Desc
			c.fails = append(c.fails, f)
			bad = true
		}
		c.incon = append(c.incon, s.incon...)
	}
	if bad {
		panic(abortCase{})
	}
}

// yield disturbs the schedule.
func (c *Case) yield() {
	switch c.n(12) {
	case 0, 1, 2:
		runtime.Gosched()
	case 3:
		for i := 0; i < c.n(200); i++ {
			runtime.Gosched()
		}
	case 4:
		if c.p(0.2) {
			time.Sleep(time.Duration(c.n(30)) * time.Microsecond)
		}
	}
}
