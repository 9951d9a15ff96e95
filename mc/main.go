//go:debug panicnil=0

package main

// Driver: a parent process splits the case space of one property over worker
// processes, merges their counts, filters known findings, re-runs failures in
// fresh processes and writes the evidence file.

import (
	"bufio"
	"bytes"
	"encoding/binary"
	"encoding/json"
	"flag"
	"fmt"
	"hash/fnv"
	"os"
	"os/exec"
	"path/filepath"
	"regexp"
	"runtime"
	"runtime/debug"
	"sort"
	"strconv"
	"strings"
	"sync"
	"time"
)

// Check is one property's exhaustive exploration.
type Check struct {
	ID          string
	Rule        string   // how cases are made
	Assumptions []string // what the verdict rests on
	Run         func(c *Ctx)
	HangSec     int // per-case hang limit (default 120)
	Procs       int // GOMAXPROCS inside each worker (default 2)
}

var checks = map[string]*Check{}

func register(c *Check) { checks[c.ID] = c }

// Fail is a violated case.
type Fail struct {
	Idx  int64  `json:"idx"`
	Key  string `json:"key"`
	Msg  string `json:"msg"`
	Hang bool   `json:"hang,omitempty"`
}

// Ctx enumerates the cases of a check in a deterministic order.
type Ctx struct {
	Tier     string
	Thorough bool
	shard, n int64
	only     int64 // -1: all
	group    int64
	local    int64
	inGroup  bool
	skipTo   int64
	deadline time.Time
	stopped  bool

	ran     int64
	counts  map[string]int64
	hashes  map[uint64]struct{}
	samples []string
	nfail   int
	out     *json.Encoder
	curFile *os.File

	mu      sync.Mutex
	curIdx  int64
	curKey  string
	curAt   time.Time
	curOn   bool
	hangSec int
}

// T is handed to a running case.
type T struct {
	c   *Ctx
	key string
}

type failure struct{ msg string }

func (t *T) Failf(format string, a ...interface{}) { panic(failure{fmt.Sprintf(format, a...)}) }

// Trans counts model transitions, Trace counts executions of the
// implementation compared with the model.
func (t *T) Trans(n int)              { t.c.counts["transitions"] += int64(n) }
func (t *T) Trace(n int)              { t.c.counts["traces"] += int64(n) }
func (t *T) Count(name string, n int) { t.c.counts[name] += int64(n) }
func (t *T) State(parts ...interface{}) {
	h := fnv.New64a()
	for _, p := range parts {
		switch x := p.(type) {
		case *RT:
			fmt.Fprintf(h, "%s%v", x.DT, x.Shape)
			for _, d := range x.D {
				var b [8]byte
				binary.LittleEndian.PutUint64(b[:], f64bits(d.V))
				h.Write(b[:])
			}
		case string:
			h.Write([]byte(x))
			h.Write([]byte{0})
		default:
			fmt.Fprintf(h, "%v|", x)
		}
	}
	t.c.hashes[h.Sum64()] = struct{}{}
}
func (t *T) StateHash(h uint64) { t.c.hashes[h] = struct{}{} }

// OwnStates counts distinct states that no other case can reach.
func (t *T) OwnStates(n int) { t.c.counts["own states"] += int64(n) }

// Group registers the next group of cases; f, which registers the cases of the
// group, runs only in the worker the group belongs to. The index of a case is
// the number of its group followed by its number within the group.
func (c *Ctx) Group(f func()) {
	if c.Stop() {
		return
	}
	if c.inGroup {
		f()
		return
	}
	g := c.group
	c.group++
	if c.only >= 0 {
		if g != c.only>>24 {
			return
		}
	} else if g%c.n != c.shard || g < c.skipTo>>24 {
		return
	}
	c.inGroup, c.local = true, 0
	f()
	c.inGroup = false
}

// Stop reports whether enumeration should be abandoned.
func (c *Ctx) Stop() bool { return c.stopped || (c.only >= 0 && c.group > c.only>>24+1) }

// Case registers the next case; f runs if the case is in this worker's share.
func (c *Ctx) Case(key func() string, f func(t *T)) {
	if !c.inGroup {
		c.Group(func() { c.Case(key, f) })
		return
	}
	if c.stopped {
		return
	}
	idx := (c.group-1)<<24 | c.local
	c.local++
	if c.only >= 0 && idx != c.only || idx < c.skipTo {
		return
	}
	if c.only < 0 && c.ran%16 == 0 && time.Now().After(c.deadline) {
		c.stopped = true
		return
	}
	k := key()
	c.mu.Lock()
	c.curIdx, c.curKey, c.curAt, c.curOn = idx, k, time.Now(), true
	c.mu.Unlock()
	if c.curFile != nil {
		b := []byte(fmt.Sprintf("%d\n%s\n\x00", idx, k))
		c.curFile.WriteAt(b, 0)
	}
	c.ran++
	c.counts["evaluations"]++
	if len(c.samples) < 2 {
		c.samples = append(c.samples, k)
	}
	t := &T{c: c, key: k}
	done := false
	func() {
		defer func() {
			if r := recover(); !done {
				fl := Fail{Idx: idx, Key: k}
				if f, ok := r.(failure); ok {
					fl.Msg = f.msg
				} else {
					fl.Msg = fmt.Sprintf("panic: %v\n%s", r, trimStack(debug.Stack()))
				}
				c.nfail++
				c.out.Encode(map[string]interface{}{"fail": fl})
				if c.nfail >= 200 && os.Getenv("MC_ALLFAILS") == "" {
					c.stopped = true
				}
			}
		}()
		f(t)
		done = true
	}()
	c.mu.Lock()
	c.curOn = false
	c.mu.Unlock()
}

func trimStack(b []byte) string {
	lines := strings.Split(string(b), "\n")
	var keep []string
	for _, l := range lines {
		if strings.Contains(l, "/repo/") || strings.Contains(l, "gorgonia.org/") || strings.Contains(l, "/verif/mc/") {
			keep = append(keep, strings.TrimSpace(l))
		}
		if len(keep) > 12 {
			break
		}
	}
	return strings.Join(keep, "\n")
}

func (c *Ctx) watchdog() {
	for {
		time.Sleep(time.Second)
		c.mu.Lock()
		on, at, idx, key := c.curOn, c.curAt, c.curIdx, c.curKey
		c.mu.Unlock()
		if on && time.Since(at) > time.Duration(c.hangSec)*time.Second {
			buf := make([]byte, 1<<16)
			n := runtime.Stack(buf, true)
			c.out.Encode(map[string]interface{}{"fail": Fail{Idx: idx, Key: key, Hang: true,
				Msg: fmt.Sprintf("case did not finish within %d s\n%s", c.hangSec, trimStack(buf[:n]))}})
			os.Exit(7)
		}
	}
}

func envInt(k string, d int) int {
	if v, err := strconv.Atoi(os.Getenv(k)); err == nil {
		return v
	}
	return d
}

func main() {
	var prop, tier, out, replay string
	var worker bool
	var shard, n, only, skip int64
	var deadline int
	flag.StringVar(&prop, "prop", "", "")
	flag.StringVar(&tier, "tier", "", "")
	flag.StringVar(&out, "out", "", "")
	flag.StringVar(&replay, "replay", "", "")
	flag.BoolVar(&worker, "worker", false, "")
	flag.Int64Var(&shard, "shard", 0, "")
	flag.Int64Var(&n, "n", 1, "")
	flag.Int64Var(&only, "only", -1, "")
	flag.Int64Var(&skip, "skip", 0, "")
	flag.IntVar(&deadline, "deadline", 0, "")
	flag.Parse()
	if tier == "" {
		tier = os.Getenv("VERIF_TIER")
	}
	if tier != "thorough" {
		tier = "quick"
	}
	ck := checks[prop]
	if ck == nil {
		fmt.Fprintln(os.Stderr, "unknown property", prop)
		os.Exit(2)
	}
	if worker {
		runWorker(ck, tier, out, shard, n, only, skip, deadline)
		return
	}
	if replay != "" {
		os.Exit(doReplay(ck, replay))
	}
	os.Exit(runParent(ck, tier, deadline))
}

func runWorker(ck *Check, tier, out string, shard, n, only, skip int64, deadline int) {
	p := ck.Procs
	if p == 0 {
		p = 2
	}
	runtime.GOMAXPROCS(p)
	if p == 1 {
		debug.SetGCPercent(400)
	} else {
		debug.SetGCPercent(200)
	}
	f, err := os.Create(out)
	if err != nil {
		fmt.Fprintln(os.Stderr, err)
		os.Exit(2)
	}
	cur, err := os.Create(out + ".cur")
	if err != nil {
		fmt.Fprintln(os.Stderr, err)
		os.Exit(2)
	}
	c := &Ctx{Tier: tier, Thorough: tier == "thorough", shard: shard, n: n, only: only, skipTo: skip,
		deadline: time.Now().Add(time.Duration(deadline) * time.Second),
		counts:   map[string]int64{}, hashes: map[uint64]struct{}{}, out: json.NewEncoder(f), curFile: cur, hangSec: ck.HangSec}
	if c.hangSec == 0 {
		c.hangSec = 120
	}
	go c.watchdog()
	ck.Run(c)
	if len(c.hashes) > 0 {
		b := make([]byte, 0, 8*len(c.hashes))
		for h := range c.hashes {
			b = binary.LittleEndian.AppendUint64(b, h)
		}
		os.WriteFile(out+".h", b, 0o644)
	}
	c.out.Encode(map[string]interface{}{"done": map[string]interface{}{
		"counts": c.counts, "samples": c.samples, "total": c.group, "exhaustive": !c.stopped}})
	f.Close()
}

type workerResult struct {
	fails      []Fail
	counts     map[string]int64
	samples    []string
	exhaustive bool
	done       bool
	curIdx     int64
	curKey     string
	stderr     string
}

func spawn(ck *Check, tier, dir, name string, args ...string) *workerResult {
	out := filepath.Join(dir, name)
	a := append([]string{"-worker", "-prop", ck.ID, "-tier", tier, "-out", out}, args...)
	cmd := exec.Command(os.Args[0], a...)
	cmd.Env = os.Environ()
	cmd.Dir = dir
	var eb bytes.Buffer
	cmd.Stderr = &tailWriter{b: &eb}
	cmd.Stdout = nil
	cmd.Run()
	r := &workerResult{counts: map[string]int64{}, curIdx: -1}
	f, err := os.Open(out)
	if err == nil {
		sc := bufio.NewScanner(f)
		sc.Buffer(make([]byte, 1<<20), 64<<20)
		for sc.Scan() {
			var m struct {
				Fail *Fail
				Done *struct {
					Counts     map[string]int64
					Samples    []string
					Total      int64
					Exhaustive bool
				}
			}
			if json.Unmarshal(sc.Bytes(), &m) != nil {
				continue
			}
			if m.Fail != nil {
				r.fails = append(r.fails, *m.Fail)
			}
			if m.Done != nil {
				r.done, r.counts, r.samples, r.exhaustive = true, m.Done.Counts, m.Done.Samples, m.Done.Exhaustive
			}
		}
		f.Close()
	}
	if b, err := os.ReadFile(out + ".cur"); err == nil {
		s := strings.SplitN(string(b), "\x00", 2)[0]
		l := strings.SplitN(s, "\n", 2)
		if v, err := strconv.ParseInt(l[0], 10, 64); err == nil && len(l) == 2 {
			r.curIdx, r.curKey = v, strings.TrimRight(l[1], "\n")
		}
	}
	r.stderr = eb.String()
	return r
}

// tailWriter keeps the first 8 KB of what is written.
type tailWriter struct{ b *bytes.Buffer }

func (w *tailWriter) Write(p []byte) (int, error) {
	if room := 8192 - w.b.Len(); room > 0 {
		if len(p) < room {
			room = len(p)
		}
		w.b.Write(p[:room])
	}
	return len(p), nil
}

// Finding is one line of known-findings.jsonl.
type Finding struct {
	Status   string `json:"status"` // open | fixed
	Property string `json:"property"`
	Key      string `json:"key"` // anchored regular expression on the case
	Msg      string `json:"msg"` // regular expression on the failure
	What     string `json:"what"`
	Commit   string `json:"commit,omitempty"`
	key, msg *regexp.Regexp
}

func loadFindings(root, prop string) ([]*Finding, error) {
	b, err := os.ReadFile(filepath.Join(root, "known-findings.jsonl"))
	if err != nil {
		if os.IsNotExist(err) {
			return nil, nil
		}
		return nil, err
	}
	var l []*Finding
	for _, line := range strings.Split(string(b), "\n") {
		line = strings.TrimSpace(line)
		if line == "" || strings.HasPrefix(line, "#") || strings.HasPrefix(line, "fixed:") {
			continue
		}
		f := &Finding{}
		if err := json.Unmarshal([]byte(line), f); err != nil {
			return nil, fmt.Errorf("known-findings: %v in %s", err, line)
		}
		if f.Property != prop || f.Status != "open" {
			continue
		}
		f.key, err = regexp.Compile("^(?:" + f.Key + ")$")
		if err != nil {
			return nil, err
		}
		f.msg, err = regexp.Compile("(?s)" + f.Msg)
		if err != nil {
			return nil, err
		}
		l = append(l, f)
	}
	return l, nil
}

func rootDir() string {
	if d := os.Getenv("VERIF_ROOT"); d != "" {
		return d
	}
	return "/verif"
}

func doReplay(ck *Check, path string) int {
	b, err := os.ReadFile(path)
	if err != nil {
		fmt.Fprintln(os.Stderr, err)
		return 2
	}
	var m struct {
		Tier string
		Idx  int64
		Key  string
	}
	if err := json.Unmarshal(b, &m); err != nil {
		fmt.Fprintln(os.Stderr, err)
		return 2
	}
	dir, err := os.MkdirTemp("", "mcreplay")
	if err != nil {
		return 2
	}
	defer os.RemoveAll(dir)
	r := spawn(ck, m.Tier, dir, "w", "-only", fmt.Sprint(m.Idx), "-deadline", "600")
	for _, f := range r.fails {
		fmt.Printf("case %s\n%s\n", f.Key, f.Msg)
	}
	if !r.done {
		fmt.Printf("case %s\nprocess ended: %s\n", r.curKey, r.stderr)
		return 1
	}
	if len(r.fails) > 0 {
		return 1
	}
	fmt.Println("case", m.Key, "holds")
	return 0
}

func runParent(ck *Check, tier string, deadline int) int {
	start := time.Now()
	root := rootDir()
	seed := envInt("VERIF_SEED", 1)
	if deadline == 0 {
		deadline = 240
		if tier == "thorough" {
			deadline = 780
		}
	}
	deadline = envInt("VERIF_DEADLINE", deadline)
	nw := envInt("VERIF_WORKERS", runtime.NumCPU())
	if nw < 1 {
		nw = 1
	}
	finds, err := loadFindings(root, ck.ID)
	if err != nil {
		fmt.Fprintln(os.Stderr, err)
		return 2
	}
	dir, err := os.MkdirTemp("", "mc"+ck.ID)
	if err != nil {
		fmt.Fprintln(os.Stderr, err)
		return 2
	}
	defer os.RemoveAll(dir)

	var mu sync.Mutex
	var wg sync.WaitGroup
	var fails []Fail
	counts := map[string]int64{}
	hashes := map[uint64]struct{}{}
	var samples []string
	exhaustive := true
	broken := ""
	for i := 0; i < nw; i++ {
		wg.Add(1)
		go func(i int) {
			defer wg.Done()
			skip := int64(0)
			for try := 0; ; try++ {
				left := deadline - int(time.Since(start).Seconds())
				if left < 1 {
					left = 1
				}
				name := fmt.Sprintf("w%d.%d", i, try)
				r := spawn(ck, tier, dir, name, "-shard", fmt.Sprint(i), "-n", fmt.Sprint(nw),
					"-skip", fmt.Sprint(skip), "-deadline", fmt.Sprint(left))
				mu.Lock()
				fails = append(fails, r.fails...)
				for k, v := range r.counts {
					counts[k] += v
				}
				if len(samples) < 6 {
					samples = append(samples, r.samples...)
				}
				if b, err := os.ReadFile(filepath.Join(dir, name+".h")); err == nil {
					for len(b) >= 8 {
						hashes[binary.LittleEndian.Uint64(b)] = struct{}{}
						b = b[8:]
					}
				}
				if r.done {
					if !r.exhaustive {
						exhaustive = false
					}
					mu.Unlock()
					return
				}
				hung := len(r.fails) > 0 && r.fails[len(r.fails)-1].Hang
				if r.curIdx < 0 {
					broken = "worker ended before its first case: " + r.stderr
					mu.Unlock()
					return
				}
				if !hung {
					fails = append(fails, Fail{Idx: r.curIdx, Key: r.curKey, Msg: "process ended abnormally: " + r.stderr})
				}
				exhaustive = exhaustive && try < 30
				stop := try >= 30
				mu.Unlock()
				if stop {
					return
				}
				skip = r.curIdx + 1
			}
		}(i)
	}
	wg.Wait()
	if broken != "" {
		fmt.Fprintln(os.Stderr, broken)
		return 2
	}
	sort.Slice(fails, func(i, j int) bool { return fails[i].Idx < fails[j].Idx })

	matched := make([]int, len(finds))
	var fresh []Fail
	for _, f := range fails {
		known := false
		for i, k := range finds {
			if k.key.MatchString(f.Key) && k.msg.MatchString(f.Msg) {
				matched[i]++
				known = true
				break
			}
		}
		if !known {
			fresh = append(fresh, f)
		}
	}
	for i, k := range finds {
		if matched[i] > 0 {
			fmt.Printf("KNOWN-FINDING: property=%s %s (%d cases)\n", ck.ID, k.What, matched[i])
		}
	}
	rc := 0
	if len(fresh) > 0 {
		// confirm in fresh processes
		confirmed := 0
		rep := filepath.Join(evDir(root), "replay")
		os.MkdirAll(rep, 0o755)
		lim := len(fresh)
		if lim > 4 {
			lim = 4
		}
		for j := 0; j < lim; j++ {
			f := fresh[j]
			repro := 0
			tries := 5
			if f.Hang {
				tries = 2
			}
			for k := 0; k < tries; k++ {
				r := spawn(ck, tier, dir, fmt.Sprintf("r%d.%d", j, k), "-only", fmt.Sprint(f.Idx), "-deadline", "600")
				if len(r.fails) > 0 || !r.done {
					repro++
				}
			}
			if f.Hang && repro == 0 {
				fmt.Fprintf(os.Stderr, "case %s: slow once, not reproduced\n", f.Key)
				exhaustive = false
				continue
			}
			confirmed++
			path := filepath.Join(rep, fmt.Sprintf("%s-%d.json", ck.ID, j))
			b, _ := json.MarshalIndent(map[string]interface{}{"property": ck.ID, "tier": tier, "idx": f.Idx, "key": f.Key,
				"message": f.Msg, "reproduced_alone": fmt.Sprintf("%d/%d", repro, tries),
				"replay_cmd": fmt.Sprintf("%s/run.sh %s -replay %s", root, ck.ID, path)}, "", " ")
			os.WriteFile(path, b, 0o644)
			if confirmed == 1 {
				fmt.Printf("VIOLATION property=%s replay=%s\n", ck.ID, path)
			}
			fmt.Printf("  case %s\n  %s\n  reproduced alone %d/%d\n", f.Key, strings.ReplaceAll(trunc(f.Msg, 1200), "\n", "\n  "), repro, tries)
		}
		if confirmed > 0 {
			rc = 1
			fmt.Printf("  %d failing cases in all\n", len(fresh))
		}
		if p := os.Getenv("MC_FAILS"); p != "" {
			fo, _ := os.Create(p)
			for _, f := range fresh {
				b, _ := json.Marshal(f)
				fo.Write(append(b, '\n'))
			}
			fo.Close()
		}
	}
	cov := map[string]interface{}{
		"states":                        int64(len(hashes)) + counts["own states"],
		"transitions":                   counts["transitions"],
		"traces_validated_against_impl": counts["traces"],
		"evaluations":                   counts["evaluations"],
		"rule":                          ck.Rule,
		"samples":                       samples,
		"exhaustive":                    exhaustive,
		"workers":                       nw,
	}
	for k, v := range counts {
		if _, ok := cov[k]; !ok && k != "traces" {
			cov[k] = v
		}
	}
	ev := map[string]interface{}{
		"property": ck.ID, "tier": tier, "seed": seed, "level": "model_checking",
		"coverage": cov, "assumptions": ck.Assumptions, "wall_s": round3(time.Since(start).Seconds()),
		"violations": len(fresh),
	}
	os.MkdirAll(evDir(root), 0o755)
	b, _ := json.MarshalIndent(ev, "", " ")
	if err := os.WriteFile(filepath.Join(evDir(root), ck.ID+".json"), append(b, '\n'), 0o644); err != nil {
		fmt.Fprintln(os.Stderr, err)
		return 2
	}
	if rc == 0 && (counts["evaluations"] == 0 || counts["traces"] == 0) {
		fmt.Fprintln(os.Stderr, "nothing was explored")
		return 2
	}
	fmt.Printf("%s %s: cases=%d states=%d transitions=%d traces=%d exhaustive=%v failing=%d known=%d %.1fs\n", ck.ID, tier,
		counts["evaluations"], int64(len(hashes))+counts["own states"], counts["transitions"], counts["traces"], exhaustive, len(fresh), len(fails)-len(fresh), time.Since(start).Seconds())
	return rc
}

func trunc(s string, n int) string {
	if len(s) > n {
		return s[:n] + "…"
	}
	return s
}
func round3(f float64) float64 { return float64(int(f*1000)) / 1000 }

func evDir(root string) string {
	if d := os.Getenv("VERIF_EVIDENCE"); d != "" {
		return d
	}
	return filepath.Join(root, "evidence")
}
