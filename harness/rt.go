package main

// Runtime of the checks: deterministic case streams, running the real CLI under
// observation, collecting verdicts and writing evidence.

import (
	"bytes"
	"context"
	"encoding/json"
	"errors"
	"fmt"
	"hash/fnv"
	"math/rand/v2"
	"os"
	"os/exec"
	"path/filepath"
	"runtime"
	"runtime/debug"
	"sort"
	"strconv"
	"strings"
	"sync"
	"sync/atomic"
	"syscall"
	"time"
	"unsafe"
)

type Ctx struct {
	ID       string
	Tier     string
	Seed     int64
	Bin      string // plain build of /repo
	RaceBin  string // -race build of /repo, when the check needs it
	LibBin   string
	Repo     string
	Verif    string
	Work     string // scratch directory, removed at the end
	CaseBase string // where cases are, if not in Work
	Level    string
	Rule     string
	Assume   []string
	start    time.Time
	seq      atomic.Int64
	mu       sync.Mutex
	evals    int64
	runs     atomic.Int64
	distinct map[uint64]struct{}
	counters map[string]int64
	sets     map[string]map[string]struct{}
	samples  []any
	vios     []string
	stop     atomic.Bool
	infra    atomic.Int64
	broken   atomic.Int64
	net      *Net
	netOnce  sync.Once
}

func (c *Ctx) Thorough() bool { return c.Tier == "thorough" }

// N picks the number of cases for the tier.
func (c *Ctx) N(quick, thorough int) int {
	n := quick
	if c.Thorough() {
		n = thorough
	}
	if p, err := strconv.Atoi(os.Getenv("VERIF_PERCENT")); err == nil { // for experiments
		n = max(1, n*p/100)
	}
	return n
}

func hash64(parts ...string) uint64 {
	h := fnv.New64a()
	for _, p := range parts {
		_, _ = h.Write([]byte(p))
		_, _ = h.Write([]byte{0})
	}
	return h.Sum64()
}

// Rand is a deterministic generator for one case of one stream.
func (c *Ctx) Rand(stream string, i int) *R {
	return &R{Rand: rand.New(rand.NewPCG(uint64(c.Seed), hash64(c.ID, stream, fmt.Sprint(i))))}
}

// Each runs f for cases 0..n-1 in parallel; the set of cases only depends on the seed.
func (c *Ctx) Each(stream string, n int, f func(i int, r *R)) {
	c.EachW(stream, n, runtime.NumCPU(), f)
}

func (c *Ctx) EachW(stream string, n, workers int, f func(i int, r *R)) {
	var next atomic.Int64
	var wg sync.WaitGroup
	for range workers {
		wg.Add(1)
		go func() {
			defer wg.Done()
			for {
				i := int(next.Add(1) - 1)
				if i >= n || c.stop.Load() {
					return
				}
				c.guard(stream, i, f)
			}
		}()
	}
	wg.Wait()
}

// guard keeps a defect of the harness in one case from hiding what other cases saw.
func (c *Ctx) guard(stream string, i int, f func(i int, r *R)) {
	defer func() {
		if e := recover(); e != nil {
			c.broken.Add(1)
			fmt.Fprintf(os.Stderr, "harness panic in case %s/%d: %v\n%s\n", stream, i, e, debug.Stack())
		}
	}()
	f(i, c.Rand(stream, i))
}

// Seen records one monitored case. sig identifies it; nontrivial says if it counts.
func (c *Ctx) Seen(nontrivial bool, sig string) {
	c.mu.Lock()
	c.evals++
	if nontrivial {
		c.distinct[hash64(sig)] = struct{}{}
	}
	c.mu.Unlock()
}

func (c *Ctx) Count(name string, n int) {
	c.mu.Lock()
	c.counters[name] += int64(n)
	c.mu.Unlock()
}

// Mark remembers that a distinct value was observed (states, orders, features ...)
func (c *Ctx) Mark(set, v string) {
	c.mu.Lock()
	m := c.sets[set]
	if m == nil {
		m = map[string]struct{}{}
		c.sets[set] = m
	}
	m[v] = struct{}{}
	c.mu.Unlock()
}

func (c *Ctx) Sample(v any) {
	c.mu.Lock()
	if len(c.samples) < 4 {
		c.samples = append(c.samples, v)
	}
	c.mu.Unlock()
}

// ---- running the program under test ----

type Run struct {
	Dir   string // case directory (cwd is Dir/cwd unless Cwd is set)
	Cwd   string
	Args  []string
	Env   []string
	Token string // scenario token of the fake network
	Race  bool
	Lib   bool
	Wrap  []string // e.g. strace ...
	Limit time.Duration
	User  uint32 // run as this user, if not 0
}

type Res struct {
	Exit    int
	Signal  string
	Out     []byte
	Err     []byte
	Hang    bool
	UserCPU time.Duration
}

func (r Res) Crashed() bool {
	if r.Signal != "" {
		return true
	}
	if r.Exit == 0 || r.Exit == 1 || r.Exit == 127 || r.Exit == 128 {
		return false
	}
	return true
}

func (r Res) String() string {
	return fmt.Sprintf("exit=%d signal=%q hang=%v\n--- stdout\n%s\n--- stderr\n%s\n", r.Exit, r.Signal, r.Hang, clip(r.Out), clip(r.Err))
}

func clip(b []byte) string {
	if len(b) > 20000 {
		return string(b[:20000]) + "...(clipped)"
	}
	return string(b)
}

var errInfra = errors.New("could not run the program")

// Case is a scratch directory with files in it.
type Case struct {
	c     *Ctx
	Dir   string
	Files map[string]string
	Notes []string
	cmds  []string
}

func (c *Ctx) NewCase() *Case {
	dir := filepath.Join(orDefault(c.CaseBase, c.Work), fmt.Sprintf("case-%d", c.seq.Add(1)))
	must(os.MkdirAll(filepath.Join(dir, "cwd"), 0o755))
	must(os.MkdirAll(filepath.Join(dir, "tmp"), 0o755))
	must(os.MkdirAll(filepath.Join(dir, "home", ".cache"), 0o755))
	must(os.MkdirAll(filepath.Join(dir, "home", ".config"), 0o755))
	return &Case{c: c, Dir: dir, Files: map[string]string{}}
}

func (k *Case) Path(p string) string { return filepath.Join(k.Dir, "cwd", p) }

// Write creates a file below the case's working directory.
func (k *Case) Write(p, content string) {
	full := k.Path(p)
	must(os.MkdirAll(filepath.Dir(full), 0o755))
	must(os.WriteFile(full, []byte(content), 0o644))
	k.Files[p] = content
}

func (k *Case) Mkdir(p string) { must(os.MkdirAll(k.Path(p), 0o755)) }

func (k *Case) Note(f string, a ...any) { k.Notes = append(k.Notes, fmt.Sprintf(f, a...)) }

func (k *Case) Done() { _ = os.RemoveAll(k.Dir) }

func must(err error) {
	if err != nil {
		panic(err)
	}
}

// Run executes the CLI in the case directory.
func (k *Case) Run(args ...string) Res { return k.RunX(Run{Args: args}) }

func (k *Case) RunX(r Run) Res {
	r.Dir = k.Dir
	res := k.c.exec(r)
	k.cmds = append(k.cmds, fmt.Sprintf("env=%v wrap=%v args=%q\n=> %s", r.Env, r.Wrap, r.Args, res.String()))
	return res
}

func (c *Ctx) exec(r Run) Res {
	c.runs.Add(1)
	limit := r.Limit
	if limit == 0 {
		limit = 60 * time.Second
	}
	var res Res
	var err error
	infra := 0
	for hangs := 0; hangs < 3; {
		res, err = c.exec1(r, limit)
		if err != nil {
			infra++
			c.infra.Add(1)
			if infra > 5 {
				fmt.Fprintf(os.Stderr, "infrastructure failure: %v\n", err)
				os.Exit(3)
			}
			time.Sleep(time.Duration(infra) * 300 * time.Millisecond)
			continue
		}
		if !res.Hang {
			return res
		}
		// a slow machine is not a hang: only a run that repeatedly does not finish is one
		hangs++
	}
	return res
}

func (c *Ctx) exec1(r Run, limit time.Duration) (Res, error) {
	bin := c.Bin
	if r.Race {
		bin = c.RaceBin
	}
	if r.Lib {
		bin = c.LibBin
	}
	argv := append(append([]string{}, r.Wrap...), bin)
	argv = append(argv, r.Args...)
	ctx, cancel := context.WithTimeout(context.Background(), limit)
	defer cancel()
	cmd := exec.CommandContext(ctx, argv[0], argv[1:]...)
	cmd.Dir = r.Cwd
	if cmd.Dir == "" {
		cmd.Dir = filepath.Join(r.Dir, "cwd")
	}
	cmd.SysProcAttr = &syscall.SysProcAttr{Setpgid: true}
	if r.User != 0 {
		cmd.SysProcAttr.Credential = &syscall.Credential{Uid: r.User, Gid: r.User}
	}
	cmd.Cancel = func() error { return syscall.Kill(-cmd.Process.Pid, syscall.SIGKILL) }
	cmd.WaitDelay = 5 * time.Second
	env := []string{
		"PATH=/usr/local/bin:/usr/bin:/bin", "HOME=" + filepath.Join(r.Dir, "home"),
		"TMPDIR=" + filepath.Join(r.Dir, "tmp"), "XDG_CACHE_HOME=" + filepath.Join(r.Dir, "home", ".cache"), "XDG_CONFIG_HOME=" + filepath.Join(r.Dir, "home", ".config"), "LANG=C.UTF-8", "NO_COLOR=1", "GOTRACEBACK=single",
		"GORACE=atexit_sleep_ms=0 halt_on_error=0 exitcode=66",
	}
	if c.net != nil {
		p := fmt.Sprintf("http://%s:x@%s", orDefault(r.Token, "none"), c.net.Addr)
		env = append(env, "HTTP_PROXY="+p, "HTTPS_PROXY="+p, "http_proxy="+p, "https_proxy="+p, "SSL_CERT_FILE="+c.net.CAFile, "SSL_CERT_DIR=/nonexistent")
	} else {
		// no fake internet in this check: make sure that nothing real is ever reached
		env = append(env, "HTTP_PROXY=http://127.0.0.1:9", "HTTPS_PROXY=http://127.0.0.1:9")
	}
	cmd.Env = append(env, r.Env...)
	var out, errb bytes.Buffer
	cmd.Stdout, cmd.Stderr = &out, &errb
	err := cmd.Start()
	if err == nil {
		if !r.Race && !r.Lib {
			// a run that never stops allocating must not take the machine with it
			lim := syscall.Rlimit{Cur: 3 << 30, Max: 3 << 30}
			_, _, _ = syscall.RawSyscall6(syscall.SYS_PRLIMIT64, uintptr(cmd.Process.Pid), syscall.RLIMIT_AS, uintptr(unsafe.Pointer(&lim)), 0, 0, 0)
		}
		err = cmd.Wait()
	}
	res := Res{Out: out.Bytes(), Err: errb.Bytes()}
	if cmd.ProcessState != nil {
		res.UserCPU = cmd.ProcessState.UserTime()
	}
	if ctx.Err() != nil {
		res.Hang = true
		res.Exit = -1
		return res, nil
	}
	if err != nil {
		var ee *exec.ExitError
		if !errors.As(err, &ee) {
			return res, fmt.Errorf("%w: %w", errInfra, err)
		}
		ws := ee.Sys().(syscall.WaitStatus)
		if ws.Signaled() {
			if ws.Signal() == syscall.SIGKILL {
				return res, fmt.Errorf("%w: killed (out of memory?)", errInfra)
			}
			res.Signal = ws.Signal().String()
			res.Exit = -1
			return res, nil
		}
		res.Exit = ws.ExitStatus()
	}
	// the runtime could not get threads or memory from the machine: not a verdict about the code
	if res.Exit == 2 && (bytes.Contains(res.Err, []byte("failed to create new OS thread")) || bytes.Contains(res.Err, []byte("cannot allocate memory"))) {
		return res, fmt.Errorf("%w: %s", errInfra, clip(res.Err))
	}
	return res, nil
}

func orDefault(a, b string) string {
	if a == "" {
		return b
	}
	return a
}

// ---- verdicts ----

// Violate records a violation witnessed by the case.
func (k *Case) Violate(format string, a ...any) {
	c := k.c
	msg := fmt.Sprintf(format, a...)
	c.mu.Lock()
	defer c.mu.Unlock()
	n := len(c.vios)
	if n >= 5 {
		c.stop.Store(true)
		return
	}
	dir := filepath.Join(c.Verif, "replays", fmt.Sprintf("%s-%d", c.ID, n+1))
	_ = os.RemoveAll(dir)
	_ = os.MkdirAll(dir, 0o755)
	for p, s := range k.Files {
		f := filepath.Join(dir, "cwd", p)
		_ = os.MkdirAll(filepath.Dir(f), 0o755)
		_ = os.WriteFile(f, []byte(s), 0o644)
	}
	var b strings.Builder
	fmt.Fprintf(&b, "property %s, tier %s, seed %d\n%s\n\n", c.ID, c.Tier, c.Seed, msg)
	for _, s := range k.Notes {
		fmt.Fprintf(&b, "note: %s\n", s)
	}
	fmt.Fprintf(&b, "\nruns of %s in cwd/ (files in cwd/ are as generated before the first run):\n", c.Bin)
	for _, s := range k.cmds {
		fmt.Fprintf(&b, "%s\n", s)
	}
	_ = os.WriteFile(filepath.Join(dir, "violation.txt"), []byte(b.String()), 0o644)
	c.vios = append(c.vios, dir)
	fmt.Printf("VIOLATION property=%s replay=%s\n", c.ID, dir)
	short := msg
	if len(short) > 1200 {
		short = strings.ToValidUTF8(short[:1200], "") + "... (more in " + dir + ")"
	}
	fmt.Printf("  %s\n", strings.ReplaceAll(short, "\n", "\n  "))
	if n+1 >= 5 {
		c.stop.Store(true)
	}
}

func (c *Ctx) Finish() int {
	cov := map[string]any{
		"evaluations":         c.evals,
		"distinct_nontrivial": len(c.distinct),
		"rule":                c.Rule,
		"samples":             c.samples,
		"program_runs":        c.runs.Load(),
	}
	for k, v := range c.counters {
		cov[k] = v
	}
	for k, m := range c.sets {
		cov["distinct_"+k] = len(m)
		if len(m) <= 60 {
			var l []string
			for v := range m {
				l = append(l, v)
			}
			sort.Strings(l)
			cov["observed_"+k] = l
		}
	}
	if c.Assume == nil {
		c.Assume = []string{}
	}
	if c.samples == nil {
		cov["samples"] = []any{}
	}
	ev := map[string]any{
		"property": c.ID, "tier": c.Tier, "seed": c.Seed, "level": c.Level,
		"coverage": cov, "assumptions": c.Assume, "wall_s": time.Since(c.start).Seconds(), "violations": len(c.vios),
	}
	b, err := json.MarshalIndent(ev, "", " ")
	must(err)
	must(os.MkdirAll(filepath.Join(c.Verif, "evidence"), 0o755))
	must(os.WriteFile(filepath.Join(c.Verif, "evidence", c.ID+".json"), append(b, '\n'), 0o644))
	fmt.Printf("%s: %d cases, %d distinct non-trivial, %d program runs, %d violations, %.1fs\n", c.ID, c.evals, len(c.distinct), c.runs.Load(), len(c.vios), time.Since(c.start).Seconds())
	if len(c.vios) > 0 {
		return 1
	}
	if c.broken.Load() > 0 {
		fmt.Println("the harness failed: inconclusive")
		return 3
	}
	if c.evals == 0 || len(c.distinct) == 0 {
		fmt.Println("nothing was observed: inconclusive")
		return 2
	}
	return 0
}

// ---- random helpers ----

type R struct {
	*rand.Rand
	big int // if not 0, lists are this many times as long
}

func (r *R) P(p float64) bool     { return r.Float64() < p }
func (r *R) Range(lo, hi int) int { return lo + r.IntN(hi-lo+1) }
func (r *R) Many(n int) int {
	if r.big > 0 {
		return n * r.big
	}
	return r.IntN(n + 1)
}
func (r *R) Pick(s ...string) string { return s[r.IntN(len(s))] }
func pick[T any](r *R, s []T) T      { return s[r.IntN(len(s))] }
func shuffle[T any](r *R, s []T) {
	r.Shuffle(len(s), func(i, j int) { s[i], s[j] = s[j], s[i] })
}
func (r *R) Hex(n int) string {
	const d = "0123456789abcdef"
	b := make([]byte, n)
	for i := range b {
		b[i] = d[r.IntN(16)]
	}
	// make sure that it is never a number, so that it always looks like a hash
	if n > 3 {
		b[r.IntN(n)] = "abcdf"[r.IntN(5)]
	}
	return string(b)
}
func (r *R) Str(alphabet string, lo, hi int) string {
	n := r.Range(lo, hi)
	b := make([]byte, n)
	for i := range b {
		b[i] = alphabet[r.IntN(len(alphabet))]
	}
	return string(b)
}
func (r *R) Word() string {
	return r.Str("abcdefghijklmnopqrstuvwxyz", 2, 8)
}

// Remove deletes a file below the case's working directory, if it is there.
func (k *Case) Remove(p string) {
	must(os.RemoveAll(k.Path(p)))
	delete(k.Files, p)
	delete(k.Files, filepath.Clean(p))
}

// badCodes are the statuses of answers that are not to be used, whatever their body is.
var badCodes = []int{201, 202, 203, 204, 205, 206, 226, 300, 302, 304, 305, 400, 401, 402, 403, 404, 405, 406, 408, 409, 410, 412, 413, 415, 418, 421, 422, 425, 429, 431, 451, 500, 501, 502, 503, 504, 505, 507, 508, 509, 511, 520, 521, 522, 524, 530, 599}

var commonBadCodes = []int{403, 404, 429, 500, 502, 503, 504, 204, 206, 304}

func (r *R) BadCode() int {
	if r.P(.5) {
		return pick(r, commonBadCodes)
	}
	return pick(r, badCodes)
}

func (r *R) PickMode(l ...os.FileMode) os.FileMode { return l[r.IntN(len(l))] }
