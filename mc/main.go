package main

import (
	"bytes"
	"encoding/binary"
	"encoding/json"
	"flag"
	"fmt"
	"os"
	"os/exec"
	"path/filepath"
	"runtime"
	"runtime/debug"
	"sort"
	"strconv"
	"strings"
	"sync"
	"sync/atomic"
	"syscall"
	"time"
)

// ---- shared page: which execution each worker is in, readable after a crash ----

const (
	maxWorkers = 8
	slotSize   = 8192
	maxSlotPts = (slotSize - 32) / 2
)

var (
	shm      []byte
	shmMu    [maxWorkers]sync.Mutex
	slotTime [maxWorkers]atomic.Int64
	slotIdx  atomic.Int32
)

func shmOpen(path string) {
	f, err := os.OpenFile(path, os.O_RDWR, 0)
	if err != nil {
		die("shm: %v", err)
	}
	shm, err = syscall.Mmap(int(f.Fd()), 0, slotSize*maxWorkers, syscall.PROT_READ|syscall.PROT_WRITE, syscall.MAP_SHARED)
	if err != nil {
		die("mmap: %v", err)
	}
	f.Close()
}

func shmEnter(w int, h *hrun, prefix []uint16) {
	slotTime[w].Store(time.Now().UnixNano())
	if shm == nil {
		return
	}
	s := shm[w*slotSize:]
	n := len(prefix)
	if n > maxSlotPts {
		n = maxSlotPts
	}
	for i := 0; i < n; i++ {
		binary.LittleEndian.PutUint16(s[32+2*i:], prefix[i])
	}
	binary.LittleEndian.PutUint32(s[4:], uint32(slotIdx.Load()))
	binary.LittleEndian.PutUint32(s[8:], uint32(n))
	binary.LittleEndian.PutUint32(s[0:], 1)
}

func shmLeave(w int) {
	slotTime[w].Store(0)
	if shm != nil {
		binary.LittleEndian.PutUint32(shm[w*slotSize:], 0)
	}
}

const hangLimit = 120 * time.Second

func watchdog() {
	for {
		time.Sleep(2 * time.Second)
		for w := range slotTime {
			if t := slotTime[w].Load(); t != 0 && time.Since(time.Unix(0, t)) > hangLimit {
				fmt.Fprintf(os.Stderr, "watchdog: worker %d stuck for more than %v\n", w, hangLimit)
				// leave only the stuck slot marked
				for o := range slotTime {
					if o != w && shm != nil {
						binary.LittleEndian.PutUint32(shm[o*slotSize:], 0)
					}
				}
				os.Exit(3)
			}
		}
	}
}

// ---- command line ----

var properties []*Property

func register(p *Property) { properties = append(properties, p) }

func findProp(id string) *Property {
	for _, p := range properties {
		if p.ID == id {
			return p
		}
	}
	return nil
}

type finding struct{ prop, key, text string }

func loadKnown(root string) []finding {
	var out []finding
	b, err := os.ReadFile(filepath.Join(root, "known_findings.txt"))
	if err != nil {
		return nil
	}
	for _, l := range strings.Split(string(b), "\n") {
		l = strings.TrimSpace(l)
		// known: property=<id> key=<key> <text>
		if !strings.HasPrefix(l, "known: property=") {
			continue
		}
		f := strings.SplitN(strings.TrimPrefix(l, "known: property="), " ", 3)
		if len(f) == 3 && strings.HasPrefix(f[1], "key=") {
			out = append(out, finding{f[0], strings.TrimPrefix(f[1], "key="), f[2]})
		}
	}
	return out
}

func main() {
	var (
		prop    = flag.String("prop", "", "property id")
		root    = flag.String("root", "/verif", "verif directory")
		child   = flag.String("child", "", "internal: shared page")
		result  = flag.String("result", "", "internal: result file")
		rawH    = flag.Int("raw-harness", -1, "internal: run one choice sequence of this harness")
		rawC    = flag.String("raw-choices", "", "internal")
		replay  = flag.String("replay", "", "replay a violation file")
		only    = flag.String("only", "", "only harnesses whose name contains this")
		verbose = flag.Bool("v", false, "print statistics")
		limit   = flag.Duration("limit", 0, "exploration time limit")
		shard   = flag.Int("shard", 0, "internal: which harnesses")
		shards  = flag.Int("shards", 1, "internal")
		list    = flag.Bool("list", false, "list properties")
	)
	flag.Parse()
	if *list {
		for _, p := range properties {
			for _, h := range p.Harnesses {
				fmt.Println(p.ID, h.Name)
			}
		}
		return
	}
	tier := os.Getenv("VERIF_TIER")
	if tier != "thorough" {
		tier = "quick"
	}
	thorough := tier == "thorough"
	if *replay != "" {
		doReplay(*replay)
		return
	}
	p := findProp(*prop)
	if p == nil {
		die("unknown property %q", *prop)
	}
	if *limit == 0 {
		*limit = 300 * time.Second
		if thorough {
			*limit = 780 * time.Second
		}
	}
	switch {
	case *rawH >= 0:
		setLimits()
		dropPrivileges()
		h := &p.Harnesses[*rawH]
		r := newRun(p, h, thorough, time.Now().Add(time.Hour), nil)
		x, v, _ := r.execute(parseChoices(*rawC), 0, true, true)
		out := map[string]any{"desc": x.describe()}
		if v != nil {
			out["violation"] = v.key + ": " + v.msg
		}
		fmt.Println(string(mustJSON(out)))
	case *child != "":
		runChild(p, *child, *result, *root, thorough, *limit, *only, *shard, *shards)
	default:
		os.Exit(runParent(p, *root, tier, *limit, *only, *verbose))
	}
}

func parseChoices(s string) []uint16 {
	var out []uint16
	for _, f := range strings.Split(s, ",") {
		if f == "" {
			continue
		}
		n, _ := strconv.Atoi(f)
		out = append(out, uint16(n))
	}
	return out
}

// raceBuild is set in builds with the race detector.
var raceBuild = false

func setLimits() {
	debug.SetMemoryLimit(10 << 30)
	if !raceBuild { // the race detector reserves terabytes
		lim := &syscall.Rlimit{Cur: 26 << 30, Max: 26 << 30}
		syscall.Setrlimit(syscall.RLIMIT_AS, lim)
	}
	// no core files
	syscall.Setrlimit(syscall.RLIMIT_CORE, &syscall.Rlimit{})
}

// unprivileged reports that this process cannot write outside its scratch
// directory (world-writable places aside).
var unprivileged = os.Getuid() != 0

const nobody = 65534

// dropPrivileges turns a root process into an unprivileged one, so that code
// under test which escapes its directory reaches nothing that matters.
func dropPrivileges() {
	if unprivileged {
		return
	}
	if syscall.Setgroups(nil) == nil && syscall.Setgid(nobody) == nil && syscall.Setuid(nobody) == nil {
		unprivileged = os.Getuid() == nobody && os.Geteuid() == nobody
	}
}

func runChild(p *Property, shmPath, resPath, root string, thorough bool, limit time.Duration, only string, shard, shards int) {
	setLimits()
	shmOpen(shmPath)
	go watchdog()
	known := map[string]bool{}
	for _, f := range loadKnown(root) {
		if f.prop == p.ID {
			known[f.key] = true
		}
	}
	dropPrivileges()
	end := time.Now().Add(limit)
	var results []*HResult
	n := 0
	mine := make([]bool, len(p.Harnesses))
	k := 0
	for i := range p.Harnesses {
		h := &p.Harnesses[i]
		if (only == "" || strings.Contains(h.Name, only)) && (thorough || !h.ThoroughOnly) {
			mine[i] = k%shards == shard
			k++
			if mine[i] {
				n++
			}
		}
	}
	for i := range p.Harnesses {
		h := &p.Harnesses[i]
		if !mine[i] {
			continue
		}
		// at least an equal share of the remaining time; what is left over goes to later harnesses
		share := max(time.Until(end)/time.Duration(n), time.Until(end)*2/5)
		n--
		if share < time.Second {
			share = time.Second
		}
		slotIdx.Store(int32(i))
		r := runHarness(p, h, thorough, time.Now().Add(share), known)
		results = append(results, r)
		writeResult(resPath, results)
		debug.FreeOSMemory()
		if r.Viol != nil {
			break
		}
	}
	os.Exit(0)
}

func writeResult(path string, rs []*HResult) {
	if err := os.WriteFile(path+".tmp", mustJSON(rs), 0o644); err != nil {
		die("%v", err)
	}
	os.Rename(path+".tmp", path)
}

// runShard runs one child process and reports what it found.
func runShard(self string, p *Property, dir, root, tier string, limit time.Duration, only string, shard, shards int) (results []*HResult, viol *Violation, crashed string) {
	shmPath, resPath := filepath.Join(dir, "shm"), filepath.Join(dir, "res.json")
	if err := os.WriteFile(shmPath, make([]byte, slotSize*maxWorkers), 0o600); err != nil {
		die("%v", err)
	}
	var stderr bytes.Buffer
	cmd := exec.Command(self, "-prop", p.ID, "-root", root, "-child", shmPath, "-result", resPath, "-limit", limit.String(), "-only", only,
		"-shard", strconv.Itoa(shard), "-shards", strconv.Itoa(shards))
	cmd.Stderr = &stderr
	cmd.Stdout = os.Stdout
	cmd.Env = append(os.Environ(), "TMPDIR="+dir, "GOTRACEBACK=single", raceEnv(dir))
	if shards > 1 {
		cmd.Env = append(cmd.Env, "GOMAXPROCS=1")
	}
	cerr := cmd.Run()
	if b, err := os.ReadFile(resPath); err == nil {
		json.Unmarshal(b, &results)
	}
	for _, r := range results {
		if r.Viol != nil {
			viol = r.Viol
		}
	}
	if cerr != nil && viol == nil {
		crashed = "child ended with " + cerr.Error() + ": " + tail(stderr.String(), 2000)
		viol = attribute(self, p, shmPath, root, tier, crashed, dir)
	}
	return
}

// raceEnv makes the race detector report every race, in a file of dir.
func raceEnv(dir string) string {
	return "GORACE=log_path=" + filepath.Join(dir, "race") + " exitcode=0 atexit_sleep_ms=0 suppress_equal_stacks=0 suppress_equal_addresses=0"
}

func runParent(p *Property, root, tier string, limit time.Duration, only string, verbose bool) int {
	t0 := time.Now()
	dir, err := os.MkdirTemp("", "mc-"+p.ID+"-")
	if err != nil {
		die("%v", err)
	}
	defer os.RemoveAll(dir)
	if os.Getuid() == 0 {
		os.Chown(dir, nobody, nobody)
	}
	self, err := os.Executable()
	if err != nil {
		die("%v", err)
	}
	shards := 1
	if p.Parallel {
		shards = min(runtime.NumCPU(), 8)
	}
	var (
		wg      sync.WaitGroup
		mu      sync.Mutex
		results []*HResult
		viol    *Violation
		crashed string
	)
	for i := 0; i < shards; i++ {
		sub := filepath.Join(dir, fmt.Sprint("s", i))
		os.Mkdir(sub, 0o755)
		if os.Getuid() == 0 {
			os.Chown(sub, nobody, nobody)
		}
		wg.Add(1)
		go func() {
			defer wg.Done()
			rs, v, c := runShard(self, p, sub, root, tier, limit, only, i, shards)
			mu.Lock()
			defer mu.Unlock()
			results = append(results, rs...)
			if v != nil && viol == nil {
				viol = v
			}
			if c != "" {
				crashed = c
			}
		}()
	}
	wg.Wait()
	if shards > 1 {
		order := map[string]int{}
		for i := range p.Harnesses {
			order[p.Harnesses[i].Name] = i
		}
		sort.SliceStable(results, func(i, j int) bool { return order[results[i].Harness] < order[results[j].Harness] })
	}
	// failures that could not be repeated in the process they occurred in
	// may need the initial state of the library
	for _, r := range results {
		for _, s := range r.Suspects {
			if viol != nil {
				break
			}
			for hi := range p.Harnesses {
				if p.Harnesses[hi].Name != r.Harness {
					continue
				}
				if bad, _ := runFresh(self, p, hi, s.Choices, root, tier, dir); bad >= 2 {
					s.Repeats = "reproduced in fresh processes"
					viol = s
				}
			}
		}
	}
	// evidence
	var states, trans, execs, outc int64
	exhaustive := crashed == ""
	var samples []any
	known := map[string]string{}
	unconf := 0
	for _, r := range results {
		states += r.States
		trans += r.Transitions
		execs += r.Executions
		outc += int64(r.Outcomes)
		exhaustive = exhaustive && r.Exhaustive
		for i, s := range r.Samples {
			if i < 3 {
				samples = append(samples, map[string]any{"harness": r.Harness, "execution": s})
			}
		}
		r.Samples = nil
		for k, m := range r.Known {
			known[k] = m
		}
		unconf += len(r.Unconfirmed)
	}
	cov := map[string]any{
		"states": states, "transitions": trans, "traces_validated_against_impl": execs,
		"samples": samples, "exhaustive": exhaustive, "rule": p.Rule, "harnesses": results,
	}
	if p.Level == "fault_enumeration" || p.Level == "exploration" {
		delete(cov, "traces_validated_against_impl")
		cov["evaluations"] = execs
		cov["distinct_nontrivial"] = states
	}
	if crashed != "" {
		cov["crash"] = crashed
	}
	if unconf > 0 {
		cov["unconfirmed_failures"] = unconf
	}
	nv := 0
	if viol != nil {
		nv = 1
	}
	seed, _ := strconv.Atoi(os.Getenv("VERIF_SEED"))
	ev := map[string]any{
		"property": p.ID, "tier": tier, "seed": seed, "level": p.Level, "coverage": cov,
		"assumptions": append([]string{}, p.Assumptions...), "wall_s": time.Since(t0).Seconds(), "violations": nv,
	}
	os.MkdirAll(filepath.Join(root, "evidence"), 0o755)
	if err := os.WriteFile(filepath.Join(root, "evidence", p.ID+".json"), append(mustJSON(ev), '\n'), 0o644); err != nil {
		die("%v", err)
	}
	if verbose {
		for _, r := range results {
			fmt.Printf("%s %-28s execs=%d states=%d trans=%d outcomes=%d depth=%d bound=%d/%d exhaustive=%v %.1fs %v\n", p.ID, r.Harness, r.Executions,
				r.States, r.Transitions, r.Outcomes, r.MaxDepth, r.BoundDone, r.Bound, r.Exhaustive, r.Seconds, r.Unconfirmed)
		}
	}
	keys := make([]string, 0)
	for k := range known {
		keys = append(keys, k)
	}
	sort.Strings(keys)
	texts := map[string]string{}
	for _, f := range loadKnown(root) {
		if f.prop == p.ID {
			texts[f.key] = f.text
		}
	}
	for _, k := range keys {
		fmt.Printf("KNOWN-FINDING: property=%s %s (%s)\n", p.ID, texts[k], k)
	}
	if viol != nil {
		rp := filepath.Join(root, "replays", p.ID+".json")
		os.MkdirAll(filepath.Dir(rp), 0o755)
		os.WriteFile(rp, append(mustJSON(viol), '\n'), 0o644)
		fmt.Printf("%s: harness %s: %s\n", p.ID, viol.Harness, viol.Message)
		for _, l := range viol.Labels {
			if verbose {
				fmt.Println("   ", l)
			}
		}
		for _, l := range viol.Trace {
			fmt.Println("   ", l)
		}
		fmt.Printf("VIOLATION property=%s replay=%s\n", p.ID, rp)
		return 1
	}
	fmt.Printf("%s: held on %d executions, %d states, %d transitions (exhaustive within bounds: %v, %.1fs)\n", p.ID, execs, states, trans, exhaustive, time.Since(t0).Seconds())
	if crashed != "" {
		fmt.Printf("%s: note: %s\n", p.ID, crashed)
	}
	return 0
}

func tail(s string, n int) string {
	// keep the head of a Go crash message: it names the error
	if len(s) > n {
		s = s[:n]
	}
	return s
}

// runFresh runs one choice sequence in processes of their own; bad counts the
// runs that failed.
func runFresh(self string, p *Property, hi int, ch []uint16, root, tier, dir string) (bad int, out string) {
	var cs []string
	for _, c := range ch {
		cs = append(cs, strconv.Itoa(int(c)))
	}
	for try := 0; try < 3 && bad < 2; try++ {
		cmd := exec.Command(self, "-prop", p.ID, "-root", root, "-raw-harness", strconv.Itoa(hi), "-raw-choices", strings.Join(cs, ","))
		var buf bytes.Buffer
		cmd.Stderr, cmd.Stdout = &buf, &buf
		cmd.Env = append(os.Environ(), "VERIF_TIER="+tier, "TMPDIR="+dir, "GOTRACEBACK=single", raceEnv(dir))
		if err := cmd.Start(); err != nil {
			return 0, err.Error()
		}
		done := make(chan error, 1)
		go func() { done <- cmd.Wait() }()
		select {
		case err := <-done:
			if err != nil {
				bad++
				out = "process died: " + tail(buf.String(), 1500)
			} else if strings.Contains(buf.String(), `"violation"`) {
				bad++
				out = tail(buf.String(), 1500)
			}
		case <-time.After(hangLimit):
			cmd.Process.Kill()
			<-done
			bad = 2
			out = fmt.Sprintf("no result after %v", hangLimit)
		}
		if bad == 0 && try == 1 {
			break
		}
	}
	return bad, out
}

// attribute replays what each worker was doing when the child died.
func attribute(self string, p *Property, shmPath, root, tier, crash, dir string) *Violation {
	b, err := os.ReadFile(shmPath)
	if err != nil {
		return nil
	}
	for w := 0; w < maxWorkers; w++ {
		s := b[w*slotSize:]
		if binary.LittleEndian.Uint32(s) != 1 {
			continue
		}
		hi := int(binary.LittleEndian.Uint32(s[4:]))
		n := int(binary.LittleEndian.Uint32(s[8:]))
		var ch []uint16
		for i := 0; i < n; i++ {
			ch = append(ch, binary.LittleEndian.Uint16(s[32+2*i:]))
		}
		bad, out := runFresh(self, p, hi, ch, root, tier, dir)
		if bad >= 2 {
			return &Violation{Property: p.ID, Harness: p.Harnesses[hi].Name, Thorough: tier == "thorough", Key: "crash",
				Message: out, Choices: ch, Repeats: "crash reproduced in a fresh process"}
		}
	}
	return nil
}

func doReplay(file string) {
	b, err := os.ReadFile(file)
	if err != nil {
		die("%v", err)
	}
	var v Violation
	if err := json.Unmarshal(b, &v); err != nil {
		die("%v", err)
	}
	p := findProp(v.Property)
	if p == nil {
		die("unknown property %s", v.Property)
	}
	for i := range p.Harnesses {
		if p.Harnesses[i].Name == v.Harness {
			dir, err := os.MkdirTemp("", "mc-replay-")
			if err != nil {
				die("%v", err)
			}
			if os.Getuid() == 0 {
				os.Chown(dir, nobody, nobody)
			}
			os.Setenv("TMPDIR", dir)
			dropPrivileges()
			defer os.RemoveAll(dir)
			r := newRun(p, &p.Harnesses[i], v.Thorough, time.Now().Add(time.Hour), nil)
			for try := 0; try < 20; try++ {
				x, vi, _ := r.execute(v.Choices, 0, true, true)
				if vi != nil {
					for _, pt := range x.pts {
						fmt.Printf("  %s=%d/%d\n", pt.label, pt.c, pt.n)
					}
					for _, t := range x.trace {
						fmt.Println("  ", t)
					}
					fmt.Println(vi.key + ": " + vi.msg)
					fmt.Printf("VIOLATION property=%s replay=%s\n", v.Property, file)
					os.RemoveAll(dir)
					os.Exit(1)
				}
			}
			fmt.Println("replay: property held")
			return
		}
	}
	die("unknown harness %s", v.Harness)
}

var _ = runtime.GC
