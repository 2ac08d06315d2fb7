package main

import (
	"encoding/gob"
	"encoding/json"
	"flag"
	"fmt"
	"os"
	"os/exec"
	"path/filepath"
	"regexp"
	"runtime/debug"
	"sort"
	"strconv"
	"strings"
	"sync/atomic"
	"syscall"
	"time"
	"unsafe"
)

var realStderr = os.Stderr
var realStdout = os.Stdout

// keepStderr keeps the file of descriptor 2 alive: its finalizer would close
// the descriptor, and the next file opened would receive what the code prints.
var keepStderr = os.Stderr

// ---------------------------------------------------------- worker progress

var prog *[4]uint64 // seq, family, case, unused: shared with the supervisor

func progressInit(path string) {
	f, err := os.OpenFile(path, os.O_RDWR|os.O_CREATE, 0o600)
	if err != nil {
		panic(err)
	}
	if err = f.Truncate(32); err != nil {
		panic(err)
	}
	b, err := syscall.Mmap(int(f.Fd()), 0, 32, syscall.PROT_READ|syscall.PROT_WRITE, syscall.MAP_SHARED)
	if err != nil {
		panic(err)
	}
	prog = (*[4]uint64)(unsafe.Pointer(&b[0]))
}

func progressTick() {
	if prog != nil {
		atomic.AddUint64(&prog[0], 1)
	}
}

func progressCase(fam, idx int) {
	prog[1], prog[2] = uint64(fam), uint64(idx)
	prog[0]++
}

// quiet sends everything the code under test prints to /dev/null.
func quiet(crash string) {
	dn, err := os.OpenFile("/dev/null", os.O_WRONLY, 0)
	if err != nil {
		panic(err)
	}
	fd, err := syscall.Dup(2)
	if err != nil {
		panic(err)
	}
	realStderr = os.NewFile(uintptr(fd), "stderr")
	os.Stdout = dn
	os.Stderr = dn
	if err = syscall.Dup2(int(dn.Fd()), 2); err != nil {
		panic(err)
	}
	if crash != "" {
		if cf, err := os.Create(crash); err == nil {
			_ = debug.SetCrashOutput(cf, debug.CrashOptions{})
		}
	}
}

func runWorker(p *Prop, tier string, seed int64, shard, shards int, race bool, out string) {
	quiet(out + ".crash")
	progressInit(out + ".prog")
	st := newStats()
	for fi, f := range p.Families {
		if scale < 1 && len(st.Viol) > 0 && st.Viol[0].Key == "" {
			break
		}
		n := min(3*f.Quick, max(f.Quick, f.Thorough))
		if race {
			n = f.RaceQ
		}
		if f.Solo && !race {
			n = f.Quick
		}
		if tier == "thorough" {
			if race {
				n = f.RaceT
			} else {
				n = f.Thorough
			}
		}
		if f.Solo && shard != 0 {
			continue
		}
		if n > 0 && scale < 1 {
			n = max(1, int(float64(n)*scale))
		}
		bad := 0
		for i := 0; i < n; i++ {
			if !f.Solo && i%shards != shard {
				continue
			}
			progressCase(fi, i)
			st.Cases++
			st.PerFamily[f.Name]++
			if rec := runCase(p, f, i, seed, tier, race, st, false); rec != nil {
				bad++
				if len(st.Viol) < 40 {
					// run it again with the trace on, for the replay file
					s2 := newStats()
					if r2 := runCase(p, f, i, seed, tier, race, s2, true); r2 != nil {
						rec.Trace = r2.Trace
					} else {
						rec.Msg += " (schedule dependent: did not recur on re-run)"
					}
					st.Viol = append(st.Viol, *rec)
				}
				if bad >= 25 || scale < 1 {
					break
				}
			}
		}
	}
	fh, err := os.Create(out)
	if err != nil {
		panic(err)
	}
	if err = gob.NewEncoder(fh).Encode(st); err != nil {
		panic(err)
	}
	fh.Close()
}

// --------------------------------------------------------------- supervisor

var (
	scale        = 1.0
	plainWorkers = 7
)

type worker struct {
	cmd              *exec.Cmd
	out              string
	race             bool
	done             chan error
	lastSeq          uint64
	cpuAt            float64
	wallAt           time.Time
	sawRun           bool
	verdict          string // violation found by the supervisor
	inconcl          string
	finished, killed bool
	err              error
}

func procCPU(pid int) (cpu float64, rss int64, ok bool) {
	b, err := os.ReadFile(fmt.Sprintf("/proc/%d/stat", pid))
	if err != nil {
		return
	}
	s := string(b)
	f := strings.Fields(s[strings.LastIndexByte(s, ')')+2:])
	u, _ := strconv.ParseFloat(f[11], 64)
	k, _ := strconv.ParseFloat(f[12], 64)
	r, _ := strconv.ParseInt(f[21], 10, 64)
	return (u + k) / 100, r * int64(os.Getpagesize()), true
}

func anyThreadRunning(pid int) bool {
	ts, err := filepath.Glob(fmt.Sprintf("/proc/%d/task/*/stat", pid))
	if err != nil {
		return true
	}
	for _, t := range ts {
		b, err := os.ReadFile(t)
		if err != nil {
			continue
		}
		s := string(b)
		st := s[strings.LastIndexByte(s, ')')+2]
		if st == 'R' || st == 'D' {
			return true
		}
	}
	return false
}

const (
	hangCPU   = 90.0    // CPU seconds one case may use without a sign of progress (normal: milliseconds)
	deadWall  = 150     // seconds without progress and without any runnable thread
	rssLimit  = 6 << 30 // resident memory of one worker (normal: below 0.6 GB)
	totalWall = 840     // watchdog of the whole quick check: inconclusive
)

func readSeq(path string) (seq, fam, idx uint64) {
	b, err := os.ReadFile(path)
	if err != nil || len(b) < 24 {
		return
	}
	p := (*[3]uint64)(unsafe.Pointer(&b[0]))
	return p[0], p[1], p[2]
}

func startWorker(bin, id, tier string, seed int64, shard, shards int, race bool, dir string) *worker {
	w := &worker{race: race, out: filepath.Join(dir, fmt.Sprintf("w%d-%v", shard, race)), done: make(chan error, 1), wallAt: time.Now()}
	args := []string{"-worker", "-prop", id, "-tier", tier, "-seed", fmt.Sprint(seed), "-shard", fmt.Sprint(shard), "-shards", fmt.Sprint(shards), "-scale", fmt.Sprint(scale), "-out", w.out}
	if race {
		args = append(args, "-race")
	}
	w.cmd = exec.Command(bin, args...)
	w.cmd.Stdout, w.cmd.Stderr = os.Stderr, os.Stderr
	env := append(os.Environ(), "GOTRACEBACK=all")
	if race {
		env = append(env, "GORACE=halt_on_error=0 exitcode=0 history_size=3 log_path="+filepath.Join(dir, "race"))
	} else {
		env = append(env, "GOCOVERDIR="+filepath.Join(dir, "cov"), "GOMAXPROCS=4")
	}
	env = append(env, "VERIF_SCRATCH="+filepath.Join(dir, "scratch"))
	w.cmd.Env = env
	w.cmd.SysProcAttr = &syscall.SysProcAttr{Setpgid: true, Pdeathsig: syscall.SIGKILL}
	if err := w.cmd.Start(); err != nil {
		fmt.Fprintln(os.Stderr, "cannot start worker:", err)
		os.Exit(2)
	}
	go func() { w.done <- w.cmd.Wait() }()
	return w
}

func (w *worker) kill() {
	w.killed = true
	_ = syscall.Kill(-w.cmd.Process.Pid, syscall.SIGKILL)
}

func watch(ws []*worker, deadline time.Time) (timedOut bool) {
	for {
		all := true
		for _, w := range ws {
			if w.finished {
				continue
			}
			select {
			case w.err = <-w.done:
				w.finished = true
				continue
			default:
			}
			all = false
			if w.killed {
				continue
			}
			pid := w.cmd.Process.Pid
			seq, _, _ := readSeq(w.out + ".prog")
			cpu, rss, ok := procCPU(pid)
			if !ok {
				continue
			}
			if seq != w.lastSeq || w.lastSeq == 0 {
				w.lastSeq, w.cpuAt, w.wallAt, w.sawRun = seq, cpu, time.Now(), false
			} else {
				if anyThreadRunning(pid) {
					w.sawRun = true
					if cpu-w.cpuAt < 1 && time.Since(w.wallAt) > 60*time.Second {
						w.wallAt, w.sawRun = time.Now(), false
					}
				}
				if cpu-w.cpuAt > hangCPU {
					w.verdict = fmt.Sprintf("no progress: the case used more than %.0f s of CPU without finishing (non-terminating call)", hangCPU)
					w.kill()
				} else if !w.sawRun && time.Since(w.wallAt) > deadWall*time.Second {
					w.verdict = fmt.Sprintf("deadlock: every thread of the process asleep for more than %d s inside one case", deadWall)
					w.kill()
				}
			}
			if rss > rssLimit {
				w.verdict = fmt.Sprintf("unbounded memory: resident set grew to %d MB inside one case", rss>>20)
				w.kill()
			}
		}
		if all {
			return false
		}
		if time.Now().After(deadline) {
			for _, w := range ws {
				if !w.finished {
					w.kill()
					w.inconcl = "watchdog"
				}
			}
			return true
		}
		time.Sleep(40 * time.Millisecond)
	}
}

type known struct{ prop, key, text string }

func loadKnown(path string) (ks []known) {
	b, err := os.ReadFile(path)
	if err != nil {
		return nil
	}
	re := regexp.MustCompile(`^known: property=(\S+) key=(\S+) (.*)$`)
	for _, l := range strings.Split(string(b), "\n") {
		if m := re.FindStringSubmatch(strings.TrimSpace(l)); m != nil {
			ks = append(ks, known{m[1], m[2], m[3]})
		}
	}
	return
}

func parseRace(dir string) (reports []string, foreign int) {
	fs, _ := filepath.Glob(filepath.Join(dir, "race.*"))
	seen := map[string]bool{}
	for _, f := range fs {
		b, _ := os.ReadFile(f)
		for _, blk := range strings.Split(string(b), "==================") {
			if !strings.Contains(blk, "WARNING: DATA RACE") {
				continue
			}
			if !strings.Contains(blk, "github.com/lkmio/avformat") {
				foreign++
				continue
			}
			var fr []string
			for _, l := range strings.Split(blk, "\n") {
				l = strings.TrimSpace(l)
				if strings.HasPrefix(l, "github.com/lkmio/avformat") {
					fr = append(fr, l)
				}
			}
			k := strings.Join(fr, "|")
			if !seen[k] {
				seen[k] = true
				reports = append(reports, strings.TrimSpace(blk))
			}
		}
	}
	return
}

func supervise(p *Prop, tier string, seed int64, bin, racebin, verif, dir string) int {
	t0 := time.Now()
	limit := totalWall
	if tier == "thorough" {
		limit = 6 * 3600
	}
	deadline := t0.Add(time.Duration(limit) * time.Second)
	_ = os.MkdirAll(filepath.Join(dir, "cov"), 0o755)
	_ = os.MkdirAll(filepath.Join(dir, "scratch"), 0o777)
	evdir := filepath.Join(verif, "evidence")
	_ = os.MkdirAll(filepath.Join(evdir, "replay"), 0o755)
	old, _ := filepath.Glob(filepath.Join(evdir, "replay", p.ID+"-*"))
	for _, o := range old {
		_ = os.Remove(o)
	}

	var ws, rs []*worker
	plain, raced := 0, 0
	for _, f := range p.Families {
		plain += f.Quick + f.Thorough
		raced += f.RaceQ + f.RaceT
	}
	if plain > 0 {
		for i := 0; i < plainWorkers; i++ {
			ws = append(ws, startWorker(bin, p.ID, tier, seed, i, plainWorkers, false, dir))
		}
	}
	timedOut := watch(ws, deadline)
	if raced > 0 && !timedOut {
		for i := 0; i < 2; i++ {
			rs = append(rs, startWorker(racebin, p.ID, tier, seed, i, 2, true, dir))
		}
		timedOut = watch(rs, deadline)
	}

	total := newStats()
	var viol []VRec
	inconclusive := ""
	if timedOut {
		inconclusive = "the watchdog ended the run"
	}
	for _, w := range append(ws, rs...) {
		_, fam, idx := readSeq(w.out + ".prog")
		famName := "?"
		if int(fam) < len(p.Families) {
			famName = p.Families[fam].Name
		}
		if w.verdict != "" {
			viol = append(viol, VRec{Family: famName, Index: int(idx), Key: "progress", Msg: w.verdict, Race: w.race})
		} else if w.err != nil && w.inconcl == "" {
			code := w.cmd.ProcessState.ExitCode()
			crash, _ := os.ReadFile(w.out + ".crash")
			if code == 3 || code == -1 {
				// harness error, or ended by a signal that is not ours (out of memory killer, ...)
				inconclusive = fmt.Sprintf("worker ended with %v in %s/%d", w.err, famName, idx)
			} else {
				msg := "the process died: " + firstLines(string(crash), 3) + "; " + repoFrames(string(crash))
				viol = append(viol, VRec{Family: famName, Index: int(idx), Key: "crash", Msg: msg, Race: w.race})
			}
		}
		fh, err := os.Open(w.out)
		if err != nil {
			continue
		}
		st := newStats()
		if err = gob.NewDecoder(fh).Decode(st); err != nil {
			inconclusive = "unreadable worker result"
		}
		fh.Close()
		total.Cases += st.Cases
		total.Evals += st.Evals
		for k, v := range st.Events {
			total.Events[k] += v
		}
		for k, v := range st.PerFamily {
			n := k
			if w.race {
				n += "(race)"
			}
			total.PerFamily[n] += v
		}
		for h := range st.Set {
			total.Set[h] = struct{}{}
		}
		total.SetCapped = total.SetCapped || st.SetCapped
		if len(total.Samples) < 6 {
			total.Samples = append(total.Samples, st.Samples...)
		}
		viol = append(viol, st.Viol...)
	}
	races, foreign := parseRace(dir)
	for _, r := range races {
		viol = append(viol, VRec{Family: "race-detector", Key: "race", Msg: "data race in the code under test", Trace: strings.Split(r, "\n"), Race: true})
	}
	if foreign > 0 {
		inconclusive = "a data race inside the harness itself"
	}

	// known findings
	ks := loadKnown(filepath.Join(verif, "known_findings.txt"))
	var fresh []VRec
	hit := map[string]string{}
	for _, v := range viol {
		matched := false
		for _, k := range ks {
			if k.prop == p.ID && k.key == v.Key && v.Key != "" {
				hit[k.key] = k.text
				matched = true
			}
		}
		if !matched {
			fresh = append(fresh, v)
		}
	}
	for _, k := range sortedKeys(hit) {
		fmt.Printf("KNOWN-FINDING: property=%s %s\n", p.ID, hit[k])
	}

	if inconclusive == "" && len(fresh) == 0 {
		for _, n := range p.Need {
			if total.Events[n] == 0 {
				inconclusive = "the run never observed an event of kind " + n
			}
		}
	}

	// evidence
	cov := coverage(filepath.Join(dir, "cov"))
	samples := total.Samples
	if len(samples) > 6 {
		samples = samples[:6]
	}
	if samples == nil {
		samples = []string{}
	}
	coverageMap := map[string]any{
		"evaluations":         total.Cases + total.Evals,
		"distinct_nontrivial": len(total.Set),
		"rule":                p.Rule,
		"samples":             samples,
		"cases":               total.Cases,
		"events":              total.Events,
		"cases_per_workload":  total.PerFamily,
		"known_findings_hit":  len(hit),
	}
	if total.SetCapped {
		coverageMap["distinct_note"] = "distinct signatures are counted up to a cap per worker; the true number is larger"
	}
	if cov != nil {
		coverageMap["repo_statement_coverage_percent"] = cov
	}
	if raced > 0 {
		coverageMap["race_reports"] = len(races)
	}
	level := "exploration"
	asm := p.Assumptions
	if asm == nil {
		asm = []string{}
	}
	ev := map[string]any{"property": p.ID, "tier": tier, "seed": seed, "level": level, "coverage": coverageMap,
		"assumptions": append(asm, "holds on the executions observed; says nothing about executions the workloads do not produce"),
		"wall_s":      time.Since(t0).Seconds(), "violations": len(fresh)}
	b, _ := json.MarshalIndent(ev, "", " ")
	if err := os.WriteFile(filepath.Join(evdir, p.ID+".json"), b, 0o644); err != nil {
		fmt.Fprintln(os.Stderr, err)
		return 2
	}

	if len(fresh) > 0 {
		for i, v := range fresh {
			if i >= 8 {
				fmt.Printf("... and %d more\n", len(fresh)-i)
				break
			}
			path := filepath.Join(evdir, "replay", fmt.Sprintf("%s-%d.json", p.ID, i))
			rb, _ := json.MarshalIndent(map[string]any{"property": p.ID, "tier": tier, "seed": seed, "family": v.Family, "index": v.Index, "race": v.Race, "key": v.Key, "message": v.Msg, "trace": v.Trace}, "", " ")
			_ = os.WriteFile(path, rb, 0o644)
			msg := v.Msg
			if len(msg) > 700 {
				msg = msg[:700] + "..."
			}
			fmt.Printf("%s/%s/%d: %s\n", p.ID, v.Family, v.Index, strings.ReplaceAll(msg, "\n", " "))
			fmt.Printf("VIOLATION property=%s replay=%s\n", p.ID, path)
		}
		return 1
	}
	if inconclusive != "" {
		fmt.Printf("INCONCLUSIVE property=%s: %s\n", p.ID, inconclusive)
		return 2
	}
	fmt.Printf("HELD property=%s on %d executions (%d distinct), events %v, %.1f s\n", p.ID, total.Cases+total.Evals, len(total.Set), total.Events, time.Since(t0).Seconds())
	return 0
}

func firstLines(s string, n int) string {
	ls := strings.Split(s, "\n")
	if len(ls) > n {
		ls = ls[:n]
	}
	return strings.Join(ls, " | ")
}

func sortedKeys(m map[string]string) (ks []string) {
	for k := range m {
		ks = append(ks, k)
	}
	sort.Strings(ks)
	return
}

func coverage(dir string) map[string]float64 {
	o, err := exec.Command("go", "tool", "covdata", "percent", "-i="+dir).Output()
	if err != nil {
		return nil
	}
	res := map[string]float64{}
	re := regexp.MustCompile(`(github.com/lkmio/avformat\S*)\s+coverage: ([\d.]+)%`)
	for _, m := range re.FindAllStringSubmatch(string(o), -1) {
		res[m[1]], _ = strconv.ParseFloat(m[2], 64)
	}
	return res
}

func main() {
	prop := flag.String("prop", "", "property id")
	tier := flag.String("tier", "quick", "quick or thorough")
	seed := flag.Int64("seed", 1, "seed")
	isWorker := flag.Bool("worker", false, "")
	shard := flag.Int("shard", 0, "")
	shards := flag.Int("shards", 1, "")
	race := flag.Bool("race", false, "")
	out := flag.String("out", "", "")
	bin := flag.String("bin", "", "")
	racebin := flag.String("racebin", "", "")
	verif := flag.String("verif", "/verif", "")
	dir := flag.String("dir", "", "scratch directory")
	replay := flag.String("replay", "", "replay file")
	needrace := flag.String("needrace", "", "exit 0 if the property has race-build workloads")
	flag.Float64Var(&scale, "scale", 1, "fraction of the workload (mutation runs only)")
	flag.IntVar(&plainWorkers, "workers", plainWorkers, "worker processes")
	list := flag.Bool("list", false, "")
	flag.Parse()
	switch {
	case *list:
		for _, id := range propIDs() {
			fmt.Println(id)
		}
		return
	case *needrace != "":
		p := props[*needrace]
		if p == nil {
			os.Exit(1)
		}
		for _, f := range p.Families {
			if f.RaceQ+f.RaceT > 0 {
				return
			}
		}
		os.Exit(1)
	case *replay != "":
		os.Exit(doReplay(*replay))
	}
	p := props[*prop]
	if p == nil {
		fmt.Fprintln(os.Stderr, "unknown property", *prop)
		os.Exit(2)
	}
	if *isWorker {
		runWorker(p, *tier, *seed, *shard, *shards, *race, *out)
		return
	}
	os.Exit(supervise(p, *tier, *seed, *bin, *racebin, *verif, *dir))
}

func doReplay(path string) int {
	b, err := os.ReadFile(path)
	if err != nil {
		fmt.Fprintln(os.Stderr, err)
		return 2
	}
	var r struct {
		Property, Tier, Family string
		Seed                   int64
		Index                  int
		Race                   bool
	}
	if err = json.Unmarshal(b, &r); err != nil {
		fmt.Fprintln(os.Stderr, err)
		return 2
	}
	p := props[r.Property]
	for _, f := range p.Families {
		if f.Name == r.Family {
			dn, _ := os.OpenFile("/dev/null", os.O_WRONLY, 0)
			so := os.Stdout
			os.Stdout = dn
			rec := runCase(p, f, r.Index, r.Seed, r.Tier, r.Race, newStats(), true)
			os.Stdout = so
			if rec == nil {
				fmt.Println("the case passes")
				return 0
			}
			for _, t := range rec.Trace {
				fmt.Println(t)
			}
			fmt.Println("VIOLATED:", rec.Msg)
			return 1
		}
	}
	fmt.Println("no such workload (race reports are replayed by running the check again)")
	return 2
}
