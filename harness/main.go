// Command monitor runs the real code of the repository under generated, hostile
// and concurrent workloads, and judges what it observes against the models in spec.
//
//	monitor -prop C01 [-seed 1] [-tier quick|thorough] -verif /verif
//
// It runs the workload in a child process, so that a crash of the code under test is an
// observation like any other.
package main

import (
	"bufio"
	"encoding/json"
	"flag"
	"fmt"
	"io"
	"log"
	"os"
	"os/exec"
	"path/filepath"
	"regexp"
	"runtime"
	"runtime/debug"
	"sort"
	"strings"
	"syscall"
	"time"
)

type property struct {
	level       string
	rule        string
	assumptions []string
	run         func(r *R)
	race        bool // race reports decide this property
}

var props = map[string]*property{}

const repoFrame = "continusec/verifiabledatastructures/"

// frames of the repository, in a Go stack
var repoFrameRE = regexp.MustCompile(`(?m)^\s*github\.com/continusec/verifiabledatastructures/|/repo/[a-z]+/`)

func main() {
	prop := flag.String("prop", "", "property")
	seed := flag.Int64("seed", 1, "seed")
	tier := flag.String("tier", "quick", "tier")
	verif := flag.String("verif", "/verif", "verif dir")
	child := flag.Bool("child", false, "internal")
	out := flag.String("out", "", "internal")
	scratch := flag.String("scratch", "", "internal")
	helper := flag.String("helper", "", "internal: subprocess role")
	harg := flag.String("harg", "", "internal: subprocess argument")
	flag.Parse()

	if *helper != "" {
		runHelper(*helper, *harg)
		return
	}
	p := props[*prop]
	if p == nil {
		fmt.Println("no such property", *prop)
		os.Exit(4)
	}
	if *child {
		runChild(p, *prop, *seed, *tier, *out, *scratch)
		return
	}
	os.Exit(runParent(p, *prop, *seed, *tier, *verif))
}

type result struct {
	Done         bool
	Inconclusive string
	Evals        map[string]int64
	Distinct     int64
	Samples      []string
	Violations   []string
	Notes        []string
	Extra        map[string]interface{}
}

func runParent(p *property, id string, seed int64, tier, verif string) int {
	start := time.Now()
	scratch, err := os.MkdirTemp("", "vmon-"+id+"-")
	if err != nil {
		fmt.Println("cannot make scratch dir:", err)
		return 4
	}
	defer os.RemoveAll(scratch)
	out := filepath.Join(scratch, "result.json")
	self, _ := os.Executable()
	cmd := exec.Command(self, "-child", "-prop", id, "-seed", fmt.Sprint(seed), "-tier", tier, "-out", out, "-scratch", scratch, "-verif", verif)
	raceLog := filepath.Join(scratch, "race")
	cmd.Env = append(os.Environ(), "GORACE=halt_on_error=0 history_size=4 exitcode=0 log_path="+raceLog, "TMPDIR="+scratch, "GOTRACEBACK=all")
	errPath := filepath.Join(scratch, "stderr")
	ef, err := os.Create(errPath)
	if err != nil {
		fmt.Println(err)
		return 4
	}
	cmd.Stderr = ef
	cmd.Stdout = ef
	cmd.SysProcAttr = &syscall.SysProcAttr{Setpgid: true}
	if err = cmd.Start(); err != nil {
		fmt.Println(err)
		return 4
	}
	limit := 780 * time.Second
	if tier == "thorough" {
		limit = 3 * time.Hour
	}
	timer := time.AfterFunc(limit, func() { syscall.Kill(cmd.Process.Pid, syscall.SIGQUIT) })
	werr := cmd.Wait()
	timedOut := !timer.Stop()
	syscall.Kill(-cmd.Process.Pid, syscall.SIGKILL)
	ef.Close()

	res := result{}
	if b, err := os.ReadFile(out); err == nil {
		json.Unmarshal(b, &res)
	}
	stderr, _ := os.ReadFile(errPath)

	if !res.Done && res.Inconclusive == "" {
		switch {
		case timedOut:
			res.Inconclusive = "time limit reached"
		default:
			why, mine := classifyDeath(werr, string(stderr))
			if mine {
				res.Inconclusive = "the harness died: " + why
			} else {
				res.Violations = append(res.Violations, "the process running the code under test died: "+why)
			}
		}
	}
	races := collectRaces(raceLog)
	if p.race {
		for _, rc := range races {
			res.Violations = append(res.Violations, "data race: "+rc)
		}
	}

	// evidence
	kinds := make([]string, 0, len(res.Evals))
	var total int64
	for k, v := range res.Evals {
		kinds = append(kinds, k)
		total += v
	}
	sort.Strings(kinds)
	cov := map[string]interface{}{
		"evaluations":         total,
		"distinct_nontrivial": res.Distinct,
		"rule":                p.rule,
		"samples":             res.Samples,
		"observed":            res.Evals,
	}
	if len(res.Notes) > 0 {
		cov["notes"] = res.Notes
	}
	for k, v := range res.Extra {
		cov[k] = v
	}
	if p.race {
		cov["race_reports"] = len(races)
	}
	ev := map[string]interface{}{
		"property":    id,
		"tier":        tier,
		"seed":        seed,
		"level":       p.level,
		"coverage":    cov,
		"assumptions": p.assumptions,
		"wall_s":      time.Since(start).Seconds(),
		"violations":  len(res.Violations),
	}
	b, _ := json.MarshalIndent(ev, "", " ")
	os.MkdirAll(filepath.Join(verif, "evidence"), 0755)
	if err := os.WriteFile(filepath.Join(verif, "evidence", id+".json"), append(b, '\n'), 0644); err != nil {
		fmt.Println("cannot write evidence:", err)
		return 4
	}

	if len(res.Violations) > 0 {
		replay := filepath.Join(verif, "evidence", id+".replay.txt")
		f, err := os.Create(replay)
		if err == nil {
			w := bufio.NewWriter(f)
			fmt.Fprintf(w, "property %s seed %d tier %s\nreplay: cd %s && VERIF_SEED=%d VERIF_TIER=%s ./check.sh %s\n\n", id, seed, tier, verif, seed, tier, id)
			for _, v := range res.Violations {
				fmt.Fprintf(w, "VIOLATION: %s\n\n", v)
			}
			w.Flush()
			if !res.Done {
				f.WriteString("--- output of the process ---\n")
				f.Write(tail(stderr, 200000))
			}
			f.Close()
		}
		for i, v := range res.Violations {
			if i == 5 {
				fmt.Printf("  ... and %d more\n", len(res.Violations)-5)
				break
			}
			fmt.Println("  " + trunc(v, 1500))
		}
		fmt.Printf("VIOLATION property=%s replay=%s\n", id, replay)
		return 1
	}
	if res.Inconclusive != "" {
		fmt.Printf("INCONCLUSIVE property=%s: %s\n", id, res.Inconclusive)
		os.Stdout.Write(tail(stderr, 6000))
		return 3
	}
	if total == 0 {
		fmt.Printf("INCONCLUSIVE property=%s: nothing was observed\n", id)
		return 3
	}
	fmt.Printf("OK property=%s: %d observations, %d distinct, %.1fs", id, total, res.Distinct, time.Since(start).Seconds())
	for _, k := range kinds {
		fmt.Printf(" %s=%d", k, res.Evals[k])
	}
	fmt.Println()
	return 0
}

func tail(b []byte, n int) []byte {
	if len(b) > n {
		return b[len(b)-n:]
	}
	return b
}

func trunc(s string, n int) string {
	if len(s) > n {
		return s[:n] + "..."
	}
	return s
}

// classifyDeath works out what a process that ended without a result died of, and whether that's the harness' own doing.
func classifyDeath(werr error, stderr string) (string, bool) {
	i := -1
	for _, mark := range []string{"\npanic: ", "\nfatal error: ", "panic: ", "fatal error: "} {
		if i = strings.Index(stderr, mark); i >= 0 {
			break
		}
	}
	if i >= 0 {
		txt := stderr[i:]
		// the first goroutine listed is the one that failed
		j := strings.Index(txt, "\ngoroutine ")
		k := len(txt)
		if j >= 0 {
			if e := strings.Index(txt[j+1:], "\n\n"); e >= 0 {
				k = j + 1 + e
			}
		}
		first := trunc(txt[:k], 4000)
		if panicInRepo(txt[:k]) {
			return first, false
		}
		if strings.HasPrefix(strings.TrimSpace(txt), "fatal error: all goroutines are asleep") && strings.Contains(txt, repoFrame) {
			return first, false
		}
		return first, true
	}
	// an orderly exit that isn't ours can only be the repository's log.Fatal
	if ee, ok := werr.(*exec.ExitError); ok && ee.ExitCode() == 1 {
		return "log.Fatal: " + string(tail([]byte(stderr), 1000)), false
	}
	return fmt.Sprintf("%v: %s", werr, tail([]byte(stderr), 2000)), true
}

func collectRaces(prefix string) []string {
	files, _ := filepath.Glob(prefix + ".*")
	seen := map[string]bool{}
	var rv []string
	for _, f := range files {
		b, err := os.ReadFile(f)
		if err != nil {
			continue
		}
		for _, blk := range strings.Split(string(b), "==================") {
			if !strings.Contains(blk, "DATA RACE") || !repoFrameRE.MatchString(blk) {
				continue
			}
			key := raceKey(blk)
			if !seen[key] {
				seen[key] = true
				rv = append(rv, strings.TrimSpace(blk))
			}
		}
	}
	return rv
}

var raceFn = regexp.MustCompile(`(?m)^  ([^\s].*)\(\)$`)

func raceKey(blk string) string {
	var fns []string
	for _, m := range raceFn.FindAllStringSubmatch(blk, -1) {
		fns = append(fns, m[1])
	}
	return strings.Join(fns, "|")
}

func runChild(p *property, id string, seed int64, tier, out, scratch string) {
	// keep the repository's own chatter out of the way
	log.SetOutput(io.MultiWriter(os.Stderr))
	debug.SetMemoryLimit(4 << 30) // Badger's tables make a lot of garbage
	r := newR(id, seed, tier, scratch)
	go r.watchdog(out)
	func() {
		defer func() {
			if e := recover(); e != nil {
				buf := make([]byte, 1<<16)
				buf = buf[:runtime.Stack(buf, false)]
				if e == errStop {
					return
				}
				if panicInRepo(string(buf)) {
					r.Failf("panic in the code under test: %v\n%s", e, trunc(string(buf), 5000))
				} else {
					r.inconclusive = fmt.Sprintf("harness panic: %v\n%s", e, buf)
				}
			}
		}()
		p.run(r)
	}()
	r.write(out)
	os.Exit(0)
}

// panicInRepo says whether the innermost frames that aren't the runtime's, up to the first of the harness, are of the repository.
func panicInRepo(stack string) bool {
	// skip up to the panic call
	i := strings.LastIndex(stack, "\npanic(")
	if i >= 0 {
		stack = stack[i:]
	}
	for _, l := range strings.Split(stack, "\n") {
		if strings.HasPrefix(l, "\t") || l == "" {
			continue
		}
		if strings.Contains(l, repoFrame) {
			return true
		}
		if strings.HasPrefix(l, "main.") {
			return false
		}
	}
	return false
}
