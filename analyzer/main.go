package main

// The command line: vt check <property>. It analyses the source in /repo
// (or $REPO), writes the evidence of the property, and exits with 1 if a
// rule is violated or cannot be decided.

import (
	"encoding/json"
	"fmt"
	"os"
	"os/exec"
	"path/filepath"
	"runtime"
	"runtime/debug"
	"sort"
	"strconv"
	"strings"
	"sync"
	"time"
)

// Spec is the check of a property
type Spec struct {
	run  func(c *Check)
	rule string         // what is checked
	min  map[string]int // what has to be found at least
	assm []string
}

var checks = map[string]*Spec{}

func main() {
	debug.SetGCPercent(400)
	debug.SetMemoryLimit(2 << 30)
	if len(os.Args) == 3 && os.Args[1] == "shard" && checks[os.Args[2]] != nil {
		os.Exit(runShard(os.Args[2]))
	}
	if len(os.Args) != 3 || os.Args[1] != "check" || checks[os.Args[2]] == nil {
		fmt.Println("usage: vt check <property>")
		if len(os.Args) > 2 {
			fmt.Printf("VIOLATION property=%s replay=none\n", os.Args[2])
		}
		os.Exit(1)
	}
	os.Exit(runCheck(os.Args[2]))
}

func runCheck(id string) int {
	start := time.Now()
	dir := "/repo"
	if d := os.Getenv("REPO"); d != "" {
		dir = d
	}
	out := "/verif"
	if d := os.Getenv("VERIF_OUT"); d != "" {
		out = d
	}
	spec := checks[id]
	var c *Check
	func() {
		defer func() {
			if r := recover(); r != nil {
				if c == nil {
					c = newCheck(nil, id)
				}
				c.violate(Violation{rule: "undecided", text: fmt.Sprint("the analysis failed: ", r, "\n", string(debug.Stack()))})
			}
		}()
		p, err := load(dir)
		if err != nil {
			c = newCheck(nil, id)
			c.violate(Violation{rule: "undecided", text: err.Error()})
			return
		}
		c = newCheck(p, id)
		if c.only != "" || c.verbose || c.dump {
			spec.run(c)
		} else {
			c.parallel(runtime.NumCPU())
		}
		if c.only == "" {
			cov := c.counts()
			for _, k := range sortedKeys(spec.min) {
				if cov[k] < spec.min[k] {
					c.violate(Violation{rule: "coverage", text: fmt.Sprintf("only %d %s were found, expected at least %d", cov[k], k, spec.min[k])})
				}
			}
		}
	}()
	fmt.Println(id, c.summary())
	sort.SliceStable(c.viol, func(i, j int) bool { return c.viol[i].key() < c.viol[j].key() })
	known := readKnown(filepath.Join(out, "known-findings.txt"))
	var rep strings.Builder
	n := 0
	for _, v := range c.viol {
		line := v.String()
		if k := known.match(id, v); k != "" {
			fmt.Printf("KNOWN-FINDING: property=%s %s\n", id, k)
			continue
		}
		n++
		fmt.Fprintln(&rep, line)
		if n <= 40 {
			fmt.Println(line)
		}
	}
	tier := os.Getenv("VERIF_TIER")
	if tier != "thorough" {
		tier = "quick"
	}
	seed, _ := strconv.Atoi(os.Getenv("VERIF_SEED"))
	cov := map[string]any{}
	for k, v := range c.counts() {
		cov[k] = v
	}
	cov["explanation"] = "Abstract interpretation of the SSA form of the current source (nothing is executed). " + spec.rule
	cov["obligations_by_rule"] = c.obls
	cov["functions_analysed"] = sortedKeys(c.fns)
	cov["samples"] = c.samples
	ev := map[string]any{
		"property": id, "tier": tier, "seed": seed, "level": "other", "coverage": cov,
		"wall_s": time.Since(start).Seconds(), "violations": n,
		"assumptions": append(append([]string{}, commonAssumptions...), spec.assm...),
	}
	os.MkdirAll(filepath.Join(out, "evidence"), 0o755)
	b, _ := json.MarshalIndent(ev, "", " ")
	if err := os.WriteFile(filepath.Join(out, "evidence", id+".json"), append(b, '\n'), 0o644); err != nil {
		fmt.Println(err)
		n++
	}
	replay := filepath.Join(out, "evidence", id+".violations.txt")
	os.Remove(replay)
	if n == 0 {
		fmt.Printf("%s: no violation\n", id)
		return 0
	}
	os.WriteFile(replay, []byte(rep.String()), 0o644)
	fmt.Printf("VIOLATION property=%s replay=%s\n", id, replay)
	return 1
}

// parallel runs the check in several processes, each of which analyses
// some of the scenarios
func (c *Check) parallel(n int) {
	if n > 8 {
		n = 8
	}
	exe, err := os.Executable()
	if err != nil {
		panic(err)
	}
	dir, err := os.MkdirTemp("", "vt-shards-")
	if err != nil {
		panic(err)
	}
	defer os.RemoveAll(dir)
	parts := make([]*Part, n)
	errs := make([]error, n)
	var wg sync.WaitGroup
	for i := 0; i < n; i++ {
		wg.Add(1)
		go func(i int) {
			defer wg.Done()
			cmd := exec.Command(exe, "shard", c.id)
			cmd.Env = append(os.Environ(), "VT_SHARD="+dir)
			var stderr strings.Builder
			cmd.Stderr = &stderr
			b, err := cmd.Output()
			if err == nil {
				parts[i] = &Part{}
				err = json.Unmarshal(b, parts[i])
			}
			if err != nil {
				text := stderr.String()
				if len(text) > 2000 {
					text = text[:2000]
				}
				errs[i] = fmt.Errorf("%v: %s", err, text)
			}
		}(i)
	}
	wg.Wait()
	for i, p := range parts {
		if errs[i] != nil {
			c.violate(Violation{rule: "undecided", sc: fmt.Sprint(i), text: "the analysis failed: " + errs[i].Error()})
			continue
		}
		c.add(p)
	}
}

// runShard analyses some of the scenarios
func runShard(id string) int {
	dir := "/repo"
	if d := os.Getenv("REPO"); d != "" {
		dir = d
	}
	p, err := load(dir)
	if err != nil {
		fmt.Fprintln(os.Stderr, err)
		return 1
	}
	c := newCheck(p, id)
	if c.shardDir = os.Getenv("VT_SHARD"); c.shardDir == "" {
		fmt.Fprintln(os.Stderr, "no shard")
		return 1
	}
	checks[id].run(c)
	b, err := json.Marshal(c.part())
	if err != nil {
		fmt.Fprintln(os.Stderr, err)
		return 1
	}
	os.Stdout.Write(b)
	return 0
}

var commonAssumptions = []string{
	"the document is finite, acyclic and behind a conforming DocModel whose answers do not change during a call",
	"the generated parser gives the parse trees of the grammar in Jsonpath.g4 (their shapes were confirmed by reading the grammar); its code is modelled, not analysed",
	"the models of the standard library functions that are called (strconv, strings, fmt, errors, math, utf8)",
	"an append that may exceed the capacity of a slice is analysed as if it wrote in place",
	"memory is not exhausted",
}

// known findings: lines "KNOWN-FINDING: property=<id> key=<key> <text>"
type knownFindings []knownFinding
type knownFinding struct{ id, key, text string }

func readKnown(file string) (k knownFindings) {
	b, err := os.ReadFile(file)
	if err != nil {
		return nil
	}
	for _, l := range strings.Split(string(b), "\n") {
		f := strings.SplitN(l, " ", 4)
		if len(f) == 4 && f[0] == "KNOWN-FINDING:" {
			k = append(k, knownFinding{strings.TrimPrefix(f[1], "property="), strings.TrimPrefix(f[2], "key="), f[3]})
		}
	}
	return
}

func (k knownFindings) match(id string, v Violation) string {
	for _, x := range k {
		if x.id == id && x.key == strings.ReplaceAll(v.key(), " ", "_") {
			return x.text
		}
	}
	return ""
}

func (v Violation) String() string {
	return fmt.Sprintf("%s: [%s] in %s, analysing %s: %s", v.pos, v.rule, v.fn, v.sc, v.text)
}
