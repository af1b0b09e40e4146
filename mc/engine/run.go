package engine

import (
	"encoding/json"
	"fmt"
	"os"
	"os/exec"
	"path/filepath"
	"runtime"
	"runtime/debug"
	"sort"
	"strconv"
	"strings"
	"sync"
	"sync/atomic"
	"syscall"
	"time"
)

// Scenario is one closed driver with its bound.
type Scenario struct {
	Name       string
	Bound      string // alphabet and bound, in words (goes to the evidence)
	Run        func(c *Ctx)
	ShardDepth int // number of leading choices used to split the space among workers (default 2)
}

// Property is a registered check.
type Property struct {
	ID          string
	Scenarios   func(tier string) []Scenario
	Assumptions []string
}

var props = map[string]Property{}

// Register adds a property.
func Register(p Property) { props[p.ID] = p }

// Finding is a recorded genuine defect that is not repaired.
type Finding struct {
	Property string `json:"property"`
	Status   string `json:"status"` // "known" or "fixed"
	Scenario string `json:"scenario,omitempty"`
	Sig      string `json:"sig,omitempty"`
	Contains string `json:"contains,omitempty"`
	Commit   string `json:"commit,omitempty"`
	What     string `json:"what"`
}

type scenResult struct {
	Name       string         `json:"name"`
	Executions int64          `json:"executions"`
	Pruned     int64          `json:"pruned"`
	Steps      int64          `json:"steps"`
	Oracle     int64          `json:"oracle"`
	States     []uint64       `json:"states,omitempty"`
	NStates    int            `json:"nstates"`
	Outcomes   []uint64       `json:"outcomes,omitempty"`
	Completed  bool           `json:"completed"`
	MaxChoices int            `json:"max_choices"`
	Sample     []string       `json:"sample,omitempty"`
	Known      map[string]int `json:"known,omitempty"`
	WallS      float64        `json:"wall_s"`
}

type violationRec struct {
	Property string   `json:"property"`
	Tier     string   `json:"tier"`
	Scenario string   `json:"scenario"`
	Choices  []int    `json:"choices"`
	Sig      string   `json:"sig"`
	Msg      string   `json:"msg"`
	Trace    []string `json:"trace,omitempty"`
}

type workerResult struct {
	Scenarios []scenResult  `json:"scenarios"`
	Violation *violationRec `json:"violation,omitempty"`
}

const maxStatesTracked = 400_000

type explorer struct {
	prop     Property
	tier     string
	known    []Finding
	deadline time.Time
	shard    int
	nshards  int
	j        *journal
}

// runOne executes one choice vector. It returns the resolved choices and how the run ended.
func (e *explorer) runOne(sc Scenario, prefix []int, tracing bool, base *Ctx) (c *Ctx, v *Violation, wasPruned, mine bool) {
	c = &Ctx{prefix: prefix, Tier: e.tier, tracing: tracing, states: base.states, visited: base.visited, outcome: base.outcome,
		shard: e.shard, nshards: e.nshards, shardDepth: sc.ShardDepth, journal: e.j}
	if c.shardDepth == 0 {
		c.shardDepth = 2
	}
	mine = true
	current = c
	func() {
		defer func() {
			current = nil
			r := recover()
			if r == nil {
				return
			}
			switch x := r.(type) {
			case Violation:
				v = &x
			case pruned:
				wasPruned = true
			case notMine:
				mine = false
			default:
				s := fmt.Sprintf("%v", r)
				if strings.HasPrefix(s, "engine:") {
					panic(r)
				}
				v = &Violation{Sig: "panic:" + libFrame(), Msg: "the library panicked: " + s + "\n" + string(debug.Stack())}
			}
		}()
		sc.Run(c)
		if len(c.choices) < len(prefix) {
			panic(fmt.Sprintf("engine: replay divergence: execution made %d choices, prefix has %d", len(c.choices), len(prefix)))
		}
		if c.nshards > 1 && !c.mineDecided {
			c.decideMine()
		}
	}()
	return
}

func (e *explorer) matchKnown(sc string, v *Violation) *Finding {
	for i := range e.known {
		f := &e.known[i]
		if f.Property != e.prop.ID || f.Status != "known" {
			continue
		}
		if f.Scenario != "" && f.Scenario != sc {
			continue
		}
		if f.Sig != "" && f.Sig != v.Sig {
			continue
		}
		if f.Contains != "" && !strings.Contains(v.Msg, f.Contains) {
			continue
		}
		return f
	}
	return nil
}

func (e *explorer) explore(idx int, sc Scenario, execCPU *atomic.Int64) (scenResult, *violationRec) {
	start := time.Now()
	res := scenResult{Name: sc.Name, Known: map[string]int{}}
	base := &Ctx{states: map[uint64]struct{}{}, visited: map[uint64]struct{}{}, outcome: map[uint64]struct{}{}}
	var prefix []int
	var viol *violationRec
	for {
		if time.Now().After(e.deadline) {
			break
		}
		if e.j != nil {
			e.j.begin(idx)
		}
		execCPU.Store(cpuNanos())
		tracing := len(res.Sample) == 0
		c, v, wasPruned, mine := e.runOne(sc, prefix, tracing, base)
		if v != nil {
			if f := e.matchKnown(sc.Name, v); f != nil {
				res.Known[f.What]++
				v = nil
			}
		}
		vals := make([]int, len(c.choices))
		for i, ch := range c.choices {
			vals[i] = ch.V
		}
		if v != nil {
			viol = &violationRec{Property: e.prop.ID, Tier: e.tier, Scenario: sc.Name, Choices: vals, Sig: v.Sig, Msg: v.Msg}
			break
		}
		if mine {
			res.Executions++
			if wasPruned {
				res.Pruned++
			} else if tracing {
				res.Sample = c.trace
			}
			res.Steps += c.nSteps
			res.Oracle += c.nOracle
			if len(vals) > res.MaxChoices {
				res.MaxChoices = len(vals)
			}
		}
		// next choice vector
		i := len(c.choices) - 1
		for i >= 0 && c.choices[i].V+1 >= c.choices[i].N {
			i--
		}
		if i < 0 {
			res.Completed = true
			break
		}
		prefix = append(vals[:i:i], vals[i]+1)
	}
	if e.j != nil {
		e.j.end()
	}
	res.NStates = len(base.states)
	for s := range base.states {
		if len(res.States) >= maxStatesTracked {
			break
		}
		res.States = append(res.States, s)
	}
	for s := range base.outcome {
		if len(res.Outcomes) >= 50_000 {
			break
		}
		res.Outcomes = append(res.Outcomes, s)
	}
	res.WallS = time.Since(start).Seconds()
	return res, viol
}

func cpuNanos() int64 {
	var ru syscall.Rusage
	_ = syscall.Getrusage(syscall.RUSAGE_SELF, &ru)
	return ru.Utime.Nano() + ru.Stime.Nano()
}

const hangCPU = 100 * int64(time.Second)
const memLimit = 10 << 30

func watchdog(execCPU *atomic.Int64) {
	go func() {
		for {
			time.Sleep(time.Second)
			s := execCPU.Load()
			if s != 0 && cpuNanos()-s > hangCPU {
				fmt.Fprintln(os.Stderr, "engine: hang")
				os.Exit(77)
			}
		}
	}()
}

func limits() {
	if RaceBuild { // the detector reserves far more address space than it uses
		runtime.GOMAXPROCS(1)
		_ = syscall.Setrlimit(syscall.RLIMIT_CORE, &syscall.Rlimit{})
		return
	}
	_ = syscall.Setrlimit(syscall.RLIMIT_AS, &syscall.Rlimit{Cur: memLimit, Max: memLimit})
	_ = syscall.Setrlimit(syscall.RLIMIT_CORE, &syscall.Rlimit{})
}

func loadFindings(root string) []Finding {
	var fs []Finding
	b, err := os.ReadFile(filepath.Join(root, "known_findings.json"))
	if err == nil {
		if err := json.Unmarshal(b, &fs); err != nil {
			fmt.Fprintln(os.Stderr, "known_findings.json:", err)
			os.Exit(3)
		}
	}
	return fs
}

// scenariosOf lists the scenarios of a property under distinct names: replays find theirs by name.
func scenariosOf(p Property, tier string) []Scenario {
	n := map[string]int{}
	all := p.Scenarios(tier)
	for i := range all {
		b := all[i].Name
		if n[b]++; n[b] > 1 {
			all[i].Name = fmt.Sprintf("%s-%d", b, n[b])
		}
	}
	return all
}

func filterScenarios(all []Scenario) []Scenario {
	if f := os.Getenv("MC_ONLY"); f != "" {
		var out []Scenario
		for _, s := range all {
			if strings.Contains(s.Name, f) {
				out = append(out, s)
			}
		}
		return out
	}
	return all
}

// Main is the entry point: mc <ID> <tier> | mc worker ... | mc replay <file>.
func Main() {
	root := os.Getenv("MC_ROOT")
	if root == "" {
		root = "/verif"
	}
	args := os.Args[1:]
	if len(args) < 1 {
		usage()
	}
	switch args[0] {
	case "list":
		var ids []string
		for id := range props {
			ids = append(ids, id)
		}
		sort.Strings(ids)
		for _, id := range ids {
			for _, s := range scenariosOf(props[id], "thorough") {
				fmt.Printf("%s\t%s\t%s\n", id, s.Name, s.Bound)
			}
		}
	case "worker":
		worker(root, args[1:])
	case "replay":
		replay(root, args[1])
	case "child":
		child(args[1])
	default:
		if len(args) != 2 {
			usage()
		}
		os.Exit(parent(root, args[0], args[1]))
	}
}

func usage() {
	fmt.Fprintln(os.Stderr, "usage: mc ID quick|thorough | mc replay FILE | mc list")
	os.Exit(3)
}

func worker(root string, a []string) {
	// ID tier shard nshards deadlineUnix out journal
	limits()
	installHook()
	p, ok := props[a[0]]
	if !ok {
		os.Exit(3)
	}
	shard, _ := strconv.Atoi(a[2])
	n, _ := strconv.Atoi(a[3])
	dl, _ := strconv.ParseInt(a[4], 10, 64)
	j, err := openJournal(a[6])
	if err != nil {
		fmt.Fprintln(os.Stderr, err)
		os.Exit(3)
	}
	e := &explorer{prop: p, tier: a[1], known: loadFindings(root), deadline: time.Unix(dl, 0), shard: shard, nshards: n, j: j}
	var execCPU atomic.Int64
	watchdog(&execCPU)
	var wr workerResult
	scs := filterScenarios(scenariosOf(p, a[1]))
	for i, sc := range scs {
		// a scenario may use the whole remaining budget but a tenth for each later one
		rest, left := time.Until(time.Unix(dl, 0)).Seconds(), float64(len(scs)-1-i)
		e.deadline = time.Now().Add(time.Duration(max(rest*(1-0.1*left), rest/(left+1)) * float64(time.Second)))
		r, v := e.explore(i, sc, &execCPU)
		wr.Scenarios = append(wr.Scenarios, r)
		if v != nil {
			wr.Violation = v
			break
		}
	}
	b, _ := json.Marshal(wr)
	if err := os.WriteFile(a[5], b, 0o600); err != nil {
		fmt.Fprintln(os.Stderr, err)
		os.Exit(3)
	}
	os.Exit(0)
}

// replay re-executes a recorded choice vector: exit 1 if the violation reproduces, 0 if not.
func replay(root, file string) {
	limits()
	installHook()
	b, err := os.ReadFile(file)
	if err != nil {
		fmt.Fprintln(os.Stderr, err)
		os.Exit(3)
	}
	var v violationRec
	if err := json.Unmarshal(b, &v); err != nil {
		fmt.Fprintln(os.Stderr, err)
		os.Exit(3)
	}
	p := props[v.Property]
	for _, sc := range scenariosOf(p, v.Tier) {
		if sc.Name != v.Scenario {
			continue
		}
		var execCPU atomic.Int64
		execCPU.Store(cpuNanos())
		watchdog(&execCPU)
		e := &explorer{prop: p, tier: v.Tier, known: loadFindings(root), nshards: 1}
		base := &Ctx{states: map[uint64]struct{}{}, visited: map[uint64]struct{}{}, outcome: map[uint64]struct{}{}}
		c, viol, _, _ := e.runOne(sc, v.Choices, true, base)
		for _, l := range c.trace {
			fmt.Println("  ", l)
		}
		if viol != nil {
			fmt.Printf("REPRODUCED sig=%s\n%s\n", viol.Sig, viol.Msg)
			os.Exit(1)
		}
		fmt.Println("not reproduced")
		os.Exit(0)
	}
	fmt.Fprintln(os.Stderr, "no such scenario")
	os.Exit(3)
}

// Child runs this execution's choices again in a process of its own, where nothing has run before,
// and fails as that run fails. It returns false in that process.
func (c *Ctx) Child(id, scenario string) bool {
	if inChild {
		return false
	}
	rec := violationRec{Property: id, Tier: c.Tier, Scenario: scenario}
	for _, ch := range c.choices {
		rec.Choices = append(rec.Choices, ch.V)
	}
	b, _ := json.Marshal(rec)
	self, _ := os.Executable()
	cmd := exec.Command(self, "child", string(b))
	var eb strings.Builder
	cmd.Stderr = &limitedWriter{b: &eb}
	out, err := cmd.Output()
	var r childResult
	if e := json.Unmarshal(out, &r); e != nil || err != nil {
		if strings.Contains(eb.String(), "engine:") {
			panic("engine: child: " + eb.String())
		}
		c.Fail("crash", "the process ended: %v\n%s", err, firstLines(eb.String(), 30))
	}
	c.nOracle += r.Oracle
	c.nSteps += r.Steps
	for _, l := range r.Trace {
		c.Logf("%s", l)
	}
	if r.Violation != nil {
		panic(*r.Violation)
	}
	return true
}

var inChild bool

type childResult struct {
	Violation     *Violation
	Trace         []string
	Oracle, Steps int64
}

func child(arg string) {
	limits()
	installHook()
	inChild = true
	var v violationRec
	if err := json.Unmarshal([]byte(arg), &v); err != nil {
		fmt.Fprintln(os.Stderr, "engine:", err)
		os.Exit(3)
	}
	p := props[v.Property]
	for _, sc := range scenariosOf(p, v.Tier) {
		if sc.Name == v.Scenario {
			e := &explorer{prop: p, tier: v.Tier, nshards: 1}
			base := &Ctx{states: map[uint64]struct{}{}, visited: map[uint64]struct{}{}, outcome: map[uint64]struct{}{}}
			c, viol, _, _ := e.runOne(sc, v.Choices, true, base)
			b, _ := json.Marshal(childResult{viol, c.trace, c.nOracle, c.nSteps})
			os.Stdout.Write(b)
			os.Exit(0)
		}
	}
	fmt.Fprintln(os.Stderr, "engine: no scenario", v.Scenario)
	os.Exit(3)
}

func parent(root, id, tier string) int {
	start := time.Now()
	p, ok := props[id]
	if !ok {
		fmt.Fprintln(os.Stderr, "unknown property", id)
		return 3
	}
	budget := 300 * time.Second
	if tier == "thorough" {
		budget = 720 * time.Second
	}
	if s := os.Getenv("MC_BUDGET_S"); s != "" {
		if x, err := strconv.Atoi(s); err == nil {
			budget = time.Duration(x) * time.Second
		}
	}
	deadline := start.Add(budget)
	nw := 8
	if s := os.Getenv("MC_WORKERS"); s != "" {
		if x, err := strconv.Atoi(s); err == nil && x > 0 {
			nw = x
		}
	}
	tmp, err := os.MkdirTemp("", "mc-"+id+"-")
	if err != nil {
		fmt.Fprintln(os.Stderr, err)
		return 3
	}
	defer os.RemoveAll(tmp)
	self, _ := os.Executable()
	scen := filterScenarios(scenariosOf(p, tier))
	results := make([]*workerResult, nw)
	errs := make([]string, nw)
	cmds := make([]*exec.Cmd, nw)
	var viol *violationRec
	var mu sync.Mutex
	var wg sync.WaitGroup
	for i := 0; i < nw; i++ {
		out := filepath.Join(tmp, fmt.Sprintf("out%d", i))
		jn := filepath.Join(tmp, fmt.Sprintf("journal%d", i))
		cmd := exec.Command(self, "worker", id, tier, strconv.Itoa(i), strconv.Itoa(nw), strconv.FormatInt(deadline.Unix(), 10), out, jn)
		cmd.Env = append(os.Environ(), "GOMAXPROCS=2", "GOTRACEBACK=single")
		var eb strings.Builder
		cmd.Stderr = &limitedWriter{b: &eb}
		if err := cmd.Start(); err != nil {
			fmt.Fprintln(os.Stderr, err)
			return 3
		}
		cmds[i] = cmd
		wg.Add(1)
		go func(i int) {
			defer wg.Done()
			err := cmd.Wait()
			mu.Lock()
			defer mu.Unlock()
			if err != nil {
				if viol != nil {
					return
				}
				sc, running, ch := readJournal(jn)
				if !running || sc >= len(scen) {
					errs[i] = err.Error() + " " + eb.String()
					return
				}
				sig := "crash"
				if strings.Contains(eb.String(), "engine: hang") {
					sig = "hang"
				} else if strings.Contains(eb.String(), "engine:") {
					errs[i] = eb.String()
					return
				}
				viol = &violationRec{Property: id, Tier: tier, Scenario: scen[sc].Name, Choices: ch, Sig: sig,
					Msg: "worker ended: " + err.Error() + "\n" + eb.String()}
			} else {
				b, _ := os.ReadFile(out)
				var wr workerResult
				if e := json.Unmarshal(b, &wr); e != nil {
					errs[i] = e.Error()
					return
				}
				results[i] = &wr
				if wr.Violation != nil && (viol == nil || len(wr.Violation.Choices) < len(viol.Choices)) {
					viol = wr.Violation
				}
			}
			if viol != nil {
				for k, o := range cmds {
					if k != i && o != nil && o.Process != nil {
						_ = o.Process.Kill()
					}
				}
			}
		}(i)
	}
	wg.Wait()
	for _, e := range errs {
		if e != "" && viol == nil {
			fmt.Fprintln(os.Stderr, "worker error:", e)
			return 3
		}
	}
	findings := loadFindings(root)
	known := map[string]int{}
	// merge
	type agg struct {
		scenResult
		st, oc map[uint64]struct{}
		n      int
		sum    int
	}
	merged := make([]*agg, len(scen))
	for i, s := range scen {
		merged[i] = &agg{st: map[uint64]struct{}{}, oc: map[uint64]struct{}{}}
		merged[i].Name = s.Name
		merged[i].Completed = true
	}
	for _, r := range results {
		for i := range scen {
			m := merged[i]
			if r == nil || i >= len(r.Scenarios) {
				m.Completed = false
				continue
			}
			s := r.Scenarios[i]
			m.Executions += s.Executions
			m.Pruned += s.Pruned
			m.Steps += s.Steps
			m.Oracle += s.Oracle
			m.Completed = m.Completed && s.Completed
			if s.MaxChoices > m.MaxChoices {
				m.MaxChoices = s.MaxChoices
			}
			if len(m.Sample) == 0 {
				m.Sample = s.Sample
			}
			for _, h := range s.States {
				m.st[h] = struct{}{}
			}
			m.sum += s.NStates - len(s.States)
			for _, h := range s.Outcomes {
				m.oc[h] = struct{}{}
			}
			for k, v := range s.Known {
				known[k] += v
			}
			if s.WallS > m.WallS {
				m.WallS = s.WallS
			}
		}
	}
	var states, trans, execs, oracle int64
	exhaustive := true
	var per []map[string]any
	var samples []any
	for i, m := range merged {
		ns := int64(len(m.st) + m.sum)
		states += ns
		trans += m.Steps
		execs += m.Executions
		oracle += m.Oracle
		exhaustive = exhaustive && m.Completed
		per = append(per, map[string]any{"scenario": m.Name, "bound": scen[i].Bound, "executions": m.Executions, "pruned": m.Pruned,
			"states": ns, "transitions": m.Steps, "oracle_evaluations": m.Oracle, "distinct_outcomes": len(m.oc), "max_choices": m.MaxChoices,
			"completed": m.Completed, "wall_s": round(m.WallS)})
		if len(m.Sample) > 0 && len(samples) < 12 {
			sm := m.Sample
			if len(sm) > 40 {
				sm = append(append([]string{}, sm[:40]...), fmt.Sprintf("... (%d more)", len(m.Sample)-40))
			}
			samples = append(samples, map[string]any{"scenario": m.Name, "trace": sm})
		}
	}
	if len(samples) == 0 {
		samples = append(samples, "none")
	}
	exit := 0
	nviol := 0
	var note string
	if viol != nil {
		confirmed, runs := confirm(self, tmp, viol)
		if confirmed > 0 {
			dir := filepath.Join(root, "replays")
			_ = os.MkdirAll(dir, 0o755)
			path := filepath.Join(dir, fmt.Sprintf("%s-%s-%016x.json", id, tier, H64([]byte(viol.Sig+viol.Scenario))))
			b, _ := json.MarshalIndent(viol, "", " ")
			if err := os.WriteFile(path, b, 0o644); err != nil {
				path = filepath.Join(os.TempDir(), filepath.Base(path))
				_ = os.WriteFile(path, b, 0o644)
			}
			fmt.Printf("scenario %s: %s: %s\n(reproduced %d/%d)\n", viol.Scenario, viol.Sig, firstLines(viol.Msg, 12), confirmed, runs)
			fmt.Printf("VIOLATION property=%s replay=%s\n", id, path)
			exit = 1
			nviol = 1
		} else {
			note = "a failing execution did not reproduce and was discarded: " + viol.Sig + " " + viol.Scenario + " " + firstLines(viol.Msg, 3)
			fmt.Println("note:", note)
		}
		exhaustive = false
	}
	for _, f := range findings {
		if f.Property == id && f.Status == "known" {
			fmt.Printf("KNOWN-FINDING: property=%s %s\n", id, f.What)
		}
	}
	seed, _ := strconv.Atoi(os.Getenv("VERIF_SEED"))
	ev := map[string]any{
		"property": id, "tier": tier, "seed": seed, "level": "model_checking",
		"coverage": map[string]any{
			"states": states, "transitions": trans, "traces_validated_against_impl": execs,
			"oracle_evaluations": oracle, "samples": samples, "exhaustive": exhaustive, "scenarios": per,
			"known_finding_hits": known,
			"explanation":        "Every execution runs the real code of /repo's working tree; a state is a distinct fingerprint of the observable state reached, a transition one API operation; each execution is compared with the reference model step by step.",
		},
		"assumptions": p.Assumptions,
		"wall_s":      round(time.Since(start).Seconds()),
		"violations":  nviol,
	}
	if note != "" {
		ev["coverage"].(map[string]any)["note"] = note
	}
	_ = os.MkdirAll(filepath.Join(root, "evidence"), 0o755)
	b, _ := json.MarshalIndent(ev, "", " ")
	if err := os.WriteFile(filepath.Join(root, "evidence", id+".json"), append(b, '\n'), 0o644); err != nil {
		fmt.Fprintln(os.Stderr, err)
		return 3
	}
	fmt.Printf("property=%s tier=%s scenarios=%d executions=%d states=%d transitions=%d oracle=%d exhaustive=%v wall=%.1fs\n",
		id, tier, len(scen), execs, states, trans, oracle, exhaustive, time.Since(start).Seconds())
	return exit
}

func confirm(self, tmp string, v *violationRec) (int, int) {
	f := filepath.Join(tmp, "confirm.json")
	b, _ := json.Marshal(v)
	_ = os.WriteFile(f, b, 0o600)
	runs := 5
	if v.Sig == "hang" {
		runs = 1
	}
	ok := 0
	for i := 0; i < runs; i++ {
		cmd := exec.Command(self, "replay", f)
		var sb strings.Builder
		cmd.Stdout = &limitedWriter{b: &sb}
		cmd.Stderr = cmd.Stdout
		err := cmd.Run()
		if err == nil {
			continue
		}
		code := cmd.ProcessState.ExitCode()
		out := sb.String()
		if code == 1 && strings.Contains(out, "REPRODUCED") {
			ok++
			if ok == 1 {
				if k := strings.Index(out, "REPRODUCED"); k > 0 {
					v.Trace = strings.Split(strings.TrimRight(out[:k], "\n"), "\n")
				}
			}
		} else if (v.Sig == "crash" || v.Sig == "hang") && code != 3 && !strings.Contains(out, "engine: replay") {
			ok++
		}
	}
	return ok, runs
}

func firstLines(s string, n int) string {
	l := strings.SplitN(s, "\n", n+1)
	if len(l) > n {
		l = l[:n]
	}
	return strings.Join(l, "\n")
}

func round(f float64) float64 { return float64(int64(f*1000)) / 1000 }

type limitedWriter struct {
	b *strings.Builder
}

func (w *limitedWriter) Write(p []byte) (int, error) {
	if w.b.Len() < 1<<20 {
		w.b.Write(p)
	}
	return len(p), nil
}
