package main

import (
	"encoding/json"
	"fmt"
	"sort"
	"strings"
	"sync"
	"sync/atomic"
	"time"
)

// Model checking of module Model (the tool as a state machine against an
// environment that fails), on plans that the real tool made, and replay of its
// behaviours as fault schedules.

var allBugs = []string{
	"login-ignored", "read-ignored", "read-exit0", "partial-export",
	"invalid-applied", "invalid-exit0", "silent",
	"dry-executes", "export-writes", "dry-shows-all", "dry-omits",
	"skip-executes", "skip-everything", "skip-nothing-said",
	"print-after", "print-omitted", "says-nothing", "nothing-unsaid",
	"continue", "no-rollback", "commit-after-error", "exec-exit0", "commit-exit0", "begin-exit0",
	"no-transaction", "no-commit", "commit-each",
	"last-omitted", "first-omitted", "twice", "reversed", "exit1",
}

// bugs whose result may be another correct plan
var planBugs = map[string]bool{"last-omitted": true, "first-omitted": true, "twice": true, "reversed": true}

type mfault struct {
	At, Kind string
	N        int
}

type behaviour struct {
	id, bug string
	fl      []mfault
	viol    []Viol
	obs     string
	code    int
	plan    []string
	done    []string
}

func (b *behaviour) key() string { return fmt.Sprint(b.id, b.fl) }

// modelTask: the invocation r, with the plan of p.
func modelTask(id string, r, pl *Run, mode string, skip, valid bool, bugs []string, faults, reads int) M {
	t := r.task()
	plan := []M{}
	for _, it := range pl.Plan {
		if it.W == "stmt" || it.W == "skip" {
			ops := it.Ops
			if ops == nil {
				ops = []M{}
			}
			plan = append(plan, M{"txt": it.Txt, "kind": it.Kind, "ops": ops})
		}
	}
	t["id"], t["mode"], t["skip"], t["valid"] = id, mode, skip, valid
	t["ev"] = []M{}
	t["real"] = M{"has": false, "file": [][]M{}}
	t["exp"] = M{"has": false, "ok": false, "why": "", "file": [][]M{}}
	t["ref"] = M{"has": false, "plan": []M{}, "post": emptyDB()}
	t["kind"] = "base"
	ref := func(kind string, p []M) {
		t["kind"], t["ref"] = kind, M{"has": true, "plan": p, "post": emptyDB()}
	}
	switch {
	case !valid:
		t["kind"], t["file"] = "invalid", [][]M{}
	case mode == "export":
		t["kind"] = "export"
	case mode == "dry":
		ref("dry", planOf(pl))
	case skip:
		ref("skip", planOf(pl))
	}
	t["plan"], t["bugs"], t["faults"], t["reads"] = plan, bugs, faults, reads
	t["want"] = false
	return t
}

// model explores the tasks exhaustively and returns every behaviour.
func (t *tlcRunner) model(tasks []interface{}) []*behaviour {
	var out []*behaviour
	if len(tasks) == 0 {
		return out
	}
	k := (len(tasks) + 3) / 4
	if k > 8 {
		k = 8
	}
	var wg sync.WaitGroup
	var mu sync.Mutex
	for i := 0; i < k; i++ {
		var part []interface{}
		for j := i; j < len(tasks); j += k {
			part = append(part, tasks[j])
		}
		wg.Add(1)
		go func() {
			defer wg.Done()
			in := t.writeND(fmt.Sprintf("model%d.ndjson", atomic.AddInt64(&t.seq, 1)), part)
			o, err := t.raw("Model", "Model.cfg", []string{"IN=" + in}, 800*time.Second, "-workers", "1")
			mu.Lock()
			defer mu.Unlock()
			if err != nil {
				t.keep = true
				die("TLC Model: %v\n%s", err, tail(o, 60))
			}
			for _, m := range parsePrinted(o) {
				b := &behaviour{id: m["id"].(string), bug: m["bug"].(string), code: int(m["code"].(float64))}
				for _, x := range seqOf(m["fl"]) {
					f := x.(map[string]interface{})
					b.fl = append(b.fl, mfault{f["at"].(string), f["kind"].(string), int(f["n"].(float64))})
				}
				for _, x := range seqOf(m["viol"]) {
					v := x.(map[string]interface{})
					b.viol = append(b.viol, Viol{v["p"].(string), v["what"].(string)})
				}
				for _, x := range seqOf(m["plan"]) {
					v := x.(map[string]interface{})
					b.plan = append(b.plan, v["w"].(string)+" "+v["txt"].(string))
				}
				for _, x := range seqOf(m["done"]) {
					b.done = append(b.done, x.(string))
				}
				j, _ := json.Marshal(M{"plan": b.plan, "done": b.done, "fails": b.code != 0, "nothing": !strings.Contains(b.id, "export") && m["nothing"] == true && (b.code == 0 || len(b.done) > 0), "said": b.code == 0 || m["said"] == true, "db": m["db"]})
				b.obs = string(j)
				out = append(out, b)
			}
		}()
	}
	wg.Wait()
	return out
}

func seqOf(x interface{}) []interface{} {
	l, _ := x.([]interface{})
	return l
}

// selfTest: the correct tool breaks nothing whatever the environment does
// (invariants of Model.cfg), and every listed bug that shows is noticed.
func (p *pipe) selfTest(n int) {
	ms := p.sample(append(allMoves(p.ss, false), allMoves(p.ss, true)...), 1)
	if len(ms) > 12*n {
		ms = ms[:12*n]
	}
	var rs []*Run
	for _, r := range withPlan(p.do(p.comps("m", ms, 2))) {
		if len(r.Plan) <= 5 && len(r.V)+len(r.X) == 0 {
			rs = append(rs, r)
		}
	}
	if len(rs) > n {
		rs = rs[:n]
	}
	var sk []*Run
	for _, r := range rs {
		x := r.variant("skip", "skip")
		x.Skip, x.Ref = true, r
		sk = append(sk, x)
	}
	p.do(sk)
	bugs := append([]string{"none"}, allBugs...)
	var tasks []interface{}
	for i, r := range rs {
		id := fmt.Sprintf("%d", i)
		tasks = append(tasks,
			modelTask(id+"/apply", r, r, "apply", false, true, bugs, 2, 2),
			modelTask(id+"/dry", r, r, "dry", false, true, bugs, 1, 2),
			modelTask(id+"/export", r, r, "export", false, true, bugs, 1, 2),
			modelTask(id+"/invalid", r, r, "apply", false, false, bugs, 1, 1))
		if sk[i].Exit == 0 {
			tasks = append(tasks, modelTask(id+"/skip", r, r, "apply", true, true, bugs, 1, 1), modelTask(id+"/dryskip", r, sk[i], "dry", true, true, bugs, 1, 1))
		}
	}
	if len(rs) > 0 {
		empty := &Run{ID: "empty", D: p.d, St: emptyDB(), File: [][]M{}, Valid: true}
		tasks = append(tasks, modelTask("empty/apply", empty, empty, "apply", false, true, bugs, 1, 1))
	}
	bs := p.w.tl.model(tasks)
	good := map[string]map[string]bool{}
	for _, b := range bs {
		if b.bug == "none" {
			if len(b.viol) > 0 {
				die("module Model: the correct tool is blamed: %s %v %v", b.id, b.fl, b.viol)
			}
			if good[b.key()] == nil {
				good[b.key()] = map[string]bool{}
			}
			good[b.key()][b.obs] = true
		}
	}
	noticed := map[string]int{}
	missed := map[string]string{}
	for _, b := range bs {
		if b.bug == "none" {
			continue
		}
		if len(b.viol) > 0 {
			noticed[b.bug]++
			continue
		}
		g := good[b.key()]
		if g != nil && !g[b.obs] && !planBugs[b.bug] {
			missed[b.bug] = fmt.Sprintf("%s %v %s", b.id, b.fl, b.obs)
		}
	}
	if len(missed) > 0 {
		var l []string
		for k, v := range missed {
			l = append(l, k+": "+v)
		}
		sort.Strings(l)
		die("module Model: bugs that nothing notices:\n%s", strings.Join(l, "\n"))
	}
	p.note("model.tasks", len(tasks))
	p.note("model.behaviours", len(bs))
	p.note("model.correct behaviours", len(bs)-sumOf(noticed))
	p.note("model.bugs noticed", len(noticed))
	for b := range noticed {
		p.note("model.noticed."+b, noticed[b])
	}
}

func sumOf(m map[string]int) int {
	n := 0
	for _, v := range m {
		n += v
	}
	return n
}

// schedules: the fault schedules of all behaviours of the correct tool with up
// to `faults` faults, as runs of the real binary.
func (p *pipe) schedules(rs []*Run, mode string, faults, max int) []*Run {
	const reads = 3
	var tasks []interface{}
	for i, r := range rs {
		if len(r.V)+len(r.X) > 0 {
			continue
		}
		tasks = append(tasks, modelTask(fmt.Sprint(i), r, r, mode, r.Skip, true, []string{"none"}, faults, reads))
	}
	bs := p.w.tl.model(tasks)
	seen := map[string]bool{}
	var one, two []*behaviour
	for _, b := range bs {
		if len(b.viol) > 0 {
			die("module Model: the correct tool is blamed: %s %v %v", b.id, b.fl, b.viol)
		}
		if len(b.fl) == 0 || seen[b.key()] {
			continue
		}
		seen[b.key()] = true
		if len(b.fl) == 1 {
			one = append(one, b)
		} else {
			two = append(two, b)
		}
	}
	byKey := func(l []*behaviour) {
		sort.Slice(l, func(i, j int) bool { return l[i].key() < l[j].key() })
		p.rng.Shuffle(len(l), func(i, j int) { l[i], l[j] = l[j], l[i] })
	}
	byKey(one)
	byKey(two)
	p.note("model.schedules", len(one)+len(two))
	if len(one)+len(two) > max {
		if len(two) > max/3 {
			two = two[:max/3]
		}
		if len(one) > max-len(two) {
			one = one[:max-len(two)]
		}
	}
	var fs []*Run
	for no, b := range append(one, two...) {
		i := 0
		fmt.Sscan(b.id, &i)
		r := rs[i]
		var head *Fault
		name := fmt.Sprintf("%s%d", mode, no)
		for k := len(b.fl) - 1; k >= 0; k-- {
			f := b.fl[k]
			n := f.N
			if f.At == "read" && r.NRead > 0 { // the first, one in between, the last
				n = []int{0, p.rng.Intn(r.NRead), r.NRead - 1}[f.N%reads]
			}
			last := k == len(b.fl)-1
			persist := last && (f.Kind == "drop" || f.Kind == "dropafter") && p.rng.Intn(2) == 0
			if f.At == "login" || f.At == "read" && f.Kind == "drop" {
				persist = true
			}
			if f.At == "read" && f.Kind == "trunc" {
				persist = p.rng.Intn(2) == 0
			}
			head = &Fault{At: f.At, N: n, Kind: f.Kind, Persist: persist, Next: head}
			name = fmt.Sprintf("%s%d%s.", f.At, n, f.Kind) + name
		}
		x := r.variant(name, "fault")
		x.Mode, x.Fault, x.Ref = mode, head, r
		fs = append(fs, x)
	}
	return fs
}
