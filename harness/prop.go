package main

import (
	"encoding/json"
	"fmt"
	"math/rand"
	"os"
	"path/filepath"
	"sort"
	"strings"
	"sync"
	"time"
)

// The checks: one per property.

type pipe struct {
	w     *world
	d     string
	prop  string
	tier  string
	seed  int64
	rng   *rand.Rand
	ss    []*slotInfo
	all   []*Run
	nmove int
	moves int // moves available
	notes map[string]int
}

func (p *pipe) quick() bool { return p.tier != "thorough" }

// frac gives a fraction for the quick tier, or 1.
func (p *pipe) frac(q float64) float64 {
	if p.quick() {
		return q
	}
	return 1
}

func (p *pipe) do(rs []*Run) []*Run {
	for _, r := range rs {
		if r.Mode != "export" && r.Fault == nil && r.Hold == "" && p.rng.Intn(5) == 0 {
			r.Stdin = true
		}
	}
	p.w.withDBs(rs)
	p.w.runAll(rs)
	p.w.check(rs)
	p.all = append(p.all, rs...)
	return rs
}

func (p *pipe) note(k string, n int) { p.notes[k] += n }

// sample keeps a fraction of the moves.
func (p *pipe) sample(ms []move, f float64) []move {
	if f >= 1 {
		return ms
	}
	ms = append([]move{}, ms...)
	p.rng.Shuffle(len(ms), func(i, j int) { ms[i], ms[j] = ms[j], ms[i] })
	return ms[:int(f*float64(len(ms)))]
}

// comps makes composites of different sizes out of moves.
func (p *pipe) comps(tag string, ms []move, sizes ...int) []*Run {
	if len(sizes) == 0 {
		sizes = []int{8, 8, 8, 8, 8, 8, 8, 3, 3, 1}
	}
	groups := map[int][]move{}
	for _, m := range ms {
		s := sizes[p.rng.Intn(len(sizes))]
		groups[s] = append(groups[s], m)
	}
	var ks []int
	for k := range groups {
		ks = append(ks, k)
	}
	sort.Ints(ks)
	var rs []*Run
	for _, k := range ks {
		for _, c := range pack(groups[k], k, p.rng) {
			rs = append(rs, p.w.composite(fmt.Sprintf("%s/%s%d.%d", p.d, tag, k, len(rs)), c))
		}
	}
	p.nmove += len(ms)
	return rs
}

// base runs a fraction of all judged moves, as composites.
func (p *pipe) base(f float64) []*Run {
	ms := allMoves(p.ss, false)
	p.moves = len(ms)
	return p.do(p.comps("c", p.sample(ms, f)))
}

// side runs a fraction of the moves that are not judged for convergence.
func (p *pipe) side(f float64) []*Run {
	return p.do(p.comps("x", p.sample(allMoves(p.ss, true), f), 3, 1))
}

func (p *pipe) again(rs []*Run) []*Run {
	var ag []*Run
	for _, r := range rs {
		if r.Complete && len(r.Excl) == 0 {
			ag = append(ag, r.follow("again", "apply"))
		}
	}
	return p.do(ag)
}

// settled: every variant against its own schema.
func (p *pipe) settled(kind string, size int, f float64) []*Run {
	var ms []move
	for _, s := range p.ss {
		for i := range s.files {
			ms = append(ms, move{s: s, A: i, B: i})
		}
	}
	var rs []*Run
	for i, c := range pack(p.sample(ms, f), size, p.rng) {
		r := p.w.composite(fmt.Sprintf("%s/%s%d", p.d, kind, i), c)
		r.Kind = kind
		rs = append(rs, r)
	}
	p.nmove += len(ms)
	return rs
}

func (p *pipe) corpus(again bool) []*Run {
	cs := corpusChains(p.d)
	p.w.runChains(cs, again)
	var out []*Run
	for _, c := range cs {
		out = append(out, c.Runs...)
	}
	p.all = append(p.all, out...)
	return out
}

// walks continue from where base runs ended, several steps.
func (p *pipe) walks(rs []*Run, steps int, again bool) {
	for i := 0; i < steps; i++ {
		var next []*Run
		for _, r := range rs {
			if !r.Complete || len(r.Excl) > 0 || len(r.Moves) == 0 {
				continue
			}
			var ms []move
			for _, m := range r.Moves {
				to := -2
				for try := 0; try < 8; try++ {
					b := p.rng.Intn(len(m.s.files)+1) - 1
					if len(m.s.Excl[[2]int{m.B, b}]) == 0 {
						to = b
						break
					}
				}
				if to == -2 {
					to = m.B
				}
				ms = append(ms, move{s: m.s, A: m.B, B: to})
			}
			n := p.w.composite(fmt.Sprintf("%s.%d", r.ID, i), ms)
			n.St, n.DBFile = r.Post, r.NewDB
			n.From = r.Sql
			next = append(next, n)
			p.nmove += len(ms)
		}
		rs = p.do(next)
		if again {
			p.again(rs)
		}
	}
}

// withPlan: runs that completed and did something.
func withPlan(rs []*Run) []*Run {
	var out []*Run
	for _, r := range rs {
		if r.Kind == "base" && r.Exit == 0 && len(r.Plan) > 0 {
			out = append(out, r)
		}
	}
	return out
}

// variant copies a run's inputs.
func (r *Run) variant(suffix, kind string) *Run {
	return &Run{ID: r.ID + "/" + suffix, D: r.D, Kind: kind, Mode: r.Mode, Skip: r.Skip, St: r.St, DBFile: r.DBFile, Sql: r.Sql, From: r.From,
		Tag: r.Tag, File: r.File, Valid: r.Valid, Moves: r.Moves}
}

// ---------------------------------------------------------------------------

type finding struct {
	Property string   `json:"property"`
	Id       string   `json:"id"`
	D        string   `json:"d"`
	From     string   `json:"from"`
	To       string   `json:"to"`
	Kind     string   `json:"kind"`
	What     []string `json:"what"`
	Why      string   `json:"why"`
	Reason   string   `json:"reason"`
}

func loadFindings() []finding {
	var x struct {
		Findings []finding `json:"findings"`
	}
	b, err := os.ReadFile(filepath.Join(verifDir(), "known_findings.json"))
	if err != nil {
		die("%v", err)
	}
	if err := json.Unmarshal(b, &x); err != nil {
		die("known_findings.json: %v", err)
	}
	return x.Findings
}

// known runs the recorded findings of the property: exactly the recorded
// violations are announced, others are judged as usual.
func known(w *world, prop string) (lines []string, runs []*Run) {
	var fs []finding
	for _, f := range loadFindings() {
		if f.Property == prop {
			fs = append(fs, f)
		}
	}
	if len(fs) == 0 {
		return
	}
	var ts []*trans
	for _, f := range fs {
		to := f.To
		if f.Kind == "config" {
			to = ""
		}
		ts = append(ts, &trans{"known/" + f.Id, f.D, f.From, to})
	}
	rs := w.baseRuns(ts)
	if len(rs) != len(fs) {
		die("known_findings.json: a file means nothing")
	}
	for i, f := range fs {
		if strings.HasPrefix(f.Kind, "export") {
			rs[i].Kind, rs[i].Mode = f.Kind, "export"
		}
	}
	w.runAll(rs)
	w.check(rs)
	w2 := []*Run{}
	ix := []int{}
	for i, f := range fs {
		if f.Kind == "config" {
			rs[i] = knownConfig(w, f.To)
		}
		if x := rs[i].then(f.Kind); x != nil {
			w2 = append(w2, x)
			ix = append(ix, i)
		}
	}
	w.runAll(w2)
	w.check(w2)
	for j, i := range ix {
		rs[i] = w2[j]
	}
	for i, f := range fs {
		r := rs[i]
		exp := map[string]bool{}
		for _, x := range f.What {
			exp[x] = true
		}
		var rest []Viol
		hit := 0
		for _, v := range append(append([]Viol{}, r.V...), r.X...) {
			if v.P != prop {
				continue
			}
			if exp[v.What] {
				hit++
			} else {
				rest = append(rest, v)
			}
		}
		r.V = rest
		if hit > 0 {
			lines = append(lines, fmt.Sprintf("KNOWN-FINDING: property=%s %s: %s", prop, f.Id, f.Why))
		}
	}
	return lines, rs
}

// ---------------------------------------------------------------------------

func (w *world) clone(i int) *world {
	tmp := filepath.Join(w.tmp, fmt.Sprintf("p%d", i))
	os.Mkdir(tmp, 0o777)
	os.Chmod(tmp, 0o777)
	return &world{bin: w.bin, tmp: tmp, tl: newTLC()}
}

func runCheck(prop, tier string) int {
	t0 := time.Now()
	seed := int64(1)
	fmt.Sscan(os.Getenv("VERIF_SEED"), &seed)
	if tier == "" {
		tier = "quick"
	}
	w := newWorld()
	defer w.close()
	os.Chmod(w.tmp, 0o755)
	f, ok := checks[prop]
	if !ok {
		die("no check for %s", prop)
	}
	var ps []*pipe
	var wg sync.WaitGroup
	only := os.Getenv("VERIF_DIALECTS")
	for i, d := range dialects {
		if only != "" && !strings.Contains(only, d) {
			continue
		}
		p := &pipe{w: w.clone(i), d: d, prop: prop, tier: tier, seed: seed, rng: rand.New(rand.NewSource(seed*1000003 + int64(i)*7919 + int64(len(d)))), notes: map[string]int{}}
		ps = append(ps, p)
		wg.Add(1)
		go func() {
			defer wg.Done()
			if prop != "C15" {
				n := 8
				if tier == "thorough" {
					n = 24
				}
				p.ss = p.w.slotInfos(p.d, "", prop == "C05", genSlots(p.d, seed, n, 5)...)
			}
			f(p)
		}()
	}
	var klines []string
	var kruns []*Run
	kw := w.clone(9)
	wg.Add(1)
	go func() {
		defer wg.Done()
		klines, kruns = known(kw, prop)
	}()
	wg.Wait()
	all := append([]*Run{}, kruns...)
	notes := map[string]int{}
	nmove, moves := 0, 0
	states, trans := kw.tl.states, kw.tl.generated
	kw.tl.close()
	for _, p := range ps {
		all = append(all, p.all...)
		states += p.w.tl.states
		trans += p.w.tl.generated
		nmove += p.nmove
		moves += p.moves
		for k, n := range p.notes {
			notes[k] += n
		}
		p.w.tl.close()
	}
	if os.Getenv("VERIF_SUMMARY") != "" {
		summarise(all, prop)
	}
	// report
	repdir := filepath.Join(verifDir(), "evidence", "replay")
	os.MkdirAll(repdir, 0o755)
	old, _ := filepath.Glob(filepath.Join(repdir, prop+"-*.json"))
	for _, o := range old {
		os.Remove(o)
	}
	nv := 0
	seen := map[string]bool{}
	for _, r := range all {
		for _, v := range r.V {
			if v.P != prop {
				continue
			}
			nv++
			k := r.D + r.Kind + v.What
			if seen[k] || len(seen) >= 12 {
				continue
			}
			seen[k] = true
			path := filepath.Join(repdir, fmt.Sprintf("%s-%d.json", prop, len(seen)))
			r.save(path)
			fmt.Printf("VIOLATION property=%s replay=%s\n  %s %s [%s]: %.600s\n", prop, path, r.D, r.ID, r.Kind, v.What)
		}
	}
	for _, l := range klines {
		fmt.Println(l)
	}
	kinds := map[string]int{}
	nev, nstmt, nexcl, planned := 0, 0, 0, 0
	for _, r := range all {
		kinds[r.D+"/"+r.Kind]++
		nev += len(r.Ev)
		for _, e := range r.Ev {
			if e.K == "exec" {
				nstmt++
			}
		}
		if len(r.Excl) > 0 {
			nexcl++
		}
		if len(r.Plan) > 0 {
			planned++
		}
	}
	rng := rand.New(rand.NewSource(seed))
	samples := []interface{}{}
	for i := 0; i < 3 && len(all) > 0; i++ {
		samples = append(samples, all[rng.Intn(len(all))].brief())
	}
	cov := M{"states": states, "transitions": trans, "traces_validated_against_impl": len(all), "samples": samples,
		"runs_by_dialect_and_kind": kinds, "events": nev, "statements_executed": nstmt, "runs_with_a_plan": planned, "runs_not_judged_for_convergence": nexcl,
		"moves_exercised": nmove, "known_findings_reproduced": len(klines)}
	if moves > 0 {
		cov["judged_moves_available"] = moves
	}
	for k, n := range notes {
		cov[k] = n
	}
	ev := M{"property": prop, "tier": tier, "seed": seed, "level": "model_checking", "coverage": cov, "wall_s": time.Since(t0).Seconds(), "violations": nv,
		"assumptions": []string{"the database engine is the one in spec/Engine.tla (SQLite: the real engine)", "statements and catalogs are exchanged with fake MySQL, PostgreSQL and SQL Server servers over their wire protocols"}}
	b, _ := json.MarshalIndent(ev, "", " ")
	if err := os.WriteFile(filepath.Join(verifDir(), "evidence", prop+".json"), append(b, '\n'), 0o644); err != nil {
		die("%v", err)
	}
	fmt.Printf("%s %s: %d runs (%d with a plan), %d events, %d states, %d violations, %.1fs\n", prop, tier, len(all), planned, nev, states, nv, time.Since(t0).Seconds())
	if nv > 0 {
		return 1
	}
	return 0
}

func (r *Run) brief() M {
	m := M{"id": r.ID, "dialect": r.D, "kind": r.Kind, "mode": r.Mode, "exit": r.Exit, "moves": r.Tag}
	sql, out := r.Sql, r.Out
	if len(sql) > 600 {
		sql = sql[:600] + "..."
	}
	if len(out) > 600 {
		out = out[:600] + "..."
	}
	m["desired"], m["output"] = sql, out
	if r.Fault != nil {
		m["fault"] = r.Fault
	}
	if r.Hold != "" {
		m["fault"] = r.Hold
	}
	return m
}

// save writes everything needed to look at, or repeat, a run.
func (r *Run) save(path string) {
	m := M{"id": r.ID, "d": r.D, "kind": r.Kind, "mode": r.Mode, "skip": r.Skip, "stdin": r.Stdin, "perm": r.Perm, "fault": r.Fault, "hold": r.Hold,
		"from": r.From, "sql": r.Sql, "st": r.St, "stdout": r.Out, "stderr": r.Err, "exit": r.Exit, "violations": r.V, "events": r.Ev, "noise": r.Noise, "args": r.Raw, "env": r.Env}
	if r.Ref != nil {
		m["ref"] = M{"id": r.Ref.ID, "stdout": r.Ref.Out, "sql": r.Ref.Sql}
	}
	b, _ := json.MarshalIndent(m, "", " ")
	os.WriteFile(path, b, 0o644)
}

// summarise prints all violations of a property, grouped.
func summarise(all []*Run, prop string) {
	for _, r := range all {
		var v []Viol
		for _, x := range r.V {
			if x.P == prop {
				v = append(v, x)
			}
		}
		r.V = v
	}
	summary(all)
}

// knownScan looks for the smallest transition showing each known reason.
func knownScan() {
	w := newWorld()
	defer w.close()
	type hit struct {
		f finding
		n int
	}
	best := map[string]*hit{}
	for _, d := range []string{MySQL, PG, MSSQL} {
		ss := w.slotInfos(d, "", false)
		var rs []*Run
		for _, m := range allMoves(ss, true) {
			e := m.excl()
			if len(e) == 0 || !strings.HasPrefix(strings.Join(e, ""), "k:") || strings.Contains(strings.Join(e, " "), "u:") {
				continue
			}
			rs = append(rs, w.composite(m.String(), []move{m}))
		}
		w.runAll(rs)
		w.check(rs)
		var ag []*Run
		for _, r := range rs {
			if r.Complete {
				x := r.follow("again", "apply")
				x.From, x.Moves = r.From, r.Moves
				ag = append(ag, x)
			}
		}
		w.runAll(ag)
		w.check(ag)
		var ex []*Run
		for _, s := range ss {
			for i, e := range s.Exp {
				if len(e) > 0 && !strings.Contains(strings.Join(e, " "), "u:") {
					m := move{s: s, A: i, B: i}
					r := w.composite(m.String()+"e", []move{m})
					r.Kind, r.Mode = "export", "export"
					ex = append(ex, r)
				}
			}
		}
		w.runAll(ex)
		w.check(ex)
		for _, r := range append(append(rs, ag...), ex...) {
			by := map[string][]string{}
			for _, v := range append(append([]Viol{}, r.X...), r.V...) {
				by[v.P] = append(by[v.P], v.What)
			}
			reasons := r.Moves[0].excl()
			if r.Kind == "export" {
				reasons = r.Moves[0].s.Exp[r.Moves[0].A]
			}
			for _, reason := range reasons {
				for pr, what := range by {
					k := reason + "|" + pr + "|" + d
					n := len(r.From) + len(r.Sql) + 100000*(len(reasons)-1)
					if best[k] == nil || n < best[k].n {
						id := fmt.Sprintf("%s-%s-%s", d, strings.TrimPrefix(reason, "k:"), pr)
						best[k] = &hit{finding{Property: pr, Id: id, D: d, From: r.From, To: r.Sql, Kind: r.Kind, What: what, Reason: reason}, n}
					}
				}
			}
		}
	}
	// cases written by hand
	var man []finding
	b, err := os.ReadFile(filepath.Join(verifDir(), "tools", "manual_cases.json"))
	if err != nil || json.Unmarshal(b, &man) != nil {
		die("manual_cases.json: %v", err)
	}
	for i := range man {
		f := man[i]
		var r *Run
		if f.Kind == "config" {
			r = knownConfig(w, f.To)
		} else {
			rs := w.baseRuns([]*trans{{"m", f.D, f.From, f.To}})
			if len(rs) == 0 {
				continue
			}
			r = rs[0]
			if strings.HasPrefix(f.Kind, "export") {
				r.Kind, r.Mode = f.Kind, "export"
			}
			w.runAll(rs)
			w.check(rs)
		}
		if x := r.then(f.Kind); x != nil {
			r = x
			w.runAll([]*Run{r})
			w.check([]*Run{r})
		}
		by := map[string][]string{}
		for _, v := range append(append([]Viol{}, r.X...), r.V...) {
			by[v.P] = append(by[v.P], v.What)
		}
		if len(by) == 0 {
			fmt.Fprintf(os.Stderr, "nothing wrong with manual case %s %s\n%s\n", f.D, f.Reason, r.Out)
		}
		for pr, what := range by {
			g := f
			g.Property, g.What, g.Id = pr, what, fmt.Sprintf("%s-%s-%s", f.D, strings.TrimPrefix(f.Reason, "k:"), pr)
			best[f.Reason+"|"+pr+"|"+f.D+"|m"] = &hit{g, 0}
		}
	}
	var ks []string
	for k := range best {
		ks = append(ks, k)
	}
	sort.Strings(ks)
	var out []finding
	for _, k := range ks {
		out = append(out, best[k].f)
	}
	b, _ = json.MarshalIndent(out, "", " ")
	fmt.Println(string(b))
}

// then is what a finding looks at after applying its file.
func (r *Run) then(kind string) *Run {
	switch {
	case kind == "again" && r.Complete:
		return r.follow("again", "apply")
	case kind == "then-export" && r.Complete:
		return r.follow("exportorder", "export")
	}
	return nil
}
