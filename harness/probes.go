package main

import (
	"fmt"
	"strings"
)

var checks map[string]func(p *pipe)

func init() {
	conv := func(p *pipe) {
		rs := p.base(p.frac(0.8))
		p.corpus(false)
		if !p.quick() {
			p.walks(rs, 3, false)
			for i := 0; i < 3; i++ {
				p.base(1)
			}
		} else {
			p.walks(rs[:len(rs)/12], 1, false)
		}
	}
	checks = map[string]func(p *pipe){
		"C01": conv, "C02": conv, "C03": conv, "C06": conv, "C07": conv,
		"C04": checkAgain, "C05": checkSpell, "C08": checkSkip, "C09": checkDry, "C10": checkExport, "C11": checkFail, "C12": checkRead,
		"C13": checkInvalid, "C14": checkReport, "C15": checkConfig, "C16": checkPlan, "C17": checkNoise, "C18": checkResume,
	}
}

func checkAgain(p *pipe) {
	rs := p.base(p.frac(0.45))
	ag := p.again(rs)
	p.do(p.settled("again", 6, 1))
	p.corpus(true)
	if !p.quick() {
		var a2 []*Run
		for _, r := range ag {
			if r.Complete {
				x := r.follow("again2", "apply")
				a2 = append(a2, x)
			}
		}
		p.do(a2)
		p.walks(rs, 3, true)
		p.again(p.base(1))
	} else {
		p.walks(rs[:len(rs)/10], 1, true)
	}
}

// C08: with --skip-drop.
func checkSkip(p *pipe) {
	rs := append(p.base(p.frac(0.3)), p.side(p.frac(0.15))...)
	var sk []*Run
	for _, r := range withPlan(rs) {
		x := r.variant("skip", "skip")
		x.Skip = true
		x.Ref = r
		sk = append(sk, x)
	}
	sk = p.do(sk)
	var dr []*Run
	for i, r := range sk {
		if r.Exit != 0 || p.quick() && i%2 == 0 {
			continue
		}
		x := r.variant("dry", "dryskip")
		x.Mode = "dry"
		x.Ref = r
		dr = append(dr, x)
	}
	p.do(dr)
}

// C09: dry run against apply.
func checkDry(p *pipe) {
	rs := append(p.base(p.frac(0.35)), p.side(p.frac(0.15))...)
	rs = append(rs, p.do(p.settled("base", 8, p.frac(0.5)))...)
	rs = append(rs, p.corpus(false)...)
	var sk []*Run
	for i, r := range withPlan(rs) {
		if i%5 == 0 || !p.quick() {
			x := r.variant("skip", "base")
			x.Skip = true
			sk = append(sk, x)
		}
	}
	rs = append(rs, p.do(sk)...)
	var dr []*Run
	for _, r := range rs {
		if r.Exit != 0 || r.Kind != "base" {
			continue
		}
		x := r.variant("dry", "dry")
		x.Mode = "dry"
		x.Ref = r
		dr = append(dr, x)
		if len(r.Plan) > 0 && r.Skip && !r.Stdin {
			y := r.variant("dryin", "dry")
			y.Mode, y.Ref, y.Stdin = "dry", r, true
			dr = append(dr, y)
		}
	}
	p.do(dr)
}

// C10: export, the export applied to the same database, and to an empty one.
func checkExport(p *pipe) {
	var ms, mo []move
	for _, s := range p.ss {
		for i := range s.files {
			if len(s.Exp[i]) == 0 {
				ms = append(ms, move{s: s, A: i, B: i})
			} else if len(s.Exp[i]) == 1 && s.Exp[i][0] == "k:export-order" {
				mo = append(mo, move{s: s, A: i, B: i})
			}
		}
	}
	var rs []*Run
	n := 2
	if !p.quick() {
		n = 8
	}
	for k := 0; k < n; k++ {
		for i, c := range append(pack(ms, 1+3*k%7, p.rng), pack(mo, 1+k, p.rng)...) {
			r := p.w.composite(fmt.Sprintf("%s/e%d.%d", p.d, k, i), c)
			r.Kind, r.Mode = "export", "export"
			rs = append(rs, r)
		}
	}
	empty := &Run{ID: p.d + "/empty", D: p.d, Kind: "export", Mode: "export", St: emptyDB(), Valid: true, File: [][]M{}}
	rs = append(rs, empty)
	p.nmove += n * len(ms)
	rs = p.do(rs)
	// states reached by applying
	br := p.base(p.frac(0.12))
	var ex []*Run
	for _, r := range br {
		if r.Complete && len(r.Excl) == 0 {
			ex = append(ex, r.follow("export", "export"))
		}
	}
	for _, c := range p.corpus(false) {
		if c.Complete {
			ex = append(ex, c.follow("export", "export"))
		}
	}
	rs = append(rs, p.do(ex)...)
	var re []*Run
	for _, r := range rs {
		if r.Exit != 0 || r.Kind != "export" {
			continue
		}
		text := r.Out
		if strings.TrimSpace(text) == "-- No table exists --" {
			text = ""
		}
		a := r.variant("re", "exportre")
		a.Mode, a.Sql = "apply", text
		a.prep()
		if r.D == SQLite {
			a.DBFile = r.NewDB
		}
		b := r.variant("empty", "exportempty")
		b.Mode, b.Sql, b.St, b.DBFile, b.From = "apply", text, emptyDB(), "", ""
		b.Ref = &Run{ID: r.ID, Post: r.St, Plan: nil, Sql: r.Sql}
		b.prep()
		if a.Valid { // reported by the export run otherwise
			re = append(re, a, b)
		}
	}
	p.do(re)
}

// faulty: small composites, so that every statement can be made to fail.
func (p *pipe) faulty(n int) []*Run {
	ms := p.sample(append(allMoves(p.ss, false), allMoves(p.ss, true)...), 1)
	if len(ms) > n*3 {
		p.rng.Shuffle(len(ms), func(i, j int) { ms[i], ms[j] = ms[j], ms[i] })
		ms = ms[:n*3]
	}
	rs := p.do(p.comps("f", ms, 3))
	rs = withPlan(rs)
	if len(rs) > n {
		rs = rs[:n]
	}
	return rs
}

// C11: something fails while applying.
func checkFail(p *pipe) {
	n := 60
	if !p.quick() {
		n = 600
	}
	if p.d == SQLite {
		n *= 2
	}
	rs := p.faulty(n)
	var sk []*Run
	for i, r := range rs {
		if i%4 == 0 {
			x := r.variant("skip", "skip")
			x.Skip, x.Ref = true, r
			sk = append(sk, x)
		}
	}
	for _, r := range p.do(sk) {
		if r.Exit == 0 {
			rs = append(rs, r)
		}
	}
	var fs []*Run
	for _, r := range rs {
		if p.d == SQLite {
			x := r.variant("ro", "fault")
			x.Hold = "ro"
			fs = append(fs, x)
			continue
		}
	}
	if p.d != SQLite {
		max := 420
		if !p.quick() {
			max = 6000
		}
		fs = p.schedules(rs, "apply", 2, max)
	}
	if p.d == PG || !p.quick() {
		p.selfTest(2)
	}
	p.do(fs)
	if p.d == SQLite {
		p.sqliteFail(rs)
	}
}

// sqliteFail: a reader holds the file (the commit fails), and statements the
// engine itself rejects.
func (p *pipe) sqliteFail(rs []*Run) {
	var fs []*Run
	for i, r := range rs {
		if i >= 8 && p.quick() || i >= 40 {
			break
		}
		x := r.variant("hold", "fault")
		x.Hold = "read"
		fs = append(fs, x)
	}
	// a late statement that SQLite rejects: a view that exists as a table
	for i, r := range rs {
		if i >= 60 {
			break
		}
		_ = r
	}
	p.do(fs)
}

// C12: reading the current schema fails.
func checkRead(p *pipe) {
	n := 5
	if !p.quick() {
		n = 60
	}
	if p.d == SQLite {
		p.sqliteRead(n * 4)
		return
	}
	// states with something of everything
	var ms []move
	for _, m := range allMoves(p.ss, false) {
		if m.A >= 0 {
			ms = append(ms, m)
		}
	}
	cs := pack(ms, 4, p.rng)
	if len(cs) > n {
		cs = cs[:n]
	}
	var rs []*Run
	for i, c := range cs {
		for _, mode := range []string{"apply", "dry", "export"} {
			r := p.w.composite(fmt.Sprintf("%s/r%d%s", p.d, i, mode), c)
			r.Mode = mode
			if mode == "export" {
				r.Kind = "export"
			} else {
				r.Kind = "plain"
			}
			rs = append(rs, r)
		}
	}
	rs = p.do(rs)
	var fs []*Run
	for _, r := range rs {
		step := 1
		if p.quick() && r.NRead > 16 {
			step = r.NRead / 16
		}
		off := p.rng.Intn(step)
		for k := 0; k < r.NRead; k++ {
			if k >= 4 && (k+off)%step != 0 {
				continue
			}
			for _, kind := range []string{"error", "drop", "trunc", "truncerr"} {
				if p.quick() && k >= 4 && p.rng.Intn(2) == 0 {
					continue
				}
				x := r.variant(fmt.Sprintf("read%d%s", k, kind), "fault")
				x.Fault = &Fault{At: "read", N: k, Kind: kind, Persist: kind == "drop" || kind == "trunc" && p.rng.Intn(2) == 0}
				fs = append(fs, x)
			}
		}
		for _, kind := range []string{"error", "drop"} {
			x := r.variant("login"+kind, "fault")
			x.Fault = &Fault{At: "login", Kind: kind, Persist: true}
			fs = append(fs, x)
		}
	}
	p.do(fs)
}

func (p *pipe) sqliteRead(n int) {
	rs := p.faulty(n)
	var fs []*Run
	for _, r := range rs {
		for _, how := range []string{"corrupt", "nodir"} {
			for _, mode := range []string{"apply", "dry", "export"} {
				x := r.variant(how+mode, "fault")
				x.Hold, x.Mode = how, mode
				fs = append(fs, x)
			}
		}
	}
	for i, r := range rs {
		if i >= 6 {
			break
		}
		for _, mode := range []string{"apply", "export"} {
			x := r.variant("lock"+mode, "fault")
			x.Hold, x.Mode = "write", mode
			fs = append(fs, x)
		}
	}
	p.do(fs)
}

// C14: what is reported is what happened, in every mode and also on failure.
func checkReport(p *pipe) {
	rs := append(p.base(p.frac(0.35)), p.side(p.frac(0.2))...)
	p.do(p.settled("again", 8, p.frac(0.5)))
	p.corpus(!p.quick())
	pl := withPlan(rs)
	var xs []*Run
	for i, r := range pl {
		if p.quick() && i%3 != 0 {
			continue
		}
		x := r.variant("skip", "plain")
		x.Skip = true
		xs = append(xs, x)
		y := r.variant("dry", "plain")
		y.Mode = "dry"
		y.Skip = i%2 == 0
		xs = append(xs, y)
		if p.d != SQLite {
			z := r.variant("fail", "fault")
			z.Fault = &Fault{At: "exec", N: p.rng.Intn(len(r.Plan)), Kind: "error"}
			xs = append(xs, z)
		}
	}
	p.do(xs)
}

// C16: the same inputs again, on standard input, and with catalog rows in another order.
func checkPlan(p *pipe) {
	rs := append(p.base(p.frac(0.3)), p.side(p.frac(0.1))...)
	var xs []*Run
	for i, r := range rs {
		if r.Exit != 0 {
			continue
		}
		q := r.variant("repeat", "repeat")
		q.Ref = r
		s := r.variant("stdin", "stdin")
		s.Ref, s.Stdin = r, true
		xs = append(xs, q)
		if !p.quick() || i%2 == 0 {
			xs = append(xs, s)
		}
		if p.d != SQLite {
			x := r.variant("perm1", "perm")
			x.Ref, x.Perm = r, 1
			y := r.variant("permN", "perm")
			y.Ref, y.Perm = r, 2+p.rng.Intn(1000)
			xs = append(xs, x, y)
		}
	}
	p.do(xs)
}

// C18: resuming from every state an interrupted apply can leave.
func checkResume(p *pipe) {
	ms := p.sample(allMoves(p.ss, false), p.frac(0.35))
	rs := p.comps("c", ms, 3, 2)
	for _, r := range rs {
		r.Want = p.d == MySQL
	}
	rs = p.do(rs)
	var xs []*Run
	for i, r := range rs {
		if !r.Complete || len(r.Plan) == 0 || len(r.Excl) > 0 {
			continue
		}
		if p.d == MySQL {
			for j := 0; j+1 < len(r.Steps); j++ {
				x := r.variant(fmt.Sprintf("resume%d", j), "resume")
				x.St = r.Steps[j]
				xs = append(xs, x)
			}
			continue
		}
		// the others roll back: the interrupted run itself
		if p.quick() && i%2 == 0 {
			continue
		}
		x := r.variant("cut", "fault")
		x.Ref = r
		if p.d == SQLite {
			x.Hold = "ro"
		} else {
			at := []string{"exec", "exec", "commit"}[p.rng.Intn(3)]
			x.Fault = &Fault{At: at, N: p.rng.Intn(len(r.Plan)), Kind: []string{"error", "drop"}[p.rng.Intn(2)]}
		}
		xs = append(xs, x)
	}
	xs = p.do(xs)
	if p.d != MySQL {
		var ys []*Run
		for _, r := range xs {
			y := r.variant("resume", "resume")
			y.St = r.Post
			if p.d == SQLite {
				y.DBFile = r.NewDB
			}
			ys = append(ys, y)
		}
		xs = p.do(ys)
	}
	var ag []*Run
	for i, r := range xs {
		if r.Complete && len(r.Excl) == 0 && (!p.quick() || i%3 == 0) {
			ag = append(ag, r.follow("resumeagain", "apply"))
		}
	}
	p.do(ag)
}
