package main

import (
	"fmt"
	"strings"
)

// From observations to trace records for module Check, and back.

// splitOut splits program output into items.
func splitOut(d, mode, t string) []Item {
	out := []Item{}
	if mode == "export" {
		if t != "" {
			out = append(out, Item{W: "note", Ops: []M{}})
		}
		return out
	}
	for _, x := range strings.Split(t, ";\n") {
		for {
			switch {
			case strings.HasPrefix(x, "-- Apply --\n"):
				out = append(out, Item{W: "apply", Ops: []M{}})
				x = x[len("-- Apply --\n"):]
				continue
			case strings.HasPrefix(x, "-- dry run --\n"):
				out = append(out, Item{W: "dry", Ops: []M{}})
				x = x[len("-- dry run --\n"):]
				continue
			case strings.HasPrefix(x, "-- Nothing is modified --\n"):
				out = append(out, Item{W: "nothing", Ops: []M{}})
				x = x[len("-- Nothing is modified --\n"):]
				continue
			}
			break
		}
		if x == "" {
			continue
		}
		it := Item{W: "stmt", Txt: x}
		if strings.HasPrefix(x, "-- Skipped: ") {
			it.W = "skip"
			it.Txt = x[len("-- Skipped: "):]
		}
		k, ops, _ := parseStmt(d, it.Txt)
		it.Kind = k
		it.Ops = ops
		if it.Ops == nil {
			it.Ops = []M{}
		}
		out = append(out, it)
	}
	return out
}

func (r *Run) items() []Item {
	var out []Item
	for _, e := range r.Ev {
		out = append(out, e.Items...)
	}
	return out
}

// finish turns the recorded chunks into items.
func (r *Run) finish() {
	ev := []Event{}
	for _, e := range r.Ev {
		if e.Ops == nil {
			e.Ops = []M{}
		}
		if e.Items == nil {
			e.Items = []Item{}
		}
		if e.K == "print" && len(e.Items) == 0 {
			if n := len(ev); n > 0 && ev[n-1].K == "print" {
				ev[n-1].chunk += e.chunk
				continue
			}
		}
		ev = append(ev, e)
	}
	for i := range ev {
		if ev[i].K == "print" && len(ev[i].Items) == 0 {
			ev[i].Items = splitOut(r.D, r.Mode, ev[i].chunk)
		}
	}
	r.Ev = ev
	for _, it := range r.items() {
		if it.W == "stmt" || it.W == "skip" {
			r.Plan = append(r.Plan, it)
		}
	}
}

// sqliteEvents reconstructs the events of a run on the real SQLite engine
// from its output and exit status (the resulting file is compared afterwards).
func sqliteEvents(r *Run, s *session) {
	items := splitOut(r.D, r.Mode, r.Out)
	var ev []Event
	add := func(e Event) { ev = append(ev, e) }
	add(Event{K: "login", Ok: true})
	readBad := r.Hold == "write" || r.Hold == "corrupt" || r.Hold == "nodir"
	add(Event{K: "read", Ok: !readBad, Inj: readBad, N: 1})
	n := 0
	last := -1
	for i, it := range items {
		if it.W == "stmt" {
			n++
			last = i
		}
	}
	begun := false
	for i, it := range items {
		add(Event{K: "print", Ok: true, Items: []Item{it}})
		if r.Mode != "apply" || it.W == "nothing" {
			continue
		}
		if it.W == "apply" {
			add(Event{K: "begin", Ok: true})
			begun = true
			continue
		}
		if it.W != "stmt" {
			continue
		}
		e := Event{K: "exec", Ok: true, Tx: true, Txt: it.Txt, Kind: it.Kind, Ops: it.Ops}
		if i == last && r.Exit != 0 && r.Hold != "read" {
			e.Ok = false
			e.Inj = r.Hold == "ro"
		} else if r.Hold == "ro" {
			e.Ok, e.Inj = false, true
		}
		add(e)
	}
	if begun {
		switch {
		case r.Hold == "read" && n > 0:
			add(Event{K: "commit", Ok: false, Inj: true})
		case r.Exit != 0:
			add(Event{K: "rollback", Ok: true})
		default:
			add(Event{K: "commit", Ok: true, Eff: true})
		}
	}
	r.Ev = ev
}

// realFile parses the objects of a SQLite database into a file.
func (r *Run) realFile() (M, error) {
	f := [][]M{}
	for _, o := range r.RealDB {
		if o.Sql == "" {
			continue
		}
		k, ops, e := parseStmt(SQLite, o.Sql)
		if k != "ddl" {
			ops = []M{{"op": "unreadable (" + e + "): " + o.Sql}}
		}
		f = append(f, ops)
	}
	return M{"has": r.D == SQLite && r.RealDB != nil, "file": f}, nil
}

func planOf(r *Run) []M {
	out := []M{}
	for _, it := range r.Plan {
		out = append(out, M{"w": it.W, "txt": it.Txt})
	}
	return out
}

func (r *Run) task() M {
	file := r.File
	if file == nil {
		file = [][]M{}
	}
	real, err := r.realFile()
	if err != nil {
		die("run %s: cannot parse the resulting SQLite schema: %v", r.ID, err)
	}
	st := r.St
	if st == nil {
		st = emptyDB()
	}
	ref := M{"has": false, "plan": []M{}, "post": emptyDB()}
	if r.Ref != nil {
		post := r.Ref.Post
		if post == nil {
			post = emptyDB()
		}
		ref = M{"has": true, "plan": planOf(r.Ref), "post": post}
	}
	exp := M{"has": false, "ok": false, "why": "", "file": [][]M{}}
	if r.Mode == "export" && r.Exit == 0 {
		t := r.Out
		if strings.TrimSpace(t) == "-- No table exists --" {
			t = ""
		}
		f, e := parseFile(r.D, t)
		if e != "" {
			f = [][]M{}
		}
		exp = M{"has": true, "ok": e == "", "why": e, "file": f}
	}
	said := strings.TrimSpace(r.Err) != ""
	msg := strings.TrimSpace(r.Err)
	if len(msg) > 300 {
		msg = msg[:300]
	}
	return M{"id": r.ID, "d": r.D, "kind": r.Kind, "mode": r.Mode, "skip": r.Skip, "valid": r.Valid, "st": st, "file": file,
		"ev": r.Ev, "ref": ref, "real": real, "exp": exp, "want": r.Want, "fault": r.Fault != nil || r.Hold != "",
		"exit": M{"code": r.Exit, "said": said, "msg": msg, "exported": r.Mode == "export" && strings.Contains(strings.ToUpper(r.Out), "CREATE ")}}
}

// check validates the runs' traces with TLC and fills in V, Post and Steps.
func (w *world) check(rs []*Run) {
	var tasks []interface{}
	for i, r := range rs {
		if r.ID == "" {
			r.ID = fmt.Sprintf("r%d.%d", w.batch, i)
		}
		tasks = append(tasks, r.task())
		w.events += len(r.Ev) + 1
	}
	w.batch++
	res := w.tl.run("Check", tasks)
	for _, r := range rs {
		o := res[r.ID]
		if l, ok := o["viol"].([]interface{}); ok {
			for _, x := range l {
				v := x.(map[string]interface{})
				r.V = append(r.V, Viol{v["p"].(string), v["what"].(string)})
			}
		}
		if l, ok := o["excl"].([]interface{}); ok {
			for _, x := range l {
				r.Excl = append(r.Excl, x.(string))
			}
		}
		r.judge()
		if p, ok := o["post"].(map[string]interface{}); ok {
			r.Post = p
		}
		if l, ok := o["steps"].([]interface{}); ok {
			for _, x := range l {
				r.Steps = append(r.Steps, x.(map[string]interface{}))
			}
		}
		r.Complete = o["complete"] == true
	}
	sortViols(rs)
}

// convergence lists the properties that speak about supported changes only.
var convergence = map[string]bool{"C01": true, "C02": true, "C03": true, "C04": true, "C05": true, "C06": true, "C07": true, "C17": true, "C18": true}

// judge sets aside what Domain.tla says is not to be judged.
func (r *Run) judge() {
	if len(r.Excl) == 0 {
		return
	}
	exported := r.Kind == "export" || r.Kind == "exportre" || r.Kind == "exportempty"
	var v []Viol
	for _, x := range r.V {
		if convergence[x.P] || exported && x.P == "C10" {
			r.X = append(r.X, x)
		} else {
			v = append(v, x)
		}
	}
	r.V = v
}

// desired computes what files mean (schema on the empty database).
func (w *world) desired(d string, files [][][]M) []M {
	var tasks []interface{}
	for i, f := range files {
		tasks = append(tasks, M{"id": fmt.Sprint(i), "d": d, "st": emptyDB(), "file": f, "refuse": false})
	}
	res := w.tl.run("Desired", tasks)
	out := make([]M, len(files))
	for i := range files {
		out[i] = res[fmt.Sprint(i)]
	}
	return out
}
