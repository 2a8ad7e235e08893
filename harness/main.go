package main

import (
	"encoding/json"
	"fmt"
	"io"
	"math/rand"
	"os"
	"sort"
	"strings"
	"time"
)

func die(f string, a ...interface{}) {
	fmt.Fprintf(os.Stderr, "vharness: "+f+"\n", a...)
	os.Exit(3)
}

func verifDir() string {
	if v := os.Getenv("VERIF_DIR"); v != "" {
		return v
	}
	return "/verif"
}

func main() {
	if len(os.Args) < 2 {
		fmt.Fprintln(os.Stderr, "usage: vharness parse|...")
		os.Exit(2)
	}
	switch os.Args[1] {
	case "parse":
		b, _ := io.ReadAll(os.Stdin)
		for _, s := range splitStatements(os.Args[2], string(b)) {
			k, ops, err := parseStmt(os.Args[2], s)
			j, _ := json.Marshal(ops)
			fmt.Println(k, err, string(j))
		}
	case "check":
		tier := os.Getenv("VERIF_TIER")
		if len(os.Args) > 3 {
			tier = os.Args[3]
		}
		os.Exit(runCheck(os.Args[2], tier))
	case "corpus":
		w := newWorld()
		defer w.close()
		var cs []*chain
		for _, d := range dialects {
			if len(os.Args) > 2 && !strings.Contains(os.Args[2], d) {
				continue
			}
			for _, c := range corpusChains(d) {
				if len(os.Args) > 3 && !strings.Contains(c.Name, os.Args[3]) {
					continue
				}
				cs = append(cs, c)
			}
		}
		w.runChains(cs, true)
		n := 0
		for _, c := range cs {
			for _, r := range c.Runs {
				n++
				if len(os.Args) > 3 {
					r.show(true)
				}
			}
		}
		var all []*Run
		for _, c := range cs {
			all = append(all, c.Runs...)
		}
		summary(all)
		fmt.Println(n, "runs", w.tl.stats())
	case "slices":
		w := newWorld()
		defer w.close()
		var ts []*trans
		only := ""
		if len(os.Args) > 3 {
			only = os.Args[3]
		}
		for _, d := range dialects {
			if len(os.Args) < 3 || strings.Contains(os.Args[2], d) {
				ts = append(ts, sliceTrans(d, only)...)
			}
		}
		rs := w.baseRuns(ts)
		w.runAll(rs)
		w.check(rs)
		var ag []*Run
		for _, r := range rs {
			if r.Complete && len(r.Excl) == 0 {
				ag = append(ag, r.follow("again", "apply"))
			}
		}
		w.runAll(ag)
		w.check(ag)
		rs = append(rs, ag...)
		if len(os.Args) > 4 {
			for _, r := range rs {
				if strings.HasSuffix(r.ID, os.Args[4]) {
					r.show(true)
				}
			}
		}
		summary(rs)
		fmt.Println(len(rs), "runs", w.tl.stats())
	case "comp": // comp <dialect> <size> <seed> [slot]
		w := newWorld()
		defer w.close()
		only := ""
		if len(os.Args) > 5 {
			only = os.Args[5]
		}
		t0 := time.Now()
		ss := w.slotInfos(os.Args[2], only, false)
		ms := allMoves(ss, false)
		size, seed := 6, 1
		fmt.Sscan(os.Args[3], &size)
		fmt.Sscan(os.Args[4], &seed)
		var rs []*Run
		for i, c := range pack(ms, size, rand.New(rand.NewSource(int64(seed)))) {
			rs = append(rs, w.composite(fmt.Sprintf("c%d", i), c))
		}
		w.withDBs(rs)
		fmt.Println(len(ms), "moves", len(rs), "composites", time.Since(t0))
		w.runAll(rs)
		fmt.Println("ran", time.Since(t0))
		w.check(rs)
		fmt.Println("checked", time.Since(t0))
		ne := 0
		for _, r := range rs {
			if len(r.Excl) > 0 {
				ne++
				fmt.Println(r.ID, r.Tag, r.Excl)
			}
		}
		var ag []*Run
		for _, r := range rs {
			if r.Complete && len(r.Excl) == 0 {
				ag = append(ag, r.follow("again", "apply"))
			}
		}
		w.runAll(ag)
		w.check(ag)
		rs = append(rs, ag...)
		summary(rs)
		fmt.Println(len(rs), "runs", w.tl.stats(), time.Since(t0))
	case "gen": // gen <dialect> <seed> <slots> <variants> <size> [id part to show]
		w := newWorld()
		defer w.close()
		seed, n, k, size := 1, 10, 5, 1
		fmt.Sscan(os.Args[3], &seed)
		fmt.Sscan(os.Args[4], &n)
		fmt.Sscan(os.Args[5], &k)
		fmt.Sscan(os.Args[6], &size)
		ss := w.slotInfos(os.Args[2], "-", false, genSlots(os.Args[2], int64(seed), n, k)...)
		ms, ex := allMoves(ss, false), allMoves(ss, true)
		nv := 0
		for _, s := range ss {
			nv += len(s.files)
		}
		fmt.Println(nv, "variants", len(ms), "moves", len(ex), "excluded")
		cnt := map[string]int{}
		for _, m := range ex {
			for _, e := range m.excl() {
				cnt[e]++
			}
		}
		fmt.Println(cnt)
		var rs []*Run
		for i, c := range pack(ms, size, rand.New(rand.NewSource(int64(seed)))) {
			id := fmt.Sprintf("c%d", i)
			if size == 1 {
				id = c[0].String()
			}
			rs = append(rs, w.composite(id, c))
		}
		w.withDBs(rs)
		w.runAll(rs)
		w.check(rs)
		var ag []*Run
		for _, r := range rs {
			if r.Complete && len(r.Excl) == 0 {
				ag = append(ag, r.follow("again", "apply"))
			}
		}
		w.runAll(ag)
		w.check(ag)
		rs = append(rs, ag...)
		if len(os.Args) > 7 {
			for _, r := range rs {
				if strings.Contains(r.ID, os.Args[7]) {
					fmt.Println("FROM", r.From)
					r.show(true)
				}
			}
		}
		summary(rs)
		fmt.Println(len(rs), "runs", w.tl.stats())
	case "run": // run <dialect> <from> <to>: one run, and one more
		w := newWorld()
		defer w.close()
		a, _ := os.ReadFile(os.Args[3])
		b, _ := os.ReadFile(os.Args[4])
		rs := w.baseRuns([]*trans{{"run", os.Args[2], string(a), string(b)}})
		w.runAll(rs)
		w.check(rs)
		for _, r := range rs {
			r.show(true)
			fmt.Println(r.Excl, r.V, r.X)
			if r.Complete {
				x := r.follow("again", "apply")
				w.runAll([]*Run{x})
				w.check([]*Run{x})
				x.show(true)
				fmt.Println(x.Excl, x.V, x.X)
			}
		}
	case "knownscan":
		knownScan()
	case "dump": // dump <dialect> <file>: what the tool exports for the schema of a file, and what it plans for the file itself
		w := newWorld()
		defer w.close()
		b, _ := os.ReadFile(os.Args[3])
		rs := w.baseRuns([]*trans{{"x", os.Args[2], string(b), string(b)}})
		for _, r := range rs {
			x := *r
			x.ID, x.Mode, x.Kind = "e", "export", "export"
			rs = append(rs, &x)
		}
		w.runAll(rs)
		w.check(rs)
		for _, r := range rs {
			fmt.Printf("%s\n%s\n%s\n%v\n", r.Mode, r.Out, r.Err, r.V)
		}
	case "corpus-desired":
		tl := newTLC()
		defer tl.close()
		var tasks []interface{}
		for _, d := range dialects {
			for _, c := range loadCorpus(d) {
				for i, s := range c.Steps {
					if s.K != "apply" {
						continue
					}
					f, e := parseFile(d, s.Sql)
					if e != "" {
						fmt.Println(d, c.Id, i, "PARSE", e)
						continue
					}
					tasks = append(tasks, M{"id": fmt.Sprintf("%s/%s/%d", d, c.Id, i), "d": d, "st": emptyDB(), "file": f, "refuse": false})
				}
			}
		}
		res := tl.run("Desired", tasks)
		for id, r := range res {
			if r["ok"] != true {
				fmt.Println(id, r["why"], r["at"])
			}
		}
		fmt.Println(len(tasks), "tasks", tl.stats())
	}
}

func (r *Run) show(full bool) {
	fmt.Printf("== %s %s %s exit %d\n", r.ID, r.D, r.Kind, r.Exit)
	for _, v := range r.V {
		fmt.Printf("   %s %s\n", v.P, v.What)
	}
	if full {
		fmt.Printf("--- file\n%s\n--- stdout\n%s\n--- stderr\n%s\n", r.Sql, r.Out, r.Err)
		j, _ := json.Marshal(r.Post)
		fmt.Printf("--- post %s\n", j)
		j, _ = json.Marshal(r.Ev)
		fmt.Printf("--- events %s\n", j)
	}
}

// summary groups violations by property and text.
func summary(rs []*Run) {
	cnt := map[string]int{}
	ex := map[string]string{}
	var keys []string
	for _, r := range rs {
		for _, v := range r.V {
			k := r.D + " " + v.P + " [" + r.Kind + "] " + v.What
			if cnt[k] == 0 {
				keys = append(keys, k)
				ex[k] = r.ID
			}
			cnt[k]++
		}
	}
	sort.Strings(keys)
	for _, k := range keys {
		fmt.Printf("%4d %.420s   {%s}\n", cnt[k], k, ex[k])
	}
}
