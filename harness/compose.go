package main

import (
	"fmt"
	"math/rand"
	"os"
	"sort"
	"strings"
	"sync"
)

// Composite transitions: many independent slots changing in one run.

type slotInfo struct {
	*slot
	St    []M
	File  [][][]M
	Ok    []bool
	Excl  map[[2]int][]string // indices start at 0; -1 is the empty schema
	Exp   [][]string
	Same  [][]int // variants that mean the same (only for C05)
	dbs   []string
	small bool
}

// slotInfos loads the slots of a dialect and has TLC evaluate them.
func (w *world) slotInfos(d, only string, eq bool, more ...*slot) []*slotInfo {
	var out []*slotInfo
	var tasks []interface{}
	by := map[string]*slotInfo{}
	for _, s := range append(loadSlices(d), more...) {
		if only != "" && s.Name != only && !s.gen {
			continue
		}
		x := &slotInfo{slot: s, Excl: map[[2]int][]string{}}
		fs := [][][]M{}
		for i, t := range s.files {
			f, e := parseFile(d, stripComments(t))
			if e != "" {
				die("slot %s/%s variant %d: %s", d, s.Name, i, e)
			}
			fs = append(fs, f)
		}
		x.File = fs
		by[s.Name] = x
		out = append(out, x)
		tasks = append(tasks, M{"id": s.Name, "d": d, "files": fs, "eq": eq})
	}
	res := w.tl.run("Slots", tasks)
	bad := map[*slotInfo][]int{}
	for n, r := range res {
		if r["same"] == nil {
			die("slot %s: %.300v", n, r)
		}
		x := by[n]
		for i, v := range r["m"].([]interface{}) {
			m := v.(map[string]interface{})
			if m["ok"] != true {
				if x.gen {
					bad[x] = append(bad[x], i)
					x.St = append(x.St, nil)
					if os.Getenv("VERIF_GEN") != "" {
						fmt.Printf("%s/%s/%d: %v\n%s\n", d, n, i, m["why"], x.files[i])
					}
					continue
				}
				die("slot %s/%s variant %d: %v\n%s", d, n, i, m["why"], x.files[i])
			}
			x.St = append(x.St, M(m["st"].(map[string]interface{})))
		}
		for _, v := range r["excl"].([]interface{}) {
			m := v.(map[string]interface{})
			a, b := int(m["a"].(float64))-1, int(m["b"].(float64))-1
			for _, y := range m["why"].([]interface{}) {
				x.Excl[[2]int{a, b}] = append(x.Excl[[2]int{a, b}], y.(string))
			}
		}
		x.Same = make([][]int, len(x.files))
		for _, v := range r["same"].([]interface{}) {
			q := v.([]interface{})
			a, b := int(q[0].(float64))-1, int(q[1].(float64))-1
			x.Same[a] = append(x.Same[a], b)
		}
		for _, v := range r["exp"].([]interface{}) {
			var l []string
			for _, y := range v.([]interface{}) {
				l = append(l, y.(string))
			}
			x.Exp = append(x.Exp, l)
		}
	}
	for x, l := range bad {
		x.without(l)
	}
	return out
}

// without leaves variants out.
func (x *slotInfo) without(l []int) {
	to := map[int]int{-1: -1}
	n := 0
	y := *x
	x.St, x.File, x.Exp, x.files = nil, nil, nil, nil
	for i := range y.files {
		out := false
		for _, j := range l {
			out = out || i == j
		}
		if out {
			continue
		}
		to[i] = n
		n++
		x.St, x.File, x.Exp, x.files = append(x.St, y.St[i]), append(x.File, y.File[i]), append(x.Exp, y.Exp[i]), append(x.files, y.files[i])
	}
	ex := map[[2]int][]string{}
	for k, v := range x.Excl {
		a, ok := to[k[0]]
		b, ok2 := to[k[1]]
		if ok && ok2 {
			ex[[2]int{a, b}] = v
		}
	}
	x.Excl = ex
	same := make([][]int, len(x.files))
	for i, l := range x.Same {
		if a, ok := to[i]; ok {
			for _, j := range l {
				if b, ok := to[j]; ok {
					same[a] = append(same[a], b)
				}
			}
		}
	}
	x.Same = same
}

// A move takes one slot from variant A to variant B (-1: the slot is absent).
type move struct {
	s    *slotInfo
	A, B int
	as   *spelling // another spelling of variant B
}

func (m move) String() string { return fmt.Sprintf("%s/%d>%d", m.s.Name, m.A, m.B) }

func (m move) excl() []string { return m.s.Excl[[2]int{m.A, m.B}] }

func (s *slotInfo) text(i int) string {
	if i < 0 {
		return ""
	}
	return s.files[i]
}

// moves lists every move of the slots, without those that change nothing.
func allMoves(ss []*slotInfo, excluded bool) []move {
	var out []move
	for _, s := range ss {
		n := len(s.files)
		for a := -1; a < n; a++ {
			for b := -1; b < n; b++ {
				if a == b || a >= 0 && b >= 0 && s.files[a] == s.files[b] {
					continue
				}
				m := move{s: s, A: a, B: b}
				if (len(m.excl()) > 0) == excluded {
					out = append(out, m)
				}
			}
		}
	}
	return out
}

// shift adds off to every object id of a state.
func shift(v interface{}, off int) interface{} {
	switch x := v.(type) {
	case map[string]interface{}:
		o := map[string]interface{}{}
		for k, y := range x {
			if f, ok := y.(float64); ok && k == "id" {
				o[k] = f + float64(off)
			} else {
				o[k] = shift(y, off)
			}
		}
		return o
	case []interface{}:
		o := make([]interface{}, len(x))
		for i, y := range x {
			o[i] = shift(y, off)
		}
		return o
	}
	return v
}

// merge puts the schemas of several slots into one database.
func merge(sts []M) M {
	nid := 0
	out := M{"tables": []interface{}{}, "views": []interface{}{}, "trigs": []interface{}{}}
	for _, st := range sts {
		for _, k := range []string{"tables", "views", "trigs"} {
			l, _ := st[k].([]interface{})
			for _, y := range l {
				out[k] = append(out[k].([]interface{}), shift(y, nid))
			}
		}
		nid += int(st["nid"].(float64))
	}
	out["nid"] = float64(nid + 1)
	return out
}

// composite makes one base run out of moves of distinct slots.
func (w *world) composite(id string, ms []move) *Run {
	var from, to []string
	var sts []M
	file := [][]M{}
	names := []string{}
	for _, m := range ms {
		if m.A >= 0 {
			from = append(from, m.s.files[m.A])
			sts = append(sts, m.s.St[m.A])
		}
		if m.B >= 0 {
			if m.as != nil {
				to = append(to, m.as.text)
				file = append(file, m.as.file...)
			} else {
				to = append(to, m.s.files[m.B])
				file = append(file, m.s.File[m.B]...)
			}
		}
		names = append(names, m.String())
	}
	d := ms[0].s.D
	r := &Run{ID: id, D: d, Kind: "base", Mode: "apply", Tag: strings.Join(names, " "), St: merge(sts), Sql: strings.Join(to, "\n"), File: file, Valid: true,
		From: strings.Join(from, "\n"), Moves: ms}
	return r
}

// withDBs creates the SQLite database files of runs.
func (w *world) withDBs(rs []*Run) {
	var wg sync.WaitGroup
	ch := make(chan *Run)
	for i := 0; i < 4; i++ {
		wg.Add(1)
		go func() {
			defer wg.Done()
			for r := range ch {
				f, err := w.sqliteMake(r.From)
				if err != nil {
					die("%s: sqlite: %v\n%s", r.ID, err, r.From)
				}
				r.DBFile = f
			}
		}()
	}
	for _, r := range rs {
		if r.D == SQLite && r.DBFile == "" {
			ch <- r
		}
	}
	close(ch)
	wg.Wait()
}

// pack distributes moves over composites of at most size moves of distinct slots.
func pack(ms []move, size int, rng *rand.Rand) [][]move {
	ms = append([]move{}, ms...)
	rng.Shuffle(len(ms), func(i, j int) { ms[i], ms[j] = ms[j], ms[i] })
	by := map[string][]move{}
	var names []string
	for _, m := range ms {
		if by[m.s.Name] == nil {
			names = append(names, m.s.Name)
		}
		by[m.s.Name] = append(by[m.s.Name], m)
	}
	var out [][]move
	for {
		// the slots with most moves left go first
		sort.SliceStable(names, func(i, j int) bool { return len(by[names[i]]) > len(by[names[j]]) })
		var c []move
		for _, n := range names {
			if len(by[n]) == 0 || len(c) == size {
				break
			}
			c = append(c, by[n][0])
			by[n] = by[n][1:]
		}
		if len(c) == 0 {
			return out
		}
		rng.Shuffle(len(c), func(i, j int) { c[i], c[j] = c[j], c[i] })
		out = append(out, c)
	}
}

func fromEnvInt(k string, def int) int {
	n := def
	fmt.Sscan(os.Getenv(k), &n)
	return n
}
