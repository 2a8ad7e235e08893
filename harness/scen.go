package main

import (
	"fmt"
	"strings"
)

// prep parses the desired file of a run and sets File/Valid.
func (r *Run) prep() *Run {
	f, e := parseFile(r.D, stripComments(r.Sql))
	if e != "" {
		r.Why = e
		r.Valid = false
		return r
	}
	r.File = f
	r.Valid = true
	return r
}

// stripComments drops whole-line comments, as the tool documents.
func stripComments(s string) string {
	ls := strings.Split(s, "\n")
	out := ls[:0]
	for _, l := range ls {
		if strings.HasPrefix(strings.TrimSpace(l), "--") {
			continue
		}
		out = append(out, l)
	}
	return strings.Join(out, "\n")
}

// A chain is a history: desired files applied one after the other.
type chain struct {
	D     string
	Name  string
	Files []string
	st    M
	db    string
	dead  bool
	Runs  []*Run
}

func corpusChains(d string) []*chain {
	var out []*chain
	for _, c := range loadCorpus(d) {
		ch := &chain{D: d, Name: "corpus/" + corpusFile[d] + "/" + c.Id}
		for _, s := range c.Steps {
			if s.K == "apply" {
				ch.Files = append(ch.Files, strings.ReplaceAll(strings.ReplaceAll(s.Sql, "mysqldef_test", "app"), "psqldef_test", "app"))
			}
		}
		out = append(out, ch)
	}
	return out
}

// runChains advances all chains in lockstep: every file is applied to the
// state the previous one left, and probe() may add runs on the side.
func (w *world) runChains(cs []*chain, again bool) {
	for i := 0; ; i++ {
		var rs []*Run
		var live []*chain
		for _, c := range cs {
			if c.dead || i >= len(c.Files) {
				continue
			}
			if c.st == nil {
				c.st = emptyDB()
			}
			r := (&Run{ID: fmt.Sprintf("%s#%d", c.Name, i), D: c.D, Kind: "base", St: c.st, DBFile: c.db, Sql: c.Files[i], Mode: "apply", Tag: c.Name}).prep()
			if !r.Valid {
				fmt.Println("UNPARSED", c.Name, i, r.Why)
				c.dead = true
				continue
			}
			c.Runs = append(c.Runs, r)
			rs = append(rs, r)
			live = append(live, c)
		}
		if len(rs) == 0 {
			return
		}
		w.runAll(rs)
		w.check(rs)
		var ag []*Run
		for j, c := range live {
			r := rs[j]
			if !r.Complete {
				c.dead = true
				continue
			}
			c.st = r.Post
			c.db = r.NewDB
			if again {
				a := (&Run{ID: r.ID + "/again", D: c.D, Kind: "again", St: c.st, DBFile: c.db, Sql: r.Sql, Mode: "apply", Tag: c.Name}).prep()
				c.Runs = append(c.Runs, a)
				ag = append(ag, a)
				x := (&Run{ID: r.ID + "/export", D: c.D, Kind: "export", St: c.st, DBFile: c.db, Mode: "export", Tag: c.Name}).prep()
				c.Runs = append(c.Runs, x)
				ag = append(ag, x)
			}
		}
		w.runAll(ag)
		w.check(ag)
	}
}
