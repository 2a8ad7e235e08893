package main

import (
	"database/sql"
	"fmt"
	"os"
)

// meaning of a desired file: what executing it on an empty database gives.
type meaning struct {
	File [][]M
	St   M
	Ok   bool
	Why  string
	DB   string // SQLite: a database file with that schema
}

// meanings computes the meaning of all the given files (dialect, text).
func (w *world) meanings(fs [][2]string) map[[2]string]*meaning {
	out := map[[2]string]*meaning{}
	var tasks []interface{}
	for _, f := range fs {
		if out[f] != nil {
			continue
		}
		m := &meaning{}
		out[f] = m
		if f[1] == "" {
			m.St, m.Ok = emptyDB(), true
			continue
		}
		file, e := parseFile(f[0], stripComments(f[1]))
		if e != "" {
			m.Why = e
			continue
		}
		m.File = file
		tasks = append(tasks, M{"id": f[0] + "\x00" + f[1], "d": f[0], "st": emptyDB(), "file": file, "refuse": false})
	}
	res := w.tl.run("Desired", tasks)
	for _, f := range fs {
		m := out[f]
		o, ok := res[f[0]+"\x00"+f[1]]
		if !ok {
			continue
		}
		m.Ok = o["ok"] == true
		if x, ok := o["st"].(map[string]interface{}); ok {
			m.St = x
		}
		if !m.Ok {
			m.Why = fmt.Sprint(o["why"])
		} else if f[0] == SQLite && m.DB == "" {
			db, err := w.sqliteMake(f[1])
			if err != nil {
				m.Ok = false
				m.Why = "sqlite: " + err.Error()
			}
			m.DB = db
		}
	}
	return out
}

// sqliteMake creates a database file by executing a schema file.
func (w *world) sqliteMake(text string) (string, error) {
	f := w.path(".db")
	if text == "" {
		return f, os.WriteFile(f, nil, 0o644)
	}
	db, err := sql.Open("sqlite3", "file:"+f)
	if err != nil {
		return "", err
	}
	defer db.Close()
	_, err = db.Exec(text)
	return f, err
}

// baseRuns turns transitions into apply runs; transitions with files that
// mean nothing are reported.
func (w *world) baseRuns(ts []*trans) []*Run {
	var fs [][2]string
	for _, t := range ts {
		fs = append(fs, [2]string{t.D, t.From}, [2]string{t.D, t.To})
	}
	ms := w.meanings(fs)
	seen := map[[2]string]bool{}
	var rs []*Run
	for _, t := range ts {
		bad := false
		for _, f := range [][2]string{{t.D, t.From}, {t.D, t.To}} {
			if m := ms[f]; !m.Ok {
				bad = true
				if !seen[f] {
					seen[f] = true
					fmt.Fprintf(os.Stderr, "BAD FILE %s: %s\n%s\n", t.ID, m.Why, f[1])
				}
			}
		}
		if bad {
			continue
		}
		a, b := ms[[2]string{t.D, t.From}], ms[[2]string{t.D, t.To}]
		rs = append(rs, &Run{ID: t.ID, D: t.D, Kind: "base", St: a.St, DBFile: a.DB, Sql: t.To, Mode: "apply", Tag: t.ID,
			File: b.File, Valid: true})
	}
	return rs
}

// follow makes a run of the same file on what another run left.
func (r *Run) follow(kind, mode string) *Run {
	return &Run{ID: r.ID + "/" + kind, D: r.D, Kind: kind, St: r.Post, DBFile: r.NewDB, Sql: r.Sql, Mode: mode, Tag: r.Tag, File: r.File, Valid: r.Valid}
}
