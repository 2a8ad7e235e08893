package main

import (
	"encoding/json"
	"fmt"
	"os"
	"path/filepath"
)

// Scenarios taken from the repository's own integration tests.

type cstep struct {
	K   string `json:"k"` // apply fail exec cmd file
	Sql string `json:"sql"`
	Exp string `json:"exp"`
}

type cscen struct {
	Name  string  `json:"name"`
	Id    string  `json:"id"`
	Steps []cstep `json:"steps"`
}

var corpusFile = map[string]string{MySQL: "mysql", PG: "psql", MSSQL: "mssql", SQLite: "sqlite3"}

func loadCorpus(d string) []cscen {
	b, err := os.ReadFile(filepath.Join(verifDir(), "corpus", corpusFile[d]+".json"))
	if err != nil {
		die("corpus: %v", err)
	}
	var out []cscen
	if err := json.Unmarshal(b, &out); err != nil {
		die("corpus: %v", err)
	}
	return out
}

// parseFile parses a desired file: one list of operations per statement.
func parseFile(d, sql string) ([][]M, string) {
	out := [][]M{}
	for _, s := range splitStatements(d, sql) {
		k, ops, err := parseStmt(d, s)
		if k != "ddl" {
			if err == "" {
				err = "not a DDL statement"
			}
			return nil, err + " in: " + s
		}
		out = append(out, ops)
	}
	return out, ""
}

// rawFile reads a file that may contain anything.
func rawFile(d, sql string) (out [][]M) {
	defer func() {
		if e := recover(); e != nil {
			out = [][]M{{{"op": "bad", "why": fmt.Sprint(e)}}}
		}
	}()
	for _, s := range splitStatements(d, sql) {
		k, ops, err := parseStmt(d, s)
		if k != "ddl" {
			ops = []M{{"op": "bad", "why": k + " " + err}}
		}
		out = append(out, ops)
	}
	return out
}
