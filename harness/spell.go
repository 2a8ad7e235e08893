package main

import (
	"fmt"
	"math/rand"
	"strings"
)

// Equivalent spellings of desired files (C05).  A spelling is proposed here,
// by rewriting tokens and the space between them; module Spell decides, with
// the same reading of files as everywhere else, that it means the same.

type spelling struct {
	text string
	file [][]M
}

const sqlWords = `action add after all always and as asc autoincrement auto_increment begin between bigint bigserial binary bit blob bool boolean
 bpchar btree by cascade case char character charset check clustered collate comment constraint count create current_date current_time
 current_timestamp current_user date datetime datetime2 datetimeoffset dec decimal default delete desc distinct double each else end
 engine enum exists false float for foreign from fulltext generated getdate group having identity if ignore_dup_key in include
 increment index inherit insert int integer into is join json jsonb key left like limit longblob longtext mediumblob mediumint mediumtext
 money nchar no nonclustered not now null numeric nvarchar off on or order permissive pad_index policy precision primary real
 references replication restrict restrictive row select serial set smalldatetime smallint smallmoney smallserial start
 statistics_norecompute table text then time timestamp tinyblob tinyint tinytext to trigger true union unique unsigned update using uuid
 values varbinary varchar varying view when where with without zerofill zone`

var sqlWord = func() map[string]bool {
	m := map[string]bool{}
	for _, w := range strings.Fields(sqlWords) {
		m[w] = true
	}
	return m
}()

// namesOf collects the names of a schema's tables, columns, keys and so on.
func namesOf(v interface{}, out map[string]bool) {
	switch x := v.(type) {
	case map[string]interface{}:
		for k, y := range x {
			if s, ok := y.(string); ok && (k == "n" || k == "name" || k == "c") {
				out[s] = true
			} else {
				namesOf(y, out)
			}
		}
	case []interface{}:
		for _, y := range x {
			namesOf(y, out)
		}
	}
}

var spellHow = []string{"upper", "lower", "case", "space", "comment", "quote", "all"}

func quoteAs(d, s string) string {
	switch d {
	case MySQL:
		return "`" + s + "`"
	case MSSQL:
		return "[" + s + "]"
	}
	return `"` + s + `"`
}

// respell rewrites a file.
func respell(d, src, how string, names map[string]bool, rng *rand.Rand) string {
	if d == MySQL && strings.Contains(src, "/*!") {
		return src
	}
	ts := tokenize(d, src)
	is := func(x string) bool { return how == x || how == "all" }
	var b strings.Builder
	end := 0
	lower := map[string]bool{}
	for n := range names {
		lower[strings.ToLower(n)] = true
	}
	depth := 0
	for i, t := range ts {
		gap := src[end:t.pos]
		lex := src[t.pos:t.end]
		end = t.end
		if t.k == tEOF {
			b.WriteString(gap)
			break
		}
		if gap != "" && strings.TrimSpace(gap) == "" && i > 0 {
			switch {
			case is("space") && rng.Intn(3) > 0:
				gap = []string{" ", "  ", "\n", "\t", "\n    ", " \n"}[rng.Intn(6)]
			case is("comment") && rng.Intn(4) == 0:
				gap = []string{" /* note; */ ", "\n-- a note\n", " -- a note; more\n", "\n  -- it's a 'note'\n", " /* two\n lines */ "}[rng.Intn(5)]
			}
		} else if gap == "" && i > 0 && is("space") && rng.Intn(3) == 0 && t.k == tOp && (t.s == "(" || t.s == ")" || t.s == ",") && ts[i-1].k != tOp && depth > 0 {
			gap = []string{" ", "\n"}[rng.Intn(2)]
		}
		if t.k == tOp && t.s == "(" {
			depth++
		} else if t.k == tOp && t.s == ")" {
			depth--
		}
		if t.k == tIdent {
			word := sqlWord[t.low]
			switch {
			case word && !lower[t.low]:
				switch {
				case how == "upper":
					lex = strings.ToUpper(lex)
				case how == "lower":
					lex = strings.ToLower(lex)
				case is("case"):
					bs := []byte(strings.ToLower(lex))
					for j := range bs {
						if rng.Intn(2) == 0 {
							bs[j] = strings.ToUpper(string(bs[j]))[0]
						}
					}
					lex = string(bs)
				}
			case !word && names[t.s] && is("quote") && rng.Intn(4) > 0 && (d != PG || t.s == t.low):
				lex = quoteAs(d, t.s)
			}
		}
		b.WriteString(gap)
		b.WriteString(lex)
	}
	out := b.String()
	if is("comment") {
		out = "-- a note; with a semicolon\n" + out
	}
	return out
}

// respelled proposes one spelling of every variant and keeps those that mean the same.
func (p *pipe) respelled() map[*slotInfo][]*spelling {
	var tasks []interface{}
	out := map[*slotInfo][]*spelling{}
	for _, s := range p.ss {
		for i := range s.files {
			names := map[string]bool{}
			namesOf(s.St[i], names)
			how := spellHow[p.rng.Intn(len(spellHow))]
			t := respell(p.d, s.files[i], how, names, p.rng)
			var x *spelling
			if t != s.files[i] {
				f, e := parseFile(p.d, stripComments(t))
				if e == "" {
					x = &spelling{t, f}
					tasks = append(tasks, M{"id": fmt.Sprintf("%s/%d", s.Name, i), "d": p.d, "a": s.File[i], "b": f})
				} else {
					p.note("spellings_not_understood", 1)
				}
			}
			out[s] = append(out[s], x)
		}
	}
	res := p.w.tl.run("Spell", tasks)
	for _, s := range p.ss {
		for i := range s.files {
			if out[s][i] == nil {
				continue
			}
			if r := res[fmt.Sprintf("%s/%d", s.Name, i)]; r["same"] != true {
				out[s][i] = nil
				p.note("spellings_with_another_meaning", 1)
			} else {
				p.note("spellings", 1)
			}
		}
	}
	return out
}

// C05: other spellings of a schema, against that schema and against others.
func checkSpell(p *pipe) {
	n := 1
	if !p.quick() {
		n = 6
	}
	for k := 0; k < n; k++ {
		sp := p.respelled()
		var same, other []move
		for _, s := range p.ss {
			for i := range s.files {
				for _, j := range s.Same[i] {
					if j != i && len(s.Excl[[2]int{i, j}]) == 0 && k == 0 {
						same = append(same, move{s: s, A: i, B: j})
					}
				}
				x := sp[s][i]
				if x == nil {
					continue
				}
				if len(s.Excl[[2]int{i, i}]) == 0 {
					same = append(same, move{s, i, i, x})
				}
				for _, a := range p.rng.Perm(len(s.files) + 1)[:2] {
					if a--; a != i && len(s.Excl[[2]int{a, i}]) == 0 {
						other = append(other, move{s, a, i, x})
					}
				}
			}
		}
		p.note("moves_between_spellings_of_the_same_schema", len(same))
		if p.quick() {
			other = p.sample(other, 0.6)
		}
		rs := p.comps(fmt.Sprintf("s%d", k), same, 6, 2)
		for _, r := range rs {
			r.Kind = "spellagain"
		}
		p.do(rs)
		rs = p.comps(fmt.Sprintf("o%d", k), other, 6, 2)
		for _, r := range rs {
			r.Kind = "spell"
		}
		rs = p.do(rs)
		var ag []*Run
		for i, r := range rs {
			if r.Complete && len(r.Excl) == 0 && i%3 == 0 {
				ag = append(ag, r.follow("spellagain", "apply"))
			}
		}
		p.do(ag)
	}
}
