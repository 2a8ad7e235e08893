package main

import (
	"encoding/json"
	"fmt"
	"regexp"
	"strings"
)

// C17: unrelated objects that share names with the ones being managed: in
// another schema, in another table, or (MySQL) in another database.

// relations are the names of the tables, views and triggers of a slot.
func (s *slotInfo) relations() map[string]bool {
	out := map[string]bool{}
	for _, st := range s.St {
		for _, k := range []string{"tables", "views", "trigs"} {
			l, _ := st[k].([]interface{})
			for _, x := range l {
				if n, ok := x.(map[string]interface{})["n"].(string); ok {
					out[n] = true
				}
			}
		}
	}
	return out
}

// rename puts the relations of a file into another schema, or gives them other names.
func rename(d, src, how string, rel map[string]bool) string {
	ts := tokenize(d, src)
	var b strings.Builder
	end := 0
	qualifier := map[string]bool{"public": true, "dbo": true}
	for i, t := range ts {
		b.WriteString(src[end:t.pos])
		lex := src[t.pos:t.end]
		end = t.end
		if t.k == tIdent || t.k == tQIdent {
			op := func(j int, s string) bool { return j >= 0 && j < len(ts) && ts[j].k == tOp && ts[j].s == s }
			switch {
			case how == "table" && rel[t.s]:
				lex = strings.Replace(lex, t.s, "n"+t.s, 1)
			case how == "schema" && qualifier[t.s] && op(i+1, ".") && i+2 < len(ts) && rel[ts[i+2].s]:
				lex = strings.Replace(lex, t.s, "other", 1)
			case how == "schema" && rel[t.s] && !op(i-1, ".") && !op(i+1, "."):
				lex = "other." + lex
			}
		}
		b.WriteString(lex)
	}
	return b.String()
}

// What the tool can't read in another schema: a column's reference to a table
// there, and a trigger there.
var reNotInSchema = map[string]*regexp.Regexp{
	PG:    regexp.MustCompile(`(?i)[^)]\s+REFERENCES\s+other\.`),
	MSSQL: regexp.MustCompile(`(?i)\bTRIGGER\s+\[?other\b`),
}

// noisy adds to each move's schemas the same unrelated objects, where the
// database allows that, and gives the moves without and with them.
func (p *pipe) noisy(how string, ms []move) (plain, with []move) {
	type cand struct {
		m  move
		x  *slotInfo
		id string
		j  int
	}
	var cs []cand
	var tasks []interface{}
	rel := map[*slotInfo]map[string]bool{}
	for i, m := range ms {
		if rel[m.s] == nil {
			rel[m.s] = m.s.relations()
		}
		var js []int
		for j := range m.s.files {
			if len(m.s.Excl[[2]int{j, j}]) == 0 {
				js = append(js, j)
			}
		}
		if len(js) == 0 {
			continue
		}
		j := js[p.rng.Intn(len(js))]
		n := rename(p.d, m.s.files[j], how, rel[m.s])
		if n == m.s.files[j] || how == "schema" && reNotInSchema[p.d] != nil && reNotInSchema[p.d].MatchString(n) {
			continue
		}
		first := p.rng.Intn(2) == 0
		x := &slotInfo{slot: &slot{D: p.d, Name: m.s.Name, gen: true}, Excl: map[[2]int][]string{}}
		id := fmt.Sprintf("%s%d", how, i)
		ok := true
		for k, v := range []int{m.A, m.B} {
			t := m.s.text(v) + "\n" + n
			if first {
				t = n + "\n" + m.s.text(v)
			}
			f, e := parseFile(p.d, stripComments(t))
			if e != "" {
				ok = false
				break
			}
			x.files = append(x.files, t)
			x.File = append(x.File, f)
			tasks = append(tasks, M{"id": fmt.Sprintf("%s.%d", id, k), "d": p.d, "st": emptyDB(), "file": f, "refuse": false})
		}
		if ok {
			f, e := parseFile(p.d, stripComments(n))
			if e != "" {
				die("%s: %s", e, n)
			}
			tasks = append(tasks, M{"id": id + ".2", "d": p.d, "st": emptyDB(), "file": f, "refuse": false})
			cs = append(cs, cand{m, x, id, j})
		} else {
			tasks = tasks[:len(tasks)-len(x.files)]
		}
	}
	res := p.w.tl.run("Desired", tasks)
	refused := 0
	for _, c := range cs {
		n := res[c.id+".2"]
		ok := n["ok"] == true
		for k, v := range []int{c.m.A, c.m.B} {
			r := res[fmt.Sprintf("%s.%d", c.id, k)]
			if !ok || r["ok"] != true {
				ok = false
				break
			}
			// both are what they would be alone
			sts := []M{M(n["st"].(map[string]interface{}))}
			if v >= 0 {
				sts = append(sts, c.m.s.St[v])
			}
			ok = sameObjects(r["st"].(map[string]interface{}), merge(sts))
		}
		if !ok {
			refused++
			continue
		}
		c.x.St = []M{n["st"].(map[string]interface{})}
		plain = append(plain, c.m)
		with = append(with, move{s: c.x, A: 0, B: 1})
	}
	p.note("noise_"+how, len(with))
	p.note("noise_impossible_"+how, refused)
	return
}

// sameObjects compares two schemas, but not the order and ids of their objects.
func sameObjects(a, b M) bool {
	for _, k := range []string{"tables", "views", "trigs"} {
		x, y := map[string]int{}, 0
		la, _ := a[k].([]interface{})
		lb, _ := b[k].([]interface{})
		if len(la) != len(lb) {
			return false
		}
		for _, o := range la {
			j, _ := json.Marshal(noIds(o))
			x[string(j)]++
		}
		for _, o := range lb {
			j, _ := json.Marshal(noIds(o))
			if x[string(j)] > 0 {
				x[string(j)]--
				y++
			}
		}
		if y != len(la) {
			return false
		}
	}
	return true
}

var reSysName = regexp.MustCompile(`__\d+$`)

func noIds(v interface{}) interface{} {
	switch x := v.(type) {
	case map[string]interface{}:
		o := map[string]interface{}{}
		for k, y := range x {
			if k != "id" {
				o[k] = noIds(y)
			}
		}
		return o
	case []interface{}:
		o := make([]interface{}, len(x))
		for i, y := range x {
			o[i] = noIds(y)
		}
		return o
	case string:
		return reSysName.ReplaceAllString(x, "")
	}
	return v
}

func checkNoise(p *pipe) {
	all := allMoves(p.ss, false)
	f := 0.25
	if p.d == SQLite {
		f = 1
	}
	if !p.quick() {
		f = 1
	}
	hows := map[string][]string{MySQL: {"table", "database"}, PG: {"schema", "table"}, MSSQL: {"schema", "table"}, SQLite: {"table"}}[p.d]
	for _, how := range hows {
		ms := p.sample(all, f)
		with := ms
		if how != "database" {
			ms, with = p.noisy(how, ms)
		}
		// the same composites, without and with the noise
		at := map[move]move{}
		for i, m := range ms {
			at[m] = with[i]
		}
		refs := p.comps("n"+how, ms, 5, 2, 2)
		var rs, qs []*Run
		for _, r := range refs {
			var c []move
			for _, m := range r.Moves {
				c = append(c, at[m])
			}
			x := p.w.composite(r.ID+"/"+how, c)
			x.Kind, x.Ref = "noise", r
			if how != "database" {
				// the database got the unrelated objects last
				sts := []M{r.St}
				for _, m := range c {
					sts = append(sts, m.s.St[0])
				}
				x.St = merge(sts)
			}
			if how == "database" {
				var sts []M
				for _, m := range c {
					sts = append(sts, m.s.St[p.rng.Intn(len(m.s.St))])
				}
				db := toDB(merge(sts))
				x.Noise = &db
			}
			rs = append(rs, x)
		}
		p.do(refs)
		rs = p.do(rs)
		for i, r := range rs {
			if r.Complete && len(r.Excl) == 0 && i%3 == 0 {
				x := r.follow("noiseagain", "apply")
				x.Noise = r.Noise
				qs = append(qs, x)
			}
		}
		p.do(qs)
	}
}
