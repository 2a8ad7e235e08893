package main

import (
	"fmt"
	"math/rand"
	"strings"
)

// Random tables: more slots, whose variants are found by walking at random
// through small changes to a table.  They follow the seed.

type gcol struct {
	name, typ string
	fam       int // index of the family of types
	null      bool
	def       string
	check     string
	extra     string
}

type gidx struct {
	name   string
	cols   []string
	unique bool
	tail   string // WHERE ..., options
	desc   bool
	apart  int // 0: in the table, 1: CREATE INDEX, 2: ALTER TABLE
}

type gfk struct {
	name, col, ref string
	del, upd       string
	apart          bool
}

type gtab struct {
	cols   []gcol
	pk     []string
	pkHow  int // 0 inline when single, 1 table level
	idx    []gidx
	fks    []gfk
	views  map[string]string
	pols   map[string]string
	parent int // variants of the parent table
	second bool
}

// a family of types between which a column may change
type gfam struct {
	types []string
	defs  []string
	key   bool // may be indexed
	num   bool
}

var gfams = map[string][]gfam{
	MySQL: {
		{[]string{"int", "bigint", "smallint", "int unsigned", "tinyint", "mediumint", "bigint unsigned"}, []string{"0", "1", "42"}, true, true},
		{[]string{"varchar(20)", "varchar(64)", "char(8)", "varchar(191)"}, []string{"''", "'a'", "'it''s'", "'x, y'", "'NULL'", "'drop'"}, true, false},
		{[]string{"datetime", "timestamp", "date"}, nil, true, false},
		{[]string{"text", "mediumtext", "json", "blob", "longblob"}, nil, false, false},
		{[]string{"decimal(10,2)", "decimal(8,3)", "double", "float"}, nil, true, true},
		{[]string{"tinyint(1)"}, []string{"0", "1"}, true, true},
		{[]string{"enum('a','b')", "enum('a','b','c')", "enum('x y','it''s')"}, nil, true, false},
		{[]string{"datetime"}, []string{"CURRENT_TIMESTAMP", "'2020-01-01 00:00:00'"}, true, false},
	},
	PG: {
		{[]string{"smallint", "integer", "bigint", "numeric"}, []string{"0", "1", "-7", "42"}, true, true},
		{[]string{"varchar(20)", "varchar(64)", "text", "varchar"}, []string{"''", "'a'", "'it''s'", "'x, y'", "'NULL'", "'drop'"}, true, false},
		{[]string{"timestamp", "timestamp with time zone", "date"}, nil, true, false},
		{[]string{"jsonb"}, nil, false, false},
		{[]string{"numeric(10,2)"}, []string{"1.5", "-2.25"}, true, true},
		{[]string{"boolean"}, []string{"true", "false"}, true, false},
		{[]string{"uuid"}, nil, true, false},
		{[]string{"text[]", "varchar(10)[]"}, nil, false, false},
		{[]string{"timestamp"}, []string{"CURRENT_TIMESTAMP"}, true, false},
		{[]string{"real", "double precision"}, []string{"1.5"}, true, true},
	},
	MSSQL: {
		{[]string{"int"}, []string{"0", "1", "-7", "42"}, true, true},
		{[]string{"bigint"}, []string{"0", "5"}, true, true},
		{[]string{"varchar(20)"}, []string{"''", "'a'", "'it''s'", "'x, y'", "'drop'"}, true, false},
		{[]string{"nvarchar(30)"}, nil, true, false},
		{[]string{"datetime"}, []string{"getdate()"}, true, false},
		{[]string{"bit"}, []string{"0", "1"}, true, true},
		{[]string{"float"}, []string{"2.25"}, true, true},
		{[]string{"text"}, nil, false, false},
		{[]string{"decimal"}, nil, true, true},
	},
	SQLite: {
		{[]string{"integer"}, []string{"0", "1", "-7", "42"}, true, true},
		{[]string{"text"}, []string{"''", "'a'", "'it''s'", "'x, y'", "'drop'"}, true, false},
		{[]string{"varchar(20)"}, []string{"'q'"}, true, false},
		{[]string{"real"}, []string{"1.5"}, true, true},
		{[]string{"blob"}, nil, false, false},
		{[]string{"numeric"}, nil, true, true},
		{[]string{"boolean"}, []string{"true", "false"}, true, false},
		{[]string{"datetime"}, nil, true, false},
	},
}

var gnames = map[string][]string{
	MySQL:  {"a", "b", "c", "name", "val_1", "created_at", "`order`", "`key`", "drop_it", "Mixed", "d"},
	PG:     {"a", "b", "c", "name", "val_1", "created_at", `"order"`, `"user"`, "drop_it", "d"},
	MSSQL:  {"a", "b", "c", "name", "val_1", "created_at", "drop_it", "d", "Mixed"},
	SQLite: {"a", "b", "c", "name", "val_1", "created_at", `"order"`, "`key`", "drop_it", "Mixed", "d"},
}

type gen struct {
	d string
	r *rand.Rand
}

func (g *gen) pick(l []string) string { return l[g.r.Intn(len(l))] }
func (g *gen) p(n int) bool           { return g.r.Intn(100) < n }

func (g *gen) settype(c *gcol) {
	f := gfams[g.d][c.fam]
	c.typ = g.pick(f.types)
	c.def, c.check, c.extra = "", "", ""
	g.setdef(c)
}

func (g *gen) setdef(c *gcol) {
	f := gfams[g.d][c.fam]
	c.def = ""
	if len(f.defs) > 0 && g.p(55) {
		c.def = g.pick(f.defs)
	}
	if g.d == SQLite && c.def == "" {
		c.null = true
	}
}

func (g *gen) setcheck(c *gcol) {
	c.check = ""
	if !gfams[g.d][c.fam].num || g.p(30) {
		return
	}
	n := fmt.Sprint(1 + g.r.Intn(9))
	op := g.pick([]string{">", "<", ">=", "<=", "<>"})
	switch g.d {
	case PG:
		c.check = fmt.Sprintf("CHECK (%s)", g.pgcond(c.name, 0))
	case MSSQL:
		c.check = fmt.Sprintf("CHECK ([%s]%s(%s))", c.name, op, n)
		if g.p(40) {
			op2 := g.pick([]string{">", "<", ">=", "<=", "<>"})
			c.check = fmt.Sprintf("CHECK ([%s]%s(%s) %s [%s]%s(%d))", c.name, op, n, g.pick([]string{"AND", "OR"}), c.name, op2, 1+g.r.Intn(9))
		}
		if g.p(40) {
			c.check = "CONSTRAINT $Tc_" + c.name + " " + c.check
		}
	}
}

// pgcond is a condition on one column as pg_get_constraintdef prints it.
func (g *gen) pgcond(c string, deep int) string {
	switch k := g.r.Intn(10); {
	case k < 6 || deep > 1:
		e := c
		if g.p(25) {
			e = fmt.Sprintf("(%s %s %d)", c, g.pick([]string{"+", "-", "*"}), 1+g.r.Intn(5))
		}
		return fmt.Sprintf("%s %s %d", e, g.pick([]string{">", "<", ">=", "<=", "=", "<>"}), 1+g.r.Intn(9))
	case k < 8:
		return g.pgterm(c, deep, false) + " AND " + g.pgterm(c, deep, false)
	default:
		return g.pgterm(c, deep, true) + " OR " + g.pgterm(c, deep, true)
	}
}

// pgterm is an operand; in AND (in OR) an operand that is an OR is (an AND is not) put in parentheses.
func (g *gen) pgterm(c string, deep int, or bool) string {
	if deep > 0 || g.p(60) {
		return fmt.Sprintf("%s %s %d", c, g.pick([]string{">", "<", ">=", "<="}), 1+g.r.Intn(9))
	}
	a := fmt.Sprintf("%s %s %d", c, g.pick([]string{">", "<", "="}), 1+g.r.Intn(9))
	b := fmt.Sprintf("%s %s %d", c, g.pick([]string{">", "<", "="}), 1+g.r.Intn(9))
	if or {
		return a + " AND " + b
	}
	return "(" + a + " OR " + b + ")"
}

func (t *gtab) has(n string) bool {
	for _, c := range t.cols {
		if c.name == n {
			return true
		}
	}
	return false
}

func (t *gtab) col(n string) *gcol {
	for i := range t.cols {
		if t.cols[i].name == n {
			return &t.cols[i]
		}
	}
	return nil
}

func (t *gtab) clone() *gtab {
	n := *t
	n.cols = append([]gcol{}, t.cols...)
	n.pk = append([]string{}, t.pk...)
	n.idx = nil
	for _, x := range t.idx {
		x.cols = append([]string{}, x.cols...)
		n.idx = append(n.idx, x)
	}
	n.fks = append([]gfk{}, t.fks...)
	n.views, n.pols = map[string]string{}, map[string]string{}
	for k, v := range t.views {
		n.views[k] = v
	}
	for k, v := range t.pols {
		n.pols[k] = v
	}
	return &n
}

// newcol adds a column.
func (g *gen) newcol(t *gtab) {
	n := g.pick(gnames[g.d])
	if t.has(n) {
		return
	}
	c := gcol{name: n, fam: g.r.Intn(len(gfams[g.d])), null: g.p(55)}
	g.settype(&c)
	if (g.d == PG || g.d == MSSQL) && g.p(25) {
		g.setcheck(&c)
	}
	if g.d == MySQL && g.p(15) {
		c.extra = " COMMENT '" + g.pick([]string{"x", "a; b", "it''s", "drop"}) + "'"
		c.extra = strings.ReplaceAll(c.extra, ";", ":")
	}
	at := g.r.Intn(len(t.cols) + 1)
	t.cols = append(t.cols[:at], append([]gcol{c}, t.cols[at:]...)...)
}

func (g *gen) dropcol(t *gtab) {
	if len(t.cols) < 2 {
		return
	}
	i := g.r.Intn(len(t.cols))
	n := t.cols[i].name
	if n == "id" {
		return
	}
	t.cols = append(t.cols[:i], t.cols[i+1:]...)
	// what used the column goes too
	var pk []string
	for _, c := range t.pk {
		if c != n {
			pk = append(pk, c)
		}
	}
	t.pk = pk
	var idx []gidx
	for _, x := range t.idx {
		var cs []string
		for _, c := range x.cols {
			if c != n {
				cs = append(cs, c)
			}
		}
		if len(cs) < len(x.cols) && (len(cs) == 0 || g.p(50)) {
			continue
		}
		x.cols = cs
		idx = append(idx, x)
	}
	t.idx = idx
	var fks []gfk
	for _, f := range t.fks {
		if f.col != n {
			fks = append(fks, f)
		}
	}
	t.fks = fks
	for _, m := range []map[string]string{t.views, t.pols} {
		for k, v := range m {
			if strings.Contains(v, "u."+n+" ") || strings.Contains(v, "("+n+" ") {
				delete(m, k)
			}
		}
	}
}

// plain is a column whose name needs no quotes.
func (g *gen) plain(t *gtab) string {
	var l []string
	for _, c := range t.cols {
		if !strings.ContainsAny(c.name, "\"`") && c.name == strings.ToLower(c.name) {
			l = append(l, c.name)
		}
	}
	return g.pick(l)
}

func (g *gen) keycols(t *gtab) []string {
	var l []string
	for _, c := range t.cols {
		if gfams[g.d][c.fam].key {
			l = append(l, c.name)
		}
	}
	g.r.Shuffle(len(l), func(i, j int) { l[i], l[j] = l[j], l[i] })
	if n := 1 + g.r.Intn(3); len(l) > n {
		l = l[:n]
	}
	return l
}

func (g *gen) newidx(t *gtab) {
	if g.d == SQLite {
		return
	}
	cs := g.keycols(t)
	if len(cs) == 0 {
		return
	}
	n := g.pick([]string{"k1", "k2", "k3", "idx_a"})
	if g.d == PG {
		n = "$T" + n
	}
	x := gidx{name: n, cols: cs, unique: g.p(30), apart: g.r.Intn(3)}
	if g.d == PG {
		x.apart = 1
		if g.p(20) && t.has("id") {
			x.tail = fmt.Sprintf(" WHERE id > %d", 1+g.r.Intn(3))
		}
	}
	if g.d == MSSQL {
		x.apart = g.r.Intn(2)
	}
	if g.d != MySQL && g.p(20) {
		x.desc = true
	}
	for i := range t.idx {
		if t.idx[i].name == n {
			t.idx[i] = x
			return
		}
	}
	t.idx = append(t.idx, x)
}

func (g *gen) newfk(t *gtab) {
	if g.d == SQLite {
		return
	}
	var l []string
	for _, c := range t.cols {
		if c.typ == "int" || c.typ == "integer" {
			l = append(l, c.name)
		}
	}
	if len(l) == 0 {
		return
	}
	acts := []string{"", "", " CASCADE", " SET NULL", " NO ACTION"}
	if g.d == MySQL {
		acts = append(acts, " RESTRICT")
	}
	f := gfk{name: "$T" + g.pick([]string{"f1", "f2"}), col: g.pick(l), ref: "$Tp", del: g.pick(acts), upd: g.pick(acts[:3]), apart: g.p(25)}
	if !t.col(f.col).null {
		f.del = strings.ReplaceAll(f.del, " SET NULL", "")
	}
	for i := range t.fks {
		if t.fks[i].name == f.name {
			t.fks[i] = f
			return
		}
	}
	t.fks = append(t.fks, f)
}

func (g *gen) setpk(t *gtab) {
	if g.d == SQLite {
		return
	}
	switch g.r.Intn(5) {
	case 0:
		t.pk = nil
	case 1, 2:
		t.pk = []string{"id"}
	default:
		t.pk = []string{"id"}
		for _, c := range g.keycols(t) {
			if c != "id" && len(t.pk) < 3 && !t.col(c).null {
				t.pk = append(t.pk, c)
			}
		}
		if g.p(25) && len(t.pk) == 2 {
			t.pk[0], t.pk[1] = t.pk[1], t.pk[0]
		}
	}
	t.pkHow = g.r.Intn(2)
}

func (g *gen) setview(t *gtab) {
	n := "$T" + g.pick([]string{"v", "w"})
	if t.views[n] != "" && g.p(40) {
		delete(t.views, n)
		return
	}
	k := 1 + g.r.Intn(9)
	op := g.pick([]string{">", "<", ">=", "<=", "=", "<>"})
	op2 := g.pick([]string{">", "<", ">=", "<=", "=", "<>"})
	bin := g.pick([]string{"and", "or"})
	ar := g.pick([]string{"+", "-", "*"})
	var c string
	// of the table itself: any plain column
	if u := g.plain(t); g.p(40) && u != "" {
		cond := fmt.Sprintf("(u.%s is not null)", u)
		if gfams[g.d][t.col(u).fam].num && g.p(60) {
			cond = fmt.Sprintf("(u.%s %s %d)", u, op, k)
			if g.p(30) {
				cond = fmt.Sprintf("(%s %s (u.id %s %d))", cond, bin, op2, k)
			}
		}
		switch g.d {
		case PG:
			cond = strings.NewReplacer(" and ", " AND ", " or ", " OR ", " is not null", " IS NOT NULL").Replace(cond)
			t.views[n] = fmt.Sprintf("CREATE VIEW %s AS SELECT u.id FROM $T u WHERE %s", n, cond)
		case MySQL:
			t.views[n] = fmt.Sprintf("CREATE VIEW %s AS select u.id as id from app.$T as u where %s", n, cond)
		case MSSQL:
			t.views[n] = fmt.Sprintf("CREATE VIEW [dbo].[%s] AS select u.id from dbo.$T as u where %s", n, cond)
		default:
			t.views[n] = fmt.Sprintf("CREATE VIEW `%s` AS select u.id from $T as u where %s", n, cond)
		}
		return
	}
	switch g.d {
	case MySQL, PG:
		a, b := fmt.Sprintf("(u.id %s %d)", op, k), fmt.Sprintf("(u.n %s %d)", op2, 1+g.r.Intn(5))
		switch g.r.Intn(6) {
		case 0:
			c = a
		case 1:
			c = fmt.Sprintf("(%s %s %s)", a, bin, b)
		case 2:
			c = fmt.Sprintf("((u.id %s u.n) %s %d)", ar, op, k)
		case 3:
			c = fmt.Sprintf("(%s and (%s or (u.n is null)))", a, b)
		case 4:
			c = fmt.Sprintf("((%s and %s) or (u.n is not null))", a, b)
		default:
			c = fmt.Sprintf("((u.id - (u.n %s %d)) %s u.n)", g.pick([]string{"+", "-"}), k, op)
		}
		if g.d == PG {
			c = strings.NewReplacer(" and ", " AND ", " or ", " OR ", " is null", " IS NULL", " is not null", " IS NOT NULL").Replace(c)
			t.views[n] = fmt.Sprintf("CREATE VIEW %s AS SELECT u.id FROM $Tp u WHERE %s", n, c)
		} else {
			t.views[n] = fmt.Sprintf("CREATE VIEW %s AS select u.id as id from app.$Tp as u where %s", n, c)
		}
	default:
		c = fmt.Sprintf("id %s %d", op, k)
		if g.p(50) {
			c += fmt.Sprintf(" %s n %s %d", bin, op2, 1+g.r.Intn(5))
		}
		if g.p(30) {
			c = fmt.Sprintf("(%s) and id %s n > 1", c, ar)
		}
		if g.d == MSSQL {
			t.views[n] = fmt.Sprintf("CREATE VIEW [dbo].[%s] AS select id from dbo.$Tp where %s", n, c)
		} else {
			t.views[n] = fmt.Sprintf("CREATE VIEW `%s` AS select id from $Tp where %s", n, c)
		}
	}
}

func (g *gen) setpol(t *gtab) {
	if g.d != PG {
		return
	}
	n := g.pick([]string{"p1", "p2"})
	if t.pols[n] != "" && g.p(40) {
		delete(t.pols, n)
		return
	}
	cmd := g.pick([]string{"ALL", "SELECT", "INSERT", "UPDATE", "DELETE"})
	e := func() string {
		if u := g.plain(t); u != "" && g.p(40) && gfams[PG][t.col(u).fam].num && t.col(u).typ != "numeric(10,2)" {
			return fmt.Sprintf("(%s %s %d)", u, g.pick([]string{">", "<", "=", "<>"}), 1+g.r.Intn(9))
		}
		return fmt.Sprintf("(id %s %d)", g.pick([]string{">", "<", "=", "<>"}), 1+g.r.Intn(9))
	}
	s := fmt.Sprintf("CREATE POLICY %s ON $T AS %s FOR %s TO %s", n, g.pick([]string{"PERMISSIVE", "RESTRICTIVE"}), cmd, g.pick([]string{"PUBLIC", "postgres", "alice, bob"}))
	if cmd != "INSERT" {
		s += " USING " + e()
	}
	if cmd == "INSERT" || (cmd == "ALL" || cmd == "UPDATE") && g.p(40) {
		s += " WITH CHECK " + e()
	}
	t.pols[n] = s
}

func (g *gen) mutate(t *gtab) {
	switch k := g.r.Intn(100); {
	case k < 18:
		g.newcol(t)
	case k < 34:
		g.dropcol(t)
	case k < 52: // change a column
		c := &t.cols[g.r.Intn(len(t.cols))]
		for _, f := range t.fks {
			if f.col == c.name {
				return
			}
		}
		inpk := c.name == "id"
		for _, n := range t.pk {
			inpk = inpk || n == c.name
		}
		if inpk && g.d != PG && g.d != MSSQL || c.name == "id" {
			return
		}
		switch g.r.Intn(4) {
		case 0:
			if g.d == MySQL || g.d == PG {
				f := gfams[g.d][c.fam]
				c.typ = g.pick(f.types)
			}
		case 1:
			if !inpk && (g.d == MySQL || g.d == PG) {
				c.null = !c.null
			}
		case 2:
			if g.d != SQLite {
				g.setdef(c)
			}
		case 3:
			if g.d == PG || g.d == MSSQL {
				g.setcheck(c)
			} else {
				g.setdef0(c)
			}
		}
	case k < 66:
		g.newidx(t)
	case k < 72:
		if len(t.idx) > 0 {
			i := g.r.Intn(len(t.idx))
			t.idx = append(t.idx[:i], t.idx[i+1:]...)
		}
	case k < 79:
		g.newfk(t)
	case k < 83:
		if len(t.fks) > 0 {
			i := g.r.Intn(len(t.fks))
			t.fks = append(t.fks[:i], t.fks[i+1:]...)
		}
	case k < 88:
		g.setpk(t)
	case k < 93:
		g.setview(t)
	case k < 97:
		g.setpol(t)
	case k < 98:
		t.second = !t.second
	default:
		t.parent = g.r.Intn(3)
	}
}

func (g *gen) setdef0(c *gcol) {
	if g.d == MySQL {
		g.setdef(c)
	}
}

func (g *gen) render(t *gtab) string {
	var b strings.Builder
	q := func(n string) string { return n }
	pint := map[string]string{MySQL: "int", PG: "integer", MSSQL: "int", SQLite: "integer"}[g.d]
	par := []string{"", ",\n  m varchar(9)", ",\n  m varchar(9),\n  o " + pint}[t.parent]
	fmt.Fprintf(&b, "CREATE TABLE $Tp (\n  id %s NOT NULL PRIMARY KEY,\n  n %s%s\n);\n", pint, pint, par)
	if t.second {
		fmt.Fprintf(&b, "CREATE TABLE $Ts (\n  z %s\n);\n", pint)
	}
	var ls []string
	var after []string
	for _, c := range t.cols {
		null := c.null
		for _, n := range t.pk {
			if n == c.name {
				null = false
			}
		}
		s := q(c.name) + " " + c.typ
		if !null {
			s += " NOT NULL"
		} else if g.d == MySQL && c.typ == "timestamp" {
			s += " NULL"
		}
		if c.def != "" {
			s += " DEFAULT " + c.def
		}
		if len(t.pk) == 1 && t.pk[0] == c.name && t.pkHow == 0 {
			s += " PRIMARY KEY"
		}
		s += c.extra
		if c.check != "" {
			s += " " + c.check
		}
		ls = append(ls, s)
	}
	if len(t.pk) > 1 || len(t.pk) == 1 && t.pkHow == 1 {
		s := "PRIMARY KEY (" + strings.Join(t.pk, ", ") + ")"
		if g.d == MSSQL {
			s = "CONSTRAINT $Tpk " + s
		}
		ls = append(ls, s)
	}
	for _, x := range t.idx {
		u := ""
		if x.unique {
			u = "UNIQUE "
		}
		cs := strings.Join(x.cols, ", ")
		if x.desc {
			cs += " DESC"
			if g.d == MSSQL {
				cs = strings.ReplaceAll(cs, " DESC", " desc")
			}
		}
		switch {
		case g.d == MSSQL && x.apart == 0:
			ls = append(ls, fmt.Sprintf("INDEX %s %sNONCLUSTERED (%s)", x.name, u, cs))
		case x.apart == 0:
			ls = append(ls, fmt.Sprintf("%sKEY %s (%s)", u, x.name, cs))
		case x.apart == 1:
			after = append(after, fmt.Sprintf("CREATE %sINDEX %s ON $T (%s)%s;", u, x.name, cs, x.tail))
		default:
			after = append(after, fmt.Sprintf("ALTER TABLE $T ADD %sKEY %s (%s);", u, x.name, cs))
		}
	}
	for _, f := range t.fks {
		s := fmt.Sprintf("CONSTRAINT %s FOREIGN KEY (%s) REFERENCES %s (id)", f.name, f.col, f.ref)
		if f.del != "" {
			s += " ON DELETE" + f.del
		}
		if f.upd != "" {
			s += " ON UPDATE" + f.upd
		}
		if f.apart && g.d == PG {
			after = append(after, "ALTER TABLE ONLY $T ADD "+s+";")
		} else {
			ls = append(ls, s)
		}
	}
	fmt.Fprintf(&b, "CREATE TABLE $T (\n  %s\n);\n", strings.Join(ls, ",\n  "))
	for _, a := range after {
		b.WriteString(a + "\n")
	}
	for _, m := range []map[string]string{t.pols, t.views} {
		for _, k := range []string{"p1", "p2", "$Tv", "$Tw"} {
			if m[k] != "" {
				b.WriteString(m[k] + ";\n")
			}
		}
	}
	return b.String()
}

func (g *gen) table() *gtab {
	t := &gtab{views: map[string]string{}, pols: map[string]string{}}
	idt := map[string]string{MySQL: "bigint", PG: "bigint", MSSQL: "bigint", SQLite: "integer"}[g.d]
	idf := 0
	if g.d == MSSQL {
		idf = 1
	}
	id := gcol{name: "id", typ: idt, fam: idf}
	t.cols = []gcol{id}
	if g.p(60) {
		g.setpk(t)
	}
	for i := 2 + g.r.Intn(3); i > 0; i-- {
		g.newcol(t)
	}
	for i := g.r.Intn(3); i > 0; i-- {
		g.newidx(t)
	}
	if g.p(40) {
		g.newfk(t)
	}
	if g.p(25) {
		g.setview(t)
	}
	if g.p(25) {
		g.setpol(t)
	}
	return t
}

// genSlots makes n slots of k variants each.
func genSlots(d string, seed int64, n, k int) []*slot {
	g := &gen{d, rand.New(rand.NewSource(seed*31 + int64(len(d))))}
	var out []*slot
	for i := 0; i < n; i++ {
		s := &slot{D: d, Name: fmt.Sprintf("g%d", i), gen: true}
		t := g.table()
		seen := map[string]bool{}
		for try := 0; len(s.files) < k && try < 60; try++ {
			x := strings.ReplaceAll(g.render(t), "$T", "t_"+s.Name)
			if !seen[x] {
				seen[x] = true
				s.files = append(s.files, x)
			}
			for j := 1 + g.r.Intn(4); j > 0; j-- {
				g.mutate(t)
			}
		}
		out = append(out, s)
	}
	return out
}
