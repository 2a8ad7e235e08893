package main

import (
	"fmt"
	"strings"
)

// C13: desired files that must be refused.

type badFile struct {
	name string
	pre  []string // schemas the database may have
	text string   // the invalid part of the desired file
	sem  bool     // well-formed, but not a schema: decided by Engine.tla
}

// notDDL are statements that are not declarations; $T is a table.
var notDDL = map[string][]string{
	"": {"INSERT INTO $T VALUES (1)", "INSERT INTO $T (id) VALUES (1), (2)", "DROP TABLE $T", "SELECT 1", "SELECT id FROM $T WHERE id = 1", "UPDATE $T SET id = 1 WHERE id = 2",
		"DELETE FROM $T", "TRUNCATE TABLE $T", "DROP VIEW $Tv", "ALTER TABLE $T DROP COLUMN id", "ALTER TABLE $T ADD COLUMN z int", "CREATE DATABASE zz", "DROP DATABASE zz",
		"GRANT SELECT ON $T TO bob", "BEGIN", "COMMIT", "SET x = 1", "drop table if exists $T", "DROP TABLE $Tzz", "delete from $T where id = 1",
		// malformed
		"CREAT TABLE $Tz (id int)", "CREATE TABLE $Tz (id int", "CREATE TABLE $Tz (id int))", "CREATE TABLE $Tz (id int,, b int)", "CREATE TABLE $Tz (, id int)", "CREATE TABLE $Tz id int",
		"CREATE TABLE (id int)", "garbage", "CREATE TABLE $Tz (id int NOT)", "CREATE TABLE $Tz (id int DEFAULT)", "CREATE TABLE $Tz (id int 'x'", "CREATE TABLE $Tz (id int, PRIMARY KEY)",
		"CREATE INDEX ON", "CREATE VIEW $Tz AS", "CREATE VIEW $Tz AS SELECT", "CREATE UNIQUE $Tz ON $T (id)", "CREATE INDEX $Tz ON $T (id", "CREATE TABLE $Tz (id int) garbage (", "CREATE TABLE $Tz (id int) (a int)",
		"CREATE TABLE $Tz (id int, CONSTRAINT PRIMARY)", ")", "(", "'unterminated", "CREATE TABLE $Tz (id int DEFAULT 'unterminated)", "CREATE", "CREATE TABLE", "CREATE TABLE $Tz"},
	MySQL:  {"ALTER TABLE $T MODIFY id bigint", "REPLACE INTO $T VALUES (1)", "SHOW TABLES", "USE zz", "RENAME TABLE $T TO $Tq", "DROP INDEX k ON $T", "ALTER TABLE $T ADD INDEX", "CREATE TABLE $Tz (`id int)"},
	PG:     {"DROP INDEX $Tk", "ALTER TABLE $T ALTER COLUMN id TYPE bigint", "DROP POLICY p ON $T", "CREATE POLICY p ON", "CREATE POLICY ON $T USING (true", "CREATE TABLE $Tz (\"id int)"},
	MSSQL:  {"DROP INDEX k ON $T", "ALTER TABLE $T ALTER COLUMN id bigint", "CREATE TABLE $Tz ([id int)", "CREATE TRIGGER $Tg ON"},
	SQLite: {"DROP INDEX $Tk", "ALTER TABLE $T RENAME TO $Tq", "PRAGMA foreign_keys = ON", "CREATE TABLE $Tz (`id int)"},
}

func badFiles(d string) []badFile {
	var out []badFile
	n := 0
	add := func(text string, sem bool, pre ...string) {
		T := fmt.Sprintf("t_bad%d", n)
		n++
		b := badFile{name: fmt.Sprintf("bad%d", n-1), sem: sem, text: strings.ReplaceAll(text, "$T", T)}
		for _, p := range pre {
			b.pre = append(b.pre, strings.ReplaceAll(p, "$T", T))
		}
		out = append(out, b)
	}
	int_ := "int"
	if d == SQLite {
		int_ = "integer"
	}
	tab := "CREATE TABLE $T (id " + int_ + " NOT NULL, a " + int_ + ", b " + int_ + ");\n"
	for _, l := range [][]string{notDDL[""], notDDL[d]} {
		for _, s := range l {
			add(tab+s+";\n", false, "", tab)
		}
	}
	add(tab+"$T", false, tab)
	// declared twice
	twice := func(tab string, first []string, second ...string) {
		for _, f := range first {
			for _, s := range append([]string{f}, second...) {
				t := tab
				if strings.Contains(f, "\n") { // part of the table
					if s == f {
						continue
					}
					t = f
					add(t+s+";\n", true, "", tab, t)
					continue
				}
				add(t+f+";\n"+s+";\n", true, "", t, t+f+";\n", t+s+";\n")
			}
		}
	}
	for _, again := range []string{tab, strings.ReplaceAll(tab, " a "+int_, " c "+int_), "CREATE TABLE $T (id " + int_ + ");\n"} {
		add(tab+again, true, "", tab, strings.ReplaceAll(tab, "$T", "$Tn"))
	}
	fks := func(tail string) {
		p := "CREATE TABLE $Tp (id int NOT NULL PRIMARY KEY);\n"
		f := "CREATE TABLE $T (a int, b int,\nCONSTRAINT $Tf FOREIGN KEY (a) REFERENCES " + tail + ",\nCONSTRAINT $Tf FOREIGN KEY (b) REFERENCES " + tail + ");\n"
		add(p+f, true, "", p, p+"CREATE TABLE $T (a int, b int);\n", p+strings.Split(f, ",\nCONSTRAINT $Tf FOREIGN KEY (b)")[0]+");\n")
	}
	switch d {
	case MySQL:
		fks("$Tp (id)")
		keys := "CREATE TABLE $T (id int NOT NULL, a int, b int,\nKEY k (a),\nUNIQUE KEY k (b));\n"
		add(keys, true, "", tab, strings.ReplaceAll(keys, ",\nUNIQUE KEY k (b)", ""))
		twice(tab, []string{"CREATE TRIGGER $Tg after insert ON $T FOR EACH ROW insert into $T(a) values (1)"}, "CREATE TRIGGER $Tg before delete ON $T FOR EACH ROW insert into $T(a) values (1)", "CREATE TRIGGER $Tg after insert ON $T FOR EACH ROW delete from $T")
		twice(tab, []string{"ALTER TABLE $T ADD INDEX k (a)", "CREATE INDEX k ON $T (a)"}, "ALTER TABLE $T ADD INDEX k (b)", "CREATE UNIQUE INDEX k ON $T (a)", "CREATE INDEX k ON $T (a, b)")
		twice(tab, []string{"CREATE TABLE $T (id int NOT NULL, a int, b int,\nKEY k (a));\n"}, "ALTER TABLE $T ADD INDEX k (a)", "CREATE INDEX k ON $T (b)")
		twice(tab, []string{"CREATE VIEW $Tv AS select u.id as id from app.$T as u"}, "CREATE VIEW $Tv AS select u.a as a from app.$T as u")
		p := "CREATE TABLE $Tp (id int NOT NULL PRIMARY KEY);\n"
		twice(p+tab, []string{"ALTER TABLE $T ADD CONSTRAINT $Tf FOREIGN KEY (a) REFERENCES $Tp (id)"}, "ALTER TABLE $T ADD CONSTRAINT $Tf FOREIGN KEY (b) REFERENCES $Tp (id)")
		add(tab+"ALTER TABLE $Tn ADD INDEX k (a);\n", true, "", tab, tab+strings.ReplaceAll(tab, "$T", "$Tn"))
	case PG:
		fks("public.$Tp (id)")
		twice(tab, []string{"CREATE INDEX $Tk ON $T (a)", "CREATE UNIQUE INDEX $Tk ON $T (a)"}, "CREATE INDEX $Tk ON $T (b)", "CREATE INDEX $Tk ON $T (a, b)")
		twice(tab, []string{"CREATE POLICY p ON $T AS PERMISSIVE FOR ALL TO PUBLIC USING (true)"}, "CREATE POLICY p ON $T AS RESTRICTIVE FOR ALL TO PUBLIC USING (true)", "CREATE POLICY p ON $T AS PERMISSIVE FOR SELECT TO postgres USING ((id = 1))")
		twice(tab, []string{"CREATE VIEW $Tv AS SELECT u.id FROM $T u"}, "CREATE VIEW $Tv AS SELECT u.a FROM $T u")
		p := "CREATE TABLE $Tp (id int NOT NULL PRIMARY KEY);\n"
		twice(p+tab, []string{"ALTER TABLE ONLY $T ADD CONSTRAINT $Tf FOREIGN KEY (a) REFERENCES $Tp (id)"}, "ALTER TABLE ONLY $T ADD CONSTRAINT $Tf FOREIGN KEY (b) REFERENCES $Tp (id)")
		add(tab+"CREATE POLICY p ON $Tn AS PERMISSIVE FOR ALL TO PUBLIC USING (true);\n", true, "", tab, tab+strings.ReplaceAll(tab, "$T", "$Tn"))
		add(tab+"CREATE INDEX $Tk ON zz.$T (a);\n", true, "", tab)
	case MSSQL:
		fks("$Tp (id)")
		keys := "CREATE TABLE $T (id int NOT NULL, a int, b int,\nINDEX k NONCLUSTERED (a),\nINDEX k UNIQUE NONCLUSTERED (b));\n"
		add(keys, true, "", tab, strings.ReplaceAll(keys, ",\nINDEX k UNIQUE NONCLUSTERED (b)", ""))
		twice(tab, []string{"CREATE TRIGGER [$Tg] ON [dbo].[$T] after insert AS delete from $T where a = 1"}, "CREATE TRIGGER [$Tg] ON [dbo].[$T] after delete AS delete from $T where a = 1", "CREATE TRIGGER [$Tg] ON [dbo].[$T] after insert AS delete from $T where a = 2")
		twice(tab, []string{"CREATE INDEX k ON $T (a)", "CREATE UNIQUE INDEX k ON $T (a)"}, "CREATE INDEX k ON $T (b)", "CREATE INDEX k ON $T (a, b)")
		twice(tab, []string{"CREATE TABLE $T (id int NOT NULL, a int, b int,\nINDEX k NONCLUSTERED (a));\n"}, "CREATE INDEX k ON $T (a)", "CREATE INDEX k ON $T (b)")
		twice(tab, []string{"CREATE VIEW [dbo].[$Tv] AS select id from dbo.$T"}, "CREATE VIEW [dbo].[$Tv] AS select a from dbo.$T")
	case SQLite:
		twice(tab, []string{"CREATE VIEW `$Tv` AS select id from $T"}, "CREATE VIEW `$Tv` AS select a from $T")
	}
	if d != SQLite {
		other := strings.ReplaceAll(tab, "$T", "$Tn")
		add(tab+"CREATE INDEX $Tk ON $Tn (a);\n", true, "", tab, tab+other)
		add(tab+"CREATE UNIQUE INDEX $Tk ON $Tn (a, b);\n", true, "", tab+other)
	}
	return out
}

func checkInvalid(p *pipe) {
	bs := badFiles(p.d)
	var slots []*slot
	for _, b := range bs {
		s := &slot{D: p.d, Name: b.name, gen: true}
		for _, t := range b.pre {
			if t != "" {
				s.Vars = append(s.Vars, t)
				s.files = append(s.files, t)
			}
		}
		if len(s.files) == 0 {
			die("invalid file %s has no current schema", b.name)
		}
		slots = append(slots, s)
	}
	by := map[string]*slotInfo{}
	for _, x := range p.w.slotInfos(p.d, "-", false, slots...) {
		by[x.Name] = x
	}
	ms := allMoves(p.ss, false)
	n := 1
	if !p.quick() {
		n = 8
	}
	var rs []*Run
	var tasks []interface{}
	for k := 0; k < n; k++ {
		for bi, b := range bs {
			x := by[b.name]
			for a := -1; a < len(x.files); a++ {
				if a < 0 && b.pre[0] != "" {
					continue
				}
				var c []move
				if p.rng.Intn(4) > 0 {
					c = pack(p.sample(ms, 0.05), 1+p.rng.Intn(3), p.rng)[0]
				}
				r := p.w.composite(fmt.Sprintf("%s/b%d.%d.%d", p.d, k, bi, a), append(c, move{s: x, A: a, B: -1}))
				// the invalid part comes after some of the valid declarations
				var to []string
				for _, m := range c {
					if m.B >= 0 {
						to = append(to, m.s.files[m.B])
					}
				}
				at := len(to)
				if p.rng.Intn(3) == 0 {
					at = p.rng.Intn(len(to) + 1)
				}
				to = append(to[:at:at], append([]string{b.text}, to[at:]...)...)
				r.Sql = strings.Join(to, "\n")
				r.Kind, r.Valid = "invalid", false
				r.Mode = []string{"apply", "apply", "dry"}[p.rng.Intn(3)]
				r.Skip = p.rng.Intn(5) == 0
				tasks = append(tasks, M{"id": r.ID, "d": p.d, "st": emptyDB(), "file": rawFile(p.d, stripComments(r.Sql)), "refuse": true})
				r.File = [][]M{}
				rs = append(rs, r)
			}
		}
		// a file that cannot be read
		for i := 0; i < 8; i++ {
			c := pack(p.sample(ms, 0.1), 3, p.rng)[0]
			r := p.w.composite(fmt.Sprintf("%s/n%d.%d", p.d, k, i), c)
			r.Kind, r.Valid, r.NoFile, r.File = "invalid", false, true, [][]M{}
			r.Mode = []string{"apply", "dry"}[i%2]
			rs = append(rs, r)
		}
	}
	res := p.w.tl.run("Desired", tasks)
	var ok []*Run
	for _, r := range rs {
		if !r.NoFile && res[r.ID]["refuse"] != true {
			die("%s: the specification accepts\n%s", r.ID, r.Sql)
		}
		ok = append(ok, r)
	}
	for _, r := range ok {
		if !r.NoFile && p.rng.Intn(4) == 0 {
			r.Stdin = true
		}
	}
	p.w.withDBs(ok)
	p.w.runAll(ok)
	p.w.check(ok)
	p.all = append(p.all, ok...)
	p.note("invalid_files", len(bs))
}
