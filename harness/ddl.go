package main

import (
	"regexp"
	"sort"
	"strings"
)

// DDL statements -> abstract operations (maps that serialise to the JSON the
// TLA+ modules read).  Every record of a given kind always has the same
// fields.

type M = map[string]interface{}

type Typ struct {
	Base string   `json:"base"`
	Args []string `json:"args"`
	Arr  bool     `json:"arr"`
}

type Def struct {
	K string `json:"k"` // none, null, str, num, expr, bit, bool
	V string `json:"v"`
	N string `json:"n"` // canonical number when a string literal spells one
	Q string `json:"q"` // the literal quoted
}

func mkDef(k, v string) Def {
	d := Def{K: k, V: v, Q: quoteStr(v)}
	if k == "str" && reNum.MatchString(v) {
		d.N = canonNum(v)
	}
	if k == "num" {
		d.N = v
	}
	return d
}

var reNum = regexp.MustCompile(`^[-+]?[0-9]+(\.[0-9]+)?$`)

type Tbl struct {
	S string `json:"s"` // schema
	N string `json:"n"`
}

type KeyCol struct {
	C    string `json:"c"`
	Len  string `json:"len"`
	Desc bool   `json:"desc"`
	X    bool   `json:"x"` // an expression, not a column
}

type Opt struct {
	K string `json:"k"`
	V string `json:"v"`
}

type Key struct {
	Name  string   `json:"name"`
	Kind  string   `json:"kind"` // primary unique index fulltext spatial
	Cols  []KeyCol `json:"cols"`
	Where string   `json:"where"`
	Wcols []string `json:"wcols"`
	Incl  []string `json:"incl"`
	Opts  []Opt    `json:"opts"`
	Clus  string   `json:"clus"` // "", clustered, nonclustered
	Part  string   `json:"part"`
	Con   bool     `json:"con"`  // declared as constraint
	Auto  bool     `json:"auto"` // name generated by the server
}

type FK struct {
	Name  string   `json:"name"`
	Idx   string   `json:"idx"`
	Cols  []string `json:"cols"`
	Ref   Tbl      `json:"ref"`
	Rcols []string `json:"rcols"`
	Del   string   `json:"del"`
	Upd   string   `json:"upd"`
	Nfr   bool     `json:"nfr"`
	Auto  bool     `json:"auto"`
}

type Check struct {
	Name  string   `json:"name"`
	Col   string   `json:"col"`
	Expr  string   `json:"expr"`
	Cols  []string `json:"cols"`
	Noinh bool     `json:"noinh"`
	Nfr   bool     `json:"nfr"`
	Auto  bool     `json:"auto"`
}

type Ident struct {
	Has  bool   `json:"has"`
	Beh  string `json:"beh"` // always, by default, identity
	Opts []Opt  `json:"opts"`
	Nfr  bool   `json:"nfr"`
}

type ColDef struct {
	Name    string  `json:"name"`
	Typ     Typ     `json:"typ"`
	Nn      string  `json:"nn"` // "", null, notnull
	Def     Def     `json:"def"`
	DefName string  `json:"defname"`
	Auto    bool    `json:"auto"`
	OnUpd   string  `json:"onupd"`
	Charset string  `json:"charset"`
	Collate string  `json:"collate"`
	Comment string  `json:"comment"`
	Key     string  `json:"key"` // "", primary, unique, index
	KeyName string  `json:"keyname"`
	Checks  []Check `json:"checks"`
	Ident   Ident   `json:"ident"`
	Refs    []FK    `json:"refs"`
	Gen     string  `json:"gen"`
}

func (p *parser) typ() Typ {
	t := Typ{Args: []string{}}
	w := p.peek()
	if w.k != tIdent && w.k != tQIdent {
		fail("type expected near %q", p.near())
	}
	base := strings.ToLower(p.adv().s)
	if p.isOp(".") { // schema-qualified type
		p.adv()
		base += "." + strings.ToLower(p.ident())
	}
	switch base {
	case "character", "char", "bit", "nchar", "varchar", "national":
		if base == "national" {
			base += " " + strings.ToLower(p.ident())
		}
		if p.kw("varying") {
			base += " varying"
		}
	case "double":
		if p.kw("precision") {
			base = "double precision"
		}
	case "long":
		if p.isKw("varchar") || p.isKw("varbinary") {
			base += " " + p.adv().low
		}
	}
	if p.op("(") {
		for {
			a := p.peek()
			switch a.k {
			case tStr:
				p.adv()
				t.Args = append(t.Args, quoteStr(a.s))
			case tNum:
				p.adv()
				t.Args = append(t.Args, canonNum(a.s))
			case tIdent:
				p.adv()
				t.Args = append(t.Args, a.low)
			default:
				if p.op("-") {
					t.Args = append(t.Args, canonNum("-"+p.adv().s))
				} else {
					fail("type argument expected near %q", p.near())
				}
			}
			if !p.op(",") {
				break
			}
		}
		p.needOp(")")
	}
	if base == "timestamp" || base == "time" {
		if p.kw("with", "time", "zone") {
			base += " with time zone"
		} else if p.kw("without", "time", "zone") {
			base += " without time zone"
		}
	}
	if base == "interval" && p.d == PG {
		for p.isKw("year") || p.isKw("month") || p.isKw("day") || p.isKw("hour") || p.isKw("minute") || p.isKw("second") || p.isKw("to") {
			base += " " + p.adv().low
		}
	}
	for {
		if p.kw("unsigned") {
			base += " unsigned"
		} else if p.kw("zerofill") {
			if !strings.Contains(base, "unsigned") {
				base += " unsigned"
			}
			base += " zerofill"
		} else if p.kw("signed") {
		} else {
			break
		}
	}
	for {
		if p.isOp("[") && p.peekN(1).k == tOp && p.peekN(1).s == "]" {
			p.adv()
			p.adv()
			t.Arr = true
		} else if p.d == PG && p.kw("array") {
			t.Arr = true
		} else {
			break
		}
	}
	t.Base = base
	return t
}

func canonTypeText(t Typ) string {
	s := t.Base
	if len(t.Args) > 0 {
		s += "(" + strings.Join(t.Args, ", ") + ")"
	}
	if t.Arr {
		s += "[]"
	}
	return s
}

// default expression -> Def
func defOf(d string, n *node) Def {
	for n.op == "cast" && d == PG && (n.kids[0].op == "str" || n.kids[0].op == "num") {
		n = n.kids[0]
	}
	switch n.op {
	case "str":
		return mkDef("str", n.s)
	case "num":
		return mkDef("num", n.s)
	case "bit":
		return mkDef("bit", n.s)
	case "kw":
		if n.s == "null" {
			return mkDef("null", "")
		}
		if n.s == "true" || n.s == "false" {
			return mkDef("bool", n.s)
		}
		return mkDef("expr", n.s)
	case "fn":
		if n.s == "now" && len(n.kids) == 0 {
			if d == MySQL {
				return mkDef("expr", "current_timestamp")
			}
		}
		return mkDef("expr", canon(n))
	}
	return mkDef("expr", canon(n))
}

func (p *parser) table() Tbl {
	n := p.ident()
	s := ""
	if p.op(".") {
		s = n
		n = p.ident()
		if p.op(".") { // db.schema.table
			s = n
			n = p.ident()
		}
	}
	return Tbl{s, n}
}

func (p *parser) nameList() []string {
	p.needOp("(")
	out := []string{}
	for {
		out = append(out, p.ident())
		if p.op("(") { // prefix length in FK lists is not legal, tolerate for indexes elsewhere
			fail("unexpected length in column list")
		}
		if !p.op(",") {
			break
		}
	}
	p.needOp(")")
	return out
}

func (p *parser) keyCols() []KeyCol {
	p.needOp("(")
	out := []KeyCol{}
	for {
		k := KeyCol{}
		if p.isOp("(") { // expression index
			p.adv()
			k.C = "(" + canon(p.expr()) + ")"
			k.X = true
			p.needOp(")")
		} else if p.peek().k == tIdent && p.peekN(1).k == tOp && p.peekN(1).s == "(" && p.d == PG {
			k.C = canon(p.primary())
			k.X = true
		} else {
			k.C = p.ident()
			if p.op("(") {
				k.Len = p.adv().s
				p.needOp(")")
			}
		}
		if p.kw("desc") {
			k.Desc = true
		} else {
			p.kw("asc")
		}
		p.kw("nulls", "last")
		p.kw("nulls", "first")
		out = append(out, k)
		if !p.op(",") {
			break
		}
	}
	p.needOp(")")
	return out
}

// MSSQL WITH ( a = b, ... )
func (p *parser) withOpts() []Opt {
	p.needOp("(")
	out := []Opt{}
	for {
		k := strings.ToLower(p.ident())
		p.op("=")
		t := p.adv()
		out = append(out, Opt{k, strings.ToLower(t.s)})
		if !p.op(",") {
			break
		}
	}
	p.needOp(")")
	sort.Slice(out, func(i, j int) bool { return out[i].K < out[j].K })
	return out
}

func (p *parser) onPartition() string {
	s := strings.ToLower(p.ident())
	if p.op("(") {
		s += "(" + p.ident() + ")"
		p.needOp(")")
	}
	return s
}

func (p *parser) mysqlKeyOpts() []Opt {
	out := []Opt{}
	for {
		switch {
		case p.kw("using"):
			m := strings.ToLower(p.ident())
			out = append(out, Opt{"using", m}) // shown when it is given
		case p.kw("comment"):
			out = append(out, Opt{"comment", p.adv().s})
		case p.kw("key_block_size"):
			p.op("=")
			out = append(out, Opt{"key_block_size", p.adv().s})
		case p.kw("with", "parser"):
			out = append(out, Opt{"parser", p.ident()})
		default:
			sort.Slice(out, func(i, j int) bool { return out[i].K < out[j].K })
			return out
		}
	}
}

func (p *parser) fkTail(f *FK) {
	p.need("references")
	f.Ref = p.table()
	f.Rcols = []string{}
	if p.isOp("(") {
		f.Rcols = p.nameList()
	}
	for {
		switch {
		case p.kw("match", "simple"), p.kw("match", "full"):
		case p.kw("on", "delete"):
			f.Del = p.refAction()
		case p.kw("on", "update"):
			f.Upd = p.refAction()
		case p.kw("not", "for", "replication"):
			f.Nfr = true
		case p.kw("not", "deferrable"), p.kw("deferrable"), p.kw("initially", "immediate"):
		default:
			return
		}
	}
}
func (p *parser) refAction() string {
	switch {
	case p.kw("cascade"):
		return "cascade"
	case p.kw("restrict"):
		return "restrict"
	case p.kw("set", "null"):
		return "set null"
	case p.kw("set", "default"):
		return "set default"
	case p.kw("no", "action"):
		return "no action"
	}
	fail("referential action expected near %q", p.near())
	return ""
}

func (p *parser) checkTail(c *Check) {
	if p.kw("not", "for", "replication") {
		c.Nfr = true
	}
	p.needOp("(")
	e := p.expr()
	p.needOp(")")
	c.Expr = canon(e)
	acc := map[string]bool{}
	refCols(e, acc)
	c.Cols = sortedKeys(acc)
	if p.kw("no", "inherit") {
		c.Noinh = true
	}
}

func sortedKeys(m map[string]bool) []string {
	out := []string{}
	for k := range m {
		out = append(out, k)
	}
	sort.Strings(out)
	return out
}

func (p *parser) seqOpts() []Opt {
	out := []Opt{}
	for !p.isOp(")") {
		switch {
		case p.kw("start", "with"), p.kw("start"):
			out = append(out, Opt{"start", canon(p.unary())})
		case p.kw("increment", "by"), p.kw("increment"):
			out = append(out, Opt{"increment", canon(p.unary())})
		case p.kw("minvalue"):
			out = append(out, Opt{"minvalue", canon(p.unary())})
		case p.kw("maxvalue"):
			out = append(out, Opt{"maxvalue", canon(p.unary())})
		case p.kw("cache"):
			out = append(out, Opt{"cache", canon(p.unary())})
		case p.kw("no", "minvalue"), p.kw("no", "maxvalue"), p.kw("no", "cycle"):
		case p.kw("cycle"):
			out = append(out, Opt{"cycle", "yes"})
		case p.kw("sequence", "name"):
			p.table()
		default:
			fail("sequence option near %q", p.near())
		}
	}
	sort.Slice(out, func(i, j int) bool { return out[i].K < out[j].K })
	return out
}

func newCol() ColDef {
	return ColDef{Typ: Typ{Args: []string{}}, Def: mkDef("none", ""), Checks: []Check{}, Ident: Ident{Opts: []Opt{}}, Refs: []FK{}}
}

func (p *parser) colDef() ColDef {
	c := newCol()
	c.Name = p.ident()
	if p.d == SQLite {
		// type optional
		if t := p.peek(); t.k == tIdent && !colConstraintWord[t.low] || t.k == tQIdent {
			c.Typ = p.typ()
		}
	} else {
		c.Typ = p.typ()
	}
	p.colTail(&c)
	return c
}

var colConstraintWord = map[string]bool{"constraint": true, "primary": true, "not": true, "null": true, "unique": true, "check": true, "default": true, "collate": true, "references": true, "generated": true}

func (p *parser) colTail(c *ColDef) {
	conName := ""
	for {
		switch {
		case p.kw("constraint"):
			conName = p.ident()
			continue
		case p.kw("not", "null"):
			if c.Nn == "null" {
				fail("conflicting NULL/NOT NULL for column %s", c.Name)
			}
			c.Nn = "notnull"
		case p.kw("null"):
			if c.Nn == "notnull" {
				fail("conflicting NULL/NOT NULL for column %s", c.Name)
			}
			c.Nn = "null"
		case p.kw("default"):
			c.Def = defOf(p.d, p.defaultExpr())
			c.DefName = conName
		case p.d == MySQL && (p.kw("auto_increment")):
			c.Auto = true
		case p.d == SQLite && (p.kw("autoincrement")):
			c.Auto = true
		case p.kw("on", "update"):
			c.OnUpd = canon(p.primary())
			if c.OnUpd == "now()" {
				c.OnUpd = "current_timestamp"
			}
		case p.kw("character", "set"), p.d == MySQL && p.kw("charset"):
			c.Charset = strings.ToLower(p.identOrStr())
		case p.kw("collate"):
			c.Collate = strings.ToLower(p.identOrStr())
		case p.d == MySQL && p.isKw("binary"):
			p.adv()
		case p.kw("comment"):
			c.Comment = p.adv().s
		case p.kw("primary", "key"), p.d == MySQL && p.kw("primary"):
			c.Key = "primary"
			c.KeyName = conName
			for {
				if p.kw("clustered") || p.kw("nonclustered") || p.kw("asc") || p.kw("desc") {
					continue
				}
				break
			}
		case p.kw("unique", "key"), p.kw("unique"):
			if c.Key != "primary" {
				c.Key = "unique"
				c.KeyName = conName
			}
			p.kw("clustered")
			p.kw("nonclustered")
		case p.d == MySQL && p.kw("key"):
			c.Key = "primary"
		case p.kw("check"):
			k := Check{Name: conName, Col: c.Name, Auto: conName == ""}
			p.checkTail(&k)
			c.Checks = append(c.Checks, k)
		case p.isKw("references"):
			f := FK{Name: conName, Cols: []string{c.Name}, Auto: conName == ""}
			p.fkTail(&f)
			c.Refs = append(c.Refs, f)
		case p.kw("generated", "always", "as", "identity"):
			c.Ident.Has, c.Ident.Beh = true, "always"
			if p.op("(") {
				c.Ident.Opts = p.seqOpts()
				p.needOp(")")
			}
		case p.kw("generated", "by", "default", "as", "identity"):
			c.Ident.Has, c.Ident.Beh = true, "by default"
			if p.op("(") {
				c.Ident.Opts = p.seqOpts()
				p.needOp(")")
			}
		case p.isKw("generated") || p.isKw("as") && p.d == MySQL:
			p.kw("generated", "always")
			p.need("as")
			p.needOp("(")
			c.Gen = canon(p.expr())
			p.needOp(")")
			if p.kw("stored") || p.kw("persistent") {
				c.Gen += " stored"
			} else {
				p.kw("virtual")
			}
		case p.d == MSSQL && p.kw("identity"):
			c.Ident.Has, c.Ident.Beh = true, "identity"
			start, inc := "1", "1"
			if p.op("(") {
				start = canon(p.unary())
				p.needOp(",")
				inc = canon(p.unary())
				p.needOp(")")
			}
			c.Ident.Opts = []Opt{{"increment", inc}, {"start", start}}
			if p.kw("not", "for", "replication") {
				c.Ident.Nfr = true
			}
		default:
			if conName != "" {
				fail("dangling constraint name %s", conName)
			}
			return
		}
		conName = ""
	}
}

func (p *parser) defaultExpr() *node {
	if p.isOp("(") && p.d != MySQL {
		return p.primary()
	}
	return p.bitOrNoCollate()
}

// DEFAULT values: a literal, a signed number, a function call, a keyword, with PG casts
func (p *parser) bitOrNoCollate() *node {
	if p.isOp("-") || p.isOp("+") {
		return p.unary()
	}
	n := p.primary()
	for p.op("::") {
		n = &node{op: "cast", s: canonTypeText(p.typ()), kids: []*node{n}}
	}
	return n
}

// table-level key/constraint; returns false when the next token is not one
func (p *parser) tableConstraint(keys *[]Key, fks *[]FK, checks *[]Check) bool {
	con := ""
	hasCon := false
	save := p.i
	if p.kw("constraint") {
		hasCon = true
		if !(p.isKw("primary", "key") || p.isKw("unique") || p.isKw("foreign", "key") || p.isKw("check")) {
			con = p.ident()
		}
	}
	newKey := func(kind string) Key {
		return Key{Name: con, Kind: kind, Cols: []KeyCol{}, Incl: []string{}, Wcols: []string{}, Opts: []Opt{}, Con: true, Auto: con == ""}
	}
	finish := func(k Key) {
		if p.d == MySQL {
			k.Opts = append(k.Opts, p.mysqlKeyOpts()...)
			k.Con = false
		}
		if p.d == MSSQL {
			if p.kw("include") {
				k.Incl = p.nameList()
			}
			if p.kw("with") {
				k.Opts = p.withOpts()
			}
			if p.kw("on") {
				k.Part = p.onPartition()
			}
		}
		if k.Name != "" {
			k.Auto = false
		}
		*keys = append(*keys, k)
	}
	clus := func(k *Key) {
		if p.kw("clustered") {
			k.Clus = "clustered"
		} else if p.kw("nonclustered") {
			k.Clus = "nonclustered"
		}
	}
	switch {
	case p.kw("primary", "key"):
		k := newKey("primary")
		clus(&k)
		if p.d == MySQL {
			k.Name = ""
			if !p.isOp("(") {
				if !p.isKw("using") {
					p.ident()
				}
			}
			k.Opts = p.mysqlKeyOpts()
		}
		k.Cols = p.keyCols()
		finish(k)
		return true
	case p.isKw("unique"):
		p.adv()
		k := newKey("unique")
		clus(&k)
		if p.d == MySQL {
			if p.kw("key") || p.kw("index") {
			}
			if !p.isOp("(") && !p.isKw("using") {
				k.Name = p.ident()
			}
			k.Opts = p.mysqlKeyOpts()
		} else {
			p.kw("key") // parser spelling emitted by the tool for UNIQUE KEY
			if p.peek().k == tQIdent || (p.peek().k == tIdent && !p.isOp("(")) {
				fail("unexpected name after UNIQUE near %q", p.near())
			}
		}
		k.Cols = p.keyCols()
		finish(k)
		return true
	case p.kw("foreign", "key"):
		f := FK{Name: con, Auto: con == ""}
		if !p.isOp("(") {
			if p.d != MySQL {
				fail("index name not allowed in FOREIGN KEY near %q", p.near())
			}
			f.Idx = p.ident()
		}
		f.Cols = p.nameList()
		p.fkTail(&f)
		*fks = append(*fks, f)
		return true
	case p.kw("check"):
		c := Check{Name: con, Auto: con == ""}
		p.checkTail(&c)
		*checks = append(*checks, c)
		return true
	}
	if hasCon {
		fail("constraint expected near %q", p.near())
	}
	if p.d == MySQL {
		kind := ""
		switch {
		case p.isKw("index") || p.isKw("key"):
			p.adv()
			kind = "index"
		case p.isKw("fulltext") && (p.peekN(1).low == "key" || p.peekN(1).low == "index" || p.peekN(1).k == tQIdent || p.peekN(1).s == "("):
			p.adv()
			_ = p.kw("key") || p.kw("index")
			kind = "fulltext"
		case p.isKw("spatial") && (p.peekN(1).low == "key" || p.peekN(1).low == "index"):
			p.adv()
			_ = p.kw("key") || p.kw("index")
			kind = "spatial"
		}
		if kind != "" {
			k := newKey(kind)
			k.Name = ""
			if !p.isOp("(") && !p.isKw("using") {
				k.Name = p.ident()
			}
			k.Opts = p.mysqlKeyOpts()
			k.Cols = p.keyCols()
			finish(k)
			return true
		}
	}
	if p.d == MSSQL && p.isKw("index") {
		p.adv()
		k := newKey("index")
		k.Con = false
		k.Name = p.ident()
		k.Auto = false
		if p.kw("unique") {
			k.Kind = "unique"
		}
		clus(&k)
		k.Cols = p.keyCols()
		finish(k)
		return true
	}
	p.i = save
	return false
}

func (p *parser) createTable() []M {
	ine := p.kw("if", "not", "exists")
	t := p.table()
	p.needOp("(")
	cols := []ColDef{}
	keys := []Key{}
	fks := []FK{}
	checks := []Check{}
	for {
		if !p.tableConstraint(&keys, &fks, &checks) {
			cols = append(cols, p.colDef())
		}
		if !p.op(",") {
			break
		}
	}
	p.needOp(")")
	charset, collate := "", ""
	rest := false
	if p.d == MySQL {
		for !p.eof() {
			p.kw("default")
			switch {
			case p.kw("engine"), p.kw("auto_increment"), p.kw("row_format"), p.kw("comment"), p.kw("key_block_size"), p.kw("checksum"), p.kw("stats_persistent"):
				p.op("=")
				p.adv()
			case p.kw("charset"), p.kw("character", "set"):
				p.op("=")
				charset = strings.ToLower(p.identOrStr())
			case p.kw("collate"):
				p.op("=")
				collate = strings.ToLower(p.identOrStr())
			case p.op(","):
			default:
				rest = true
			}
			if rest {
				break
			}
		}
	}
	if p.d == SQLite {
		p.kw("without", "rowid")
	}
	return []M{{"op": "createTable", "tbl": t, "ine": ine, "cols": cols, "keys": keys, "fks": fks, "checks": checks, "charset": charset, "collate": collate}}
}

func (p *parser) createIndex(unique bool, pre Key) []M {
	k := pre
	k.Cols, k.Incl, k.Wcols, k.Opts = []KeyCol{}, []string{}, []string{}, []Opt{}
	if k.Kind == "" {
		k.Kind = "index"
	}
	if unique {
		k.Kind = "unique"
	}
	ine := p.kw("if", "not", "exists")
	p.kw("concurrently")
	k.Name = p.ident()
	if p.op(".") {
		k.Name = p.ident()
	}
	if p.d == MySQL {
		k.Opts = p.mysqlKeyOpts()
	}
	p.need("on")
	p.kw("only")
	t := p.table()
	if p.kw("using") {
		m := strings.ToLower(p.ident())
		if m != "btree" {
			k.Opts = append(k.Opts, Opt{"using", m})
		}
	}
	k.Cols = p.keyCols()
	if p.kw("include") {
		k.Incl = p.nameList()
	}
	if p.kw("where") {
		e := p.expr()
		k.Where = canon(e)
		acc := map[string]bool{}
		refCols(e, acc)
		k.Wcols = sortedKeys(acc)
	}
	if p.d == MySQL {
		k.Opts = append(k.Opts, p.mysqlKeyOpts()...)
	}
	if p.d == MSSQL {
		if p.kw("with") {
			k.Opts = p.withOpts()
		}
		if p.kw("on") {
			k.Part = p.onPartition()
		}
	}
	return []M{{"op": "addKey", "tbl": t, "key": k, "ine": ine}}
}

func bodyText(ts []token) string {
	var b []string
	for _, t := range ts {
		switch t.k {
		case tEOF:
		case tIdent:
			b = append(b, t.low)
		case tQIdent:
			b = append(b, cid(strings.ToLower(t.s)))
		case tStr:
			b = append(b, quoteStr(t.s))
		case tNum:
			b = append(b, canonNum(t.s))
		case tBit:
			b = append(b, "b'"+t.s+"'")
		default:
			b = append(b, t.s)
		}
	}
	return strings.Join(b, " ")
}

func (p *parser) createTrigger(orAlter bool) []M {
	name := p.table()
	var tbl Tbl
	timing, event, each := "", "", ""
	parseTiming := func() {
		switch {
		case p.kw("before"):
			timing = "before"
		case p.kw("after"), p.kw("for"):
			timing = "after"
		case p.kw("instead", "of"):
			timing = "instead of"
		default:
			fail("trigger time expected near %q", p.near())
		}
		var evs []string
		for {
			switch {
			case p.kw("insert"):
				evs = append(evs, "insert")
			case p.kw("update"):
				evs = append(evs, "update")
			case p.kw("delete"):
				evs = append(evs, "delete")
			default:
				fail("trigger event expected near %q", p.near())
			}
			if !p.op(",") {
				break
			}
		}
		sort.Strings(evs)
		event = strings.Join(evs, ",")
	}
	if p.d == MSSQL {
		p.need("on")
		tbl = p.table()
		parseTiming()
		p.need("as")
	} else {
		parseTiming()
		p.need("on")
		tbl = p.table()
		if p.kw("for", "each", "row") {
			each = "row"
		} else if p.d == MySQL {
			fail("FOR EACH ROW expected near %q", p.near())
		}
	}
	body := p.ts[p.i:]
	if len(body) <= 1 {
		fail("empty trigger body")
	}
	// structurally canonical body: tokens, with statement separators normalised
	bt := canonBody(p.d, body)
	raw := strings.TrimSpace(p.src[body[0].pos:])
	p.i = len(p.ts) - 1
	if p.d == MSSQL || p.d == SQLite {
		raw = strings.TrimSpace(p.src)
	}
	return []M{{"op": "createTrigger", "name": name.N, "sch": name.S, "tbl": tbl, "time": timing, "event": event, "each": each, "body": bt, "orAlter": orAlter, "text": raw}}
}

// canonBody renders a trigger body so that formatting, the spelling of an
// operator, the default sort direction and optional semicolons do not matter.
func canonBody(d string, ts []token) string {
	out := []token{}
	for _, t := range ts {
		if t.k == tOp && t.s == "!=" {
			t.s = "<>"
		}
		if t.k == tOp && t.s == "==" {
			t.s = "="
		}
		if t.k == tOp && t.s == ";" && d == MSSQL || t.k == tIdent && t.low == "asc" {
			continue
		}
		out = append(out, t)
	}
	for len(out) > 0 && (out[len(out)-1].k == tEOF || out[len(out)-1].k == tOp && out[len(out)-1].s == ";") {
		out = out[:len(out)-1]
	}
	return bodyText(out)
}

func (p *parser) createView(orReplace bool) []M {
	ine := p.kw("if", "not", "exists")
	t := p.table()
	names := []string{}
	if p.isOp("(") {
		names = p.nameList()
	}
	p.need("as")
	start := p.peek().pos
	sel := p.selectStmt()
	end := p.peek().pos
	if p.kw("with", "check", "option") || p.kw("with", "cascaded", "check", "option") {
	}
	if p.eof() {
		end = len(p.src)
	}
	if p.d == MSSQL || p.d == SQLite {
		start, end = 0, len(p.src)
	}
	acc := map[string]bool{}
	refTables(sel, acc)
	ac := map[string]bool{}
	refCols(sel, ac)
	cols := selCols(sel)
	if len(names) > 0 {
		cols = names
	}
	return []M{{"op": "createView", "tbl": t, "def": canon(sel), "cols": cols, "refs": splitRefs(sortedKeys(acc)), "rcols": sortedKeys(ac), "orReplace": orReplace, "ine": ine, "text": strings.TrimSpace(p.src[start:end]), "names": names}}
}

func splitRefs(rs []string) []Tbl {
	out := []Tbl{}
	for _, r := range rs {
		parts := strings.Split(r, ".")
		t := Tbl{N: parts[len(parts)-1]}
		if len(parts) > 1 {
			t.S = parts[len(parts)-2]
		}
		out = append(out, t)
	}
	return out
}

func (p *parser) roleList() []string {
	out := []string{}
	for {
		out = append(out, strings.ToLower(p.ident()))
		if !p.op(",") {
			break
		}
	}
	sort.Strings(out)
	return out
}

func (p *parser) createPolicy() []M {
	name := p.ident()
	p.need("on")
	t := p.table()
	perm, cmd := "permissive", "all"
	roles := []string{"public"}
	using, check := "", ""
	acc := map[string]bool{}
	if p.kw("as") {
		if p.kw("restrictive") {
			perm = "restrictive"
		} else {
			p.need("permissive")
		}
	}
	if p.kw("for") {
		cmd = strings.ToLower(p.ident())
		switch cmd {
		case "all", "select", "insert", "update", "delete":
		default:
			fail("bad policy command %q", cmd)
		}
	}
	if p.kw("to") {
		roles = p.roleList()
	}
	if p.kw("using") {
		p.needOp("(")
		e := p.expr()
		refCols(e, acc)
		using = canon(e)
		p.needOp(")")
	}
	if p.kw("with", "check") {
		p.needOp("(")
		e := p.expr()
		refCols(e, acc)
		check = canon(e)
		p.needOp(")")
	}
	return []M{{"op": "createPolicy", "name": name, "tbl": t, "perm": perm, "cmd": cmd, "roles": roles, "using": using, "check": check, "ucols": sortedKeys(acc)}}
}

func (p *parser) position() (string, string) {
	if p.kw("first") {
		return "first", ""
	}
	if p.kw("after") {
		return "after", p.ident()
	}
	return "", ""
}

func (p *parser) alterTable() []M {
	ie := p.kw("if", "exists")
	_ = ie
	p.kw("only")
	t := p.table()
	out := []M{}
	for {
		out = append(out, p.alterAction(t)...)
		if !p.op(",") {
			break
		}
	}
	return out
}

func (p *parser) alterAction(t Tbl) []M {
	switch {
	case p.kw("add"):
		if p.d == MSSQL && (p.isKw("default") || p.isKw("constraint") && p.peekN(2).low == "default") {
			name := ""
			if p.kw("constraint") {
				name = p.ident()
			}
			p.need("default")
			d := defOf(p.d, p.defaultExpr())
			p.need("for")
			c := p.ident()
			return []M{{"op": "addDefault", "tbl": t, "name": c, "def": d, "defname": name}}
		}
		keys, fks, checks := []Key{}, []FK{}, []Check{}
		if p.tableConstraint(&keys, &fks, &checks) {
			if len(keys) > 0 {
				return []M{{"op": "addKey", "tbl": t, "key": keys[0], "ine": false}}
			}
			if len(fks) > 0 {
				return []M{{"op": "addFk", "tbl": t, "fk": fks[0]}}
			}
			return []M{{"op": "addCheck", "tbl": t, "check": checks[0]}}
		}
		if p.kw("column") {
			if p.d == MSSQL {
				fail("ADD COLUMN is not valid T-SQL")
			}
		}
		p.kw("if", "not", "exists")
		c := p.colDef()
		pos, after := "", ""
		if p.d == MySQL {
			pos, after = p.position()
		}
		return []M{{"op": "addColumn", "tbl": t, "col": c, "pos": pos, "after": after}}
	case p.kw("drop"):
		switch {
		case p.kw("primary", "key"):
			return []M{{"op": "dropPrimary", "tbl": t}}
		case p.kw("foreign", "key"):
			return []M{{"op": "dropFk", "tbl": t, "name": p.ident()}}
		case p.d == MySQL && (p.kw("index") || p.kw("key")):
			return []M{{"op": "dropIndex", "tbl": t, "name": p.ident(), "ie": false}}
		case p.kw("constraint"), p.d == MySQL && p.kw("check"):
			ie := p.kw("if", "exists")
			n := p.ident()
			p.kw("cascade")
			p.kw("restrict")
			return []M{{"op": "dropConstraint", "tbl": t, "name": n, "ie": ie}}
		}
		if !p.kw("column") && p.d == MSSQL {
			return []M{{"op": "dropConstraint", "tbl": t, "name": p.ident(), "ie": false}}
		}
		ie := p.kw("if", "exists")
		n := p.ident()
		casc := p.kw("cascade")
		p.kw("restrict")
		return []M{{"op": "dropColumn", "tbl": t, "name": n, "ie": ie, "cascade": casc}}
	case p.d == MySQL && p.kw("change"):
		p.kw("column")
		old := p.ident()
		c := p.colDef()
		pos, after := p.position()
		return []M{{"op": "changeColumn", "tbl": t, "old": old, "col": c, "pos": pos, "after": after}}
	case p.d == MySQL && p.kw("modify"):
		p.kw("column")
		c := p.colDef()
		pos, after := p.position()
		return []M{{"op": "changeColumn", "tbl": t, "old": c.Name, "col": c, "pos": pos, "after": after}}
	case p.kw("alter"):
		p.kw("column")
		n := p.ident()
		switch {
		case p.kw("type"), p.kw("set", "data", "type"):
			ty := p.typ()
			using := ""
			if p.kw("using") {
				using = canon(p.expr())
			}
			return []M{{"op": "alterType", "tbl": t, "name": n, "typ": ty, "using": using}}
		case p.kw("set", "not", "null"):
			return []M{{"op": "setNotNull", "tbl": t, "name": n}}
		case p.kw("drop", "not", "null"):
			return []M{{"op": "dropNotNull", "tbl": t, "name": n}}
		case p.kw("set", "default"):
			return []M{{"op": "setDefault", "tbl": t, "name": n, "def": defOf(p.d, p.defaultExpr())}}
		case p.kw("drop", "default"):
			return []M{{"op": "dropDefault", "tbl": t, "name": n}}
		case p.kw("drop", "identity"):
			ie := p.kw("if", "exists")
			return []M{{"op": "dropIdentity", "tbl": t, "name": n, "ie": ie}}
		case p.kw("set", "generated"):
			b := ""
			if p.kw("always") {
				b = "always"
			} else {
				p.need("by", "default")
				b = "by default"
			}
			return []M{{"op": "setIdentity", "tbl": t, "name": n, "beh": b}}
		case p.kw("add"):
			c := newCol()
			c.Name = n
			p.colTail(&c)
			if !c.Ident.Has {
				fail("ADD GENERATED expected near %q", p.near())
			}
			return []M{{"op": "addIdentity", "tbl": t, "name": n, "ident": c.Ident}}
		}
		if p.d == MSSQL {
			c := newCol()
			c.Name = n
			c.Typ = p.typ()
			p.colTail(&c)
			return []M{{"op": "alterColumn", "tbl": t, "col": c}}
		}
	case p.kw("rename"):
		if p.kw("column") {
			a := p.ident()
			p.need("to")
			return []M{{"op": "renameColumn", "tbl": t, "name": a, "to": p.ident()}}
		}
		p.need("to")
		return []M{{"op": "renameTable", "tbl": t, "to": p.table()}}
	case p.kw("enable", "row", "level", "security"):
		return []M{{"op": "noop", "why": "enable rls"}}
	}
	fail("unsupported ALTER TABLE action near %q", p.near())
	return nil
}

// parseStmt parses one statement into abstract operations.
// kind: "ddl", "query" (read only), "tx", "write" (DML and other), "bad"
func parseStmt(d, src string) (kind string, ops []M, err string) {
	defer func() {
		if r := recover(); r != nil {
			if pe, ok := r.(parseError); ok {
				kind, err = "bad", pe.msg
				ops = []M{{"op": "bad", "why": pe.msg}}
				return
			}
			panic(r)
		}
	}()
	src = strings.TrimSpace(src)
	p := newParser(d, src)
	// tolerate a trailing semicolon
	if n := len(p.ts); n >= 2 && p.ts[n-2].k == tOp && p.ts[n-2].s == ";" {
		p.ts = append(p.ts[:n-2], p.ts[n-1])
		p.src = strings.TrimSuffix(src, ";")
	}
	kind = "ddl"
	switch {
	case p.isKw("select"), p.isKw("show"), p.isKw("explain"), p.isKw("describe"), p.isKw("pragma"):
		return "query", []M{}, ""
	case p.isKw("begin"), p.isKw("start", "transaction"), p.isKw("commit"), p.isKw("rollback"):
		return "tx", []M{{"op": p.peek().low}}, ""
	case p.kw("create"):
		or := false
		if p.kw("or", "replace") || p.kw("or", "alter") {
			or = true
		}
		for p.d == MySQL && (p.isKw("algorithm") || p.isKw("definer")) {
			p.adv()
			p.needOp("=")
			p.adv()
			if p.op("@") {
				p.adv()
			}
		}
		p.kw("sql", "security", "definer")
		p.kw("sql", "security", "invoker")
		switch {
		case p.kw("table"):
			ops = p.createTable()
		case p.kw("unique"):
			k := Key{}
			if p.kw("clustered") {
				k.Clus = "clustered"
			} else if p.kw("nonclustered") {
				k.Clus = "nonclustered"
			}
			p.need("index")
			ops = p.createIndex(true, k)
		case p.kw("clustered", "index"):
			ops = p.createIndex(false, Key{Clus: "clustered"})
		case p.kw("nonclustered", "index"):
			ops = p.createIndex(false, Key{Clus: "nonclustered"})
		case p.kw("fulltext", "index"):
			ops = p.createIndex(false, Key{Kind: "fulltext"})
		case p.kw("spatial", "index"):
			ops = p.createIndex(false, Key{Kind: "spatial"})
		case p.kw("index"):
			ops = p.createIndex(false, Key{})
		case p.kw("view"):
			ops = p.createView(or)
		case p.kw("trigger"):
			ops = p.createTrigger(or)
		case p.kw("policy"):
			ops = p.createPolicy()
		default:
			fail("unsupported CREATE near %q", p.near())
		}
	case p.kw("alter", "table"):
		ops = p.alterTable()
	case p.kw("drop"):
		switch {
		case p.kw("table"):
			ie := p.kw("if", "exists")
			for {
				ops = append(ops, M{"op": "dropTable", "tbl": p.table(), "ie": ie})
				if !p.op(",") {
					break
				}
			}
			if p.kw("cascade") {
				for _, o := range ops {
					o["cascade"] = true
				}
			} else {
				p.kw("restrict")
				for _, o := range ops {
					o["cascade"] = false
				}
			}
		case p.kw("view"):
			ie := p.kw("if", "exists")
			ops = []M{{"op": "dropView", "tbl": p.table(), "ie": ie}}
			p.kw("cascade")
		case p.kw("index"):
			ie := p.kw("if", "exists")
			n := p.table()
			t := Tbl{}
			if p.kw("on") {
				t = p.table()
			}
			if t.N == "" && n.S != "" {
				t.S = n.S
			}
			ops = []M{{"op": "dropIndex", "tbl": t, "name": n.N, "ie": ie}}
		case p.kw("trigger"):
			ie := p.kw("if", "exists")
			n := p.table()
			ops = []M{{"op": "dropTrigger", "name": n.N, "ie": ie}}
		case p.kw("policy"):
			ie := p.kw("if", "exists")
			n := p.ident()
			p.need("on")
			ops = []M{{"op": "dropPolicy", "name": n, "tbl": p.table(), "ie": ie}}
		default:
			return "write", []M{{"op": "other", "why": "drop " + p.near()}}, ""
		}
	default:
		t := p.peek()
		switch t.low {
		case "insert", "update", "delete", "truncate", "replace", "set", "use", "grant", "revoke", "lock", "rename", "exec", "execute", "call", "analyze", "vacuum", "reindex", "merge":
			return "write", []M{{"op": "other", "why": t.low}}, ""
		}
		fail("unrecognised statement near %q", p.near())
	}
	if !p.eof() {
		fail("unexpected text near %q", p.near())
	}
	return kind, ops, ""
}
