package main

import (
	"strings"
)

// Expression / SELECT abstract syntax, with one canonical textual form
// (canon) that parses back to the same tree.  Canonical text is what the
// TLA+ specification compares.

type node struct {
	op   string // see below
	s    string
	kids []*node
}

// op values:
//  col      s = name, kids = optional qualifier parts as col nodes' s joined by "." in s
//  num, str, bit, hex, kw (null,true,false,default,current_timestamp...)
//  un (s=operator) , bin (s=operator)
//  fn (s=name, kids args), fnstar, fndistinct
//  cast (s=type, kids[0])
//  in / notin (kids[0] lhs, rest list or subquery), between/notbetween
//  isnull etc. = post (s= "is null")
//  case (kids: pairs; s has "base"/"else" flags)
//  sub (kids[0]=select), exists
//  select (see sel)
//  tuple

type parser struct {
	d    string
	src  string
	ts   []token
	i    int
	text string
}

func newParser(d, src string) *parser {
	return &parser{d: d, src: src, ts: tokenize(d, src)}
}

func (p *parser) peek() token { return p.ts[p.i] }
func (p *parser) peekN(n int) token {
	if p.i+n < len(p.ts) {
		return p.ts[p.i+n]
	}
	return p.ts[len(p.ts)-1]
}
func (p *parser) adv() token {
	t := p.ts[p.i]
	if p.i < len(p.ts)-1 {
		p.i++
	}
	return t
}
func (p *parser) isKw(words ...string) bool {
	for n, w := range words {
		t := p.peekN(n)
		if t.k != tIdent || t.low != w {
			return false
		}
	}
	return true
}
func (p *parser) kw(words ...string) bool {
	if p.isKw(words...) {
		for range words {
			p.adv()
		}
		return true
	}
	return false
}
func (p *parser) need(words ...string) {
	if !p.kw(words...) {
		fail("expected %s near %q", strings.Join(words, " "), p.near())
	}
}
func (p *parser) isOp(s string) bool { t := p.peek(); return t.k == tOp && t.s == s }
func (p *parser) op(s string) bool {
	if p.isOp(s) {
		p.adv()
		return true
	}
	return false
}
func (p *parser) needOp(s string) {
	if !p.op(s) {
		fail("expected %q near %q", s, p.near())
	}
}
func (p *parser) near() string {
	t := p.peek()
	e := t.pos + 30
	if e > len(p.src) {
		e = len(p.src)
	}
	return p.src[t.pos:e]
}
func (p *parser) eof() bool { return p.peek().k == tEOF }

// identifier: quoted keep case, unquoted folded to lower case for PG.
func (p *parser) ident() string {
	t := p.peek()
	switch t.k {
	case tIdent:
		p.adv()
		if p.d == PG {
			return t.low
		}
		return t.s
	case tQIdent:
		if t.s == "" {
			fail("empty identifier")
		}
		p.adv()
		return t.s
	}
	fail("identifier expected near %q", p.near())
	return ""
}

func (p *parser) identOrStr() string {
	t := p.peek()
	if t.k == tStr {
		p.adv()
		return t.s
	}
	return p.ident()
}

var reservedExpr = map[string]bool{"from": true, "where": true, "group": true, "having": true, "order": true, "limit": true, "offset": true, "union": true,
	"and": true, "or": true, "on": true, "join": true, "inner": true, "left": true, "right": true, "cross": true, "full": true, "as": true, "then": true,
	"when": true, "else": true, "end": true, "is": true, "in": true, "like": true, "between": true, "not": true, "asc": true, "desc": true, "using": true, "set": true, "values": true, "natural": true, "straight_join": true, "with": true, "for": true, "collate": true, "div": true, "mod": true, "xor": true, "regexp": true, "rlike": true, "ilike": true, "no": true, "primary": true, "unique": true, "references": true, "check": true, "constraint": true, "default": true}

func (p *parser) expr() *node { return p.orExpr() }

func bin(op string, a, b *node) *node { return &node{op: "bin", s: op, kids: []*node{a, b}} }

func (p *parser) orExpr() *node {
	l := p.xorExpr()
	for {
		if p.kw("or") || (p.d == MySQL && p.op("||")) {
			l = bin("or", l, p.xorExpr())
		} else {
			return l
		}
	}
}
func (p *parser) xorExpr() *node {
	l := p.andExpr()
	for (p.d == MySQL || p.d == Canon) && p.kw("xor") {
		l = bin("xor", l, p.andExpr())
	}
	return l
}
func (p *parser) andExpr() *node {
	l := p.notExpr()
	for {
		if p.kw("and") || (p.d == MySQL && p.op("&&")) {
			l = bin("and", l, p.notExpr())
		} else {
			return l
		}
	}
}
func (p *parser) notExpr() *node {
	if p.isKw("not") && !p.isKw("not", "in") {
		p.adv()
		return &node{op: "un", s: "not", kids: []*node{p.notExpr()}}
	}
	return p.cmpExpr()
}

var cmpOps = map[string]string{"=": "=", "<": "<", ">": ">", "<=": "<=", ">=": ">=", "<>": "<>", "!=": "<>", "<=>": "<=>", "~": "~", "~*": "~*", "!~": "!~", "!~*": "!~*", "==": "="}

func (p *parser) cmpExpr() *node {
	l := p.bitOr()
	for {
		t := p.peek()
		if t.k == tOp {
			if o, ok := cmpOps[t.s]; ok {
				p.adv()
				l = bin(o, l, p.bitOr())
				continue
			}
			return l
		}
		switch {
		case p.kw("is", "not", "null"):
			l = &node{op: "post", s: "is not null", kids: []*node{l}}
		case p.kw("is", "null"):
			l = &node{op: "post", s: "is null", kids: []*node{l}}
		case p.kw("is", "not", "true"):
			l = &node{op: "post", s: "is not true", kids: []*node{l}}
		case p.kw("is", "not", "false"):
			l = &node{op: "post", s: "is not false", kids: []*node{l}}
		case p.kw("is", "true"):
			l = &node{op: "post", s: "is true", kids: []*node{l}}
		case p.kw("is", "false"):
			l = &node{op: "post", s: "is false", kids: []*node{l}}
		case p.kw("is", "not", "distinct", "from"):
			l = bin("is not distinct from", l, p.bitOr())
		case p.kw("is", "distinct", "from"):
			l = bin("is distinct from", l, p.bitOr())
		case p.kw("not", "like"):
			l = p.like("not like", l)
		case p.kw("like"):
			l = p.like("like", l)
		case p.kw("not", "ilike"):
			l = p.like("not ilike", l)
		case p.kw("ilike"):
			l = p.like("ilike", l)
		case p.kw("not", "regexp"), p.kw("not", "rlike"):
			l = bin("not regexp", l, p.bitOr())
		case p.kw("regexp"), p.kw("rlike"):
			l = bin("regexp", l, p.bitOr())
		case p.kw("not", "in"):
			l = p.inList("notin", l)
		case p.kw("in"):
			l = p.inList("in", l)
		case p.kw("not", "between"):
			a := p.bitOr()
			p.need("and")
			l = &node{op: "notbetween", kids: []*node{l, a, p.bitOr()}}
		case p.kw("between"):
			a := p.bitOr()
			p.need("and")
			l = &node{op: "between", kids: []*node{l, a, p.bitOr()}}
		default:
			return l
		}
	}
}
func (p *parser) like(o string, l *node) *node {
	n := bin(o, l, p.bitOr())
	if p.kw("escape") {
		n.kids = append(n.kids, p.bitOr())
	}
	return n
}
func (p *parser) inList(o string, l *node) *node {
	p.needOp("(")
	n := &node{op: o, kids: []*node{l}}
	if p.isKw("select") {
		n.kids = append(n.kids, &node{op: "sub", kids: []*node{p.selectStmt()}})
	} else {
		for {
			n.kids = append(n.kids, p.expr())
			if !p.op(",") {
				break
			}
		}
	}
	p.needOp(")")
	return n
}
func (p *parser) bitOr() *node {
	l := p.bitAnd()
	for p.op("|") || (p.d != MySQL && p.isOp("||")) {
		if p.d != MySQL && p.op("||") {
			l = bin("||", l, p.bitAnd())
		} else {
			l = bin("|", l, p.bitAnd())
		}
	}
	return l
}
func (p *parser) bitAnd() *node {
	l := p.shift()
	for p.op("&") {
		l = bin("&", l, p.shift())
	}
	return l
}
func (p *parser) shift() *node {
	l := p.addExpr()
	for {
		if p.op("<<") {
			l = bin("<<", l, p.addExpr())
		} else if p.op(">>") {
			l = bin(">>", l, p.addExpr())
		} else {
			return l
		}
	}
}
func (p *parser) addExpr() *node {
	l := p.mulExpr()
	for {
		if p.op("+") {
			l = bin("+", l, p.mulExpr())
		} else if p.op("-") {
			l = bin("-", l, p.mulExpr())
		} else {
			return l
		}
	}
}
func (p *parser) mulExpr() *node {
	l := p.xorBit()
	for {
		if p.op("*") {
			l = bin("*", l, p.xorBit())
		} else if p.op("/") {
			l = bin("/", l, p.xorBit())
		} else if p.op("%") || (p.d == MySQL && p.kw("mod")) {
			l = bin("%", l, p.xorBit())
		} else if (p.d == MySQL || p.d == Canon) && p.kw("div") {
			l = bin("div", l, p.xorBit())
		} else {
			return l
		}
	}
}
func (p *parser) xorBit() *node {
	l := p.unary()
	for p.op("^") {
		l = bin("^", l, p.unary())
	}
	return l
}
func (p *parser) unary() *node {
	for _, o := range []string{"-", "+", "~", "!"} {
		if p.op(o) {
			k := p.unary()
			if o == "-" && k.op == "num" && !strings.HasPrefix(k.s, "-") {
				return &node{op: "num", s: canonNum("-" + k.s)}
			}
			if o == "+" && k.op == "num" {
				return k
			}
			return &node{op: "un", s: o, kids: []*node{k}}
		}
	}
	if p.kw("binary") {
		return &node{op: "un", s: "binary", kids: []*node{p.unary()}}
	}
	return p.postfix()
}
func (p *parser) postfix() *node {
	n := p.primary()
	for {
		switch {
		case p.op("::"):
			n = &node{op: "cast", s: canonTypeText(p.typ()), kids: []*node{n}}
		case p.kw("collate"):
			n = &node{op: "collate", s: p.identOrStr(), kids: []*node{n}}
		case p.kw("at", "time", "zone"):
			n = bin("at time zone", n, p.primary())
		case p.isOp("->") || p.isOp("->>"):
			o := p.adv().s
			n = bin(o, n, p.primary())
		default:
			return n
		}
	}
}

var bareFuncs = map[string]string{"current_timestamp": "current_timestamp", "current_date": "current_date", "current_time": "current_time", "current_user": "current_user", "session_user": "session_user", "localtime": "localtime", "localtimestamp": "localtimestamp", "null": "null", "true": "true", "false": "false", "default": "default"}

func (p *parser) primary() *node {
	t := p.peek()
	switch t.k {
	case tNum:
		p.adv()
		return &node{op: "num", s: canonNum(t.s)}
	case tStr:
		p.adv()
		return &node{op: "str", s: t.s}
	case tBit:
		p.adv()
		return &node{op: "bit", s: t.s}
	case tHex:
		p.adv()
		return &node{op: "hex", s: strings.ToLower(t.s)}
	case tOp:
		if t.s == "(" {
			p.adv()
			var n *node
			if p.isKw("select") {
				n = &node{op: "sub", kids: []*node{p.selectStmt()}}
			} else {
				n = p.expr()
				if p.isOp(",") {
					tp := &node{op: "tuple", kids: []*node{n}}
					for p.op(",") {
						tp.kids = append(tp.kids, p.expr())
					}
					n = tp
				}
			}
			p.needOp(")")
			return n
		}
		if t.s == "*" {
			p.adv()
			return &node{op: "col", s: "*"}
		}
	case tQIdent:
		return p.colref()
	case tIdent:
		if v, ok := bareFuncs[t.low]; ok && !(p.peekN(1).k == tOp && p.peekN(1).s == ".") {
			p.adv()
			if p.isOp("(") && p.d != PG || p.isOp("(") && (v == "current_timestamp" || v == "current_time") {
				p.adv()
				if !p.isOp(")") {
					a := p.expr()
					p.needOp(")")
					return &node{op: "fn", s: v, kids: []*node{a}}
				}
				p.needOp(")")
			}
			return &node{op: "kw", s: v}
		}
		switch t.low {
		case "case":
			return p.caseExpr()
		case "cast", "convert":
			if p.peekN(1).k == tOp && p.peekN(1).s == "(" && (t.low == "cast" || p.d == MySQL || p.d == Canon) {
				p.adv()
				p.adv()
				e := p.expr()
				if t.low == "convert" && p.kw("using") { // CONVERT(e USING charset)
					n := &node{op: "using", s: p.adv().low, kids: []*node{e}}
					p.needOp(")")
					return n
				}
				if t.low == "cast" {
					p.need("as")
				} else {
					p.needOp(",") // CONVERT(e, type) is CAST(e AS type)
				}
				ty := canonTypeText(p.typ())
				p.needOp(")")
				return &node{op: "cast", s: ty, kids: []*node{e}}
			}
		case "group_concat":
			if p.d == MySQL || p.d == Canon {
				return p.groupConcat()
			}
		case "match":
			if p.d == MySQL || p.d == Canon {
				return p.match()
			}
		case "exists":
			p.adv()
			p.needOp("(")
			s := p.selectStmt()
			p.needOp(")")
			return &node{op: "exists", kids: []*node{s}}
		case "interval":
			if p.peekN(1).k != tOp {
				p.adv()
				e := p.primary()
				if p.peek().k == tIdent && !reservedExpr[p.peek().low] {
					return &node{op: "interval", s: p.adv().low, kids: []*node{e}}
				}
				return &node{op: "interval", s: "", kids: []*node{e}}
			}
		case "array":
			if p.peekN(1).k == tOp && p.peekN(1).s == "[" {
				p.adv()
				p.adv()
				n := &node{op: "array"}
				for !p.isOp("]") {
					n.kids = append(n.kids, p.expr())
					if !p.op(",") {
						break
					}
				}
				p.needOp("]")
				return n
			}
		}
		if p.peekN(1).k == tOp && p.peekN(1).s == "(" {
			p.adv()
			p.adv()
			n := &node{op: "fn", s: t.low}
			if p.kw("distinct") {
				n.op = "fndistinct"
			}
			for !p.isOp(")") {
				n.kids = append(n.kids, p.expr())
				if !p.op(",") {
					break
				}
			}
			p.needOp(")")
			return n
		}
		if reservedExpr[t.low] {
			fail("unexpected keyword %q in expression", t.s)
		}
		return p.colref()
	}
	fail("expression expected near %q", p.near())
	return nil
}

// GROUP_CONCAT([DISTINCT] e, ... [ORDER BY ...] [SEPARATOR 's']): kids are the
// items, the order and the separator
func (p *parser) groupConcat() *node {
	p.adv()
	p.needOp("(")
	n := &node{op: "gconcat"}
	if p.kw("distinct") {
		n.s = "distinct"
	}
	items := &node{op: "tuple"}
	for {
		items.kids = append(items.kids, p.expr())
		if !p.op(",") {
			break
		}
	}
	order := p.orderBy()
	sep := &node{op: "str", s: ","}
	if p.kw("separator") {
		sep = p.primary()
	}
	p.needOp(")")
	n.kids = []*node{items, order, sep}
	return n
}

// MATCH (cols) AGAINST (e [IN ... MODE | WITH QUERY EXPANSION])
func (p *parser) match() *node {
	p.adv()
	n := &node{op: "match"}
	p.needOp("(")
	for {
		n.kids = append(n.kids, p.expr())
		if !p.op(",") {
			break
		}
	}
	p.needOp(")")
	p.need("against")
	p.needOp("(")
	n.kids = append(n.kids, p.bitOr())
	for !p.isOp(")") {
		n.s += " " + p.adv().low
	}
	p.needOp(")")
	n.s = strings.TrimSpace(n.s)
	return n
}

func (p *parser) colref() *node {
	parts := []string{p.ident()}
	for p.isOp(".") {
		p.adv()
		if p.op("*") {
			parts = append(parts, "*")
			break
		}
		parts = append(parts, p.ident())
	}
	return &node{op: "col", s: strings.Join(parts, ".")}
}
func (p *parser) caseExpr() *node {
	p.need("case")
	n := &node{op: "case"}
	if !p.isKw("when") {
		n.s += "b"
		n.kids = append(n.kids, p.expr())
	}
	for p.kw("when") {
		n.kids = append(n.kids, p.expr())
		p.need("then")
		n.kids = append(n.kids, p.expr())
	}
	if p.kw("else") {
		n.s += "e"
		n.kids = append(n.kids, p.expr())
	}
	p.need("end")
	return n
}

// SELECT ------------------------------------------------------------------
// node op "select": s = "distinct" or "", kids: items, from, where, group, having, order, limit
// each a node with op "items","from",... possibly with no kids.

func (p *parser) selectStmt() *node {
	l := p.selectCore()
	for p.isKw("union") {
		p.adv()
		o := "union"
		if p.kw("all") {
			o = "union all"
		}
		l = &node{op: "union", s: o, kids: []*node{l, p.selectCore()}}
	}
	return l
}
func (p *parser) selectCore() *node {
	if p.isOp("(") {
		p.adv()
		n := p.selectStmt()
		p.needOp(")")
		return n
	}
	p.need("select")
	n := &node{op: "select"}
	if p.kw("distinct") {
		n.s = "distinct"
	} else {
		p.kw("all")
	}
	if p.d == MSSQL && p.isKw("top") {
		p.adv()
		n.s = strings.TrimSpace(n.s + " top " + canon(p.primary()))
	}
	items := &node{op: "items"}
	for {
		e := p.expr()
		a := ""
		if p.kw("as") {
			a = p.identOrStr()
		} else if t := p.peek(); t.k == tQIdent || (t.k == tIdent && !reservedExpr[t.low]) {
			a = p.ident()
		}
		items.kids = append(items.kids, &node{op: "item", s: a, kids: []*node{e}})
		if !p.op(",") {
			break
		}
	}
	from := &node{op: "from"}
	if p.kw("from") {
		for {
			from.kids = append(from.kids, p.tableRef())
			if !p.op(",") {
				break
			}
		}
		if len(from.kids) == 1 && p.d == MySQL && from.kids[0].op == "table" && strings.EqualFold(from.kids[0].s, "dual") {
			from.kids = nil // the same as no FROM
		}
	}
	where := &node{op: "where"}
	if p.kw("where") {
		where.kids = append(where.kids, p.expr())
	}
	group := &node{op: "group"}
	if p.kw("group", "by") {
		for {
			group.kids = append(group.kids, p.expr())
			if !p.op(",") {
				break
			}
		}
	}
	having := &node{op: "having"}
	if p.kw("having") {
		having.kids = append(having.kids, p.expr())
	}
	order := p.orderBy()
	limit := &node{op: "limit"}
	if p.kw("limit") {
		a := p.expr()
		if p.op(",") {
			b := p.expr()
			limit.kids = []*node{b, a}
		} else if p.kw("offset") {
			limit.kids = []*node{a, p.expr()}
		} else {
			limit.kids = []*node{a}
		}
	}
	n.kids = []*node{items, from, where, group, having, order, limit}
	return n
}

func (p *parser) orderBy() *node {
	order := &node{op: "order"}
	if p.kw("order", "by") {
		for {
			e := p.expr()
			dir := "asc"
			if p.kw("desc") {
				dir = "desc"
			} else {
				p.kw("asc")
			}
			order.kids = append(order.kids, &node{op: "ord", s: dir, kids: []*node{e}})
			if !p.op(",") {
				break
			}
		}
	}
	return order
}

func (p *parser) tableRef() *node {
	l := p.tablePrimary()
	for {
		j := ""
		switch {
		case p.kw("join"), p.kw("inner", "join"):
			j = "join"
		case p.kw("cross", "join"):
			j = "cross join"
		case p.kw("straight_join"):
			j = "straight_join"
		case p.kw("left", "outer", "join"), p.kw("left", "join"):
			j = "left join"
		case p.kw("right", "outer", "join"), p.kw("right", "join"):
			j = "right join"
		case p.kw("full", "outer", "join"), p.kw("full", "join"):
			j = "full join"
		case p.kw("natural", "join"):
			j = "natural join"
		default:
			return l
		}
		r := p.tablePrimary()
		n := &node{op: "join", s: j, kids: []*node{l, r}}
		if p.kw("on") {
			n.kids = append(n.kids, p.expr())
		} else if p.kw("using") {
			p.needOp("(")
			u := &node{op: "using"}
			for {
				u.kids = append(u.kids, &node{op: "col", s: p.ident()})
				if !p.op(",") {
					break
				}
			}
			p.needOp(")")
			n.kids = append(n.kids, u)
		}
		l = n
	}
}
func (p *parser) tablePrimary() *node {
	if p.op("(") {
		if p.isKw("select") {
			s := p.selectStmt()
			p.needOp(")")
			n := &node{op: "derived", kids: []*node{s}}
			n.s = p.alias()
			return n
		}
		n := p.tableRef()
		p.needOp(")")
		return n
	}
	parts := []string{p.ident()}
	for p.op(".") {
		parts = append(parts, p.ident())
	}
	n := &node{op: "table", s: strings.Join(parts, ".")}
	if a := p.alias(); a != "" {
		n.kids = []*node{{op: "alias", s: a}}
	}
	return n
}
func (p *parser) alias() string {
	if p.kw("as") {
		return p.ident()
	}
	if t := p.peek(); t.k == tQIdent || (t.k == tIdent && !reservedExpr[t.low]) {
		return p.ident()
	}
	return ""
}

// ---------------------------------------------------------------- canonical text

func canonNum(s string) string {
	neg := strings.HasPrefix(s, "-")
	s = strings.TrimPrefix(s, "-")
	s = strings.TrimPrefix(s, "+")
	exp := ""
	if i := strings.IndexAny(s, "eE"); i >= 0 {
		exp = strings.ToLower(s[i:])
		s = s[:i]
	}
	if i := strings.IndexByte(s, '.'); i >= 0 {
		s = strings.TrimRight(s, "0")
		s = strings.TrimSuffix(s, ".")
	}
	for len(s) > 1 && s[0] == '0' && s[1] != '.' {
		s = s[1:]
	}
	if s == "" {
		s = "0"
	}
	if strings.HasPrefix(s, ".") {
		s = "0" + s
	}
	if s == "0" && exp == "" {
		return "0"
	}
	if neg {
		s = "-" + s
	}
	return s + exp
}

func quoteStr(s string) string { return "'" + strings.ReplaceAll(s, "'", "''") + "'" }

func simpleIdent(s string) bool {
	if s == "" || reservedExpr[strings.ToLower(s)] {
		return false
	}
	if _, ok := bareFuncs[strings.ToLower(s)]; ok {
		return false
	}
	for i := 0; i < len(s); i++ {
		c := s[i]
		if !(c == '_' || (c >= 'a' && c <= 'z') || (i > 0 && isDigit(c))) {
			return false
		}
	}
	return true
}

// canonical identifier: plain when simple lower case, else in double quotes
func cid(s string) string {
	if s == "*" || simpleIdent(s) {
		return s
	}
	return "\"" + strings.ReplaceAll(s, "\"", "\"\"") + "\""
}
func cidPath(s string) string {
	parts := strings.Split(s, ".")
	for i := range parts {
		parts[i] = cid(parts[i])
	}
	return strings.Join(parts, ".")
}

func canonList(ks []*node) string {
	var a []string
	for _, k := range ks {
		a = append(a, canon(k))
	}
	return strings.Join(a, ", ")
}

// canon: canonical text of the tree: fully parenthesised operators.
func canon(n *node) string {
	switch n.op {
	case "col", "table":
		s := cidPath(n.s)
		if n.op == "table" && len(n.kids) > 0 {
			s += " as " + cid(n.kids[0].s)
		}
		return s
	case "num", "kw":
		return n.s
	case "str":
		return quoteStr(n.s)
	case "bit":
		return "b'" + n.s + "'"
	case "hex":
		return "x'" + n.s + "'"
	case "un":
		if n.s == "not" || n.s == "binary" {
			return "(" + n.s + " " + canon(n.kids[0]) + ")"
		}
		return "(" + n.s + canon(n.kids[0]) + ")"
	case "bin":
		s := "(" + canon(n.kids[0]) + " " + n.s + " " + canon(n.kids[1])
		if len(n.kids) > 2 {
			s += " escape " + canon(n.kids[2])
		}
		return s + ")"
	case "post":
		return "(" + canon(n.kids[0]) + " " + n.s + ")"
	case "fn":
		return n.s + "(" + canonList(n.kids) + ")"
	case "fndistinct":
		return n.s + "(distinct " + canonList(n.kids) + ")"
	case "cast":
		return "cast(" + canon(n.kids[0]) + " as " + n.s + ")"
	case "using":
		return "convert(" + canon(n.kids[0]) + " using " + n.s + ")"
	case "gconcat":
		s := "group_concat("
		if n.s != "" {
			s += n.s + " "
		}
		s += canonList(n.kids[0].kids)
		if len(n.kids[1].kids) > 0 {
			s += " order by " + canonList(n.kids[1].kids)
		}
		return s + " separator " + canon(n.kids[2]) + ")"
	case "match":
		k := len(n.kids) - 1
		s := "match (" + canonList(n.kids[:k]) + ") against (" + canon(n.kids[k])
		if n.s != "" {
			s += " " + n.s
		}
		return s + ")"
	case "collate":
		return "(" + canon(n.kids[0]) + " collate " + n.s + ")"
	case "in", "notin":
		o := " in ("
		if n.op == "notin" {
			o = " not in ("
		}
		if len(n.kids) == 2 && n.kids[1].op == "sub" {
			return "(" + canon(n.kids[0]) + o + canon(n.kids[1].kids[0]) + "))"
		}
		return "(" + canon(n.kids[0]) + o + canonList(n.kids[1:]) + "))"
	case "between":
		return "(" + canon(n.kids[0]) + " between " + canon(n.kids[1]) + " and " + canon(n.kids[2]) + ")"
	case "notbetween":
		return "(" + canon(n.kids[0]) + " not between " + canon(n.kids[1]) + " and " + canon(n.kids[2]) + ")"
	case "case":
		ks := n.kids
		s := "case"
		if strings.Contains(n.s, "b") {
			s += " " + canon(ks[0])
			ks = ks[1:]
		}
		var els *node
		if strings.Contains(n.s, "e") {
			els = ks[len(ks)-1]
			ks = ks[:len(ks)-1]
		}
		for i := 0; i+1 < len(ks); i += 2 {
			s += " when " + canon(ks[i]) + " then " + canon(ks[i+1])
		}
		if els != nil {
			s += " else " + canon(els)
		}
		return s + " end"
	case "sub":
		return "(" + canon(n.kids[0]) + ")"
	case "exists":
		return "exists (" + canon(n.kids[0]) + ")"
	case "tuple":
		return "(" + canonList(n.kids) + ")"
	case "array":
		return "array[" + canonList(n.kids) + "]"
	case "interval":
		return strings.TrimSpace("interval " + canon(n.kids[0]) + " " + n.s)
	case "union":
		return canon(n.kids[0]) + " " + n.s + " " + canon(n.kids[1])
	case "join":
		s := "(" + canon(n.kids[0]) + " " + n.s + " " + canon(n.kids[1])
		if len(n.kids) > 2 {
			if n.kids[2].op == "using" {
				s += " using (" + canonList(n.kids[2].kids) + ")"
			} else {
				s += " on " + canon(n.kids[2])
			}
		}
		return s + ")"
	case "derived":
		s := "(" + canon(n.kids[0]) + ")"
		if n.s != "" {
			s += " as " + cid(n.s)
		}
		return s
	case "item":
		s := canon(n.kids[0])
		if n.s != "" {
			s += " as " + cid(n.s)
		}
		return s
	case "ord":
		s := canon(n.kids[0])
		if n.s == "desc" {
			s += " desc"
		}
		return s
	case "select":
		s := "select "
		if n.s != "" {
			s += n.s + " "
		}
		s += canonList(n.kids[0].kids)
		names := []string{"", " from ", " where ", " group by ", " having ", " order by "}
		for i := 1; i <= 5; i++ {
			if len(n.kids[i].kids) > 0 {
				s += names[i] + canonList(n.kids[i].kids)
			}
		}
		if lk := n.kids[6].kids; len(lk) > 0 {
			s += " limit " + canon(lk[0])
			if len(lk) > 1 {
				s += " offset " + canon(lk[1])
			}
		}
		return s
	}
	return "?" + n.op
}

// collect tables referenced by a select
func refTables(n *node, acc map[string]bool) {
	if n == nil {
		return
	}
	if n.op == "table" {
		acc[n.s] = true
	}
	for _, k := range n.kids {
		refTables(k, acc)
	}
}

// collect column names (last path component) used anywhere
func refCols(n *node, acc map[string]bool) {
	if n == nil {
		return
	}
	if n.op == "col" {
		parts := strings.Split(n.s, ".")
		acc[parts[len(parts)-1]] = true
	}
	for _, k := range n.kids {
		refCols(k, acc)
	}
}

// output column names of a select
func selCols(n *node) []string {
	for n.op == "union" {
		n = n.kids[0]
	}
	out := []string{}
	if n.op != "select" {
		return out
	}
	for _, it := range n.kids[0].kids {
		if it.s != "" {
			out = append(out, it.s)
		} else if it.kids[0].op == "col" {
			parts := strings.Split(it.kids[0].s, ".")
			out = append(out, parts[len(parts)-1])
		} else if it.kids[0].op == "fn" {
			out = append(out, it.kids[0].s)
		} else {
			out = append(out, "?column?")
		}
	}
	return out
}
