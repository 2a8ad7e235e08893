package main

import (
	"strings"
)

// How a server prints the expressions and queries it stores, from their
// canonical text.

const Canon = "canon"

func parseCanonExpr(s string) *node {
	p := newParser(Canon, s)
	n := p.expr()
	if !p.eof() {
		fail("canonical expression: unexpected %q in %q", p.near(), s)
	}
	return n
}

func parseCanonSelect(s string) *node {
	p := newParser(Canon, s)
	n := p.selectStmt()
	if !p.eof() {
		fail("canonical select: unexpected %q in %q", p.near(), s)
	}
	return n
}

type deparser struct {
	d      string
	pretty bool
}

var pgReserved = map[string]bool{"order": true, "user": true, "group": true, "select": true, "table": true, "where": true, "check": true, "primary": true, "default": true, "end": true, "from": true, "to": true, "all": true, "desc": true, "asc": true, "limit": true}

func pgIdent(s string) string {
	ok := s != ""
	for i := 0; i < len(s); i++ {
		c := s[i]
		if !(c == '_' || (c >= 'a' && c <= 'z') || (i > 0 && isDigit(c))) {
			ok = false
		}
	}
	if ok && !pgReserved[s] {
		return s
	}
	return "\"" + strings.ReplaceAll(s, "\"", "\"\"") + "\""
}

func (x *deparser) id(s string) string {
	if s == "*" {
		return s
	}
	switch x.d {
	case MySQL:
		return "`" + strings.ReplaceAll(s, "`", "``") + "`"
	case MSSQL:
		return "[" + s + "]"
	case PG:
		return pgIdent(s)
	}
	return "\"" + strings.ReplaceAll(s, "\"", "\"\"") + "\""
}

func (x *deparser) path(s string) string {
	parts := strings.Split(s, ".")
	for i := range parts {
		parts[i] = x.id(parts[i])
	}
	return strings.Join(parts, ".")
}

func (x *deparser) list(ks []*node) string {
	var a []string
	for _, k := range ks {
		a = append(a, x.expr(k))
	}
	return strings.Join(a, x.comma())
}
func (x *deparser) comma() string {
	if x.d == PG {
		return ", "
	}
	return ","
}

func (x *deparser) word(s string) string {
	if x.d == PG || x.d == MSSQL {
		return strings.ToUpper(s)
	}
	return s
}

func (x *deparser) str(s string) string {
	q := "'" + strings.ReplaceAll(s, "'", "''") + "'"
	if x.d == MySQL {
		q = "'" + strings.ReplaceAll(strings.ReplaceAll(s, "\\", "\\\\"), "'", "\\'") + "'"
	}
	return q
}

func (x *deparser) paren(s string) string { return "(" + s + ")" }

func (x *deparser) expr(n *node) string {
	switch n.op {
	case "col":
		return x.path(n.s)
	case "num":
		if x.d == MSSQL {
			return "(" + n.s + ")"
		}
		if x.d == PG && strings.HasPrefix(n.s, "-") {
			return "(" + n.s + ")"
		}
		return n.s
	case "kw":
		if x.d == PG && (n.s == "null" || strings.HasPrefix(n.s, "current") || strings.HasPrefix(n.s, "session")) {
			return strings.ToUpper(n.s)
		}
		return n.s
	case "str":
		return x.str(n.s)
	case "bit":
		return "b'" + n.s + "'"
	case "hex":
		if x.d == MySQL {
			return "0x" + n.s
		}
		return "x'" + n.s + "'"
	case "un":
		if n.s == "not" {
			return x.paren(x.word("not") + " " + x.expr(n.kids[0]))
		}
		return x.paren(n.s + x.expr(n.kids[0]))
	case "bin":
		o := n.s
		w := o
		if o[0] >= 'a' && o[0] <= 'z' {
			w = " " + x.word(o) + " "
		} else if x.d == MSSQL {
			w = o
		} else {
			w = " " + o + " "
		}
		s := x.sub(n.kids[0], n.s) + w + x.sub(n.kids[1], n.s)
		if len(n.kids) > 2 {
			s += " " + x.word("escape") + " " + x.expr(n.kids[2])
		}
		return x.paren(s)
	case "post":
		return x.paren(x.expr(n.kids[0]) + " " + x.word(n.s))
	case "fn":
		if x.d == MySQL && n.s == "count" && len(n.kids) == 1 && n.kids[0].op == "col" && n.kids[0].s == "*" {
			return "count(0)"
		}
		nm := n.s
		if x.d == PG && (nm == "coalesce" || nm == "nullif" || nm == "greatest" || nm == "least") {
			nm = strings.ToUpper(nm)
		}
		return nm + "(" + x.list(n.kids) + ")"
	case "fndistinct":
		return n.s + "(" + x.word("distinct") + " " + x.list(n.kids) + ")"
	case "cast":
		if x.d == PG && n.kids[0].op == "str" {
			return x.str(n.kids[0].s) + "::" + n.s
		}
		if x.d == PG && n.kids[0].op == "kw" && n.kids[0].s == "null" {
			return "NULL::" + n.s
		}
		if x.d == PG {
			return "(" + x.expr(n.kids[0]) + ")::" + n.s
		}
		return "cast(" + x.expr(n.kids[0]) + " as " + n.s + ")"
	case "using":
		return "convert(" + x.expr(n.kids[0]) + " using " + n.s + ")"
	case "gconcat":
		s := "group_concat("
		if n.s != "" {
			s += n.s + " "
		}
		s += x.list(n.kids[0].kids)
		if len(n.kids[1].kids) > 0 {
			s += " order by "
			for i, k := range n.kids[1].kids {
				if i > 0 {
					s += ","
				}
				s += x.expr(k.kids[0]) + " " + strings.ToUpper(k.s)
			}
		}
		return s + " separator " + x.str(n.kids[2].s) + ")"
	case "match":
		k := len(n.kids) - 1
		s := "(match " + x.list(n.kids[:k]) + " against (" + x.expr(n.kids[k])
		if n.s != "" {
			s += " " + n.s
		}
		return s + "))"
	case "collate":
		return x.paren(x.expr(n.kids[0]) + " collate " + n.s)
	case "in", "notin":
		o := " in ("
		if n.op == "notin" {
			o = " not in ("
		}
		o = x.word(o)
		if len(n.kids) == 2 && n.kids[1].op == "sub" {
			return x.paren(x.expr(n.kids[0]) + o + x.sel(n.kids[1].kids[0]) + ")")
		}
		return x.paren(x.expr(n.kids[0]) + o + x.list(n.kids[1:]) + ")")
	case "between", "notbetween":
		if x.d == PG && n.op == "between" { // PostgreSQL stores BETWEEN as two comparisons
			return x.paren(x.paren(x.expr(n.kids[0])+" >= "+x.expr(n.kids[1])) + " AND " + x.paren(x.expr(n.kids[0])+" <= "+x.expr(n.kids[2])))
		}
		w := " between "
		if n.op == "notbetween" {
			w = " not between "
		}
		return x.paren(x.expr(n.kids[0]) + x.word(w) + x.expr(n.kids[1]) + x.word(" and ") + x.expr(n.kids[2]))
	case "case":
		ks := n.kids
		s := x.word("case")
		if strings.Contains(n.s, "b") {
			s += " " + x.expr(ks[0])
			ks = ks[1:]
		}
		var els *node
		if strings.Contains(n.s, "e") {
			els = ks[len(ks)-1]
			ks = ks[:len(ks)-1]
		}
		for i := 0; i+1 < len(ks); i += 2 {
			s += x.word(" when ") + x.expr(ks[i]) + x.word(" then ") + x.expr(ks[i+1])
		}
		if els != nil {
			s += x.word(" else ") + x.expr(els)
		}
		s += x.word(" end")
		if x.d == MySQL {
			return x.paren(s)
		}
		return s
	case "sub":
		return "(" + x.sel(n.kids[0]) + ")"
	case "exists":
		if x.d == PG {
			return "(EXISTS ( " + x.sel(n.kids[0]) + "))"
		}
		return x.word("exists") + "(" + x.sel(n.kids[0]) + ")"
	case "tuple":
		return "(" + x.list(n.kids) + ")"
	case "array":
		return "ARRAY[" + x.list(n.kids) + "]"
	case "interval":
		return strings.TrimSpace("interval " + x.expr(n.kids[0]) + " " + n.s)
	}
	fail("cannot print %q", n.op)
	return ""
}

// operand of a binary operator (n-ary AND/OR lists are flat in PostgreSQL)
func (x *deparser) sub(n *node, parent string) string {
	s := x.expr(n)
	if x.d == PG && n.op == "bin" && n.s == parent && (parent == "and" || parent == "or") {
		return s[1 : len(s)-1]
	}
	if x.d == MSSQL && n.op == "bin" && strings.HasPrefix(s, "(") && msPrec(n.s) >= msPrec(parent) && (parent == "and" || parent == "or") {
		return s[1 : len(s)-1]
	}
	return s
}

// SQL Server prints AND and OR lists with the parentheses precedence needs.
func msPrec(op string) int {
	switch op {
	case "or":
		return 1
	case "and":
		return 2
	}
	return 4
}

// top prints an expression without its outermost parentheses
func (x *deparser) top(n *node) string {
	s := x.expr(n)
	if (n.op == "bin" || n.op == "post" || n.op == "un" || n.op == "in" || n.op == "notin" || n.op == "between" || n.op == "notbetween") && strings.HasPrefix(s, "(") {
		return s[1 : len(s)-1]
	}
	return s
}

// prettyExpr: pg_get_constraintdef(.., true): comparison operands without
// needless parentheses, AND/OR/NOT operands unparenthesised when they are
// comparisons.
func (x *deparser) prettyExpr(n *node) string {
	simple := func(k *node) bool {
		return k.op == "col" || k.op == "num" || k.op == "str" || k.op == "kw" || k.op == "fn" || k.op == "cast"
	}
	opd := func(k *node) string {
		if simple(k) {
			if k.op == "fn" {
				return x.expr(k)
			}
			return x.expr(k)
		}
		return "(" + x.prettyExpr(k) + ")"
	}
	switch n.op {
	case "bin":
		if n.s == "and" || n.s == "or" {
			side := func(k *node) string {
				if k.op == "bin" && k.s == "or" && n.s == "and" {
					return "(" + x.prettyExpr(k) + ")"
				}
				return x.prettyExpr(k)
			}
			return side(n.kids[0]) + " " + strings.ToUpper(n.s) + " " + side(n.kids[1])
		}
		w := n.s
		return opd(n.kids[0]) + " " + strings.ToUpper(w) + " " + opd(n.kids[1])
	case "post":
		return opd(n.kids[0]) + " " + strings.ToUpper(n.s)
	case "un":
		if n.s == "not" {
			if k := n.kids[0]; k.op == "bin" && k.s != "and" && k.s != "or" || k.op == "post" {
				return "NOT " + x.prettyExpr(k)
			}
			return "NOT " + opd(n.kids[0])
		}
	}
	return x.expr(n)
}

func (x *deparser) tref(n *node) string {
	switch n.op {
	case "table":
		s := x.path(n.s)
		if len(n.kids) > 0 {
			s += " " + x.id(n.kids[0].s)
		}
		return s
	case "derived":
		s := "(" + x.sel(n.kids[0]) + ")"
		if n.s != "" {
			s += " " + x.id(n.s)
		}
		return s
	case "join":
		if x.d == PG {
			s := "(" + x.tref(n.kids[0]) + "\n     " + strings.ToUpper(n.s) + " " + x.tref(n.kids[1])
			if len(n.kids) > 2 {
				if n.kids[2].op == "using" {
					s += " USING (" + x.list(n.kids[2].kids) + ")"
				} else {
					s += " ON (" + x.expr(n.kids[2]) + ")"
				}
			}
			return s + ")"
		}
		s := "(" + x.tref(n.kids[0]) + " " + n.s + " " + x.tref(n.kids[1])
		if len(n.kids) > 2 {
			if n.kids[2].op == "using" {
				s += " using (" + x.list(n.kids[2].kids) + ")"
			} else {
				s += " on(" + x.expr(n.kids[2]) + ")"
			}
		}
		return s + ")"
	}
	fail("cannot print table reference %q", n.op)
	return ""
}

func (x *deparser) sel(n *node) string {
	if n.op == "union" {
		if x.d == PG {
			return x.sel(n.kids[0]) + "\n" + strings.ToUpper(n.s) + "\n" + x.sel(n.kids[1])
		}
		return x.sel(n.kids[0]) + " " + n.s + " " + x.sel(n.kids[1])
	}
	var b strings.Builder
	b.WriteString(x.word("select") + " ")
	if n.s != "" {
		b.WriteString(x.word(n.s) + " ")
	}
	sep := ","
	if x.d == PG {
		sep = ",\n    "
	}
	for i, it := range n.kids[0].kids {
		if i > 0 {
			b.WriteString(sep)
		}
		b.WriteString(x.expr(it.kids[0]))
		if it.s != "" {
			w := " AS "
			b.WriteString(w + x.id(it.s))
		}
	}
	cl := func(i int, kw, pg string, f func(k *node) string, sep string) {
		ks := n.kids[i].kids
		if len(ks) == 0 {
			return
		}
		if x.d == PG {
			b.WriteString("\n" + pg + " ")
		} else {
			b.WriteString(" " + kw + " ")
		}
		for j, k := range ks {
			if j > 0 {
				b.WriteString(sep)
			}
			b.WriteString(f(k))
		}
	}
	fsep := " join "
	if x.d == PG {
		fsep = ",\n    "
	}
	cl(1, "from", "  FROM", x.tref, fsep)
	cl(2, "where", " WHERE", x.expr, ",")
	cl(3, "group by", " GROUP BY", x.expr, x.comma())
	cl(4, "having", " HAVING", x.expr, ",")
	cl(5, "order by", " ORDER BY", func(k *node) string {
		s := x.expr(k.kids[0])
		if k.s == "desc" {
			s += x.word(" desc")
		}
		return s
	}, x.comma())
	if lk := n.kids[6].kids; len(lk) > 0 {
		if x.d == PG {
			b.WriteString("\n LIMIT " + x.expr(lk[0]))
			if len(lk) > 1 {
				b.WriteString("\nOFFSET " + x.expr(lk[1]))
			}
		} else if len(lk) > 1 {
			b.WriteString(" limit " + x.expr(lk[1]) + "," + x.expr(lk[0]))
		} else {
			b.WriteString(" limit " + x.expr(lk[0]))
		}
	}
	return b.String()
}
