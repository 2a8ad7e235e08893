package main

import (
	"fmt"
	"regexp"
	"strings"
	"unicode"
)

// Dialects. The names are the ones used in the TLA+ modules.
const (
	MySQL  = "mysql"
	PG     = "pg"
	MSSQL  = "mssql"
	SQLite = "sqlite"
)

type tokKind int

const (
	tEOF tokKind = iota
	tIdent
	tQIdent
	tStr
	tNum
	tOp
	tParam
	tBit
	tHex
)

type token struct {
	k     tokKind
	s     string // value: identifiers unquoted, strings unescaped
	low   string // lower-case for keywords (only for tIdent)
	pos   int
	end   int
	space bool // preceded by whitespace
}

type lexer struct {
	d   string
	src string
	pos int
}

type parseError struct{ msg string }

func (e parseError) Error() string { return e.msg }

func fail(format string, a ...interface{}) {
	panic(parseError{fmt.Sprintf(format, a...)})
}

func isIdStart(c byte) bool {
	return c == '_' || c == '@' || c == '$' || (c >= 'a' && c <= 'z') || (c >= 'A' && c <= 'Z') || c >= 0x80
}
func isIdPart(c byte) bool { return isIdStart(c) || (c >= '0' && c <= '9') || c == '#' }
func isDigit(c byte) bool  { return c >= '0' && c <= '9' }

var reExec = regexp.MustCompile(`^/\*!\d*`)

func (l *lexer) skipSpace() bool {
	sp := false
	for l.pos < len(l.src) {
		c := l.src[l.pos]
		switch {
		case unicode.IsSpace(rune(c)):
			l.pos++
			sp = true
		case c == '-' && strings.HasPrefix(l.src[l.pos:], "--"):
			for l.pos < len(l.src) && l.src[l.pos] != '\n' {
				l.pos++
			}
			sp = true
		case c == '#' && l.d == MySQL:
			for l.pos < len(l.src) && l.src[l.pos] != '\n' {
				l.pos++
			}
			sp = true
		case l.d == MySQL && reExec.MatchString(l.src[l.pos:]): // executable comment
			m := reExec.FindString(l.src[l.pos:])
			e := strings.Index(l.src[l.pos:], "*/")
			if e < 0 {
				fail("unterminated comment")
			}
			l.src = l.src[:l.pos] + strings.Repeat(" ", len(m)) + l.src[l.pos+len(m):l.pos+e] + "  " + l.src[l.pos+e+2:]
		case c == '/' && strings.HasPrefix(l.src[l.pos:], "/*"):
			e := strings.Index(l.src[l.pos+2:], "*/")
			if e < 0 {
				fail("unterminated comment")
			}
			l.pos += e + 4
			sp = true
		default:
			return sp
		}
	}
	return sp
}

func (l *lexer) quoted(q byte) string {
	var b strings.Builder
	i := l.pos + 1
	for {
		if i >= len(l.src) {
			fail("unterminated quote %c", q)
		}
		c := l.src[i]
		if c == q {
			if i+1 < len(l.src) && l.src[i+1] == q {
				b.WriteByte(q)
				i += 2
				continue
			}
			l.pos = i + 1
			return b.String()
		}
		if c == '\\' && l.d == MySQL && q != '`' && i+1 < len(l.src) {
			i++
			switch l.src[i] {
			case 'n':
				b.WriteByte('\n')
			case 't':
				b.WriteByte('\t')
			case 'r':
				b.WriteByte('\r')
			case '0':
				b.WriteByte(0)
			default:
				b.WriteByte(l.src[i])
			}
			i++
			continue
		}
		b.WriteByte(c)
		i++
	}
}

var ops3 = []string{"<=>", "!~*", "->>"}
var ops2 = []string{"<=", ">=", "<>", "!=", "::", "||", "&&", "<<", ">>", "->", "~*", "!~", ":="}

func isHex(c byte) bool {
	return isDigit(c) || c >= 'a' && c <= 'f' || c >= 'A' && c <= 'F'
}

func (l *lexer) next() token {
	sp := l.skipSpace()
	start := l.pos
	t := token{pos: start, space: sp}
	if l.pos >= len(l.src) {
		t.k = tEOF
		t.end = l.pos
		return t
	}
	c := l.src[l.pos]
	switch {
	case c == '`' && (l.d == MySQL || l.d == SQLite):
		t.k, t.s = tQIdent, l.quoted('`')
	case c == '"':
		t.s = l.quoted('"')
		if l.d == MySQL {
			t.k = tStr
		} else {
			t.k = tQIdent
		}
	case c == '[' && (l.d == MSSQL || l.d == SQLite):
		e := strings.IndexByte(l.src[l.pos:], ']')
		if e < 0 {
			fail("unterminated [")
		}
		t.k, t.s = tQIdent, l.src[l.pos+1:l.pos+e]
		l.pos += e + 1
	case c == '\'':
		t.k, t.s = tStr, l.quoted('\'')
	case (c == 'b' || c == 'B') && l.pos+1 < len(l.src) && l.src[l.pos+1] == '\'' && (l.d == MySQL || l.d == PG || l.d == Canon):
		l.pos++
		t.k, t.s = tBit, l.quoted('\'')
	case (c == 'x' || c == 'X') && l.pos+1 < len(l.src) && l.src[l.pos+1] == '\'':
		l.pos++
		t.k, t.s = tHex, l.quoted('\'')
	case (c == 'N' || c == 'E') && l.pos+1 < len(l.src) && l.src[l.pos+1] == '\'' && (l.d == MSSQL || l.d == PG):
		l.pos++
		t.k, t.s = tStr, l.quoted('\'')
	case c == '0' && l.d == MySQL && l.pos+2 < len(l.src) && l.src[l.pos+1] == 'x' && isHex(l.src[l.pos+2]):
		l.pos += 2
		for l.pos < len(l.src) && isHex(l.src[l.pos]) {
			l.pos++
		}
		t.k, t.s = tHex, l.src[start+2:l.pos]
	case isIdStart(c):
		for l.pos < len(l.src) && isIdPart(l.src[l.pos]) {
			l.pos++
		}
		t.k, t.s = tIdent, l.src[start:l.pos]
		t.low = strings.ToLower(t.s)
	case isDigit(c) || (c == '.' && l.pos+1 < len(l.src) && isDigit(l.src[l.pos+1])):
		for l.pos < len(l.src) && isDigit(l.src[l.pos]) {
			l.pos++
		}
		if l.pos < len(l.src) && l.src[l.pos] == '.' {
			l.pos++
			for l.pos < len(l.src) && isDigit(l.src[l.pos]) {
				l.pos++
			}
		}
		if l.pos < len(l.src) && (l.src[l.pos] == 'e' || l.src[l.pos] == 'E') {
			p := l.pos + 1
			if p < len(l.src) && (l.src[p] == '+' || l.src[p] == '-') {
				p++
			}
			if p < len(l.src) && isDigit(l.src[p]) {
				for p < len(l.src) && isDigit(l.src[p]) {
					p++
				}
				l.pos = p
			}
		}
		t.k, t.s = tNum, l.src[start:l.pos]
	default:
		t.k = tOp
		rest := l.src[l.pos:]
		for _, o := range ops3 {
			if strings.HasPrefix(rest, o) {
				t.s = o
			}
		}
		if t.s == "" {
			for _, o := range ops2 {
				if strings.HasPrefix(rest, o) {
					t.s = o
				}
			}
		}
		if t.s == "" {
			t.s = string(c)
		}
		l.pos += len(t.s)
	}
	t.end = l.pos
	return t
}

// tokenize the whole statement; panics with parseError on malformed text.
func tokenize(d, src string) []token {
	l := &lexer{d: d, src: src}
	var ts []token
	for {
		t := l.next()
		ts = append(ts, t)
		if t.k == tEOF {
			return ts
		}
	}
}

// splitStatements splits text at top-level semicolons (outside quotes,
// comments and BEGIN ... END bodies).
func splitStatements(d, src string) []string {
	ts := tokenize(d, src)
	var out []string
	start := 0
	depth := 0
	for _, t := range ts {
		if t.k == tIdent {
			if t.low == "begin" || t.low == "case" {
				depth++
			} else if t.low == "end" && depth > 0 {
				depth--
			}
		}
		if t.k == tEOF || (t.k == tOp && t.s == ";" && depth == 0) {
			s := strings.TrimSpace(src[start:t.pos])
			if hasToken(d, s) {
				out = append(out, s)
			}
			start = t.end
		}
	}
	return out
}

func hasToken(d, s string) bool {
	ts := tokenize(d, s)
	return len(ts) > 1
}
