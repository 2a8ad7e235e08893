package main

import (
	"bytes"
	"crypto/sha1"
	"encoding/binary"
	"fmt"
	"io"
	"net"
	"regexp"
	"sort"
	"strings"
)

// The MySQL side: wire protocol and the SHOW / INFORMATION_SCHEMA reads.

type myConn struct {
	c   net.Conn
	seq byte
	s   *session
	tx  bool
}

func (m *myConn) readPacket() ([]byte, error) {
	var h [4]byte
	if _, err := io.ReadFull(m.c, h[:]); err != nil {
		return nil, err
	}
	n := int(h[0]) | int(h[1])<<8 | int(h[2])<<16
	m.seq = h[3] + 1
	b := make([]byte, n)
	if _, err := io.ReadFull(m.c, b); err != nil {
		return nil, err
	}
	return b, nil
}

func (m *myConn) pkt(buf *bytes.Buffer, b []byte) {
	buf.Write([]byte{byte(len(b)), byte(len(b) >> 8), byte(len(b) >> 16), m.seq})
	m.seq++
	buf.Write(b)
}

func (m *myConn) send(bs ...[]byte) error {
	var buf bytes.Buffer
	for _, b := range bs {
		m.pkt(&buf, b)
	}
	_, err := m.c.Write(buf.Bytes())
	return err
}

func lenenc(n int) []byte {
	if n < 251 {
		return []byte{byte(n)}
	}
	if n < 1<<16 {
		return []byte{0xfc, byte(n), byte(n >> 8)}
	}
	return []byte{0xfd, byte(n), byte(n >> 8), byte(n >> 16)}
}

func lenencStr(s string) []byte { return append(lenenc(len(s)), s...) }

func myOK() []byte  { return []byte{0, 0, 0, 2, 0, 0, 0} }
func myEOF() []byte { return []byte{0xfe, 0, 0, 2, 0} }
func myErr(code int, msg string) []byte {
	b := []byte{0xff, byte(code), byte(code >> 8), '#'}
	b = append(b, "HY000"...)
	return append(b, msg...)
}

const mySalt = "abcdefgh" + "ijklmnopqrst"

func nativePassword(pw string) []byte {
	if pw == "" {
		return []byte{}
	}
	s1 := sha1.Sum([]byte(pw))
	s2 := sha1.Sum(s1[:])
	h := sha1.New()
	h.Write([]byte(mySalt))
	h.Write(s2[:])
	s3 := h.Sum(nil)
	out := make([]byte, 20)
	for i := range out {
		out[i] = s1[i] ^ s3[i]
	}
	return out
}

func serveMySQL(c net.Conn, s *session) {
	defer c.Close()
	m := &myConn{c: c, s: s}
	var g bytes.Buffer
	g.WriteByte(10)
	g.WriteString("5.7.33\x00")
	binary.Write(&g, binary.LittleEndian, uint32(7))
	g.WriteString(mySalt[:8])
	g.WriteByte(0)
	caps := uint32(0x1 | 0x2 | 0x4 | 0x8 | 0x200 | 0x2000 | 0x8000 | 0x80000) // no SSL
	binary.Write(&g, binary.LittleEndian, uint16(caps))
	g.WriteByte(33)
	binary.Write(&g, binary.LittleEndian, uint16(2))
	binary.Write(&g, binary.LittleEndian, uint16(caps>>16))
	g.WriteByte(21)
	g.Write(make([]byte, 10))
	g.WriteString(mySalt[8:])
	g.WriteByte(0)
	g.WriteString("mysql_native_password\x00")
	if m.send(g.Bytes()) != nil {
		return
	}
	b, err := m.readPacket()
	if err != nil || len(b) < 33 {
		return
	}
	cl := binary.LittleEndian.Uint32(b)
	p := b[32:]
	z := bytes.IndexByte(p, 0)
	if z < 0 {
		return
	}
	li := loginInfo{User: string(p[:z]), At: c.LocalAddr().String(), TLS: "no", Net: c.LocalAddr().Network()}
	p = p[z+1:]
	n := int(p[0])
	auth := p[1 : 1+n]
	p = p[1+n:]
	if cl&0x8 != 0 {
		if z := bytes.IndexByte(p, 0); z >= 0 {
			li.DB = string(p[:z])
		}
	}
	if bytes.Equal(auth, nativePassword(s.pw)) {
		li.Pass = s.pw
	} else if len(auth) == 0 {
		li.Pass = ""
	} else {
		li.Pass = "<another password>"
		for _, x := range s.pws {
			if bytes.Equal(auth, nativePassword(x)) {
				li.Pass = x
			}
		}
	}
	if msg, drop := s.login(li); drop {
		return
	} else if msg != "" {
		m.send(myErr(1045, msg))
		return
	}
	if m.send(myOK()) != nil {
		return
	}
	for {
		b, err := m.readPacket()
		if err != nil || len(b) == 0 {
			s.closed(m.tx)
			return
		}
		switch b[0] {
		case 1: // quit
			s.closed(m.tx)
			return
		case 2, 14: // init db, ping
			m.send(myOK())
		case 3:
			r := s.stmt(string(b[1:]), nil, &m.tx, mysqlQuery)
			if r.drop {
				return
			}
			if !m.reply(r) {
				return
			}
		default:
			s.mu.Lock()
			s.mach("MySQL command %d not supported", b[0])
			s.mu.Unlock()
			m.send(myErr(1047, "unknown command"))
		}
	}
}

func (m *myConn) reply(r reply) bool {
	if r.err != "" {
		return m.send(myErr(1064, r.err)) == nil
	}
	if r.ok {
		return m.send(myOK()) == nil
	}
	var ps [][]byte
	ps = append(ps, lenenc(len(r.cols)))
	for _, c := range r.cols {
		var b bytes.Buffer
		b.Write(lenencStr("def"))
		b.Write(lenencStr(""))
		b.Write(lenencStr(""))
		b.Write(lenencStr(""))
		b.Write(lenencStr(c))
		b.Write(lenencStr(c))
		b.WriteByte(0x0c)
		binary.Write(&b, binary.LittleEndian, uint16(33))
		binary.Write(&b, binary.LittleEndian, uint32(1024))
		b.WriteByte(0xfd)
		b.Write([]byte{0, 0, 0, 0, 0})
		ps = append(ps, b.Bytes())
	}
	ps = append(ps, myEOF())
	for i, row := range r.rows {
		if r.stop >= 0 && i >= r.stop {
			break
		}
		var b bytes.Buffer
		for _, v := range row {
			if v == nil {
				b.WriteByte(0xfb)
			} else {
				b.Write(lenencStr(fmt.Sprint(v)))
			}
		}
		ps = append(ps, b.Bytes())
	}
	if r.stop >= 0 {
		if r.stopE {
			ps = append(ps, myErr(1317, "Query execution was interrupted (injected)"))
			return m.send(ps...) == nil
		}
		m.send(ps...)
		return false
	}
	ps = append(ps, myEOF())
	return m.send(ps...) == nil
}

var (
	reShowCreate = regexp.MustCompile("(?is)^show create (table|view) `?((?:[^`]|``)*?)`?$")
	reShowTables = regexp.MustCompile(`(?is)^show (full )?tables\b(.*)$`)
	reFrom       = regexp.MustCompile("(?is)\\b(?:from|in)\\s+`?([A-Za-z0-9_$-]+)`?")
)

func strRow(v ...interface{}) []interface{} { return v }

func mysqlQuery(s *session, text string, args []string) (reply, bool) {
	t := strings.TrimSpace(strings.TrimRight(strings.TrimSpace(text), ";"))
	t = strings.Join(strings.Fields(t), " ")
	if m := reShowCreate.FindStringSubmatch(t); m != nil {
		n := strings.ReplaceAll(m[2], "``", "`")
		if i := strings.LastIndex(n, "."); i >= 0 {
			n = strings.Trim(n[i+1:], "`")
		}
		if tb := s.db.table("", n); tb != nil {
			return reply{cols: []string{"Table", "Create Table"}, rows: [][]interface{}{{tb.N, mysqlShowCreate(tb)}}}, true
		}
		for i := range s.db.Views {
			if s.db.Views[i].N == n {
				v := &s.db.Views[i]
				return reply{cols: []string{"View", "Create View", "character_set_client", "collation_connection"}, rows: [][]interface{}{{v.N,
					"CREATE ALGORITHM=UNDEFINED DEFINER=`root`@`%` SQL SECURITY DEFINER VIEW `" + v.N + "` AS " + mysqlViewDef(v), "utf8", "utf8_general_ci"}}}, true
			}
		}
		return reply{err: "Table '" + n + "' doesn't exist"}, true
	}
	if m := reShowTables.FindStringSubmatch(t); m != nil {
		full := m[1] != ""
		rest := strings.ToLower(m[2])
		wantT, wantV := true, true
		if strings.Contains(rest, "view") {
			neg := strings.Contains(rest, "!=") || strings.Contains(rest, "<>") || strings.Contains(rest, "not ")
			wantV = !neg
			wantT = neg
		} else if strings.Contains(rest, "base table") {
			neg := strings.Contains(rest, "!=") || strings.Contains(rest, "<>") || strings.Contains(rest, "not ")
			wantT = !neg
			wantV = neg
		}
		var rows [][]interface{}
		if wantT {
			for _, x := range s.db.Tables {
				rows = append(rows, strRow(x.N, "BASE TABLE"))
			}
		}
		if wantV {
			for _, x := range s.db.Views {
				rows = append(rows, strRow(x.N, "VIEW"))
			}
		}
		sortRows(rows)
		rows = s.permute(rows)
		cols := []string{"Tables_in_" + s.dbname, "Table_type"}
		if !full {
			for i := range rows {
				rows[i] = rows[i][:1]
			}
			cols = cols[:1]
		}
		return reply{cols: cols, rows: rows}, true
	}
	low := strings.ToLower(t)
	if strings.HasPrefix(low, "show triggers") {
		var rows [][]interface{}
		for _, g := range s.db.Trigs {
			rows = append(rows, strRow(g.N, strings.ToUpper(g.Event), g.T.N, g.Text, strings.ToUpper(g.Time), "2021-01-01 00:00:00.00", "ONLY_FULL_GROUP_BY", "root@%", "utf8mb4", "utf8mb4_general_ci", "latin1_swedish_ci"))
		}
		sortRows(rows)
		rows = s.permute(rows)
		return reply{cols: []string{"Trigger", "Event", "Table", "Statement", "Timing", "Created", "sql_mode", "Definer", "character_set_client", "collation_connection", "Database Collation"}, rows: rows}, true
	}
	if strings.HasPrefix(low, "select") && strings.Contains(low, "information_schema") {
		return catMySQL(s, t, args)
	}
	switch low {
	case "select database()":
		return reply{cols: []string{"database()"}, rows: [][]interface{}{{s.dbname}}}, true
	case "select version()":
		return reply{cols: []string{"version()"}, rows: [][]interface{}{{"5.7.33"}}}, true
	}
	return reply{}, false
}

func (s *session) permute(rows [][]interface{}) [][]interface{} {
	out := make([][]interface{}, len(rows))
	for i, j := range s.order(len(rows)) {
		out[i] = rows[j]
	}
	return out
}

func sortRows(rows [][]interface{}) {
	sort.SliceStable(rows, func(i, j int) bool { return fmt.Sprint(rows[i][0]) < fmt.Sprint(rows[j][0]) })
}

func myStr(s string) string { return "'" + strings.ReplaceAll(s, "'", "''") + "'" }

// comments and string literals inside SHOW CREATE TABLE
func myLit(s string) string {
	s = strings.ReplaceAll(s, "\\", "\\\\")
	s = strings.ReplaceAll(s, "\n", "\\n")
	return "'" + strings.ReplaceAll(s, "'", "''") + "'"
}

func myID(s string) string { return "`" + strings.ReplaceAll(s, "`", "``") + "`" }

var myDefaultCollation = map[string]string{"latin1": "latin1_swedish_ci", "utf8": "utf8_general_ci", "utf8mb4": "utf8mb4_general_ci", "binary": "binary", "ascii": "ascii_general_ci"}

func charsetOf(collate string) string {
	if i := strings.Index(collate, "_"); i > 0 {
		return collate[:i]
	}
	return collate
}

func myType(c *SCol) string {
	base := c.Base
	suffix := ""
	for _, w := range []string{" unsigned", " zerofill"} {
		if strings.Contains(base, w) {
			suffix += w
			base = strings.Replace(base, w, "", 1)
		}
	}
	s := base
	if len(c.Args) > 0 {
		var a []string
		for _, x := range c.Args {
			a = append(a, x)
		}
		s += "(" + strings.Join(a, ",") + ")"
	}
	return s + suffix
}

func myDefault(c *SCol) string {
	switch c.Def.K {
	case "num":
		return " DEFAULT '" + fixed(c, c.Def.V) + "'"
	case "str":
		return " DEFAULT " + myLit(c.Def.V)
	case "bit":
		return " DEFAULT b'" + c.Def.V + "'"
	case "expr":
		v := c.Def.V
		if strings.HasPrefix(v, "current_timestamp") {
			v = strings.ToUpper(v)
		}
		return " DEFAULT " + v
	}
	return ""
}

func myIsString(b string) bool {
	return strings.Contains(b, "char") || strings.Contains(b, "text") || b == "enum" || b == "set"
}

// fixed writes a number with the scale of its column.
func fixed(c *SCol, v string) string {
	if !strings.HasPrefix(c.Base, "decimal") || len(c.Args) < 2 {
		return v
	}
	var n int
	fmt.Sscan(c.Args[1], &n)
	if n == 0 {
		return v
	}
	i := strings.Index(v, ".")
	if i < 0 {
		v += "."
		i = len(v) - 1
	}
	for len(v)-i-1 < n {
		v += "0"
	}
	return v
}

func mysqlShowCreate(t *STable) string {
	var ls []string
	tcs := t.Charset
	if tcs == "" && t.Collate != "" {
		tcs = charsetOf(t.Collate)
	}
	if tcs == "" {
		tcs = "latin1"
	}
	tcoll := t.Collate
	if tcoll == "" {
		tcoll = myDefaultCollation[tcs]
	}
	for i := range t.Cols {
		c := &t.Cols[i]
		l := "  " + myID(c.N) + " " + myType(c)
		cs, coll := c.Charset, c.Collate
		switch {
		case cs == "" && coll != "":
			cs = charsetOf(coll)
		case cs != "" && coll == "":
			coll = myDefaultCollation[cs]
		case cs == "":
			cs, coll = tcs, tcoll
		}
		if cs != tcs || coll != tcoll {
			l += " CHARACTER SET " + cs
		}
		if coll != myDefaultCollation[cs] && myIsString(c.Base) {
			l += " COLLATE " + coll
		}
		if c.Gen != "" {
			g := c.Gen
			kind := "VIRTUAL"
			if strings.HasSuffix(g, " stored") {
				g = strings.TrimSuffix(g, " stored")
				kind = "STORED"
			}
			l += " GENERATED ALWAYS AS (" + (&deparser{d: MySQL}).expr(parseCanonExpr(g)) + ") " + kind
		}
		noDef := c.Def.K == "none"
		blob := strings.Contains(c.Base, "text") || strings.Contains(c.Base, "blob") || c.Base == "json" || c.Base == "geometry" || c.Base == "point"
		if !c.Null {
			l += " NOT NULL"
		} else if c.Base == "timestamp" {
			l += " NULL"
		}
		if noDef {
			if c.Null && !c.Auto && !blob && c.Gen == "" {
				l += " DEFAULT NULL"
			} else if c.Null && c.Base == "json" && c.Gen == "" {
				l += " DEFAULT NULL"
			}
		} else {
			l += myDefault(c)
		}
		if c.OnUpd != "" {
			l += " ON UPDATE " + strings.ToUpper(c.OnUpd)
		}
		if c.Auto {
			l += " AUTO_INCREMENT"
		}
		if c.Comment != "" {
			l += " COMMENT " + myLit(c.Comment)
		}
		ls = append(ls, l)
	}
	// MySQL lists the primary key first, then unique keys over NOT NULL columns, then the rest
	rank := func(k *SKey) int {
		switch k.Kind {
		case "primary":
			return 0
		case "unique":
			for _, kc := range k.Cols {
				if c := t.col(kc.C); c != nil && c.Null {
					return 2
				}
			}
			return 1
		case "fulltext":
			return 4
		}
		return 3
	}
	ks := []*SKey{}
	for i := range t.Keys {
		ks = append(ks, &t.Keys[i])
	}
	sort.SliceStable(ks, func(i, j int) bool { return rank(ks[i]) < rank(ks[j]) })
	for _, k := range ks {
		var cs []string
		for _, kc := range k.Cols {
			x := myID(kc.C)
			if kc.Len != "" {
				x += "(" + kc.Len + ")"
			}
			cs = append(cs, x)
		}
		l := "  "
		switch k.Kind {
		case "primary":
			l += "PRIMARY KEY "
		case "unique":
			l += "UNIQUE KEY " + myID(k.Name) + " "
		case "fulltext":
			l += "FULLTEXT KEY " + myID(k.Name) + " "
		case "spatial":
			l += "SPATIAL KEY " + myID(k.Name) + " "
		default:
			l += "KEY " + myID(k.Name) + " "
		}
		l += "(" + strings.Join(cs, ",") + ")"
		for _, o := range k.Opts {
			switch o.K {
			case "using":
				l += " USING " + strings.ToUpper(o.V)
			case "comment":
				l += " COMMENT " + myLit(o.V)
			case "key_block_size":
				l += " KEY_BLOCK_SIZE=" + o.V
			case "parser":
				l += " /*!50100 WITH PARSER " + myID(o.V) + " */ "
			}
		}
		ls = append(ls, l)
	}
	fks := append([]SFk{}, t.Fks...)
	sort.SliceStable(fks, func(i, j int) bool { return fks[i].Name < fks[j].Name })
	for _, f := range fks {
		q := func(a []string) string {
			var o []string
			for _, x := range a {
				o = append(o, myID(x))
			}
			return strings.Join(o, ", ")
		}
		l := fmt.Sprintf("  CONSTRAINT %s FOREIGN KEY (%s) REFERENCES %s (%s)", myID(f.Name), q(f.Cols), myID(f.Ref.N), q(f.Rcols))
		if f.Del != "" && f.Del != "restrict" {
			l += " ON DELETE " + strings.ToUpper(f.Del)
		}
		if f.Upd != "" && f.Upd != "restrict" {
			l += " ON UPDATE " + strings.ToUpper(f.Upd)
		}
		ls = append(ls, l)
	}
	for _, c := range t.Checks {
		ls = append(ls, fmt.Sprintf("  CONSTRAINT %s CHECK (%s)", myID(c.Name), (&deparser{d: MySQL}).expr(parseCanonExpr(c.Expr))))
	}
	s := "CREATE TABLE " + myID(t.N) + " (\n" + strings.Join(ls, ",\n") + "\n) ENGINE=InnoDB DEFAULT CHARSET=" + tcs
	if t.Collate != "" && t.Collate != myDefaultCollation[tcs] {
		s += " COLLATE=" + t.Collate
	}
	return s
}

func mysqlViewDef(v *SView) string {
	return (&deparser{d: MySQL}).sel(parseCanonSelect(v.Def))
}
