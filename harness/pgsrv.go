package main

import (
	"bytes"
	"crypto/tls"
	"encoding/binary"
	"fmt"
	"io"
	"net"
	"strings"
)

// The PostgreSQL wire protocol (v3), simple and extended queries.

type pgConn struct {
	c      net.Conn
	s      *session
	tx     bool
	failed bool
	buf    bytes.Buffer
	q      map[string]string
	bq     string
	bargs  []string
	skip   bool
}

func (p *pgConn) msg(t byte, b []byte) {
	p.buf.WriteByte(t)
	binary.Write(&p.buf, binary.BigEndian, uint32(len(b)+4))
	p.buf.Write(b)
}

func (p *pgConn) flush() bool {
	_, err := p.c.Write(p.buf.Bytes())
	p.buf.Reset()
	return err == nil
}

func (p *pgConn) ready() {
	st := byte('I')
	if p.tx {
		st = 'T'
		if p.failed {
			st = 'E'
		}
	}
	p.msg('Z', []byte{st})
}

func (p *pgConn) error(code, m string) {
	if code == "" {
		code = "XX000"
	}
	p.msg('E', []byte("SERROR\x00VERROR\x00C"+code+"\x00M"+m+"\x00\x00"))
}

func pgFatal(c net.Conn, code, m string) {
	p := &pgConn{c: c}
	p.msg('E', []byte("SFATAL\x00VFATAL\x00C"+code+"\x00M"+m+"\x00\x00"))
	p.flush()
}

func servePG(c net.Conn, s *session, tlsc *tls.Config) {
	defer func() { c.Close() }()
	li := loginInfo{At: c.LocalAddr().String(), Net: c.LocalAddr().Network(), TLS: "no", Extra: map[string]string{}}
	for {
		var h [8]byte
		if _, err := io.ReadFull(c, h[:]); err != nil {
			if li.TLS != "no" && tlsc == nil {
				s.mu.Lock()
				s.logins = append(s.logins, loginInfo{At: li.At, TLS: "requested, refused", Net: li.Net, Extra: li.Extra})
				s.mu.Unlock()
			}
			return
		}
		n := int(binary.BigEndian.Uint32(h[:4]))
		code := binary.BigEndian.Uint32(h[4:])
		if code == 80877103 { // SSLRequest
			li.TLS = "requested"
			if tlsc == nil {
				c.Write([]byte("N"))
				continue
			}
			c.Write([]byte("S"))
			tc := tls.Server(c, tlsc)
			if err := tc.Handshake(); err != nil {
				s.mu.Lock()
				s.logins = append(s.logins, loginInfo{At: li.At, TLS: "handshake failed", Net: li.Net, Extra: li.Extra})
				s.mu.Unlock()
				return
			}
			c = tc
			li.TLS = "yes"
			continue
		}
		if n < 8 || n > 1<<16 {
			return
		}
		b := make([]byte, n-8)
		if _, err := io.ReadFull(c, b); err != nil {
			return
		}
		ps := strings.Split(string(b), "\x00")
		for i := 0; i+1 < len(ps); i += 2 {
			switch ps[i] {
			case "user":
				li.User = ps[i+1]
			case "database":
				li.DB = ps[i+1]
			case "":
			default:
				li.Extra[ps[i]] = ps[i+1]
			}
		}
		break
	}
	p := &pgConn{c: c, s: s, q: map[string]string{}}
	p.msg('R', []byte{0, 0, 0, 3})
	if !p.flush() {
		return
	}
	t, b, err := p.read()
	if err != nil || t != 'p' {
		// no password configured
		li.Pass = "<none>"
		s.mu.Lock()
		s.logins = append(s.logins, li)
		s.mu.Unlock()
		return
	}
	li.Pass = strings.TrimSuffix(string(b), "\x00")
	if m, drop := s.login(li); drop {
		return
	} else if m != "" {
		pgFatal(c, "28P01", m)
		return
	}
	p.msg('R', []byte{0, 0, 0, 0})
	p.msg('S', []byte("server_version\x0012.5\x00"))
	p.msg('S', []byte("client_encoding\x00UTF8\x00"))
	p.msg('S', []byte("standard_conforming_strings\x00on\x00"))
	p.msg('K', []byte{0, 0, 0, 1, 0, 0, 0, 2})
	p.ready()
	if !p.flush() {
		return
	}
	for {
		t, b, err := p.read()
		if err != nil || t == 'X' {
			s.closed(p.tx)
			return
		}
		if p.skip && t != 'S' {
			continue
		}
		switch t {
		case 'Q':
			if !p.run(strings.TrimSuffix(string(b), "\x00"), nil, true) {
				return
			}
			p.ready()
			if !p.flush() {
				s.closed(p.tx)
				return
			}
		case 'P':
			z := bytes.IndexByte(b, 0)
			z2 := bytes.IndexByte(b[z+1:], 0)
			p.q[string(b[:z])] = string(b[z+1 : z+1+z2])
			p.msg('1', nil)
		case 'D':
			name := strings.TrimSuffix(string(b[1:]), "\x00")
			q := p.q[name]
			n := strings.Count(q, "$")
			mx := 0
			for i := 1; i <= n; i++ {
				if strings.Contains(q, fmt.Sprintf("$%d", i)) {
					mx = i
				}
			}
			if b[0] == 'S' {
				var pd bytes.Buffer
				binary.Write(&pd, binary.BigEndian, uint16(mx))
				for i := 0; i < mx; i++ {
					binary.Write(&pd, binary.BigEndian, uint32(25))
				}
				p.msg('t', pd.Bytes())
			} else {
				q = p.bq
			}
			low := strings.ToLower(strings.TrimSpace(q))
			if strings.HasPrefix(low, "select") || strings.HasPrefix(low, "with") {
				s.mu.Lock()
				perm := s.perm
				s.perm = 0
				r, ok := pgQuery(s, q, make([]string, mx))
				s.perm = perm
				s.mu.Unlock()
				if !ok {
					p.error("42601", "query not understood by the emulated catalog")
					p.skip = true
					continue
				}
				p.rowDesc(r)
			} else {
				p.msg('n', nil)
			}
		case 'B':
			z := bytes.IndexByte(b, 0)
			r := b[z+1:]
			z = bytes.IndexByte(r, 0)
			name := string(r[:z])
			r = r[z+1:]
			nf := int(binary.BigEndian.Uint16(r))
			r = r[2+2*nf:]
			np := int(binary.BigEndian.Uint16(r))
			r = r[2:]
			p.bargs = nil
			for i := 0; i < np; i++ {
				l := int(int32(binary.BigEndian.Uint32(r)))
				r = r[4:]
				if l >= 0 {
					p.bargs = append(p.bargs, string(r[:l]))
					r = r[l:]
				} else {
					p.bargs = append(p.bargs, "")
				}
			}
			p.bq = p.q[name]
			p.msg('2', nil)
		case 'E':
			if !p.run(p.bq, p.bargs, false) {
				return
			}
		case 'C':
			p.msg('3', nil)
		case 'H':
			p.flush()
		case 'S':
			p.skip = false
			p.ready()
			if !p.flush() {
				s.closed(p.tx)
				return
			}
		default:
			s.mu.Lock()
			s.mach("PostgreSQL message %q not supported", t)
			s.mu.Unlock()
			return
		}
	}
}

func (p *pgConn) read() (byte, []byte, error) {
	var h [5]byte
	if _, err := io.ReadFull(p.c, h[:]); err != nil {
		return 0, nil, err
	}
	n := int(binary.BigEndian.Uint32(h[1:])) - 4
	if n < 0 || n > 1<<24 {
		return 0, nil, io.ErrUnexpectedEOF
	}
	b := make([]byte, n)
	_, err := io.ReadFull(p.c, b)
	return h[0], b, err
}

func (p *pgConn) rowDesc(r reply) {
	var b bytes.Buffer
	binary.Write(&b, binary.BigEndian, uint16(len(r.cols)))
	for _, c := range r.cols {
		b.WriteString(c + "\x00")
		binary.Write(&b, binary.BigEndian, uint32(0))
		binary.Write(&b, binary.BigEndian, uint16(0))
		binary.Write(&b, binary.BigEndian, uint32(25))
		binary.Write(&b, binary.BigEndian, uint16(0xffff))
		binary.Write(&b, binary.BigEndian, uint32(0xffffffff))
		binary.Write(&b, binary.BigEndian, uint16(0))
	}
	p.msg('T', b.Bytes())
}

// run executes one statement; false = the connection is gone.
func (p *pgConn) run(q string, args []string, simple bool) bool {
	wasTx := p.tx
	r := p.s.stmt(q, args, &p.tx, pgQuery)
	if r.drop {
		return false
	}
	if r.err != "" {
		p.error(r.sqlst, r.err)
		if wasTx && p.tx {
			p.failed = true
		}
		if !simple {
			p.skip = true
		}
		return true
	}
	if !p.tx {
		p.failed = false
	}
	if r.ok {
		if strings.TrimSpace(q) == ";" || strings.TrimSpace(q) == "" {
			p.msg('I', nil)
			return true
		}
		tag := r.tag
		if tag == "" {
			tag = "OK"
		}
		p.msg('C', []byte(tag+"\x00"))
		return true
	}
	if simple {
		p.rowDesc(r)
	}
	for i, row := range r.rows {
		if r.stop >= 0 && i >= r.stop {
			break
		}
		var b bytes.Buffer
		binary.Write(&b, binary.BigEndian, uint16(len(row)))
		for _, v := range row {
			if v == nil {
				binary.Write(&b, binary.BigEndian, uint32(0xffffffff))
			} else {
				x := fmt.Sprint(v)
				binary.Write(&b, binary.BigEndian, uint32(len(x)))
				b.WriteString(x)
			}
		}
		p.msg('D', b.Bytes())
	}
	if r.stop >= 0 {
		if r.stopE {
			p.error("57014", "canceling statement (injected)")
			if wasTx {
				p.failed = true
			}
			if !simple {
				p.skip = true
			}
			return true
		}
		p.flush()
		return false
	}
	p.msg('C', []byte(fmt.Sprintf("SELECT %d\x00", len(r.rows))))
	return true
}
