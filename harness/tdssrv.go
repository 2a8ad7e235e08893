package main

import (
	"bytes"
	"encoding/binary"
	"fmt"
	"io"
	"net"
	"unicode/utf16"
)

// The SQL Server side: TDS 7.4 (prelogin, login, SQL batches, transaction
// manager requests).

type tdsConn struct {
	c  net.Conn
	s  *session
	tx bool
	b  bytes.Buffer
}

func ucs2(s string) []byte {
	u := utf16.Encode([]rune(s))
	b := make([]byte, 2*len(u))
	for i, x := range u {
		binary.LittleEndian.PutUint16(b[2*i:], x)
	}
	return b
}

func fromUcs2(b []byte) string {
	u := make([]uint16, len(b)/2)
	for i := range u {
		u[i] = binary.LittleEndian.Uint16(b[2*i:])
	}
	return string(utf16.Decode(u))
}

func (t *tdsConn) readMsg() (byte, []byte, error) {
	var out []byte
	for {
		var h [8]byte
		if _, err := io.ReadFull(t.c, h[:]); err != nil {
			return 0, nil, err
		}
		n := int(binary.BigEndian.Uint16(h[2:]))
		if n < 8 {
			return 0, nil, io.ErrUnexpectedEOF
		}
		b := make([]byte, n-8)
		if _, err := io.ReadFull(t.c, b); err != nil {
			return 0, nil, err
		}
		out = append(out, b...)
		if h[1]&1 != 0 {
			return h[0], out, nil
		}
	}
}

// send writes the buffered tokens as one reply; eom=false leaves it unfinished
func (t *tdsConn) send(eom bool) bool {
	data := t.b.Bytes()
	id := byte(1)
	for {
		n := len(data)
		if n > 4000 {
			n = 4000
		}
		last := n == len(data)
		var st byte
		if last && eom {
			st = 1
		}
		h := []byte{4, st, byte((n + 8) >> 8), byte(n + 8), 0, 0, id, 0}
		id++
		if _, err := t.c.Write(append(h, data[:n]...)); err != nil {
			t.b.Reset()
			return false
		}
		data = data[n:]
		if last {
			break
		}
	}
	t.b.Reset()
	return true
}

func (t *tdsConn) le(v interface{}) { binary.Write(&t.b, binary.LittleEndian, v) }

func (t *tdsConn) done(status uint16, n uint64) {
	t.b.WriteByte(0xfd)
	t.le(status)
	t.le(uint16(0))
	t.le(n)
}

func (t *tdsConn) errorTok(num int, class byte, msg string) {
	var b bytes.Buffer
	binary.Write(&b, binary.LittleEndian, uint32(num))
	b.WriteByte(1)
	b.WriteByte(class)
	m := ucs2(msg)
	binary.Write(&b, binary.LittleEndian, uint16(len(m)/2))
	b.Write(m)
	srv := ucs2("srv")
	b.WriteByte(byte(len(srv) / 2))
	b.Write(srv)
	b.WriteByte(0)
	binary.Write(&b, binary.LittleEndian, uint32(1))
	t.b.WriteByte(0xaa)
	t.le(uint16(b.Len()))
	t.b.Write(b.Bytes())
}

func (t *tdsConn) envchange(b []byte) {
	t.b.WriteByte(0xe3)
	t.le(uint16(len(b)))
	t.b.Write(b)
}

func serveTDS(c net.Conn, s *session) {
	defer c.Close()
	t := &tdsConn{c: c, s: s}
	ty, b, err := t.readMsg()
	if err != nil || ty != 18 {
		return
	}
	// prelogin reply: version, encryption not supported
	t.b.Write([]byte{0, 0, 11, 0, 6, 1, 0, 17, 0, 1, 0xff})
	t.b.Write([]byte{15, 0, 0x10, 0, 0, 0, 2})
	if !t.send(true) {
		return
	}
	ty, b, err = t.readMsg()
	if err != nil || ty != 16 || len(b) < 94 {
		return
	}
	fld := func(off int) []byte {
		o := int(binary.LittleEndian.Uint16(b[off:]))
		n := int(binary.LittleEndian.Uint16(b[off+2:]))
		if o+2*n > len(b) {
			return nil
		}
		return b[o : o+2*n]
	}
	pw := append([]byte{}, fld(44)...)
	for i, x := range pw {
		x ^= 0xa5
		pw[i] = x<<4 | x>>4
	}
	li := loginInfo{User: fromUcs2(fld(40)), Pass: fromUcs2(pw), DB: fromUcs2(fld(68)), At: c.LocalAddr().String(), TLS: "no", Net: c.LocalAddr().Network(), Extra: map[string]string{"server": fromUcs2(fld(52))}}
	if m, drop := s.login(li); drop {
		return
	} else if m != "" {
		t.errorTok(18456, 14, m)
		t.done(2, 0)
		t.send(true)
		return
	}
	db := ucs2(li.DB)
	ev := append([]byte{1, byte(len(db) / 2)}, db...)
	t.envchange(append(ev, 0))
	prog := ucs2("Microsoft SQL Server")
	var la bytes.Buffer
	la.WriteByte(1)
	la.Write([]byte{0x74, 0, 0, 4})
	la.WriteByte(byte(len(prog) / 2))
	la.Write(prog)
	la.Write([]byte{15, 0, 0x10, 0})
	t.b.WriteByte(0xad)
	t.le(uint16(la.Len()))
	t.b.Write(la.Bytes())
	t.done(0, 0)
	if !t.send(true) {
		return
	}
	for {
		ty, b, err := t.readMsg()
		if err != nil {
			s.closed(t.tx)
			return
		}
		switch ty {
		case 1: // batch
			n := int(binary.LittleEndian.Uint32(b))
			q := fromUcs2(b[n:])
			r := s.stmt(q, nil, &t.tx, msQuery)
			if r.drop {
				return
			}
			if !t.reply(r) {
				return
			}
		case 14: // transaction manager
			n := int(binary.LittleEndian.Uint32(b))
			req := binary.LittleEndian.Uint16(b[n:])
			s.mu.Lock()
			var r reply
			if s.dead {
				s.mu.Unlock()
				return
			}
			switch req {
			case 5:
				r = s.begin(&t.tx)
			case 7:
				r = s.commit(&t.tx)
			case 8:
				r = s.rollback(&t.tx)
			default:
				s.mach("TDS transaction request %d not supported", req)
			}
			s.mu.Unlock()
			if r.drop {
				return
			}
			if r.err != "" {
				t.errorTok(3900, 16, r.err)
				t.done(2, 0)
			} else {
				switch req {
				case 5:
					t.envchange([]byte{8, 8, 1, 0, 0, 0, 0, 0, 0, 0, 0})
				case 7:
					t.envchange([]byte{9, 0, 8, 1, 0, 0, 0, 0, 0, 0, 0})
				case 8:
					t.envchange([]byte{10, 0, 8, 1, 0, 0, 0, 0, 0, 0, 0})
				}
				t.done(0, 0)
			}
			if !t.send(true) {
				s.closed(t.tx)
				return
			}
		case 6: // attention
			t.done(0x20, 0)
			t.send(true)
		default:
			s.mu.Lock()
			s.mach("TDS message type %d not supported", ty)
			s.mu.Unlock()
			return
		}
	}
}

func (t *tdsConn) reply(r reply) bool {
	if r.err != "" {
		t.errorTok(50000, 16, r.err)
		t.done(2, 0)
		return t.send(true)
	}
	if r.ok {
		t.done(0, 0)
		return t.send(true)
	}
	t.b.WriteByte(0x81)
	t.le(uint16(len(r.cols)))
	for _, c := range r.cols {
		t.le(uint32(0))
		t.le(uint16(1))
		t.b.WriteByte(0xe7)
		t.le(uint16(0xffff))
		t.b.Write([]byte{9, 4, 0xd0, 0, 0x34})
		n := ucs2(c)
		t.b.WriteByte(byte(len(n) / 2))
		t.b.Write(n)
	}
	for i, row := range r.rows {
		if r.stop >= 0 && i >= r.stop {
			break
		}
		t.b.WriteByte(0xd1)
		for _, v := range row {
			if v == nil {
				t.le(uint64(0xffffffffffffffff))
				continue
			}
			x := ucs2(fmt.Sprint(v))
			t.le(uint64(len(x)))
			if len(x) > 0 {
				t.le(uint32(len(x)))
				t.b.Write(x)
			}
			t.le(uint32(0))
		}
	}
	if r.stop >= 0 {
		if r.stopE {
			t.errorTok(1222, 16, "query interrupted (injected)")
			t.done(2, 0)
			return t.send(true)
		}
		t.send(false)
		return false
	}
	t.done(0x10, uint64(len(r.rows)))
	return t.send(true)
}
