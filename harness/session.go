package main

import (
	"fmt"
	"math/rand"
	"strings"
	"sync"
)

// A session is everything one run of a binary does to its database server,
// recorded as an ordered list of events.

type Fault struct {
	At      string `json:"at"`   // login read begin exec commit rollback
	N       int    `json:"n"`    // which one (0-based) for read and exec
	Kind    string `json:"kind"` // error drop dropafter trunc truncerr
	Persist bool   `json:"persist"`
	Next    *Fault `json:"next,omitempty"` // another one
}

type Item struct {
	W    string `json:"w"` // apply dry stmt skip nothing none note
	Txt  string `json:"txt"`
	Kind string `json:"kind"`
	Ops  []M    `json:"ops"`
}

type Event struct {
	K     string `json:"k"`
	Ok    bool   `json:"ok"`
	Inj   bool   `json:"inj"`
	Eff   bool   `json:"eff"` // commit: it took effect
	Tx    bool   `json:"tx"`
	N     int    `json:"n"`
	Txt   string `json:"txt"`
	Kind  string `json:"kind"`
	Ops   []M    `json:"ops"`
	Items []Item `json:"items"`
	chunk string
}

type reply struct {
	cols  []string
	rows  [][]interface{} // nil = NULL; everything else is sent as text
	err   string
	sqlst string
	drop  bool // close the connection instead of replying
	stop  int  // >=0: send only that many rows, then close (or error when stopErr)
	stopE bool
	ok    bool // command completed, no rows
	tag   string
}

type loginInfo struct {
	User, Pass, DB string
	At             string
	Net            string
	TLS            string
	Extra          map[string]string
}

type session struct {
	d      string
	db     DB
	noise  *DB // objects of other databases / schemas
	dbname string
	perm   int // order of catalog rows: 0 natural, 1 reversed, >1 shuffled with that seed
	fault  *Fault
	rng    *rand.Rand

	mu      sync.Mutex
	ev      []Event
	drain   func() string
	dead    bool
	nread   int
	nexec   int
	nlogin  int
	fired   map[*Fault]bool
	reads   []string
	machErr string
	cat     *catdb // catalog tables, built at the first catalog query
	logins  []loginInfo
	logFn   func(string)
	pw      string   // expected password (for challenge-response logins)
	pws     []string // others that are recognized
	user    string
}

func newSession(d string, db DB) *session {
	return &session{d: d, db: db, dbname: "app", pw: "secret"}
}

func (s *session) pump() {
	if s.drain == nil {
		return
	}
	if t := s.drain(); t != "" {
		s.ev = append(s.ev, Event{K: "print", Ok: true, chunk: t})
	}
}

func (s *session) add(e Event) {
	s.pump()
	if e.K == "read" && e.Ok && len(s.ev) > 0 {
		l := &s.ev[len(s.ev)-1]
		if l.K == "read" && l.Ok {
			l.N++
			return
		}
	}
	if e.K == "read" {
		e.N = 1
	}
	s.ev = append(s.ev, e)
}

func (s *session) mach(f string, a ...interface{}) {
	if s.machErr == "" {
		s.machErr = fmt.Sprintf(f, a...)
	}
}

// hit decides whether the scripted fault applies to this point.
func (s *session) hit(at string, n int) *Fault {
	for f := s.fault; f != nil; f = f.Next {
		if f.At != at || (at == "read" || at == "exec") && f.N != n {
			continue
		}
		if s.fired[f] && !f.Persist {
			continue
		}
		if s.fired == nil {
			s.fired = map[*Fault]bool{}
		}
		s.fired[f] = true
		return f
	}
	return nil
}

func (s *session) lost(f *Fault) {
	if f.Persist {
		s.dead = true
	}
}

// login returns "" or an error message; drop closes the connection.
func (s *session) login(li loginInfo) (errmsg string, drop bool) {
	s.mu.Lock()
	defer s.mu.Unlock()
	s.logins = append(s.logins, li)
	if s.dead {
		s.add(Event{K: "login", Ok: false, Inj: true})
		return "", true
	}
	if f := s.hit("login", s.nlogin); f != nil {
		s.add(Event{K: "login", Ok: false, Inj: true})
		s.lost(f)
		if f.Kind == "error" {
			return "access denied (injected)", false
		}
		return "", true
	}
	s.nlogin++
	s.add(Event{K: "login", Ok: true})
	return "", false
}

// stmt handles one statement text arriving on a connection; inTx points at the
// connection's transaction flag.
func (s *session) stmt(text string, args []string, inTx *bool, query func(s *session, text string, args []string) (reply, bool)) reply {
	s.mu.Lock()
	defer s.mu.Unlock()
	if s.dead {
		return reply{drop: true}
	}
	kind, ops, _ := parseStmt(s.d, text)
	low := strings.ToLower(strings.TrimSpace(text))
	if kind == "tx" {
		switch ops[0]["op"] {
		case "begin", "start":
			return s.begin(inTx)
		case "commit":
			return s.commit(inTx)
		default:
			return s.rollback(inTx)
		}
	}
	if kind == "write" && strings.HasPrefix(low, "set ") {
		return reply{ok: true, stop: -1, tag: "SET"}
	}
	isQuery := kind == "query"
	if kind == "bad" { // catalog queries need not be parseable as DDL
		for _, w := range []string{"select", "show", "with", "explain", "desc", ";", "--"} {
			if strings.HasPrefix(low, w) {
				isQuery = true
			}
		}
		if low == "" {
			isQuery = true
		}
	}
	if isQuery {
		if low == "" || low == ";" {
			return reply{ok: true, stop: -1}
		}
		n := s.nread
		s.nread++
		s.reads = append(s.reads, text)
		f := s.hit("read", n)
		if f != nil && f.Kind == "drop" {
			s.add(Event{K: "read", Ok: false, Inj: true, Txt: text})
			s.lost(f)
			*inTx = false
			return reply{drop: true}
		}
		if f != nil && f.Kind == "error" {
			s.add(Event{K: "read", Ok: false, Inj: true, Txt: text})
			return reply{err: "query failed (injected)", sqlst: "57014", stop: -1}
		}
		r, known := query(s, text, args)
		if !known {
			s.mach("query not understood: %s", text)
			return reply{err: "query not understood by the emulated catalog", stop: -1}
		}
		if f != nil { // trunc, truncerr
			s.add(Event{K: "read", Ok: false, Inj: true, Txt: text})
			if f.Kind == "trunc" {
				s.lost(f)
				*inTx = false
			}
			r.stop = len(r.rows) / 2
			if f.Kind == "trunc" && r.stop == 0 {
				s.dead = true // nothing arrived: drivers may repeat the query on another connection
			}
			r.stopE = f.Kind == "truncerr"
			return r
		}
		s.add(Event{K: "read", Ok: r.err == "", Txt: text})
		r.stop = -1
		return r
	}
	// a statement that writes
	n := s.nexec
	s.nexec++
	e := Event{K: "exec", Ok: true, Tx: *inTx, Txt: text, Kind: kind, Ops: ops}
	if f := s.hit("exec", n); f != nil {
		e.Inj = true
		e.Ok = false
		switch f.Kind {
		case "error":
			s.add(e)
			return reply{err: "statement rejected (injected)", sqlst: "XX000", stop: -1}
		case "drop":
			s.add(e)
			s.lost(f)
			s.add(Event{K: "lost", Ok: true})
			*inTx = false
			return reply{drop: true}
		case "dropafter": // executed, the acknowledgement is lost
			e.Ok = true
			s.add(e)
			s.lost(f)
			s.add(Event{K: "lost", Ok: true})
			*inTx = false
			return reply{drop: true}
		}
	}
	if kind == "bad" {
		e.Ok = false
		s.add(e)
		return reply{err: "syntax error", sqlst: "42601", stop: -1}
	}
	s.add(e)
	return reply{ok: true, stop: -1, tag: strings.ToUpper(strings.Join(strings.Fields(text)[:1], " "))}
}

func (s *session) begin(inTx *bool) reply {
	if f := s.hit("begin", 0); f != nil {
		s.add(Event{K: "begin", Ok: false, Inj: true})
		if f.Kind == "error" {
			return reply{err: "cannot start a transaction (injected)", sqlst: "25000", stop: -1}
		}
		s.lost(f)
		return reply{drop: true}
	}
	*inTx = true
	s.add(Event{K: "begin", Ok: true})
	return reply{ok: true, stop: -1, tag: "BEGIN"}
}

func (s *session) commit(inTx *bool) reply {
	if f := s.hit("commit", 0); f != nil {
		*inTx = false
		switch f.Kind {
		case "error":
			s.add(Event{K: "commit", Ok: false, Inj: true})
			return reply{err: "commit failed (injected)", sqlst: "40001", stop: -1}
		case "dropafter":
			s.add(Event{K: "commit", Ok: false, Inj: true, Eff: true})
		default:
			s.add(Event{K: "commit", Ok: false, Inj: true})
		}
		s.lost(f)
		return reply{drop: true}
	}
	*inTx = false
	s.add(Event{K: "commit", Ok: true, Eff: true})
	return reply{ok: true, stop: -1, tag: "COMMIT"}
}

func (s *session) rollback(inTx *bool) reply {
	*inTx = false
	if f := s.hit("rollback", 0); f != nil {
		s.add(Event{K: "rollback", Ok: false, Inj: true})
		if f.Kind == "error" {
			return reply{err: "rollback failed (injected)", sqlst: "XX000", stop: -1}
		}
		s.lost(f)
		return reply{drop: true}
	}
	s.add(Event{K: "rollback", Ok: true})
	return reply{ok: true, stop: -1, tag: "ROLLBACK"}
}

// connection closed by the peer (an open transaction is rolled back)
func (s *session) closed(inTx bool) {
	s.mu.Lock()
	defer s.mu.Unlock()
	if inTx {
		s.add(Event{K: "lost", Ok: true})
	}
}

// order applies the session's row order to n rows that carry no defined order.
func (s *session) order(n int) []int {
	ix := make([]int, n)
	for i := range ix {
		ix[i] = i
	}
	switch {
	case s.perm == 1:
		for i := range ix {
			ix[i] = n - 1 - i
		}
	case s.perm > 1:
		if s.rng == nil {
			s.rng = rand.New(rand.NewSource(int64(s.perm)))
		}
		s.rng.Shuffle(n, func(i, j int) { ix[i], ix[j] = ix[j], ix[i] })
	}
	return ix
}
