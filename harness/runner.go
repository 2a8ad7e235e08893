package main

import (
	"bytes"
	"context"
	"crypto/sha256"
	"database/sql"
	"encoding/hex"
	"fmt"
	"net"
	"os"
	"os/exec"
	"path/filepath"
	"runtime"
	"sort"
	"strings"
	"sync"
	"sync/atomic"
	"syscall"
	"time"
)

var binName = map[string]string{MySQL: "mysqldef", PG: "psqldef", MSSQL: "mssqldef", SQLite: "sqlite3def"}

func repoDir() string {
	if v := os.Getenv("REPO_DIR"); v != "" {
		return v
	}
	return "/repo"
}

// buildBinaries compiles the four commands from the repository's working tree.
func buildBinaries(dir string) {
	for _, d := range dialects {
		cmd := exec.Command("go", "build", "-o", filepath.Join(dir, binName[d]), "./cmd/"+binName[d])
		cmd.Dir = repoDir()
		cmd.Env = append(os.Environ(), "GOFLAGS=-mod=mod", "GOFLAGS=-mod=readonly")
		if out, err := cmd.CombinedOutput(); err != nil {
			die("build of %s failed: %v\n%s", binName[d], err, out)
		}
	}
}

// One invocation of a binary.
type Run struct {
	ID     string
	D      string
	Kind   string // what the run is for (see Check.tla)
	St     M      // raw state of the target database
	DBFile string // SQLite: the database file to copy
	Sql    string // desired file text
	Mode   string // apply dry export
	Skip   bool
	Stdin  bool
	NoFile bool // give a path that does not exist
	Perm   int
	Fault  *Fault
	Noise  *DB
	DName  string // id of the desired-state task
	Ref    *Run
	Raw    []string // complete command line instead (C15)
	Env    []string
	Hold   string // SQLite: "read" or "write" lock held by another connection; "ro" read-only file; "corrupt"; "nodir"
	Want   bool   // wants intermediate states
	Tag    string // where the scenario comes from
	From   string // the file the current schema comes from
	Moves  []move

	// results
	Ev       []Event
	Out      string
	Err      string
	Exit     int
	Mach     string
	Logins   []loginInfo
	Reads    []string
	NRead    int
	NExec    int
	NewDB    string // SQLite: resulting database file
	RealDB   []SqliteObj
	V        []Viol
	X        []Viol   // violations that are not judged (see Domain.tla)
	Excl     []string // why not
	Post     M
	Steps    []M
	Plan     []Item
	File     [][]M // the parsed desired file
	Valid    bool
	Why      string
	Complete bool
}

type Viol struct {
	P    string `json:"p"`
	What string `json:"what"`
}

type world struct {
	bin    string
	tmp    string
	tl     *tlcRunner
	n      int64
	runs   int
	batch  int
	events int
}

func newWorld() *world {
	tmp, err := os.MkdirTemp("", "vrun")
	if err != nil {
		die("%v", err)
	}
	w := &world{tmp: tmp, bin: filepath.Join(tmp, "bin"), tl: newTLC()}
	os.Mkdir(w.bin, 0o755)
	buildBinaries(w.bin)
	return w
}

func (w *world) close() {
	w.tl.close()
	os.RemoveAll(w.tmp)
}

func (w *world) path(ext string) string {
	return filepath.Join(w.tmp, fmt.Sprintf("f%d%s", atomic.AddInt64(&w.n, 1), ext))
}

func (w *world) runAll(rs []*Run) {
	ch := make(chan *Run)
	var wg sync.WaitGroup
	n := runtime.NumCPU()
	for i := 0; i < n; i++ {
		wg.Add(1)
		go func() {
			defer wg.Done()
			for r := range ch {
				w.one(r)
			}
		}()
	}
	for _, r := range rs {
		ch <- r
	}
	close(ch)
	wg.Wait()
	w.runs += len(rs)
	for _, r := range rs {
		if r.Mach != "" {
			die("run %s (%s %s): %s\nstdout: %.600s\nstderr: %.600s\nfile:\n%.1500s", r.ID, r.D, r.Kind, r.Mach, r.Out, r.Err, r.Sql)
		}
	}
}

const runTimeout = 60 * time.Second

func (w *world) one(r *Run) {
	s := newSession(r.D, newDB())
	if r.St != nil {
		s.db = toDB(r.St)
	}
	s.fault = r.Fault
	s.perm = r.Perm
	s.noise = r.Noise
	args := []string{}
	env := []string{"PATH=/usr/bin:/bin", "HOME=" + w.tmp, "LANG=C"}
	var ln net.Listener
	var err error
	dbfile := ""
	if r.D == SQLite {
		dbfile = w.path(".db")
		if r.DBFile != "" {
			b, err := os.ReadFile(r.DBFile)
			if err != nil {
				r.Mach = err.Error()
				return
			}
			os.WriteFile(dbfile, b, 0o644)
		}
	} else {
		ln, err = net.Listen("tcp", "127.0.0.1:0")
		if err != nil {
			r.Mach = err.Error()
			return
		}
		defer ln.Close()
		go acceptLoop(ln, s)
	}
	port := ""
	if ln != nil {
		_, port, _ = net.SplitHostPort(ln.Addr().String())
	}
	switch r.D {
	case MySQL:
		args = append(args, "-u", "tester", "-p", "secret", "-h", "127.0.0.1", "-P", port)
	case PG:
		args = append(args, "-U", "tester", "-W", "secret", "-h", "127.0.0.1", "-p", port)
		env = append(env, "PGSSLMODE=disable")
	case MSSQL:
		args = append(args, "-U", "tester", "-P", "secret", "-h", "127.0.0.1", "-p", port)
	}
	if r.Mode == "dry" {
		args = append(args, "--dry-run")
	}
	if r.Mode == "export" {
		args = append(args, "--export")
	}
	if r.Skip {
		args = append(args, "--skip-drop")
	}
	var stdin *os.File
	if r.Mode != "export" {
		f := w.path(".sql")
		if r.NoFile {
			args = append(args, "--file", f)
		} else {
			os.WriteFile(f, []byte(r.Sql), 0o644)
			defer os.Remove(f)
			if r.Stdin {
				stdin, _ = os.Open(f)
				defer stdin.Close()
			} else {
				args = append(args, "--file", f)
			}
		}
	}
	if r.D == SQLite {
		args = append(args, dbfile)
	} else {
		args = append(args, "app")
	}
	before := fileHash(dbfile) // before taking locks: closing the file drops them
	release := func() {}
	if r.Hold != "" {
		release = sqliteHold(r.Hold, dbfile)
	}
	w.spawn(r, s, args, append(env, r.Env...), stdin, r.Hold == "ro")
	release()
	defer r.finish()
	if r.D == SQLite {
		sqliteEvents(r, s)
		r.NewDB = dbfile
		if r.Hold == "" || r.Hold == "read" || r.Hold == "write" || r.Hold == "ro" {
			objs, err := sqliteObjects(dbfile)
			if err != nil && fileExists(dbfile) {
				r.Mach = "cannot read the resulting SQLite file: " + err.Error()
				return
			}
			r.RealDB = objs
		}
		if r.Mode != "apply" && before != "" && before != fileHash(dbfile) {
			r.Ev = append([]Event{{K: "exec", Ok: true, Kind: "write", Txt: "(the database file changed)", Ops: []M{}}}, r.Ev...)
		}
	}
}

func sortViols(rs []*Run) {
	for _, r := range rs {
		sort.Slice(r.V, func(i, j int) bool {
			a, b := r.V[i], r.V[j]
			return a.P < b.P || a.P == b.P && a.What < b.What
		})
	}
}

func fileExists(f string) bool { _, err := os.Stat(f); return err == nil }

func fileHash(f string) string {
	if f == "" {
		return ""
	}
	b, err := os.ReadFile(f)
	if err != nil {
		return ""
	}
	h := sha256.Sum256(b)
	return hex.EncodeToString(h[:])
}

func acceptLoop(ln net.Listener, s *session) {
	for {
		c, err := ln.Accept()
		if err != nil {
			return
		}
		switch s.d {
		case MySQL:
			go serveMySQL(c, s)
		case PG:
			go servePG(c, s, nil)
		case MSSQL:
			go serveTDS(c, s)
		}
	}
}

// spawn runs the binary and fills in the run's observations.
func (w *world) spawn(r *Run, s *session, args, env []string, stdin *os.File, unpriv bool) {
	var p [2]int
	if err := syscall.Pipe2(p[:], syscall.O_CLOEXEC); err != nil {
		r.Mach = err.Error()
		return
	}
	syscall.SetNonblock(p[0], true)
	wf := os.NewFile(uintptr(p[1]), "stdout")
	eof := false
	var full bytes.Buffer
	s.drain = func() string { // called with s.mu held
		var out []byte
		buf := make([]byte, 65536)
		for {
			n, err := syscall.Read(p[0], buf)
			if n > 0 {
				out = append(out, buf[:n]...)
				continue
			}
			if err == syscall.EINTR {
				continue
			}
			if n == 0 && err == nil {
				eof = true
			}
			break
		}
		full.Write(out)
		return string(out)
	}
	ctx, cancel := context.WithTimeout(context.Background(), runTimeout)
	defer cancel()
	bin := filepath.Join(w.bin, binName[r.D])
	cmd := exec.CommandContext(ctx, bin, args...)
	cmd.Env = env
	cmd.Dir = w.tmp
	cmd.Stdout = wf
	var errb bytes.Buffer
	cmd.Stderr = &errb
	if stdin != nil {
		cmd.Stdin = stdin
	}
	if unpriv {
		cmd.SysProcAttr = &syscall.SysProcAttr{Credential: &syscall.Credential{Uid: 65534, Gid: 65534}}
	}
	if err := cmd.Start(); err != nil {
		wf.Close()
		syscall.Close(p[0])
		r.Mach = err.Error()
		return
	}
	wf.Close()
	done := make(chan error, 1)
	go func() { done <- cmd.Wait() }()
	tick := time.NewTicker(3 * time.Millisecond)
	var werr error
loop:
	for {
		select {
		case werr = <-done:
			break loop
		case <-tick.C:
			s.mu.Lock()
			s.pump()
			s.mu.Unlock()
		}
	}
	tick.Stop()
	if ctx.Err() != nil {
		errb.WriteString("\n(the binary did not finish in time)\n")
	}
	_ = werr
	// what the server still has to notice (closed connections)
	for i := 0; i < 50; i++ {
		s.mu.Lock()
		s.pump()
		e := eof
		s.mu.Unlock()
		if e {
			break
		}
		time.Sleep(time.Millisecond)
	}
	s.mu.Lock()
	defer s.mu.Unlock()
	s.drain = nil
	if s.cat != nil {
		s.cat.close()
		s.cat = nil
	}
	syscall.Close(p[0])
	r.Exit = cmd.ProcessState.ExitCode()
	r.Out = full.String()
	r.Err = errb.String()
	r.Ev = append([]Event{}, s.ev...)
	r.Logins = s.logins
	r.Reads = s.reads
	r.NRead = s.nread
	r.NExec = s.nexec
	if s.machErr != "" && r.Mach == "" {
		r.Mach = s.machErr
	}
}

// ---------------------------------------------------------------------------
// SQLite: the real engine.

type SqliteObj struct {
	Type, Name, Tbl, Sql string
}

func sqliteOpen(f string) (*sql.DB, error) {
	db, err := sql.Open("sqlite3", "file:"+f+"?mode=rw")
	if err == nil {
		db.SetMaxOpenConns(1)
	}
	return db, err
}

func sqliteObjects(f string) ([]SqliteObj, error) {
	db, err := sqliteOpen(f)
	if err != nil {
		return nil, err
	}
	defer db.Close()
	rows, err := db.Query("select type, name, tbl_name, coalesce(sql, '') from sqlite_master where substr(name, 1, 7) <> 'sqlite_' order by rowid")
	if err != nil {
		return nil, err
	}
	defer rows.Close()
	out := []SqliteObj{}
	for rows.Next() {
		var o SqliteObj
		if err := rows.Scan(&o.Type, &o.Name, &o.Tbl, &o.Sql); err != nil {
			return nil, err
		}
		out = append(out, o)
	}
	return out, rows.Err()
}

// sqliteHold puts the database file in a state in which some operation fails.
func sqliteHold(how, f string) func() {
	switch how {
	case "ro":
		os.Chmod(f, 0o444)
		return func() { os.Chmod(f, 0o644) }
	case "corrupt":
		b, _ := os.ReadFile(f)
		if len(b) < 200 {
			b = make([]byte, 4096)
		}
		for i := range b {
			if i < 100 || i%3 == 0 {
				b[i] ^= 0x5a
			}
		}
		os.WriteFile(f, b, 0o644)
		return func() {}
	case "nodir":
		os.Remove(f)
		os.Mkdir(f, 0o755)
		return func() {}
	}
	db, err := sqliteOpen(f)
	if err != nil {
		die("sqlite: %v", err)
	}
	cn, err := db.Conn(context.Background())
	if err != nil {
		die("sqlite: %v", err)
	}
	q := []string{"BEGIN EXCLUSIVE"}
	if how == "read" {
		q = []string{"BEGIN", "SELECT * FROM sqlite_master"}
	}
	var rows *sql.Rows
	for _, x := range q {
		if strings.HasPrefix(x, "SELECT") {
			rows, err = cn.QueryContext(context.Background(), x)
			if err == nil {
				rows.Next()
			}
		} else {
			_, err = cn.ExecContext(context.Background(), x)
		}
		if err != nil {
			die("sqlite hold: %v", err)
		}
	}
	return func() {
		if rows != nil {
			rows.Close()
		}
		cn.ExecContext(context.Background(), "ROLLBACK")
		cn.Close()
		db.Close()
	}
}
