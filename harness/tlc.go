package main

import (
	"bufio"
	"bytes"
	"encoding/json"
	"fmt"
	"os"
	"os/exec"
	"path/filepath"
	"regexp"
	"strconv"
	"strings"
	"sync"
	"sync/atomic"
	"time"
)

// Running TLC on the modules in /verif/spec: tasks go in as one JSON record
// per line, results come back as printed JSON records.

type tlcRunner struct {
	dir       string
	states    int
	generated int
	runs      int
	wall      time.Duration
	seq       int64
	mu        sync.Mutex
	keep      bool
	extra     []string
}

func newTLC() *tlcRunner {
	dir, err := os.MkdirTemp("", "vtlc")
	if err != nil {
		die("%v", err)
	}
	m, _ := filepath.Glob(filepath.Join(verifDir(), "spec", "*"))
	for _, f := range m {
		b, err := os.ReadFile(f)
		if err != nil {
			continue
		}
		os.WriteFile(filepath.Join(dir, filepath.Base(f)), b, 0o644)
	}
	return &tlcRunner{dir: dir, keep: os.Getenv("VKEEP") != ""}
}

func (t *tlcRunner) close() {
	if !t.keep {
		os.RemoveAll(t.dir)
	} else {
		fmt.Fprintln(os.Stderr, "kept", t.dir)
	}
}

func (t *tlcRunner) stats() string {
	return fmt.Sprintf("%d TLC runs, %d states, %.1fs", t.runs, t.states, t.wall.Seconds())
}

var reStates = regexp.MustCompile(`(\d+) states generated, (\d+) distinct states found`)

const tlcClasspath = "/opt/veriftools/tla/tla2tools.jar:/opt/veriftools/tla/CommunityModules-deps.jar"

// raw runs TLC on module M with configuration cfg and the given environment
// and returns its complete output.
func (t *tlcRunner) raw(module, cfg string, env []string, timeout time.Duration, args ...string) (string, error) {
	meta := filepath.Join(t.dir, fmt.Sprintf("meta%d", atomic.AddInt64(&t.seq, 1)))
	a := []string{"-XX:+UseSerialGC", "-Xss64m", "-Xmx3g", "-XX:TieredStopAtLevel=1", "-Djava.io.tmpdir=" + t.dir, "-cp", tlcClasspath, "tlc2.TLC", "-metadir", meta, "-config", cfg, "-nowarning"}
	a = append(a, args...)
	a = append(a, module+".tla")
	cmd := exec.Command("java", a...)
	cmd.Dir = t.dir
	cmd.Env = append(os.Environ(), env...)
	var out bytes.Buffer
	cmd.Stdout = &out
	cmd.Stderr = &out
	start := time.Now()
	if err := cmd.Start(); err != nil {
		return "", err
	}
	timer := time.AfterFunc(timeout, func() { cmd.Process.Kill() })
	err := cmd.Wait()
	timer.Stop()
	t.mu.Lock()
	defer t.mu.Unlock()
	t.wall += time.Since(start)
	t.runs++
	os.RemoveAll(meta)
	s := out.String()
	if m := reStates.FindStringSubmatch(s); m != nil {
		g, _ := strconv.Atoi(m[1])
		n, _ := strconv.Atoi(m[2])
		t.states += n
		t.generated += g
	}
	return s, err
}

func (t *tlcRunner) writeND(name string, tasks []interface{}) string {
	p := filepath.Join(t.dir, name)
	f, err := os.Create(p)
	if err != nil {
		die("%v", err)
	}
	w := bufio.NewWriter(f)
	enc := json.NewEncoder(w)
	enc.SetEscapeHTML(false)
	for _, x := range tasks {
		if err := enc.Encode(x); err != nil {
			die("encode: %v", err)
		}
	}
	w.Flush()
	f.Close()
	return p
}

// parsePrinted extracts the records printed with PrintT("@@" \o ToJson(..)).
func parsePrinted(out string) []M {
	var res []M
	for _, l := range strings.Split(out, "\n") {
		if !strings.HasPrefix(l, "\"@@") {
			continue
		}
		var s string
		if err := json.Unmarshal([]byte(l), &s); err != nil {
			s = unescapeTLA(l)
		}
		var m M
		dec := json.NewDecoder(strings.NewReader(s[2:]))
		if err := dec.Decode(&m); err != nil {
			die("cannot decode TLC output: %v: %.300s", err, l)
		}
		res = append(res, m)
	}
	return res
}

func unescapeTLA(l string) string {
	l = strings.TrimSpace(l)
	l = l[1 : len(l)-1]
	var b strings.Builder
	for i := 0; i < len(l); i++ {
		if l[i] == '\\' && i+1 < len(l) {
			i++
			switch l[i] {
			case 'n':
				b.WriteByte('\n')
			case 't':
				b.WriteByte('\t')
			case 'r':
				b.WriteByte('\r')
			case 'f':
				b.WriteByte('\f')
			default:
				b.WriteByte(l[i])
			}
			continue
		}
		b.WriteByte(l[i])
	}
	return b.String()
}

// run evaluates module M on the tasks (file $IN) and returns its results by id.
// Every task must yield a result: anything else is an error of the machinery.
func (t *tlcRunner) run(module string, tasks []interface{}) map[string]M {
	res := map[string]M{}
	if len(tasks) == 0 {
		return res
	}
	// TLC's workers contend for its string table, so several single-worker
	// processes are much faster than one with several workers.
	k := (len(tasks) + 39) / 40
	if k > 8 {
		k = 8
	}
	var wg sync.WaitGroup
	var mu sync.Mutex
	for i := 0; i < k; i++ {
		var part []interface{}
		for j := i; j < len(tasks); j += k {
			part = append(part, tasks[j])
		}
		wg.Add(1)
		go func() {
			defer wg.Done()
			in := t.writeND(fmt.Sprintf("in%d.ndjson", atomic.AddInt64(&t.seq, 1)), part)
			out, err := t.raw(module, module+".cfg", []string{"IN=" + in}, 800*time.Second, "-workers", "1", "-deadlock")
			n := 0
			mu.Lock()
			defer mu.Unlock()
			for _, m := range parsePrinted(out) {
				id, _ := m["id"].(string)
				r, ok := m["r"].(map[string]interface{})
				if !ok {
					die("TLC result without r")
				}
				res[id] = r
				n++
			}
			if err != nil || n != len(part) {
				os.WriteFile(filepath.Join(os.TempDir(), "tlc-failed.out"), []byte(out), 0o644)
				t.keep = true
				die("TLC %s: %v; %d of %d results; see /tmp/tlc-failed.out\n%s", module, err, n, len(part), tail(out, 40))
			}
			if !t.keep {
				os.Remove(in)
			}
		}()
	}
	wg.Wait()
	if len(res) != len(tasks) {
		die("TLC %s: %d results for %d tasks", module, len(res), len(tasks))
	}
	return res
}

func tail(s string, n int) string {
	ls := strings.Split(s, "\n")
	if len(ls) > n {
		ls = ls[len(ls)-n:]
	}
	for i := range ls {
		if len(ls[i]) > 600 {
			ls[i] = ls[i][:600] + "..."
		}
	}
	return strings.Join(ls, "\n")
}

func emptyDB() M { return M{"tables": []M{}, "views": []M{}, "trigs": []M{}, "nid": 1} }

var dialects = []string{MySQL, PG, MSSQL, SQLite}
