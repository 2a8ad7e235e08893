package main

import (
	"crypto/ecdsa"
	"crypto/elliptic"
	crand "crypto/rand"
	"crypto/tls"
	"crypto/x509"
	"crypto/x509/pkix"
	"database/sql"
	"encoding/pem"
	"fmt"
	"math/big"
	"math/rand"
	"net"
	"os"
	"path/filepath"
	"sort"
	"strconv"
	"strings"
	"sync"
	"syscall"
	"time"
	"unsafe"
)

// C15: where the commands connect to, and as whom.  Invocations come from
// Config.tla with symbols for values; this puts text in their place, runs the
// command among servers listening in all the places it might contact, and
// translates what the servers saw back.

type cfgArg struct{ O, V string }
type cfgEnv struct{ N, V string }
type cfgInv struct {
	D     string
	Args  []cfgArg
	Dbs   []string
	Env   []cfgEnv
	Extra string
	Srv   struct {
		Tls  bool
		Cert string
	}
}

func toInv(x interface{}) cfgInv {
	m := x.(map[string]interface{})
	str := func(v interface{}) string { s, _ := v.(string); return s }
	list := func(v interface{}) []interface{} { l, _ := v.([]interface{}); return l }
	c := cfgInv{D: str(m["d"]), Extra: str(m["extra"])}
	for _, a := range list(m["args"]) {
		a := a.(map[string]interface{})
		c.Args = append(c.Args, cfgArg{str(a["o"]), str(a["v"])})
	}
	for _, a := range list(m["dbs"]) {
		c.Dbs = append(c.Dbs, str(a))
	}
	for _, a := range list(m["env"]) {
		a := a.(map[string]interface{})
		c.Env = append(c.Env, cfgEnv{str(a["n"]), str(a["v"])})
	}
	srv := m["srv"].(map[string]interface{})
	c.Srv.Tls, c.Srv.Cert = srv["tls"] == true, str(srv["cert"])
	return c
}

var cfgHosts = map[string]string{"h1": "127.0.0.1", "h2": "127.0.0.2", "h6": "::1", "hname": "localhost"}

// places listens everywhere.
type places struct {
	mu     sync.Mutex
	s      *session
	tlsc   *tls.Config
	at     []string
	sym    map[string]string // address -> symbol
	val    map[string]string // symbol -> text, of hosts, ports, sockets and directories
	lns    []net.Listener
	absent map[string]bool // symbols that are not available here
	certs  map[string]*tls.Config
	ca     map[string]string
}

func newPlaces(d, tmp string) *places {
	pl := &places{sym: map[string]string{}, val: map[string]string{}, absent: map[string]bool{}, certs: map[string]*tls.Config{}, ca: map[string]string{}}
	for k, v := range cfgHosts {
		pl.val[k] = v
	}
	if as, err := net.LookupHost("localhost"); err != nil || len(as) == 0 || as[0] != "127.0.0.1" {
		pl.absent["hname"] = true
	}
	pl.val["port0"] = map[string]string{MySQL: "3306", PG: "5432", MSSQL: "1433"}[d]
	listen := func(network, addr string) net.Listener {
		for i := 0; ; i++ {
			ln, err := net.Listen(network, addr)
			if err == nil {
				return ln
			}
			if i == 100 {
				return nil
			}
			if strings.Contains(addr, "::1") {
				return nil
			}
			time.Sleep(100 * time.Millisecond)
		}
	}
	add := func(ln net.Listener, sym string) {
		pl.lns = append(pl.lns, ln)
		pl.sym[ln.Addr().String()] = sym
		go func() {
			for {
				c, err := ln.Accept()
				if err != nil {
					return
				}
				pl.mu.Lock()
				s, tlsc := pl.s, pl.tlsc
				pl.at = append(pl.at, sym)
				pl.mu.Unlock()
				if s == nil {
					c.Close()
					continue
				}
				switch d {
				case MySQL:
					go serveMySQL(c, s)
				case PG:
					go servePG(c, s, tlsc)
				case MSSQL:
					go serveTDS(c, s)
				}
			}
		}()
	}
	if ln := listen("tcp", "[::1]:0"); ln == nil {
		pl.absent["h6"] = true
	} else {
		ln.Close()
	}
	for _, port := range []string{"port0", "port1", "port2"} {
		for _, h := range []string{"h1", "h2", "h6"} {
			if pl.absent[h] {
				continue
			}
			p := pl.val[port]
			if p == "" {
				p = "0"
			}
			ln := listen("tcp", net.JoinHostPort(cfgHosts[h], p))
			if ln == nil && h == "h1" && port == "port0" {
				pl.absent["port0"] = true // something else uses it
				break
			}
			if ln == nil {
				die("cannot listen on %s", net.JoinHostPort(cfgHosts[h], p))
			}
			if p == "0" {
				_, pl.val[port], _ = net.SplitHostPort(ln.Addr().String())
			}
			add(ln, h+":"+port)
		}
	}
	if d == MySQL {
		for i, n := range []string{"my sock?a=1", "my@tcp(x)/b.sock"} {
			f := filepath.Join(tmp, n)
			os.MkdirAll(filepath.Dir(f), 0o755)
			pl.val[fmt.Sprintf("sock%d", i+1)] = f
			ln := listen("unix", f)
			if ln == nil {
				die("cannot listen on %s", f)
			}
			add(ln, fmt.Sprintf("sock%d", i+1))
		}
	}
	if d == PG {
		for i, n := range []string{"so'ck&a=b", "di r"} {
			dir := filepath.Join(tmp, n)
			os.MkdirAll(dir, 0o755)
			pl.val[fmt.Sprintf("dir%d", i+1)] = dir
			for _, port := range []string{"port0", "port1", "port2"} {
				ln := listen("unix", filepath.Join(dir, ".s.PGSQL."+pl.val[port]))
				if ln == nil {
					die("cannot listen in %s", dir)
				}
				add(ln, fmt.Sprintf("dir%d:%s", i+1, port))
			}
		}
		pl.makeCerts(tmp)
	}
	return pl
}

func (pl *places) close() {
	for _, l := range pl.lns {
		l.Close()
	}
}

func (pl *places) makeCerts(tmp string) {
	var ser int64
	mk := func(t, parent *x509.Certificate, pk *ecdsa.PrivateKey) (*x509.Certificate, *ecdsa.PrivateKey, []byte) {
		k, err := ecdsa.GenerateKey(elliptic.P256(), crand.Reader)
		if err != nil {
			die("%v", err)
		}
		ser++
		t.SerialNumber = big.NewInt(ser)
		t.NotBefore, t.NotAfter = time.Now().Add(-48*time.Hour), time.Now().Add(48*time.Hour)
		t.BasicConstraintsValid = true
		if parent == nil {
			parent, pk = t, k
		}
		der, err := x509.CreateCertificate(crand.Reader, t, parent, &k.PublicKey, pk)
		if err != nil {
			die("%v", err)
		}
		c, _ := x509.ParseCertificate(der)
		return c, k, der
	}
	var cas []*x509.Certificate
	var keys []*ecdsa.PrivateKey
	for i, n := range []string{"ca 1.crt", "ca'2&.crt"} {
		c, k, der := mk(&x509.Certificate{Subject: pkix.Name{CommonName: n}, IsCA: true, KeyUsage: x509.KeyUsageCertSign}, nil, nil)
		f := filepath.Join(tmp, n)
		os.WriteFile(f, pem.EncodeToMemory(&pem.Block{Type: "CERTIFICATE", Bytes: der}), 0o644)
		pl.val[fmt.Sprintf("ca%d", i+1)] = f
		cas, keys = append(cas, c), append(keys, k)
	}
	names := map[string][]string{"any": {"h1", "h2", "h6", "hname"}, "elsewhere": nil, "h2": {"h2"}}
	for n, hs := range names {
		t := &x509.Certificate{Subject: pkix.Name{CommonName: "server"}, KeyUsage: x509.KeyUsageDigitalSignature, ExtKeyUsage: []x509.ExtKeyUsage{x509.ExtKeyUsageServerAuth}, DNSNames: []string{"elsewhere.example"}}
		for _, h := range hs {
			if ip := net.ParseIP(cfgHosts[h]); ip != nil {
				t.IPAddresses = append(t.IPAddresses, ip)
			} else {
				t.DNSNames = append(t.DNSNames, cfgHosts[h])
			}
		}
		_, k, der := mk(t, cas[0], keys[0])
		pl.certs[n] = &tls.Config{Certificates: []tls.Certificate{{Certificate: [][]byte{der}, PrivateKey: k}}}
	}
}

// text makes a value that has to survive unchanged.
func cfgText(d, kind string, rng *rand.Rand) string {
	cs := []string{":", "@", "/", "?", "#", "&", "=", "%", "+", " ", ";", "'", "\"", "$", "(", ")", "{", "}", "[", "]", "<", ">", ",", ".", "~", "^", "|", "!", "*", "`", "é", "日", "%41", "%2F", "\\", "-", "_", "host=x", "://", "tcp("}
	if d == MSSQL && kind == "user" {
		cs = cs[:len(cs)-6] // a backslash would be a Windows login
	}
	var b strings.Builder
	for n := 1 + rng.Intn(4); n > 0; n-- {
		if rng.Intn(4) > 0 {
			b.WriteString([]string{"a", "b", "Z", "9", "pw", "name"}[rng.Intn(6)])
		}
		b.WriteString(cs[rng.Intn(len(cs))])
	}
	if rng.Intn(3) > 0 {
		b.WriteString([]string{"c", "0", "end"}[rng.Intn(3)])
	}
	if rng.Intn(8) == 0 {
		q := []string{"\"", "'", "`"}[rng.Intn(3)]
		return q + b.String() + q
	}
	return b.String()
}

var cfgShort = map[string]map[string]string{
	MySQL: {"user": "u", "password": "p", "host": "h", "port": "P", "socket": "S"},
	PG:    {"user": "U", "password": "W", "host": "h", "port": "p", "file": "f"},
	MSSQL: {"user": "U", "password": "P", "host": "h", "port": "p"},
}

// option writes an option in one of its forms.
func cfgOption(d, o, v string, rng *rand.Rand) []string {
	forms := []int{0}
	if !strings.HasPrefix(v, "-") {
		forms = append(forms, 1)
	}
	sh := cfgShort[d][o]
	if sh != "" && !strings.HasPrefix(v, "-") {
		forms = append(forms, 2)
	}
	if sh != "" && v != "" && !strings.HasPrefix(v, "=") {
		forms = append(forms, 3)
	}
	switch forms[rng.Intn(len(forms))] {
	case 1:
		return []string{"--" + o, v}
	case 2:
		return []string{"-" + sh, v}
	case 3:
		return []string{"-" + sh + v}
	}
	return []string{"--" + o + "=" + v}
}

func openPty() (*os.File, *os.File, error) {
	m, err := os.OpenFile("/dev/ptmx", os.O_RDWR|syscall.O_NOCTTY, 0)
	if err != nil {
		return nil, nil, err
	}
	var n, z int32
	if _, _, e := syscall.Syscall(syscall.SYS_IOCTL, m.Fd(), syscall.TIOCSPTLCK, uintptr(unsafe.Pointer(&z))); e != 0 {
		m.Close()
		return nil, nil, e
	}
	if _, _, e := syscall.Syscall(syscall.SYS_IOCTL, m.Fd(), syscall.TIOCGPTN, uintptr(unsafe.Pointer(&n))); e != 0 {
		m.Close()
		return nil, nil, e
	}
	t, err := os.OpenFile("/dev/pts/"+strconv.Itoa(int(n)), os.O_RDWR|syscall.O_NOCTTY, 0)
	if err != nil {
		m.Close()
		return nil, nil, err
	}
	return m, t, nil
}

type cfgRun struct {
	r   *Run
	inv cfgInv
	raw interface{}
	obs M
	fix map[string]string // symbols with a given text
}

// knownConfig runs sqlite3def with a given file name (a known finding).
func knownConfig(w *world, file string) *Run {
	inv := M{"d": SQLite, "args": []interface{}{}, "dbs": []interface{}{"db1"}, "env": []interface{}{}, "extra": "", "srv": map[string]interface{}{"tls": false, "cert": "any"}}
	c := &cfgRun{inv: toInv(map[string]interface{}(inv)), raw: inv, fix: map[string]string{"db1": file}}
	w.config(nil, c, "known/"+file, rand.New(rand.NewSource(1)))
	out := w.tl.run("Config", []interface{}{M{"id": c.r.ID, "gen": false, "inv": inv, "obs": c.obs}})
	c.judge(out[c.r.ID])
	return c.r
}

func (c *cfgRun) judge(o M) {
	if c.r.Mach != "" {
		die("run %s: %s", c.r.ID, c.r.Mach)
	}
	l, _ := o["viol"].([]interface{})
	for _, v := range l {
		v := v.(map[string]interface{})
		c.r.V = append(c.r.V, Viol{v["p"].(string), v["what"].(string)})
	}
}

func checkConfig(p *pipe) {
	res := p.w.tl.run("Config", []interface{}{M{"id": "gen", "gen": true, "d": p.d}})
	all, _ := res["gen"]["inv"].([]interface{})
	total := len(all)
	if total == 0 {
		die("no invocations of %s", p.d)
	}
	pty := true
	if m, t, err := openPty(); err != nil {
		pty = false
	} else {
		m.Close()
		t.Close()
	}
	var pl *places
	if p.d != SQLite {
		pl = newPlaces(p.d, p.w.tmp)
		defer pl.close()
	}
	var cs []*cfgRun
	for _, x := range all {
		cs = append(cs, &cfgRun{inv: toInv(x), raw: x})
	}
	usable := cs[:0]
	for _, c := range cs {
		ok := true
		port := false
		for _, a := range c.inv.Args {
			if a.O == "password-prompt" && !pty || pl != nil && pl.absent[a.V] {
				ok = false
			}
			port = port || a.O == "port"
		}
		if pl != nil && pl.absent["port0"] && !port {
			ok = false
		}
		if ok {
			usable = append(usable, c)
		}
	}
	cs = usable
	p.note("config_usable_"+p.d, len(cs))
	p.rng.Shuffle(len(cs), func(i, j int) { cs[i], cs[j] = cs[j], cs[i] })
	n := 900
	if !p.quick() {
		n = 20000
	}
	if p.d == SQLite {
		// few: with many different names
		for len(cs) < 120 {
			cs = append(cs, cs...)
		}
		n = 150
		if !p.quick() {
			n = 600
		}
	}
	if len(cs) > n {
		// keep all of the rarer sorts
		var a, b []*cfgRun
		for _, c := range cs {
			if c.inv.Extra != "" || c.inv.Srv.Tls {
				a = append(a, c)
			} else {
				b = append(b, c)
			}
		}
		k := len(a)
		if k > n/2 {
			k = n / 2
		}
		cs = append(a[:k:k], b...)[:n]
	}
	var tasks []interface{}
	for i, c := range cs {
		x := *c
		cs[i] = &x
		p.w.config(pl, &x, fmt.Sprintf("%s/cfg%d", p.d, i), p.rng)
		tasks = append(tasks, M{"id": x.r.ID, "gen": false, "inv": x.raw, "obs": x.obs})
	}
	out := p.w.tl.run("Config", tasks)
	for _, c := range cs {
		c.judge(out[c.r.ID])
		p.all = append(p.all, c.r)
	}
	p.note("invocations_enumerated", total)
}

// config runs one invocation.
func (w *world) config(pl *places, c *cfgRun, id string, rng *rand.Rand) {
	d := c.inv.D
	r := &Run{ID: id, D: d, Kind: "config", Mode: "apply", Valid: true}
	c.r = r
	s := newSession(d, newDB())
	// texts
	val := map[string]string{"": ""}
	back := map[string]string{"": ""}
	for k, v := range c.fix {
		val[k], back[v] = v, k
	}
	of := func(sym string) string {
		if v, ok := val[sym]; ok {
			return v
		}
		v := ""
		if pl != nil {
			v = pl.val[sym]
		}
		if v == "" {
			switch {
			case strings.HasPrefix(sym, "user"):
				v = cfgText(d, "user", rng)
			case strings.HasPrefix(sym, "pass"), sym == "typed":
				v = cfgText(d, "pass", rng)
			case strings.HasPrefix(sym, "db"):
				for v == "" || strings.HasPrefix(v, "-") || d == SQLite && strings.ContainsAny(v, "/?") || back[v] != "" {
					v = cfgText(d, "db", rng)
				}
				if rng.Intn(4) == 0 {
					v = sym
				}
			default:
				v = sym // an SSL mode
			}
			for i := 0; back[v] != ""; i++ {
				v += strconv.Itoa(i)
			}
			back[v] = sym
		}
		val[sym] = v
		return v
	}
	sym := func(v, kind string) string {
		if k, ok := back[v]; ok {
			return k
		}
		def := map[string]string{"user": map[string]string{MySQL: "root", PG: "postgres", MSSQL: "sa"}[d]}[kind]
		if v == def {
			return v
		}
		return fmt.Sprintf("%q", v)
	}
	dir := w.path(".cfg")
	os.Mkdir(dir, 0o777)
	defer os.RemoveAll(dir)
	var before, after []string
	args := []string{}
	dbs := c.inv.Dbs
	prompt := false
	for _, a := range c.inv.Args {
		if a.O == "password-prompt" {
			prompt = true
			args = append(args, "--password-prompt")
			continue
		}
		args = append(args, cfgOption(d, a.O, of(a.V), rng)...)
	}
	switch c.inv.Extra {
	case "help":
		args = append(args, "--help")
	case "version":
		args = append(args, "--version")
	case "unknown":
		args = append(args, "--nonsense")
	}
	f := w.path(".sql")
	r.Sql = "CREATE TABLE t (id int);\n"
	os.WriteFile(f, []byte(r.Sql), 0o644)
	defer os.Remove(f)
	var stdin *os.File
	if !prompt && rng.Intn(2) == 0 {
		stdin, _ = os.Open(f)
		defer stdin.Close()
	} else if d == SQLite || d == PG {
		args = append(args, [][]string{{"--file", f}, {"--file=" + f}, {"-f", f}}[rng.Intn(3)]...)
	} else {
		args = append(args, [][]string{{"--file", f}, {"--file=" + f}}[rng.Intn(2)]...)
	}
	if rng.Intn(4) == 0 {
		args = append(args, "--skip-drop")
	}
	for _, x := range dbs {
		t := of(x)
		if d == SQLite {
			t = filepath.Join(dir, t)
		}
		if rng.Intn(3) == 0 {
			before = append(before, t)
		} else {
			after = append(after, t)
		}
	}
	args = append(append(before, args...), after...)
	env := []string{"PATH=/usr/bin:/bin", "HOME=" + w.tmp, "LANG=C"}
	for _, e := range c.inv.Env {
		env = append(env, e.N+"="+of(e.V))
		r.Env = append(r.Env, e.N+"="+of(e.V))
	}
	r.Raw = args
	typed := ""
	if prompt {
		typed = of("typed")
		m, t, err := openPty()
		if err != nil {
			r.Mach = err.Error()
			return
		}
		defer m.Close()
		stdin = t
		defer t.Close()
		m.Write([]byte(typed + "\n"))
	}
	for k, v := range val {
		if strings.HasPrefix(k, "pass") || k == "typed" {
			s.pws = append(s.pws, v)
		}
		if k == "db1" {
			s.dbname = v
		}
	}
	if pl != nil {
		pl.mu.Lock()
		pl.s, pl.at, pl.tlsc = s, nil, nil
		if c.inv.Srv.Tls {
			pl.tlsc = pl.certs[c.inv.Srv.Cert]
		}
		pl.mu.Unlock()
	}
	r.Tag = strings.Join(append(append([]string{}, r.Env...), args...), " ")
	w.spawn(r, s, args, env, stdin, false)
	at, logins, made := []string{}, []M{}, []string{}
	if pl != nil {
		pl.mu.Lock()
		pl.s = nil
		at = append(at, pl.at...)
		pl.mu.Unlock()
		for _, l := range r.Logins {
			if l.TLS == "requested, refused" || l.TLS == "handshake failed" || l.Pass == "<none>" {
				continue
			}
			logins = append(logins, M{"at": pl.sym[l.At], "user": sym(l.User, "user"), "pass": sym(l.Pass, "pass"), "db": sym(l.DB, "db"), "tls": l.TLS})
		}
	} else {
		fs, _ := os.ReadDir(dir)
		for _, x := range fs {
			if hasTable(filepath.Join(dir, x.Name())) {
				made = append(made, sym(x.Name(), "db"))
			} else {
				made = append(made, "an empty "+x.Name())
			}
		}
		sort.Strings(made)
	}
	msg := strings.TrimSpace(r.Err)
	if i := strings.IndexByte(msg, '\n'); i >= 0 {
		msg = msg[:i]
	}
	if len(msg) > 200 {
		msg = msg[:200]
	}
	c.obs = M{"at": at, "logins": logins, "code": r.Exit, "said": strings.TrimSpace(r.Err+r.Out) != "", "msg": strings.ToValidUTF8(msg, "?"), "made": made}
	w.runs++
}

func hasTable(f string) bool {
	db, err := sql.Open("sqlite3", "file:"+strings.NewReplacer("%", "%25", "?", "%3f", "#", "%23").Replace(f)+"?mode=ro")
	if err != nil {
		return false
	}
	defer db.Close()
	n := 0
	return db.QueryRow("select count(*) from sqlite_master where name = 't'").Scan(&n) == nil && n == 1
}
