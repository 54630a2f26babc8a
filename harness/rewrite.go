package main

import (
	"bytes"
	"encoding/hex"
	"fmt"
	"io"
	"io/fs"
	"math/rand"
	"os"
	"os/exec"
	"os/signal"
	"path/filepath"
	"regexp"
	"runtime"
	"runtime/debug"
	"sort"
	"strings"
	"syscall"
	"time"

	"github.com/ProtonMail/go-crypto/openpgp/packet"
	rpmutils "github.com/sassoftware/go-rpmutils"
)

// Signing to files: the library runs in processes of its own, as an unprivileged user, in
// scratch directories, where system calls fail or the process dies.

func init() {
	commands["sign1"] = sign1
	commands["rewrite"] = func(a []string) error { return asNobody("rewrite-worker", a) }
	commands["rewrite-worker"] = rewriteWorker
	if len(os.Args) > 1 && os.Args[1] == "sign1" {
		runtime.LockOSThread() // so that the system calls of one thread can be counted
	}
}

// asNobody runs a command of this program as nobody. The first argument is the trace.
func asNobody(cmd string, args []string) error {
	exe := must(os.Executable())
	base := must(os.MkdirTemp(filepath.Dir(args[0]), "x"))
	defer os.RemoveAll(base)
	c := exec.Command(exe, append([]string{cmd, base}, args[1:]...)...)
	c.Dir = "/"
	c.Stdout, c.Stderr = os.Stdout, os.Stderr
	if os.Getuid() == 0 {
		os.Chown(base, 65534, 65534)
		c.SysProcAttr = &syscall.SysProcAttr{Credential: &syscall.Credential{Uid: 65534, Gid: 65534, Groups: []uint32{}}}
	}
	if err := c.Run(); err != nil {
		return err
	}
	b, err := os.ReadFile(base + "/trace")
	if err != nil {
		return err
	}
	return os.WriteFile(args[0], b, 0644)
}

const (
	exitOK   = 0
	exitErr  = 10
	exitWeak = 11 // harness trouble
)

// sign1 API INPUT OUTPUT KEY PGP RSA LIMIT AFTER: signs once; only the exit status tells
func sign1(a []string) error {
	defer func() {
		if r := recover(); r != nil {
			fmt.Fprintln(os.Stderr, "panic:", r)
			os.Exit(2)
		}
	}()
	signal.Ignore(syscall.SIGXFSZ)
	key := must(packet.Read(bytes.NewReader(must(hex.DecodeString(a[3]))))).(*packet.PrivateKey)
	pgp, rsa := must(hex.DecodeString(a[4])), must(hex.DecodeString(a[5]))
	if n := atoi(a[6]); n >= 0 {
		must(0, syscall.Setrlimit(syscall.RLIMIT_FSIZE, &syscall.Rlimit{Cur: uint64(n), Max: uint64(n)}))
	}
	debug.SetGCPercent(-1) // what is forgotten stays open
	warmUp()
	f, err := os.Open(a[1])
	if err != nil {
		os.Exit(exitWeak)
	}
	before := openFiles()
	if a[7] == "removed" {
		os.Remove(a[1])
	}
	if a[0] == "sign" {
		_, err = rpmutils.SignRpmFile(f, a[2], key, &rpmutils.SignatureOptions{CreationTime: time.Unix(1600000000, 0)})
	} else {
		_, err = rpmutils.RewriteWithSignatures(f, a[2], pgp, rsa)
	}
	code := exitOK
	if err != nil {
		if a[7] == "say" {
			fmt.Fprintln(os.Stderr, err)
		}
		code = exitErr
	}
	if l := leaked(before); len(l) > 0 {
		fmt.Fprintln(os.Stderr, "open:", l)
		code += exitLeak
	}
	os.Exit(code)
	return nil
}

type rnode struct {
	Name string `json:"name"`
	Type string `json:"type"`
	Ino  int    `json:"ino"`
	To   string `json:"to"`
	Data string `json:"data"`
}

type rfault struct {
	Mode string `json:"mode"`
	Call string `json:"call"`
	On   string `json:"on"`
	N    int    `json:"n"`
}

type rwscenario struct {
	Path    string  `json:"path"`
	To      string  `json:"to"`
	Parents bool    `json:"parents"`
	Inode   int     `json:"inode"`
	Before  []rnode `json:"before"`
	After   []rnode `json:"after"`
	Res     string  `json:"res"`
	Piped   string  `json:"piped"`
	Fault   rfault  `json:"fault"`
	Inplace bool    `json:"inplace"`
	How     string  `json:"how"`
	What    string  `json:"what,omitempty"`
	Path2   string  `json:"path2"`
	Mid     []rnode `json:"mid"`
	Res2    string  `json:"res2"`
	Leak    bool    `json:"leak"` // other files are open than before
}

type rgen struct {
	Path  string  `json:"path"`
	Nodes []rnode `json:"nodes"`
}

// a package to sign, and what the result must be like
type subject struct {
	pkg      []byte
	api      string
	pgp, rsa []byte
	key      *packet.PrivateKey
	keyHex   string
	second   *subject // what another process makes of it
}

func newSubject(r *rand.Rand, size int, fit, api string) *subject {
	s := &subject{api: api, key: keyring()[[]int{0, 2}[r.Intn(2)]]}
	var b bytes.Buffer
	must(0, s.key.Serialize(&b))
	s.keyHex = fmt.Sprintf("%x", b.Bytes())
	p := &pkg{payload: make([]byte, size), gen: basicGen(), digests: []string{"payload", "payload sha256 md5", "md5", "sha1 md5"}[r.Intn(4)], sigReserve: -1, source: r.Intn(4) == 0}
	r.Read(p.payload)
	p.sig = []htag{u32Tag(sigSize, r.Uint32())}
	if r.Intn(3) == 0 { // signed before
		p.sig = append(p.sig, binTag(sigPGP, make([]byte, 70)), binTag(sigRSA, make([]byte, 70)))
	}
	n := 60 + r.Intn(100)
	s.pgp, s.rsa = make([]byte, n), make([]byte, n)
	r.Read(s.pgp)
	r.Read(s.rsa)
	switch fit {
	case "large":
		p.sigReserve = 600 + r.Intn(4000)
	case "small":
		p.sigReserve = r.Intn(60)
	case "exact":
		if api == "insert" {
			// a header of which the signed form has the size of the original
			p.sig = append([]htag{u32Tag(sigSize, 7)}, binTag(sigPGP, make([]byte, n)), binTag(sigRSA, make([]byte, n)))
		} else {
			p.sigReserve = 260 + r.Intn(200)
		}
	}
	s.pkg = p.build()
	return s
}

// other is the same package to be signed by somebody else
func (s *subject) other(r *rand.Rand) *subject {
	o := &subject{pkg: s.pkg, api: "insert", key: s.key, keyHex: s.keyHex, pgp: make([]byte, 80), rsa: make([]byte, 80)}
	r.Read(o.pgp)
	r.Read(o.rsa)
	return o
}

// twin is something else of the same size
func (s *subject) twin() []byte { return bytes.Repeat([]byte("T"), len(s.pkg)) }

// class tells what a file's contents are
func (s *subject) class(b []byte, others map[string]string) string {
	if bytes.Equal(b, s.pkg) {
		return "pkg"
	}
	if c, ok := others[string(b)]; ok {
		return c
	}
	if bytes.Equal(b, s.twin()) {
		return "twin"
	}
	lead, area, _, rest, ok := sigPart(b)
	if !ok {
		return fmt.Sprintf("bad:%d", len(b))
	}
	lead0, area0, _, rest0, _ := sigPart(s.pkg)
	if !bytes.Equal(lead, lead0) || !bytes.Equal(rest, rest0) {
		return fmt.Sprintf("bad:%d", len(b))
	}
	tags, tags0 := area.values(), area0.values()
	pgp, rsa := tags[sigPGP], tags[sigRSA]
	for _, m := range []map[int]string{tags, tags0} {
		for _, t := range []int{sigPGP, sigRSA, sigReserved, 62} {
			delete(m, t)
		}
	}
	if fmt.Sprint(tags) != fmt.Sprint(tags0) {
		return "bad tags"
	}
	if s.second != nil && s.second.class(b, nil) == "signed" {
		return "signed2"
	}
	if s.api == "insert" {
		if pgp != string(s.pgp) || rsa != string(s.rsa) {
			return "bad signatures"
		}
		return "signed"
	}
	gen := rest0[:genLen(rest0)]
	keys := map[string]person{"k": {key: s.key}}
	if a, b := lookSig([]byte(rsa), gen, keys), lookSig([]byte(pgp), rest0, keys); a.By != "k" || !a.OK || b.By != "k" || !b.OK {
		return "bad signatures"
	}
	return "signed"
}

// values has the bytes of each tag with constant-size elements or one string
func (a harea) values() map[int]string {
	out := map[int]string{}
	size := map[int32]int{tChar: 1, tInt8: 1, tInt16: 2, tInt32: 4, tInt64: 8, tBin: 1}
	d := bytesOf(a.Data)
	for _, e := range a.Ents {
		if e.Off < 0 || int(e.Off) > len(d) || e.Cnt < 0 {
			out[int(e.Tag)] = "outside"
			continue
		}
		k, ok := size[e.Type]
		end := int(e.Off) + k*int(e.Cnt)
		if !ok {
			end = int(e.Off)
			for n := int(e.Cnt); n > 0 && end < len(d); n-- {
				if z := bytes.IndexByte(d[end:], 0); z >= 0 {
					end += z + 1
				} else {
					end = len(d)
				}
			}
		}
		if e.Off < 0 || int(e.Off) > end || end > len(d) {
			out[int(e.Tag)] = "outside"
			continue
		}
		out[int(e.Tag)] = string(d[e.Off:end])
	}
	return out
}

func genLen(b []byte) int {
	w := func(o int) int {
		return int(uint32(b[o])<<24 | uint32(b[o+1])<<16 | uint32(b[o+2])<<8 | uint32(b[o+3]))
	}
	return 16 + 16*w(8) + w(12)
}

// the time of all files
var sameTime = time.Unix(1600000000, 0)

// place is one scratch directory in which a package is signed
type place struct {
	dir, path string
	inode     uint64
	inos      map[uint64]int
}

func (p *place) id(ino uint64) int {
	if _, ok := p.inos[ino]; !ok {
		p.inos[ino] = len(p.inos) + 1
	}
	return p.inos[ino]
}

var otherData = map[string]string{"old": "old", "other": "other", "": "empty", strings.Repeat("long ", 50000): "long"}

func (p *place) scan(s *subject) []rnode {
	out := []rnode{}
	filepath.WalkDir(p.dir, func(path string, d fs.DirEntry, err error) error {
		if path == p.dir {
			return nil
		}
		var st syscall.Stat_t
		if syscall.Lstat(path, &st) != nil {
			return nil
		}
		n := rnode{Name: p.rel(path), Ino: p.id(st.Ino)}
		switch st.Mode & syscall.S_IFMT {
		case syscall.S_IFDIR:
			n.Type = "dir"
		case syscall.S_IFLNK:
			n.Type = "link"
			to, _ := os.Readlink(path)
			if !filepath.IsAbs(to) {
				to = filepath.Join(filepath.Dir(path), to)
			}
			n.To = p.rel(p.real(to))
		case syscall.S_IFIFO:
			n.Type = "fifo"
		case syscall.S_IFREG:
			n.Type = "file"
			b, err := os.ReadFile(path)
			if err != nil {
				n.Data = "unreadable"
			} else {
				n.Data = s.class(b, otherData)
			}
		default:
			n.Type = "other"
		}
		out = append(out, n)
		return nil
	})
	return out
}

// real resolves the directory of a path
func (p *place) real(path string) string {
	if d, err := filepath.EvalSymlinks(filepath.Dir(path)); err == nil {
		return filepath.Join(d, filepath.Base(path))
	}
	return path
}

func (p *place) rel(path string) string {
	if x, err := filepath.Rel(p.dir, path); err == nil && !strings.HasPrefix(x, "..") {
		return safe(x)
	}
	return safe(path)
}

// case of signing: where, what and how
type rcase struct {
	nodes    []rnode // names as given; ino 1 is the input
	path     string  // name of the output
	spell    string
	input    string // name that the input is opened by
	to       string
	parents  bool
	removed  bool
	readers  string // "", "close": whoever reads the pipe goes away
	readonly bool
	sub      *subject
	// called when the process has stopped
	stopped func(p *place)
	inner   *rcase
}

func (c *rcase) setup(dir string) *place {
	p := &place{dir: dir, inos: map[uint64]int{}}
	must(0, os.Mkdir(dir, 0755))
	first := map[int]string{}
	nodes := append([]rnode(nil), c.nodes...)
	sort.SliceStable(nodes, func(a, b int) bool { return nodes[a].Type == "dir" && nodes[b].Type != "dir" })
	for _, n := range nodes {
		f := filepath.Join(dir, n.Name)
		switch n.Type {
		case "file":
			if o, ok := first[n.Ino]; ok {
				must(0, os.Link(o, f))
				continue
			}
			first[n.Ino] = f
			data := []byte(n.Data)
			if n.Data == "pkg" {
				data = c.sub.pkg
			}
			if n.Data == "twin" {
				data = c.sub.twin()
			}
			for b, name := range otherData {
				if name == n.Data {
					data = []byte(b)
				}
			}
			must(0, os.WriteFile(f, data, 0644))
			must(0, os.Chtimes(f, sameTime, sameTime))
		case "link":
			must(0, os.Symlink(n.To, f))
		case "fifo":
			must(0, syscall.Mkfifo(f, 0644))
		case "dir":
			must(0, os.Mkdir(f, 0755))
		}
	}
	return p
}

// spelled returns the output path to pass and the directory to be in
func (c *rcase) spelled(dir string) (string, string) {
	switch c.spell {
	case "rel":
		return c.path, dir
	case "dot":
		return "./" + c.path, dir
	case "up":
		return "../" + filepath.Base(dir) + "/" + c.path, dir
	case "double":
		return dir + "//./" + c.path, "/"
	}
	return dir + "/" + c.path, "/"
}

var theExe = func() string { e, _ := os.Executable(); return e }()

// run signs once. inject has options for strace, or is nil; log is where its output goes.
func (c *rcase) run(dir string, strace []string, limit int) (sc rwscenario, p *place) {
	p = c.setup(dir)
	out, cwd := c.spelled(dir)
	in := filepath.Join(dir, c.input)
	after := "-"
	if c.removed {
		after = "removed"
	}
	args := []string{theExe, "sign1", c.sub.api, in, out, c.sub.keyHex, fmt.Sprintf("%x", c.sub.pgp), fmt.Sprintf("%x", c.sub.rsa), fmt.Sprint(limit), after}
	if c.to == "stdout" || c.to == "file" || c.to == "full" && c.path == "-" {
		args[4] = "-"
	}
	if c.path == "/dev/full" {
		args[4] = c.path
	}
	if strace == nil {
		args[9] = map[bool]string{true: "removed", false: "say"}[c.removed]
	}
	args = append(append([]string{}, strace...), args...)
	var st syscall.Stat_t
	must(0, syscall.Stat(in, &st))
	sc = rwscenario{Mid: []rnode{}, Path: p.rel(p.real(filepath.Join(dir, c.path))), To: "path", Parents: c.parents, Inode: p.id(st.Ino)}
	if c.to != "" {
		sc.To = c.to
	}
	cmd := exec.Command(args[0], args[1:]...)
	cmd.Dir = cwd
	cmd.Env = []string{"GOMAXPROCS=1", "GODEBUG=asyncpreemptoff=1", "GOTRACEBACK=none", "PATH=" + os.Getenv("PATH"), "TMPDIR=" + dir + "/none"}
	var msg bytes.Buffer
	cmd.Stderr = &msg
	var piped bytes.Buffer
	got := make(chan bool)
	fifo := ""
	switch {
	case c.to == "stdout":
		sc.To = "pipe"
		cmd.Stdout = &piped
	case c.to == "file":
		sc.To = "pipe"
		f := must(os.CreateTemp(filepath.Dir(dir), "stdout"))
		defer os.Remove(f.Name())
		cmd.Stdout = f
		defer f.Close()
	case c.to == "full" && c.path == "-":
		cmd.Stdout = must(os.OpenFile("/dev/full", os.O_WRONLY, 0))
	default:
		if f, err := filepath.EvalSymlinks(filepath.Join(dir, c.path)); err == nil {
			if st, err := os.Lstat(f); err == nil && st.Mode()&os.ModeNamedPipe != 0 {
				fifo = f
			}
		}
	}
	ended := make(chan bool)
	if fifo != "" {
		open := func() int { return must(syscall.Open(fifo, syscall.O_RDONLY|syscall.O_NONBLOCK|syscall.O_CLOEXEC, 0)) }
		fd := -1
		if c.readers != "late" {
			fd = open()
		}
		go func() {
			defer close(got)
			if fd < 0 {
				time.Sleep(200 * time.Millisecond)
				fd = open()
			}
			defer syscall.Close(fd)
			buf := make([]byte, 1<<16)
			for last := false; ; {
				n, err := syscall.Read(fd, buf)
				if n > 0 && err == nil {
					piped.Write(buf[:n])
					if c.readers == "close" {
						return
					}
					continue
				}
				if last {
					return
				}
				select {
				case <-ended:
					last = true
				case <-time.After(time.Millisecond):
				}
			}
		}()
	}
	if c.readonly {
		os.Chmod(dir, 0555)
	}
	if c.removed {
		p.inos = map[uint64]int{}
		sc.Before = p.scan(c.sub)
		keep := sc.Before[:0]
		for _, n := range sc.Before {
			if n.Name != c.input {
				keep = append(keep, n)
			}
		}
		sc.Before = keep
	} else {
		sc.Before = p.scan(c.sub)
	}
	if err := cmd.Start(); err != nil {
		panic(err)
	}
	if c.stopped != nil {
		whenStopped(dir+"log", func() bool {
			st, err := os.ReadFile(fmt.Sprintf("/proc/%d/stat", cmd.Process.Pid))
			return err != nil || bytes.Contains(st, []byte(") Z "))
		}, func() { c.stopped(p) })
	}
	timer := time.AfterFunc(100*time.Second, func() { cmd.Process.Kill() })
	t0 := time.Now()
	err := cmd.Wait()
	timer.Stop()
	ws := cmd.ProcessState.Sys().(syscall.WaitStatus)
	code := ws.ExitStatus()
	if code >= exitLeak && code < 100 {
		sc.Leak = true
		code -= exitLeak
	}
	switch {
	case time.Since(t0) > 99*time.Second:
		fmt.Fprintln(os.Stderr, "hang:", c.path, c.to, c.nodes, c.readers)
		sc.Res = "hang"
		hung.Store(true)
	case ws.Signaled() && ws.Signal() == syscall.SIGKILL:
		sc.Res = "killed"
	case ws.Signaled():
		sc.Res = "signal " + ws.Signal().String()
	case code == exitOK:
		sc.Res = "ok"
	case code == exitErr:
		sc.Res = "err"
	case code == exitWeak:
		panic("harness: the input could not be opened")
	case ws.ExitStatus() == 128+9 || ws.ExitStatus() == 137:
		sc.Res = "killed"
	default:
		sc.Res = fmt.Sprint("exit ", code)
	}
	if err != nil {
		sc.What = msg.String()
		if len(sc.What) > 300 {
			sc.What = sc.What[:300]
		}
	}
	if fifo != "" {
		close(ended)
		<-got
	}
	if c.to == "file" {
		f := cmd.Stdout.(*os.File)
		f.Seek(0, 0)
		io.Copy(&piped, f)
	}
	if piped.Len() > 0 || c.to == "stdout" {
		sc.Piped = c.sub.class(piped.Bytes(), nil)
	}
	if c.readonly {
		os.Chmod(dir, 0755)
	}
	sc.After = p.scan(c.sub)
	sc.How = fmt.Sprintf("%s %s by %s to %s %s %s", c.sub.api, c.input, c.input, c.path, c.spell, c.to)
	sc.Fault = rfault{Mode: "none"}
	return sc, p
}

// changedInPlace tells whether the file that was the input is now the signed package
func changedInPlace(sc rwscenario) bool {
	for _, n := range sc.After {
		if n.Ino == sc.Inode && n.Type == "file" && n.Data != "pkg" {
			return true
		}
	}
	return false
}

const watched = "openat,open,creat,read,pread64,readv,write,pwrite64,writev,copy_file_range,sendfile,splice,close,rename,renameat,renameat2,lseek,fstat,newfstatat,lstat,stat,statx,fchmod,fchmodat,chmod,unlink,unlinkat,link,linkat,ftruncate,truncate,fsync,fdatasync,fallocate,readlink,readlinkat,mkdir,mkdirat,dup,dup3,fchown"

var straceLine = regexp.MustCompile(`^(\d+) +([a-z0-9_]+)\((.*)$`)
var fdPath = regexp.MustCompile(`^-?\d+<([^>]*)>`)

type scall struct {
	name, on string
	n        int // which call of this name
}

// calls reads which calls the main thread made after the input was opened
func calls(log, dir, in string) []scall {
	b := must(os.ReadFile(log))
	main := ""
	count := map[string]int{}
	var out []scall
	started := false
	for _, l := range strings.Split(string(b), "\n") {
		m := straceLine.FindStringSubmatch(l)
		if m == nil {
			continue
		}
		if main == "" {
			main = m[1]
		}
		if m[1] != main {
			continue
		}
		count[m[2]]++
		c := scall{name: m[2], n: count[m[2]]}
		if !started {
			started = m[2] == "openat" && strings.Contains(m[3], `"`+in+`"`)
			continue
		}
		if f := fdPath.FindStringSubmatch(m[3]); f != nil {
			switch {
			case f[1] == in:
				c.on = "in"
			case strings.HasPrefix(f[1], dir+"/"), strings.Contains(f[1], dir+"/"):
				c.on = "out"
			case strings.HasPrefix(f[1], "pipe:"):
				c.on = "pipe"
			}
		}
		out = append(out, c)
	}
	return out
}

var errnoFor = map[string][]string{
	"write": {"ENOSPC", "EIO", "EDQUOT"}, "pwrite64": {"ENOSPC"}, "rename": {"EACCES", "EIO", "EXDEV"}, "renameat": {"EACCES", "EIO", "EXDEV"}, "renameat2": {"EACCES"},
	"openat": {"EACCES", "EMFILE", "ENOSPC"}, "close": {"EIO", "ENOSPC"}, "copy_file_range": {"ENOSPC", "EIO"}, "lseek": {"EIO"},
}

// sweep makes every call of a signing fail, and dies before each
func (c *rcase) sweep(dir string, r *rand.Rand, share int, name string) []rwscenario {
	clean, p0 := c.run(dir+"clean", nil, -1)
	clean.How = name + " " + clean.How
	out := []rwscenario{clean}
	if clean.Res != "ok" {
		return out
	}
	inplace := changedInPlace(clean)
	// p0 is gone when the directory is; links of the file before are those of its name
	_ = p0
	log := dir + "log"
	d := dir + "count"
	c.run(d, []string{"strace", "-f", "-y", "-qq", "-s", "300", "-o", log, "-e", "trace=" + watched}, -1)
	list := calls(log, d, filepath.Join(d, c.input))
	os.RemoveAll(d)
	os.Remove(log)
	add := func(f rfault, strace []string, limit int) {
		if share > 1 && r.Intn(share) > 0 {
			return
		}
		d := fmt.Sprintf("%sf%d", dir, len(out))
		if strace != nil {
			strace = append([]string{"strace", "-f", "-qq", "-o", d + "log"}, strace...)
		}
		sc, _ := c.run(d, strace, limit)
		if strace != nil {
			// the call may not have been made
			if b, _ := os.ReadFile(d + "log"); f.Mode == "error" && !bytes.Contains(b, []byte("(INJECTED)")) {
				f.Mode = "none"
			}
		}
		os.RemoveAll(d)
		os.Remove(d + "log")
		sc.Fault, sc.Inplace, sc.How = f, inplace, name+" "+sc.How
		out = append(out, sc)
	}
	for _, k := range list {
		e := "EIO"
		if l := errnoFor[k.name]; l != nil {
			e = l[r.Intn(len(l))]
		}
		add(rfault{"error", k.name, k.on, k.n}, []string{"-e", "trace=" + k.name, "-e", fmt.Sprintf("inject=%s:error=%s:when=%d", k.name, e, k.n)}, -1)
		switch k.name {
		case "read", "write", "openat", "close", "renameat", "copy_file_range":
			// interrupted calls are made again, or are failures
			add(rfault{"error", "EINTR " + k.name, k.on, k.n}, []string{"-e", "trace=" + k.name, "-e", fmt.Sprintf("inject=%s:error=EINTR:when=%d", k.name, k.n)}, -1)
		}
		switch k.name {
		case "write", "copy_file_range", "renameat":
			// it goes on failing
			add(rfault{"error", k.name, k.on, k.n}, []string{"-e", "trace=" + k.name, "-e", fmt.Sprintf("inject=%s:error=%s:when=%d+", k.name, e, k.n)}, -1)
			// and the process dies while it cleans up
			for _, after := range []string{"close", "unlinkat", "fchmod"} {
				add(rfault{"kill", k.name, k.on, k.n}, []string{"-e", "trace=" + k.name + "," + after, "-e", fmt.Sprintf("inject=%s:error=%s:when=%d", k.name, e, k.n),
					"-e", fmt.Sprintf("inject=%s:signal=KILL:when=%d", after, countBefore(list, after, k)+1)}, -1)
			}
		}
		if c.inner != nil && !inplace {
			out = append(out, c.two(fmt.Sprintf("%st%d", dir, len(out)), k, name))
		}
		add(rfault{"kill", k.name, k.on, k.n}, []string{"-e", "trace=" + k.name, "-e", fmt.Sprintf("inject=%s:signal=KILL:when=%d", k.name, k.n)}, -1)
	}
	if c.to == "" {
		size := len(c.sub.pkg)
		limits := map[int]bool{0: true, 1: true, 95: true, 96: true, 97: true, 112: true, size / 2: true, size - 1: true, size: true, size + 100: true}
		for k := 0; k < 6; k++ {
			limits[r.Intn(size+400)] = true
		}
		var ls []int
		for l := range limits {
			ls = append(ls, l)
		}
		sort.Ints(ls)
		for _, l := range ls {
			add(rfault{"limit", "write", "out", l}, nil, l)
		}
	}
	return out
}

// countBefore tells how many calls of a name there have been when call k is made
func countBefore(list []scall, name string, k scall) int {
	n := -1
	for _, c := range list {
		if c.name == name && n < 0 {
			n = c.n - 1 // those before the input was opened
		}
		if c == k {
			return max(n, 0)
		}
		if c.name == name {
			n = c.n
		}
	}
	return max(n, 0)
}

var stopLine = regexp.MustCompile(`(?m)^(\d+) +--- stopped by SIGSTOP`)

// whenStopped calls f when strace tells that a thread has stopped, and lets it go on
func whenStopped(log string, over func() bool, f func()) {
	for end := time.Now().Add(60 * time.Second); time.Now().Before(end) && !over(); time.Sleep(300 * time.Microsecond) {
		b, _ := os.ReadFile(log)
		if m := stopLine.FindSubmatch(b); m != nil {
			f()
			syscall.Kill(atoi(string(m[1])), syscall.SIGCONT)
			return
		}
	}
}

// two signs, stops before call k, and signs something else then
func (c *rcase) two(dir string, k scall, name string) rwscenario {
	d := dir
	c.sub.second = c.inner.sub
	c2 := *c
	var mid []rnode
	res2 := ""
	c2.stopped = func(p *place) {
		mid, res2 = c.inner.again(p, c.sub)
	}
	sc, _ := c2.run(d, []string{"strace", "-f", "-qq", "-o", d + "log", "-e", "trace=" + k.name, "-e", fmt.Sprintf("inject=%s:signal=STOP:when=%d", k.name, k.n)}, -1)
	c.sub.second = nil
	sc.Mid, sc.Res2, sc.Path2 = mid, res2, c.inner.path
	sc.Fault = rfault{"two", k.name, k.on, k.n}
	if mid == nil {
		sc.Fault.Mode, sc.Mid = "none", []rnode{}
	}
	sc.How = "two " + name + " " + sc.How
	os.RemoveAll(d)
	os.Remove(d + "log")
	return sc
}

// again signs where something is there already
func (c *rcase) again(p *place, s *subject) ([]rnode, string) {
	out, cwd := c.spelled(p.dir)
	cmd := exec.Command(theExe, "sign1", c.sub.api, filepath.Join(p.dir, c.input), out, c.sub.keyHex, fmt.Sprintf("%x", c.sub.pgp), fmt.Sprintf("%x", c.sub.rsa), "-1", "-")
	cmd.Dir = cwd
	cmd.Env = []string{"GOMAXPROCS=1"}
	err := cmd.Run()
	res := "ok"
	if err != nil {
		res = err.Error()
	}
	return p.scan(s), res
}

func file(name string, ino int, data string) rnode { return rnode{name, "file", ino, "", data} }
func link(name, to string) rnode                   { return rnode{name, "link", 0, to, ""} }
func other(name, typ string) rnode                 { return rnode{name, typ, 0, "", ""} }

type rtask func(dir string, r *rand.Rand) []rwscenario

// rewriteWorker BASE KIND GEN SEED SHARE
func rewriteWorker(a []string) error {
	syscall.Umask(022)
	base, kind, seed, share := a[0], a[1], int64(atoi(a[3])), atoi(a[4])
	keyring()
	gens, err := readAll[rgen](a[2])
	if err != nil {
		return err
	}
	var tasks []rtask
	fits := []string{"none", "large", "exact", "small"}
	apis := []string{"sign", "insert"}
	pick := func(r *rand.Rand, s ...string) string { return s[r.Intn(len(s))] }
	sizes := []int{0, 300, 5000, 40000, 150000}
	size := func(r *rand.Rand) int { return sizes[r.Intn(len(sizes))] }
	inputNames := func(g rgen) []string {
		var out []string
		for _, n := range g.Nodes {
			if n.Type == "file" && n.Ino == 1 {
				out = append(out, n.Name)
			}
		}
		return out
	}
	one := func(c func(r *rand.Rand) *rcase) rtask {
		return func(dir string, r *rand.Rand) []rwscenario {
			k := c(r)
			sc, _ := k.run(dir, nil, -1)
			return []rwscenario{sc}
		}
	}
	std := func(path string, nodes ...rnode) func(r *rand.Rand, fit string) *rcase {
		return func(r *rand.Rand, fit string) *rcase {
			return &rcase{nodes: append([]rnode{file("in", 1, "pkg")}, nodes...), path: path, input: "in", parents: true, spell: pick(r, "", "rel", "dot"),
				sub: newSubject(r, size(r), fit, pick(r, apis...))}
		}
	}
	if kind == "names" {
		for _, g := range gens {
			for _, fit := range fits {
				for _, api := range apis {
					g, fit, api := g, fit, api
					tasks = append(tasks, one(func(r *rand.Rand) *rcase {
						return &rcase{nodes: g.Nodes, path: g.Path, input: pick(r, inputNames(g)...), parents: true, spell: pick(r, "", "rel", "dot", "up", "double"),
							sub: newSubject(r, size(r), fit, api)}
					}))
				}
			}
		}
		extra := func(f func(r *rand.Rand, fit string) *rcase) {
			for _, fit := range fits {
				fit := fit
				tasks = append(tasks, one(func(r *rand.Rand) *rcase { return f(r, fit) }))
			}
		}
		with := func(f func(r *rand.Rand, fit string) *rcase, change func(c *rcase)) func(r *rand.Rand, fit string) *rcase {
			return func(r *rand.Rand, fit string) *rcase {
				c := f(r, fit)
				change(c)
				return c
			}
		}
		// directories
		extra(with(std("no/out"), func(c *rcase) { c.parents = false }))
		extra(with(std("out/x", file("out", 2, "old")), func(c *rcase) { c.parents = false }))
		extra(with(std("out/"), func(c *rcase) { c.parents, c.path = false, "out/." }))
		extra(with(std("out"), func(c *rcase) { c.parents, c.readonly = false, true }))
		extra(with(std("d/out", other("d", "dir")), func(c *rcase) {}))
		extra(with(std("d/out", other("d", "dir"), file("d/out", 2, "old"), file("out", 2, "old")), func(c *rcase) {}))
		extra(with(std("l/out", other("d", "dir"), link("l", "d"), file("d/out", 2, "old"), file("out", 3, "other")), func(c *rcase) {}))
		extra(with(std("l/in", other("d", "dir"), link("l", "d"), file("d/in", 2, "other")), func(c *rcase) {}))
		extra(with(std("l/out", other("d", "dir"), link("l", "d"), link("d/out", "../in")), func(c *rcase) {}))
		extra(with(std("out", other("d", "dir"), link("out", "d/x"), file("d/x", 2, "old"), file("x", 3, "other")), func(c *rcase) {}))
		extra(with(std("out", other("d", "dir"), link("out", "d/x"), file("d/x", 1, "pkg"), file("x", 3, "other")), func(c *rcase) {}))
		extra(with(std("d/../out", other("d", "dir"), file("out", 2, "old")), func(c *rcase) {}))
		extra(with(std("d", other("d", "dir")), func(c *rcase) {}))
		extra(with(std("out", link("out", "d"), other("d", "dir")), func(c *rcase) {}))
		// names
		for _, n := range []string{"a b", "-", "--", "*", "a*b*c", "in*", "%s", "tmp", ".in", "in.rpm", "in1", "é", "\xff", "a\nb", "~", strings.Repeat("n", 100), strings.Repeat("m", 255)} {
			n := n
			for _, old := range []bool{true, false} {
				nodes := []rnode{file("y", 3, "other")}
				if old {
					nodes = append(nodes, file(n, 2, "old"))
				}
				extra(with(std(n, nodes...), func(c *rcase) {
					if n == "-" && c.spell == "rel" {
						c.spell = "dot"
					}
				}))
			}
			// the input has such a name
			extra(func(r *rand.Rand, fit string) *rcase {
				return &rcase{nodes: []rnode{file(n, 1, "pkg"), file("in", 2, "old")}, path: pick(r, n, "in", "out"), input: n, parents: true, sub: newSubject(r, size(r), fit, pick(r, apis...))}
			})
		}
		// long and empty existing files, several names
		extra(std("out", file("out", 2, "long"), file("x", 2, "long")))
		extra(std("out", file("out", 2, "empty"), link("x", "out")))
		extra(std("in", file("x", 1, "pkg"), file("y", 1, "pkg")))
		extra(std("out", link("out", "x"), link("x", "y"), file("y", 1, "pkg"), file("z", 1, "pkg")))
		extra(std("out", link("out", "x"), link("x", "y"), link("y", "in")))
		extra(std("out", link("out", "x"), link("x", "y"), file("y", 2, "old"), file("z", 2, "old")))
		extra(std("out", link("out", "x"), link("x", "y"), other("y", "fifo")))
		extra(std("out", file("out", 2, "pkg"))) // a copy
		extra(std("out", file("out", 2, "twin")))
		extra(std("out", link("out", "x"), file("x", 2, "twin")))
		extra(std("out", file("out", 2, "twin"), file("y", 2, "twin"), file("x", 1, "pkg")))
		for k := 0; k < 2; k++ {
			extra(with(std("out", other("out", "fifo")), func(c *rcase) { c.readers = "late" }))
			extra(with(std("out", link("out", "x"), other("x", "fifo"), file("y", 2, "old")), func(c *rcase) { c.readers = "late" }))
		}
		// the input is gone or is another file than its name now tells
		extra(with(std("in"), func(c *rcase) { c.removed = true }))
		extra(with(std("out"), func(c *rcase) { c.removed = true }))
		extra(with(std("out", file("out", 1, "pkg")), func(c *rcase) { c.removed = true }))
		extra(with(std("out", file("out", 1, "pkg"), file("x", 1, "pkg")), func(c *rcase) { c.removed = true }))
		extra(with(std("out", file("out", 2, "old")), func(c *rcase) { c.removed = true }))
		// streams
		for k := 0; k < 3; k++ {
			extra(with(std("-"), func(c *rcase) { c.to = "stdout" }))
			extra(with(std("-", file("-", 2, "old")), func(c *rcase) { c.to = "stdout" }))
			extra(with(std("-"), func(c *rcase) { c.to = "file" }))
			extra(with(std("-"), func(c *rcase) { c.to = "full" }))
			extra(func(r *rand.Rand, fit string) *rcase {
				return &rcase{nodes: []rnode{file("in", 1, "pkg")}, path: "/dev/full", input: "in", parents: true, to: "full", sub: newSubject(r, size(r), fit, pick(r, apis...))}
			})
			extra(func(r *rand.Rand, fit string) *rcase {
				return &rcase{nodes: []rnode{file("in", 1, "pkg"), other("out", "fifo")}, path: "out", input: "in", parents: true, to: "full", readers: "close", sub: newSubject(r, 300000, fit, pick(r, apis...))}
			})
		}
	} else {
		// faults
		reps := []struct {
			name string
			fit  string
			c    func(r *rand.Rand, fit string) *rcase
		}{
			{"new", "none", std("out")},
			{"existing", "none", std("out", file("out", 2, "old"))},
			{"existing, linked", "large", std("out", file("out", 2, "long"), file("x", 2, "long"))},
			{"hard link of the input", "large", std("out", file("out", 1, "pkg"))},
			{"symbolic link to a file", "none", std("out", link("out", "x"), file("x", 2, "old"))},
			{"the input, not fitting", "none", std("in")},
			{"the input, not fitting, linked", "small", std("in", file("x", 1, "pkg"))},
			{"the input, linked", "large", std("in", file("x", 1, "pkg"))},
			{"the input", "large", std("in")},
			{"symbolic link to the input", "none", std("out", link("out", "in"))},
			{"symbolic link to the input, in place", "large", std("out", link("out", "in"))},
			{"in a directory", "none", std("d/out", other("d", "dir"), file("d/out", 2, "old"), file("out", 3, "other"))},
			{"dangling link", "none", std("out", link("out", "x"))},
			{"fifo", "none", std("out", other("out", "fifo"))},
			{"stdout", "none", func(r *rand.Rand, fit string) *rcase { c := std("-")(r, fit); c.to = "stdout"; return c }},
			{"a copy of the input", "large", std("out", file("out", 2, "pkg"))},
		}
		for _, x := range reps {
			for _, api := range apis {
				for _, n := range []int{300, 150000} {
					x, api, n := x, api, n
					tasks = append(tasks, func(dir string, r *rand.Rand) []rwscenario {
						c := x.c(r, x.fit)
						c.sub = newSubject(r, n, x.fit, api)
						if c.to == "" {
							// the other one signs to the same path, or to another
							c.inner = &rcase{input: "in", path: pick(r, c.path, c.path, "new"), spell: pick(r, "", "rel"), sub: c.sub.other(r)}
						}
						return c.sweep(dir, r, share, x.name)
					})
				}
			}
		}
		for k := 0; k < len(gens); k++ {
			g := gens[k]
			tasks = append(tasks, func(dir string, r *rand.Rand) []rwscenario {
				if r.Intn(share*3) > 0 {
					return nil
				}
				c := &rcase{nodes: g.Nodes, path: g.Path, input: pick(r, inputNames(g)...), parents: true, spell: pick(r, "", "rel", "dot"), sub: newSubject(r, size(r), pick(r, fits...), pick(r, apis...))}
				return c.sweep(dir, r, share, "generated")
			})
		}
	}
	tr := newTrace(base + "/trace")
	for _, l := range parallel(len(tasks), func(i int) []rwscenario {
		d := fmt.Sprintf("%s/p%d", base, i)
		l := tasks[i](d, rand.New(rand.NewSource(seed*51001+int64(i))))
		for _, x := range must(filepath.Glob(d + "*")) {
			if y := strings.TrimPrefix(x, d); y == "" || y[0] < '0' || y[0] > '9' {
				os.RemoveAll(x)
			}
		}
		return l
	}) {
		for _, sc := range l {
			tr.put(sc)
		}
	}
	return tr.close()
}
