package main

import (
	"bytes"
	"crypto/sha1"
	"fmt"
	"math/rand"
	"os"
	"os/exec"
	"os/signal"
	"path/filepath"
	"runtime"
	"runtime/debug"
	"sort"
	"strings"
	"syscall"
	"time"

	rpmutils "github.com/sassoftware/go-rpmutils"
	"github.com/sassoftware/go-rpmutils/cpio"
)

// Extraction whose file operations fail: every extraction is a process of its own, of which single
// system calls are made to fail, or which dies before one.

func init() {
	commands["xfault"] = func(a []string) error { return extractSharded("xfault", a) }
	commands["extract1"] = extract1
	if len(os.Args) > 1 && os.Args[1] == "extract1" {
		runtime.LockOSThread()
	}
}

const exitLeak = 20 // added when a file stays open

// openFiles lists what is open, with calls that are not made to fail
func openFiles() map[int]bool {
	out := map[int]bool{}
	for n := 0; n < 256; n++ {
		if _, _, e := syscall.Syscall(syscall.SYS_FCNTL, uintptr(n), syscall.F_GETFD, 0); e == 0 {
			out[n] = true
		}
	}
	return out
}

// warmUp lets the runtime open what it keeps open
func warmUp() {
	r, w, err := os.Pipe()
	if err != nil {
		panic(err)
	}
	r.Close()
	w.Close()
}

// leaked tells which files are open that were not, and which are no longer
func leaked(before map[int]bool) []string {
	var out []string
	now := openFiles()
	for n := range before {
		if !now[n] {
			out = append(out, fmt.Sprint("closed ", n))
		}
	}
	for n := range now {
		if !before[n] {
			to, _ := os.Readlink(fmt.Sprint("/proc/self/fd/", n))
			out = append(out, to)
		}
	}
	sort.Strings(out)
	return out
}

// extract1 HOW ARCHIVE DEST LIMIT: extracts once; the exit status tells
func extract1(a []string) error {
	defer func() {
		if r := recover(); r != nil {
			fmt.Fprintln(os.Stderr, "panic:", r)
			os.Exit(2)
		}
	}()
	signal.Ignore(syscall.SIGXFSZ)
	syscall.Umask(022)
	debug.SetGCPercent(-1) // what is forgotten stays open
	data := must(os.ReadFile(a[1]))
	var rpm *rpmutils.Rpm
	if a[0] == "rpm" {
		rpm = must(rpmutils.ReadRpm(bytes.NewReader(data)))
	}
	if n := atoi(a[3]); n >= 0 {
		must(0, syscall.Setrlimit(syscall.RLIMIT_FSIZE, &syscall.Rlimit{Cur: uint64(n), Max: uint64(n)}))
	}
	warmUp()
	before := openFiles()
	os.Lstat("/.extraction-begins")
	var err error
	if rpm != nil {
		err = rpm.ExpandPayload(a[2])
	} else {
		err = cpio.Extract(bytes.NewReader(data), a[2])
	}
	os.Lstat("/.extraction-ends")
	code := exitOK
	if err != nil {
		code = exitErr
		fmt.Fprintln(os.Stderr, err)
	}
	if l := leaked(before); len(l) > 0 {
		fmt.Fprintln(os.Stderr, "open:", l)
		code += exitLeak
	}
	os.Exit(code)
	return nil
}

type xpre struct {
	P []string `json:"p"`
	K []int    `json:"k"`
}

type xfscenario struct {
	xscenario
	Fault rfault   `json:"fault"`
	Leak  bool     `json:"leak"`
	Pre   []xpre   `json:"pre"`
	Ro    []string `json:"ro,omitempty"`
}

type xfcase struct {
	top   string
	i     int
	seed  int64
	n     int // areas used
	perm  bool
	ents  []*xentry
	files map[string]bool // regular files after a whole extraction, below the area
}

// run sets everything up again and extracts once
func (c *xfcase) run(strace []string, limit int, fault rfault) (xfscenario, string) {
	r := rand.New(rand.NewSource(c.seed))
	c.n++
	s, p, opaque := area(c.top, c.i*10000+c.n)
	defer finishScenario(c.top, s)
	x := &xrand{r: r, p: p, clean: true}
	w := func(rel, data string) { must(0, os.WriteFile(p+"/"+rel, []byte(data), 0644)) }
	for _, d := range []string{"out", "out/d", "destx"} {
		must(0, os.Mkdir(p+"/"+d, 0755))
	}
	w("out/f", "out")
	w("destx/f", "destx")
	exists := r.Intn(4) > 0
	if exists {
		must(0, os.Mkdir(p+"/dest", 0755))
		for k := r.Intn(6); k > 0; k-- {
			t := []string{"dir", "file", "link", "fifo", "hard"}[r.Intn(5)]
			n := fmt.Sprintf("%s/dest/%s%d", p, map[string]string{"dir": "d", "file": "f", "link": "l", "fifo": "f", "hard": "f"}[t], r.Intn(4))
			switch t {
			case "dir":
				os.Mkdir(n, 0755)
			case "file":
				if _, err := os.Lstat(n); err != nil {
					must(0, os.WriteFile(n, []byte(fmt.Sprint("old", k)), 0644))
				}
			case "link":
				os.Symlink([]string{"f0", "d0", "../out", p + "/out/f", "nowhere", "."}[r.Intn(6)], n)
			case "fifo":
				if _, err := os.Lstat(n); err != nil {
					syscall.Mkfifo(n, 0644)
				}
			case "hard":
				os.Link(p+[]string{"/out/f", "/dest/f0", "/dest/f1"}[r.Intn(3)], n)
			}
		}
	}
	spelling := []string{"abs", "abs", "rel", "dot", "slash", "symlink"}[r.Intn(6)]
	ents := x.entries(1 + r.Intn(6))
	for _, e := range ents {
		if e.T == "file" && r.Intn(4) == 0 {
			e.content = make([]byte, 30000+r.Intn(90000))
			r.Read(e.content)
			e.finish(r)
		}
	}
	if r.Intn(2) == 0 {
		// several names of one file, of which one, if any, carries the contents
		for k, m, all := 0, 2+r.Intn(2), r.Intn(4); k < m; k++ {
			e := &xentry{T: "file", Key: "g"}
			e.Name.Raw = x.name("file")
			if k == all {
				e.content = []byte("the contents")
			}
			e.finish(r)
			at := r.Intn(len(ents) + 1)
			ents = append(ents[:at], append([]*xentry{e}, ents[at:]...)...)
		}
	}
	setKeys(ents, r)
	if exists {
		os.Symlink("dest", p+"/dlink")
		os.Symlink(p+"/dest", p+"/alink")
	}
	arg, cwd, path := spell(spelling, p, exists)
	sc := xfscenario{xscenario: xscenario{Opaque: opaque, Base: comps(s), Dest: comps(path)}, Fault: fault, Pre: []xpre{}}
	var closed []string
	if c.perm {
		filepath.WalkDir(p+"/dest", func(q string, d os.DirEntry, err error) error {
			if err == nil && d.IsDir() && r.Intn(2) == 0 {
				closed = append(closed, q)
			}
			return nil
		})
		for _, d := range closed {
			os.Chmod(d, 0555)
		}
	}
	ageTree(s)
	sc.Before = withAncestors(snap(s), opaque)
	segs, _ := layout(archiveOf(ents, r), r)
	data := readSegs(segs, -1)
	how := []string{"cpio", "cpio", "rpm"}[r.Intn(3)]
	if how == "rpm" {
		pk := &pkg{sigReserve: -1, digests: "sha256", payload: compress("gzip", data)}
		pk.gen = append(basicGen(), strTag(tagPayloadCompressor, "gzip"))
		data = pk.build()
	}
	in := s + ".archive"
	must(0, os.WriteFile(in, data, 0644))
	defer os.Remove(in)
	args := append(append([]string{}, strace...), theExe, "extract1", how, in, arg, fmt.Sprint(limit))
	cmd := exec.Command(args[0], args[1:]...)
	cmd.Dir = cwd
	cmd.Env = []string{"GOMAXPROCS=1", "GODEBUG=asyncpreemptoff=1", "GOTRACEBACK=none", "PATH=" + os.Getenv("PATH"), "TMPDIR=" + s + "/none"}
	var msg bytes.Buffer
	cmd.Stderr = &msg
	rd := xround{Ents: ents, How: how + " " + spelling}
	t := time.AfterFunc(100*time.Second, func() { cmd.Process.Kill() })
	t0 := time.Now()
	must(0, cmd.Start())
	cmd.Wait()
	t.Stop()
	ws := cmd.ProcessState.Sys().(syscall.WaitStatus)
	code := ws.ExitStatus()
	if code >= exitLeak && code < 100 {
		sc.Leak = true
		code -= exitLeak
	}
	switch {
	case time.Since(t0) > 99*time.Second:
		rd.Res = "hang"
		hung.Store(true)
	case ws.Signaled() && ws.Signal() == syscall.SIGKILL, code == 137:
		rd.Res = "killed"
	case code == exitOK:
		rd.Res = "ok"
	case code == exitErr:
		rd.Res = "err"
	default:
		rd.Res = fmt.Sprint("exit ", code)
	}
	rd.What = msg.String()
	if len(rd.What) > 300 {
		rd.What = rd.What[:300]
	}
	for _, d := range closed {
		os.Chmod(d, 0755) // ... back as they were listed
		os.Chtimes(d, oldTime, oldTime)
	}
	// which contents are the beginning of which entry's
	filepath.WalkDir(s, func(q string, d os.DirEntry, err error) error {
		if err == nil && d.Type().IsRegular() {
			b, err := os.ReadFile(q)
			if err != nil {
				return nil
			}
			x := xpre{P: comps(q), K: []int{}}
			for k, e := range ents {
				if e.T == "file" && bytes.HasPrefix(e.content, b) {
					x.K = append(x.K, k+1)
				}
			}
			if len(x.K) > 0 {
				sc.Pre = append(sc.Pre, x)
			}
		}
		return nil
	})
	if c.files == nil {
		c.files = map[string]bool{}
		filepath.WalkDir(s, func(q string, d os.DirEntry, err error) error {
			if err == nil && d.Type().IsRegular() {
				c.files[strings.TrimPrefix(q, s)] = true
			}
			return nil
		})
	}
	for _, d := range closed {
		os.Chmod(d, 0555)
		os.Chtimes(d, oldTime, oldTime)
	}
	rd.After = withAncestors(snap(s), opaque)
	for _, l := range [][]xnode{sc.Before.Nodes, rd.After.Nodes} {
		for k := range l {
			l[k].A = fmt.Sprintf("%x", sha1.Sum([]byte(l[k].A)))[:20]
		}
	}
	sc.Rounds = []xround{rd}
	return sc, s
}

const extractCalls = watched + ",mknodat,mknod,symlinkat,symlink,getcwd,fcntl,epoll_ctl,epoll_create1,eventfd2,flock,utimensat,fchdir,chdir,openat2,faccessat2,getdents64"

// callsBetween reads which calls the main thread made while it extracted
func (c *xfcase) callsBetween(log, s string) []scall {
	main := ""
	count := map[string]int{}
	var out []scall
	on := false
	for _, l := range strings.Split(string(must(os.ReadFile(log))), "\n") {
		m := straceLine.FindStringSubmatch(l)
		if m == nil {
			continue
		}
		if main == "" {
			main = m[1]
		}
		if m[1] != main {
			continue
		}
		count[m[2]]++
		if strings.Contains(m[3], "/.extraction-") {
			on = strings.Contains(m[3], "begins")
			continue
		}
		if !on {
			continue
		}
		k := scall{name: m[2], n: count[m[2]]}
		if f := fdPath.FindStringSubmatch(m[3]); f != nil && c.files[strings.TrimPrefix(f[1], s)] {
			k.on = "out"
		}
		out = append(out, k)
	}
	return out
}

func (c *xfcase) sweep(share int) []xfscenario {
	r := rand.New(rand.NewSource(c.seed + 1))
	mode := "none"
	if c.perm {
		mode = "perm"
	}
	var clean xfscenario
	for k := 0; k < 8; k++ {
		clean, _ = c.run(nil, -1, rfault{Mode: mode})
		if clean.Rounds[0].Res == "ok" || c.perm && k == 3 {
			break
		}
		c.seed += 1 << 40
		c.files = nil
	}
	out := []xfscenario{clean}
	if clean.Rounds[0].Res != "ok" {
		return out
	}
	log := fmt.Sprintf("%s/log%d", c.top, c.i)
	defer os.Remove(log)
	_, s := c.run([]string{"strace", "-f", "-y", "-qq", "-s", "300", "-o", log, "-e", "trace=" + extractCalls}, -1, rfault{})
	list := c.callsBetween(log, s)
	add := func(every int, f rfault, opts ...string) {
		if r.Intn(every) > 0 {
			return
		}
		sc, _ := c.run(append([]string{"strace", "-f", "-qq", "-o", log}, opts...), -1, f)
		if b, _ := os.ReadFile(log); f.Mode == "error" && !bytes.Contains(b, []byte("(INJECTED)")) {
			sc.Fault.Mode = "none"
		}
		out = append(out, sc)
	}
	for _, k := range list {
		errs := []string{"EIO"}
		every, times := 4*share, 1
		switch k.name {
		case "write":
			errs = []string{"ENOSPC", "EIO", "EDQUOT", "EAGAIN"}
			every, times = 1, 2
		case "close":
			every = 1
		case "openat":
			errs = []string{"EACCES", "EMFILE", "ENOSPC", "ELOOP", "EIO", "ENOENT", "EEXIST", "ETXTBSY"}
			every, times = 1, 2
		case "mkdirat", "mkdir":
			errs = []string{"EACCES", "ENOSPC", "EIO", "EMLINK", "EROFS", "EEXIST", "ENOENT", "EPERM", "ENOTDIR"}
			every, times = share, 1
		case "symlinkat", "symlink", "linkat", "link", "mknodat", "mknod":
			errs = []string{"EACCES", "ENOSPC", "EIO", "EMLINK", "EROFS", "EEXIST", "ENOENT", "EPERM", "EXDEV", "EOPNOTSUPP", "ENOSYS"}
			every, times = 1, 4
		case "unlinkat", "unlink", "renameat", "rename", "renameat2":
			errs = []string{"EACCES", "EIO", "EBUSY", "EPERM", "EISDIR", "ENOENT", "EROFS"}
			every, times = 1, 3
		case "newfstatat", "lstat", "readlinkat", "statx", "stat":
			errs = []string{"EACCES", "EIO", "ENOMEM", "ELOOP", "ENOTDIR", "ENOENT", "EOVERFLOW"}
		case "fchmodat", "chmod", "fchmod", "fsync", "fdatasync", "ftruncate", "utimensat":
			errs = []string{"EIO", "EPERM", "EROFS"}
			every = 1
		}
		r.Shuffle(len(errs), func(i, j int) { errs[i], errs[j] = errs[j], errs[i] })
		for _, e := range errs[:min(times, len(errs))] {
			add(every, rfault{"error", k.name, k.on, k.n}, "-e", "trace="+k.name, "-e", fmt.Sprintf("inject=%s:error=%s:when=%d", k.name, e, k.n))
		}
		switch k.name {
		case "write", "openat", "mkdirat", "linkat", "close", "unlinkat":
			add(2*every, rfault{"error", k.name, k.on, k.n}, "-e", "trace="+k.name, "-e", fmt.Sprintf("inject=%s:error=%s:when=%d+", k.name, errs[0], k.n))
		}
		switch k.name {
		case "write", "openat", "mkdirat", "newfstatat", "unlinkat", "linkat", "symlinkat":
			add(2*every, rfault{"error", "EINTR " + k.name, k.on, k.n}, "-e", "trace="+k.name, "-e", fmt.Sprintf("inject=%s:error=EINTR:when=%d", k.name, k.n))
		}
		if every > 1 {
			every = 2 * every
		}
		add(every, rfault{"kill", k.name, k.on, k.n}, "-e", "trace="+k.name, "-e", fmt.Sprintf("inject=%s:signal=KILL:when=%d", k.name, k.n))
	}
	big := 0
	for _, e := range clean.Rounds[0].Ents {
		if e.T == "file" && len(e.content) > 0 {
			big = max(big, len(e.content))
			if r.Intn(share) == 0 {
				sc, _ := c.run(nil, r.Intn(len(e.content)), rfault{"limit", "write", "out", 0})
				out = append(out, sc)
			}
		}
	}
	if big > 0 {
		for _, l := range []int{0, big - 1, big} {
			sc, _ := c.run(nil, l, rfault{"limit", "write", "out", l})
			out = append(out, sc)
		}
	}
	return out
}
