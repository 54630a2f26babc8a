package main

import (
	"bytes"
	"crypto/sha1"
	"encoding/json"
	"fmt"
	"io"
	"io/fs"
	"math/rand"
	"os"
	"os/exec"
	"path/filepath"
	"sort"
	"strings"
	"sync"
	"syscall"
	"time"
	"unicode/utf8"

	rpmutils "github.com/sassoftware/go-rpmutils"
	"github.com/sassoftware/go-rpmutils/cpio"
)

func init() {
	commands["extract-gen"] = func(a []string) error { return extractSharded("gen", a) }
	commands["extract-random"] = func(a []string) error { return extractSharded("random", a) }
	commands["extract-worker"] = extractWorker
	commands["damage"] = func(a []string) error { return extractSharded("damage", a) }
}

// a name or link target
type xpath struct {
	Raw string   `json:"raw"`
	Abs bool     `json:"abs"`
	C   []string `json:"c"`
}

// safe keeps names that are not valid UTF-8 distinct in JSON
func safe(s string) string {
	if utf8.ValidString(s) {
		return s
	}
	q := fmt.Sprintf("%+q", s)
	return "\\bytes:" + q[1:len(q)-1]
}

func (p xpath) MarshalJSON() ([]byte, error) {
	c := make([]string, len(p.C))
	for i := range c {
		c[i] = safe(p.C[i])
	}
	return json.Marshal(map[string]any{"raw": safe(p.Raw), "abs": p.Abs, "c": c})
}

func splitPath(s string) xpath {
	p := xpath{Raw: s, Abs: strings.HasPrefix(s, "/"), C: []string{}}
	if s != "" {
		p.C = strings.Split(s, "/")
	}
	return p
}

func comps(abs string) []string {
	c := []string{}
	for _, x := range strings.Split(abs, "/") {
		if x != "" {
			c = append(c, safe(x))
		}
	}
	return c
}

type xentry struct {
	Name xpath  `json:"name"`
	T    string `json:"t"`
	Data string `json:"data"`
	To   xpath  `json:"to"`
	Key  string `json:"key"`

	content []byte
	mode    uint32
	ino     uint32
	dev     [2]uint32
	nlink   uint32
}

type xnode struct {
	P   []string `json:"p"`
	T   string   `json:"t"`
	ID  int      `json:"id"`
	To  xpath    `json:"to"`
	A   string   `json:"a,omitempty"` // all attributes
	Ino string   `json:"ino,omitempty"`
}

type snapshot struct {
	Nodes []xnode  `json:"nodes"`
	Data  []string `json:"data"`
}

type xround struct {
	Ents  []*xentry `json:"ents"`
	Res   string    `json:"res"`
	What  string    `json:"what"`
	How   string    `json:"how"`
	After snapshot  `json:"after"`
}

type xscenario struct {
	Opaque [][]string `json:"opaque"`
	Base   []string   `json:"base"`
	Dest   []string   `json:"dest"`
	Before snapshot   `json:"before"`
	Rounds []xround   `json:"rounds"`
}

func contentName(b []byte) string {
	if len(b) <= 40 {
		ok := true
		for _, c := range b {
			ok = ok && c >= 32 && c < 127
		}
		if ok {
			return string(b)
		}
	}
	return fmt.Sprintf("%d:%x", len(b), sha1.Sum(b))
}

var typeBits = map[string]uint32{"dir": cpio.S_ISDIR, "file": cpio.S_ISREG, "link": cpio.S_ISLNK, "fifo": cpio.S_ISFIFO}

func (e *xentry) finish(r *rand.Rand) {
	e.Name, e.To = splitPath(e.Name.Raw), splitPath(e.To.Raw)
	if e.content == nil {
		e.content = []byte(e.Data)
	}
	switch e.T {
	case "dev":
		e.mode = []uint32{cpio.S_ISCHR, cpio.S_ISBLK}[r.Intn(2)] | 0600
	case "bad":
		e.mode = []uint32{0140000, 0, 0050000, 0110000, 0130000, 0150000, 0170000, 0030000, 0070000}[r.Intn(9)] | 0644
	case "dir":
		e.mode = cpio.S_ISDIR | []uint32{0700, 0755, 0711, 0777, 01777}[r.Intn(5)]
	default:
		e.mode = typeBits[e.T] | []uint32{0644, 0600, 0755, 0444, 0, 04755, 02711, 01666}[r.Intn(8)]
	}
	e.nlink = 1
	if e.T == "link" {
		e.content = []byte(e.To.Raw)
		e.mode = cpio.S_ISLNK | []uint32{0777, 0777, 0644, 0600, 0, 0755, 07777}[r.Intn(7)]
	}
	if e.T != "file" && e.T != "link" {
		e.content = nil
	}
	if e.T == "file" {
		e.Data = contentName(e.content)
	} else {
		e.Data = ""
		e.Key = ""
	}
}

// setKeys gives hard-link groups their numbers
func setKeys(ents []*xentry, r *rand.Rand) {
	type id struct {
		ino uint32
		dev [2]uint32
	}
	keys := map[string]id{}
	next := uint32(10)
	count := map[string]uint32{}
	for _, e := range ents {
		if e.Key != "" {
			count[e.Key]++
		}
	}
	for _, e := range ents {
		if e.Key == "" {
			e.ino = next
			next++
			e.dev = [2]uint32{8, 1}
			if r.Intn(4) == 0 {
				e.ino = 5 // link count 1: the number means nothing
			}
			continue
		}
		k, ok := keys[e.Key]
		if !ok {
			k = id{5, [2]uint32{8, 1}}
			// groups differ in one number only
			for used := true; used; {
				switch r.Intn(4) {
				case 0:
					k.ino = uint32(r.Intn(4))
				case 1:
					k.dev[0]++
				case 2:
					k.dev[1]++
				}
				used = false
				for _, o := range keys {
					used = used || o == k
				}
			}
			keys[e.Key] = k
		}
		e.ino, e.dev = k.ino, k.dev
		e.nlink = count[e.Key]
		if e.nlink < 2 || r.Intn(5) == 0 {
			e.nlink = 2 + uint32(r.Intn(3))
		}
	}
}

func archiveOf(ents []*xentry, r *rand.Rand) []*centry {
	var ar []*centry
	for _, e := range ents {
		c := &centry{K: "newc", Size: big(int64(len(e.content))), name: e.Name.Raw, raw: e.content}
		if c.raw == nil {
			c.raw = []byte{}
		}
		c.f = randFields(r)
		c.f[fMode], c.f[fIno], c.f[fNlink], c.f[fDevmajor], c.f[fDevminor] = e.mode, e.ino, e.nlink, e.dev[0], e.dev[1]
		c.finish()
		ar = append(ar, c)
	}
	tr := &centry{K: "newc", Size: big(0), Trailer: true, name: cpio.TRAILER}
	if r.Intn(2) == 0 {
		tr.f = randFields(r)
	}
	tr.finish()
	return append(ar, tr)
}

var oldTime = time.Unix(1000000000, 0)

func mk(base string, n xnode, data func(id int) string, first map[int]string) {
	p := "/" + strings.Join(n.P, "/")
	check := func(err error) {
		if err != nil {
			panic(err)
		}
	}
	switch n.T {
	case "dir":
		check(os.Mkdir(p, 0755))
	case "link":
		check(os.Symlink(n.To.Raw, p))
	case "fifo":
		check(syscall.Mkfifo(p, 0644))
	case "file":
		if o, ok := first[n.ID]; ok {
			check(os.Link(o, p))
		} else {
			check(os.WriteFile(p, []byte(data(n.ID)), 0644))
			first[n.ID] = p
		}
	}
}

func ageTree(top string) {
	filepath.WalkDir(top, func(p string, d fs.DirEntry, err error) error {
		if err == nil && d.Type()&fs.ModeSymlink == 0 {
			os.Chtimes(p, oldTime, oldTime)
		}
		return nil
	})
}

// snap lists everything below top. Identities are numbers by inode.
func snap(top string) snapshot {
	s := snapshot{Nodes: []xnode{}, Data: []string{}}
	ids := map[uint64]int{}
	filepath.WalkDir(top, func(p string, d fs.DirEntry, err error) error {
		n := xnode{P: comps(p), To: splitPath(""), Ino: "-"}
		var st syscall.Stat_t
		if e := syscall.Lstat(p, &st); e != nil {
			n.T = "unreadable"
			s.Nodes = append(s.Nodes, n)
			return nil
		}
		sum := ""
		switch st.Mode & syscall.S_IFMT {
		case syscall.S_IFDIR:
			n.T = "dir"
			if err != nil { // cannot be listed
				n.T = "closed"
			}
		case syscall.S_IFREG:
			n.T = "file"
			b, e := os.ReadFile(p)
			if e != nil {
				os.Chmod(p, 0644)
				b, _ = os.ReadFile(p)
				os.Chmod(p, os.FileMode(st.Mode&07777))
			}
			sum = contentName(b)
			if _, ok := ids[st.Ino]; !ok {
				s.Data = append(s.Data, sum)
				ids[st.Ino] = len(s.Data)
			}
			n.ID = ids[st.Ino]
		case syscall.S_IFLNK:
			n.T = "link"
			to, _ := os.Readlink(p)
			n.To = splitPath(to)
			sum = to
		case syscall.S_IFIFO:
			n.T = "fifo"
		default:
			n.T = "other"
		}
		n.Ino = fmt.Sprint(st.Ino)
		n.A = fmt.Sprintf("%o %d:%d %d %d.%d %s", st.Mode, st.Uid, st.Gid, st.Ino, st.Mtim.Sec, st.Mtim.Nsec, sum)
		s.Nodes = append(s.Nodes, n)
		if err != nil {
			return fs.SkipDir
		}
		return nil
	})
	return s
}

// trim drops what is not needed to judge the inside or the outside of the destination
func trim(s *snapshot, normal bool, p string) {
	out := []xnode{}
	d := comps(p + "/dest")
	for _, n := range s.Nodes {
		inside := len(n.P) > len(d) && strings.Join(n.P[:len(d)], "/") == strings.Join(d, "/")
		if judge == "inside" {
			if normal && !inside {
				continue
			}
			n.A, n.Ino = "", ""
		} else {
			if normal && inside {
				continue
			}
			n.A = fmt.Sprintf("%x", sha1.Sum([]byte(n.A)))[:20]
		}
		out = append(out, n)
	}
	s.Nodes = out
}

var judge string

// runExtract runs one extraction and tells how it ended
func runExtract(data []byte, spelled, how, chunkKind string, seed int64) (res, what string) {
	ev := guard(90*time.Second, func(emit func(cevent)) {
		var err error
		if how == "direct" {
			err = cpio.Extract(chunk(bytes.NewReader(data), chunkKind, seed), spelled)
		} else {
			p := &pkg{sigReserve: -1, digests: "sha256", payload: compress(how, data)}
			p.gen = append(basicGen(), strTag(tagPayloadCompressor, how))
			var rpm *rpmutils.Rpm
			rpm, err = rpmutils.ReadRpm(chunk(bytes.NewReader(p.build()), chunkKind, seed))
			if err == nil {
				err = rpm.ExpandPayload(spelled)
			}
		}
		if err == nil {
			emit(cevent{Op: "ok"})
		} else {
			emit(cevent{Op: "err", What: err.Error()})
		}
	})
	return ev[len(ev)-1].Op, ev[len(ev)-1].What
}

var spellings = []string{"abs", "abs", "rel", "dot", "dotslash", "slash", "updown", "symlink", "abssymlink", "double"}

// spell returns how the destination is written, the directory to be in, and the path
// that the specification resolves
func spell(kind, p string, exists bool) (arg, cwd, path string) {
	d := p + "/dest"
	switch kind {
	case "rel":
		return "dest", p, d
	case "dot":
		if exists {
			return ".", d, d
		}
	case "dotslash":
		return "./dest/", p, d
	case "slash":
		return d + "/", "/", d
	case "updown":
		return p + "/out/../dest", "/", d
	case "double":
		return strings.Replace(d, "/dest", "//./dest", 1), "/", d
	case "symlink":
		if exists {
			return p + "/dlink", "/", p + "/dlink"
		}
	case "abssymlink":
		if exists {
			return "alink/.", p, p + "/alink"
		}
	}
	return d, "/", d
}

func extractSharded(kind string, args []string) error {
	// ... TRACE is the second argument of all kinds
	exe := must(os.Executable())
	base := must(os.MkdirTemp(filepath.Dir(args[1]), "x"))
	defer os.RemoveAll(base)
	uid := os.Getuid()
	os.Chmod(base, 0777)
	if uid == 0 {
		os.Chown(base, 65534, 65534)
	}
	const shards = 8
	var wg sync.WaitGroup
	errs := make([]error, shards)
	outs := make([]bytes.Buffer, shards)
	files := make([]string, shards)
	for i := 0; i < shards; i++ {
		i := i
		wg.Add(1)
		go func() {
			defer wg.Done()
			files[i] = fmt.Sprintf("%s/trace%d", base, i)
			cmd := exec.Command(exe, append([]string{"extract-worker", kind, fmt.Sprint(i), fmt.Sprint(shards), base, files[i]}, args...)...)
			cmd.Dir = "/"
			cmd.Stdout, cmd.Stderr = &outs[i], &outs[i]
			if uid == 0 {
				cmd.SysProcAttr = &syscall.SysProcAttr{Credential: &syscall.Credential{Uid: 65534, Gid: 65534, Groups: []uint32{}}}
			}
			errs[i] = cmd.Run()
		}()
	}
	wg.Wait()
	tr := newTrace(args[1])
	for i := range errs {
		if errs[i] != nil {
			return fmt.Errorf("worker %d: %s: %s", i, errs[i], outs[i].String())
		}
		if err := readLines(files[i], func(l []byte) { tr.put(json.RawMessage(l)) }); err != nil {
			return err
		}
	}
	return tr.close()
}

func extractWorker(args []string) error {
	kind, shard, shards, base, out := args[0], atoi(args[1]), atoi(args[2]), args[3], args[4]
	args = args[5:]
	syscall.Umask(022)
	judge = args[len(args)-1]
	top := fmt.Sprintf("%s/%d", base, shard)
	if err := os.Mkdir(top, 0755); err != nil {
		return err
	}
	tr := newTrace(out)
	switch kind {
	case "gen": // GEN TRACE SEED
		gens, err := readAll[xgen](args[0])
		if err != nil {
			return err
		}
		for i, g := range gens {
			if i%shards == shard && !hung.Load() {
				tr.put(runGen(top, i, g, rand.New(rand.NewSource(int64(atoi(args[2]))*10007+int64(i)))))
			}
		}
	case "random": // N TRACE SEED
		for i := shard; i < atoi(args[0]) && !hung.Load(); i += shards {
			tr.put(runRandomExtract(top, i, rand.New(rand.NewSource(int64(atoi(args[2]))*20011+int64(i)))))
		}
	case "damage": // N TRACE SEED
		for i := shard; i < atoi(args[0]) && !hung.Load(); i += shards {
			damageScenario(top, i, rand.New(rand.NewSource(int64(atoi(args[2]))*30011+int64(i))), tr)
		}
	case "interleave":
		if err := interleaveShard(top, shard, shards, args, tr); err != nil {
			return err
		}
	case "fault": // N TRACE SEED
		for i := shard; i < atoi(args[0]) && !hung.Load(); i += shards {
			tr.put(faultExtract(top, i, rand.New(rand.NewSource(int64(atoi(args[2]))*40009+int64(i)))))
		}
	case "xfault": // N TRACE SEED SHARE
		for i := shard; i < atoi(args[0]) && !hung.Load(); i += shards {
			c := &xfcase{top: top, i: i, seed: int64(atoi(args[2]))*50021 + int64(i), perm: i%6 == 5}
			for _, sc := range c.sweep(atoi(args[3])) {
				tr.put(sc)
			}
		}
	case "compress": // GEN TRACE SEED N
		if err := compressShard(top, shard, shards, args, tr); err != nil {
			return err
		}
	}
	return tr.close()
}

type xgen struct {
	Init string    `json:"init"`
	Ents []*xentry `json:"ents"`
	FS   []struct {
		P    []string `json:"p"`
		Node struct {
			T  string `json:"t"`
			ID int    `json:"id"`
			To xpath  `json:"to"`
		} `json:"node"`
	} `json:"fs"`
}

// area makes the directories around the destination: S/x/P, of which S is listed
func area(top string, i int) (s, p string, opaque [][]string) {
	s = fmt.Sprintf("%s/s%d", top, i)
	p = s + "/x/p"
	if err := os.MkdirAll(p, 0755); err != nil {
		panic(err)
	}
	c := comps(s)
	for k := 0; k < len(c); k++ {
		opaque = append(opaque, c[:k])
	}
	return s, p, opaque
}

// before lists S and the directories above it
func withAncestors(s snapshot, opaque [][]string) snapshot {
	for _, o := range opaque {
		s.Nodes = append(s.Nodes, xnode{P: append([]string{}, o...), T: "dir", To: splitPath(""), Ino: "-"})
	}
	return s
}

func strays(top, s string) []xnode {
	var out []xnode
	ents, _ := os.ReadDir(top)
	for _, e := range ents {
		if p := top + "/" + e.Name(); p != s {
			out = append(out, xnode{P: comps(p), T: "stray", To: splitPath(""), Ino: "-"})
		}
	}
	return out
}

func finishScenario(top, s string) {
	filepath.WalkDir(s, func(p string, d fs.DirEntry, err error) error {
		if err == nil && d.IsDir() {
			os.Chmod(p, 0755)
		}
		return nil
	})
	os.RemoveAll(s)
}

func runGen(top string, i int, g xgen, r *rand.Rand) xscenario {
	s, p, opaque := area(top, i)
	defer finishScenario(top, s)
	mapRaw := func(raw string) string {
		if raw == "/P" || strings.HasPrefix(raw, "/P/") {
			return p + raw[2:]
		}
		return raw
	}
	first := map[int]string{}
	sort.Slice(g.FS, func(a, b int) bool { return len(g.FS[a].P) < len(g.FS[b].P) })
	exists := false
	for _, n := range g.FS {
		if len(n.P) < 2 {
			continue
		}
		exists = exists || (len(n.P) == 2 && n.P[1] == "dest")
		mk(p, xnode{P: append(comps(p), n.P[1:]...), T: n.Node.T, ID: n.Node.ID, To: splitPath(mapRaw(n.Node.To.Raw))},
			func(id int) string { return []string{"", "out", "destx", "in"}[id] }, first)
	}
	for _, e := range g.Ents {
		e.Name.Raw, e.To.Raw = mapRaw(e.Name.Raw), mapRaw(e.To.Raw)
		e.finish(r)
	}
	setKeys(g.Ents, r)
	return runRounds(top, s, p, opaque, exists, [][]*xentry{g.Ents}, spellings[r.Intn(len(spellings))], r)
}

func runRounds(top, s, p string, opaque [][]string, exists bool, rounds [][]*xentry, spelling string, r *rand.Rand) xscenario {
	if exists {
		os.Symlink("dest", p+"/dlink")
		os.Symlink(p+"/dest", p+"/alink")
	}
	arg, cwd, path := spell(spelling, p, exists)
	if spelling == "root" {
		arg, cwd, path = "/", p, "/"
	}
	sc := xscenario{Opaque: opaque, Base: comps(s), Dest: comps(path)}
	ageTree(s)
	sc.Before = withAncestors(snap(s), opaque)
	trim(&sc.Before, false, p)
	for _, ents := range rounds {
		segs, _ := layout(archiveOf(ents, r), r)
		data := readSegs(segs, -1)
		how := "direct"
		if r.Intn(5) == 0 {
			how = compressors[r.Intn(len(compressors))]
			if how == "bzip2" {
				how = "gzip"
			}
		}
		ck := pkgChunkers[r.Intn(len(pkgChunkers))]
		if len(data) > 1<<17 && (ck == "one" || ck == "tiny") {
			ck = "rand"
		}
		if err := os.Chdir(cwd); err != nil {
			panic(err)
		}
		rd := xround{Ents: ents, How: how + " " + ck + " " + spelling}
		rd.Res, rd.What = runExtract(data, arg, how, ck, r.Int63())
		os.Chdir("/")
		rd.After = withAncestors(snap(s), opaque)
		rd.After.Nodes = append(rd.After.Nodes, strays(top, s)...)
		trim(&rd.After, path == p+"/dest" || strings.HasSuffix(path, "link"), p)
		sc.Rounds = append(sc.Rounds, rd)
		if rd.Res != "ok" {
			break
		}
	}
	return sc
}

// ---- random trees and archives ----

var oddNames = []string{"sp ace", "quo\"te", "back\\slash", "né", "-rf", "a\nb", "...", "..a", "a..", "~", "*", "a ", " a", " ", "a\t", "A", "é", "e\u0301", "\xff\xfe", "a\xff", "a:b", "a.rpmnew", "\r", "TRAILER!!!", "trailer"}

type xrand struct {
	r     *rand.Rand
	p     string
	clean bool // names tell types, so clashes are rare
	names []string
}

func (x *xrand) comp(t string) string {
	r := x.r
	if r.Intn(25) == 0 {
		return oddNames[r.Intn(len(oddNames)-2)]
	}
	if r.Intn(60) == 0 {
		return strings.Repeat("n", 1+r.Intn(255))
	}
	if x.clean && r.Intn(12) > 0 {
		return fmt.Sprintf("%s%d", t[:1], r.Intn(4))
	}
	return []string{"a", "b", "c", "d", "l"}[r.Intn(5)]
}

func (x *xrand) name(t string) string {
	r := x.r
	var c []string
	if len(x.names) > 0 && r.Intn(4) == 0 {
		// below, or the same as, an earlier one
		c = append(c, x.names[r.Intn(len(x.names))])
		if r.Intn(3) == 0 {
			return c[0]
		}
		if r.Intn(3) == 0 {
			c[0] = filepath.Dir(c[0])
		}
	} else {
		for k := r.Intn(3); k > 0; k-- {
			c = append(c, x.comp([]string{"dir", "dir", "dir", "link"}[r.Intn(4)]))
		}
	}
	c = append(c, x.comp(t))
	if r.Intn(10) == 0 {
		k := r.Intn(len(c) + 1)
		extra := []string{".", "..", "", "..", "../.."}[r.Intn(5)]
		c = append(c[:k], append([]string{extra}, c[k:]...)...)
	}
	n := strings.Join(c, "/")
	if r.Intn(3) == 0 {
		n = "./" + n
	}
	if r.Intn(12) == 0 {
		n = "/" + n
	}
	if r.Intn(40) == 0 {
		n = []string{".", "", "/", "..", "../..", "./", "../../../x", "/.."}[r.Intn(8)]
	}
	if r.Intn(40) == 0 {
		n = x.p + "/out/" + n
	}
	if r.Intn(25) == 0 {
		// not the trailer, although they look like it
		n = []string{"d0/", "./", "/", "dir/"}[r.Intn(4)] + "TRAILER!!!"
		if r.Intn(4) == 0 {
			n = []string{"TRAILER!!!/", "TRAILER!!!/f0", "TRAILER!!!.x", "./x/../TRAILER!!!"}[r.Intn(4)]
		}
	}
	x.names = append(x.names, n)
	return n
}

func (x *xrand) target() string {
	r := x.r
	switch r.Intn(8) {
	case 0:
		return []string{"..", "../..", "../out", "../out/f", "../destx", "../destx/f", "../../out", "../dest", "../out/d"}[r.Intn(9)]
	case 1:
		return x.p + []string{"/out", "/out/f", "/dest", "/dest/d1", "/destx", "/dlink", "/alink/d1", "/out/new"}[r.Intn(8)]
	case 2:
		return "/" + x.comp("dir")
	case 3:
		return []string{".", "./", "nowhere", "../dest/d0", "d0/../d1", "l0", "l1", "f0"}[r.Intn(8)]
	}
	s := x.comp("dir")
	for r.Intn(2) == 0 {
		s += "/" + x.comp([]string{"dir", "file", "link"}[r.Intn(3)])
	}
	if r.Intn(4) == 0 {
		s = "../" + s
	}
	return s
}

func (x *xrand) entries(n int) []*xentry {
	r := x.r
	var ents []*xentry
	groups := map[string][]byte{}
	for k := 0; k < n; k++ {
		e := &xentry{T: []string{"dir", "dir", "file", "file", "file", "file", "link", "link", "fifo", "dev", "file"}[r.Intn(11)]}
		if r.Intn(150) == 0 {
			e.T = "bad"
		}
		if x.clean && e.T == "dev" && r.Intn(2) == 0 {
			e.T = "dir"
		}
		e.Name.Raw = x.name(e.T)
		switch e.T {
		case "file":
			size := r.Intn(12)
			if r.Intn(10) == 0 {
				size = int(randSize(r))
			}
			if r.Intn(4) == 0 {
				size = 0
			}
			e.content = []byte(fmt.Sprintf("%0*d", size, r.Intn(1000)))[:size]
			if size > 20 {
				r.Read(e.content)
			}
			if r.Intn(5) < 2 {
				e.Key = []string{"g", "h", "i"}[r.Intn(3)]
				if c, ok := groups[e.Key]; ok && r.Intn(3) > 0 {
					e.content = []byte{}
					if r.Intn(4) == 0 {
						e.content = c
					}
				} else if !ok && r.Intn(2) == 0 {
					e.content = []byte{}
				}
				if len(e.content) > 0 {
					groups[e.Key] = e.content
				}
			}
		case "link":
			e.To.Raw = x.target()
		}
		e.finish(r)
		ents = append(ents, e)
	}
	return ents
}

func runRandomExtract(top string, i int, r *rand.Rand) xscenario {
	s, p, opaque := area(top, i)
	defer finishScenario(top, s)
	x := &xrand{r: r, p: p, clean: r.Intn(3) > 0}
	w := func(rel, data string) { must(0, os.WriteFile(p+"/"+rel, []byte(data), 0644)) }
	for _, d := range []string{"out", "out/d", "destx", "out/d1"} {
		must(0, os.Mkdir(p+"/"+d, 0755))
	}
	w("out/f", "out")
	w("out/f0", "out0")
	w("destx/f", "destx")
	exists := r.Intn(4) > 0
	if exists {
		must(0, os.Mkdir(p+"/dest", 0755))
		for k := r.Intn(8); k > 0 && r.Intn(3) > 0; k-- {
			t := []string{"dir", "file", "link", "fifo", "hard"}[r.Intn(5)]
			n := p + "/dest/" + x.comp(t)
			if r.Intn(3) == 0 {
				n = p + "/dest/" + x.comp("dir") + "/" + x.comp(t)
			}
			switch t { // may fail
			case "dir":
				os.Mkdir(n, 0755)
			case "file":
				if f, err := os.OpenFile(n, os.O_CREATE|os.O_EXCL|os.O_WRONLY, 0644); err == nil {
					fmt.Fprint(f, "old", k)
					f.Close()
				}
			case "link":
				os.Symlink(x.target(), n)
			case "fifo":
				if _, err := os.Lstat(n); err != nil {
					syscall.Mkfifo(n, 0644)
				}
			case "hard":
				os.Link(p+[]string{"/out/f", "/dest/f0", "/dest/f1"}[r.Intn(3)], n)
			}
		}
	}
	spelling := spellings[r.Intn(len(spellings))]
	n := 1 + r.Intn(10)
	if r.Intn(20) == 0 {
		n = 40
	}
	ents := x.entries(n)
	if r.Intn(12) == 0 {
		spelling = "root"
		for _, e := range ents {
			if r.Intn(15) > 0 {
				e.Name = splitPath(strings.TrimPrefix(p, "/") + "/dest/" + e.Name.Raw)
			}
		}
	}
	setKeys(ents, r)
	rounds := [][]*xentry{ents}
	switch r.Intn(4) {
	case 0:
		rounds = append(rounds, ents)
	case 1:
		more := x.entries(1 + r.Intn(5))
		if spelling != "root" {
			setKeys(more, r)
			rounds = append(rounds, more)
		}
	}
	return runRounds(top, s, p, opaque, exists, rounds, spelling, r)
}

var _ = io.EOF
