package main

import (
	"bytes"
	"fmt"
	"io"
	"math/rand"
	"strings"
	"time"

	rpmutils "github.com/sassoftware/go-rpmutils"
	"github.com/sassoftware/go-rpmutils/cpio"
)

func init() {
	commands["payload-gen"] = payloadGen
	commands["payload-random"] = payloadRandom
	commands["payload-huge"] = payloadHuge
}

type pfileT struct {
	Name    string `json:"name"`
	T       string `json:"t"`
	Dev     string `json:"dev"`
	Ino     string `json:"ino"`
	Size    string `json:"size"`
	Linklen string `json:"linklen"`
	Rec     string `json:"rec"`

	f pfile
}

type pentT struct {
	K    string `json:"k"`
	Name string `json:"name"`
	Idx  int    `json:"idx"` // from 1
	Len  string `json:"len"`

	raw  string
	size int64
	link string // contents of a symlink
}

type pevent struct {
	Op   string `json:"op"`
	Res  string `json:"res"`
	Rec  string `json:"rec"`
	Link bool   `json:"link"`
	OK   bool   `json:"ok"`
	All  bool   `json:"all"`
	Len  string `json:"len"`
	What string `json:"what"`
}

type pscenario struct {
	Files []*pfileT  `json:"files"`
	Ents  []*pentT   `json:"ents"`
	Runs  [][]pevent `json:"runs"`
}

type pgen struct {
	Files []struct{ T, Dev, Ino, Size string } `json:"files"`
	Order []int                                `json:"order"`
}

// linkOf tells whether a later regular file is the same file
func linkOf(fs []*pfileT, i int) bool {
	for _, g := range fs[i+1:] {
		if fs[i].T == "reg" && g.T == "reg" && fs[i].f.ino != 0 && g.f.ino == fs[i].f.ino && g.f.dev == fs[i].f.dev {
			return true
		}
	}
	return false
}

func (f *pfileT) finish() {
	mode := map[string]uint32{"reg": cpio.S_ISREG, "dir": cpio.S_ISDIR, "link": cpio.S_ISLNK, "chr": cpio.S_ISCHR, "fifo": cpio.S_ISFIFO}[f.T]
	f.f.name = f.Name
	f.f.mode = mode | f.f.mode&07777
	f.Dev, f.Ino, f.Size = fmt.Sprint(f.f.dev), fmt.Sprint(f.f.ino), fmt.Sprint(f.f.size)
	f.Linklen = fmt.Sprint(len(f.f.link))
	f.Rec = recText(f.Name, int64(f.f.size), f.f.user, f.f.grp, int(f.f.flags), int(f.f.mtime), f.f.digest, int(f.f.mode&0xffff), f.f.link, int(f.f.dev), int(f.f.ino))
}

func recText(name string, size int64, user, grp string, flags, mtime int, digest string, mode int, link string, dev, ino int) string {
	return fmt.Sprintf("%q %d %q %q %d %d %q %o %q %d %d", name, size, user, grp, flags, mtime, digest, mode, link, dev, ino)
}

func recOf(fi rpmutils.FileInfo) string {
	return recText(fi.Name(), fi.Size(), fi.UserName(), fi.GroupName(), fi.Flags(), fi.Mtime(), fi.Digest(), fi.Mode(), fi.Linkname(), fi.Device(), fi.Inode())
}

// pent makes the entry of file i, or one that belongs to no file
func pent(fs []*pfileT, i int, strip bool, r *rand.Rand) *pentT {
	e := &pentT{K: "newc"}
	if i < 0 || i >= len(fs) {
		e.size = int64(r.Intn(5))
		if strip {
			e.K = "strip"
			e.Idx = len(fs) + 1 + []int{0, 0, 1, 70000, 0x7ffffffe - len(fs)}[r.Intn(5)]
			e.size = 0
		} else {
			e.Name = []string{"/none", "none", "", ".", "/", "//", "/d", "/d/"}[r.Intn(8)]
			if len(fs) > 0 && r.Intn(2) == 0 {
				e.Name = fs[r.Intn(len(fs))].Name + []string{"x", "/", "//"}[r.Intn(3)]
			}
			e.raw = e.Name
			if strings.HasPrefix(e.Name, "/") && r.Intn(3) > 0 {
				e.raw = "." + e.Name
			}
		}
		e.Len = fmt.Sprint(e.size)
		return e
	}
	f := fs[i]
	switch {
	case f.T == "reg" && !linkOf(fs, i):
		e.size = int64(f.f.size)
	case f.T == "link":
		e.link = f.f.link
		e.size = int64(len(e.link))
	}
	if strip {
		e.K = "strip"
		e.Idx = i + 1
	} else {
		e.Name = f.Name
		e.raw = f.Name
		if strings.HasPrefix(f.Name, "/") && r.Intn(4) > 0 {
			e.raw = "." + f.Name
		}
		if f.T == "reg" && r.Intn(6) == 0 {
			e.size = int64(r.Intn(9)) // an ordinary entry has a size of its own
		}
	}
	e.Len = fmt.Sprint(e.size)
	return e
}

func payloadScenario(fs []*pfileT, ents []*pentT, runs int, r *rand.Rand) pscenario {
	sc := pscenario{Files: fs, Ents: ents}
	if sc.Files == nil {
		sc.Files = []*pfileT{}
	}
	if sc.Ents == nil {
		sc.Ents = []*pentT{}
	}
	var ar []*centry
	var pf []pfile
	noDev := true
	for _, f := range fs {
		pf = append(pf, f.f)
		noDev = noDev && f.f.dev == 0 && f.f.ino == 0
	}
	var total int64
	for _, e := range ents {
		c := &centry{K: e.K, Size: big(e.size), name: e.raw, index: int64(e.Idx - 1)}
		c.f = randFields(r)
		if e.link != "" {
			c.raw = []byte(e.link)
		}
		c.finish()
		total += e.size
		ar = append(ar, c)
	}
	tr := &centry{K: "newc", Size: big(0), Trailer: true, name: cpio.TRAILER}
	tr.finish()
	segs, size := layout(append(ar, tr), r)
	comp := "uncompressed"
	p := &pkg{sigReserve: -1, digests: "sha256"}
	if size < 1<<20 && r.Intn(3) == 0 {
		comp = []string{"gzip", "zstd", "xz", "lzma"}[r.Intn(4)]
		p.payload = compress(comp, readSegs(segs, -1))
		segs = []seg{segBytes(p.payload)}
		p.payload = nil
	}
	long := r.Intn(3) == 0
	for _, f := range fs {
		long = long || f.f.size > 1<<32-1
	}
	p.gen = append(basicGen(), fileTags(pf, fileOpts{long: long, oldNames: r.Intn(3) == 0, noDevIno: noDev && r.Intn(2) == 0, noSlash: r.Intn(10) == 0})...)
	p.gen = append(p.gen, strTag(tagPayloadCompressor, comp))
	head := p.build()
	for k := 0; k < runs; k++ {
		ck := pkgChunkers[r.Intn(len(pkgChunkers))]
		if size > 1<<17 {
			ck = []string{"full", "rand"}[r.Intn(2)]
		}
		if size > 1<<24 {
			ck = "full"
		}
		mode := r.Intn(4)
		var seedPats []string
		for range ents {
			seedPats = append(seedPats, []string{"all", "all", "skip", "part", "partall"}[r.Intn(5)])
		}
		if mode == 0 {
			for x := range seedPats {
				seedPats[x] = "all"
			}
		}
		for x := range seedPats {
			if ents[x].size > 1<<26 && k > 0 {
				seedPats[x] = []string{"skip", "part"}[r.Intn(2)]
			}
		}
		src := chunk(&segReader{segs: append([]seg{segBytes(head)}, segs...), limit: -1}, ck, r.Int63())
		sc.Runs = append(sc.Runs, runPayload(src, ar, ents, seedPats, rand.New(rand.NewSource(r.Int63()))))
	}
	return sc
}

func runPayload(src io.Reader, ar []*centry, ents []*pentT, pats []string, r *rand.Rand) (out []pevent) {
	done := make(chan struct{})
	var ev []pevent
	go func() {
		defer close(done)
		defer func() {
			if p := recover(); p != nil {
				ev = append(ev, pevent{Op: "panic", What: fmt.Sprint(p)})
			}
		}()
		rpm, err := rpmutils.ReadRpm(src)
		if err != nil {
			ev = append(ev, pevent{Op: "header", What: err.Error()})
			return
		}
		pr, err := rpm.PayloadReaderExtended()
		if err != nil {
			ev = append(ev, pevent{Op: "open", What: err.Error()})
			return
		}
		for k := 0; ; k++ {
			fi, err := pr.Next()
			if err == io.EOF {
				ev = append(ev, pevent{Op: "next", Res: "eof"})
				if k > len(ar)+1 || r.Intn(2) == 0 {
					return
				}
				continue // keeps saying so
			} else if err != nil {
				ev = append(ev, pevent{Op: "next", Res: "err", What: err.Error()})
				return
			}
			ev = append(ev, pevent{Op: "next", Res: "ok", Rec: recOf(fi), Link: pr.IsLink()})
			if k >= len(ar) {
				return
			}
			var off int64
			read := func(n int64) {
				e := pevent{Op: "read", Res: "ok", OK: true, All: n < 0}
				buf := make([]byte, 1<<16)
				if n < 0 && r.Intn(3) == 0 {
					_, err := io.Copy(&sink{func(p []byte) {
						e.OK = e.OK && checkContentOf(ar[k], k+1, off, p)
						off += int64(len(p))
					}, -1}, pr)
					if err != nil {
						e.Res, e.What = "err", err.Error()
					}
					n = 0
				}
				for n != 0 {
					b := buf
					if n > 0 && n < int64(len(b)) {
						b = b[:n]
					}
					m, err := pr.Read(b)
					e.OK = e.OK && checkContentOf(ar[k], k+1, off, b[:m])
					off += int64(m)
					if n > 0 {
						n -= int64(m)
					}
					if err == io.EOF {
						break
					} else if err != nil {
						e.Res, e.What = "err", err.Error()
						break
					}
				}
				e.Len = fmt.Sprint(off)
				ev = append(ev, e)
			}
			switch pats[k] {
			case "all":
				read(-1)
			case "part":
				read(ents[k].size/2 + 1)
			case "partall":
				read(ents[k].size/3 + 1)
				read(-1)
			}
		}
	}()
	select {
	case <-done:
		return ev
	case <-time.After(120 * time.Second):
		hung.Store(true)
		return []pevent{{Op: "hang"}}
	}
}

var _ = bytes.Equal

// payload-gen GEN TRACE SEED
func payloadGen(args []string) error {
	gens, err := readAll[pgen](args[0])
	if err != nil {
		return err
	}
	seed := int64(atoi(args[2]))
	tr := newTrace(args[1])
	for _, sc := range parallel(len(gens), func(i int) pscenario {
		r := rand.New(rand.NewSource(seed*50021 + int64(i)))
		var fs []*pfileT
		for k, g := range gens[i].Files {
			f := &pfileT{Name: "/" + string(rune('a'+k)), T: g.T}
			f.f = pfile{dev: uint32(atoi(g.Dev)), ino: uint32(atoi(g.Ino)), size: uint64(atoi(g.Size)), mode: 0644}
			if g.T == "link" {
				f.f.link = "t" + g.Ino
			}
			f.finish()
			fs = append(fs, f)
		}
		kind := i % 3
		var ents []*pentT
		for _, o := range gens[i].Order {
			ents = append(ents, pent(fs, o-1, kind == 0 || kind == 1 && r.Intn(2) == 0, r))
		}
		return payloadScenario(fs, ents, 1, r)
	}) {
		tr.put(sc)
	}
	return tr.close()
}

// payload-huge SEED N TRACE: packages of very many files, few of which are in the payload
func payloadHuge(args []string) error {
	seed, n := int64(atoi(args[0])), atoi(args[1])
	tr := newTrace(args[2])
	for _, sc := range parallel(n, func(i int) pscenario {
		r := rand.New(rand.NewSource(seed*60017 + int64(i)))
		nf := 65530 + r.Intn(6000)
		// the files of interest, and links between them
		pick := []int{0, 1, 2, 255, 256, 32767, 32768, nf - 1, nf - 2, r.Intn(nf), r.Intn(nf)}
		for k := 65530; k < nf && k < 65542; k++ {
			pick = append(pick, k)
		}
		r.Shuffle(len(pick), func(a, b int) { pick[a], pick[b] = pick[b], pick[a] })
		pick = pick[:10+r.Intn(6)]
		ino := map[int]uint32{}
		for k := 0; k+1 < len(pick); k += 2 {
			if r.Intn(2) == 0 {
				ino[pick[k]], ino[pick[k+1]] = uint32(100000+k), uint32(100000+k)
			}
		}
		fs := make([]*pfileT, nf)
		for k := range fs {
			f := &pfileT{T: "reg", Name: fmt.Sprintf("/d%d/f%d", k*(i&1), k)}
			f.f = pfile{mode: 0644, size: uint64(k % 300), user: "u", grp: "g", digest: fmt.Sprint(k), flags: uint32(k), dev: 1, ino: uint32(k + 1)}
			if x := ino[k]; x != 0 {
				f.f.ino, f.f.size = x, 7
			}
			f.finish()
			fs[k] = f
		}
		var ents []*pentT
		for _, o := range pick {
			ents = append(ents, pent(fs, o, i%3 < 2, r))
		}
		return payloadScenario(fs, ents, 2, r)
	}) {
		tr.put(sc)
	}
	return tr.close()
}

// payload-random SEED N TRACE
func payloadRandom(args []string) error {
	seed, n := int64(atoi(args[0])), atoi(args[1])
	tr := newTrace(args[2])
	for _, sc := range parallel(n, func(i int) pscenario {
		r := rand.New(rand.NewSource(seed*60013 + int64(i)))
		nf := r.Intn(9)
		if r.Intn(12) == 0 {
			nf = 30 + r.Intn(60)
		}
		var fs []*pfileT
		inos := []uint32{0, 1, 2, 3, 0x80000000, 0xffffffff, 0x10001}
		devs := []uint32{0, 1, 2, 0x80000000, 0xffffffff, 0x10001}
		plain := r.Intn(5) == 0
		names := map[string]bool{}
		for k := 0; k < nf; k++ {
			f := &pfileT{T: []string{"reg", "reg", "reg", "reg", "dir", "link", "chr", "fifo"}[r.Intn(8)]}
			for f.Name == "" || names[f.Name] {
				f.Name = fmt.Sprintf("/%s/%s%d", []string{"usr/bin", "etc", "d", "a b"}[r.Intn(4)], []string{"f", ".f", "F", "."}[r.Intn(4)], r.Intn(nf*3))
				if plain {
					f.Name = []string{"", "", ".", ".."}[r.Intn(4)] + fmt.Sprintf("f%d.spec", r.Intn(nf+1))
				}
			}
			names[f.Name] = true
			f.f = pfile{mode: uint32(r.Intn(4096)), size: uint64(randSize(r)), user: fmt.Sprint("u", k), grp: fmt.Sprint("g", k), digest: fmt.Sprint("d", k), flags: uint32(k), mtime: r.Uint32()}
			if r.Intn(3) > 0 {
				f.f.dev = devs[r.Intn(len(devs))]
			}
			if r.Intn(4) > 0 {
				f.f.ino = inos[r.Intn(len(inos))]
			}
			if f.T == "link" {
				f.f.link = strings.Repeat("x", 1+r.Intn(30))
				if r.Intn(3) > 0 {
					f.f.size = uint64(len(f.f.link))
				}
			}
			f.finish()
			fs = append(fs, f)
		}
		if nf > 0 && i%100 == 7 {
			f := fs[r.Intn(nf)]
			f.T = "reg"
			f.f.size = []uint64{1 << 32, 1<<32 + 5, 1<<31 + 1}[r.Intn(3)]
			f.finish()
		}
		order := r.Perm(nf)
		if r.Intn(2) == 0 {
			for k := range order {
				order[k] = k
			}
		}
		if r.Intn(4) == 0 && nf > 0 {
			order = order[:r.Intn(nf)] // ghosts are not in the payload
		}
		if r.Intn(6) == 0 {
			order = append(order, nf)
			x, y := r.Intn(len(order)), len(order)-1
			order[x], order[y] = order[y], order[x]
		}
		kind := r.Intn(3)
		var ents []*pentT
		for _, o := range order {
			strip := kind == 0 || kind == 1 && r.Intn(2) == 0
			if o < nf && fs[o].f.size >= 1<<32 {
				strip = true
			}
			e := pent(fs, o, strip, r)
			ents = append(ents, e)
		}
		return payloadScenario(fs, ents, 2, r)
	}) {
		tr.put(sc)
	}
	return tr.close()
}
