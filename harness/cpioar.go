package main

import (
	"bytes"
	"errors"
	"fmt"
	"io"
	"math/rand"
	"time"

	"github.com/sassoftware/go-rpmutils/cpio"
)

// numbers for the specification: <<hi, lo>> base 2^28
const bigBase = 1 << 28

func big(n int64) []int { return []int{int(n / bigBase), int(n % bigBase)} }
func unbig(b []int) int64 {
	if len(b) == 0 {
		return -1
	}
	return int64(b[0])*bigBase + int64(b[1])
}

// archive entry as the specification sees it
type centry struct {
	K       string `json:"k"`
	Nlen    int    `json:"nlen"`
	Size    []int  `json:"size"`
	Trailer bool   `json:"trailer"`
	Hdr     any    `json:"hdr"`

	name  string
	index int64
	f     [13]uint32
	raw   []byte // contents if not generated
}

type chdr struct {
	Magic string   `json:"magic"`
	F     []string `json:"f,omitempty"`
	Name  string   `json:"name"`
	Strip bool     `json:"strip"`
	Idx   string   `json:"idx"`
	S64   string   `json:"s64"`
}

const (
	fIno = iota
	fMode
	fUid
	fGid
	fNlink
	fMtime
	fFilesize
	fDevmajor
	fDevminor
	fRdevmajor
	fRdevminor
	fNamesize
	fCheck
)

func q(s string) string { return fmt.Sprintf("%+q", s) }

func observeHeader(h *cpio.Cpio_newc_header) chdr {
	o := chdr{Magic: h.Magic(), Name: q(h.Filename()), Strip: h.IsStripped(), S64: fmt.Sprint(h.Filesize64())}
	if h.IsStripped() {
		o.Idx = fmt.Sprint(h.Index())
		return o
	}
	for _, v := range []int{h.Ino(), h.Mode(), h.Uid(), h.Gid(), h.Nlink(), h.Mtime(), h.Filesize(), h.Devmajor(),
		h.Devminor(), h.Rdevmajor(), h.Rdevminor(), h.Namesize(), h.Check()} {
		o.F = append(o.F, fmt.Sprintf("%08x", v))
	}
	return o
}

// finish derives the header that a reader has to report
func (e *centry) finish() {
	size := unbig(e.Size)
	if e.K == "strip" {
		e.Hdr = chdr{Magic: "07070X", Name: q(""), Strip: true, Idx: fmt.Sprint(e.index), S64: fmt.Sprint(size)}
		if size < 0 {
			e.Hdr = chdr{}
		}
		return
	}
	e.Nlen = len(e.name) + 1
	e.f[fFilesize] = uint32(size)
	e.f[fNamesize] = uint32(e.Nlen)
	h := chdr{Magic: "070701", Name: q(e.name), S64: fmt.Sprint(size)}
	for _, v := range e.f {
		h.F = append(h.F, fmt.Sprintf("%08x", v))
	}
	e.Hdr = h
}

func (e *centry) headBytes(r *rand.Rand) []byte {
	var b bytes.Buffer
	hex := func(v uint32) {
		if r != nil && r.Intn(2) == 0 {
			fmt.Fprintf(&b, "%08X", v)
		} else {
			fmt.Fprintf(&b, "%08x", v)
		}
	}
	if e.K == "strip" {
		b.WriteString("07070X")
		hex(uint32(e.index))
		return b.Bytes()
	}
	b.WriteString("070701")
	for _, v := range e.f {
		hex(v)
	}
	b.WriteString(e.name)
	b.WriteByte(0)
	for b.Len()%4 != 0 {
		b.WriteByte(0)
	}
	return b.Bytes()
}

// contents: byte o of entry n (from 1); the first bytes follow a formula that the
// specification knows too
const formulaLen = 64

var noise = func() []byte {
	b := make([]byte, 65521)
	rand.New(rand.NewSource(42)).Read(b)
	return b
}()

func fillContent(n int, off int64, p []byte) {
	i := 0
	for ; i < len(p) && off+int64(i) < formulaLen; i++ {
		p[i] = byte((n*37 + int(off+int64(i))*11 + 7) % 256)
	}
	for i < len(p) {
		o := (off + int64(i) + int64(n)*7919) % int64(len(noise))
		i += copy(p[i:], noise[o:])
	}
}

func contentOf(n int, size int64) []byte {
	b := make([]byte, size)
	fillContent(n, 0, b)
	return b
}

func checkContent(n int, off int64, p []byte) bool {
	var buf [65536]byte
	for len(p) > 0 {
		c := len(p)
		if c > len(buf) {
			c = len(buf)
		}
		fillContent(n, off, buf[:c])
		if !bytes.Equal(buf[:c], p[:c]) {
			return false
		}
		p, off = p[c:], off+int64(c)
	}
	return true
}

// a stream made of literal and generated pieces, cut at limit
type seg struct {
	b    []byte
	n    int // entry, for generated contents
	size int64
}

type segReader struct {
	segs  []seg
	i     int
	off   int64
	limit int64 // bytes left, <0 unlimited
}

func (s *segReader) Read(p []byte) (int, error) {
	n := 0
	for n < len(p) {
		if s.i >= len(s.segs) || s.limit == 0 {
			break
		}
		sg := s.segs[s.i]
		left := sg.size - s.off
		if left == 0 {
			s.i++
			s.off = 0
			continue
		}
		c := int64(len(p) - n)
		if c > left {
			c = left
		}
		if s.limit >= 0 && c > s.limit {
			c = s.limit
		}
		if sg.b != nil {
			copy(p[n:n+int(c)], sg.b[s.off:])
		} else {
			fillContent(sg.n, s.off, p[n:n+int(c)])
		}
		n += int(c)
		s.off += c
		if s.limit > 0 {
			s.limit -= c
		}
	}
	if n == 0 && len(p) > 0 {
		return 0, io.EOF
	}
	return n, nil
}

func segBytes(b []byte) seg { return seg{b: append([]byte{}, b...), size: int64(len(b))} }

// layout of an archive; unknown sizes are laid out with `hidden` bytes
func layout(ar []*centry, r *rand.Rand) (segs []seg, total int64) {
	for i, e := range ar {
		h := e.headBytes(r)
		segs = append(segs, segBytes(h))
		total += int64(len(h))
		size := unbig(e.Size)
		if size < 0 {
			size = 4
		}
		if e.raw != nil {
			segs = append(segs, segBytes(e.raw))
		} else if size > 0 {
			segs = append(segs, seg{n: i + 1, size: size})
		}
		total += size
		if pad := (4 - total%4) % 4; pad > 0 {
			segs = append(segs, segBytes(make([]byte, pad)))
			total += pad
		}
	}
	return segs, total
}

// ---- chunkers: how the stream is split into reads ----

var chunkers = []string{"full", "one", "rand", "tiny", "dataerr", "zero", "half"}

// those without reads that return nothing, which some decompression libraries refuse
var pkgChunkers = []string{"full", "one", "rand", "tiny", "dataerr", "half"}

type chunker struct {
	r    io.Reader
	kind string
	rnd  *rand.Rand
	next []byte // lookahead for dataerr
	flip bool
	done bool
}

func chunk(r io.Reader, kind string, seed int64) io.Reader {
	if kind == "full" {
		return r
	}
	return &chunker{r: r, kind: kind, rnd: rand.New(rand.NewSource(seed))}
}

func (c *chunker) Read(p []byte) (int, error) {
	if len(p) == 0 {
		return 0, nil
	}
	n := len(p)
	switch c.kind {
	case "one":
		n = 1
	case "rand":
		n = 1 + c.rnd.Intn(n)
	case "half":
		n = (n + 1) / 2
	case "tiny":
		if n > 7 {
			n = 7
		}
		n = 1 + c.rnd.Intn(n)
	case "zero":
		c.flip = !c.flip
		if c.flip {
			return 0, nil
		}
		n = 1 + c.rnd.Intn(n)
	case "dataerr":
		// the end comes together with the last data
		if c.next == nil && !c.done {
			b := make([]byte, 1)
			m, _ := io.ReadFull(c.r, b)
			c.next = b[:m]
			c.done = m == 0
		}
		if len(c.next) == 0 {
			return 0, io.EOF
		}
		if n > 1 && c.rnd.Intn(3) == 0 {
			n = 1 + c.rnd.Intn(n)
		}
		m := copy(p[:n], c.next)
		k, _ := io.ReadFull(c.r, p[m:n])
		m += k
		b := make([]byte, 1)
		j, _ := io.ReadFull(c.r, b)
		c.next = b[:j]
		if j == 0 {
			c.done = true
			return m, io.EOF
		}
		return m, nil
	}
	return c.r.Read(p[:n])
}

// ---- running a consumer program ----

type cevent struct {
	Op   string `json:"op"`
	Res  string `json:"res,omitempty"`
	Hdr  any    `json:"hdr,omitempty"`
	Want []int  `json:"want,omitempty"`
	M    []int  `json:"m,omitempty"`
	OK   *bool  `json:"ok,omitempty"`
	Data *[]int `json:"data,omitempty"`
	Err  string `json:"err,omitempty"`
	What string `json:"what,omitempty"`
}

type crun struct {
	Cut   []int    `json:"cut"`
	Chunk string   `json:"chunk"`
	Api   string   `json:"api"`
	Pat   []string `json:"pat"`
	Soft  bool     `json:"soft"`
	Ev    []cevent `json:"ev"`
}

// archiveAPI is what the readers have in common
type archiveAPI interface {
	Next() (hdr any, err error)
	Read([]byte) (int, error)
}

type readerAPI struct{ *cpio.Reader }

func (a readerAPI) Next() (any, error) {
	h, err := a.Reader.Next()
	if err != nil {
		return nil, err
	}
	return observeHeader(h), nil
}

type streamAPI struct{ s *cpio.CpioStream }

func (a streamAPI) Next() (any, error) {
	e, err := a.s.ReadNextEntry()
	if err != nil {
		return nil, err
	}
	if e.Header.Filename() == cpio.TRAILER {
		return nil, io.EOF
	}
	return observeHeader(e.Header), nil
}
func (a streamAPI) Read([]byte) (int, error) { return 0, nil }

func errName(err error) string {
	switch {
	case err == nil:
		return "nil"
	case err == io.EOF:
		return "eof"
	}
	return "err"
}

// sink is what is copied to; it fails when left bytes have been written, unless left < 0
type sink struct {
	f    func([]byte)
	left int
}

var errFull = errors.New("full")

func (s *sink) Write(p []byte) (int, error) {
	if s.left >= 0 && len(p) > s.left {
		n := s.left
		s.left = 0
		s.f(p[:n])
		return n, errFull
	}
	if s.left >= 0 {
		s.left -= len(p)
	}
	s.f(p)
	return len(p), nil
}

// guard runs f and reports a panic or hang as an event that no specification allows
func guard(limit time.Duration, f func(emit func(cevent))) []cevent {
	var ev []cevent
	done := make(chan struct{})
	var p any
	go func() {
		defer close(done)
		defer func() { p = recover() }()
		f(func(e cevent) { ev = append(ev, e) })
	}()
	t := time.NewTimer(limit)
	defer t.Stop()
	select {
	case <-done:
		if p != nil {
			ev = append(ev, cevent{Op: "panic", What: fmt.Sprint(p)})
		}
		return ev
	case <-t.C:
		// ev is still in use by the goroutine
		hung.Store(true)
		return []cevent{{Op: "hang"}}
	}
}

type cprog struct {
	pat      []string // per entry
	before   bool     // read before the first Next
	skipOnly bool
}

// consume runs the program until the archive ends or fails
func consume(a archiveAPI, ar []*centry, prog cprog, rnd *rand.Rand, emit func(cevent)) {
	cur := 0
	var off int64
	read := func(n int) (int, error) {
		buf := make([]byte, n)
		m, err := a.Read(buf)
		e := cevent{Op: "read", Want: big(int64(n)), M: big(int64(m)), Err: errName(err)}
		if m < 0 || m > n {
			e.What = "impossible count"
			e.M = big(int64(n) + 1)
			m = 0
		}
		if cur > 0 {
			observeData(&e, ar[cur-1], cur, off, buf[:m])
		}
		off += int64(m)
		emit(e)
		return m, err
	}
	next := func() error {
		h, err := a.Next()
		switch {
		case err == nil:
			cur++
			off = 0
			if cur > len(ar) {
				emit(cevent{Op: "next", Res: "too many"})
				return io.ErrNoProgress
			}
			emit(cevent{Op: "next", Res: "ok", Hdr: h})
		case err == io.EOF:
			emit(cevent{Op: "next", Res: "eof"})
		default:
			emit(cevent{Op: "next", Res: "err", What: err.Error()})
		}
		return err
	}
	if prog.before && !prog.skipOnly {
		read(3)
	}
	for {
		if err := next(); err == io.EOF {
			break
		} else if err != nil {
			return
		}
		if prog.skipOnly {
			continue
		}
		e := ar[cur-1]
		size := unbig(e.Size)
		pat := "all"
		if cur-1 < len(prog.pat) {
			pat = prog.pat[cur-1]
		}
		// reads until an error that is not the end; true if the run is over
		until := func(n int) bool {
			for k := 0; ; k++ {
				m, err := read(n)
				if err == io.EOF {
					return false
				} else if err != nil {
					return true
				}
				_ = m
			}
		}
		stop := false
		switch pat {
		case "skip":
		case "zero":
			_, err := read(0)
			stop = err != nil && err != io.EOF
		case "part":
			_, err := read(int(size/2) + 1)
			stop = err != nil && err != io.EOF
		case "one":
			_, err := read(1)
			stop = err != nil && err != io.EOF
		case "bytes":
			stop = until(1)
		case "threes":
			stop = until(3)
		case "over":
			if stop = until(int(size) + 3); !stop {
				_, err := read(2)
				stop = err != nil && err != io.EOF
			}
		case "lost":
			// the consumer cannot take it all, and does not know how much of it was read
			at, ok := off, true
			io.Copy(&sink{func(p []byte) {
				ok = ok && checkContentOf(e, cur, at, p)
				at += int64(len(p))
			}, rnd.Intn(int(min(size, 1<<17)) + 1)}, a)
			if !ok || at > size {
				emit(cevent{Op: "lost", What: "other bytes"})
			}
			off = at
		case "big":
			stop = until([]int{4096, 32768, 65536, 1 << 20}[rnd.Intn(4)])
		case "random":
			for k := rnd.Intn(6); k > 0 && !stop; k-- {
				n := 1 + rnd.Intn(12)
				if rnd.Intn(2) == 0 {
					n = 1 + rnd.Intn(int(size)+2)
				}
				_, err := read(n)
				stop = err != nil && err != io.EOF
				if err == io.EOF && rnd.Intn(2) == 0 {
					break
				}
			}
		default: // all, rest, twice
			if pat == "rest" {
				// a look at the beginning first, then a copy of the rest
				if _, err := read(int(size)/(2+rnd.Intn(8)) + 1); err != nil && err != io.EOF {
					return
				}
			}
		again:
			ev := cevent{Op: "all", Err: "nil"}
			var total int64
			ok := true
			var small []byte
			got := func(p []byte) {
				if cur > 0 && len(p) > 0 {
					ok = ok && checkContentOf(e, cur, off+total, p)
					if len(small) <= 48 {
						small = append(small, p...)
					}
				}
				total += int64(len(p))
			}
			buf := make([]byte, 1<<16)
			if rnd.Intn(3) == 0 {
				// as most would do it; the reader may have its own way of copying
				if m, err := io.Copy(&sink{got, -1}, a); err != nil {
					ev.Err = "err"
				} else if m != total {
					ev.Err = "wrong count"
				}
				buf = nil
			}
			for zero := 0; buf != nil; {
				m, err := a.Read(buf)
				got(buf[:m])
				if err == io.EOF {
					break
				} else if err != nil {
					ev.Err = "err"
					break
				}
				if m == 0 {
					if zero++; zero > 10000 {
						ev.Err = "no progress"
						break
					}
				} else {
					zero = 0
				}
			}
			ev.M = big(total)
			if total <= 48 && off+total <= formulaLen && e.raw == nil {
				d := ints(small)
				ev.Data = &d
			} else {
				ev.OK = &ok
			}
			off += total
			emit(ev)
			stop = ev.Err != "nil"
			if pat == "twice" && !stop {
				pat = "all"
				goto again
			}
		}
		if stop {
			return
		}
	}
	if prog.skipOnly {
		return
	}
	// asking again after the end
	next()
	cur2 := cur
	cur = 0
	read(4)
	cur = cur2
	next()
}

func checkContentOf(e *centry, n int, off int64, p []byte) bool {
	if e.raw == nil {
		return checkContent(n, off, p)
	}
	return off+int64(len(p)) <= int64(len(e.raw)) && bytes.Equal(e.raw[off:off+int64(len(p))], p)
}

func observeData(ev *cevent, e *centry, n int, off int64, p []byte) {
	if len(p) <= 48 && off+int64(len(p)) <= formulaLen && e.raw == nil {
		d := ints(p)
		ev.Data = &d
	} else {
		ok := checkContentOf(e, n, off, p)
		ev.OK = &ok
	}
}

// ---- scenarios ----

type cscenario struct {
	Ar   []*centry `json:"ar"`
	Runs []crun    `json:"runs"`
}

// what GenCpio emits
type cgen struct {
	Ar   []*centry `json:"ar"`
	Pat  []string  `json:"pat"`
	Cuts [][]int   `json:"cuts"`
}

func randFields(r *rand.Rand) (f [13]uint32) {
	for i := range f {
		switch r.Intn(5) {
		case 0:
			f[i] = 0
		case 1:
			f[i] = []uint32{1, 0x7fffffff, 0x80000000, 0xffffffff, 0x10000, 0xffff, 0xfffffffe}[r.Intn(7)]
		default:
			f[i] = r.Uint32()
		}
	}
	return f
}

var nearTrailers = []string{"TRAILER!!", "TRAILER!!!x", "./TRAILER!!!", "trailer!!!", "TRAILER!!! ", " TRAILER!!!", "/TRAILER!!!", "TRAILER???", "TRAILER!!!/", "TRAILER!!!\x00", "TRAILER!!!\x00x"}

const nameChars = "abcdefghijklmnopqrstuvwxyz0123456789._-/ABC\xc3\xa9 "

func randName(r *rand.Rand, n int) string {
	if n == 10 && r.Intn(2) == 0 {
		return "trailer!!!"
	}
	b := make([]byte, n)
	for i := range b {
		b[i] = nameChars[r.Intn(len(nameChars))]
	}
	return string(b)
}

// prepare completes entries that come from the specification
func prepare(ar []*centry, r *rand.Rand) (sizes []int64) {
	// supplied sizes: a list in which every stripped entry has its own index
	strips := 0
	for _, e := range ar {
		if e.K == "strip" && len(e.Size) > 0 {
			strips++
		}
	}
	extra := r.Intn(3)
	if r.Intn(25) == 0 {
		extra = 65536 + r.Intn(6000)
	}
	sizes = make([]int64, strips+extra)
	for i := range sizes {
		sizes[i] = int64(1000 + i)
	}
	perm := r.Perm(len(sizes))
	n := 0
	for _, e := range ar {
		switch {
		case e.K == "strip" && len(e.Size) > 0:
			e.index = int64(perm[n])
			sizes[e.index] = unbig(e.Size)
			n++
		case e.K == "strip":
			// no size was supplied for this index
			e.index = int64(len(sizes)) + []int64{0, 0, 1, 1000, int64(0x7fffffff - len(sizes)), int64(0xffffffff) - int64(len(sizes))}[r.Intn(6)]
		case e.Trailer:
			e.name = cpio.TRAILER
			if r.Intn(2) == 0 {
				e.f = randFields(r)
			} else {
				e.f[fNlink] = 1
			}
		default:
			e.f = randFields(r)
			if e.name == "" && e.Nlen > 1 {
				e.name = randName(r, e.Nlen-1)
			}
		}
	}
	for _, e := range ar {
		e.finish()
	}
	return sizes
}

func openArchive(api string, r io.Reader, sizes []int64) archiveAPI {
	if api == "stream" {
		s := cpio.NewCpioStream(r)
		s.SetFileSizes(sizes)
		return streamAPI{s}
	}
	if sizes == nil {
		return readerAPI{cpio.NewReader(r)}
	}
	return readerAPI{cpio.NewReaderWithSizes(r, sizes)}
}

type copts struct {
	api      string
	chunk    string
	cut      int64 // <0: none
	prog     cprog
	seed     int64
	sizes    []int64
	limit    time.Duration
	compress string
}

func runArchive(ar []*centry, segs []seg, o copts) crun {
	run := crun{Chunk: o.chunk, Api: o.api, Pat: o.prog.pat, Cut: []int{}}
	if o.cut >= 0 {
		run.Cut = big(o.cut)
	}
	if o.limit == 0 {
		o.limit = 60 * time.Second
	}
	run.Ev = guard(o.limit, func(emit func(cevent)) {
		rnd := rand.New(rand.NewSource(o.seed))
		lim := int64(-1)
		if o.cut >= 0 {
			lim = o.cut
		}
		src := chunk(&segReader{segs: segs, limit: lim}, o.chunk, o.seed)
		o.prog.skipOnly = o.api == "stream"
		consume(openArchive(o.api, src, o.sizes), ar, o.prog, rnd, emit)
	})
	return run
}

func init() {
	commands["cpio-gen"] = cpioGen
	commands["cpio-random"] = cpioRandom
	commands["cpio-nosizes"] = cpioNoSizes
}

// cpio-gen GEN TRACE SEED MODE: executes emitted scenarios; MODE is "whole", "cuts"
// (the emitted cut positions) or "allcuts" (every position)
func cpioGen(args []string) error {
	gens, err := readAll[cgen](args[0])
	if err != nil {
		return err
	}
	seed, mode := int64(atoi(args[2])), args[3]
	tr := newTrace(args[1])
	for _, sc := range parallel(len(gens), func(i int) cscenario {
		g := gens[i]
		rnd := rand.New(rand.NewSource(seed*1000003 + int64(i)))
		sizes := prepare(g.Ar, rnd)
		hasStrip := false
		for _, e := range g.Ar {
			hasStrip = hasStrip || e.K == "strip"
		}
		if !hasStrip && rnd.Intn(2) == 0 {
			sizes = nil
		}
		segs, total := layout(g.Ar, rnd)
		sc := cscenario{Ar: g.Ar}
		one := func(cut int64, chunk, api string) {
			sc.Runs = append(sc.Runs, runArchive(g.Ar, segs, copts{api: api, chunk: chunk, cut: cut, sizes: sizes,
				prog: cprog{pat: g.Pat, before: rnd.Intn(4) == 0}, seed: rnd.Int63()}))
		}
		switch mode {
		case "whole":
			one(-1, chunkers[i%len(chunkers)], "reader")
			if i%5 == 0 {
				one(-1, chunkers[rnd.Intn(len(chunkers))], "stream")
			}
		case "cuts":
			for _, c := range g.Cuts {
				one(unbig(c), chunkers[rnd.Intn(len(chunkers))], "reader")
			}
		case "allcuts":
			for c := int64(0); c <= total; c++ {
				one(c, chunkers[rnd.Intn(len(chunkers))], "reader")
			}
		}
		return sc
	}) {
		tr.put(sc)
	}
	return tr.close()
}

var randPats = []string{"skip", "all", "part", "one", "over", "random", "random", "zero", "big", "lost", "rest", "rest", "twice"}

// cpio-random SEED N TRACE KIND: larger random archives; KIND is newc, strip or cut
func cpioRandom(args []string) error {
	seed, n, kind := int64(atoi(args[0])), atoi(args[1]), args[3]
	tr := newTrace(args[2])
	for _, sc := range parallel(n, func(i int) cscenario {
		r := rand.New(rand.NewSource(seed*7368787 + int64(i)))
		ar := randArchive(r, kind, i)
		sizes := prepare(ar, r)
		if kind == "newc" && r.Intn(2) == 0 {
			sizes = nil
		}
		segs, total := layout(ar, r)
		sc := cscenario{Ar: ar}
		runs := 2
		if kind == "cut" {
			runs = 6
		}
		for k := 0; k < runs; k++ {
			o := copts{api: "reader", chunk: chunkers[r.Intn(len(chunkers))], cut: -1, sizes: sizes, seed: r.Int63()}
			if total > 1<<20 {
				o.chunk = []string{"full", "rand", "half"}[r.Intn(3)]
				if total > 1<<27 {
					o.chunk = "full"
				}
			}
			all := r.Intn(4)
			for _, e := range ar {
				p := randPats[r.Intn(len(randPats))]
				switch all {
				case 0:
					p = "all"
				case 1:
					p = "skip"
				}
				if unbig(e.Size) > 1<<26 && !(p == "all" || p == "skip" || p == "one" || p == "zero") {
					p = "one"
				}
				if (o.chunk == "one" || o.chunk == "tiny") && unbig(e.Size) > 600 && (p == "over" || p == "big") {
					p = "all" // one event instead of thousands
				}
				o.prog.pat = append(o.prog.pat, p)
			}
			if kind == "cut" {
				o.cut = r.Int63n(total + 1)
				if r.Intn(2) == 0 {
					// near a boundary
					var at int64
					for x := r.Intn(len(segs)); x >= 0; x-- {
						at += segs[x].size
					}
					o.cut = at + int64(r.Intn(7)) - 3
					if o.cut < 0 {
						o.cut = 0
					}
				}
				if o.cut > total {
					o.cut = total
				}
			} else if r.Intn(6) == 0 {
				o.api = "stream"
			}
			if r.Intn(5) == 0 {
				o.prog.before = true
			}
			sc.Runs = append(sc.Runs, runArchive(ar, segs, o))
		}
		return sc
	}) {
		tr.put(sc)
	}
	return tr.close()
}

func randSize(r *rand.Rand) int64 {
	switch r.Intn(8) {
	case 0:
		return 0
	case 1, 2:
		return int64(r.Intn(20))
	case 3:
		return int64(r.Intn(4)) + []int64{511, 4095, 32767, 65535, 8191}[r.Intn(5)] - 1
	case 4:
		return int64(r.Intn(300000))
	}
	return int64(r.Intn(700))
}

func randArchive(r *rand.Rand, kind string, i int) []*centry {
	var ar []*centry
	n := r.Intn(7)
	if r.Intn(15) == 0 {
		n = 20 + r.Intn(20)
	}
	for k := 0; k < n; k++ {
		e := &centry{K: "newc", Size: big(randSize(r))}
		nl := 1 + r.Intn(24)
		if r.Intn(10) == 0 {
			nl = []int{1, 100, 255, 256, 257, 1000, 4095, 4096, 4097}[r.Intn(9)]
		}
		e.Nlen = nl + 1
		e.name = randName(r, nl)
		if r.Intn(12) == 0 {
			e.name = nearTrailers[r.Intn(len(nearTrailers))]
		}
		if kind == "strip" && r.Intn(4) > 0 {
			e.K = "strip"
			if r.Intn(25) == 0 {
				e.Size = []int{}
			}
		}
		ar = append(ar, e)
	}
	if kind == "strip" && i%40 == 0 && n > 0 {
		// beyond 4 GiB
		e := ar[r.Intn(n)]
		e.K = "strip"
		e.Size = big([]int64{1 << 32, 1<<32 + 1, 1<<32 - 1, 5<<30 + 3, 1 << 33, 1<<31 + 5, 1<<32 + 4094}[r.Intn(7)])
	}
	if kind != "strip" && i%80 == 0 && n > 0 {
		e := ar[r.Intn(n)]
		e.Size = big([]int64{1 << 31, 1<<31 - 1, 1<<32 - 1, 1<<32 - 2, 3 << 30}[r.Intn(5)])
	}
	ar = append(ar, &centry{K: "newc", Size: big(0), Trailer: true, Nlen: 11})
	return ar
}

// cpio-nosizes SEED TRACE: stripped archives for which no sizes are supplied
func cpioNoSizes(args []string) error {
	seed := int64(atoi(args[0]))
	tr := newTrace(args[1])
	for i := 0; i < 300; i++ {
		r := rand.New(rand.NewSource(seed*31 + int64(i)))
		ar := randArchive(r, "strip", 1)
		for _, e := range ar {
			if e.K == "strip" {
				e.Size = []int{}
			}
		}
		prepare(ar, r)
		for _, e := range ar {
			if e.K == "strip" && r.Intn(2) == 0 {
				e.index = int64(r.Intn(3))
			}
		}
		var sizes []int64
		if i%5 == 0 {
			sizes = []int64{}
		}
		segs, _ := layout(ar, r)
		sc := cscenario{Ar: ar}
		for _, pat := range []string{"skip", "all"} {
			o := copts{api: "reader", chunk: chunkers[r.Intn(len(chunkers))], cut: -1, sizes: sizes, seed: r.Int63()}
			for range ar {
				o.prog.pat = append(o.prog.pat, pat)
			}
			sc.Runs = append(sc.Runs, runArchive(ar, segs, o))
		}
		tr.put(sc)
	}
	return tr.close()
}
