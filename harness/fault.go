package main

import (
	"bytes"
	"context"
	"errors"
	"fmt"
	"io"
	"io/fs"
	"math/rand"
	"os"
	"strings"
	"syscall"
	"time"

	rpmutils "github.com/sassoftware/go-rpmutils"
	"github.com/sassoftware/go-rpmutils/cpio"
)

func init() {
	commands["retry"] = retryRandom
	commands["fault-read"] = faultRead
	commands["fault-extract"] = func(args []string) error { return extractSharded("fault", args) }
}

type eofError struct{}

func (eofError) Error() string   { return "EOF" }
func (eofError) Timeout() bool   { return true }
func (eofError) Temporary() bool { return true }

// what a stream may say when it fails
var faults = []error{errors.New("input/output error"), fmt.Errorf("network: %w", io.EOF), io.ErrUnexpectedEOF, os.ErrClosed, io.ErrNoProgress,
	io.ErrClosedPipe, io.ErrShortBuffer, io.ErrShortWrite, context.Canceled, eofError{}, &fs.PathError{Op: "read", Path: "x", Err: syscall.EIO},
	syscall.EINTR, syscall.EAGAIN, os.ErrDeadlineExceeded, cpio.ErrStrippedHeader, os.ErrNotExist, fs.SkipAll, rpmutils.NewNoSuchTagError(1000),
	fmt.Errorf("wrapped: %w", io.ErrUnexpectedEOF), errors.Join(io.EOF, errors.New("also this"))}

// failReader fails at the given places, each time once, but for the last one if always
type failReader struct {
	b      []byte
	pos    int
	at     []int
	err    error
	with   bool // together with the last bytes before
	always bool
	fired  bool
	chunk  string
	rnd    *rand.Rand
}

func (f *failReader) fire() error {
	f.fired = true
	if !f.always || len(f.at) > 1 {
		f.at = f.at[1:]
	}
	return f.err
}

func (f *failReader) Read(p []byte) (int, error) {
	if len(p) == 0 {
		return 0, nil
	}
	if len(f.at) > 0 && f.pos >= f.at[0] {
		return 0, f.fire()
	}
	n := min(len(p), len(f.b)-f.pos)
	if n == 0 {
		return 0, io.EOF
	}
	switch f.chunk {
	case "one":
		n = 1
	case "rand":
		n = 1 + f.rnd.Intn(n)
	case "half":
		n = (n + 1) / 2
	}
	if len(f.at) > 0 {
		n = min(n, f.at[0]-f.pos)
	}
	copy(p, f.b[f.pos:f.pos+n])
	f.pos += n
	if len(f.at) > 0 && f.pos == f.at[0] && f.with {
		return n, f.fire()
	}
	return n, nil
}

// -- going on after errors ---------------------------------------------------

type tentry struct {
	Size    int    `json:"size"`
	Trailer bool   `json:"trailer"`
	Hdr     string `json:"hdr"`
}

type tevent struct {
	Op    string `json:"op"`
	Fired bool   `json:"fired"`
	Res   string `json:"res,omitempty"`
	Hdr   string `json:"hdr,omitempty"`
	Want  int    `json:"want"`
	M     int    `json:"m"`
	OK    bool   `json:"ok"`
	Err   string `json:"err,omitempty"`
	What  string `json:"what,omitempty"`
}

type trun struct {
	Api   string   `json:"api"`
	At    []int    `json:"at"`
	Fault string   `json:"fault"`
	With  bool     `json:"with"`
	Keep  bool     `json:"keep"`
	Soft  bool     `json:"soft"`
	Cut   bool     `json:"cut"` // not read any further
	Ev    []tevent `json:"ev"`
}

type tretry struct {
	Ar   []tentry `json:"ar"`
	Runs []trun   `json:"runs"`
}

// persist uses the reader until the archive ends or it has failed too often; soft: until it has
// failed once (what the decompression libraries deliver after an error is theirs)
func persist(a archiveAPI, f *failReader, ar []*centry, readable bool, soft bool, r *rand.Rand, emit func(tevent)) (cut bool) {
	cur, off, bad := 0, 0, 0
	lazy := r.Intn(4)
	for calls := 0; calls < 150 && bad < 8; calls++ {
		left := 0
		if cur > 0 {
			left = int(unbig(ar[cur-1].Size)) - off
		}
		if !readable || left <= 0 && r.Intn(5) > 0 || r.Intn(4) < lazy {
			h, err := a.Next()
			e := tevent{Op: "next", Fired: f.fired, Res: "ok", Hdr: oneString(h)}
			switch {
			case err == nil:
				cur++
				off = 0
				if cur > len(ar) {
					e.Res = "too many"
					emit(e)
					return false
				}
			case err == io.EOF:
				e.Res, e.Hdr = "eof", ""
				emit(e)
				if readable && r.Intn(3) == 0 {
					bad += 3
					continue
				}
				return false
			default:
				e.Res, e.Hdr, e.What = "err", "", err.Error()
				bad++
			}
			emit(e)
			if soft && err != nil {
				return false
			}
			continue
		}
		n := []int{1, 1 + r.Intn(8), left + 1, left + 100, 1 + r.Intn(left+2), 0}[r.Intn(6)]
		if n < 0 {
			n = 1
		}
		if r.Intn(6) == 0 {
			e := tevent{Op: "read", OK: true, Want: left + 1, Err: "eof"}
			m, err := io.Copy(&sink{func(p []byte) {
				e.OK = e.OK && (cur == 0 || checkContentOf(ar[cur-1], cur, int64(off), p))
				off += len(p)
			}, -1}, a)
			e.Fired, e.M = f.fired, int(m)
			if err != nil {
				e.Err, e.What = "err", err.Error()
				bad++
			}
			emit(e)
			if soft && err != nil {
				return false
			}
			continue
		}
		buf := make([]byte, n)
		m, err := a.Read(buf)
		e := tevent{Op: "read", Fired: f.fired, Want: n, M: m, Err: errName(err)}
		if err != nil && err != io.EOF {
			e.What = err.Error()
			bad++
		}
		if m >= 0 && m <= n {
			e.OK = cur == 0 || checkContentOf(ar[cur-1], cur, int64(off), buf[:m])
			off += m
		}
		emit(e)
		if soft && bad > 0 {
			return false
		}
	}
	return bad < 8
}

// oneString has all of a header
func oneString(h any) string {
	switch h := h.(type) {
	case nil:
		return ""
	case string:
		return h
	case chdr:
		return strings.Join(append([]string{h.Magic, h.Name, fmt.Sprint(h.Strip), h.Idx, h.S64}, h.F...), " ")
	}
	return "?"
}

// noEnd reports the end at the trailer only: the stream API has the trailer as the sign of the end,
// io.EOF from it is an error like others
type noEnd struct{ s *cpio.CpioStream }

func (a noEnd) Next() (any, error) {
	e, err := a.s.ReadNextEntry()
	if err == io.EOF {
		return nil, errors.New("EOF from the stream")
	} else if err != nil {
		return nil, err
	} else if e.Header.Filename() == cpio.TRAILER {
		return nil, io.EOF
	}
	return observeHeader(e.Header), nil
}
func (a noEnd) Read([]byte) (int, error) { return 0, nil }

// a small archive
func littleArchive(r *rand.Rand, pkgNames bool) (ar []*centry, sizes []int64, files []pfile) {
	strip := r.Intn(3)
	for k := r.Intn(5); k >= 0; k-- {
		e := &centry{K: "newc", Size: big(int64([]int{0, 1, 2, 3, 4, 5, 30, 200, 600, 9000}[r.Intn(10)]))}
		if strip == 0 && !pkgNames || strip > 0 && r.Intn(strip*2) > 0 {
			e.K = []string{"newc", "strip"}[min(1, strip)]
		}
		e.Nlen = 2 + r.Intn(9)
		ar = append(ar, e)
	}
	if pkgNames {
		for k, e := range ar {
			name := fmt.Sprintf("/d/f%d%s", k, strings.Repeat("x", r.Intn(4)))
			e.name, e.index = "."+name, int64(k)
			e.f = [13]uint32{fIno: uint32(k + 1), fMode: cpio.S_ISREG | 0644, fNlink: 1}
			e.finish()
			files = append(files, pfile{name: name, mode: cpio.S_ISREG | 0644, size: uint64(unbig(e.Size)), ino: uint32(k + 1), dev: 1})
		}
		t := &centry{K: "newc", Size: big(0), Trailer: true, name: cpio.TRAILER}
		t.f[fNlink] = 1
		t.finish()
		return append(ar, t), nil, files
	}
	if strip > 0 && r.Intn(8) == 0 {
		e := ar[r.Intn(len(ar))]
		e.K, e.Size = "strip", []int{}
	}
	ar = append(ar, &centry{K: "newc", Size: big(0), Trailer: true, Nlen: 11})
	return ar, prepare(ar, r), nil
}

// retry SEED N TRACE
func retryRandom(args []string) error {
	seed, n := int64(atoi(args[0])), atoi(args[1])
	tr := newTrace(args[2])
	for _, sc := range parallel(n, func(i int) tretry {
		r := rand.New(rand.NewSource(seed*99017 + int64(i)))
		inPkg := i%3 == 2
		ar, sizes, files := littleArchive(r, inPkg)
		segs, total := layout(ar, r)
		data := readSegs(segs, -1)
		var ends []int // where things start and end
		for at, k := 0, 0; k < len(segs); k++ {
			at += int(segs[k].size)
			ends = append(ends, at)
		}
		sc := tretry{}
		for _, e := range ar {
			sc.Ar = append(sc.Ar, tentry{int(unbig(e.Size)), e.Trailer, oneString(e.Hdr)})
		}
		ext := r.Intn(2) == 0
		comp := "uncompressed"
		if inPkg {
			if !ext {
				for _, e := range ar {
					e.K = "newc" // the plain reader cannot tell sizes
					e.finish()
				}
				segs, total = layout(ar, r)
				data = readSegs(segs, -1)
			}
			for k, e := range ar {
				if sc.Ar[k].Hdr = oneString(e.Hdr); ext {
					sc.Ar[k].Hdr = ""
					if k < len(files) {
						sc.Ar[k].Hdr = files[k].name
					}
				}
			}
			if r.Intn(2) == 0 {
				comp = compressors[r.Intn(len(compressors))]
			}
		}
		for k := 0; k < 30; k++ {
			f := &failReader{err: faults[r.Intn(len(faults))], with: r.Intn(3) == 0, always: r.Intn(3) == 0, chunk: []string{"full", "one", "rand", "half"}[r.Intn(4)], rnd: r}
			for x := []int{1, 1, 1, 2, 3}[r.Intn(5)]; x > 0; x-- {
				at := r.Intn(int(total) + 2)
				if r.Intn(2) == 0 {
					at = max(0, min(int(total)+1, ends[r.Intn(len(ends))]+r.Intn(9)-4))
				}
				if len(f.at) > 0 && r.Intn(2) == 0 {
					at = f.at[len(f.at)-1] + r.Intn(5)
				}
				if len(f.at) == 0 || at >= f.at[len(f.at)-1] {
					f.at = append(f.at, at)
				}
			}
			if r.Intn(6) == 0 {
				f.err = io.EOF
			}
			run := trun{At: append([]int{}, f.at...), Fault: fmt.Sprintf("%T %s", f.err, f.err), With: f.with, Keep: f.always}
			var a archiveAPI
			done := watch(60*time.Second, func() {
				emit := func(e tevent) { run.Ev = append(run.Ev, e) }
				f.b = data
				readable := true
				switch {
				case !inPkg:
					run.Api = []string{"reader", "reader", "stream"}[r.Intn(3)]
					a = openArchive(run.Api, f, sizes)
					if run.Api == "stream" {
						a = noEnd{a.(streamAPI).s}
					}
					readable = run.Api == "reader"
				default:
					p := &pkg{sigReserve: -1, digests: "sha256", payload: compress(comp, data)}
					p.gen = append(append(basicGen(), fileTags(files, fileOpts{})...), strTag(tagPayloadCompressor, comp))
					run.Api = comp
					run.Soft = comp != "uncompressed"
					f.b = p.build()
					head := len(f.b) - len(p.payload)
					if comp != "uncompressed" {
						// how far the stream is read is not known; what comes after a failure neither
						f.at = []int{head + r.Intn(len(p.payload)+1)}
						f.always = true
					} else {
						for x := range f.at {
							f.at[x] += head
						}
					}
					run.At = append([]int{}, f.at...)
					rpm, err := rpmutils.ReadRpm(f)
					if err != nil && f.fired {
						return // the failure came with the last byte of the header
					} else if err != nil {
						emit(tevent{Op: "open", What: err.Error()})
						return
					}
					if ext {
						pr, err2 := rpm.PayloadReaderExtended()
						a, err = extAPI{pr}, err2
					} else {
						pr, err2 := rpm.PayloadReader()
						a, err = plainAPI{pr}, err2
					}
					if err != nil {
						emit(tevent{Op: "next", Res: "err", Fired: f.fired, What: err.Error()})
						return
					}
				}
				run.Cut = persist(a, f, ar, readable, run.Soft, r, emit)
			})
			if done != "" {
				run.Ev = []tevent{{Op: done}}
			}
			if len(run.Ev) > 0 {
				sc.Runs = append(sc.Runs, run)
			}
		}
		return sc
	}) {
		if len(sc.Runs) > 0 {
			tr.put(sc)
		}
	}
	return tr.close()
}

// -- whole operations --------------------------------------------------------

type fop struct {
	Need  int  `json:"need"`
	Drain bool `json:"drain"`
	Slack int  `json:"slack"`
	Full  int  `json:"full"`
}

type ffail struct {
	At   int    `json:"at"`
	Kind string `json:"kind"`
	With bool   `json:"with"`
	Once bool   `json:"once"`
}

type frun struct {
	Name  string `json:"name"`
	Op    fop    `json:"op"`
	Fail  ffail  `json:"fail"`
	Fault string `json:"fault"`
	Res   string `json:"res"`
	Exact bool   `json:"exact"`
	What  string `json:"what"`
}

type fscen struct {
	Runs []frun `json:"runs"`
}

func faulty(b []byte, at int, r *rand.Rand) (*failReader, ffail, string) {
	f := &failReader{b: b, at: []int{at}, err: faults[r.Intn(len(faults))], with: r.Intn(3) == 0, always: r.Intn(3) > 0, chunk: []string{"full", "one", "rand", "half"}[r.Intn(4)], rnd: r}
	if len(b) > 5000 && f.chunk == "one" {
		f.chunk = "rand"
	}
	kind := "err"
	if at <= len(b) && r.Intn(4) == 0 {
		kind, f.err, f.always = "eof", io.EOF, true
	}
	return f, ffail{at, kind, f.with, !f.always}, fmt.Sprintf("%T %s always=%v %s", f.err, f.err, f.always, f.chunk)
}

// fault-read SEED N TRACE
func faultRead(args []string) error {
	seed, n := int64(atoi(args[0])), atoi(args[1])
	tr := newTrace(args[2])
	for _, sc := range parallel(n, func(i int) fscen {
		r := rand.New(rand.NewSource(seed*99103 + int64(i)))
		p := &pkg{sigReserve: r.Intn(40) - 10, payload: make([]byte, []int{0, 1, 5, 60, 400, 40000}[r.Intn(6)]),
			digests: []string{"payload", "payload sha256", "md5", "sha1 md5", "payload sha256 sha1 md5"}[r.Intn(5)], noRegion: r.Intn(4) == 0}
		r.Read(p.payload)
		p.gen = append(basicGen(), strTag(1004, strings.Repeat("s", r.Intn(200))))
		b := p.build()
		ref, err := rpmutils.ReadHeader(bytes.NewReader(b))
		if err != nil {
			return fscen{Runs: []frun{{Name: "ReadHeader", Res: "err", Fail: ffail{len(b) + 1, "none", false, false}, What: err.Error()}}}
		}
		genEnd := len(b) - len(p.payload)
		sigEnd := genEnd - len(p.genHeader())
		same := func(h *rpmutils.RpmHeader) bool {
			for _, t := range []int{tagName, tagVersion, 1004, tagSize, tagPayloadDigest} {
				x, ex := h.Get(t)
				y, ey := ref.Get(t)
				if fmt.Sprint(x, ex) != fmt.Sprint(y, ey) {
					return false
				}
			}
			return h.GetRange() == ref.GetRange()
		}
		ops := []string{"ReadHeader", "ReadRpm", "Verify", "SignRpmStream"}
		sc := fscen{}
		one := func(name string, at int) {
			f, fail, what := faulty(b, at, r)
			run := frun{Name: name, Fail: fail, Fault: what, Op: fop{Need: genEnd, Slack: genEnd, Full: genEnd}}
			if name == "Verify" || name == "SignRpmStream" {
				run.Op = fop{Need: len(b), Drain: true, Slack: len(b), Full: genEnd}
			}
			bad := watch(60*time.Second, func() {
				var h *rpmutils.RpmHeader
				var err error
				switch name {
				case "ReadHeader":
					h, err = rpmutils.ReadHeader(f)
				case "ReadRpm":
					var rpm *rpmutils.Rpm
					if rpm, err = rpmutils.ReadRpm(f); err == nil {
						h = rpm.Header
					}
				case "Verify":
					h, _, err = rpmutils.Verify(f, nil)
				case "SignRpmStream":
					h, err = rpmutils.SignRpmStream(f, testKey(), nil)
				}
				run.Res = okErr(err)
				if err != nil {
					run.What = err.Error()
				} else {
					run.Exact = h != nil && same(h)
				}
			})
			if bad != "" {
				run.Res = bad
			}
			sc.Runs = append(sc.Runs, run)
		}
		if i%4 == 0 && len(b) < 1500 {
			for at := 0; at <= len(b)+1; at++ {
				one(ops[r.Intn(3)], at)
				if at > genEnd-10 {
					one("SignRpmStream", at)
				}
			}
			return sc
		}
		for k := 0; k < 60; k++ {
			at := r.Intn(len(b) + 2)
			if r.Intn(2) == 0 {
				at = []int{0, 96, 112, sigEnd, sigEnd + 16, genEnd, len(b)}[r.Intn(7)] + r.Intn(11) - 5
			}
			one(ops[r.Intn(4)], max(0, min(at, len(b)+1)))
		}
		return sc
	}) {
		tr.put(sc)
	}
	return tr.close()
}

// one scenario of fault-extract N TRACE SEED
func faultExtract(top string, i int, r *rand.Rand) fscen {
	sc := fscen{}
	var ents []*xentry
	want := map[string]string{}
	for k := r.Intn(4); k >= 0; k-- {
		e := &xentry{T: "file"}
		e.Name.Raw = fmt.Sprintf("./f%d%s", k, strings.Repeat("x", r.Intn(4)))
		if r.Intn(3) == 0 {
			e.Name.Raw = "./d/" + e.Name.Raw[2:]
		}
		if r.Intn(3) == 0 {
			e.T = "link"
			e.To.Raw = strings.Repeat("to", 1+r.Intn(30))
			e.finish(r)
			want[e.Name.Raw[2:]] = "to " + e.To.Raw
			ents = append(ents, e)
			continue
		}
		e.content = make([]byte, []int{0, 1, 4, 5, 100, 3000, 70000}[r.Intn(7)])
		r.Read(e.content)
		e.finish(r)
		want[e.Name.Raw[2:]] = string(e.content)
		ents = append(ents, e)
	}
	setKeys(ents, r)
	ar := archiveOf(ents, r)
	segs, _ := layout(ar, r)
	data := readSegs(segs, -1)
	padded := len(data)
	need := padded - 1 // the trailer's name takes 121 bytes of 124
	for k := padded - 1; string(data[k-11:k]) != "TRAILER!!!\x00"; {
		k--
		need = k
	}
	data = append(data, make([]byte, []int{0, 0, 4, 388}[r.Intn(4)])...)
	dest := top + "/dest"
	exact := func() bool {
		for name, c := range want {
			if to, err := os.Readlink(dest + "/" + name); err == nil {
				if "to "+to != c {
					return false
				}
				continue
			}
			b, err := os.ReadFile(dest + "/" + name)
			if err != nil || string(b) != c {
				return false
			}
		}
		return true
	}
	for k := 0; k < 40 && !hung.Load(); k++ {
		how := []string{"direct", "direct", "uncompressed", "uncompressed", "gzip", "xz", "lzma", "zstd", "bzip2"}[r.Intn(9)]
		b, head := data, 0
		op := fop{Need: need, Slack: padded, Full: padded}
		if how != "direct" {
			p := &pkg{sigReserve: -1, digests: "sha256", payload: compress(how, data)}
			p.gen = append(basicGen(), strTag(tagPayloadCompressor, how))
			b = p.build()
			head = len(b) - len(p.payload)
			op.Need += head
			op.Slack += head
			op.Full += head
			if how != "uncompressed" {
				op = fop{Need: 0, Slack: len(b) + 1}
			}
		}
		at := head + r.Intn(len(b)-head+2)
		if r.Intn(2) == 0 && how[0] != 'g' {
			at = head + max(0, min(len(b)-head+1, padded+r.Intn(20)-10))
		} else if r.Intn(3) == 0 {
			at = len(b) + r.Intn(6) - 4
		}
		f, fail, what := faulty(b, at, r)
		if op.Need == 0 {
			f.always = true
		}
		run := frun{Name: "extract " + how, Op: op, Fail: fail, Fault: what}
		if op.Need == 0 && at > len(b) {
			run.Op.Slack = 0
		}
		bad := watch(60*time.Second, func() {
			var err error
			if how == "direct" {
				err = cpio.Extract(f, dest)
			} else {
				var rpm *rpmutils.Rpm
				if rpm, err = rpmutils.ReadRpm(f); err == nil {
					err = rpm.ExpandPayload(dest)
				}
			}
			run.Res = okErr(err)
			if err != nil {
				run.What = err.Error()
			}
			run.Exact = exact()
		})
		if bad != "" {
			run.Res = bad
		}
		os.RemoveAll(dest)
		sc.Runs = append(sc.Runs, run)
	}
	return sc
}
