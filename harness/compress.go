package main

import (
	"bytes"
	"compress/gzip"
	"crypto/sha256"
	"encoding/hex"
	"fmt"
	"io"
	"math/rand"
	"os"
	"os/exec"
	"runtime"
	"strings"
	"time"

	rpmutils "github.com/sassoftware/go-rpmutils"
	"github.com/sassoftware/go-rpmutils/cpio"
	"github.com/ulikunitz/xz"
	"github.com/ulikunitz/xz/lzma"
)

func init() {
	// compress GEN TRACE SEED N VARIANT
	commands["compress"] = func(a []string) error { return extractSharded("compress", a) }
	commands["compress-variants"] = compressVariants
}

type zcfg struct {
	Fmt    string `json:"fmt"`
	Name   string `json:"name"`
	Stored string `json:"stored"`
	API    string `json:"api"`
	End    string `json:"end"`
}

type zevent struct {
	Op     string   `json:"op"`
	Res    string   `json:"res"`
	Name   string   `json:"name"`
	Tree   []string `json:"tree"`
	N      int      `json:"n"`
	Closed bool     `json:"closed"`
	What   string   `json:"what"`
}

type zrun struct {
	Cfg     zcfg     `json:"cfg"`
	Variant string   `json:"variant"`
	Ev      []zevent `json:"ev"`
}

type zent struct {
	Plain string `json:"plain"`
	Rec   string `json:"rec"`
	Data  string `json:"data"`

	data []byte
}

type zscenario struct {
	Ents []*zent `json:"ents"`
	Runs []zrun  `json:"runs"`
}

func sum(b []byte) string {
	s := sha256.Sum256(b)
	return hex.EncodeToString(s[:8])
}

func pipe(data []byte, name string, args ...string) []byte {
	cmd := exec.Command(name, args...)
	cmd.Stdin = bytes.NewReader(data)
	var eb bytes.Buffer
	cmd.Stderr = &eb
	out, err := cmd.Output()
	if err != nil {
		panic(fmt.Sprint(name, args, err, eb.String()))
	}
	return out
}

// rawZstd is a frame of stored blocks that declares a window of 1<<log bytes, as compressors of large files do
func rawZstd(b []byte, log byte, block int) []byte {
	out := []byte{0x28, 0xb5, 0x2f, 0xfd, 0, (log - 10) << 3}
	for {
		n := min(len(b), block)
		h := n << 3
		if n == len(b) {
			h |= 1
		}
		out = append(append(out, byte(h), byte(h>>8), byte(h>>16)), b[:n]...)
		if b = b[n:]; len(b) == 0 && h&1 == 1 {
			return out
		}
	}
}

func halves(data []byte, f func([]byte) []byte) []byte {
	n := len(data) / 2
	return append(f(data[:n]), f(data[n:])...)
}

// ways to write each encoding
var variants = map[string]map[string]func([]byte) []byte{
	"uncompressed": {"plain": func(b []byte) []byte { return b }},
	"gzip": {
		"go": func(b []byte) []byte { return compress("gzip", b) },
		"go-header": func(b []byte) []byte {
			var buf bytes.Buffer
			w, _ := gzip.NewWriterLevel(&buf, gzip.NoCompression)
			w.Name, w.Comment, w.Extra = "payload", "comment", []byte("AB\x02\x00xy")
			w.Write(b)
			w.Close()
			return buf.Bytes()
		},
		"gzip-9":    func(b []byte) []byte { return pipe(b, "gzip", "-9n") },
		"gzip-1":    func(b []byte) []byte { return pipe(b, "gzip", "-1") },
		"gzip-huff": func(b []byte) []byte { return deflateLevel(b, gzip.HuffmanOnly) },
		"gzip-members": func(b []byte) []byte {
			return halves(b, func(h []byte) []byte { return compress("gzip", h) })
		},
	},
	"bzip2": {
		"bzip2-9": func(b []byte) []byte { return pipe(b, "bzip2", "-9") },
		"bzip2-1": func(b []byte) []byte { return pipe(b, "bzip2", "-1") },
		"bzip2-streams": func(b []byte) []byte {
			return halves(b, func(h []byte) []byte { return pipe(h, "bzip2", "-3") })
		},
	},
	"lzma": {
		"go": func(b []byte) []byte { return compress("lzma", b) },
		"go-size": func(b []byte) []byte {
			var buf bytes.Buffer
			w, err := lzma.WriterConfig{SizeInHeader: true, Size: int64(len(b))}.NewWriter(&buf)
			if err != nil {
				panic(err)
			}
			w.Write(b)
			w.Close()
			return buf.Bytes()
		},
		"lzma-9": func(b []byte) []byte { return pipe(b, "xz", "--format=lzma", "-9") },
		"lzma-2": func(b []byte) []byte { return pipe(b, "xz", "--format=lzma", "-2") },
		"lzma-lc": func(b []byte) []byte {
			return pipe(b, "xz", "--format=lzma", "--lzma1=preset=6,lc=1,lp=2,pb=0,dict=64KiB")
		},
	},
	"xz": {
		"go":     func(b []byte) []byte { return compress("xz", b) },
		"xz-2":   func(b []byte) []byte { return pipe(b, "xz", "-2", "-C", "crc32") },
		"xz-6":   func(b []byte) []byte { return pipe(b, "xz", "-6", "-C", "crc64") },
		"xz-9e":  func(b []byte) []byte { return pipe(b, "xz", "-9e", "-C", "sha256") },
		"xz-nil": func(b []byte) []byte { return pipe(b, "xz", "-0", "-C", "none") },
		"xz-blocks": func(b []byte) []byte {
			return pipe(b, "xz", "-2", "-T2", "--block-size=8KiB")
		},
		"xz-streams": func(b []byte) []byte {
			return halves(b, func(h []byte) []byte { return pipe(h, "xz", "-1") })
		},
		"go-blocks": func(b []byte) []byte {
			var buf bytes.Buffer
			w, err := xz.WriterConfig{BlockSize: 5000, CheckSum: xz.CRC32}.NewWriter(&buf)
			if err != nil {
				panic(err)
			}
			w.Write(b)
			w.Close()
			return buf.Bytes()
		},
	},
	"zstd": {
		"go":     func(b []byte) []byte { return compress("zstd", b) },
		"zstd":   func(b []byte) []byte { return pipe(b, "zstd", "-q", "-3") },
		"zstd19": func(b []byte) []byte { return pipe(b, "zstd", "-q", "-19", "--check") },
		"zstd1":  func(b []byte) []byte { return pipe(b, "zstd", "-q", "--fast=5", "--no-check") },
		"zstd22": func(b []byte) []byte { return pipe(b, "zstd", "-q", "--ultra", "-20", "-T2") },
		"zstd-frames": func(b []byte) []byte {
			return halves(b, func(h []byte) []byte { return pipe(h, "zstd", "-q", "-2") })
		},
		"window27":  func(b []byte) []byte { return rawZstd(b, 27, 1<<17) },
		"window10":  func(b []byte) []byte { return rawZstd(b, 10, 1<<10) },
		"zstd-long": func(b []byte) []byte { return pipe(b, "zstd", "-q", "--long=27") },
	},
}

func deflateLevel(b []byte, level int) []byte {
	var buf bytes.Buffer
	w, err := gzip.NewWriterLevel(&buf, level)
	if err != nil {
		panic(err)
	}
	w.Write(b)
	w.Close()
	return buf.Bytes()
}

// kept out of the general runs, see KNOWN_FINDINGS.txt
const framesVariant = "zstd-frames"

func variantNames(stored string) []string {
	var out []string
	for n := range variants[stored] {
		if n != framesVariant {
			out = append(out, n)
		}
	}
	// map order must not matter
	for i := range out {
		for j := i + 1; j < len(out); j++ {
			if out[j] < out[i] {
				out[i], out[j] = out[j], out[i]
			}
		}
	}
	return out
}

// closeTracker notices when somebody else closes the caller's stream
type closeTracker struct {
	io.Reader
	closed bool
}

func (c *closeTracker) Close() error { c.closed = true; return nil }

// fileTracker is one that can do what files can
type fileTracker struct {
	*bytes.Reader
	closed bool
}

func (c *fileTracker) Close() error { c.closed = true; return nil }

func zpayload(r *rand.Rand) (ents []*zent, ar []*centry, files []pfile) {
	nf := r.Intn(5)
	for k := 0; k < nf; k++ {
		n := []int{0, 1, 100, 4096, 33000, 70001, 300000}[r.Intn(7)]
		b := make([]byte, n)
		switch r.Intn(3) {
		case 0:
			r.Read(b)
		case 1:
			copy(b, bytes.Repeat([]byte("the quick brown fox jumps\n"), n/26+1))
		default:
			for x := range b {
				b[x] = byte(x >> 3)
			}
		}
		f := pfile{name: fmt.Sprintf("/d/f%d", k), mode: cpio.S_ISREG | 0644, size: uint64(n), ino: uint32(k + 1), dev: 1,
			user: "u", grp: "g", digest: "x"}
		e := &centry{K: "newc", Size: big(int64(n)), name: "." + f.name, index: int64(k), raw: b}
		e.f = [13]uint32{fIno: uint32(k + 1), fMode: cpio.S_ISREG | 0644, fNlink: 1}
		z := &zent{Plain: e.name, Data: fmt.Sprint(n, " ", sum(b)), data: b}
		z.Rec = recText(f.name, int64(n), f.user, f.grp, 0, 0, f.digest, int(f.mode), "", 1, k+1)
		e.finish()
		ents, ar, files = append(ents, z), append(ar, e), append(files, f)
	}
	return
}

func goroutines(base int) int {
	n := 0
	for t := 0; t < 60; t++ {
		n = runtime.NumGoroutine() - base
		if n <= 0 {
			return 0
		}
		if t > 4 {
			time.Sleep(time.Duration(t) * time.Millisecond)
		} else {
			runtime.Gosched()
		}
	}
	return n
}

func runCompress(top string, c zcfg, variant string, ents []*zent, ar []*centry, files []pfile, r *rand.Rand) zrun {
	run := zrun{Cfg: c, Variant: variant}
	full := append([]*centry{}, ar...)
	if c.End == "badentry" {
		e := &centry{K: "newc", Size: big(3), name: "./d/sock", raw: []byte("abc")}
		e.f = [13]uint32{fMode: 0140644, fNlink: 1}
		e.finish()
		full = append(full, e)
		full = append(full, ar...)
	}
	t := &centry{K: "newc", Size: big(0), Trailer: true, name: cpio.TRAILER}
	t.f[fNlink] = 1
	t.finish()
	segs, _ := layout(append(full, t), r)
	data := readSegs(segs, -1)
	if c.End == "trail" {
		data = append(data, make([]byte, 512+r.Intn(3)*400000)...)
	}
	pay := variants[c.Stored][variant](data)
	if c.End == "cut" {
		pay = pay[:r.Intn(len(pay))]
	}
	p := &pkg{sigReserve: -1, digests: "sha256 payload md5", payload: pay}
	for _, g := range basicGen() {
		if g.tag == tagPayloadFormat {
			if c.Fmt == "none" {
				continue
			}
			g = strTag(g.tag, c.Fmt)
		}
		p.gen = append(p.gen, g)
	}
	p.gen = append(p.gen, fileTags(files, fileOpts{})...)
	if c.Name != "none" {
		p.gen = append(p.gen, strTag(tagPayloadCompressor, c.Name))
	}
	file := p.build()
	dest := top + "/dest"
	os.RemoveAll(dest)
	base := runtime.NumGoroutine()
	var src io.Reader
	tracker := &closeTracker{Reader: chunk(bytes.NewReader(file), pkgChunkers[r.Intn(len(pkgChunkers))], r.Int63())}
	src = tracker
	seeker := &fileTracker{Reader: bytes.NewReader(file)}
	if r.Intn(3) == 0 {
		src = seeker
	}
	ev := []zevent{}
	put := func(e zevent) {
		if e.Tree == nil {
			e.Tree = []string{}
		}
		ev = append(ev, e)
	}
	done := make(chan struct{})
	go func() {
		defer close(done)
		defer func() {
			if p := recover(); p != nil {
				put(zevent{Op: "panic", What: fmt.Sprint(p)})
			}
		}()
		rpm, err := rpmutils.ReadRpm(src)
		if err != nil {
			put(zevent{Op: "header", What: err.Error()})
			return
		}
		if c.API == "extract" {
			if c.End == "baddest" {
				os.WriteFile(dest, []byte("a file"), 0644)
			}
			err := rpm.ExpandPayload(dest)
			e := zevent{Op: "extract", Res: "ok"}
			if err != nil {
				e.Res, e.What = "err", err.Error()
			}
			put(e)
			return
		}
		var api interface {
			Read([]byte) (int, error)
		}
		var next func() (string, error)
		if c.API == "plain" {
			pr, err := rpm.PayloadReader()
			if err != nil {
				put(zevent{Op: "open", Res: "err", What: err.Error()})
				return
			}
			api = pr
			next = func() (string, error) {
				h, err := pr.Next()
				if err != nil {
					return "", err
				}
				return h.Filename(), nil
			}
		} else {
			pr, err := rpm.PayloadReaderExtended()
			if err != nil {
				put(zevent{Op: "open", Res: "err", What: err.Error()})
				return
			}
			api = pr
			next = func() (string, error) {
				h, err := pr.Next()
				if err != nil {
					return "", err
				}
				return recOf(h), nil
			}
		}
		put(zevent{Op: "open", Res: "ok"})
		for n := 0; n < len(ents)+5; n++ {
			name, err := next()
			if err != nil {
				e := zevent{Op: "next", Res: "err", What: err.Error()}
				if err == io.EOF {
					e.Res = "eof"
				}
				put(e)
				return
			}
			put(zevent{Op: "next", Res: "ok", Name: name})
			if r.Intn(5) == 0 {
				continue
			}
			var buf bytes.Buffer
			_, err = io.Copy(&buf, api)
			b := buf.Bytes()
			e := zevent{Op: "read", Res: "ok", Name: fmt.Sprint(len(b), " ", sum(b))}
			if err != nil {
				e.Res, e.What = "err", err.Error()
			}
			put(e)
		}
	}()
	select {
	case <-done:
	case <-time.After(100 * time.Second):
		hung.Store(true)
		run.Ev = []zevent{{Op: "hang", Tree: []string{}}}
		return run
	}
	if c.API == "extract" && len(ev) > 0 && ev[len(ev)-1].Op == "extract" {
		e := zevent{Op: "tree", Tree: []string{}}
		for _, z := range ents {
			b, err := os.ReadFile(dest + "/" + strings.TrimPrefix(z.Plain, "."))
			if err != nil {
				e.Tree = append(e.Tree, "missing")
			} else {
				e.Tree = append(e.Tree, fmt.Sprint(len(b), " ", sum(b)))
			}
		}
		put(e)
	}
	put(zevent{Op: "left", N: goroutines(base), Closed: tracker.closed || seeker.closed})
	run.Ev = ev
	return run
}

// compress GEN TRACE SEED N VARIANT: every configuration on N payloads, VARIANT - for all
// variants that are not kept out
func compressShard(top string, shard, shards int, args []string, tr *traceWriter) error {
	gens, err := readAll[zcfg](args[0])
	if err != nil {
		return err
	}
	seed, n, only := int64(atoi(args[2])), atoi(args[3]), args[4]
	idx := 0
	for k := 0; k < n; k++ {
		for b := 0; b < len(gens); b += 24 {
			idx++
			if idx%shards != shard || hung.Load() {
				continue
			}
			r := rand.New(rand.NewSource(seed*70001 + int64(idx)))
			ents, ar, files := zpayload(r)
			sc := zscenario{Ents: ents}
			if ents == nil {
				sc.Ents = []*zent{}
			}
			for g := b; g < b+24 && g < len(gens) && !hung.Load(); g++ {
				c := gens[g]
				vs := variantNames(c.Stored)
				v := vs[(k+g)%len(vs)]
				if only != "-" {
					if variants[c.Stored][only] == nil {
						continue
					}
					v = only
				}
				sc.Runs = append(sc.Runs, runCompress(top, c, v, ents, ar, files, r))
			}
			if sc.Runs != nil {
				tr.put(sc)
			}
		}
	}
	os.RemoveAll(top + "/dest")
	return nil
}

// compress-variants: writes and reads back every variant, to see what the encoders do
func compressVariants(args []string) error {
	b := bytes.Repeat([]byte("abcdefgh"), 5000)
	for st := range variants {
		for _, v := range variantNames(st) {
			x := variants[st][v](b)
			fmt.Println(st, v, len(x))
		}
	}
	return nil
}
