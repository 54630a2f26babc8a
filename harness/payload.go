package main

import (
	"bytes"
	"fmt"
	"io"
	"math/rand"
	"time"

	rpmutils "github.com/sassoftware/go-rpmutils"
	"github.com/sassoftware/go-rpmutils/cpio"
)

func init() {
	commands["payload-cuts"] = payloadCuts
}

type plainAPI struct{ *cpio.Reader }

func (a plainAPI) Next() (any, error) { return readerAPI{a.Reader}.Next() }

type extAPI struct{ rpmutils.PayloadReader }

func (a extAPI) Next() (any, error) {
	fi, err := a.PayloadReader.Next()
	if err != nil {
		return nil, err
	}
	return fi.Name(), nil
}

// payload-cuts SEED N TRACE: packages whose payload stops early
func payloadCuts(args []string) error {
	seed, n := int64(atoi(args[0])), atoi(args[1])
	tr := newTrace(args[2])
	for _, sc := range parallel(n, func(i int) cscenario {
		r := rand.New(rand.NewSource(seed*90001 + int64(i)))
		comp := compressors[i%len(compressors)]
		ext := i/len(compressors)%2 == 0
		soft := i/len(compressors)%4 >= 2 && comp != "uncompressed"
		var ar []*centry
		var files []pfile
		nf := 1 + r.Intn(5)
		strip := ext && r.Intn(3) > 0
		for k := 0; k < nf; k++ {
			size := int64(r.Intn(12))
			if r.Intn(3) == 0 {
				size = randSize(r)
			}
			if soft && (k == nf-1 || r.Intn(2) == 0) {
				size = 5000 + int64(r.Intn(200000))
			}
			name := fmt.Sprintf("/d/f%d", k)
			e := &centry{K: "newc", Size: big(size), name: "." + name, index: int64(k)}
			e.f = [13]uint32{fIno: uint32(k + 1), fMode: cpio.S_ISREG | 0644, fNlink: 1}
			if strip && r.Intn(4) > 0 {
				e.K = "strip"
			}
			e.finish()
			if ext {
				e.Hdr = name
			}
			ar = append(ar, e)
			files = append(files, pfile{name: name, mode: cpio.S_ISREG | 0644, size: uint64(size), ino: uint32(k + 1), dev: 1})
		}
		tr := &centry{K: "newc", Size: big(0), Trailer: true, name: cpio.TRAILER}
		tr.f[fNlink] = 1
		tr.finish()
		if ext {
			tr.Hdr = ""
		}
		ar = append(ar, tr)
		segs, total := layout(ar, r)
		p := &pkg{sigReserve: -1, digests: "sha256"}
		p.gen = append(basicGen(), fileTags(files, fileOpts{long: r.Intn(3) == 0})...)
		p.gen = append(p.gen, strTag(tagPayloadCompressor, comp))
		if comp == "uncompressed" && r.Intn(2) == 0 {
			p.gen = p.gen[:len(p.gen)-1]
		}
		full := readSegs(segs, -1)
		sc := cscenario{Ar: ar}
		for k := 0; k < 5; k++ {
			cut := r.Int63n(total + 1)
			if r.Intn(2) == 0 {
				var at int64
				for x := r.Intn(len(segs)); x >= 0; x-- {
					at += segs[x].size
				}
				if cut = at + int64(r.Intn(7)) - 3; cut > total {
					cut = total
				}
			}
			if len(p.gen) > 0 && comp == "uncompressed" && !hasTag(p.gen, tagPayloadCompressor) && cut < 2 {
				cut = 2 // the compressor cannot be told from less
			}
			o := copts{api: "payload", chunk: pkgChunkers[r.Intn(len(pkgChunkers))], cut: cut, seed: r.Int63(), limit: time.Minute}
			if ext {
				o.api = "payloadx"
			}
			if k == 0 {
				cut = total
			}
			if soft {
				c := compress(comp, full)
				p.payload = c[:r.Intn(len(c)*3/5)]
				o.cut = -1
			} else {
				p.payload = compress(comp, full[:cut])
				o.cut = cut
			}
			for range ar {
				o.prog.pat = append(o.prog.pat, []string{"all", "all", "skip", "part", "random", "one", "over", "big", "rest", "twice"}[r.Intn(10)])
			}
			if r.Intn(3) == 0 {
				for x := range o.prog.pat {
					o.prog.pat[x] = "skip"
				}
			}
			for x := range o.prog.pat {
				if pat := o.prog.pat[x]; (pat == "over" || pat == "big") && x < nf && unbig(ar[x].Size) > 2000 {
					o.prog.pat[x] = "all"
				}
			}
			sc.Runs = append(sc.Runs, runPackage(p.build(), ar, soft, o))
		}
		return sc
	}) {
		tr.put(sc)
	}
	return tr.close()
}

func hasTag(ts []htag, tag int) bool {
	for _, t := range ts {
		if t.tag == tag {
			return true
		}
	}
	return false
}

func runPackage(data []byte, ar []*centry, soft bool, o copts) crun {
	run := crun{Chunk: "zero", Api: o.api, Pat: o.prog.pat, Cut: []int{}, Soft: soft} // decompressors may return nothing
	if o.cut >= 0 {
		run.Cut = big(o.cut)
	}
	run.Ev = guard(o.limit, func(emit func(cevent)) {
		rnd := rand.New(rand.NewSource(o.seed))
		rpm, err := rpmutils.ReadRpm(chunk(bytes.NewReader(data), o.chunk, o.seed))
		if err != nil {
			emit(cevent{Op: "next", Res: "cannot open", What: err.Error()})
			return
		}
		var a archiveAPI
		if o.api == "payload" {
			var cr *cpio.Reader
			if cr, err = rpm.PayloadReader(); err == nil {
				a = plainAPI{cr}
			}
		} else {
			var pr rpmutils.PayloadReader
			if pr, err = rpm.PayloadReaderExtended(); err == nil {
				a = extAPI{pr}
			}
		}
		if err != nil {
			// counts as the answer to the first Next
			if err == io.EOF {
				emit(cevent{Op: "next", Res: "err", What: "EOF when opening"})
				return
			}
			emit(cevent{Op: "next", Res: "err", What: err.Error()})
			return
		}
		consume(a, ar, o.prog, rnd, emit)
	})
	return run
}
