package main

import (
	"bytes"
	"errors"
	"fmt"
	"io"
	"math/rand"
	"os"
	"strings"
	"time"

	rpmutils "github.com/sassoftware/go-rpmutils"
	"github.com/sassoftware/go-rpmutils/cpio"
)

type dmg struct {
	Kind string `json:"kind"`
	N    int    `json:"n"`
}

type drun struct {
	Dmg  dmg    `json:"dmg"`
	Cut  []int  `json:"cut"`
	Res  string `json:"res"`
	How  string `json:"how"`
	What string `json:"what"`
}

type dscenario struct {
	Ar   []*centry `json:"ar"`
	Runs []drun    `json:"runs"`
}

// errReader reports a read error instead of the end
type errReader struct{ r io.Reader }

func (e errReader) Read(p []byte) (int, error) {
	n, err := e.r.Read(p)
	if err == io.EOF {
		err = errors.New("input/output error")
	}
	return n, err
}

func damageScenario(top string, i int, r *rand.Rand, tr *traceWriter) {
	x := &xrand{r: r, p: top, clean: true}
	_ = x
	var ents []*xentry
	n := i % 4
	if i%11 == 0 {
		n = 5
	}
	for k := 0; k < n; k++ {
		e := &xentry{T: []string{"file", "dir", "file", "link", "file", "fifo", "dev"}[r.Intn(7)]}
		e.Name.Raw = "./" + fmt.Sprintf("%s%d%s", e.T[:1], k, []string{"", "x", "xy", "xyz"}[r.Intn(4)])
		if r.Intn(3) == 0 {
			e.Name.Raw = "d/" + e.Name.Raw
		}
		if e.T == "link" {
			e.To.Raw = []string{"x", "target", "f0"}[r.Intn(3)]
		}
		e.content = []byte("0123456789abcdef")[:[]int{0, 1, 3, 4, 5, 8, 13}[r.Intn(7)]]
		if e.T == "file" && r.Intn(3) == 0 {
			e.Key = "g"
		}
		e.finish(r)
		if e.content == nil && r.Intn(4) == 0 {
			e.content = []byte("skipped")[:r.Intn(8)] // contents of an entry that has none
		}
		ents = append(ents, e)
	}
	setKeys(ents, r)
	ar := archiveOf(ents, r)
	sc := dscenario{Ar: ar}
	segs, total := layout(ar, r)
	data := readSegs(segs, -1)
	// the start of each entry
	var starts []int
	at := 0
	for _, e := range ar {
		starts = append(starts, at)
		at += 110 + e.Nlen
		at += (4-at%4)%4 + len(e.raw)
		at += (4 - at%4) % 4
	}
	if at != int(total) || string(data[starts[len(starts)-1]:][:6]) != "070701" {
		panic("layout")
	}
	run := func(b []byte, d dmg, cut int, how, ck string) {
		if hung.Load() {
			return
		}
		dest := top + "/dest"
		dr := drun{Dmg: d, Cut: []int{}, How: how + " " + ck}
		if cut >= 0 {
			dr.Cut = big(int64(cut))
		}
		var err error
		ev := guard(60*time.Second, func(emit func(cevent)) {
			switch how {
			case "direct":
				err = cpio.Extract(chunk(bytes.NewReader(b), ck, r.Int63()), dest)
			case "ioerr":
				err = cpio.Extract(chunk(errReader{bytes.NewReader(b)}, ck, r.Int63()), dest)
			default:
				p := &pkg{sigReserve: -1, digests: "sha256", payload: b}
				if d.Kind != "lost" {
					p.payload = compress(how, b)
				}
				p.gen = append(basicGen(), strTag(tagPayloadCompressor, how))
				var rpm *rpmutils.Rpm
				rpm, err = rpmutils.ReadRpm(chunk(bytes.NewReader(p.build()), ck, r.Int63()))
				if err == nil {
					err = rpm.ExpandPayload(dest)
				}
			}
			emit(cevent{Op: "err"})
		})
		dr.Res = ev[len(ev)-1].Op
		if dr.Res == "err" && err == nil {
			dr.Res = "ok"
		} else if err != nil {
			dr.What = err.Error()
		} else {
			dr.What = ev[len(ev)-1].What
		}
		os.RemoveAll(dest)
		sc.Runs = append(sc.Runs, dr)
	}
	cks := []string{"full", "rand", "dataerr", "one", "full", "full"}
	pick := func() string { return cks[r.Intn(len(cks))] }
	how := func() string {
		switch r.Intn(12) {
		case 0:
			return "gzip"
		case 1:
			return "uncompressed"
		case 2:
			return []string{"xz", "lzma", "zstd"}[r.Intn(3)]
		}
		return "direct"
	}
	run(data, dmg{"none", 0}, -1, how(), pick())
	for c := 0; c <= len(data); c++ {
		run(data[:c], dmg{"cut", 0}, c, how(), pick())
		if c%3 == i%3 {
			run(data[:c], dmg{"cut", 0}, c, "ioerr", pick())
		}
	}
	change := func(off int, b string, d dmg) {
		m := append([]byte{}, data...)
		copy(m[off:], b)
		run(m, d, -1, how(), pick())
	}
	const bad = "gG -+_x\x00/:@`O\x80Zz~."
	for n, s := range starts {
		for p := 0; p < 6; p++ {
			c := []byte{data[s+p]}
			for c[0] == data[s+p] {
				c[0] = []byte("0123456789xX\x00 a")[r.Intn(15)]
			}
			change(s+p, string(c), dmg{"field", n + 1})
		}
		for _, m := range []string{"070702", "070707", "07070X", "07070x", "\xc7\x71\x00\x00\x00\x00", "000000", "+70701", "-70701", " 70701", "70701 ", "70701\x00", "0o0701", "0x71c1", "071701", "07_701", "007070"} {
			change(s, m, dmg{"field", n + 1})
		}
		for f := 0; f < 13; f++ {
			for p := 0; p < 8; p++ {
				change(s+6+8*f+p, string(bad[r.Intn(len(bad))]), dmg{"field", n + 1})
			}
			orig := string(data[s+6+8*f : s+6+8*f+8])
			for _, v := range []string{"+" + orig[1:], "-" + orig[1:], "0x" + orig[2:], "       " + orig[7:], "0_" + orig[2:], "\x00\x00\x00\x00\x00\x00\x00\x00"} {
				change(s+6+8*f, v, dmg{"field", n + 1})
			}
		}
		if n < len(ents) {
			for _, t := range []int{0, 0140000, 0050000, 0110000, 0130000, 0150000, 0170000, 0030000, 0070000} {
				change(s+6+8, fmt.Sprintf("%08x", t|r.Intn(4096)), dmg{"type", n + 1})
			}
		}
	}
	if i%6 == 1 {
		// every other character, at every place of a magic number and of one header number
		n := r.Intn(len(starts))
		f := r.Intn(13)
		for v := 0; v < 256; v++ {
			c := string([]byte{byte(v)})
			for p := 0; p < 6; p++ {
				if data[starts[n]+p] != byte(v) {
					change(starts[n]+p, c, dmg{"field", n + 1})
				}
			}
			if !strings.Contains("0123456789abcdefABCDEF", c) {
				for p := 0; p < 8; p++ {
					change(starts[n]+6+8*f+p, c, dmg{"field", n + 1})
				}
			}
		}
	}
	// anything may come out of random bytes, but nothing else
	for k := 0; k < 60; k++ {
		m := append([]byte{}, data...)
		for j := 1 + r.Intn(4); j > 0; j-- {
			s := starts[r.Intn(len(starts))]
			switch r.Intn(4) {
			case 0:
				m[r.Intn(len(m))] ^= byte(1 << r.Intn(8))
			case 1:
				copy(m[s+6+8*r.Intn(13):], fmt.Sprintf("%08x", r.Uint32()>>uint(r.Intn(32))))
			case 2:
				copy(m[s+6+8*[]int{fFilesize, fNamesize, fMode}[r.Intn(3)]:], []string{"ffffffff", "7fffffff", "80000000", "00000000", "00000001", "0000000b"}[r.Intn(6)])
			case 3:
				m = m[:1+r.Intn(len(m))]
			}
			if len(m) < len(data) {
				break
			}
		}
		run(m, dmg{"any", 0}, -1, "direct", pick())
	}
	tr.put(sc)
	if i%6 == 0 {
		lostScenario(top, r, tr)
	}
}

// compressed payloads that stop early
func lostScenario(top string, r *rand.Rand, tr *traceWriter) {
	e := &xentry{T: "file"}
	e.Name.Raw = "big"
	e.content = make([]byte, 3000+r.Intn(200000))
	r.Read(e.content)
	e.finish(r)
	ents := []*xentry{e}
	setKeys(ents, r)
	ar := archiveOf(ents, r)
	segs, _ := layout(ar, r)
	data := readSegs(segs, -1)
	sc := dscenario{Ar: ar}
	for _, how := range compressors[1:] {
		c := compress(how, data)
		for k := 0; k < 6; k++ {
			p := &pkg{sigReserve: -1, digests: "sha256", payload: c[:r.Intn(len(c)*3/5)]}
			p.gen = append(basicGen(), strTag(tagPayloadCompressor, how))
			dr := drun{Dmg: dmg{"lost", 0}, Cut: []int{}, How: how}
			dest := top + "/dest"
			var err error
			ev := guard(60*time.Second, func(emit func(cevent)) {
				var rpm *rpmutils.Rpm
				rpm, err = rpmutils.ReadRpm(chunk(bytes.NewReader(p.build()), pkgChunkers[r.Intn(len(pkgChunkers))], r.Int63()))
				if err == nil {
					err = rpm.ExpandPayload(dest)
				}
				emit(cevent{Op: "err"})
			})
			dr.Res = ev[len(ev)-1].Op
			if dr.Res == "err" && err == nil {
				dr.Res = "ok"
			}
			os.RemoveAll(dest)
			sc.Runs = append(sc.Runs, dr)
		}
	}
	tr.put(sc)
}
