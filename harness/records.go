package main

import (
	"bytes"
	"encoding/binary"
	"fmt"
	"io"
	"math/rand"
	"os"
	"strings"
	"time"

	rpmutils "github.com/sassoftware/go-rpmutils"
)

func init() {
	commands["records"] = recordsRandom
	commands["offsets"] = offsets
}

type rfile struct {
	Name   []int `json:"name"`
	Size   []int `json:"size"`
	User   []int `json:"user"`
	Grp    []int `json:"grp"`
	Digest []int `json:"digest"`
	Link   []int `json:"link"`
	Flags  []int `json:"flags"`
	Mtime  []int `json:"mtime"`
	Mode   []int `json:"mode"`
	Dev    []int `json:"dev"`
	Ino    []int `json:"ino"`
}

type rfiles struct {
	Res   string  `json:"res"`
	Files []rfile `json:"files"`
	What  string  `json:"what"`
}

type rsize struct {
	Res string `json:"res"`
	V   []int  `json:"v"`
}

type rnevra struct {
	Res   string  `json:"res"`
	NVRA  [][]int `json:"nvra"`
	Epoch []int   `json:"epoch"`
	What  string  `json:"what"`
}

type rscenario struct {
	Sig    harea    `json:"sig"`
	Gen    harea    `json:"gen"`
	Lead   bool     `json:"lead"`
	Res    string   `json:"res"`
	Files  []rfiles `json:"files"`
	Nevra  rnevra   `json:"nevra"`
	ISize  rsize    `json:"isize"`
	PSize  rsize    `json:"psize"`
	Source bool     `json:"source"`
}

func rfilesOf(fs []rpmutils.FileInfo, err error) (out rfiles) {
	out.Files = []rfile{}
	out.Res = map[bool]string{true: "ok", false: "err"}[err == nil]
	if err != nil {
		out.What = err.Error()
	}
	s := func(s string) []int { return ints([]byte(s)) }
	for _, f := range fs {
		out.Files = append(out.Files, rfile{s(f.Name()), uval(uint64(f.Size())), s(f.UserName()), s(f.GroupName()), s(f.Digest()), s(f.Linkname()),
			uval(uint64(f.Flags())), uval(uint64(f.Mtime())), uval(uint64(f.Mode())), uval(uint64(f.Device())), uval(uint64(f.Inode()))})
	}
	return
}

// decimal turns digits into the bytes of the number; anything else is no number
func decimal(s string) []int {
	var v uint64
	if _, err := fmt.Sscanf(s, "%d", &v); err != nil || fmt.Sprint(v) != s {
		return []int{-1}
	}
	return uval(v)
}

func runRecords(b []byte, r *rand.Rand) (sc rscenario) {
	whole, sig, gen, _ := describe(b)
	if !whole {
		panic("harness: records")
	}
	sc = rscenario{Sig: sig, Gen: gen, Lead: binary.BigEndian.Uint16(b[6:]) == 1, Files: []rfiles{}}
	var res rscenario
	bad := watch(60*time.Second, func() {
		h, err := rpmutils.ReadHeader(chunk(bytes.NewReader(b), pkgChunkers[r.Intn(len(pkgChunkers))], r.Int63()))
		res.Res = map[bool]string{true: "ok", false: "err"}[err == nil]
		if err != nil {
			return
		}
		res.Files = append(res.Files, rfilesOf(h.GetFiles()))
		n, err := h.GetNEVRA()
		res.Nevra = rnevra{Res: map[bool]string{true: "ok", false: "err"}[err == nil]}
		if err == nil {
			for _, s := range []string{n.Name, n.Version, n.Release, n.Arch} {
				res.Nevra.NVRA = append(res.Nevra.NVRA, ints([]byte(s)))
			}
			res.Nevra.Epoch = decimal(n.Epoch)
			if want := n.Name + "-" + n.Epoch + ":" + n.Version + "-" + n.Release + "." + n.Arch + ".rpm"; n.String() != want {
				res.Nevra.Res = "string " + n.String()
			}
		} else {
			res.Nevra.What = err.Error()
		}
		size := func(v int64, err error) rsize {
			return rsize{map[bool]string{true: "ok", false: "err"}[err == nil], uval(uint64(v))}
		}
		res.ISize = size(h.InstalledSize())
		res.PSize = size(h.PayloadSize())
		res.Source = h.IsSource()
		// asking twice changes nothing
		res.Files = append(res.Files, rfilesOf(h.GetFiles()))
	})
	if bad != "" {
		sc.Res = bad
	} else {
		res.Sig, res.Gen, res.Lead = sc.Sig, sc.Gen, sc.Lead
		sc = res
	}
	if sc.Files == nil {
		sc.Files = []rfiles{}
	}
	if sc.Nevra.NVRA == nil {
		sc.Nevra.NVRA, sc.Nevra.Epoch = [][]int{}, []int{}
	}
	if sc.ISize.V == nil {
		sc.ISize.V, sc.PSize.V = []int{}, []int{}
	}
	return
}

func resize(t htag, n int) htag {
	// repeat or drop values
	switch t.typ {
	case tString, tStringArray, tI18n:
		parts := strings.SplitAfter(string(t.data), "\x00")
		parts = parts[:len(parts)-1]
		var out []byte
		for k := 0; k < n; k++ {
			if len(parts) > 0 {
				out = append(out, parts[k%len(parts)]...)
			} else {
				out = append(out, 0)
			}
		}
		return htag{t.tag, t.typ, n, out}
	}
	sz := 1
	if t.count > 0 {
		sz = len(t.data) / t.count
	} else if a := aligns[t.typ]; a > 0 {
		sz = a
	}
	out := make([]byte, 0, n*sz)
	for k := 0; k < n; k++ {
		if t.count > 0 {
			out = append(out, t.data[(k%t.count)*sz:(k%t.count+1)*sz]...)
		} else {
			out = append(out, make([]byte, sz)...)
		}
	}
	return htag{t.tag, t.typ, n, out}
}

// retype stores the values of an integer tag with another width
func retype(t htag, typ int) htag {
	sz := map[int]int{tChar: 1, tInt8: 1, tInt16: 2, tInt32: 4, tInt64: 8, tBin: 1, tNull: 0}
	out := htag{t.tag, typ, t.count, nil}
	switch typ {
	case tString, tStringArray, tI18n:
		for k := 0; k < t.count; k++ {
			out.data = append(out.data, '1', 0)
		}
		return out
	}
	if t.typ == tString || t.typ == tStringArray || t.typ == tI18n {
		out.data = make([]byte, t.count*sz[typ])
		return out
	}
	w := len(t.data)
	if t.count > 0 {
		w /= t.count
	}
	for k := 0; k < t.count; k++ {
		v := make([]byte, 8)
		copy(v[8-w:], t.data[k*w:(k+1)*w])
		out.data = append(out.data, v[8-sz[typ]:]...)
	}
	return out
}

// records SEED N TRACE
func recordsRandom(args []string) error {
	seed, n := int64(atoi(args[0])), atoi(args[1])
	tr := newTrace(args[2])
	for _, sc := range parallel(n, func(i int) rscenario {
		r := rand.New(rand.NewSource(seed*91009 + int64(i)))
		return runRecords(recordsFile(i, r), r)
	}) {
		tr.put(sc)
	}
	return tr.close()
}

func recordsFile(i int, r *rand.Rand) []byte {
	word := func() string {
		b := make([]byte, 1+r.Intn(6))
		for x := range b {
			b[x] = []byte("abcXYZ019_-+~.\xc3\xa9")[r.Intn(16)]
		}
		return string(b)
	}
	nf := []int{0, 1, 1, 2, 3, 5, 9, 30}[r.Intn(8)]
	many := i%300 == 11
	if many {
		nf = 250 + r.Intn(200)
	}
	var files []pfile
	for k := 0; k < nf; k++ {
		base := word()
		for strings.Trim(base, ".") == "" {
			base = word()
		}
		f := pfile{name: []string{"/", "/usr/", "/usr/share/d/", "/é/", ""}[r.Intn(5)] + base, mode: uint32(r.Intn(1 << 16)), user: word(), grp: word(),
			digest: word(), link: []string{"", word()}[r.Intn(2)], flags: r.Uint32(), mtime: r.Uint32(), dev: r.Uint32(), ino: r.Uint32(),
			size: []uint64{0, 1, 255, 256, 65536, 1<<31 - 1, 1 << 31, 1<<32 - 1}[r.Intn(8)]}
		if many {
			f.name = fmt.Sprintf("/d%d/", r.Intn(nf)) + base
		}
		files = append(files, f)
	}
	long := r.Intn(3) == 0
	if long {
		for k := range files {
			if r.Intn(2) == 0 {
				files[k].size = []uint64{1 << 32, 1<<32 + 1, 1 << 40, 1<<63 - 1}[r.Intn(4)]
			}
		}
		if r.Intn(12) == 0 && nf > 0 {
			files[r.Intn(nf)].size = []uint64{1 << 63, 1<<64 - 1}[r.Intn(2)]
		}
	}
	gt := fileTags(files, fileOpts{long: long, oldNames: r.Intn(4) == 0, noDevIno: r.Intn(5) == 0, mode32: r.Intn(6) == 0, noSlash: r.Intn(8) == 0})
	if long && nf > 0 && r.Intn(2) == 0 {
		// the 32-bit sizes are there too, and differ
		v := make([]uint32, nf)
		gt = append(gt, u32Tag(tagFileSizes, v...))
	}
	// identity
	str := func(tag int, p int) {
		switch r.Intn(p) {
		case 0:
		case 1:
			gt = append(gt, strArr(tag, []string{}...))
		case 2:
			gt = append(gt, htag{tag, tI18n, 1, append([]byte(word()), 0)})
		case 3:
			gt = append(gt, strArr(tag, word(), word()))
		case 4:
			gt = append(gt, u32Tag(tag, 7))
		default:
			gt = append(gt, strTag(tag, word()))
		}
	}
	for _, t := range []int{tagName, tagVersion, tagRelease, tagArch} {
		str(t, 60)
	}
	num := func(tag int, kinds int) []htag {
		v := []uint64{0, 1, 7, 255, 256, 1<<31 - 1, 1 << 31, 1<<32 - 1, 1 << 32, 1<<63 - 1, 1 << 63, 1<<64 - 1, r.Uint64()}[r.Intn(13)]
		switch r.Intn(kinds) {
		case 0:
			return []htag{u64Tag(tag, v)}
		case 1:
			return []htag{u16Tag(tag, uint16(v))}
		case 2:
			return []htag{{tag, tInt8, 1, []byte{byte(v)}}}
		case 3:
			return []htag{u32Tag(tag)}
		case 4:
			return []htag{u32Tag(tag, uint32(v), 5)}
		case 5:
			return []htag{strTag(tag, "3")}
		case 6:
			return nil
		}
		return []htag{u32Tag(tag, uint32(v))}
	}
	if r.Intn(2) == 0 {
		gt = append(gt, num(tagEpoch, 24)...)
	}
	var st []htag
	gt = append(gt, num(tagSize, 12)...)
	st = append(st, num(sigPayloadSize, 12)...)
	if r.Intn(2) == 0 {
		if t := num(tagLongSize, 10); r.Intn(3) > 0 || t == nil {
			gt = append(gt, u64Tag(tagLongSize, r.Uint64()>>uint(r.Intn(60))))
		} else {
			gt = append(gt, t...)
		}
	}
	if r.Intn(2) == 0 {
		if t := num(sigLongArchive, 10); r.Intn(3) > 0 || t == nil {
			st = append(st, u64Tag(sigLongArchive, r.Uint64()>>uint(r.Intn(60))))
		} else {
			st = append(st, t...)
		}
	}
	// decoys with the same numbers in the other area
	if r.Intn(3) == 0 {
		st = append(st, strTag(tagName, "decoy"), u32Tag(tagSize, 424242))
	}
	if r.Intn(3) == 0 {
		gt = append(gt, u64Tag(sigLongArchive, 434343))
		gt = append(gt, u32Tag(sigPayloadSize, 444444))
	}
	// break the parallel tags
	fileTag := func() int {
		for t := 0; t < 40; t++ {
			x := r.Intn(len(gt))
			switch gt[x].tag {
			case tagName, tagVersion, tagRelease, tagArch, tagEpoch, tagSize, tagLongSize, sigLongArchive, sigPayloadSize:
			default:
				return x
			}
		}
		return -1
	}
	if nf > 0 && i%2 == 0 {
		for k := 1 + r.Intn(2); k > 0; k-- {
			x := fileTag()
			if x < 0 {
				break
			}
			switch r.Intn(6) {
			case 0:
				gt = append(gt[:x], gt[x+1:]...)
			case 1:
				gt[x] = resize(gt[x], max(0, gt[x].count-1))
			case 2:
				gt[x] = resize(gt[x], gt[x].count+1)
			case 3:
				gt[x] = retype(gt[x], r.Intn(10))
			case 4:
				gt[x] = resize(gt[x], 0)
			case 5:
				for y := range gt {
					if gt[y].tag == tagDirIndexes && gt[y].count > 0 && len(gt[y].data) == 4*gt[y].count {
						binary.BigEndian.PutUint32(gt[y].data[4*r.Intn(gt[y].count):], []uint32{1, 2, 5, 6, 0xffffffff, 0x80000000, 0x10000}[r.Intn(7)])
					}
				}
			}
		}
	}
	r.Shuffle(len(gt), func(a, b int) { gt[a], gt[b] = gt[b], gt[a] })
	r.Shuffle(len(st), func(a, b int) { st[a], st[b] = st[b], st[a] })
	b := wholeFile(pad8(layHeader(uniq(st), 62*r.Intn(2))), layHeader(uniq(gt), 63*r.Intn(2)), []byte("payload"))
	b[6], b[7] = byte(r.Intn(8)/7), byte(r.Intn(3))
	return b
}

// uniq keeps the first of the tags with one number
func uniq(ts []htag) (out []htag) {
	seen := map[int]bool{}
	for _, t := range ts {
		if !seen[t.tag] {
			seen[t.tag] = true
			out = append(out, t)
		}
	}
	return
}

type oshape struct {
	SN  int `json:"sn"`
	SL  int `json:"sl"`
	GN  int `json:"gn"`
	GL  int `json:"gl"`
	Len int `json:"len"`
}

type orun struct {
	Res      string `json:"res"`
	Start    int    `json:"start"`
	End      int    `json:"end"`
	Orig     int    `json:"orig"`
	Rest     bool   `json:"rest"`
	Consumed int    `json:"consumed"`
	Same     bool   `json:"same"`
	How      string `json:"how"`
	What     string `json:"what"`
}

type oscenario struct {
	Shape oshape `json:"shape"`
	Runs  []orun `json:"runs"`
}

type counter struct {
	r io.Reader
	n int
}

func (c *counter) Read(p []byte) (int, error) {
	n, err := c.r.Read(p)
	c.n += n
	return n, err
}

// signedOffsets asks headers that were signed or written out
func signedOffsets(i int, r *rand.Rand, dir string) oscenario {
	b := sigPackage(i, r, true)
	w := func(o int) int { return int(binary.BigEndian.Uint32(b[o:])) }
	sc := oscenario{}
	sc.Shape = oshape{SN: w(104), SL: w(108), Len: len(b)}
	gen := (96 + 16 + 16*sc.Shape.SN + sc.Shape.SL + 7) &^ 7
	sc.Shape.GN, sc.Shape.GL = w(gen+8), w(gen+12)
	run := func(how string, f func(note func(h *rpmutils.RpmHeader)) error) {
		bad := watch(60*time.Second, func() {
			k := 0
			f(func(h *rpmutils.RpmHeader) {
				rg := h.GetRange()
				k++
				sc.Runs = append(sc.Runs, orun{Res: "ok", Start: rg.Start, End: rg.End, Orig: h.OriginalSignatureHeaderSize(), How: fmt.Sprint(how, " ", k)})
			})
		})
		if bad != "" {
			sc.Runs = append(sc.Runs, orun{Res: bad, How: how})
		}
	}
	same := r.Intn(2) == 0
	run("stream", func(note func(h *rpmutils.RpmHeader)) error {
		h, err := rpmutils.SignRpmStream(bytes.NewReader(b), testKey(), anyOpts(r))
		if err != nil {
			return err
		}
		note(h)
		h.DumpSignatureHeader(same)
		note(h)
		h.DumpSignatureHeader(!same)
		note(h)
		return nil
	})
	run("dump", func(note func(h *rpmutils.RpmHeader)) error {
		h, err := rpmutils.ReadHeader(bytes.NewReader(b))
		if err != nil {
			return err
		}
		h.DumpSignatureHeader(same)
		note(h)
		h.DumpSignatureHeader(!same)
		note(h)
		return nil
	})
	run("verify", func(note func(h *rpmutils.RpmHeader)) error {
		h, _, err := rpmutils.Verify(bytes.NewReader(b), nil)
		if err != nil {
			return err
		}
		note(h)
		h.DumpSignatureHeader(same)
		note(h)
		return nil
	})
	for _, how := range []string{"file", "in place", "insert", "insert in place"} {
		run(how, func(note func(h *rpmutils.RpmHeader)) error {
			in := fmt.Sprintf("%s/%d", dir, i)
			out := in
			if !strings.Contains(how, "place") {
				out += ".out"
			}
			defer os.Remove(in)
			defer os.Remove(out)
			must(0, os.WriteFile(in, b, 0644))
			f := must(os.Open(in))
			defer f.Close()
			var h *rpmutils.RpmHeader
			var err error
			if strings.HasPrefix(how, "insert") {
				h, err = rpmutils.RewriteWithSignatures(f, out, make([]byte, r.Intn(200)), make([]byte, r.Intn(200)))
			} else {
				h, err = rpmutils.SignRpmFile(f, out, testKey(), anyOpts(r))
			}
			if err != nil {
				return err
			}
			note(h)
			h.DumpSignatureHeader(same)
			note(h)
			return nil
		})
	}
	return sc
}

// stream tells how far it was read
type stream interface {
	io.Reader
	at() int
	done()
}

func (c *counter) at() int { return c.n }
func (c *counter) done()   {}

// seekable is a package somewhere in a file, or in memory
type seekable struct {
	io.ReadSeeker
	part  bool
	start int
	r     *rand.Rand
}

func (s *seekable) Read(p []byte) (int, error) {
	if s.part && len(p) > 1 {
		p = p[:1+s.r.Intn(len(p))]
	}
	return s.ReadSeeker.Read(p)
}
func (s *seekable) at() int { return int(must(s.Seek(0, io.SeekCurrent))) - s.start }
func (s *seekable) done() {
	if f, ok := s.ReadSeeker.(*os.File); ok {
		f.Close()
	}
}

// fileAt is seekable and a file
type fileAt struct {
	*os.File
	start int
}

func (f fileAt) at() int { return int(must(f.Seek(0, io.SeekCurrent))) - f.start }
func (f fileAt) done()   { f.Close() }

// positioned makes a stream of the bytes, which need not be at the beginning of it
func positioned(b []byte, ck, dir string, r *rand.Rand) stream {
	k := r.Intn(6)
	if k > 2 {
		return &counter{r: chunk(bytes.NewReader(b), ck, r.Int63())}
	}
	front := make([]byte, []int{0, 1, 7, 96, 200, 5000}[r.Intn(6)])
	r.Read(front)
	all := append(append([]byte{}, front...), b...)
	if k > 0 {
		s := &seekable{bytes.NewReader(all), k == 2, len(front), r}
		must(s.Seek(int64(len(front)), io.SeekStart))
		return s
	}
	f := must(os.CreateTemp(dir, "in"))
	os.Remove(f.Name())
	must(f.Write(all))
	must(f.Seek(int64(len(front)), io.SeekStart))
	return fileAt{f, len(front)}
}

// offsets SEED N TRACE
func offsets(args []string) error {
	seed, n := int64(atoi(args[0])), atoi(args[1])
	tr := newTrace(args[2])
	dir := must(os.MkdirTemp("", "vh-offsets"))
	defer os.RemoveAll(dir)
	for _, sc := range parallel(n, func(i int) oscenario {
		r := rand.New(rand.NewSource(seed*92009 + int64(i)))
		if i >= 4096 && i%4 == 0 {
			return signedOffsets((i-4096)/4, r, dir)
		}
		size := func(k int) int {
			if i < 4096 {
				return []int{0, 1, 2, 3, 4, 5, 6, 7}[k]
			}
			return []int{r.Intn(40), r.Intn(5000), 65536 + r.Intn(16), r.Intn(300000)}[r.Intn(4)]
		}
		num := func(k int) int {
			if i < 4096 {
				return k
			}
			return []int{r.Intn(4), r.Intn(300), r.Intn(5000)}[r.Intn(3)]
		}
		sl, gl, sn, gn := size(i&7), size(i>>3&7), num(i>>6&3), num(i>>8&3)
		if i%199 == 0 && i > 4096 {
			gn = 65535 - r.Intn(2)
			gl = 1 << 20
		}
		area := func(n, l int, tag int) []byte {
			var ents []rawEntry
			for k := 0; k < n; k++ {
				ents = append(ents, rawEntry{int32(tag + k), tBin, int32(r.Intn(l + 1)), 0})
				ents[k].count = int32(r.Intn(l - int(ents[k].offset) + 1))
			}
			d := make([]byte, l)
			r.Read(d)
			return rawHeader(ents, d)
		}
		pay := make([]byte, []int{0, 1, 7, 8, 9, 100, 70000}[r.Intn(7)])
		r.Read(pay)
		sig := area(sn, sl, 2000)
		padding := len(pad8(append([]byte{}, sig...))) - len(sig)
		for k := 0; k < padding; k++ {
			sig = append(sig, byte(r.Intn(256))) // what the padding holds does not matter
		}
		gen := area(gn, gl, 30000)
		b := wholeFile(sig, gen, pay)
		sc := oscenario{}
		whole := len(b)
		if r.Intn(4) == 0 {
			b = b[:max(0, len(b)-len(pay)-r.Intn(30))]
		}
		_ = whole
		sc.Shape = oshape{sn, sl, gn, gl, len(b)}
		for _, how := range []string{"ReadHeader", "ReadRpm", "Verify", "Sign"} {
			ck := pkgChunkers[r.Intn(len(pkgChunkers))]
			in := b
			o := orun{How: how + " " + ck}
			if len(b) > 1<<17 && ck != "full" {
				ck = "rand"
			}
			bad := watch(60*time.Second, func() {
				c := positioned(in, ck, dir, r)
				defer c.done()
				var h *rpmutils.RpmHeader
				var err error
				switch how {
				case "ReadHeader":
					h, err = rpmutils.ReadHeader(c)
				case "ReadRpm":
					var rpm *rpmutils.Rpm
					rpm, err = rpmutils.ReadRpm(c)
					if err == nil {
						h = rpm.Header
					}
				case "Verify":
					h, _, err = rpmutils.Verify(c, nil)
				case "Sign":
					h, err = rpmutils.SignRpmStream(c, testKey(), nil)
				}
				o.Res = map[bool]string{true: "ok", false: "err"}[err == nil]
				if err != nil {
					o.What = err.Error()
					return
				}
				rg := h.GetRange()
				o.Start, o.End, o.Orig = rg.Start, rg.End, h.OriginalSignatureHeaderSize()
				if how == "ReadHeader" || how == "ReadRpm" {
					o.Rest = true
					o.Consumed = c.at()
					rest, err := io.ReadAll(c)
					o.Same = err == nil && bytes.Equal(rest, pay[:max(0, len(in)-(len(b)-len(pay)))]) || len(in) < whole && err == nil && len(rest) == 0
				}
			})
			if bad != "" {
				o.Res = bad
			}
			if how == "Verify" || how == "Sign" {
				if o.Res == "err" {
					continue // these packages have no payload digest
				}
			}
			sc.Runs = append(sc.Runs, o)
		}
		return sc
	}) {
		tr.put(sc)
	}
	return tr.close()
}
