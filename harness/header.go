package main

import (
	"bytes"
	"crypto"
	"encoding/binary"
	"errors"
	"fmt"
	"io"
	"math/rand"
	"os"
	"os/exec"
	"sync"
	"syscall"
	"time"

	"github.com/ProtonMail/go-crypto/openpgp"
	"github.com/ProtonMail/go-crypto/openpgp/packet"
	rpmutils "github.com/sassoftware/go-rpmutils"
)

func init() {
	commands["header-gen"] = headerGen
	commands["header-random"] = headerRandom
	commands["header-huge"] = headerHuge
	commands["header-hostile"] = headerHostile
	commands["header-worker"] = headerWorker
	commands["header-endless"] = headerEndless
	commands["header-endless-all"] = headerEndlessAll
}

const sigBase = 16384

type hent struct {
	Tag  int32 `json:"tag"`
	Type int32 `json:"type"`
	Off  int32 `json:"off"`
	Cnt  int32 `json:"cnt"`
}

type harea struct {
	Ents []hent `json:"ents"`
	Data []int  `json:"data"`
}

type hacc struct {
	Op   string  `json:"op"`
	Tag  int     `json:"tag"`
	Tag2 int     `json:"tag2"`
	Res  string  `json:"res"`
	Kind string  `json:"kind"`
	V    [][]int `json:"v"`
	B    []int   `json:"b"`
	What string  `json:"what,omitempty"`
}

type hscenario struct {
	Whole bool     `json:"whole"`
	Sound bool     `json:"sound"`
	Sig   harea    `json:"sig"`
	Gen   harea    `json:"gen"`
	API   []string `json:"api"`
	Acc   []hacc   `json:"acc"`
	Bytes string   `json:"bytes,omitempty"`
}

// describe tells what a stream of bytes is, independently of the code under test
func describe(b []byte) (whole bool, sig, gen harea, payload int) {
	sig, gen = harea{[]hent{}, []int{}}, harea{[]hent{}, []int{}}
	if len(b) < 96 || !bytes.Equal(b[:4], []byte{0xed, 0xab, 0xee, 0xdb}) {
		return
	}
	at := 96
	one := func(pad bool) (h harea, ok bool) {
		if len(b)-at < 16 || binary.BigEndian.Uint32(b[at:]) != 0x8eade801 {
			return
		}
		n, l := int64(binary.BigEndian.Uint32(b[at+8:])), int64(binary.BigEndian.Uint32(b[at+12:]))
		p := l
		if pad {
			p = (l + 7) / 8 * 8
		}
		if 16+16*n+p > int64(len(b)-at) {
			return
		}
		t := b[at+16:]
		h = harea{[]hent{}, ints(t[16*n : 16*n+l])}
		for k := 0; k < int(n); k++ {
			w := func(o int) int32 { return int32(binary.BigEndian.Uint32(t[16*k+o:])) }
			h.Ents = append(h.Ents, hent{w(0), w(4), w(8), w(12)})
		}
		at += int(16 + 16*n + p)
		return h, true
	}
	s, ok := one(true)
	if !ok {
		return
	}
	g, ok := one(false)
	if !ok {
		return
	}
	return true, s, g, at
}

func strip(b []byte) []int {
	for len(b) > 0 && b[0] == 0 {
		b = b[1:]
	}
	return ints(b)
}

func uval(v uint64) []int { return strip(binary.BigEndian.AppendUint64(nil, v)) }

func errKind(err error) string {
	if err == nil {
		return "ok"
	}
	var ns rpmutils.NoSuchTagError
	if errors.As(err, &ns) {
		return "nosuch"
	}
	return "err"
}

func strVals(ss []string) [][]int {
	out := [][]int{}
	for _, s := range ss {
		out = append(out, ints([]byte(s)))
	}
	return out
}

func intVals[T uint8 | uint16 | uint32 | uint64 | int](vs []T) [][]int {
	out := [][]int{}
	for _, v := range vs {
		out = append(out, uval(uint64(v)))
	}
	return out
}

func access(h *rpmutils.RpmHeader, op string, tag, tag2 int) (a hacc) {
	a = hacc{Op: op, Tag: tag, Tag2: tag2, V: [][]int{}, B: []int{}}
	var err error
	switch op {
	case "has":
		a.Res = map[bool]string{true: "yes", false: "no"}[h.HasTag(tag)]
		return
	case "strings":
		var v []string
		v, err = h.GetStrings(tag)
		a.V = strVals(v)
	case "string":
		var v string
		v, err = h.GetString(tag)
		a.V = strVals([]string{v})
	case "ints":
		var v []int
		v, err = h.GetInts(tag)
		a.V = intVals(v)
	case "int":
		var v int
		v, err = h.GetInt(tag)
		a.V = intVals([]int{v})
	case "u32s":
		var v []uint32
		v, err = h.GetUint32s(tag)
		a.V = intVals(v)
	case "u32":
		var v uint32
		v, err = h.GetUint32(tag)
		a.V = intVals([]uint32{v})
	case "u64s":
		var v []uint64
		v, err = h.GetUint64s(tag)
		a.V = intVals(v)
	case "u64":
		var v uint64
		v, err = h.GetUint64(tag)
		a.V = intVals([]uint64{v})
	case "u64f":
		var v uint64
		v, err = h.GetUint64Fallback(tag, tag2)
		a.V = intVals([]uint64{v})
	case "bytes":
		var v []byte
		v, err = h.GetBytes(tag)
		a.B = ints(v)
	case "get":
		var v any
		v, err = h.Get(tag)
		switch x := v.(type) {
		case []string:
			a.Kind, a.V = "strings", strVals(x)
		case []byte:
			a.Kind, a.B = "bytes", ints(x)
		case []uint16:
			a.Kind, a.V = "u16", intVals(x)
		case []uint32:
			a.Kind, a.V = "u32", intVals(x)
		case []uint64:
			a.Kind, a.V = "u64", intVals(x)
		case nil:
		default:
			a.Kind = fmt.Sprintf("%T", v)
		}
	}
	a.Res = errKind(err)
	if err != nil {
		a.V, a.B, a.What = [][]int{}, []int{}, err.Error()
	}
	return
}

var accessors = []string{"has", "strings", "string", "ints", "int", "u32s", "u32", "u64s", "u64", "bytes", "get"}

var testKey = sync.OnceValue(func() *packet.PrivateKey {
	e := must(openpgp.NewEntity("x", "", "x@example.com", &packet.Config{Algorithm: packet.PubKeyAlgoEdDSA}))
	return e.PrivateKey
})

// watch runs f and reports a panic or hang
func watch(limit time.Duration, f func()) string {
	done := make(chan any, 1)
	go func() {
		defer func() { done <- recover() }()
		f()
	}()
	t := time.NewTimer(limit)
	defer t.Stop()
	select {
	case p := <-done:
		if p != nil {
			return fmt.Sprint("panic: ", p)
		}
		return ""
	case <-t.C:
		hung.Store(true)
		return "hang"
	}
}

// observe reads the stream in every way and uses every accessor
func observeHeaders(b []byte, r *rand.Rand, all, others bool) (sc hscenario) {
	whole, sig, gen, _ := describe(b)
	sc = hscenario{Whole: whole, Sig: sig, Gen: gen, API: []string{}, Acc: []hacc{}}
	var api []string
	var acc []hacc
	bad := watch(60*time.Second, func() {
		res := func(err error) {
			api = append(api, map[bool]string{true: "ok", false: "err"}[err == nil])
		}
		src := func() io.Reader { return chunk(bytes.NewReader(b), pkgChunkers[r.Intn(len(pkgChunkers))], r.Int63()) }
		h, err := rpmutils.ReadHeader(src())
		res(err)
		if others {
			_, _, verr := rpmutils.Verify(src(), nil)
			res(verr)
			_, serr := rpmutils.SignRpmStream(src(), testKey(), &rpmutils.SignatureOptions{Hash: crypto.SHA256})
			res(serr)
		}
		if err != nil {
			return
		}
		tags := map[int]bool{}
		var order []int
		add := func(t int) {
			if !tags[t] {
				tags[t] = true
				order = append(order, t)
			}
		}
		for _, e := range sig.Ents {
			if e.Tag > 0 && e.Tag < 1<<30 {
				add(int(e.Tag) + sigBase)
			}
			if e.Tag < 1000 {
				add(int(e.Tag))
			} else if e.Tag <= sigBase {
				add(int(e.Tag)) // the same number in the other area
			}
		}
		for _, e := range gen.Ents {
			add(int(e.Tag))
			if e.Tag < 1<<30 {
				add(int(e.Tag) + sigBase)
			}
		}
		for _, t := range []int64{1000, 1027, 5009, sigBase, sigBase + 1, 999, 0, -1, 1 << 40} {
			if r.Intn(3) == 0 || t == 1027 {
				if t < 1<<31 {
					add(int(t))
				} else {
					h.HasTag(int(t))
					h.Get(int(t))
				}
			}
		}
		for _, t := range order {
			for _, op := range accessors {
				if all || r.Intn(3) > 0 {
					acc = append(acc, access(h, op, t, 0))
				}
			}
			acc = append(acc, access(h, "u64f", t, order[r.Intn(len(order))]))
		}
		if others {
			_, err = h.GetFiles()
			res(err)
			_, err = h.GetNEVRA()
			res(err)
			_, err = h.InstalledSize()
			res(err)
			_, err = h.PayloadSize()
			res(err)
			h.GetRange()
			h.IsSource()
			_, err = h.DumpSignatureHeader(true)
			res(err)
			_, err = h.DumpSignatureHeader(false)
			res(err)
		}
	})
	if bad != "" {
		sc.API = []string{bad}
		return
	}
	sc.API = append(sc.API, api...)
	sc.Acc = append(sc.Acc, acc...)
	return
}

type hgen struct {
	Type, Off, Cnt int32
	Data           []int
	OK             bool
}

// areaBytes lays out a header
func areaBytes(ents []rawEntry, data []byte, sig bool) []byte {
	b := rawHeader(ents, data)
	if sig {
		b = pad8(b)
	}
	return b
}

func wholeFile(sig, gen, payload []byte) []byte {
	b := append(makeLead(false, "x"), sig...)
	return append(append(b, gen...), payload...)
}

// header-gen GEN TRACE SEED: every entry in the general header and in the signature header,
// with another one under the same number in the other area
func headerGen(args []string) error {
	gens, err := readAll[hgen](args[0])
	if err != nil {
		return err
	}
	var good []hgen
	for _, g := range gens {
		if g.OK {
			good = append(good, g)
		}
	}
	seed := int64(atoi(args[2]))
	tr := newTrace(args[1])
	for _, scs := range parallel(len(gens), func(i int) []hscenario {
		r := rand.New(rand.NewSource(seed*80001 + int64(i)))
		var out []hscenario
		tag := int32([]int{1000, 1007, 1004, 5009, 270, 16384, 2000}[r.Intn(7)])
		mk := func(g hgen, sig bool) []byte {
			return areaBytes([]rawEntry{{tag, g.Type, g.Off, g.Cnt}}, bytesOf(g.Data), sig)
		}
		g, o := gens[i], good[r.Intn(len(good))]
		for _, b := range [][]byte{wholeFile(mk(o, true), mk(g, false), nil), wholeFile(mk(g, true), mk(o, false), nil)} {
			sc := observeHeaders(b, r, true, false)
			sc.Sound = true
			out = append(out, sc)
		}
		return out
	}) {
		for _, sc := range scs {
			tr.put(sc)
		}
	}
	return tr.close()
}

// randTags makes a well-formed list of tags with the numbers given
func randTags(r *rand.Rand, tags []int) (out []htag) {
	for _, t := range tags {
		out = append(out, randTag(r, t, r.Intn(10), []int{0, 1, 1, 1, 2, 3, 17}[r.Intn(7)]))
	}
	return
}

func randTag(r *rand.Rand, t, typ, n int) htag {
	h := htag{tag: t, typ: typ, count: n}
	switch h.typ {
	case tNull:
		h.count = r.Intn(2)
	case tString, tStringArray, tI18n:
		if h.typ == tString {
			h.count = 1
		}
		for k := 0; k < h.count; k++ {
			s := make([]byte, r.Intn(6))
			for x := range s {
				s[x] = byte(1 + r.Intn(255))
			}
			h.data = append(append(h.data, s...), 0)
		}
	default:
		sz := map[int]int{tChar: 1, tInt8: 1, tInt16: 2, tInt32: 4, tInt64: 8, tBin: 1}[h.typ]
		h.data = make([]byte, n*sz)
		for x := 0; x < n; x++ {
			v := []uint64{0, 1, 255, 256, 1<<31 - 1, 1 << 31, 1<<32 - 1, 1 << 32, 1<<63 - 1, 1 << 63, 1<<64 - 1, r.Uint64(), uint64(r.Uint32()), 0x8000, 0x80}[r.Intn(15)]
			copy(h.data[x*sz:], binary.BigEndian.AppendUint64(nil, v)[8-sz:])
		}
	}
	return h
}

var someTags = []int{62, 63, 100, 257, 267, 268, 269, 270, 271, 273, 999, 1000, 1001, 1002, 1003, 1004, 1005, 1007, 1008, 1009, 1022, 1027, 1116, 1117,
	1118, 1125, 5008, 5009, 5011, 16383, 16384, 16385, 20000}

func pickTags(r *rand.Rand, n int) []int {
	p := r.Perm(len(someTags))[:n]
	var out []int
	for _, x := range p {
		out = append(out, someTags[x])
	}
	return out
}

func hasDigestTag(ts []htag) bool {
	for _, t := range ts {
		if t.tag == sigSHA1 || t.tag == sigSHA256 {
			return true
		}
	}
	return false
}

// header-huge SEED N TRACE: well-formed headers one of whose tags has very many values
func headerHuge(args []string) error {
	seed, n := int64(atoi(args[0])), atoi(args[1])
	tr := newTrace(args[2])
	for _, sc := range parallel(n, func(i int) hscenario {
		r := rand.New(rand.NewSource(seed*90017 + int64(i)))
		typ := []int{tStringArray, tI18n, tInt32, tInt16, tInt64, tBin, tInt8, tChar}[i%8]
		many := randTag(r, 20000, typ, []int{65535, 65536, 65537, 66000 + r.Intn(9000), 4000 + r.Intn(9000)}[r.Intn(5)])
		st, gt := randTags(r, []int{1000}), randTags(r, []int{1004, 20001})
		if r.Intn(2) == 0 {
			many.tag = 2000
			st = append(st, many)
		} else {
			gt = append(gt, many)
		}
		b := wholeFile(pad8(layHeader(st, 62)), layHeader(gt, 63), []byte("payload"))
		sc := observeHeaders(b, r, false, false)
		sc.Sound = true
		return sc
	}) {
		tr.put(sc)
	}
	return tr.close()
}

// header-random SEED N TRACE: well-formed headers with many tags in both areas
func headerRandom(args []string) error {
	seed, n := int64(atoi(args[0])), atoi(args[1])
	tr := newTrace(args[2])
	for _, sc := range parallel(n, func(i int) hscenario {
		r := rand.New(rand.NewSource(seed*90011 + int64(i)))
		var st, gt []htag
		st = randTags(r, pickTags(r, r.Intn(9)))
		for hasDigestTag(st) {
			st = randTags(r, pickTags(r, r.Intn(9)))
		}
		gt = randTags(r, pickTags(r, r.Intn(12)))
		sregion, gregion := 0, 0
		if r.Intn(2) == 0 {
			sregion = 62
		}
		if r.Intn(2) == 0 {
			gregion = 63
		}
		b := wholeFile(pad8(layHeader(st, sregion)), layHeader(gt, gregion), []byte("payload"))
		sc := observeHeaders(b, r, false, false)
		sc.Sound = true
		return sc
	}) {
		tr.put(sc)
	}
	return tr.close()
}

// hostile makes the bytes of hostile scenario i
func hostile(seed int64, i int) []byte {
	r := rand.New(rand.NewSource(seed*90071 + int64(i)))
	weird := func() uint32 {
		return []uint32{0, 1, 2, 7, 8, 16, 0xff, 0xffff, 0x10000, 0x0fffffff, 0x10000000, 0x7fffffff, 0x80000000, 0xffffffff, 0xfffffff0,
			0x20000000, 0x40000000, 0x1fffffff, 62, 63, r.Uint32(), uint32(r.Intn(100))}[r.Intn(22)]
	}
	var b []byte
	var offs []int // places of 32-bit numbers
	if r.Intn(2) == 0 {
		var files []pfile
		for k := 0; k < r.Intn(4); k++ {
			files = append(files, pfile{name: fmt.Sprintf("/d%d/f", k%2), mode: 0100644, size: 3, user: "u", grp: "g", digest: "d", ino: 1})
		}
		p := &pkg{sigReserve: r.Intn(20) - 4, digests: []string{"", "sha1", "sha256 md5", "md5", "payload sha256"}[r.Intn(5)], payload: []byte("payload"),
			noRegion: r.Intn(3) == 0}
		p.gen = append(basicGen(), fileTags(files, fileOpts{long: r.Intn(2) == 0, oldNames: r.Intn(3) == 0, noDevIno: r.Intn(2) == 0})...)
		if r.Intn(2) == 0 {
			p.sig = []htag{u32Tag(sigSize, 100), u32Tag(sigPayloadSize, 5), binTag([]int{sigPGP, sigRSA, sigDSA, sigGPG}[r.Intn(4)], []byte{0xc2, 0x10, 4, 0, 1, 8, 0, 0, 0, 0, 1, 2, 0, 1, 1, 0, 0, 0, 0, 0})}
		}
		b = p.build()
	} else {
		st := randTags(r, pickTags(r, r.Intn(6)))
		gt := randTags(r, pickTags(r, r.Intn(6)))
		switch r.Intn(5) {
		case 0:
			gt = append(gt, randTags(r, []int{tagPayloadDigest, tagPayloadDigestAlgo})...)
		case 1:
			gt = append(gt, strArr(tagPayloadDigest, "00"))
			gt = append(gt, randTags(r, []int{tagPayloadDigestAlgo})...)
		}
		b = wholeFile(pad8(layHeader(st, 62*r.Intn(2))), layHeader(gt, 63*r.Intn(2)), []byte("payload"))
	}
	whole, sig, _, pl := describe(b)
	if !whole {
		panic("harness: not whole")
	}
	sigLen := 16 + 16*len(sig.Ents) + (len(sig.Data)+7)/8*8
	for x := 96; x < pl; x += 4 {
		if x < 96+16+16*len(sig.Ents) || x >= 96+sigLen {
			offs = append(offs, x)
		}
	}
	if r.Intn(2) == 0 { // aim at the tables
		offs = offs[:0]
		for _, base := range []int{96, 96 + sigLen} {
			n := int(binary.BigEndian.Uint32(b[base+8:]))
			for x := 8; x < 16+16*n; x += 4 {
				offs = append(offs, base+x)
			}
		}
	}
	for k := 1 + r.Intn(3); k > 0; k-- {
		switch r.Intn(9) {
		case 0, 1, 2, 3, 4:
			if x := offs[r.Intn(len(offs))]; x+4 <= len(b) {
				binary.BigEndian.PutUint32(b[x:], weird())
			}
		case 5:
			b[r.Intn(len(b))] ^= byte(1 << r.Intn(8))
		case 6:
			b = b[:r.Intn(len(b)+1)]
			if len(b) == 0 {
				return b
			}
		case 7:
			x := 96 + r.Intn(max(1, len(b)-96))
			if x < len(b) {
				b[x] = byte(r.Intn(256))
			}
		case 8:
			x, y := r.Intn(len(b)), r.Intn(len(b))
			copy(b[x:], append([]byte{}, b[y:min(len(b), y+1+r.Intn(32))]...))
		}
	}
	return b
}

func runHostile(seed int64, i int) (sc hscenario) {
	b := hostile(seed, i)
	sc = observeHeaders(b, rand.New(rand.NewSource(int64(i))), false, true)
	sc.Bytes = fmt.Sprintf("%x", b)
	return
}

// header-worker SEED FROM N STEP OUT: appends one line per scenario; a line that is
// missing is one that ended the process
func headerWorker(args []string) error {
	seed, from, n, step := int64(atoi(args[0])), atoi(args[1]), atoi(args[2]), atoi(args[3])
	syscall.Setrlimit(syscall.RLIMIT_AS, &syscall.Rlimit{Cur: 12 << 30, Max: 12 << 30})
	f := must(os.OpenFile(args[4], os.O_CREATE|os.O_WRONLY|os.O_APPEND, 0644))
	for i := from; i < n; i += step {
		sc := runHostile(seed, i)
		if _, err := f.Write(append(marshal(sc), '\n')); err != nil {
			return err
		}
		if hung.Load() {
			os.Exit(4)
		}
	}
	return f.Close()
}

func countLines(path string) int {
	n := 0
	readLines(path, func([]byte) { n++ })
	return n
}

// header-hostile SEED N TRACE
func headerHostile(args []string) error {
	seed, n := int64(atoi(args[0])), atoi(args[1])
	const shards = 8
	exe := must(os.Executable())
	var wg sync.WaitGroup
	var firstErr error
	for s := 0; s < shards; s++ {
		s := s
		wg.Add(1)
		go func() {
			defer wg.Done()
			out := fmt.Sprintf("%s.%d", args[2], s)
			os.WriteFile(out, nil, 0644)
			for deaths := 0; deaths < 20; deaths++ {
				from := s + shards*countLines(out)
				if from >= n {
					return
				}
				cmd := exec.Command(exe, "header-worker", args[0], fmt.Sprint(from), args[1], fmt.Sprint(shards), out)
				var msg bytes.Buffer
				cmd.Stderr = &msg
				if err := cmd.Run(); err != nil {
					var ee *exec.ExitError
					if !errors.As(err, &ee) || ee.ExitCode() == 3 {
						firstErr = fmt.Errorf("%s: %s", err, msg.String())
						return
					}
					if ee.ExitCode() == 4 {
						return // it hangs: that is recorded, and enough
					}
					// the process died: that is what the scenario did
					at := s + shards*countLines(out)
					b := hostile(seed, at)
					w, sig, gen, _ := describe(b)
					m := msg.String()
					if len(m) > 300 {
						m = m[:300]
					}
					sc := hscenario{Whole: w, Sig: sig, Gen: gen, API: []string{"died: " + m}, Acc: []hacc{}, Bytes: fmt.Sprintf("%x", b)}
					f := must(os.OpenFile(out, os.O_WRONLY|os.O_APPEND, 0644))
					f.Write(append(marshal(sc), '\n'))
					f.Close()
				}
			}
		}()
	}
	wg.Wait()
	if firstErr != nil {
		return firstErr
	}
	tr := newTrace(args[2])
	for s := 0; s < shards; s++ {
		out := fmt.Sprintf("%s.%d", args[2], s)
		readLines(out, func(l []byte) { tr.put(rawJSON(l)) })
		os.Remove(out)
	}
	return tr.close()
}

// zeros is an endless stream
type zeros struct{}

func (zeros) Read(p []byte) (int, error) {
	clear(p)
	return len(p), nil
}

func endless(i int) (io.Reader, string) {
	claims := []uint32{0, 1, 0xffff, 0x10000, 0x0fffffff, 0x10000000, 0x10000001, 0x7fffffff, 0x80000000, 0xfffffff9, 0xffffffff}
	n, l := claims[i%len(claims)], claims[i/len(claims)%len(claims)]
	area := func(n, l uint32) []byte {
		b := binary.BigEndian.AppendUint32(nil, 0x8eade801)
		return binary.BigEndian.AppendUint32(binary.BigEndian.AppendUint32(append(b, 0, 0, 0, 0), n), l)
	}
	b := makeLead(false, "x")
	where := "sig"
	if i/len(claims)/len(claims) == 1 {
		b = append(b, area(0, 0)...)
		where = "gen"
	}
	return io.MultiReader(bytes.NewReader(append(b, area(n, l)...)), zeros{}), fmt.Sprintf("endless %s %x %x", where, n, l)
}

const endlessCases = 11 * 11 * 2

// header-endless FROM OUT: headers that claim sizes, and a stream that never ends
func headerEndless(args []string) error {
	syscall.Setrlimit(syscall.RLIMIT_AS, &syscall.Rlimit{Cur: 12 << 30, Max: 12 << 30})
	f := must(os.OpenFile(args[1], os.O_CREATE|os.O_WRONLY|os.O_APPEND, 0644))
	for i := atoi(args[0]); i < endlessCases; i++ {
		sc := hscenario{Whole: true, Sig: harea{[]hent{}, []int{}}, Gen: harea{[]hent{}, []int{}}, Acc: []hacc{}}
		r, what := endless(i)
		sc.Bytes = what
		var err error
		if bad := watch(60*time.Second, func() { _, err = rpmutils.ReadHeader(r) }); bad != "" {
			sc.API = []string{bad}
		} else {
			sc.API = []string{map[bool]string{true: "ok", false: "err"}[err == nil]}
		}
		if _, err := f.Write(append(marshal(sc), '\n')); err != nil {
			return err
		}
		if sc.API[0] == "hang" {
			os.Exit(4) // what hangs also takes the time of the rest
		}
	}
	return f.Close()
}

// header-endless-all TRACE
func headerEndlessAll(args []string) error {
	exe := must(os.Executable())
	out := args[0] + ".e"
	os.WriteFile(out, nil, 0644)
	for deaths := 0; deaths < 3 && countLines(out) < endlessCases; deaths++ {
		at := countLines(out)
		cmd := exec.Command(exe, "header-endless", fmt.Sprint(at), out)
		var msg bytes.Buffer
		cmd.Stderr = &msg
		if err := cmd.Run(); err != nil {
			var ee *exec.ExitError
			if !errors.As(err, &ee) || ee.ExitCode() == 3 {
				return fmt.Errorf("%s: %s", err, msg.String())
			}
			if ee.ExitCode() == 4 {
				continue
			}
			m := msg.String()
			if len(m) > 300 {
				m = m[:300]
			}
			_, what := endless(countLines(out))
			sc := hscenario{Whole: true, Sig: harea{[]hent{}, []int{}}, Gen: harea{[]hent{}, []int{}}, API: []string{"died: " + m}, Acc: []hacc{}, Bytes: what}
			f := must(os.OpenFile(out, os.O_WRONLY|os.O_APPEND, 0644))
			f.Write(append(marshal(sc), '\n'))
			f.Close()
		}
	}
	tr := newTrace(args[0])
	readLines(out, func(l []byte) { tr.put(rawJSON(l)) })
	os.Remove(out)
	return tr.close()
}
