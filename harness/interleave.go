package main

import (
	"bytes"
	"crypto"
	"encoding/json"
	"fmt"
	"io"
	"io/fs"
	"math/rand"
	"os"
	"os/exec"
	"path/filepath"
	"sort"
	"strings"
	"sync"
	"syscall"
	"time"

	"github.com/ProtonMail/go-crypto/openpgp"
	"github.com/ProtonMail/go-crypto/openpgp/packet"
	rpmutils "github.com/sassoftware/go-rpmutils"
	"github.com/sassoftware/go-rpmutils/cpio"
)

func init() {
	commands["interleave"] = func(args []string) error { return extractSharded("interleave", args) }
	commands["alone"] = alone
}

// An actor is one user of the library: it makes calls, one after the other, on objects of its own
// (or on a header that is shared), and what they answer is to depend on nothing else.
type actor struct {
	top   string                     // a directory of its own
	pause func()                     // gives the others a turn
	hdr   func() *rpmutils.RpmHeader // the shared header
	out   []string                   // what the calls answered
	keep  []func() string            // values returned, looked at once more at the end
	was   []string
	ring  openpgp.EntityList
}

func short(s string) string {
	if len(s) > 100 {
		return s[:40] + ".." + sum([]byte(s))
	}
	return s
}

func (a *actor) call(name string, f func() string) {
	a.pause()
	var s string
	func() {
		defer func() {
			if p := recover(); p != nil {
				s = fmt.Sprint("panic: ", p)
			}
		}()
		s = f()
	}()
	a.out = append(a.out, name+": "+short(strings.ReplaceAll(s, a.top, "TOP")))
}

// hold remembers a value, to see whether it changes later
func (a *actor) hold(v any) string {
	f := func() string { return fmt.Sprintf("%v", v) }
	a.keep = append(a.keep, f)
	a.was = append(a.was, f())
	return a.was[len(a.was)-1]
}

func (a *actor) still() bool {
	for i, f := range a.keep {
		if f() != a.was[i] {
			return false
		}
	}
	return true
}

// gate lets others have a turn before every read of the stream
type gate struct {
	r io.Reader
	a *actor
}

func (g gate) Read(p []byte) (int, error) {
	g.a.pause()
	return g.r.Read(p)
}

func (a *actor) stream(b []byte, r *rand.Rand) io.Reader {
	n := 3
	if len(b) > 3000 {
		n = 2
	}
	return gate{chunk(bytes.NewReader(b), []string{"full", "half", "rand"}[r.Intn(n)], r.Int63()), a}
}

// keysOf makes the same keys each time; go-crypto's private keys are not for use by several at once
func keysOf() (l openpgp.EntityList) {
	for k := int64(0); k < 3; k++ {
		l = append(l, must(openpgp.NewEntity(fmt.Sprint("k", k), "", "k@example.com", &packet.Config{Algorithm: packet.PubKeyAlgoEdDSA,
			Rand: rand.New(rand.NewSource(k + 77)), Time: func() time.Time { return time.Unix(1400000000, 0) }})))
	}
	return
}

var sharedOpts = &rpmutils.SignatureOptions{CreationTime: time.Unix(1500000000, 0)}

// useHeader reads tags; a header of its own is also written out (which changes its reserved space)
func useHeader(a *actor, h *rpmutils.RpmHeader, r *rand.Rand, n int, own bool) {
	var tags []int
	for t := 1000; t < 1200; t++ {
		if h.HasTag(t) {
			tags = append(tags, t)
		}
	}
	tags = append(tags, 1, 257, 269, 273, 1000, 1004, 1007, 5092)
	for ; n > 0; n-- {
		tag := tags[r.Intn(len(tags))]
		switch r.Intn(10) {
		case 0:
			a.call("GetFiles", func() string {
				fs, err := h.GetFiles()
				for _, f := range fs {
					a.hold(f)
				}
				return string(marshal(rfilesOf(fs, err)))
			})
		case 1:
			a.call("GetNEVRA", func() string {
				v, err := h.GetNEVRA()
				if v == nil {
					return fmt.Sprint(err)
				}
				return a.hold(v) + fmt.Sprint(err, v.String())
			})
		case 2:
			same := r.Intn(2) == 0
			if !own {
				continue
			}
			a.call("Dump", func() string {
				b, err := h.DumpSignatureHeader(same)
				return a.hold(b) + fmt.Sprint(err)
			})
		case 3:
			a.call("sizes", func() string {
				i, err := h.InstalledSize()
				p, err2 := h.PayloadSize()
				return fmt.Sprint(i, err, p, err2, h.GetRange(), h.OriginalSignatureHeaderSize(), h.IsSource())
			})
		case 4:
			a.call("Get", func() string {
				v, err := h.Get(tag)
				return a.hold(v) + fmt.Sprint(err)
			})
		case 5:
			a.call("GetBytes", func() string {
				v, err := h.GetBytes(tag)
				return a.hold(v) + fmt.Sprint(err)
			})
		case 6:
			a.call("GetStrings", func() string {
				v, err := h.GetStrings(tag)
				return a.hold(v) + fmt.Sprint(err)
			})
		default:
			op := accessors[r.Intn(len(accessors))]
			a.call(fmt.Sprint(op, tag), func() string { return string(marshal(access(h, op, tag, 1000))) })
		}
	}
}

func headerData(seed int64) []byte {
	r := rand.New(rand.NewSource(seed*7 + 5))
	if r.Intn(3) == 0 {
		return sigPackage(1000, r, false)
	}
	return recordsFile(1000, r)
}

func useArchive(a *actor, x archiveAPI, readable bool, r *rand.Rand) {
	for k := 0; k < 60; k++ {
		var end bool
		a.call("Next", func() string {
			h, err := x.Next()
			end = err != nil
			return fmt.Sprint(oneString(h), err)
		})
		if end {
			return
		}
		for readable && r.Intn(5) > 0 {
			buf := make([]byte, []int{1, 4, 100, 5000, 1 << 17}[r.Intn(5)])
			var err error
			a.call("Read", func() string {
				var n int
				n, err = io.ReadFull(x, buf)
				a.hold(buf[:n])
				return fmt.Sprint(n, err, sum(buf[:n]))
			})
			if err != nil {
				break
			}
		}
	}
}

func tree(dir string) string {
	var out []string
	filepath.WalkDir(dir, func(p string, d fs.DirEntry, err error) error {
		if err != nil {
			out = append(out, err.Error())
			return nil
		}
		s := d.Type().String() + " " + strings.TrimPrefix(p, dir)
		if d.Type().IsRegular() {
			b, _ := os.ReadFile(p)
			s += " " + sum(b)
		} else if d.Type()&fs.ModeSymlink != 0 {
			t, _ := os.Readlink(p)
			s += " " + t
		}
		out = append(out, s)
		return nil
	})
	return strings.Join(out, "\n")
}

func (a *actor) keys() openpgp.EntityList {
	if a.ring == nil {
		a.ring = keysOf()
	}
	return a.ring
}

func (a *actor) signedPackage(r *rand.Rand) []byte {
	p := &pkg{payload: make([]byte, 1+r.Intn(2000)), sigReserve: r.Intn(200) - 50, digests: []string{"payload sha256", "payload sha1 md5", "payload"}[r.Intn(3)]}
	r.Read(p.payload)
	p.gen = append(basicGen(), strTag(1004, fmt.Sprint(r.Int63())))
	gen := p.genHeader()
	for _, tag := range []int{268, 1002} {
		if r.Intn(4) > 0 {
			key := a.keys()[r.Intn(3)].PrivateKey
			content := gen
			if tag == 1002 {
				content = append(append([]byte{}, gen...), p.payload...)
			}
			p.sig = append(p.sig, binTag(tag, makeSig(key, key, []crypto.Hash{crypto.SHA256, crypto.SHA512}[r.Intn(2)], uint32(1500000000+r.Intn(1e7)), "both", content, r).pkt))
		}
	}
	b := p.build()
	if r.Intn(5) == 0 {
		b[len(b)-1-r.Intn(len(p.payload))] ^= 1
	}
	return b
}

func (a *actor) reports(sigs []*rpmutils.Signature) string {
	var out []string
	for _, s := range sigs {
		who := "none"
		for k, e := range a.keys() {
			if e == s.Signer {
				who = fmt.Sprint(k)
			}
		}
		out = append(out, fmt.Sprint(who, s.PrimaryName, s.KeyId, s.KeyFingerprint, s.Hash, s.CreationTime.Unix(), s.HeaderOnly))
	}
	return strings.Join(out, "; ")
}

const actorKinds = 9

// perform is program number `seed` of the kind
func (a *actor) perform(kind int, seed int64) {
	r := rand.New(rand.NewSource(seed*131 + int64(kind)))
	switch kind {
	case 0: // a header of its own
		b := headerData(seed)
		var h *rpmutils.RpmHeader
		a.call("ReadHeader", func() (s string) {
			var err error
			h, err = rpmutils.ReadHeader(a.stream(b, r))
			return fmt.Sprint(err)
		})
		if h != nil {
			useHeader(a, h, r, 12, true)
		}
	case 1: // a header used by others, too
		if h := a.hdr(); h != nil {
			useHeader(a, h, r, 12, false)
		}
	case 2: // the payload of a package
		ents, ar, files := zpayload(r)
		for k, e := range ar {
			e.raw, e.Size = ents[k].data, big(int64(len(ents[k].data)))
			e.finish()
		}
		ext := r.Intn(3) > 0
		ar, comp := withTrailer(ar), compressors[r.Intn(len(compressors))]
		segs, _ := layout(ar, r)
		p := &pkg{sigReserve: -1, digests: "sha256", payload: compress(comp, readSegs(segs, -1))}
		p.gen = append(append(basicGen(), fileTags(files, fileOpts{})...), strTag(tagPayloadCompressor, comp))
		b := p.build()
		var x archiveAPI
		a.call("ReadRpm "+comp, func() string {
			var src io.Reader = bytes.NewReader(b)
			if comp != "zstd" { // it reads ahead in another goroutine
				src = a.stream(b, r)
			}
			rpm, err := rpmutils.ReadRpm(src)
			if err != nil {
				return err.Error()
			}
			if ext {
				pr, err := rpm.PayloadReaderExtended()
				x = extAPI{pr}
				if err != nil {
					x = nil
				}
				return fmt.Sprint(err)
			}
			pr, err := rpm.PayloadReader()
			x = plainAPI{pr}
			if err != nil {
				x = nil
			}
			return fmt.Sprint(err)
		})
		if x != nil {
			useArchive(a, x, true, r)
		}
	case 3: // an archive
		ar, sizes, _ := littleArchive(r, false)
		segs, _ := layout(ar, r)
		data := readSegs(segs, -1)
		api := []string{"reader", "reader", "stream"}[r.Intn(3)]
		var x archiveAPI
		a.call("open", func() string { x = openArchive(api, a.stream(data, r), sizes); return api })
		useArchive(a, x, api == "reader", r)
	case 4: // extraction
		var ents []*xentry
		for k := r.Intn(6); k >= 0; k-- {
			e := &xentry{T: []string{"file", "file", "file", "dir", "link"}[r.Intn(5)]}
			e.Name.Raw = fmt.Sprintf("./%c%d", e.T[0], k)
			if r.Intn(3) == 0 {
				e.Name.Raw = fmt.Sprintf("./d9/%c%d", e.T[0], k)
			}
			switch e.T {
			case "file":
				e.content = make([]byte, []int{0, 1, 4, 100, 3000, 70000}[r.Intn(6)])
				r.Read(e.content)
			case "link":
				e.To.Raw = fmt.Sprint("to", r.Int63())
			}
			e.finish(r)
			ents = append(ents, e)
		}
		setKeys(ents, r)
		segs, _ := layout(archiveOf(ents, r), r)
		data := readSegs(segs, -1)
		a.call("Extract", func() string { return fmt.Sprint(cpio.Extract(a.stream(data, r), a.top+"/x")) })
		a.call("look", func() string { return tree(a.top + "/x") })
	case 5: // verification
		b := a.signedPackage(r)
		keys := a.keys()[:r.Intn(4)]
		if len(keys) == 0 {
			keys = nil
		}
		a.call("Verify", func() string {
			h, sigs, err := rpmutils.Verify(a.stream(b, r), keys)
			for _, s := range sigs {
				a.hold(*s)
			}
			if h != nil {
				defer useHeader(a, h, r, 3, true)
			}
			return fmt.Sprint(err, h != nil, a.reports(sigs))
		})
	case 6: // signing a stream
		b := a.signedPackage(r)
		key := a.keys()[r.Intn(3)]
		opts := sharedOpts
		if r.Intn(2) == 0 {
			opts = &rpmutils.SignatureOptions{Hash: crypto.SHA384, CreationTime: time.Unix(1600000000, 0)}
		}
		if r.Intn(4) == 0 {
			// the signatures have the current time
			var opts = &rpmutils.SignatureOptions{Hash: crypto.SHA512}
			a.hold(opts)
			a.call("SignRpmStream now", func() (s string) {
				_, err := rpmutils.SignRpmStream(a.stream(b, r), key.PrivateKey, opts)
				return fmt.Sprint(err)
			})
			return
		}
		var h *rpmutils.RpmHeader
		a.call("SignRpmStream", func() (s string) {
			var err error
			h, err = rpmutils.SignRpmStream(a.stream(b, r), key.PrivateKey, opts)
			return fmt.Sprint(err)
		})
		if h != nil {
			a.signed(h, b, r)
		}
		a.call("opts", func() string { return a.hold(*opts) })
	case 7: // signing files
		b := a.signedPackage(r)
		key := a.keys()[r.Intn(3)]
		for k := 0; k < 2; k++ {
			a.call("SignRpmFile", func() (s string) {
				in, out := fmt.Sprintf("%s/in%d", a.top, k), fmt.Sprintf("%s/out%d", a.top, k*r.Intn(2))
				if r.Intn(4) == 0 {
					out = in
				}
				if err := os.WriteFile(in, b, 0644); err != nil {
					panic(err)
				}
				f := must(os.Open(in))
				defer f.Close()
				a.pause()
				h, err := rpmutils.SignRpmFile(f, out, key.PrivateKey, sharedOpts)
				o, _ := os.ReadFile(out)
				names, _ := filepath.Glob(a.top + "/*")
				if h != nil {
					defer useHeader(a, h, r, 3, true)
				}
				return fmt.Sprint(err, h != nil, sum(o), names)
			})
		}
	case 8: // versions
		vs := family(r, 12)
		ns := randNevras(r, 12)
		for k := 0; k < 4; k++ {
			a.call("Vercmp", func() string { return fmt.Sprint(safeVercmp(vs[k], vs[k+1]), safeNevraCmp(ns[k], ns[k+1])) })
		}
		a.call("sort", func() string {
			sort.Sort(rpmutils.VersionSlice(vs))
			return fmt.Sprintf("%q", vs)
		})
		a.call("sort", func() string {
			sort.Sort(rpmutils.NEVRASlice(ns))
			return fmt.Sprintf("%q", ns)
		})
	}
}

// signed writes the header and verifies the package
func (a *actor) signed(h *rpmutils.RpmHeader, b []byte, r *rand.Rand) {
	useHeader(a, h, r, 4, true)
	var out []byte
	a.call("write", func() string {
		hb, err := h.DumpSignatureHeader(r.Intn(2) == 0)
		if err != nil {
			return err.Error()
		}
		out = append(hb, b[h.OriginalSignatureHeaderSize():]...)
		return sum(out)
	})
	if out != nil {
		a.call("Verify", func() string {
			_, sigs, err := rpmutils.Verify(a.stream(out, r), a.keys())
			return fmt.Sprint(err, a.reports(sigs))
		})
	}
}

func withTrailer(ar []*centry) []*centry {
	t := &centry{K: "newc", Size: big(0), Trailer: true, name: cpio.TRAILER}
	t.f[fNlink] = 1
	t.finish()
	return append(ar, t)
}

// -- schedules ---------------------------------------------------------------

type iprog struct {
	Kind int   `json:"kind"`
	Seed int64 `json:"seed"`
}

type ievent struct {
	U     int    `json:"u"` // from 1
	Ans   string `json:"ans"`
	Still bool   `json:"still"`
}

type iscen struct {
	How   string     `json:"how"`
	Progs []iprog    `json:"progs"`
	Turns []int      `json:"turns"`
	Alone [][]string `json:"alone"`
	Ev    []ievent   `json:"ev"`
	Over  []bool     `json:"over"` // everything returned is as it was
}

// alone TOP KIND SEED: one program in a process of its own
func alone(args []string) error {
	p := iprog{atoi(args[1]), int64(atoi(args[2]))}
	a := newActor(args[0], p, nil)
	a.perform(p.Kind, p.Seed)
	if !a.still() {
		a.out = append(a.out, "changed later")
	}
	os.Stdout.Write(marshal(a.out))
	return nil
}

func newActor(top string, p iprog, shared map[int64]*rpmutils.RpmHeader) *actor {
	if err := os.MkdirAll(top, 0755); err != nil {
		panic(err)
	}
	a := &actor{top: top, pause: func() {}}
	a.hdr = func() *rpmutils.RpmHeader {
		if h := shared[p.Seed/100]; h != nil {
			return h
		}
		h, _ := rpmutils.ReadHeader(bytes.NewReader(headerData(p.Seed / 100)))
		return h
	}
	return a
}

// runTurns lets the actors take turns: the schedule is repeated until all are done
func runTurns(top string, sc *iscen, r *rand.Rand) string {
	shared := map[int64]*rpmutils.RpmHeader{}
	n := len(sc.Progs)
	as, grant, yield, done := make([]*actor, n), make([]chan struct{}, n), make([]chan bool, n), make([]bool, n)
	for k, p := range sc.Progs {
		if p.Kind == 1 && shared[p.Seed/100] == nil {
			shared[p.Seed/100], _ = rpmutils.ReadHeader(bytes.NewReader(headerData(p.Seed / 100)))
		}
		k, p := k, p
		a := newActor(fmt.Sprintf("%s/%d", top, k), p, shared)
		as[k], grant[k], yield[k] = a, make(chan struct{}), make(chan bool)
		a.pause = func() { yield[k] <- false; <-grant[k] }
		go func() {
			<-grant[k]
			a.perform(p.Kind, p.Seed)
			yield[k] <- true
		}()
	}
	t := time.NewTimer(60 * time.Second)
	defer t.Stop()
	seen := make([]int, n)
	stride := 1 + r.Intn(6)
	for left, k := n, 0; left > 0; k++ {
		u := sc.Turns[k%len(sc.Turns)] - 1
		for x := 1 + r.Intn(stride); x > 0 && !done[u]; x-- {
			grant[u] <- struct{}{}
			select {
			case done[u] = <-yield[u]:
			case <-t.C:
				hung.Store(true)
				return "hang"
			}
			for ; seen[u] < len(as[u].out); seen[u]++ {
				sc.Ev = append(sc.Ev, ievent{u + 1, as[u].out[seen[u]], as[u].still()})
			}
			if done[u] {
				left--
			}
		}
	}
	for _, a := range as {
		sc.Over = append(sc.Over, a.still())
	}
	return ""
}

// runFree lets them run at the same time
func runFree(top string, sc *iscen) string {
	shared := map[int64]*rpmutils.RpmHeader{}
	n := len(sc.Progs)
	as := make([]*actor, n)
	for k, p := range sc.Progs {
		if p.Kind == 1 && shared[p.Seed/100] == nil {
			shared[p.Seed/100], _ = rpmutils.ReadHeader(bytes.NewReader(headerData(p.Seed / 100)))
		}
		as[k] = newActor(fmt.Sprintf("%s/%d", top, k), p, shared)
	}
	bad := watch(120*time.Second, func() {
		var wg sync.WaitGroup
		start := make(chan struct{})
		for k, p := range sc.Progs {
			wg.Add(1)
			k, p := k, p
			go func() {
				defer wg.Done()
				<-start
				as[k].perform(p.Kind, p.Seed)
			}()
		}
		close(start)
		wg.Wait()
	})
	if bad != "" {
		return bad
	}
	for u, a := range as {
		for _, s := range a.out {
			sc.Ev = append(sc.Ev, ievent{u + 1, s, true})
		}
		sc.Over = append(sc.Over, a.still())
	}
	return ""
}

// interleave GEN TRACE NFREE SEED: shard number `shard`
func interleaveShard(top string, shard, shards int, args []string, tr *traceWriter) error {
	var gens [][]int
	if args[0] != "-" {
		var err error
		if gens, err = readAll[[]int](args[0]); err != nil {
			return err
		}
	}
	free, seed := atoi(args[2]), int64(atoi(args[3]))
	exe := os.Getenv("VH_ALONE")
	if exe == "" {
		exe = must(os.Executable())
	}
	known := map[iprog][]string{}
	lonely := func(p iprog) []string {
		if known[p] == nil {
			cmd := exec.Command(exe, "alone", top+"/alone", fmt.Sprint(p.Kind), fmt.Sprint(p.Seed))
			var errs bytes.Buffer
			cmd.Stderr = &errs
			out, err := cmd.Output()
			var v []string
			if err != nil {
				v = []string{"failed: " + errs.String()}
			} else if err = json.Unmarshal(out, &v); err != nil {
				v = []string{"failed: " + string(out)}
			}
			if v == nil {
				v = []string{}
			}
			known[p] = v
			os.RemoveAll(top + "/alone")
		}
		return known[p]
	}
	syscall.Umask(022)
	do := func(i int, turns []int, r *rand.Rand) {
		n := 8
		if turns != nil {
			n = lastUser(turns)
		}
		sc := iscen{How: "turns", Turns: append([]int{}, turns...), Ev: []ievent{}, Over: []bool{}}
		same := r.Intn(3) == 0 // of one kind
		kind, hundred := r.Intn(actorKinds), r.Intn(5)*100
		if same && r.Intn(3) == 0 {
			kind = 1
		}
		for k := 0; k < n; k++ {
			if !same {
				kind = r.Intn(actorKinds)
			}
			if !same && kind != 1 {
				hundred = r.Intn(5) * 100
			}
			// some programs of every kind, so that each is known soon; shared headers come in pairs
			p := iprog{kind, seed*10000 + int64(shard*1000+hundred+r.Intn(3))}
			sc.Progs = append(sc.Progs, p)
			sc.Alone = append(sc.Alone, lonely(p))
		}
		dir := fmt.Sprintf("%s/s%d", top, i)
		var bad string
		if turns != nil {
			bad = runTurns(dir, &sc, r)
		} else {
			sc.How = "free"
			bad = runFree(dir, &sc)
		}
		if bad != "" {
			sc.Ev = append(sc.Ev, ievent{1, bad, false})
		}
		tr.put(sc)
		os.RemoveAll(dir)
	}
	for i, g := range gens {
		if i%shards == shard && !hung.Load() {
			do(i, g, rand.New(rand.NewSource(seed*50021+int64(i))))
		}
	}
	for i := shard; i < free && !hung.Load(); i += shards {
		do(i, nil, rand.New(rand.NewSource(seed*60013+int64(i))))
	}
	return nil
}

func lastUser(turns []int) int {
	n := 0
	for _, u := range turns {
		n = max(n, u)
	}
	return n
}
