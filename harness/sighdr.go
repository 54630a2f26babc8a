package main

import (
	"bytes"
	"crypto"
	_ "crypto/md5"
	"crypto/sha256"
	"encoding/binary"
	"fmt"
	"io"
	"math/rand"
	"os"
	"sync"
	"syscall"
	"time"

	"github.com/ProtonMail/go-crypto/openpgp"
	"github.com/ProtonMail/go-crypto/openpgp/packet"
	rpmutils "github.com/sassoftware/go-rpmutils"
)

func init() {
	commands["sighdr"] = sighdr
	commands["signbytes"] = signBytes
}

type wevent struct {
	Op    string `json:"op"`
	Res   string `json:"res"`
	Same  bool   `json:"same"`
	Lead  string `json:"lead"`
	Rest  string `json:"rest"`
	Ents  []hent `json:"ents"`
	Data  []int  `json:"data"`
	Total int    `json:"total"`
	ID    string `json:"id"`
	Min   string `json:"min"`
	Max   string `json:"max"`
	PGP   []int  `json:"pgp"`
	RSA   []int  `json:"rsa"`
	Acc   []hacc `json:"acc"`
	How   string `json:"how"`
	What  string `json:"what,omitempty"`
}

type wscenario struct {
	Sig  harea    `json:"sig"`
	Size int      `json:"size"`
	Lead string   `json:"lead"`
	Rest string   `json:"rest"`
	Ev   []wevent `json:"ev"`
}

func ident(b []byte) string {
	s := sha256.Sum256(b)
	return fmt.Sprintf("%x-%d", s[:6], len(b))
}

func okErr(err error) string {
	if err != nil {
		return "err"
	}
	return "ok"
}

// sigPart takes lead, signature header and the rest apart
func sigPart(b []byte) (lead []byte, area harea, sig, rest []byte, ok bool) {
	if len(b) < 112 || binary.BigEndian.Uint32(b[96:]) != 0x8eade801 {
		return
	}
	n, l := int64(binary.BigEndian.Uint32(b[104:])), int64(binary.BigEndian.Uint32(b[108:]))
	end := 96 + 16 + 16*n + (l+7)/8*8
	if end > int64(len(b)) {
		return
	}
	lead, sig, rest = b[:96], b[96:end], b[end:]
	area = harea{[]hent{}, ints(sig[16+16*n : 16+16*n+l])}
	for k := 0; k < int(n); k++ {
		w := func(o int) int32 { return int32(binary.BigEndian.Uint32(sig[16+16*k+o:])) }
		area.Ents = append(area.Ents, hent{w(0), w(4), w(8), w(12)})
	}
	return lead, area, sig, rest, true
}

func newEvent(op string) wevent {
	return wevent{Op: op, Ents: []hent{}, Data: []int{}, PGP: []int{}, RSA: []int{}, Acc: []hacc{}}
}

// sigPackage makes package number i with a signature header of many shapes; digests that
// allow signing
func sigPackage(i int, r *rand.Rand, signing bool) []byte {
	p := &pkg{payload: make([]byte, r.Intn(50)), source: r.Intn(4) == 0, noRegion: r.Intn(4) == 0, sigReserve: -1}
	r.Read(p.payload)
	if signing && r.Intn(20) == 0 {
		p.payload = make([]byte, r.Intn(1<<20))
		if r.Intn(9) == 0 {
			p.payload = make([]byte, []int{16, 32, 64, 64}[r.Intn(4)]<<20+r.Intn(20<<20))
		}
		r.Read(p.payload)
	}
	p.gen = basicGen()
	p.digests = []string{"payload sha256", "payload sha1", "md5", "md5 sha1", "payload md5 sha256 sha1", "payload"}[r.Intn(6)]
	pool := []int{64, 100, 257, 267, 268, 269, 270, 271, 273, 500, 999, 1000, 1001, 1002, 1003, 1005, 1006, 1007, 1009, 1010, 2000, 30000, 1 << 30}
	var pick []int
	for _, x := range r.Perm(len(pool))[:r.Intn(9)] {
		if t := pool[x]; t != sigSHA1 && t != sigSHA256 {
			pick = append(pick, t)
		}
	}
	p.sig = randTags(r, pick)
	switch r.Intn(4) {
	case 0:
		p.sigReserve = r.Intn(600)
	case 1:
		p.sigReserve = r.Intn(40)
	}
	if i >= 700 && r.Intn(50) == 0 {
		// large
		n := r.Intn(20000)
		if r.Intn(4) == 0 {
			n = r.Intn(70000)
		}
		if r.Intn(2) == 0 {
			p.sigReserve = n
		} else {
			x := make([]byte, n+1)
			r.Read(x)
			p.sig = append(p.sig, binTag(2001, x))
		}
	}
	if i < 700 {
		p.sigReserve = i
		p.sig = randTags(r, []int{1000, 1007})
	}
	gen := p.genHeader()
	sig := p.sigHeader(gen)
	switch r.Intn(5) {
	case 0:
		// tags in another order, unused room in the data
		_, area, _, _, _ := sigPart(append(makeLead(false, "x"), sig...))
		var ents []rawEntry
		for _, e := range area.Ents {
			if e.Tag >= 64 || r.Intn(2) == 0 {
				ents = append(ents, rawEntry{e.Tag, e.Type, e.Off, e.Cnt})
			}
		}
		r.Shuffle(len(ents), func(a, b int) { ents[a], ents[b] = ents[b], ents[a] })
		data := bytesOf(area.Data)
		slack := make([]byte, r.Intn(60))
		r.Read(slack)
		p.rawSig = rawHeader(ents, append(data, slack...))
		for len(p.rawSig)%8 != 0 {
			p.rawSig = append(p.rawSig, byte(r.Intn(3)))
		}
	default:
		p.rawSig = sig
	}
	p.leadName = fmt.Sprint("n", r.Int())
	b := p.build()
	b[8+r.Intn(80)] ^= byte(r.Intn(256)) // the lead is kept as it is
	return b
}

var keyring = sync.OnceValue(func() []*packet.PrivateKey {
	var out []*packet.PrivateKey
	for _, c := range []*packet.Config{{Algorithm: packet.PubKeyAlgoEdDSA}, {Algorithm: packet.PubKeyAlgoRSA, RSABits: 2048}, {Algorithm: packet.PubKeyAlgoECDSA, Curve: packet.CurveNistP256},
		{Algorithm: packet.PubKeyAlgoRSA, RSABits: 3072}} {
		out = append(out, must(openpgp.NewEntity("k", "", "k@example.com", c)).PrivateKey)
	}
	return out
})

func anyOpts(r *rand.Rand) *rpmutils.SignatureOptions {
	return &rpmutils.SignatureOptions{Hash: []crypto.Hash{crypto.SHA256, crypto.SHA512, crypto.SHA384, 0}[r.Intn(4)], CreationTime: time.Unix(1500000000+r.Int63n(1e8), 0)}
}

func dumpEvent(h *rpmutils.RpmHeader, same bool) (wevent, []byte) {
	e := newEvent("dump")
	e.Same = same
	out, err := h.DumpSignatureHeader(same)
	e.Res = okErr(err)
	if err != nil {
		e.What = err.Error()
		return e, nil
	}
	lead, area, sig, rest, ok := sigPart(out)
	if !ok || len(rest) > 0 {
		e.Res, e.What = "malformed", fmt.Sprintf("%x", out)
		return e, nil
	}
	e.Lead, e.Ents, e.Data, e.Total = ident(lead), area.Ents, area.Data, len(sig)
	return e, out
}

// sighdr SEED N TRACE: one header, written, signed and read again in any order
func sighdr(args []string) error {
	seed, n := int64(atoi(args[0])), atoi(args[1])
	keyring()
	tr := newTrace(args[2])
	for _, sc := range parallel(n, func(i int) wscenario {
		r := rand.New(rand.NewSource(seed*93001 + int64(i)))
		b := sigPackage(i, r, false)
		lead, area, sig, rest, ok := sigPart(b)
		if !ok {
			panic("harness: sighdr")
		}
		sc := wscenario{Sig: area, Size: len(sig), Lead: ident(lead), Rest: ident(rest)}
		var ev []wevent
		bad := watch(60*time.Second, func() {
			src := func(b []byte) io.Reader {
				return chunk(bytes.NewReader(b), pkgChunkers[r.Intn(len(pkgChunkers))], r.Int63())
			}
			var h *rpmutils.RpmHeader
			var err error
			if r.Intn(2) == 0 {
				h, err = rpmutils.ReadHeader(src(b))
			} else {
				h, _, err = rpmutils.Verify(src(b), nil)
			}
			if err != nil {
				// signature tags that hold no signature may be refused
				if h, err = rpmutils.ReadHeader(src(b)); err != nil {
					ev = append(ev, wevent{Op: "read", Res: "err", What: err.Error()})
					return
				}
			}
			var last []byte
			cur := b
			for k := 2 + r.Intn(7); k > 0; k-- {
				switch x := r.Intn(10); {
				case x < 5:
					e, out := dumpEvent(h, r.Intn(2) == 0)
					ev = append(ev, e)
					if out == nil {
						return
					}
					last = out
				case x < 6:
					nh, err := rpmutils.SignRpmStream(src(cur), keyring()[r.Intn(3)], anyOpts(r))
					e := newEvent("signed")
					e.Res = okErr(err)
					if err != nil {
						e.What = err.Error()
						ev = append(ev, e)
						return
					}
					p, _ := nh.GetBytes(sigBase + sigPGP)
					q, _ := nh.GetBytes(sigRSA)
					e.PGP, e.RSA = ints(p), ints(q)
					h, last = nh, nil
					ev = append(ev, e)
				case x < 8:
					if last == nil {
						continue
					}
					cur = append(append([]byte{}, last...), rest...)
					nh, err := rpmutils.ReadHeader(src(cur))
					e := newEvent("reread")
					e.Res = okErr(err)
					if err == nil {
						h = nh
						_, area, _, _, _ := sigPart(cur)
						for _, x := range area.Ents {
							t := int(x.Tag)
							if t >= 1000 || r.Intn(2) == 0 {
								t += sigBase
							}
							e.Acc = append(e.Acc, access(nh, "get", t, 0))
						}
					} else {
						e.What = err.Error()
					}
					ev = append(ev, e)
					last = nil
				default:
					// nothing that is only looked at changes
					h.GetNEVRA()
					h.GetFiles()
					h.PayloadSize()
					h.OriginalSignatureHeaderSize()
					h.Get(sigBase + 1000)
				}
			}
		})
		if bad != "" {
			sc.Ev = []wevent{{Op: bad}}
			return sc
		}
		if sc.Ev = ev; ev == nil {
			sc.Ev = []wevent{}
		}
		for k := range sc.Ev {
			if sc.Ev[k].Ents == nil {
				sc.Ev[k] = newEvent(sc.Ev[k].Op + " " + sc.Ev[k].What)
			}
		}
		return sc
	}) {
		tr.put(sc)
	}
	return tr.close()
}

var stdoutMu sync.Mutex

// produce signs the package in file in into out in one of the ways; it returns the bytes
func produce(how string, in, dir string, r *rand.Rand, key *packet.PrivateKey, opts *rpmutils.SignatureOptions, raw [2][]byte) (h *rpmutils.RpmHeader, out []byte, path string, err error) {
	f, err := os.Open(in)
	if err != nil {
		panic(err)
	}
	defer f.Close()
	path = fmt.Sprintf("%s/out%d", dir, r.Int63())
	do := func(p string) (*rpmutils.RpmHeader, error) {
		if raw[0] != nil {
			return rpmutils.RewriteWithSignatures(f, p, raw[0], raw[1])
		}
		return rpmutils.SignRpmFile(f, p, key, opts)
	}
	check := func(err error) {
		if err != nil {
			panic("harness: " + err.Error())
		}
	}
	switch how {
	case "new":
	case "replace":
		check(os.WriteFile(path, make([]byte, r.Intn(5000)), 0600))
	case "inplace":
		path = in
	case "link":
		check(os.Link(in, path))
	case "symlink":
		check(os.Symlink(in, path))
	case "pipe", "stdout":
		pr, pw := (*os.File)(nil), (*os.File)(nil)
		if how == "pipe" {
			check(syscall.Mkfifo(path, 0600))
			pr = must(os.OpenFile(path, os.O_RDWR, 0)) // keeps the reader from seeing an end too early
			pw = pr
		} else {
			pr, pw, err = os.Pipe()
			check(err)
		}
		stdoutMu.Lock()
		old := os.Stdout
		p := path
		if how == "stdout" {
			os.Stdout = pw
			p = "-"
		}
		got := make(chan []byte, 1)
		mark := []byte("\x00end of the harness's pipe\x00")
		go func() {
			var b bytes.Buffer
			buf := make([]byte, 1<<16)
			for {
				n, err := pr.Read(buf)
				b.Write(buf[:n])
				if bytes.HasSuffix(b.Bytes(), mark) {
					b.Truncate(b.Len() - len(mark))
					break
				}
				if err != nil {
					break
				}
			}
			got <- b.Bytes()
		}()
		h, err = do(p)
		os.Stdout = old
		stdoutMu.Unlock()
		if _, werr := pw.Write(mark); werr != nil { // closed by the code under test
			pr.Close()
		}
		out = <-got
		pr.Close()
		pw.Close()
		path = ""
		return
	case "stream min", "stream same":
		if raw[0] != nil {
			panic("harness: raw stream")
		}
		b := must(os.ReadFile(in))
		h, err = rpmutils.SignRpmStream(chunk(f, pkgChunkers[r.Intn(len(pkgChunkers))], r.Int63()), key, opts)
		if err != nil {
			return
		}
		d, derr := h.DumpSignatureHeader(how == "stream same")
		if derr != nil {
			return h, nil, "", derr
		}
		out = append(append([]byte{}, d...), b[min(len(b), h.OriginalSignatureHeaderSize()):]...)
		os.WriteFile(path, out, 0600)
		return
	}
	h, err = do(path)
	if err == nil {
		out, err = os.ReadFile(path)
	}
	return
}

var ways = []string{"new", "replace", "inplace", "inplace", "link", "symlink", "pipe", "stdout", "stream min", "stream same"}

// signbytes SEED N TRACE: packages produced in every way, each from one before
func signBytes(args []string) error {
	seed, n := int64(atoi(args[0])), atoi(args[1])
	keyring()
	tr := newTrace(args[2])
	dir := must(os.MkdirTemp("", "vh-sign"))
	defer os.RemoveAll(dir)
	for _, sc := range parallel(n, func(i int) wscenario {
		r := rand.New(rand.NewSource(seed*94007 + int64(i)))
		d := fmt.Sprintf("%s/%d", dir, i)
		os.Mkdir(d, 0755)
		defer os.RemoveAll(d)
		b := sigPackage(i, r, true)
		in := d + "/in"
		if err := os.WriteFile(in, b, 0644); err != nil {
			panic(err)
		}
		lead, area, sig, rest, _ := sigPart(b)
		sc := wscenario{Sig: area, Size: len(sig), Lead: ident(lead), Rest: ident(rest)}
		var ev []wevent
		bad := watch(100*time.Second, func() {
			cur := in
			for k := 1 + r.Intn(4); k > 0; k-- {
				how := ways[r.Intn(len(ways))]
				var raw [2][]byte
				if r.Intn(4) == 0 && how[:2] != "st" {
					raw = [2][]byte{make([]byte, r.Intn(200)), make([]byte, r.Intn(200))}
					r.Read(raw[0])
					r.Read(raw[1])
				}
				key, opts := keyring()[r.Intn(4)], anyOpts(r)
				h, out, path, err := produce(how, cur, d, r, key, opts, raw)
				e := newEvent("signed")
				e.How = how
				e.Res = okErr(err)
				if err != nil {
					e.What = err.Error()
					ev = append(ev, e)
					return
				}
				p, _ := h.GetBytes(sigBase + sigPGP)
				q, _ := h.GetBytes(sigRSA)
				if raw[0] != nil {
					e.How = "insert " + how
					p, q = raw[0], raw[1]
				}
				e.PGP, e.RSA = ints(p), ints(q)
				ev = append(ev, e)
				e = newEvent("produce")
				e.How = how
				lead, area, sig, rest, ok := sigPart(out)
				if !ok {
					e.Res = "malformed"
					ev = append(ev, e)
					return
				}
				e.Res, e.Lead, e.Rest, e.Ents, e.Data, e.Total, e.ID = "ok", ident(lead), ident(rest), area.Ents, area.Data, len(sig), ident(sig)
				for _, same := range []bool{false, true} {
					o, err := h.DumpSignatureHeader(same)
					if err != nil {
						e.Res = "err"
					} else if same {
						e.Max = ident(o[96:])
					} else {
						e.Min = ident(o[96:])
					}
				}
				ev = append(ev, e)
				// what was inserted raw is no signature of anything; signing again replaces it
				if path != "" && r.Intn(3) > 0 {
					cur = path
					if how == "stream min" || how == "stream same" {
						cur = path
					}
					e := newEvent("reread")
					e.Res = "ok"
					nh, err := rpmutils.ReadHeader(bytes.NewReader(out))
					if err != nil {
						e.Res, e.What = "err", err.Error()
					} else {
						for _, x := range area.Ents {
							t := int(x.Tag)
							if t >= 1000 {
								t += sigBase
							}
							e.Acc = append(e.Acc, access(nh, "get", t, 0))
						}
					}
					ev = append(ev, e)
				} else if how == "inplace" || how == "symlink" {
					return // the input has changed
				} else {
					return
				}
			}
		})
		if bad != "" {
			sc.Ev = []wevent{newEvent(bad)}
			return sc
		}
		sc.Ev = ev
		return sc
	}) {
		tr.put(sc)
	}
	return tr.close()
}
