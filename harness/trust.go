package main

import (
	"bytes"
	"crypto"
	"crypto/dsa"
	"crypto/md5"
	crand "crypto/rand"
	"crypto/rsa"
	"crypto/sha1"
	"crypto/sha256"
	_ "crypto/sha3"
	_ "crypto/sha512"
	"encoding/binary"
	"encoding/hex"
	"errors"
	"fmt"
	"io"
	mbig "math/big"
	"math/rand"
	"os"
	"sort"
	"strings"
	"sync"
	"time"

	"github.com/ProtonMail/go-crypto/openpgp"
	"github.com/ProtonMail/go-crypto/openpgp/ecdsa"
	"github.com/ProtonMail/go-crypto/openpgp/eddsa"
	"github.com/ProtonMail/go-crypto/openpgp/packet"
	rpmutils "github.com/sassoftware/go-rpmutils"
)

func init() {
	commands["trust-gen"] = trustGen
	commands["trust-random"] = trustRandom
	commands["trust-huge"] = trustHuge
	commands["resign"] = resign
}

type person struct {
	label, name string
	key         *packet.PrivateKey
}

type world struct {
	keys     map[string]person // by key label
	entities map[string]*openpgp.Entity
	lists    []klist
}

type klist struct {
	Name string
	Keys []string // labels of the keys it has
	Ents openpgp.EntityList
}

// theWorld: A with subkey Aa, B with subkey Bb, and X
var theWorld = sync.OnceValue(func() *world {
	w := &world{keys: map[string]person{}, entities: map[string]*openpgp.Entity{}}
	ed := &packet.Config{Algorithm: packet.PubKeyAlgoEdDSA}
	rs := &packet.Config{Algorithm: packet.PubKeyAlgoRSA, RSABits: 2048}
	ec := &packet.Config{Algorithm: packet.PubKeyAlgoECDSA, Curve: packet.CurveNistP256}
	mk := func(label, sub string, c, sc *packet.Config) {
		e := must(openpgp.NewEntity("Main "+label, "", label+"@example.com", c))
		name := fmt.Sprintf("Main %s <%s@example.com>", label, label)
		later := *c
		later.Time = func() time.Time { return time.Now().Add(time.Second) }
		if err := e.AddUserId("Other "+label, "", "other@example.com", &later); err != nil {
			panic(err)
		}
		if sub != "" {
			// a subkey before it that does not sign
			if label == "B" {
				if err := e.AddSigningSubkey(ec); err != nil {
					panic(err)
				}
			}
			if err := e.AddSigningSubkey(sc); err != nil {
				panic(err)
			}
			w.keys[sub] = person{label, name, e.Subkeys[len(e.Subkeys)-1].PrivateKey}
		}
		w.keys[label] = person{label, name, e.PrivateKey}
		var b bytes.Buffer
		if err := e.Serialize(&b); err != nil {
			panic(err)
		}
		w.entities[label] = must(openpgp.ReadEntity(packet.NewReader(&b)))
	}
	mk("A", "Aa", ed, rs)
	mk("B", "Bb", rs, ec)
	x := oldKey("X")
	w.keys["X"] = person{"X", "Main X <X@example.com>", x.PrivateKey}
	var b bytes.Buffer
	must(0, x.Serialize(&b))
	w.entities["X"] = must(openpgp.ReadEntity(packet.NewReader(&b)))
	bare := *w.entities["A"]
	bare.Subkeys = nil
	entA, entB, entX := w.entities["A"], w.entities["B"], w.entities["X"]
	w.lists = []klist{
		{"nil", nil, nil}, {"empty", []string{}, openpgp.EntityList{}}, {"A", []string{"A", "Aa"}, openpgp.EntityList{entA}},
		{"A alone", []string{"A"}, openpgp.EntityList{&bare}}, {"B", []string{"B", "Bb"}, openpgp.EntityList{entB}},
		{"B A", []string{"A", "Aa", "B", "Bb"}, openpgp.EntityList{entB, entA}}, {"X", []string{"X"}, openpgp.EntityList{entX}},
		{"all", []string{"A", "Aa", "B", "Bb", "X"}, openpgp.EntityList{entX, entA, entB}},
	}
	return w
})

// oldKey is one of the kind that packages were signed with once, DSA of 1024 bits, whose lifetime is over
func oldKey(label string) *openpgp.Entity {
	k := new(dsa.PrivateKey)
	must(0, dsa.GenerateParameters(&k.Parameters, crand.Reader, dsa.L1024N160))
	must(0, dsa.GenerateKey(k, crand.Reader))
	t := time.Date(2005, 1, 2, 3, 4, 5, 0, time.UTC)
	priv := packet.NewDSAPrivateKey(t, k)
	e := &openpgp.Entity{PrimaryKey: &priv.PublicKey, PrivateKey: priv, Identities: map[string]*openpgp.Identity{}}
	for n, name := range []string{"Main " + label, "Other " + label} {
		mail := []string{label + "@example.com", "other@example.com"}[n]
		c := &packet.Config{KeyLifetimeSecs: 86400, Time: func() time.Time { return t.Add(time.Duration(n) * time.Second) }}
		must(0, e.AddUserId(name, "", mail, c))
	}
	return e
}

// -- signatures, made without the code under test ---------------------------

var pgpHash = map[crypto.Hash]byte{crypto.SHA256: 8, crypto.SHA384: 9, crypto.SHA512: 10, crypto.SHA224: 11, crypto.SHA1: 2,
	crypto.SHA3_256: 12, crypto.SHA3_512: 14}
var sigHashes = []crypto.Hash{crypto.SHA256, crypto.SHA384, crypto.SHA512, crypto.SHA224, crypto.SHA1, crypto.SHA3_256, crypto.SHA3_512}

// randomHash is one that goes with the key
func randomHash(key *packet.PrivateKey, r *rand.Rand) crypto.Hash {
	n := len(sigHashes)
	if _, ok := key.PrivateKey.(*rsa.PrivateKey); ok {
		n -= 2
	}
	return sigHashes[r.Intn(n)]
}

func mpi(b []byte) []byte {
	n := new(mbig.Int).SetBytes(b)
	return append(binary.BigEndian.AppendUint16(nil, uint16(n.BitLen())), n.Bytes()...)
}

func subpacket(typ byte, b []byte) []byte { return append([]byte{byte(len(b) + 1), typ}, b...) }

type sigBlob struct {
	pkt            []byte
	hashed, values [2]int // parts of pkt
	id             uint64 // stored, 0 if none
}

// makeSig signs content; claim is the key named as the issuer
func makeSig(key, claim *packet.PrivateKey, h crypto.Hash, ctime uint32, form string, content []byte, r *rand.Rand) (s sigBlob) {
	id := binary.BigEndian.AppendUint64(nil, claim.KeyId)
	fpr := append([]byte{4}, claim.Fingerprint...)
	ct := subpacket(2, binary.BigEndian.AppendUint32(nil, ctime))
	var hashed, unhashed []byte
	s.id = claim.KeyId
	switch form {
	case "both":
		hashed = bytes.Join([][]byte{ct, subpacket(16, id), subpacket(33, fpr)}, nil)
	case "id":
		hashed = append(ct, subpacket(16, id)...)
	case "fpr":
		hashed = append(ct, subpacket(33, fpr)...)
	case "unhashed":
		hashed, unhashed = ct, subpacket(16, id)
	case "mixed": // the key ID is not signed, and is not the key's
		bogus := []byte{1, 2, 3, 4, 5, 6, 7, byte(1 + r.Intn(255))}
		hashed, unhashed = append(ct, subpacket(33, fpr)...), subpacket(16, bogus)
		s.id = binary.BigEndian.Uint64(bogus)
	}
	if r.Intn(6) == 0 { // a signature that expires
		hashed = append(hashed, subpacket(3, binary.BigEndian.AppendUint32(nil, uint32(1+r.Intn(1000))))...)
	}
	if r.Intn(3) == 0 {
		unhashed = append(unhashed, subpacket(100, []byte("x"))...)
	}
	body := []byte{4, 0, byte(key.PubKeyAlgo), pgpHash[h]}
	body = append(binary.BigEndian.AppendUint16(body, uint16(len(hashed))), hashed...)
	d := h.New()
	d.Write(content)
	d.Write(body)
	d.Write(append([]byte{4, 0xff}, binary.BigEndian.AppendUint32(nil, uint32(len(body)))...))
	sum := d.Sum(nil)
	hashedLen := len(body)
	body = append(binary.BigEndian.AppendUint16(body, uint16(len(unhashed))), unhashed...)
	body = append(body, sum[0], sum[1])
	var vals [][]byte
	switch k := key.PrivateKey.(type) {
	case *rsa.PrivateKey:
		vals = [][]byte{must(rsa.SignPKCS1v15(crand.Reader, k, h, sum))}
	case *ecdsa.PrivateKey:
		x, y, err := ecdsa.Sign(crand.Reader, k, sum)
		must(0, err)
		vals = [][]byte{x.Bytes(), y.Bytes()}
	case *dsa.PrivateKey:
		x, y, err := dsa.Sign(crand.Reader, k, cutTo(k, sum))
		must(0, err)
		vals = [][]byte{x.Bytes(), y.Bytes()}
	case *eddsa.PrivateKey:
		x, y, err := eddsa.Sign(k, sum)
		must(0, err)
		vals = [][]byte{x, y}
	default:
		panic(fmt.Sprintf("harness: key %T", k))
	}
	valAt := len(body)
	for _, v := range vals {
		body = append(body, mpi(v)...)
	}
	var head []byte
	switch {
	case r.Intn(2) == 0 && len(body) < 256: // old format, one byte
		head = []byte{0x88, byte(len(body))}
	case r.Intn(2) == 0: // old format, two bytes
		head = []byte{0x89, byte(len(body) >> 8), byte(len(body))}
	case len(body) < 192:
		head = []byte{0xc2, byte(len(body))}
	default:
		n := len(body) - 192
		head = []byte{0xc2, byte(n>>8) + 192, byte(n)}
	}
	s.pkt = append(head, body...)
	s.hashed = [2]int{len(head), len(head) + hashedLen}
	s.values = [2]int{len(head) + valAt, len(s.pkt)}
	return
}

type seenSig struct {
	By    string `json:"by"`
	Hash  string `json:"hash"`
	Ctime string `json:"ctime"`
	At    int64  `json:"at"`
	OK    bool   `json:"ok"`
	ID    string `json:"id"`
	Fpr   string `json:"fpr"`
}

// lookSig takes a signature apart and checks it, without the code under test
func lookSig(blob, content []byte, keys map[string]person) (s seenSig) {
	defer func() {
		if recover() != nil {
			s = seenSig{By: "malformed"}
		}
	}()
	b := blob
	switch b[0] {
	case 0x88:
		if int(b[1]) != len(b)-2 {
			panic(0)
		}
		b = b[2:]
	case 0x89:
		if int(b[1])<<8+int(b[2]) != len(b)-3 {
			panic(0)
		}
		b = b[3:]
	case 0xc2:
		n, k := int(b[1]), 2
		if n >= 192 {
			n, k = (n-192)<<8+int(b[2])+192, 3
		}
		if n != len(b)-k {
			panic(0)
		}
		b = b[k:]
	default:
		panic(0)
	}
	if b[0] != 4 || b[1] != 0 {
		panic(0)
	}
	algo, h := packet.PublicKeyAlgorithm(b[2]), crypto.Hash(0)
	for x, n := range pgpHash {
		if n == b[3] {
			h = x
		}
	}
	hl := int(b[4])<<8 + int(b[5])
	signed := b[:6+hl]
	s.Hash = h.String()
	rest := b[6+hl:]
	ul := int(rest[0])<<8 + int(rest[1])
	subs := append(append([]byte{}, b[6:6+hl]...), rest[2:2+ul]...)
	for len(subs) > 0 {
		n := int(subs[0])
		v := subs[2 : 1+n]
		switch subs[1] & 0x7f {
		case 2:
			t := binary.BigEndian.Uint32(v)
			s.Ctime, s.At = fmt.Sprint(t), int64(min(t, 1<<31-1))
		case 16:
			s.ID = fmt.Sprintf("%016x", v)
		case 33:
			s.Fpr = fmt.Sprintf("%x", v[1:])
		}
		subs = subs[1+n:]
	}
	vals := rest[4+ul:]
	var nums [][]byte
	for len(vals) > 0 {
		n := (int(vals[0])<<8 + int(vals[1]) + 7) / 8
		nums = append(nums, vals[2:2+n])
		vals = vals[2+n:]
	}
	d := h.New()
	d.Write(content)
	d.Write(signed)
	d.Write(append([]byte{4, 0xff}, binary.BigEndian.AppendUint32(nil, uint32(len(signed)))...))
	sum := d.Sum(nil)
	s.By = "unknown"
	for label, p := range keys {
		if fmt.Sprintf("%016x", p.key.KeyId) != s.ID && fmt.Sprintf("%x", p.key.Fingerprint) != s.Fpr {
			continue
		}
		s.By = label
		if p.key.PubKeyAlgo != algo {
			continue
		}
		switch k := p.key.PrivateKey.(type) {
		case *rsa.PrivateKey:
			s.OK = rsa.VerifyPKCS1v15(&k.PublicKey, h, sum, append(make([]byte, k.Size()-len(nums[0])), nums[0]...)) == nil
		case *ecdsa.PrivateKey:
			s.OK = ecdsa.Verify(&k.PublicKey, sum, new(mbig.Int).SetBytes(nums[0]), new(mbig.Int).SetBytes(nums[1]))
		case *dsa.PrivateKey:
			s.OK = dsa.Verify(&k.PublicKey, cutTo(k, sum), new(mbig.Int).SetBytes(nums[0]), new(mbig.Int).SetBytes(nums[1]))
		case *eddsa.PrivateKey:
			s.OK = eddsa.Verify(&k.PublicKey, sum, nums[0], nums[1])
		}
	}
	return
}

// cutTo is what DSA signs of a digest
func cutTo(k *dsa.PrivateKey, sum []byte) []byte { return sum[:min(len(sum), (k.Q.BitLen()+7)/8)] }

// -- packages ----------------------------------------------------------------

type tdig struct {
	K   string `json:"k"`
	Gen int    `json:"gen"`
	Pay string `json:"pay"`
}

type tsig struct {
	Tag   string `json:"tag"`
	By    string `json:"by"`
	Kind  string `json:"kind"`
	Body  int    `json:"body"`
	Pay   string `json:"pay"`
	State string `json:"state"`
	// what the signature says
	Entity string `json:"entity"`
	Name   string `json:"name"`
	KeyID  string `json:"keyid"`
	Fpr    string `json:"fpr"`
	Stored string `json:"stored"`
	Hash   string `json:"hash"`
	Ctime  string `json:"ctime"`
}

type tpkg struct {
	Body   int    `json:"body"`
	PD     string `json:"pd"`
	Pay    string `json:"pay"`
	SHA256 tdig   `json:"sha256"`
	SHA1   tdig   `json:"sha1"`
	MD5    tdig   `json:"md5"`
	Forms  string `json:"forms"`
	Sigs   []tsig `json:"sigs"`
	// the bytes
	general, payload []byte
}

type trep struct {
	Entity string `json:"entity"`
	Name   string `json:"name"`
	KeyID  string `json:"keyid"`
	Fpr    string `json:"fpr"`
	Hash   string `json:"hash"`
	Ctime  string `json:"ctime"`
	HOnly  bool   `json:"honly"`
}

type tverify struct {
	List    string   `json:"list"`
	Keys    []string `json:"keys"`
	Nil     bool     `json:"nil"`
	Res     string   `json:"res"`
	Missing bool     `json:"missing"`
	Rep     []trep   `json:"rep"`
	What    string   `json:"what"`
}

type tscenario struct {
	Pk     tpkg      `json:"pk"`
	Read   string    `json:"read"`
	Verify []tverify `json:"verify"`
	Sign   string    `json:"sign"`
	SignTo string    `json:"signto"`
	What   string    `json:"what"`
}

var sigTagOf = map[string]int{"rsa": sigRSA, "dsa": sigDSA, "pgp": sigPGP, "gpg": sigGPG}

func hexDamage(s string, r *rand.Rand) string {
	if r.Intn(4) == 0 {
		return s[:r.Intn(len(s))]
	}
	if r.Intn(6) == 0 {
		return s + "00"
	}
	b := []byte(s)
	k := r.Intn(len(b))
	c := "0123456789abcdef"[r.Intn(16)]
	if c == b[k] {
		c = 'g'
	}
	b[k] = c
	return string(b)
}

func alterBytes(b []byte, r *rand.Rand, empty bool) []byte {
	out := append([]byte{}, b...)
	switch k := r.Intn(7); {
	case k == 6 && empty:
		return nil
	case k == 0 && len(out) > 1:
		// not to nothing: a signature of header and nothing is one of the header
		return out[:1+r.Intn(len(out)-1)]
	case k <= 1 || len(out) < 2:
		return append(out, make([]byte, 1+r.Intn(9))...)
	case k == 2:
		return append(out, byte(r.Intn(256)))
	case k == 3:
		return out[1:]
	default:
		out[r.Intn(len(out))] ^= 1 << r.Intn(8)
	}
	return out
}

// canEmpty tells that no signature is of header and payload: one of header and no payload is one of the header
func canEmpty(p *tpkg) bool {
	for _, s := range p.Sigs {
		if s.Kind == "hp" || s.Tag == "pgp" || s.Tag == "gpg" {
			return false
		}
	}
	return true
}

// concrete makes the bytes of a package; the signatures are filled in
func concrete(p *tpkg, r *rand.Rand) []byte {
	w := theWorld()
	pays := map[string][]byte{"p0": make([]byte, []int{1, 20, 300, 5000, 70000}[r.Intn(5)])}
	if r.Intn(30) == 0 {
		pays["p0"] = make([]byte, 1<<20+r.Intn(5))
		if r.Intn(40) == 0 {
			pays["p0"] = make([]byte, 32<<20+r.Intn(50<<20))
		}
	}
	r.Read(pays["p0"])
	pays["p1"] = alterBytes(pays["p0"], r, canEmpty(p))
	if r.Intn(20) == 0 && canEmpty(p) {
		pays["p0"], pays["p1"] = nil, pays["p0"]
	}
	alg := []crypto.Hash{crypto.MD5, crypto.SHA1, crypto.SHA256, crypto.SHA384, crypto.SHA512, crypto.SHA224}[r.Intn(6)]
	num := map[crypto.Hash]uint32{crypto.MD5: 1, crypto.SHA1: 2, crypto.SHA256: 8, crypto.SHA384: 9, crypto.SHA512: 10, crypto.SHA224: 11}[alg]
	sum := func(b []byte) string {
		h := alg.New()
		h.Write(b)
		return hex.EncodeToString(h.Sum(nil))
	}
	region := 63 * r.Intn(2)
	noise := r.Intn(2)
	unk, badv, kk := r.Intn(6), hexDamage(sum(pays["p0"]), r), r.Intn(3)
	gen := func(body int) []byte {
		tags := basicGen()
		tags[1] = strTag(tagVersion, fmt.Sprint("1.", body))
		if noise == 1 {
			tags = append(tags, strTag(1004, "summary"), u32Tag(1006, 5))
		}
		switch p.PD {
		case "none":
			if kk == 0 {
				tags = append(tags, u32Tag(tagPayloadDigestAlgo, 8))
			}
		case "unknown":
			tags = append(tags, strArr(tagPayloadDigest, sum(pays["p0"])))
			switch unk {
			case 0:
			case 1:
				tags = append(tags, u32Tag(tagPayloadDigestAlgo, 0))
			case 2:
				tags = append(tags, u32Tag(tagPayloadDigestAlgo, 3))
			case 3:
				tags = append(tags, u32Tag(tagPayloadDigestAlgo, 99))
			case 4:
				tags = append(tags, u32Tag(tagPayloadDigestAlgo, 0x80000008))
			case 5:
				tags = append(tags, u32Tag(tagPayloadDigestAlgo))
			}
		default:
			v := badv
			if p.PD != "bad" {
				v = sum(pays[p.PD])
			}
			switch kk {
			case 0: // a second digest is of the uncompressed payload
				tags = append(tags, strArr(tagPayloadDigest, v, "ffff"), u32Tag(tagPayloadDigestAlgo, num))
			case 1:
				tags = append(tags, strTag(tagPayloadDigest, v), u32Tag(tagPayloadDigestAlgo, num))
			default:
				tags = append(tags, strArr(tagPayloadDigest, v), u32Tag(tagPayloadDigestAlgo, num))
			}
		}
		sort.SliceStable(tags, func(a, b int) bool { return tags[a].tag < tags[b].tag })
		return layHeader(tags, region)
	}
	this, other := gen(p.Body), gen(1-p.Body)
	d := p.SHA256
	if d.K == "none" {
		d = p.SHA1
	}
	if d.K == "of" && d.Gen != p.Body && r.Intn(3) > 0 && len(p.Sigs) == 0 {
		// refused for this alone, so that the header may be damaged anywhere
		other = this
		this = append([]byte{}, this...)
		k := r.Intn(len(this))
		this[k] ^= 1 << r.Intn(8)
	}
	p.general, p.payload = this, pays[p.Pay]
	of := func(n int) []byte {
		if n == p.Body {
			return this
		}
		return other
	}
	pk := &pkg{payload: pays[p.Pay], rawGen: this, sigReserve: r.Intn(300) - 1, noRegion: r.Intn(3) == 0}
	put := func(tag int, d tdig, h crypto.Hash) {
		if d.K == "none" {
			return
		}
		x := h.New()
		x.Write(of(d.Gen))
		v := hex.EncodeToString(x.Sum(nil))
		if d.K == "bad" {
			switch r.Intn(6) {
			case 0:
				pk.sig = append(pk.sig, strArr(tag))
				return
			case 1:
				pk.sig = append(pk.sig, binTag(tag, x.Sum(nil)))
				return
			case 2:
				pk.sig = append(pk.sig, strArr(tag, hexDamage(v, r), v))
				return
			}
			v = hexDamage(v, r)
		}
		pk.sig = append(pk.sig, strTag(tag, v))
	}
	switch r.Intn(6) {
	case 0, 1, 2: // as built
		pk.sig = append(pk.sig, u32Tag(sigSize, uint32(len(this)+len(pays["p0"]))))
	case 3:
		pk.sig = append(pk.sig, u32Tag(sigSize, uint32(len(this)+len(pays["p1"]))))
	case 4:
		pk.sig = append(pk.sig, u32Tag(sigSize, r.Uint32()>>r.Intn(32)))
	}
	put(sigSHA256, p.SHA256, crypto.SHA256)
	put(sigSHA1, p.SHA1, crypto.SHA1)
	if p.MD5.K != "none" {
		h := md5.New()
		h.Write(of(p.MD5.Gen))
		pay := pays[p.MD5.Pay]
		if p.MD5.K == "bad" {
			pay = pays["p0"]
		}
		h.Write(pay)
		v := h.Sum(nil)
		if p.MD5.K == "bad" {
			switch r.Intn(5) {
			case 0:
				v = v[:r.Intn(16)]
			case 1:
				v = append(v, 0)
			case 2:
				v = []byte(hex.EncodeToString(v))
			default:
				v[r.Intn(16)] ^= 1 << r.Intn(8)
			}
		}
		pk.sig = append(pk.sig, binTag(sigMD5, v))
	}
	labels := []string{"A", "Aa", "B", "Bb", "X"}
	for k := range p.Sigs {
		s := &p.Sigs[k]
		content := append([]byte{}, of(s.Body)...)
		if s.Kind == "hp" {
			content = append(content, pays[s.Pay]...)
		}
		key := w.keys[s.By]
		claim := key
		if s.State == "claim" {
			for claim.key == key.key {
				claim = w.keys[labels[r.Intn(5)]]
			}
		}
		h := randomHash(key.key, r)
		ct := uint32(1400000000 + r.Intn(300000000))
		if r.Intn(4) == 0 {
			ct = uint32(anyTime(r))
		}
		form := p.Forms
		if form == "fpr" && r.Intn(2) == 0 {
			form = "mixed"
		}
		if form == "" {
			form = []string{"both", "id", "fpr", "unhashed", "mixed"}[r.Intn(5)]
		}
		b := makeSig(key.key, claim.key, h, ct, form, content, r)
		s.Entity, s.Name, s.Hash, s.Ctime = key.label, key.name, h.String(), fmt.Sprint(ct)
		s.KeyID, s.Fpr, s.Stored = fmt.Sprintf("%016x", key.key.KeyId), fmt.Sprintf("%x", key.key.Fingerprint), fmt.Sprintf("%016x", b.id)
		if got := lookSig(b.pkt, content, w.keys); s.State == "ok" && (!got.OK || got.By != s.By) {
			panic(fmt.Sprintf("harness: own signature %+v", got))
		}
		blob := b.pkt
		typ := tBin
		flip := func(at [2]int) { blob[at[0]+r.Intn(at[1]-at[0])] ^= 1 << r.Intn(8) }
		switch s.State {
		case "hashed":
			flip(b.hashed)
		case "value":
			if at := b.values; r.Intn(4) == 0 {
				for x := at[0] + 2; x < at[0]+2+(int(blob[at[0]])<<8+int(blob[at[0]+1])+7)/8; x++ {
					blob[x] = byte(r.Intn(256))
				}
			} else {
				// not in the length of the number
				flip([2]int{at[0] + 2, at[0] + 2 + (int(blob[at[0]])<<8+int(blob[at[0]+1])+7)/8})
			}
		case "trailing":
			more := makeSig(key.key, claim.key, h, ct, "both", content, r)
			blob = append(blob, [][]byte{{0}, {0, 0, 0, 0}, more.pkt, b.pkt, {0xca, 0x03, 'P', 'G', 'P'}, []byte("x"), {0xff}}[r.Intn(7)]...)
		case "nosig":
			body := b.pkt[b.hashed[0]:]
			switch r.Intn(9) {
			case 0:
				blob = nil
			case 1:
				blob = []byte("not a signature")
			case 2:
				var o bytes.Buffer
				w.entities["A"].PrimaryKey.Serialize(&o)
				blob = o.Bytes()
			case 3: // a user ID packet
				blob = append([]byte{0xcd, 5}, "hello"...)
			case 4:
				typ = tString
				blob = append([]byte(hex.EncodeToString(blob)), 0)
			case 5: // cut off
				blob = blob[:r.Intn(len(blob))]
			case 6: // version 3
				v3 := append([]byte{3, 5, 0}, 0, 0, 0, 1)
				v3 = append(append(v3, binary.BigEndian.AppendUint64(nil, key.key.KeyId)...), byte(key.key.PubKeyAlgo), 8, 0, 0)
				v3 = append(v3, b.pkt[b.values[0]:]...)
				blob = append([]byte{0x89, byte(len(v3) >> 8), byte(len(v3))}, v3...)
			case 7: // the same under another packet type
				blob = append([]byte{0xd1, 255, 0, 0, byte(len(body) >> 8), byte(len(body))}, body...)
			case 8: // names no issuer
				x := makeSig(key.key, claim.key, h, ct, "", content, r)
				hashed := []byte{4, 0, byte(key.key.PubKeyAlgo), pgpHash[h], 0, 6, 5, 2, 0x55, 0, 0, 0, 0, 0, 0, 0}
				hashed = append(hashed, x.pkt[x.values[0]:]...)
				blob = append([]byte{0x89, byte(len(hashed) >> 8), byte(len(hashed))}, hashed...)
			}
		}
		t := htag{sigTagOf[s.Tag], typ, len(blob), blob}
		if typ == tString {
			t.count = 1
		}
		pk.sig = append(pk.sig, t)
	}
	r.Shuffle(len(pk.sig), func(a, b int) { pk.sig[a], pk.sig[b] = pk.sig[b], pk.sig[a] })
	return pk.build()
}

func reportOf(sigs []*rpmutils.Signature, l klist) []trep {
	out := []trep{}
	w := theWorld()
	for _, s := range sigs {
		t := trep{Entity: "none", Name: s.PrimaryName, KeyID: fmt.Sprintf("%016x", s.KeyId), Fpr: fmt.Sprintf("%x", s.KeyFingerprint),
			Hash: s.Hash.String(), Ctime: fmt.Sprint(s.CreationTime.Unix()), HOnly: s.HeaderOnly}
		if s.Signer != nil {
			t.Entity = "other"
			for _, e := range l.Ents {
				if e == s.Signer {
					for label, x := range w.entities {
						if bytes.Equal(x.PrimaryKey.Fingerprint, e.PrimaryKey.Fingerprint) {
							t.Entity = label
						}
					}
				}
			}
		}
		out = append(out, t)
	}
	return out
}

func judgeTrust(p tpkg, r *rand.Rand, lists []int) (sc tscenario) {
	if p.Sigs == nil {
		p.Sigs = []tsig{}
	}
	b := concrete(&p, r)
	sc = tscenario{Pk: p, Verify: []tverify{}, Read: "-", Sign: "-", SignTo: "-"}
	res := sc
	src := func() io.Reader {
		k := pkgChunkers[r.Intn(len(pkgChunkers))]
		if len(b) > 100000 && k != "full" {
			k = "rand"
		}
		return chunk(bytes.NewReader(b), k, r.Int63())
	}
	bad := watch(60*time.Second, func() {
		_, err := rpmutils.ReadHeader(src())
		res.Read = okErr(err)
		if err != nil {
			res.What = err.Error()
		}
		for _, k := range lists {
			l := theWorld().lists[k]
			v := tverify{List: l.Name, Keys: l.Keys, Nil: l.Ents == nil, Rep: []trep{}}
			if v.Keys == nil {
				v.Keys = []string{}
			}
			h, sigs, err := rpmutils.Verify(src(), l.Ents)
			v.Res = okErr(err)
			if err == nil {
				v.Rep = reportOf(sigs, l)
				if h == nil {
					v.Res = "no header"
				}
			} else {
				v.What = err.Error()
				if h != nil || sigs != nil {
					v.Res = "err and result"
				}
				var knf rpmutils.KeyNotFoundError
				v.Missing = errors.As(err, &knf)
			}
			res.Verify = append(res.Verify, v)
		}
		h, err := rpmutils.SignRpmStream(src(), testKey(), nil)
		res.Sign = okErr(err)
		if err != nil && h != nil {
			res.Sign = "err and result"
		}
	})
	if bad != "" {
		sc.Read = bad
		return
	}
	return res
}

// trust-gen GEN TRACE SEED N: every package, N times
func trustGen(args []string) error {
	gens, err := readAll[tpkg](args[0])
	if err != nil {
		return err
	}
	theWorld()
	seed, n := int64(atoi(args[2])), atoi(args[3])
	tr := newTrace(args[1])
	for _, sc := range parallel(len(gens)*n, func(i int) tscenario {
		r := rand.New(rand.NewSource(seed*95003 + int64(i)))
		g := gens[i%len(gens)]
		g.Sigs = append([]tsig{}, g.Sigs...)
		lists := []int{0, 2, 1 + r.Intn(7)}
		if len(g.Sigs) > 0 {
			lists = []int{0, 1, 2, 3, 4, 5, 6, 7}
		}
		return judgeTrust(g, r, lists)
	}) {
		tr.put(sc)
	}
	return tr.close()
}

// longPay is a payload longer than fits in 32 bits: size bytes of a pattern and then the end
type longPay struct {
	pat  []byte
	size int64
	end  []byte
	pos  int64
}

func (l *longPay) Read(p []byte) (int, error) {
	n := 0
	if left := l.size - l.pos; left > 0 {
		at := int(l.pos % int64(len(l.pat)))
		n = copy(p[:min(int64(len(p)), left)], l.pat[at:])
	} else if l.pos >= l.size+int64(len(l.end)) {
		return 0, io.EOF
	} else {
		n = copy(p, l.end[l.pos-l.size:])
	}
	l.pos += int64(n)
	return n, nil
}

// trust-huge SEED TRACE: payloads of more than 4 GiB, whole, altered at the end, cut and extended
func trustHuge(args []string) error {
	theWorld()
	seed := int64(atoi(args[0]))
	tr := newTrace(args[1])
	for _, sc := range parallel(6, func(i int) tscenario {
		r := rand.New(rand.NewSource(seed*96013 + int64(i)))
		pat := make([]byte, 1<<16)
		r.Read(pat)
		end := make([]byte, 1+r.Intn(100))
		r.Read(end)
		p := tpkg{PD: "p0", Pay: "p0", SHA256: tdig{K: "none"}, SHA1: tdig{K: "none"}, MD5: tdig{K: "none"}, Sigs: []tsig{}}
		size := int64(1)<<32 + int64(r.Intn(1<<20))
		pays := map[string]func() io.Reader{"p0": func() io.Reader { return &longPay{pat, size, end, 0} }}
		switch {
		case i%3 == 0:
			pays["p1"] = func() io.Reader { return &longPay{pat, size - 1<<32, end, 0} } // the same modulo 2^32
		case r.Intn(3) == 0:
			pays["p1"] = func() io.Reader { return &longPay{pat, size, append(append([]byte{}, end...), 0), 0} }
		case r.Intn(2) == 0:
			pays["p1"] = func() io.Reader { return &longPay{pat, size, end[:len(end)-1], 0} }
		default:
			other := append([]byte{}, end...)
			other[r.Intn(len(other))] ^= 1 << r.Intn(8)
			pays["p1"] = func() io.Reader { return &longPay{pat, size, other, 0} }
		}
		if i >= 2 {
			p.Pay = "p1"
		}
		tags := basicGen()
		if i%2 == 0 {
			h := sha256.New()
			io.Copy(h, pays["p0"]())
			tags = append(tags, strArr(tagPayloadDigest, hex.EncodeToString(h.Sum(nil))), u32Tag(tagPayloadDigestAlgo, 8))
		} else {
			p.PD, p.MD5 = "none", tdig{"of", 0, "p0"}
		}
		gen := layHeader(tags, 63)
		pk := &pkg{rawGen: gen, sigReserve: 64}
		if i%2 == 1 {
			h := md5.New()
			h.Write(gen)
			io.Copy(h, pays["p0"]())
			pk.sig = append(pk.sig, binTag(sigMD5, h.Sum(nil)))
		}
		head := pk.build()
		src := func() io.Reader { return io.MultiReader(bytes.NewReader(head), pays[p.Pay]()) }
		sc := tscenario{Pk: p, Verify: []tverify{}}
		bad := watch(10*time.Minute, func() {
			_, err := rpmutils.ReadHeader(src())
			sc.Read = okErr(err)
			h, _, err := rpmutils.Verify(src(), nil)
			v := tverify{List: "nil", Keys: []string{}, Nil: true, Res: okErr(err), Rep: []trep{}}
			if err == nil != (h != nil) {
				v.Res = "wrong result"
			}
			sc.Verify = append(sc.Verify, v)
			_, err = rpmutils.SignRpmStream(src(), testKey(), nil)
			sc.Sign, sc.SignTo = okErr(err), "-"
		})
		if bad != "" {
			return tscenario{Pk: p, Verify: []tverify{}, Read: bad}
		}
		return sc
	}) {
		tr.put(sc)
	}
	return tr.close()
}

// trust-random SEED N TRACE: anything together
func trustRandom(args []string) error {
	theWorld()
	seed, n := int64(atoi(args[0])), atoi(args[1])
	tr := newTrace(args[2])
	for _, sc := range parallel(n, func(i int) tscenario {
		r := rand.New(rand.NewSource(seed*96001 + int64(i)))
		p := tpkg{Pay: "p0", PD: []string{"none", "unknown", "bad", "p0", "p0", "p0", "p0", "p1"}[r.Intn(8)], Sigs: []tsig{}}
		dig := func() tdig {
			return []tdig{{"none", 0, ""}, {"of", 0, "p0"}, {"of", 0, "p0"}, {"of", 0, "p0"}, {"of", 1, "p0"}, {"bad", 0, ""}}[r.Intn(6)]
		}
		p.SHA256, p.SHA1, p.MD5 = dig(), dig(), dig()
		if p.MD5.K == "of" && r.Intn(6) == 0 {
			p.MD5.Pay = "p1"
		}
		for _, t := range []string{"rsa", "dsa", "pgp", "gpg"} {
			if r.Intn(2) == 0 {
				continue
			}
			kind := "h"
			if t == "pgp" || t == "gpg" {
				kind = "hp"
			}
			s := tsig{Tag: t, By: []string{"A", "Aa", "B", "Bb", "X"}[r.Intn(5)], Kind: kind, Pay: "p0", State: "ok"}
			if r.Intn(8) == 0 {
				s.State = []string{"hashed", "value", "trailing", "nosig", "claim"}[r.Intn(5)]
			}
			if r.Intn(12) == 0 {
				s.Body = 1
			}
			if r.Intn(12) == 0 {
				s.Pay = "p1"
			}
			if r.Intn(12) == 0 {
				s.Kind = map[string]string{"h": "hp", "hp": "h"}[kind]
			}
			p.Sigs = append(p.Sigs, s)
		}
		return judgeTrust(p, r, []int{0, 2, 5, 7, 1 + r.Intn(7)})
	}) {
		tr.put(sc)
	}
	return tr.close()
}

// -- signing -----------------------------------------------------------------

type rsig struct {
	Tag string `json:"tag"`
	// what is in the tag, checked over what the tag should cover
	Sig seenSig `json:"sig"`
}

type rstep struct {
	By     string   `json:"by"`
	API    string   `json:"api"`
	Res    string   `json:"res"`
	Exists bool     `json:"exists"` // the output, after an error
	Hash   string   `json:"hash"`   // requested, "" if not
	Ctime  string   `json:"ctime"`  // requested, "" if not
	From   int64    `json:"from"`   // time of the call
	To     int64    `json:"to"`
	Sigs   []rsig   `json:"sigs"`
	Others []string `json:"others"` // the other signature-header tags
	Verify []rver   `json:"verify"`
	What   string   `json:"what"`
}

type rver struct {
	Keys []string `json:"keys"`
	Res  string   `json:"res"`
	N    int      `json:"n"`
}

type rscen struct {
	Pk     tpkg     `json:"pk"`
	Others []string `json:"others"`
	Steps  []rstep  `json:"steps"`
}

// otherTags lists the tags that signing keeps
func otherTags(a harea) []string {
	out := []string{}
	d := bytesOf(a.Data)
	for _, e := range a.Ents {
		switch {
		case e.Tag < 64, e.Tag == sigReserved, e.Tag == sigRSA, e.Tag == sigDSA, e.Tag == sigPGP, e.Tag == sigGPG:
			continue
		}
		end := int(e.Off)
		switch sz := map[int32]int{tNull: 0, tChar: 1, tInt8: 1, tInt16: 2, tInt32: 4, tInt64: 8, tBin: 1}[e.Type]; {
		case e.Type == tString || e.Type == tStringArray || e.Type == tI18n:
			for k := int32(0); k < e.Cnt; k++ {
				end += bytes.IndexByte(d[end:], 0) + 1
			}
		default:
			end += sz * int(e.Cnt)
		}
		out = append(out, fmt.Sprintf("%d %d %d %s", e.Tag, e.Type, e.Cnt, ident(d[e.Off:end])))
	}
	sort.Strings(out)
	return out
}

// anyTime is one that a signature can hold
func anyTime(r *rand.Rand) int64 {
	switch r.Intn(6) {
	case 0:
		return []int64{0, 0, 1, 1<<31 - 1, 1 << 31, 1<<32 - 1}[r.Intn(6)]
	case 1:
		return int64(r.Uint32())
	}
	return int64(1 + r.Intn(1<<31-2))
}

// resign SEED N TRACE: packages signed one to three times
func resign(args []string) error {
	w := theWorld()
	seed, n := int64(atoi(args[0])), atoi(args[1])
	tr := newTrace(args[2])
	dir := must(os.MkdirTemp("", "vh-resign"))
	defer os.RemoveAll(dir)
	all := w.lists[7]
	for _, sc := range parallel(n, func(i int) rscen {
		r := rand.New(rand.NewSource(seed*97001 + int64(i)))
		p := tpkg{Pay: "p0", PD: []string{"none", "unknown", "p0", "p0", "p0", "p0"}[r.Intn(6)], Sigs: []tsig{}}
		p.SHA256 = []tdig{{"none", 0, ""}, {"of", 0, "p0"}}[r.Intn(2)]
		p.SHA1 = []tdig{{"none", 0, ""}, {"of", 0, "p0"}}[r.Intn(2)]
		p.MD5 = []tdig{{"of", 0, "p0"}, {"none", 0, ""}}[r.Intn(2)]
		if p.PD != "p0" && r.Intn(6) > 0 {
			p.MD5 = tdig{"of", 0, "p0"}
		}
		if r.Intn(6) == 0 { // not to be signed
			switch r.Intn(4) {
			case 0:
				p.PD = "bad"
			case 1:
				p.PD = "p1"
			case 2:
				p.SHA256 = tdig{"bad", 0, ""}
			case 3:
				p.SHA256 = tdig{"of", 1, "p0"}
			}
		}
		for _, t := range []string{"rsa", "dsa", "pgp", "gpg"} {
			if r.Intn(2) == 0 {
				p.Sigs = append(p.Sigs, tsig{Tag: t, By: []string{"A", "Aa", "B", "Bb", "X"}[r.Intn(5)], Kind: []string{"h", "hp"}[r.Intn(2)], Pay: "p0",
					State: []string{"ok", "ok", "value", "nosig", "trailing"}[r.Intn(5)], Body: r.Intn(2)})
			}
		}
		b := concrete(&p, r)
		// tags that are none of signing's business
		lead, area, _, rest, _ := sigPart(b)
		var tags []htag
		for _, t := range randTags(r, []int{257, 270, 271, 1003, 1006, 1007, 1100, 20000}) {
			if r.Intn(3) == 0 {
				tags = append(tags, t)
			}
		}
		data := bytesOf(area.Data)
		var ents []rawEntry
		for _, e := range area.Ents {
			if e.Tag >= 64 {
				ents = append(ents, rawEntry{e.Tag, e.Type, e.Off, e.Cnt})
			}
		}
		for _, t := range tags {
			for a := aligns[t.typ]; a > 0 && len(data)%a != 0; {
				data = append(data, 0)
			}
			ents = append(ents, rawEntry{int32(t.tag), int32(t.typ), int32(len(data)), int32(t.count)})
			data = append(data, t.data...)
		}
		b = append(append(append([]byte{}, lead...), pad8(rawHeader(ents, data))...), rest...)
		_, area, _, _, _ = sigPart(b)
		sc := rscen{Pk: p, Others: otherTags(area), Steps: []rstep{}}
		var steps []rstep
		bad := watch(100*time.Second, func() {
			cur := b
			genBytes, pay := p.general, p.payload
			for k := 1 + r.Intn(3); k > 0; k-- {
				by := []string{"A", "Aa", "B", "Bb", "X"}[r.Intn(5)]
				st := rstep{By: by, API: []string{"stream", "file", "file in place", "file over"}[r.Intn(4)], Sigs: []rsig{}, Others: []string{}, Verify: []rver{}}
				var opts *rpmutils.SignatureOptions
				if r.Intn(5) > 0 {
					opts = &rpmutils.SignatureOptions{}
					if r.Intn(3) > 0 {
						opts.Hash = randomHash(w.keys[by].key, r)
						st.Hash = opts.Hash.String()
					}
					if r.Intn(3) > 0 {
						opts.CreationTime = time.Unix(anyTime(r), int64(r.Intn(1000)))
						st.Ctime = fmt.Sprint(opts.CreationTime.Unix())
						switch r.Intn(4) {
						case 0:
							opts.CreationTime = opts.CreationTime.UTC()
						case 1:
							opts.CreationTime = opts.CreationTime.In(time.FixedZone("", r.Intn(100000)-50000))
						}
					}
				}
				d := fmt.Sprintf("%s/%d-%d", dir, i, k)
				os.Mkdir(d, 0755)
				in, out := d+"/in", d+"/out"
				must(0, os.WriteFile(in, cur, 0644))
				var err error
				st.From = time.Now().Unix()
				var res []byte
				switch st.API {
				case "stream":
					var h *rpmutils.RpmHeader
					h, err = rpmutils.SignRpmStream(chunk(bytes.NewReader(cur), pkgChunkers[r.Intn(len(pkgChunkers))], r.Int63()), w.keys[by].key, opts)
					if err == nil {
						dump, derr := h.DumpSignatureHeader(r.Intn(2) == 0)
						if err = derr; err == nil {
							res = append(dump, cur[h.OriginalSignatureHeaderSize():]...)
						}
					}
				default:
					if st.API == "file in place" {
						out = in
					} else if st.API == "file over" {
						must(0, os.WriteFile(out, []byte("old"), 0644))
					}
					f := must(os.Open(in))
					_, err = rpmutils.SignRpmFile(f, out, w.keys[by].key, opts)
					f.Close()
					res, _ = os.ReadFile(out)
				}
				st.To = time.Now().Unix()
				st.Res = okErr(err)
				if err != nil {
					st.What = err.Error()
					left, _ := os.ReadDir(d)
					now, _ := os.ReadFile(in)
					st.Exists = !bytes.Equal(now, cur)
					for _, e := range left {
						c, _ := os.ReadFile(d + "/" + e.Name())
						if e.Name() != "in" && !(st.API == "file over" && string(c) == "old") {
							st.Exists = true
						}
					}
				}
				os.RemoveAll(d)
				steps = append(steps, st)
				if err != nil {
					return
				}
				s := &steps[len(steps)-1]
				_, area, _, _, ok := sigPart(res)
				if !ok {
					s.Res = "malformed"
					return
				}
				s.Others = otherTags(area)
				for _, e := range area.Ents {
					for name, t := range sigTagOf {
						if int(e.Tag) == t {
							content := append([]byte{}, genBytes...)
							if strings.Contains("pgp gpg", name) {
								content = append(content, pay...)
							}
							x := rsig{Tag: name}
							if e.Type == tBin {
								x.Sig = lookSig(bytesOf(area.Data[e.Off:e.Off+e.Cnt]), content, w.keys)
							}
							s.Sigs = append(s.Sigs, x)
						}
					}
				}
				for _, l := range []klist{w.lists[2], w.lists[3], w.lists[4], w.lists[6], all} {
					_, sigs, err := rpmutils.Verify(bytes.NewReader(res), l.Ents)
					s.Verify = append(s.Verify, rver{l.Keys, okErr(err), len(sigs)})
				}
				cur = res
			}
		})
		if bad != "" {
			sc.Steps = []rstep{{API: bad, Sigs: []rsig{}, Others: []string{}, Verify: []rver{}}}
			return sc
		}
		sc.Steps = steps
		return sc
	}) {
		tr.put(sc)
	}
	return tr.close()
}

var _ = sha1.New
var _ = sha256.New
