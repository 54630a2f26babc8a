package main

import (
	"bytes"
	"compress/gzip"
	"crypto/md5"
	"crypto/sha1"
	"crypto/sha256"
	"encoding/binary"
	"encoding/hex"
	"fmt"
	"io"
	"os/exec"

	"github.com/klauspost/compress/zstd"
	"github.com/ulikunitz/xz"
	"github.com/ulikunitz/xz/lzma"
)

// A builder of packages that is independent of the code under test.

const (
	tNull = iota
	tChar
	tInt8
	tInt16
	tInt32
	tInt64
	tString
	tBin
	tStringArray
	tI18n
)

// raw tag numbers, as stored
const (
	sigDSA         = 267
	sigRSA         = 268
	sigSHA1        = 269
	sigLongSize    = 270
	sigLongArchive = 271
	sigSHA256      = 273
	sigSize        = 1000
	sigPGP         = 1002
	sigMD5         = 1004
	sigGPG         = 1005
	sigPayloadSize = 1007
	sigReserved    = 1008

	tagName              = 1000
	tagVersion           = 1001
	tagRelease           = 1002
	tagEpoch             = 1003
	tagSize              = 1009
	tagArch              = 1022
	tagOldFilenames      = 1027
	tagFileSizes         = 1028
	tagFileModes         = 1030
	tagFileMtimes        = 1034
	tagFileDigests       = 1035
	tagFileLinktos       = 1036
	tagFileFlags         = 1037
	tagFileUser          = 1039
	tagFileGroup         = 1040
	tagFileDevices       = 1095
	tagFileInodes        = 1096
	tagDirIndexes        = 1116
	tagBaseNames         = 1117
	tagDirNames          = 1118
	tagPayloadFormat     = 1124
	tagPayloadCompressor = 1125
	tagPayloadFlags      = 1126
	tagLongFileSizes     = 5008
	tagLongSize          = 5009
	tagPayloadDigest     = 5092
	tagPayloadDigestAlgo = 5093
)

type htag struct {
	tag, typ, count int
	data            []byte
}

func strTag(tag int, s string) htag { return htag{tag, tString, 1, append([]byte(s), 0)} }
func strArr(tag int, ss ...string) htag {
	var b []byte
	for _, s := range ss {
		b = append(append(b, s...), 0)
	}
	return htag{tag, tStringArray, len(ss), b}
}
func binTag(tag int, b []byte) htag { return htag{tag, tBin, len(b), b} }
func u16Tag(tag int, v ...uint16) htag {
	var b []byte
	for _, x := range v {
		b = binary.BigEndian.AppendUint16(b, x)
	}
	return htag{tag, tInt16, len(v), b}
}
func u32Tag(tag int, v ...uint32) htag {
	var b []byte
	for _, x := range v {
		b = binary.BigEndian.AppendUint32(b, x)
	}
	return htag{tag, tInt32, len(v), b}
}
func u64Tag(tag int, v ...uint64) htag {
	var b []byte
	for _, x := range v {
		b = binary.BigEndian.AppendUint64(b, x)
	}
	return htag{tag, tInt64, len(v), b}
}

var aligns = map[int]int{tInt16: 2, tInt32: 4, tInt64: 8}

// index entry as stored
type rawEntry struct{ tag, typ, offset, count int32 }

func rawHeader(ents []rawEntry, data []byte) []byte {
	var b bytes.Buffer
	binary.Write(&b, binary.BigEndian, []uint32{0x8eade801, 0, uint32(len(ents)), uint32(len(data))})
	for _, e := range ents {
		binary.Write(&b, binary.BigEndian, []int32{e.tag, e.typ, e.offset, e.count})
	}
	b.Write(data)
	return b.Bytes()
}

// layHeader lays tags out in the order given, with a region tag first if region is
// not 0
func layHeader(tags []htag, region int) []byte {
	var ents []rawEntry
	var data []byte
	for _, t := range tags {
		if a := aligns[t.typ]; a > 0 {
			for len(data)%a != 0 {
				data = append(data, 0)
			}
		}
		ents = append(ents, rawEntry{int32(t.tag), int32(t.typ), int32(len(data)), int32(t.count)})
		data = append(data, t.data...)
	}
	if region != 0 {
		ents = append([]rawEntry{{int32(region), tBin, int32(len(data)), 16}}, ents...)
		var b bytes.Buffer
		binary.Write(&b, binary.BigEndian, []int32{int32(region), tBin, int32(-16 * len(ents)), 16})
		data = append(data, b.Bytes()...)
	}
	return rawHeader(ents, data)
}

func pad8(b []byte) []byte {
	for len(b)%8 != 0 {
		b = append(b, 0)
	}
	return b
}

func makeLead(source bool, name string) []byte {
	b := make([]byte, 96)
	copy(b, []byte{0xed, 0xab, 0xee, 0xdb, 3, 0, 0, 0})
	if source {
		b[7] = 1
	}
	b[9] = 1
	copy(b[10:76], name)
	b[77] = 1
	b[79] = 5
	return b
}

type pkg struct {
	source  bool
	sig     []htag // without digests
	gen     []htag
	payload []byte // compressed
	// digests to add: sha1, sha256, md5 (signature header), payload (general header)
	digests    string
	noRegion   bool
	rawGen     []byte // instead of gen
	rawSig     []byte
	leadName   string
	sigReserve int // size of the reserved space tag, -1 none
}

func has(s, w string) bool {
	for _, x := range bytes.Fields([]byte(s)) {
		if string(x) == w {
			return true
		}
	}
	return false
}

func (p *pkg) genHeader() []byte {
	if p.rawGen != nil {
		return p.rawGen
	}
	tags := append([]htag(nil), p.gen...)
	if has(p.digests, "payload") {
		sum := sha256.Sum256(p.payload)
		tags = append(tags, strArr(tagPayloadDigest, hex.EncodeToString(sum[:])), u32Tag(tagPayloadDigestAlgo, 8))
	}
	region := 63
	if p.noRegion {
		region = 0
	}
	return layHeader(tags, region)
}

func (p *pkg) sigHeader(gen []byte) []byte {
	if p.rawSig != nil {
		return p.rawSig
	}
	tags := append([]htag(nil), p.sig...)
	if has(p.digests, "sha1") {
		sum := sha1.Sum(gen)
		tags = append(tags, strTag(sigSHA1, hex.EncodeToString(sum[:])))
	}
	if has(p.digests, "sha256") {
		sum := sha256.Sum256(gen)
		tags = append(tags, strTag(sigSHA256, hex.EncodeToString(sum[:])))
	}
	if has(p.digests, "md5") {
		h := md5.New()
		h.Write(gen)
		h.Write(p.payload)
		tags = append(tags, binTag(sigMD5, h.Sum(nil)))
	}
	if p.sigReserve >= 0 {
		tags = append(tags, binTag(sigReserved, make([]byte, p.sigReserve)))
	}
	region := 62
	if p.noRegion {
		region = 0
	}
	return pad8(layHeader(tags, region))
}

func (p *pkg) build() []byte {
	gen := p.genHeader()
	sig := p.sigHeader(gen)
	name := p.leadName
	if name == "" {
		name = "test-1.0-1"
	}
	out := makeLead(p.source, name)
	out = append(out, sig...)
	out = append(out, gen...)
	return append(out, p.payload...)
}

func basicGen() []htag {
	return []htag{strTag(tagName, "test"), strTag(tagVersion, "1.0"), strTag(tagRelease, "1"), strTag(tagArch, "noarch"),
		u32Tag(tagSize, 123), strTag(tagPayloadFormat, "cpio")}
}

// compressors by the name used in the compressor tag
var compressors = []string{"uncompressed", "gzip", "bzip2", "lzma", "xz", "zstd"}

func compress(kind string, data []byte) []byte {
	var b bytes.Buffer
	var w io.WriteCloser
	var err error
	switch kind {
	case "", "uncompressed":
		return data
	case "gzip":
		w = gzip.NewWriter(&b)
	case "lzma":
		w, err = lzma.NewWriter(&b)
	case "xz":
		w, err = xz.NewWriter(&b)
	case "zstd":
		w, err = zstd.NewWriter(&b, zstd.WithEncoderConcurrency(1))
	case "bzip2":
		cmd := exec.Command("bzip2", "-c")
		cmd.Stdin = bytes.NewReader(data)
		out, err := cmd.Output()
		if err != nil {
			panic(err)
		}
		return out
	default:
		return data
	}
	if err != nil {
		panic(err)
	}
	if _, err := w.Write(data); err != nil {
		panic(err)
	}
	if err := w.Close(); err != nil {
		panic(err)
	}
	return b.Bytes()
}

// file record for the general header
type pfile struct {
	name         string
	mode         uint32
	size         uint64
	link         string
	dev, ino     uint32
	user, grp    string
	flags, mtime uint32
	digest       string
}

type fileOpts struct {
	oldNames bool // whole paths instead of directory and base name
	long     bool // 64-bit sizes
	noDevIno bool
	mode32   bool
	noSlash  bool // directories without a slash at their end
}

func fileTags(files []pfile, o fileOpts) []htag {
	var names, bases, dirs, users, groups, digests, links []string
	var didx, flags, mtimes, devs, inos, size32, mode32 []uint32
	var modes []uint16
	var sizes []uint64
	seen := map[string]uint32{}
	for _, f := range files {
		names = append(names, f.name)
		d, b := "", f.name
		for i := len(f.name) - 1; i >= 0; i-- {
			if f.name[i] == '/' {
				d, b = f.name[:i+1], f.name[i+1:]
				break
			}
		}
		if _, ok := seen[d]; !ok {
			seen[d] = uint32(len(dirs))
			dirs = append(dirs, d)
		}
		didx = append(didx, seen[d])
		bases = append(bases, b)
		users, groups = append(users, f.user), append(groups, f.grp)
		digests, links = append(digests, f.digest), append(links, f.link)
		flags, mtimes = append(flags, f.flags), append(mtimes, f.mtime)
		devs, inos = append(devs, f.dev), append(inos, f.ino)
		size32, sizes = append(size32, uint32(f.size)), append(sizes, f.size)
		modes, mode32 = append(modes, uint16(f.mode)), append(mode32, f.mode)
	}
	if len(files) == 0 {
		return nil
	}
	var t []htag
	for i, d := range dirs {
		if o.noSlash && len(d) > 1 {
			dirs[i] = d[:len(d)-1]
		}
	}
	if o.oldNames {
		t = append(t, strArr(tagOldFilenames, names...))
	} else {
		t = append(t, u32Tag(tagDirIndexes, didx...), strArr(tagBaseNames, bases...), strArr(tagDirNames, dirs...))
	}
	if o.long {
		t = append(t, u64Tag(tagLongFileSizes, sizes...))
	} else {
		t = append(t, u32Tag(tagFileSizes, size32...))
	}
	if o.mode32 {
		t = append(t, u32Tag(tagFileModes, mode32...))
	} else {
		t = append(t, u16Tag(tagFileModes, modes...))
	}
	t = append(t, strArr(tagFileUser, users...), strArr(tagFileGroup, groups...), strArr(tagFileDigests, digests...),
		strArr(tagFileLinktos, links...), u32Tag(tagFileFlags, flags...), u32Tag(tagFileMtimes, mtimes...))
	if !o.noDevIno {
		t = append(t, u32Tag(tagFileDevices, devs...), u32Tag(tagFileInodes, inos...))
	}
	return t
}

func must[T any](v T, err error) T {
	if err != nil {
		panic(fmt.Sprint("harness: ", err))
	}
	return v
}

func readSegs(segs []seg, cut int64) []byte {
	return must(io.ReadAll(&segReader{segs: segs, limit: cut}))
}
