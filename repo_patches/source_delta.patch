From a450db4cef346939e99fbe6774e3aba878b6342f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:09:25 +0000
Subject: [PATCH 01/32] fix: reject signed header numbers and empty names in
 cpio entries

A sign in a newc header field was accepted, so that a negative size or index
led to a panic; so did a name size of zero.
---
 cpio/cpio.go   | 3 +++
 cpio/header.go | 3 ++-
 2 files changed, 5 insertions(+), 1 deletion(-)

diff --git a/cpio/cpio.go b/cpio/cpio.go
index 8e4bba1..83cd180 100644
--- a/cpio/cpio.go
+++ b/cpio/cpio.go
@@ -82,6 +82,9 @@ func (cs *CpioStream) ReadNextEntry() (*CpioEntry, error) {
 	}
 
 	// Read filename
+	if hdr.namesize < 1 {
+		return nil, errors.New("invalid cpio header: missing filename")
+	}
 	buf := make([]byte, hdr.namesize)
 	if _, err = io.ReadFull(cs.stream, buf); err != nil {
 		return nil, err
diff --git a/cpio/header.go b/cpio/header.go
index 89af114..ff9e2a6 100644
--- a/cpio/header.go
+++ b/cpio/header.go
@@ -63,7 +63,8 @@ func (br *binaryReader) Read16(buf *int) error {
 	if _, err := io.ReadFull(br.r, bb); err != nil {
 		return err
 	}
-	i, err := strconv.ParseInt(string(bb), 16, 0)
+	// fields are unsigned, a sign is not allowed here
+	i, err := strconv.ParseUint(string(bb), 16, strconv.IntSize-1)
 	if err != nil {
 		return err
 	}
-- 
2.43.0


From 6c1cf5f9bf814eede484499d35b853b8bd3ef188 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:09:26 +0000
Subject: [PATCH 02/32] fix: set the 64-bit size of stripped cpio entries

Filesize64 promises the size given to SetFileSizes but returned 0. A negative
size (from a corrupt LONGFILESIZES) panicked when skipping to the next entry.
---
 cpio/cpio.go | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/cpio/cpio.go b/cpio/cpio.go
index 83cd180..72ec42c 100644
--- a/cpio/cpio.go
+++ b/cpio/cpio.go
@@ -128,6 +128,10 @@ func (cs *CpioStream) readStrippedEntry(hdr *Cpio_newc_header) (*CpioEntry, erro
 		return nil, fmt.Errorf("stripped cpio refers to invalid file index %d", hdr.index)
 	}
 	size := cs.sizes[hdr.index]
+	if size < 0 {
+		return nil, fmt.Errorf("invalid size for file index %d", hdr.index)
+	}
+	hdr.size64 = size
 	cs.nextPos = pad64(cs.stream.curPos + size)
 	payload, err := newFileStream(cs.stream, size)
 	if err != nil {
-- 
2.43.0


From 7756af951e40b7f74b89a0fcb1829678bbbaa4ee Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:10:21 +0000
Subject: [PATCH 03/32] fix: do not report a truncated cpio archive as complete

A premature end of the stream was dropped when skipping to the next entry and
was passed on as io.EOF from file contents and from a missing trailer, so that
a cut-off payload looked like one that was read to its end. Skipping also
allocated a buffer as large as the skipped file, up to the full file size.
---
 cpio/cpio.go   | 17 +++++++++++++----
 cpio/reader.go | 10 +++++++++-
 cpio/stream.go |  3 +++
 3 files changed, 25 insertions(+), 5 deletions(-)

diff --git a/cpio/cpio.go b/cpio/cpio.go
index 72ec42c..7ddc6d0 100644
--- a/cpio/cpio.go
+++ b/cpio/cpio.go
@@ -96,6 +96,10 @@ func (cs *CpioStream) ReadNextEntry() (*CpioEntry, error) {
 
 	if offset > 0 {
 		_, err := cs.stream.Seek(int64(offset), 1)
+		if err == io.ErrUnexpectedEOF && filename == TRAILER {
+			// nothing follows the trailer so its padding may be missing
+			err = nil
+		}
 		if err != nil {
 			return nil, err
 		}
@@ -153,12 +157,17 @@ func (cr *countingReader) Seek(offset int64, whence int) (int64, error) {
 	if offset == 0 {
 		return cr.curPos, nil
 	}
-	b := make([]byte, offset)
-	n, err := io.ReadFull(cr, b)
-	if err != nil && err != io.EOF {
+	if offset < 0 {
+		return 0, fmt.Errorf("seeking backwards not supported")
+	}
+	n, err := io.CopyN(io.Discard, cr, offset)
+	if err == io.EOF {
+		err = io.ErrUnexpectedEOF
+	}
+	if err != nil {
 		return 0, err
 	}
-	return int64(n), nil
+	return n, nil
 }
 
 func pad(num int) int {
diff --git a/cpio/reader.go b/cpio/reader.go
index d78879e..7a855b6 100644
--- a/cpio/reader.go
+++ b/cpio/reader.go
@@ -22,6 +22,7 @@ import "io"
 type Reader struct {
 	stream *CpioStream
 	cur    *CpioEntry
+	done   bool
 }
 
 // NewReader starts reading a cpio archive stream
@@ -44,10 +45,17 @@ func NewReaderWithSizes(stream io.Reader, sizes []int64) *Reader {
 //
 // Returns io.EOF upon encountering the archive trailer.
 func (r *Reader) Next() (*Cpio_newc_header, error) {
+	if r.done {
+		return nil, io.EOF
+	}
 	ent, err := r.stream.ReadNextEntry()
-	if err != nil {
+	if err == io.EOF {
+		// the trailer is missing
+		return nil, io.ErrUnexpectedEOF
+	} else if err != nil {
 		return nil, err
 	} else if ent.Header.filename == TRAILER {
+		r.done = true
 		return nil, io.EOF
 	}
 	r.cur = ent
diff --git a/cpio/stream.go b/cpio/stream.go
index 44a8619..a5547a2 100644
--- a/cpio/stream.go
+++ b/cpio/stream.go
@@ -59,5 +59,8 @@ func (fs *file_stream) Read(p []byte) (n int, err error) {
 	}
 	n, err = fs.stream.Read(p)
 	fs.curr_pos += int64(n)
+	if err == io.EOF && fs.curr_pos < fs.size {
+		err = io.ErrUnexpectedEOF
+	}
 	return
 }
-- 
2.43.0


From 3e9c003738540ad18d198bc181536595e027a7d6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:10:22 +0000
Subject: [PATCH 04/32] fix: do not panic when reading before the first entry

---
 cpio/reader.go | 3 +++
 payload.go     | 2 +-
 2 files changed, 4 insertions(+), 1 deletion(-)

diff --git a/cpio/reader.go b/cpio/reader.go
index 7a855b6..96790cc 100644
--- a/cpio/reader.go
+++ b/cpio/reader.go
@@ -66,5 +66,8 @@ func (r *Reader) Next() (*Cpio_newc_header, error) {
 //
 // Returns io.EOF when the current file has been read in its entirety.
 func (r *Reader) Read(p []byte) (n int, err error) {
+	if r.cur == nil {
+		return 0, io.EOF
+	}
 	return r.cur.payload.Read(p)
 }
diff --git a/payload.go b/payload.go
index ca489b2..ffa34f4 100644
--- a/payload.go
+++ b/payload.go
@@ -120,5 +120,5 @@ func (pr *payloadReader) Read(d []byte) (int, error) {
 // subsequent file with the same FileInfo.Inode and for which IsLink() returns
 // false will have the contents.
 func (pr *payloadReader) IsLink() bool {
-	return pr.isLink[pr.index]
+	return pr.index < len(pr.isLink) && pr.isLink[pr.index]
 }
-- 
2.43.0


From 09b38e01a1e1868a8594e189913d5b9e8c3c3b54 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:11:36 +0000
Subject: [PATCH 05/32] fix: read the whole target of a symlink when extracting

A single Read may return less than the buffer size, in particular at the block
boundaries of a decompressor, leaving a target with NULs at the end.
---
 cpio/extract.go | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/cpio/extract.go b/cpio/extract.go
index ec4931c..5184926 100644
--- a/cpio/extract.go
+++ b/cpio/extract.go
@@ -92,8 +92,8 @@ func Extract(rs io.Reader, dest string) error {
 				return err
 			}
 		case S_ISLNK:
-			buf := make([]byte, entry.Header.filesize)
-			if _, err := entry.payload.Read(buf); err != nil {
+			buf, err := io.ReadAll(entry.payload)
+			if err != nil {
 				return err
 			}
 			if err := os.Symlink(string(buf), target); err != nil {
-- 
2.43.0


From 00b097825ec9c67a4228eaa52dd029cc558c63bf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:11:37 +0000
Subject: [PATCH 06/32] fix: allow extracting to "." and "/"

Every entry was refused as an invalid path because the joined path does not
start with "./" or "//".
---
 cpio/extract.go | 15 +++++++++++++--
 1 file changed, 13 insertions(+), 2 deletions(-)

diff --git a/cpio/extract.go b/cpio/extract.go
index 5184926..54da51f 100644
--- a/cpio/extract.go
+++ b/cpio/extract.go
@@ -43,7 +43,10 @@ const (
 
 // Extract the contents of a cpio stream from r to the destination directory dest
 func Extract(rs io.Reader, dest string) error {
-	dest = filepath.Clean(filepath.FromSlash(dest))
+	dest, err := filepath.Abs(filepath.FromSlash(dest))
+	if err != nil {
+		return err
+	}
 	linkMap := make(map[int][]string)
 
 	stream := NewCpioStream(rs)
@@ -64,7 +67,7 @@ func Extract(rs io.Reader, dest string) error {
 			target = target[3:]
 		}
 		target = filepath.Join(dest, filepath.FromSlash(target))
-		if !strings.HasPrefix(target, dest+string(filepath.Separator)) && dest != target {
+		if !isBelow(dest, target) && dest != target {
 			// this shouldn't happen due to the sanitization above but always check
 			return fmt.Errorf("invalid cpio path %q", entry.Header.filename)
 		}
@@ -148,3 +151,11 @@ func Extract(rs io.Reader, dest string) error {
 
 	return nil
 }
+
+// isBelow returns true if the cleaned path target is inside of directory dir
+func isBelow(dir, target string) bool {
+	if !strings.HasSuffix(dir, string(filepath.Separator)) {
+		dir += string(filepath.Separator)
+	}
+	return target != dir && strings.HasPrefix(target, dir)
+}
-- 
2.43.0


From 2356b31474a039661282f6345d2f5591d16a6e8e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:12:14 +0000
Subject: [PATCH 07/32] fix: do not extract through symlinks that lead out of
 the destination

An archive could create a symlink and then write through it, either to a file
below it or by using the name of the symlink again, and thereby overwrite files
anywhere. The same went for links that already were in the destination.
Existing files are now replaced, which also allows to extract symlinks, FIFOs
and hardlinks a second time.
---
 cpio/extract.go | 88 ++++++++++++++++++++++++++++++++++++++++++++++---
 1 file changed, 84 insertions(+), 4 deletions(-)

diff --git a/cpio/extract.go b/cpio/extract.go
index 54da51f..d047aa2 100644
--- a/cpio/extract.go
+++ b/cpio/extract.go
@@ -72,8 +72,8 @@ func Extract(rs io.Reader, dest string) error {
 			return fmt.Errorf("invalid cpio path %q", entry.Header.filename)
 		}
 		// Create the parent directory if it doesn't exist.
-		parent := filepath.Dir(target)
-		if err := os.MkdirAll(parent, 0755); err != nil {
+		target, err = makeParent(dest, target)
+		if err != nil {
 			return err
 		}
 		// FIXME: Need a makedev implementation in go.
@@ -87,10 +87,20 @@ func Extract(rs io.Reader, dest string) error {
 			continue
 		case S_ISDIR:
 			m := os.FileMode(entry.Header.Mode()).Perm()
-			if err := os.Mkdir(target, m); err != nil && !os.IsExist(err) {
+			if err := os.Mkdir(target, m); os.IsExist(err) {
+				// keep an existing directory, or a symlink to one
+				if st, err := os.Stat(target); err != nil {
+					return err
+				} else if !st.IsDir() {
+					return fmt.Errorf("%s exists and is not a directory", target)
+				}
+			} else if err != nil {
 				return err
 			}
 		case S_ISFIFO:
+			if err := removeExisting(dest, target); err != nil {
+				return err
+			}
 			if err := fileutil.Mkfifo(target, uint32(entry.Header.Mode())); err != nil {
 				return err
 			}
@@ -99,6 +109,9 @@ func Extract(rs io.Reader, dest string) error {
 			if err != nil {
 				return err
 			}
+			if err := removeExisting(dest, target); err != nil {
+				return err
+			}
 			if err := os.Symlink(string(buf), target); err != nil {
 				return err
 			}
@@ -115,7 +128,10 @@ func Extract(rs io.Reader, dest string) error {
 			}
 
 			// FIXME: Set permissions on files when creating.
-			f, err := os.Create(target)
+			if err := removeExisting(dest, target); err != nil {
+				return err
+			}
+			f, err := os.OpenFile(target, os.O_RDWR|os.O_CREATE|os.O_EXCL, 0666)
 			if err != nil {
 				return err
 			}
@@ -138,6 +154,12 @@ func Extract(rs io.Reader, dest string) error {
 				}
 
 				for _, t := range l {
+					if t == target {
+						continue
+					}
+					if err := removeExisting(dest, t); err != nil {
+						return err
+					}
 					if err := os.Link(target, t); err != nil {
 						return err
 					}
@@ -159,3 +181,61 @@ func isBelow(dir, target string) bool {
 	}
 	return target != dir && strings.HasPrefix(target, dir)
 }
+
+// makeParent creates the parent directories of target, which must be dest or
+// inside of it. It returns the equivalent of target in which the parent is not
+// reached through a symlink inside of dest, or an error if such a symlink leads
+// out of dest.
+func makeParent(dest, target string) (string, error) {
+	if target == dest {
+		return target, os.MkdirAll(filepath.Dir(target), 0755)
+	}
+	if err := os.MkdirAll(dest, 0755); err != nil {
+		return "", err
+	}
+	root, err := filepath.EvalSymlinks(dest)
+	if err != nil {
+		return "", err
+	}
+	rel, err := filepath.Rel(dest, target)
+	if err != nil {
+		return "", err
+	}
+	parent := root
+	elems := strings.Split(rel, string(filepath.Separator))
+	for _, elem := range elems[:len(elems)-1] {
+		parent = filepath.Join(parent, elem)
+		if err := os.Mkdir(parent, 0755); err == nil {
+			continue
+		} else if !os.IsExist(err) {
+			return "", err
+		}
+		parent, err = filepath.EvalSymlinks(parent)
+		if err != nil {
+			return "", err
+		}
+		if parent != root && !isBelow(root, parent) {
+			return "", fmt.Errorf("cpio path %q leads outside of the destination", rel)
+		}
+	}
+	return filepath.Join(parent, elems[len(elems)-1]), nil
+}
+
+// removeExisting makes room for a new file at target. Existing files are
+// replaced instead of written to because they could be a symlink or hardlink to
+// something outside of dest.
+func removeExisting(dest, target string) error {
+	if target == dest {
+		return fmt.Errorf("%s is not a directory in the archive", dest)
+	}
+	st, err := os.Lstat(target)
+	if os.IsNotExist(err) {
+		return nil
+	} else if err != nil {
+		return err
+	}
+	if st.IsDir() {
+		return fmt.Errorf("%s exists and is a directory", target)
+	}
+	return os.Remove(target)
+}
-- 
2.43.0


From d550a62e31a6cf7b21e42f0aa4e5a6fb38415a13 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:12:52 +0000
Subject: [PATCH 08/32] fix: extract every member of a hardlink group

Members were only created when a later member had contents, so a group of
empty files was lost without an error and an archive with the contents in the
first member failed. Files on different devices with the same inode number were
linked to each other.
---
 cpio/extract.go | 95 ++++++++++++++++++++++++++++++++-----------------
 1 file changed, 62 insertions(+), 33 deletions(-)

diff --git a/cpio/extract.go b/cpio/extract.go
index d047aa2..a1cd0a2 100644
--- a/cpio/extract.go
+++ b/cpio/extract.go
@@ -47,7 +47,10 @@ func Extract(rs io.Reader, dest string) error {
 	if err != nil {
 		return err
 	}
-	linkMap := make(map[int][]string)
+	links := hardlinks{
+		names: make(map[linkKey]map[string]bool),
+		keys:  make(map[string]linkKey),
+	}
 
 	stream := NewCpioStream(rs)
 
@@ -101,6 +104,7 @@ func Extract(rs io.Reader, dest string) error {
 			if err := removeExisting(dest, target); err != nil {
 				return err
 			}
+			links.forget(target)
 			if err := fileutil.Mkfifo(target, uint32(entry.Header.Mode())); err != nil {
 				return err
 			}
@@ -112,26 +116,35 @@ func Extract(rs io.Reader, dest string) error {
 			if err := removeExisting(dest, target); err != nil {
 				return err
 			}
+			links.forget(target)
 			if err := os.Symlink(string(buf), target); err != nil {
 				return err
 			}
 		case S_ISREG:
-			// save hardlinks until after the taget is written
-			if entry.Header.nlink > 1 && entry.Header.filesize == 0 {
-				l, ok := linkMap[entry.Header.ino]
-				if !ok {
-					l = make([]string, 0)
+			if err := removeExisting(dest, target); err != nil {
+				return err
+			}
+			links.forget(target)
+			flags := os.O_RDWR | os.O_CREATE | os.O_EXCL
+			if entry.Header.nlink > 1 {
+				// The names of a hardlinked file share its contents, which any
+				// one of them may carry.
+				key := linkKey{entry.Header.ino, entry.Header.devmajor, entry.Header.devminor}
+				other, ok := links.find(key)
+				links.add(key, target)
+				if ok {
+					if err := os.Link(other, target); err != nil {
+						return err
+					}
+					if entry.Header.filesize == 0 {
+						continue
+					}
+					flags = os.O_RDWR | os.O_TRUNC
 				}
-				l = append(l, target)
-				linkMap[entry.Header.ino] = l
-				continue
 			}
 
 			// FIXME: Set permissions on files when creating.
-			if err := removeExisting(dest, target); err != nil {
-				return err
-			}
-			f, err := os.OpenFile(target, os.O_RDWR|os.O_CREATE|os.O_EXCL, 0666)
+			f, err := os.OpenFile(target, flags, 0666)
 			if err != nil {
 				return err
 			}
@@ -145,26 +158,6 @@ func Extract(rs io.Reader, dest string) error {
 			if err := f.Close(); err != nil {
 				return err
 			}
-
-			// Create hardlinks after the file content is written.
-			if entry.Header.nlink > 1 && entry.Header.filesize > 0 {
-				l, ok := linkMap[entry.Header.ino]
-				if !ok {
-					return fmt.Errorf("hardlinks missing")
-				}
-
-				for _, t := range l {
-					if t == target {
-						continue
-					}
-					if err := removeExisting(dest, t); err != nil {
-						return err
-					}
-					if err := os.Link(target, t); err != nil {
-						return err
-					}
-				}
-			}
 		default:
 			return fmt.Errorf("unknown file mode 0%o for %s",
 				entry.Header.mode, entry.Header.filename)
@@ -239,3 +232,39 @@ func removeExisting(dest, target string) error {
 	}
 	return os.Remove(target)
 }
+
+// linkKey identifies a file in the archive that may have several names
+type linkKey struct {
+	ino, devmajor, devminor int
+}
+
+// hardlinks holds the extracted names of files with more than one link
+type hardlinks struct {
+	names map[linkKey]map[string]bool
+	keys  map[string]linkKey
+}
+
+// add records that name is a link to the file
+func (h hardlinks) add(key linkKey, name string) {
+	if h.names[key] == nil {
+		h.names[key] = make(map[string]bool)
+	}
+	h.names[key][name] = true
+	h.keys[name] = key
+}
+
+// forget is called when name is about to be replaced
+func (h hardlinks) forget(name string) {
+	if key, ok := h.keys[name]; ok {
+		delete(h.names[key], name)
+		delete(h.keys, name)
+	}
+}
+
+// find returns any name of the file
+func (h hardlinks) find(key linkKey) (string, bool) {
+	for name := range h.names[key] {
+		return name, true
+	}
+	return "", false
+}
-- 
2.43.0


From f3ae44121f955d898a39f04d573391f7467f315f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:13:09 +0000
Subject: [PATCH 09/32] fix: check the bounds of header tags

A tag with a negative or too large offset or count, or a header size that
overflowed, led to a panic.
---
 header.go | 17 ++++++++++++++++-
 1 file changed, 16 insertions(+), 1 deletion(-)

diff --git a/header.go b/header.go
index 5894a58..7c52edc 100644
--- a/header.go
+++ b/header.go
@@ -29,7 +29,13 @@ import (
 	"strings"
 )
 
-const introMagic = 0x8eade801
+const (
+	introMagic = 0x8eade801
+
+	// limits that rpm imposes on headers
+	maxHeaderTags = 0xffff
+	maxHeaderData = 0x0fffffff
+)
 
 type entry struct {
 	dataType, count int32
@@ -84,6 +90,9 @@ func readHeader(f io.Reader, hash string, hashType crypto.Hash, isSource bool, s
 	if intro.Magic != introMagic {
 		return nil, fmt.Errorf("bad magic for header")
 	}
+	if intro.Entries > maxHeaderTags || intro.Size > maxHeaderData {
+		return nil, fmt.Errorf("RPM header is too big")
+	}
 	// read entries
 	entryTable, err := readExact(f, int(intro.Entries*16))
 	if err != nil {
@@ -116,9 +125,15 @@ func readHeader(f io.Reader, hash string, hashType crypto.Hash, isSource bool, s
 		if err := binary.Read(buf, binary.BigEndian, &tag); err != nil {
 			return nil, err
 		}
+		if tag.Offset < 0 || int(tag.Offset) > len(data) || tag.Count < 0 {
+			return nil, fmt.Errorf("tag %d is outside of the header data", tag.Tag)
+		}
 		typeSize, ok := typeSizes[tag.DataType]
 		var end int
 		if ok {
+			if typeSize != 0 && int(tag.Count) > (len(data)-int(tag.Offset))/typeSize {
+				return nil, fmt.Errorf("tag %d is truncated", tag.Tag)
+			}
 			end = int(tag.Offset) + typeSize*int(tag.Count)
 		} else {
 			// String types are null-terminated
-- 
2.43.0


From 8fd0815a55f080b76f965ed01290c2f89934e899 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:13:29 +0000
Subject: [PATCH 10/32] fix: return errors for inconsistent header tags instead
 of panicking

Empty name and digest tags, directory indexes out of range and file tags of
different length are not caught when parsing the header.
---
 header.go     | 18 ++++++++++++++++++
 signatures.go |  4 ++--
 2 files changed, 20 insertions(+), 2 deletions(-)

diff --git a/header.go b/header.go
index 7c52edc..559ddc9 100644
--- a/header.go
+++ b/header.go
@@ -209,8 +209,14 @@ func (hdr *rpmHeader) GetStrings(tag int) ([]string, error) {
 		if err != nil {
 			return nil, err
 		}
+		if len(dirIdxs) != len(baseNames) {
+			return nil, errors.New("incorrect number of directory indexes")
+		}
 		paths := make([]string, 0, len(baseNames))
 		for i, base := range baseNames {
+			if int64(dirIdxs[i]) >= int64(len(dirs)) {
+				return nil, fmt.Errorf("invalid directory index %d", dirIdxs[i])
+			}
 			paths = append(paths, path.Join(dirs[dirIdxs[i]], base))
 		}
 		return paths, nil
@@ -386,6 +392,9 @@ func (hdr *rpmHeader) GetNEVRA() (*NEVRA, error) {
 	if err != nil {
 		return nil, err
 	}
+	if len(name) == 0 || len(version) == 0 || len(release) == 0 || len(arch) == 0 {
+		return nil, errors.New("empty name, version, release or arch")
+	}
 	return &NEVRA{
 		Name:    name[0],
 		Epoch:   strconv.FormatUint(epoch[0], 10),
@@ -449,6 +458,15 @@ func (hdr *rpmHeader) GetFiles() ([]FileInfo, error) {
 		inodes = make([]uint32, len(paths))
 	}
 
+	for _, n := range []int{
+		len(fileSizes), len(fileUserName), len(fileGroupName), len(fileFlags), len(fileMtimes),
+		len(fileDigests), len(fileModes), len(linkTos), len(devices), len(inodes),
+	} {
+		if n != len(paths) {
+			return nil, errors.New("incorrect number of values in file tags")
+		}
+	}
+
 	files := make([]FileInfo, len(paths))
 	for i := 0; i < len(paths); i++ {
 		files[i] = &fileInfo{
diff --git a/signatures.go b/signatures.go
index 4678155..58858cc 100644
--- a/signatures.go
+++ b/signatures.go
@@ -90,7 +90,7 @@ func insertSignatures(sigHeader *rpmHeader, sigPgp, sigRsa []byte) {
 
 func getSha1(sigHeader *rpmHeader) string {
 	vals, err := sigHeader.GetStrings(SIG_SHA1)
-	if err != nil {
+	if err != nil || len(vals) == 0 {
 		return ""
 	}
 	return vals[0]
@@ -98,7 +98,7 @@ func getSha1(sigHeader *rpmHeader) string {
 
 func getSha256(sigHeader *rpmHeader) string {
 	vals, err := sigHeader.GetStrings(SIG_SHA256)
-	if err != nil {
+	if err != nil || len(vals) == 0 {
 		return ""
 	}
 	return vals[0]
-- 
2.43.0


From 23a07eb33207267b9e552c61d4751e789fc6cf0c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:13:30 +0000
Subject: [PATCH 11/32] fix: do not ignore a header digest of one character

---
 header.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/header.go b/header.go
index 559ddc9..bde6f5c 100644
--- a/header.go
+++ b/header.go
@@ -109,7 +109,7 @@ func readHeader(f io.Reader, hash string, hashType crypto.Hash, isSource bool, s
 		return nil, fmt.Errorf("error reading RPM header data: %s", err.Error())
 	}
 	// Check hash if it was specified
-	if len(hash) > 1 {
+	if hash != "" {
 		h := hashType.New()
 		h.Write(origBuf.Bytes())
 		calculated := hex.EncodeToString(h.Sum(nil))
-- 
2.43.0


From c24fa87ac6772e75dadb29eac977c93204f0341a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:13:31 +0000
Subject: [PATCH 12/32] fix: apply defaults to unset fields of SignatureOptions

Options without a hash panicked, and without a creation time the signature got
the zero time.
---
 signatures.go | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/signatures.go b/signatures.go
index 58858cc..f7caedc 100644
--- a/signatures.go
+++ b/signatures.go
@@ -39,14 +39,14 @@ type SignatureOptions struct {
 }
 
 func (opts *SignatureOptions) hash() crypto.Hash {
-	if opts != nil {
+	if opts != nil && opts.Hash != 0 {
 		return opts.Hash
 	}
 	return crypto.SHA256
 }
 
 func (opts *SignatureOptions) creationTime() time.Time {
-	if opts != nil {
+	if opts != nil && !opts.CreationTime.IsZero() {
 		return opts.CreationTime
 	}
 	return time.Now()
-- 
2.43.0


From 2809e3b23cd9e130cc18d7ac31425a44d00b6a62 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:13:32 +0000
Subject: [PATCH 13/32] fix: report the key that made a signature, not its
 primary key

When a signature by a subkey is identified by only its key ID or only its
fingerprint, the other one was filled in from the primary key.
---
 verify_v3.go | 2 +-
 verify_v4.go | 8 ++++----
 2 files changed, 5 insertions(+), 5 deletions(-)

diff --git a/verify_v3.go b/verify_v3.go
index 48bb572..9f48e29 100644
--- a/verify_v3.go
+++ b/verify_v3.go
@@ -28,7 +28,7 @@ func parseSignatureMaybeV3(genpkt packet.Packet, knownKeys openpgp.EntityList) (
 		if len(keys) == 0 || keys[0].PublicKey == nil {
 			return KeyNotFoundError{KeyID: pkt.IssuerKeyId}
 		}
-		setEntity(sig, keys[0].Entity)
+		setEntity(sig, keys[0].Entity, keys[0].PublicKey)
 		return keys[0].PublicKey.VerifySignatureV3(h, pkt)
 	}
 	return sig, nil
diff --git a/verify_v4.go b/verify_v4.go
index 38d02d6..9257969 100644
--- a/verify_v4.go
+++ b/verify_v4.go
@@ -37,7 +37,7 @@ func parseSignatureV4(genpkt packet.Packet, knownKeys openpgp.EntityList) (*Sign
 			return nil
 		}
 		if entity, key := findKey(pkt, knownKeys); key != nil {
-			setEntity(sig, entity)
+			setEntity(sig, entity, key)
 			return key.VerifySignature(h, pkt)
 		}
 		return KeyNotFoundError{
@@ -49,13 +49,13 @@ func parseSignatureV4(genpkt packet.Packet, knownKeys openpgp.EntityList) (*Sign
 }
 
 // set identity attributes on signature
-func setEntity(sig *Signature, entity *openpgp.Entity) {
+func setEntity(sig *Signature, entity *openpgp.Entity, key *packet.PublicKey) {
 	sig.Signer = entity
 	if sig.KeyId == 0 {
-		sig.KeyId = entity.PrimaryKey.KeyId
+		sig.KeyId = key.KeyId
 	}
 	if sig.KeyFingerprint == nil {
-		sig.KeyFingerprint = entity.PrimaryKey.Fingerprint
+		sig.KeyFingerprint = key.Fingerprint
 	}
 	if identity := entity.PrimaryIdentity(); identity != nil {
 		sig.PrimaryName = identity.Name
-- 
2.43.0


From 0dcae8eff71324a4644ee7bd4030b1e21c7821fc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:14:03 +0000
Subject: [PATCH 14/32] fix: detect hardlinks before signing in place

os.FileInfo holds a syscall.Stat_t so HasLinks always returned false, and
signing a package in place also changed it under its other names.
---
 fileutil/fileutil_unix.go | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/fileutil/fileutil_unix.go b/fileutil/fileutil_unix.go
index e5a0f72..aa5a129 100644
--- a/fileutil/fileutil_unix.go
+++ b/fileutil/fileutil_unix.go
@@ -21,12 +21,14 @@ package fileutil
 
 import (
 	"os"
+	"syscall"
+
 	"golang.org/x/sys/unix"
 )
 
 // HasLinks returns true if the given file has Nlink > 1
 func HasLinks(info os.FileInfo) bool {
-	stat, ok := info.Sys().(*unix.Stat_t)
+	stat, ok := info.Sys().(*syscall.Stat_t)
 	if !ok {
 		return false
 	}
-- 
2.43.0


From 66ea73fd78bfac8c22ccf085d8e144c4c09dc2b6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:14:35 +0000
Subject: [PATCH 15/32] fix: do not replace the output with a partial file when
 signing fails

The deferred function looked at a variable that was never set to the result of
writing the package, so the temporary file was always renamed to the output
path, and an error from renaming it was lost.
---
 signatures.go | 28 +++++++++++++++-------------
 1 file changed, 15 insertions(+), 13 deletions(-)

diff --git a/signatures.go b/signatures.go
index f7caedc..3fcef5b 100644
--- a/signatures.go
+++ b/signatures.go
@@ -225,7 +225,7 @@ func RewriteWithSignatures(infile *os.File, outpath string, sigPgp, sigRsa []byt
 	return header, nil
 }
 
-func rewriteRpm(infile *os.File, outpath string, header *RpmHeader) error {
+func rewriteRpm(infile *os.File, outpath string, header *RpmHeader) (err error) {
 	delete(header.sigHeader.entries, SIG_RESERVEDSPACE-_SIGHEADER_TAG_BASE)
 	ininfo, err := infile.Stat()
 	if err != nil {
@@ -235,14 +235,14 @@ func rewriteRpm(infile *os.File, outpath string, header *RpmHeader) error {
 	if outpath == "-" {
 		outstream = os.Stdout
 	} else {
-		outinfo, err := os.Lstat(outpath)
-		if err == nil && canOverwrite(ininfo, outinfo) {
+		outinfo, outErr := os.Lstat(outpath)
+		if outErr == nil && canOverwrite(ininfo, outinfo) {
 			ok, err := writeInPlace(outpath, header)
 			if err != nil || ok {
 				return err
 			}
 			// in-place didn't work; fallback to rewrite
-		} else if err == nil && !outinfo.Mode().IsRegular() {
+		} else if outErr == nil && !outinfo.Mode().IsRegular() {
 			// pipe or something else. open for writing.
 			outfile, err := os.Create(outpath)
 			if err != nil {
@@ -253,19 +253,21 @@ func rewriteRpm(infile *os.File, outpath string, header *RpmHeader) error {
 		}
 		if outstream == nil {
 			// write-rename
-			tempfile, err := os.CreateTemp(path.Dir(outpath), path.Base(outpath))
-			if err != nil {
-				return err
+			tempfile, tempErr := os.CreateTemp(path.Dir(outpath), path.Base(outpath))
+			if tempErr != nil {
+				return tempErr
 			}
 			defer func() {
+				// the result of writeRpm is in err
+				_ = tempfile.Chmod(0644)
+				if closeErr := tempfile.Close(); err == nil {
+					err = closeErr
+				}
+				if err == nil {
+					err = os.Rename(tempfile.Name(), outpath)
+				}
 				if err != nil {
 					os.Remove(tempfile.Name())
-				} else {
-					_ = tempfile.Chmod(0644)
-					if err = tempfile.Close(); err != nil {
-						return
-					}
-					err = os.Rename(tempfile.Name(), outpath)
 				}
 			}()
 			outstream = tempfile
-- 
2.43.0


From d82fd6a6df15e477b313218c4dd9b61afede6678 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:14:36 +0000
Subject: [PATCH 16/32] fix: do not truncate the input when the output is a
 symlink to it

The output was opened for writing, which emptied the input before it was
copied. Output through a symlink also wasn't replaced at once.
---
 signatures.go | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/signatures.go b/signatures.go
index 3fcef5b..94d5a56 100644
--- a/signatures.go
+++ b/signatures.go
@@ -23,6 +23,7 @@ import (
 	"io"
 	"os"
 	"path"
+	"path/filepath"
 	"time"
 
 	"github.com/ProtonMail/go-crypto/openpgp/packet"
@@ -235,6 +236,13 @@ func rewriteRpm(infile *os.File, outpath string, header *RpmHeader) (err error)
 	if outpath == "-" {
 		outstream = os.Stdout
 	} else {
+		// replace the target of a symlink instead of truncating it, it may be
+		// the input file
+		if st, err := os.Stat(outpath); err == nil && st.Mode().IsRegular() {
+			if resolved, err := filepath.EvalSymlinks(outpath); err == nil {
+				outpath = resolved
+			}
+		}
 		outinfo, outErr := os.Lstat(outpath)
 		if outErr == nil && canOverwrite(ininfo, outinfo) {
 			ok, err := writeInPlace(outpath, header)
-- 
2.43.0


From 0eb5f655eaaecb6563f071a723a857a107a6a9f4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:14:37 +0000
Subject: [PATCH 17/32] fix: compare versions that contain a line break

No pattern matched them, so they were equal to everything.
---
 vercmp.go | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/vercmp.go b/vercmp.go
index e9cba8c..2ebb21f 100644
--- a/vercmp.go
+++ b/vercmp.go
@@ -22,9 +22,9 @@ import (
 )
 
 var (
-	R_NONALNUMTILDE = regexp.MustCompile(`^([^a-zA-Z0-9~]*)(.*)$`)
-	R_NUM           = regexp.MustCompile(`^([\d]+)(.*)$`)
-	R_ALPHA         = regexp.MustCompile(`^([a-zA-Z]+)(.*)$`)
+	R_NONALNUMTILDE = regexp.MustCompile(`(?s)^([^a-zA-Z0-9~]*)(.*)$`)
+	R_NUM           = regexp.MustCompile(`(?s)^([\d]+)(.*)$`)
+	R_ALPHA         = regexp.MustCompile(`(?s)^([a-zA-Z]+)(.*)$`)
 )
 
 // VersionSlice provides the Sort interface for sorting version strings.
-- 
2.43.0


From e747cadb2e53592c81f64c4c05ed961eda34a2c9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:17:31 +0000
Subject: [PATCH 18/32] fix: compare versions that contain a caret

rpm sorts '^' after the end of the version but before anything else.
---
 vercmp.go | 19 ++++++++++++++++++-
 1 file changed, 18 insertions(+), 1 deletion(-)

diff --git a/vercmp.go b/vercmp.go
index 2ebb21f..259a6a7 100644
--- a/vercmp.go
+++ b/vercmp.go
@@ -22,7 +22,7 @@ import (
 )
 
 var (
-	R_NONALNUMTILDE = regexp.MustCompile(`(?s)^([^a-zA-Z0-9~]*)(.*)$`)
+	R_NONALNUMTILDE = regexp.MustCompile(`(?s)^([^a-zA-Z0-9~^]*)(.*)$`)
 	R_NUM           = regexp.MustCompile(`(?s)^([\d]+)(.*)$`)
 	R_ALPHA         = regexp.MustCompile(`(?s)^([a-zA-Z]+)(.*)$`)
 )
@@ -80,6 +80,23 @@ func Vercmp(first, second string) int {
 			return 1
 		}
 
+		// A caret sorts after the end of the version but before everything
+		// else.
+		if strings.HasPrefix(first, "^") || strings.HasPrefix(second, "^") {
+			switch {
+			case first == "":
+				return -1
+			case second == "":
+				return 1
+			case first[0] != '^':
+				return 1
+			case second[0] != '^':
+				return -1
+			}
+			first, second = first[1:], second[1:]
+			continue
+		}
+
 		// If we ran to the end of either, we are finished with the loop.
 		if first == "" || second == "" {
 			break
-- 
2.43.0


From 54c53ab5c1f6f85084850ed39ba01e8c58709814 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:17:31 +0000
Subject: [PATCH 19/32] fix: do not accept signature tags that extend into the
 padding

---
 header.go | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/header.go b/header.go
index bde6f5c..40fce51 100644
--- a/header.go
+++ b/header.go
@@ -108,6 +108,8 @@ func readHeader(f io.Reader, hash string, hashType crypto.Hash, isSource bool, s
 	if err != nil {
 		return nil, fmt.Errorf("error reading RPM header data: %s", err.Error())
 	}
+	// padding isn't part of the data
+	data = data[:intro.Size]
 	// Check hash if it was specified
 	if hash != "" {
 		h := hashType.New()
-- 
2.43.0


From 50f19428646f260a1fad5609af67a74b16d37b64 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:17:31 +0000
Subject: [PATCH 20/32] fix: do not treat files without an inode number as
 hardlinks

The device number alone does not identify a file.
---
 payload.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/payload.go b/payload.go
index ffa34f4..196a8aa 100644
--- a/payload.go
+++ b/payload.go
@@ -65,7 +65,7 @@ func newPayloadReader(r io.Reader, files []FileInfo) *payloadReader {
 			// all but the last file in a link group will have no contents. flag
 			// them so we don't try to read the nonexistent payload.
 			ino := fileSt.inode64()
-			if lastInode, ok := lastInodes[ino]; ok && ino != 0 {
+			if lastInode, ok := lastInodes[ino]; ok && fileSt.inode != 0 {
 				pr.isLink[lastInode] = true
 				fileSizes[lastInode] = 0
 			}
-- 
2.43.0


From 6ef8717a1207132db2cd2867217ac610d097a8aa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:17:31 +0000
Subject: [PATCH 21/32] fix: do not report sizes over 63 bits as negative
 numbers

---
 header.go   | 4 ++++
 rpmutils.go | 5 +++++
 2 files changed, 9 insertions(+)

diff --git a/header.go b/header.go
index 40fce51..82a616b 100644
--- a/header.go
+++ b/header.go
@@ -24,6 +24,7 @@ import (
 	"errors"
 	"fmt"
 	"io"
+	"math"
 	"path"
 	"strconv"
 	"strings"
@@ -471,6 +472,9 @@ func (hdr *rpmHeader) GetFiles() ([]FileInfo, error) {
 
 	files := make([]FileInfo, len(paths))
 	for i := 0; i < len(paths); i++ {
+		if fileSizes[i] > math.MaxInt64 {
+			return nil, errors.New("file size is out of range")
+		}
 		files[i] = &fileInfo{
 			name:      paths[i],
 			size:      fileSizes[i],
diff --git a/rpmutils.go b/rpmutils.go
index cbe3100..cbf17aa 100644
--- a/rpmutils.go
+++ b/rpmutils.go
@@ -21,6 +21,7 @@ import (
 	"errors"
 	"fmt"
 	"io"
+	"math"
 
 	"github.com/sassoftware/go-rpmutils/cpio"
 )
@@ -303,6 +304,8 @@ func (hdr *RpmHeader) InstalledSize() (int64, error) {
 	u, err := hdr.GetUint64Fallback(SIZE, LONGSIZE)
 	if err != nil {
 		return -1, err
+	} else if u > math.MaxInt64 {
+		return -1, errors.New("size is out of range")
 	}
 	return int64(u), nil
 }
@@ -314,6 +317,8 @@ func (hdr *RpmHeader) PayloadSize() (int64, error) {
 		return -1, err
 	} else if len(u) != 1 {
 		return -1, errors.New("incorrect number of values")
+	} else if u[0] > math.MaxInt64 {
+		return -1, errors.New("size is out of range")
 	}
 	return int64(u[0]), err
 }
-- 
2.43.0


From b4028faabb251c2041f32b3ae7624522eea66929 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:17:31 +0000
Subject: [PATCH 22/32] fix: do not ignore device and inode numbers of an
 unsupported type

---
 header.go | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/header.go b/header.go
index 82a616b..ae0c0db 100644
--- a/header.go
+++ b/header.go
@@ -453,12 +453,16 @@ func (hdr *rpmHeader) GetFiles() ([]FileInfo, error) {
 		return nil, err
 	}
 	devices, err := hdr.GetUint32s(FILEDEVICES)
-	if err != nil {
+	if errors.As(err, &NoSuchTagError{}) {
 		devices = make([]uint32, len(paths))
+	} else if err != nil {
+		return nil, err
 	}
 	inodes, err := hdr.GetUint32s(FILEINODES)
-	if err != nil {
+	if errors.As(err, &NoSuchTagError{}) {
 		inodes = make([]uint32, len(paths))
+	} else if err != nil {
+		return nil, err
 	}
 
 	for _, n := range []int{
-- 
2.43.0


From 28b33cbb31d339edb2a653c7e90f64ee8f93b653 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:17:31 +0000
Subject: [PATCH 23/32] fix: do not ignore a header digest that is damaged

A digest that is stored with the wrong type or is empty was treated as if
it was not stored.
---
 header.go     | 2 +-
 signatures.go | 9 ++++++---
 2 files changed, 7 insertions(+), 4 deletions(-)

diff --git a/header.go b/header.go
index ae0c0db..1304de6 100644
--- a/header.go
+++ b/header.go
@@ -112,7 +112,7 @@ func readHeader(f io.Reader, hash string, hashType crypto.Hash, isSource bool, s
 	// padding isn't part of the data
 	data = data[:intro.Size]
 	// Check hash if it was specified
-	if hash != "" {
+	if hashType != 0 {
 		h := hashType.New()
 		h.Write(origBuf.Bytes())
 		calculated := hex.EncodeToString(h.Sum(nil))
diff --git a/signatures.go b/signatures.go
index 94d5a56..31c5c57 100644
--- a/signatures.go
+++ b/signatures.go
@@ -108,10 +108,13 @@ func getSha256(sigHeader *rpmHeader) string {
 func getHashAndType(sigHeader *rpmHeader) (string, crypto.Hash) {
 	// RPM v4 introduced SHA256 header signatures, prefer them over the
 	// previous SHA1
-	if h := getSha256(sigHeader); h != "" {
-		return h, crypto.SHA256
+	if sigHeader.HasTag(SIG_SHA256) {
+		return getSha256(sigHeader), crypto.SHA256
 	}
-	return getSha1(sigHeader), crypto.SHA1
+	if sigHeader.HasTag(SIG_SHA1) {
+		return getSha1(sigHeader), crypto.SHA1
+	}
+	return "", 0
 }
 
 func digestForSigning(sigHeader, genHeader *rpmHeader, payloadReader io.Reader, opts *SignatureOptions) (genHash, combinedHash hash.Hash, err error) {
-- 
2.43.0


From c6ffedbcb8fc075921878c0a7c40b7d0fe80f27b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:17:46 +0000
Subject: [PATCH 24/32] fix: do not report an empty file list when the
 directories are missing

---
 header.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/header.go b/header.go
index 1304de6..09655d2 100644
--- a/header.go
+++ b/header.go
@@ -414,7 +414,7 @@ func (hdr *rpmHeader) GetNEVRA() (*NEVRA, error) {
 func (hdr *rpmHeader) GetFiles() ([]FileInfo, error) {
 	paths, err := hdr.GetStrings(OLDFILENAMES)
 	if err != nil {
-		if !errors.As(err, &NoSuchTagError{}) {
+		if !errors.As(err, &NoSuchTagError{}) || hdr.HasTag(BASENAMES) {
 			return nil, err
 		}
 		// RPM has no files
-- 
2.43.0


From 7a5786607c59c87aa6a91998bf15492062808bd9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:46:54 +0000
Subject: [PATCH 25/32] fix: do not allocate memory for a file name that is not
 in the archive

---
 cpio/cpio.go | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/cpio/cpio.go b/cpio/cpio.go
index 7ddc6d0..1c015a2 100644
--- a/cpio/cpio.go
+++ b/cpio/cpio.go
@@ -85,9 +85,11 @@ func (cs *CpioStream) ReadNextEntry() (*CpioEntry, error) {
 	if hdr.namesize < 1 {
 		return nil, errors.New("invalid cpio header: missing filename")
 	}
-	buf := make([]byte, hdr.namesize)
-	if _, err = io.ReadFull(cs.stream, buf); err != nil {
+	buf, err := io.ReadAll(io.LimitReader(cs.stream, int64(hdr.namesize)))
+	if err != nil {
 		return nil, err
+	} else if len(buf) != hdr.namesize {
+		return nil, io.ErrUnexpectedEOF
 	}
 
 	filename := string(buf[:len(buf)-1])
-- 
2.43.0


From 6aef540b330b2ebd91ed601f7698d5b91c8766eb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:46:27 +0000
Subject: [PATCH 26/32] fix: do not report a key ID that isn't the key's

---
 verify_v4.go | 9 +++------
 1 file changed, 3 insertions(+), 6 deletions(-)

diff --git a/verify_v4.go b/verify_v4.go
index 9257969..9fdcad1 100644
--- a/verify_v4.go
+++ b/verify_v4.go
@@ -51,12 +51,9 @@ func parseSignatureV4(genpkt packet.Packet, knownKeys openpgp.EntityList) (*Sign
 // set identity attributes on signature
 func setEntity(sig *Signature, entity *openpgp.Entity, key *packet.PublicKey) {
 	sig.Signer = entity
-	if sig.KeyId == 0 {
-		sig.KeyId = key.KeyId
-	}
-	if sig.KeyFingerprint == nil {
-		sig.KeyFingerprint = key.Fingerprint
-	}
+	// the key ID in the signature isn't authenticated, it may be another key's
+	sig.KeyId = key.KeyId
+	sig.KeyFingerprint = key.Fingerprint
 	if identity := entity.PrimaryIdentity(); identity != nil {
 		sig.PrimaryName = identity.Name
 	}
-- 
2.43.0


From 0c24860967d8e7e65733341ddc0cae91afad5cfe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:15:14 +0000
Subject: [PATCH 27/32] fix: allow signing to file names of maximum length

---
 signatures.go | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/signatures.go b/signatures.go
index 31c5c57..936e462 100644
--- a/signatures.go
+++ b/signatures.go
@@ -264,7 +264,9 @@ func rewriteRpm(infile *os.File, outpath string, header *RpmHeader) (err error)
 		}
 		if outstream == nil {
 			// write-rename
-			tempfile, tempErr := os.CreateTemp(path.Dir(outpath), path.Base(outpath))
+			// the name is not derived from outpath, which may have the
+			// maximum length already
+			tempfile, tempErr := os.CreateTemp(path.Dir(outpath), ".rpm-sign-")
 			if tempErr != nil {
 				return tempErr
 			}
-- 
2.43.0


From 79368b74bdc9724c432b6b3eea4b5277b0ca5bb0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:19:23 +0000
Subject: [PATCH 28/32] fix: don't lose a package signed to a pipe without a
 reader

---
 signatures.go | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/signatures.go b/signatures.go
index 936e462..0e96332 100644
--- a/signatures.go
+++ b/signatures.go
@@ -254,8 +254,9 @@ func rewriteRpm(infile *os.File, outpath string, header *RpmHeader) (err error)
 			}
 			// in-place didn't work; fallback to rewrite
 		} else if outErr == nil && !outinfo.Mode().IsRegular() {
-			// pipe or something else. open for writing.
-			outfile, err := os.Create(outpath)
+			// pipe or something else. open for writing. Not for reading too,
+			// that would keep a pipe open whether or not anyone reads it.
+			outfile, err := os.OpenFile(outpath, os.O_WRONLY|os.O_CREATE|os.O_TRUNC, 0666)
 			if err != nil {
 				return err
 			}
-- 
2.43.0


From e39a0c017cc87db77a1890004b0f8cba994cad70 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:20:07 +0000
Subject: [PATCH 29/32] fix: don't sign over a file that could not be examined

---
 signatures.go | 10 ++++++++--
 1 file changed, 8 insertions(+), 2 deletions(-)

diff --git a/signatures.go b/signatures.go
index 0e96332..6c86916 100644
--- a/signatures.go
+++ b/signatures.go
@@ -242,11 +242,17 @@ func rewriteRpm(infile *os.File, outpath string, header *RpmHeader) (err error)
 		// replace the target of a symlink instead of truncating it, it may be
 		// the input file
 		if st, err := os.Stat(outpath); err == nil && st.Mode().IsRegular() {
-			if resolved, err := filepath.EvalSymlinks(outpath); err == nil {
-				outpath = resolved
+			outpath, err = filepath.EvalSymlinks(outpath)
+			if err != nil {
+				return err
 			}
+		} else if err != nil && !os.IsNotExist(err) {
+			return err
 		}
 		outinfo, outErr := os.Lstat(outpath)
+		if outErr != nil && !os.IsNotExist(outErr) {
+			return outErr
+		}
 		if outErr == nil && canOverwrite(ininfo, outinfo) {
 			ok, err := writeInPlace(outpath, header)
 			if err != nil || ok {
-- 
2.43.0


From 20d19f7b5ef8c291c5d0421355e2c8db410c71d7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:21:52 +0000
Subject: [PATCH 30/32] fix: report errors of closing the output of signing

---
 signatures.go | 19 ++++++++++++++-----
 1 file changed, 14 insertions(+), 5 deletions(-)

diff --git a/signatures.go b/signatures.go
index 6c86916..5e698f0 100644
--- a/signatures.go
+++ b/signatures.go
@@ -262,11 +262,16 @@ func rewriteRpm(infile *os.File, outpath string, header *RpmHeader) (err error)
 		} else if outErr == nil && !outinfo.Mode().IsRegular() {
 			// pipe or something else. open for writing. Not for reading too,
 			// that would keep a pipe open whether or not anyone reads it.
-			outfile, err := os.OpenFile(outpath, os.O_WRONLY|os.O_CREATE|os.O_TRUNC, 0666)
-			if err != nil {
-				return err
+			outfile, openErr := os.OpenFile(outpath, os.O_WRONLY|os.O_CREATE|os.O_TRUNC, 0666)
+			if openErr != nil {
+				return openErr
 			}
-			defer outfile.Close()
+			defer func() {
+				// the result of writeRpm is in err
+				if closeErr := outfile.Close(); err == nil {
+					err = closeErr
+				}
+			}()
 			outstream = outfile
 		}
 		if outstream == nil {
@@ -310,7 +315,11 @@ func writeInPlace(path string, header *RpmHeader) (ok bool, err error) {
 	if err != nil {
 		return
 	}
-	defer outfile.Close()
+	defer func() {
+		if closeErr := outfile.Close(); err == nil && closeErr != nil {
+			ok, err = false, closeErr
+		}
+	}()
 	n, err := outfile.Write(blob)
 	if err != nil {
 		return false, err
-- 
2.43.0


From 3e9f599e23d0139c00da41b236c999eb238be529 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:40:06 +0000
Subject: [PATCH 31/32] fix: do not report an error when reading zero bytes of
 a file

---
 cpio/stream.go | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/cpio/stream.go b/cpio/stream.go
index a5547a2..55508d9 100644
--- a/cpio/stream.go
+++ b/cpio/stream.go
@@ -44,6 +44,9 @@ func newFileStream(stream io.ReadSeeker, size int64) (*file_stream, error) {
 func (fs *file_stream) Read(p []byte) (n int, err error) {
 	if fs.curr_pos >= fs.size {
 		return 0, io.EOF
+	} else if len(p) == 0 {
+		// some decompressors report EOF here before all was read
+		return 0, nil
 	}
 
 	pos, err := fs.stream.Seek(0, 1)
-- 
2.43.0


From a55b4e6ef74727129a01d501212e391d1b9f9a8c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 06:27:37 +0000
Subject: [PATCH 32/32] fix: close the file being extracted when extraction
 fails

---
 cpio/extract.go | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/cpio/extract.go b/cpio/extract.go
index a1cd0a2..b0fedda 100644
--- a/cpio/extract.go
+++ b/cpio/extract.go
@@ -150,9 +150,11 @@ func Extract(rs io.Reader, dest string) error {
 			}
 			written, err := io.Copy(f, entry.payload)
 			if err != nil {
+				f.Close()
 				return err
 			}
 			if written != int64(entry.Header.filesize) {
+				f.Close()
 				return fmt.Errorf("short write")
 			}
 			if err := f.Close(); err != nil {
-- 
2.43.0

