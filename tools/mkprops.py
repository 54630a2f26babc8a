#!/usr/bin/env python3
"""Writes /verif/properties.jsonl (one place to edit the property texts)."""
import json, os
P = []
def prop(id, title, statement, over, text, why, files, mech, state=(), observe=(), hook=None):
    assert len(title) <= 80, (id, len(title))
    P.append(dict(id=id, title=title, statement=statement,
        quantifier=dict(over=over, text=text), why_tests_cant=why,
        anchors=dict(files=files,
            state=[dict(name=n, meaning=m, where=w) for n, m, w in state],
            mechanism=[dict(name=n, where=w) for n, w in mech],
            observe_at=list(observe), hook_needed=hook)))

prop("C01", "Extraction never touches anything outside the destination",
 "Extracting a cpio archive or a package payload creates, modifies, replaces or deletes nothing outside the destination directory. "
 "This holds whatever the entry names are (absolute, '..' components, '.', empty), whatever symbolic links the archive contains or the destination already contains, wherever those links point, and in whatever order the entries come. "
 "An entry that could only be placed outside is either placed inside the destination or refused with an error.",
 ["inputs", "histories"], "every archive (names, types, link targets, entry order) and every initial content of the destination",
 "One test extracts one archive with a '../' name. No test has a symbolic link in the archive or in the destination, so no test sees a write through a link; the set of name/link/order combinations is unbounded.",
 ["cpio/extract.go"], [("name sanitising and prefix check", "cpio/extract.go Extract"), ("parent directory creation", "cpio/extract.go Extract")],
 [("destination tree", "what exists below dest and what its links point at", "file system")], ["cpio.Extract", "Rpm.ExpandPayload"])

prop("C02", "A successful extraction reproduces every entry exactly",
 "When extraction reports success, every directory, regular-file, symbolic-link and FIFO entry of the archive exists below the destination at its sanitised name, with its type and its exact contents or link target; a later file, link or FIFO replaces an earlier one of the same name, a directory entry keeps an existing directory (or link to one), a clash of a directory with a non-directory is an error, and device entries are skipped. "
 "All names of one hard-link group (same device and inode, link count above one) are one and the same file holding the group's contents, whichever member carries the contents and also when they are empty. "
 "A well-formed archive without such clashes, whose directories the extracting user may write to, extracts with success, and the result does not depend on how the destination is spelled ('.', '/', relative, trailing slash, not yet existing), on an earlier extraction into it, or on how the input stream is split into reads.",
 ["inputs", "histories"], "every well-formed archive, every spelling of the destination, every earlier extraction of it, every chunking of the input",
 "The tests extract three one- to three-file archives into an absolute temporary directory and look at one file name; they check no contents, links, hard-link groups, FIFOs, destination spelling or short reads of link targets.",
 ["cpio/extract.go", "cpio/stream.go", "rpmutils.go"], [("entry type dispatch", "cpio/extract.go Extract"), ("hard-link groups", "cpio/extract.go hardlinks")],
 [("hard-link groups", "names extracted so far of each linked file", "cpio/extract.go hardlinks")], ["cpio.Extract", "Rpm.ExpandPayload"])

prop("C03", "A damaged archive is never extracted with success",
 "Extraction reports an error for every archive that stops before the end of its trailer entry (the padding after the trailer's name may be missing), stops inside a header, name or file contents, has a wrong magic number or a malformed header number at any entry, or contains an entry of an unsupported file type. "
 "It never reports success, never panics and never hangs on such input.",
 ["inputs", "crash_points"], "every archive, every cut position, every corruption of a header field",
 "No test feeds a truncated or corrupted archive to extraction.",
 ["cpio/extract.go", "cpio/cpio.go", "cpio/header.go"], [("short write check", "cpio/extract.go Extract"), ("full reads of header and name", "cpio/header.go, cpio/cpio.go")],
 (), ["cpio.Extract"])

prop("C04", "The archive reader delivers exactly the archive's entries",
 "For every archive, the successive headers returned by the archive reader carry exactly the stored field values in stored order, and the bytes read after each header are exactly that entry's contents in order, ending with end-of-file exactly at the entry's size. "
 "This holds for every way of consuming it (reading all, part or nothing of an entry before asking for the next, any buffer sizes, asking again after the end) and every chunking of the underlying stream. "
 "The trailer entry is reported as end-of-archive, and stays so, and is never delivered as a file.",
 ["inputs", "histories"], "every archive, every sequence of next/read calls, every chunking of the underlying reader",
 "Tests read the headers of two archives in order, never skip part of a file, never compare contents, and use one chunking.",
 ["cpio/cpio.go", "cpio/reader.go", "cpio/stream.go", "cpio/header.go"], [("position bookkeeping", "cpio/cpio.go ReadNextEntry nextPos/curPos"), ("bounded per-file stream", "cpio/stream.go Read")],
 [("stream position", "bytes consumed so far and start of the next entry", "cpio/cpio.go CpioStream"), ("file offset", "bytes delivered of the current file", "cpio/stream.go file_stream")], ["cpio.Reader", "cpio.CpioStream"])

prop("C05", "A cut-off archive is never mistaken for a complete one",
 "If the archive or decompressed payload stops anywhere before the end of its trailer entry's name, then reading it to the end, through the archive reader or through either payload reader and with any mix of reading and skipping, reports an error that is not the normal end-of-file indication, either from the read of the file that is cut or from asking for the next file. "
 "No entry is delivered with fewer bytes than its size followed by a normal end-of-file, and everything delivered before the cut is unaltered.",
 ["crash_points", "inputs", "histories"], "every archive, every cut position, every consumer pattern, every compression",
 "No test cuts an archive; the code turns several premature end-of-file conditions into each other.",
 ["cpio/cpio.go", "cpio/stream.go", "cpio/reader.go", "payload.go"], [("skip to next entry", "cpio/cpio.go Seek"), ("per-file stream end", "cpio/stream.go Read"), ("trailer detection", "cpio/reader.go Next")],
 (), ["cpio.Reader", "PayloadReader"])

prop("C06", "Stripped package archives are read with the supplied file sizes",
 "For every archive in the package-specific stripped format, each entry is reported as stripped with its stored file index, its 64-bit size is the size supplied for that index, and its contents are exactly that many bytes, including sizes above 4 GiB and archives that mix stripped and ordinary entries. "
 "Without supplied sizes, or with an index that no size was supplied for, reading the entry fails with an error.",
 ["inputs", "histories"], "every stripped archive, every list of supplied sizes, every consumer pattern",
 "One test reads two headers of one archive and no contents; sizes above 4 GiB cannot be a committed fixture.",
 ["cpio/cpio.go", "cpio/header.go", "cpio/reader.go"], [("supplied sizes", "cpio/cpio.go readStrippedEntry")],
 [("sizes", "file sizes from the package header", "cpio/cpio.go CpioStream.sizes")], ["cpio.NewReaderWithSizes", "Cpio_newc_header.Filesize64"])

prop("C07", "Each payload entry is paired with its own file record",
 "The payload reader returns, for every payload entry in payload order, the file record of the package header that the entry belongs to (by name for ordinary entries, by index for stripped ones), and reading it yields exactly that entry's contents. "
 "The hard-link indicator is true exactly for regular files that share device and (non-zero) inode with a later regular file of the header, and such stripped entries have no contents while the last of the group has them all. "
 "An entry that names or indexes no file of the header is an error.",
 ["inputs", "histories"], "every file list (types, link groups, order), every payload order and format, every consumer pattern",
 "Tests read packages with at most three plain files and check only the first name or the number of entries; none has hard links, directories with records, stripped payloads or unknown names.",
 ["payload.go", "cpio/reader.go", "fileinfo.go"], [("link groups", "payload.go newPayloadReader"), ("name and index lookup", "payload.go Next")],
 [("link flags", "which records are content-less hard links", "payload.go payloadReader.isLink")], ["Rpm.PayloadReaderExtended", "PayloadReader.Next/Read/IsLink"])

prop("C08", "Payload contents do not depend on how they are compressed",
 "The same payload yields the same entries and contents through extraction and both payload readers whether stored uncompressed or compressed with gzip, bzip2, lzma, xz or zstd, in builds with and without cgo; when the package does not name its compressor, gzip and uncompressed payloads are told apart by content. "
 "A package that names an unknown compressor or a payload format other than cpio is refused with an error. "
 "Once the extended payload reader has reached the end of the archive, or extraction has returned, nothing it started is left running; the caller's own stream is never closed.",
 ["inputs", "configurations"], "every payload, every compressor name, both build configurations, every chunking",
 "Tests read one one-file payload per compressor and do not look at the contents; no test covers the missing or unknown compressor tags or a multi-block payload.",
 ["uncompress.go", "uncompress_cgo.go", "uncompress_nocgo.go", "payload.go", "rpmutils.go"], [("compressor dispatch", "uncompress.go uncompressRpmPayloadReader"), ("close at end", "payload.go Next")],
 (), ["Rpm.ExpandPayload", "Rpm.PayloadReader", "Rpm.PayloadReaderExtended"])

prop("C09", "Parsing hostile package headers never panics or hangs",
 "For every byte stream, reading the package headers (plainly, for verification or for signing) and then calling any accessor of the resulting header terminates with values or with an error; it never panics, never hangs and never returns data from outside the header's own data area. "
 "An index entry whose data does not lie inside the data area makes reading fail with an error.",
 ["inputs"], "every byte stream: every offset, count, type, tag, table size, array-length combination and cut position",
 "The tests parse seven well-formed packages.",
 ["header.go", "rpmutils.go", "signatures.go", "verify.go"], [("index parsing", "header.go readHeader"), ("parallel arrays", "header.go GetFiles/GetStrings"), ("first-value access", "header.go GetNEVRA, signatures.go getSha1/getSha256")],
 (), ["ReadHeader", "ReadRpm", "Verify", "SignRpmStream", "RpmHeader accessors"])

prop("C10", "Header accessors return stored values exactly or refuse",
 "Every typed accessor returns exactly the values stored under the tag, in order; widening integer accessors never change a value, and an accessor whose result type cannot represent the stored type or value, or that asks for one value where there is not exactly one, returns an error instead of a wrong value. "
 "A tag that is not stored is reported as absent with the dedicated error. "
 "Signature-area tags and general tags never shadow each other even where their stored numbers coincide.",
 ["inputs"], "every tag number, stored type, value list and accessor",
 "Tests call four accessors on five tags of fixed packages; boundary values, wrong types, multi-valued tags and colliding tag numbers are not covered.",
 ["header.go", "rpmutils.go", "tags.go"], [("typed decoding", "header.go getInts/GetInts/GetUint32s/GetUint64s/GetStrings/GetBytes"), ("tag routing", "rpmutils.go getHeader")],
 [("entries", "tag to typed contents", "header.go rpmHeader.entries")], ["RpmHeader.Get*", "RpmHeader.HasTag"])

prop("C11", "File records combine the n-th values of the parallel tags",
 "The file list has one record per file of the header, in order; the n-th record combines the n-th path (stored whole, or directory of the n-th directory index joined with the n-th base name) with the n-th size (64-bit sizes when present), mode, owner, group, flags, modification time, digest, link target, device and inode, the last two being zero when not stored. "
 "A package without file names has an empty list. "
 "Tags of inconsistent length or with an invalid directory index are refused with an error, never paired wrongly.",
 ["inputs"], "every combination of file tags, lengths, types and index values",
 "One test counts the records of one package.",
 ["header.go", "fileinfo.go"], [("record assembly", "header.go GetFiles"), ("path splicing", "header.go GetStrings OLDFILENAMES")],
 (), ["RpmHeader.GetFiles", "RpmHeader.GetStrings(OLDFILENAMES)"])

prop("C12", "Package identity and sizes are read faithfully",
 "The reported name, version, release and architecture are the stored ones, the epoch is the stored number or 0 when none is stored, and the source-package flag is the one in the lead. "
 "Installed size and payload size come from the 64-bit tag when it is stored and from the 32-bit tag otherwise, without changing the value; if neither is usable an error is returned.",
 ["inputs"], "every combination of identity and size tags and values",
 "Tests cover three packages with epoch absent, 0 and 1 and never ask for sizes or the source flag.",
 ["header.go", "rpmutils.go", "nevra.go"], [("epoch default", "header.go GetNEVRA"), ("64-bit fallback", "rpmutils.go GetUint64Fallback, PayloadSize, InstalledSize")],
 (), ["RpmHeader.GetNEVRA", "RpmHeader.InstalledSize", "RpmHeader.PayloadSize", "RpmHeader.IsSource"])

prop("C13", "Header reading stops exactly where the payload begins",
 "After the headers of a package have been read, the stream is positioned exactly at the first payload byte, whatever the sizes of both headers, the padding of the signature header to eight bytes, and the chunking of the stream. "
 "The reported byte range of the general header and the reported size of lead plus signature header are the exact offsets of these areas in the file.",
 ["inputs"], "every signature header and general header size, every chunking",
 "One test compares the range for one package; an off-by-padding error shows only for particular sizes modulo eight.",
 ["header.go", "rpmutils.go", "writeheader.go"], [("signature padding", "header.go readHeader"), ("range computation", "rpmutils.go GetRange, writeheader.go OriginalSignatureHeaderSize")],
 (), ["ReadHeader", "RpmHeader.GetRange", "RpmHeader.OriginalSignatureHeaderSize"])

prop("C14", "A written signature header re-reads to the same tags",
 "Writing out lead and signature header yields the unchanged lead followed by a well-formed header: region tag first and covering the whole header, tags in ascending order, data aligned for its type, total a multiple of eight bytes; re-reading it gives every tag with the type and values it had, except for regions and reserved space. "
 "With the same-size option the result has exactly the original size whenever the tags fit with room for a reserved-space tag or fit exactly, and without it no reserved space remains. "
 "Writing repeatedly, with either option in any order, always gives the same result for the same option.",
 ["inputs", "histories"], "every set of signature tags, every original size, every sequence of sign and write calls",
 "Tests check the length modulo eight of three outputs and never re-read tags other than the signatures or use the same-size option.",
 ["writeheader.go", "header.go", "signatures.go"], [("layout", "writeheader.go WriteTo/writeTag/writeRegion"), ("padding tag", "writeheader.go DumpSignatureHeader")],
 [("entries", "tags to write", "header.go rpmHeader.entries")], ["RpmHeader.DumpSignatureHeader", "SignRpmFile output"])

prop("C15", "A header that does not match its stored digest is refused",
 "If the signature header stores a SHA-256 header digest, or only a SHA-1 one, then reading, verifying and signing a package succeed only if that digest equals the digest of exactly the general header's bytes; the SHA-256 digest takes precedence when both are stored. "
 "Any alteration of the general header, or of the digest that applies, is refused with an error, and an unaltered package is never refused for this reason.",
 ["inputs", "histories"], "every general header, every alteration of any byte of it, every combination of stored digests",
 "No test alters a header or a digest.",
 ["header.go", "signatures.go", "rpmutils.go", "verify.go"], [("digest choice", "signatures.go getHashAndType"), ("digest check", "header.go readHeader")],
 (), ["ReadHeader", "ReadRpm", "Verify", "SignRpmStream"])

prop("C16", "A payload that does not match its stored digest is refused",
 "Verification and signing succeed only if the payload matches the payload digest recorded in the general header (with the recorded algorithm), or, when the header records none with a known algorithm, the MD5 digest over header and payload stored in the signature header. "
 "If neither digest is available, or the payload was altered, shortened or extended, an error is returned, whatever keys are supplied and however the stream is chunked.",
 ["inputs", "histories"], "every payload, every alteration, every combination of digest tags and algorithms, with and without keys",
 "No test alters a payload or removes or changes a digest.",
 ["verify_digests.go", "signatures.go"], [("payload digest", "verify_digests.go digestPayload"), ("algorithm choice", "signatures.go getPayloadDigest")],
 (), ["Verify", "SignRpmStream", "SignRpmFile"])

prop("C17", "Verification accepts only signatures made by a supplied key",
 "With a key list supplied, verification succeeds only if every signature stored in the package (header-only and header-plus-payload, both kinds of tag) was made by a primary key or subkey in the list over exactly the header bytes, respectively header-and-payload bytes, of this package. "
 "Any signature whose signed part or signature value was altered, or that was moved to the other kind of tag, was made over other contents or by a key whose counterpart is not in the list, or that is followed by other data or is no signature, makes verification fail with an error; a missing key is reported as such. "
 "An unaltered package whose signatures are all by supplied keys is accepted, and without a key list the signatures are reported but not checked.",
 ["inputs", "histories", "configurations"], "every package, key list, set of signatures, and alteration or transplantation of signatures and contents",
 "Tests verify two untampered packages with the right key; no test has a wrong key, a missing key, a subkey, or any tampering.",
 ["verify.go", "verify_digests.go", "verify_v4.go"], [("which bytes each tag covers", "verify_digests.go digestAndVerify"), ("key lookup and check", "verify_v4.go parseSignatureV4/findKey")],
 (), ["Verify"])

prop("C18", "Signed packages verify, with exactly the new signatures",
 "After signing, the package carries exactly two signatures, one over the header and one over header and payload, both by the given key with the requested hash and creation time (SHA-256 and the current time when not requested); earlier signatures of every tag are gone and all other signature-header tags except reserved space are kept. "
 "The result verifies with the signer's public key, also after repeated signing with other keys, which leaves only the last signer. "
 "Signing a package that fails its digests produces an error and no signed package.",
 ["inputs", "histories"], "every package, every sequence of signings with any key type and options",
 "Tests sign two unsigned packages once with one RSA key and default options.",
 ["signatures.go", "verify_digests.go"], [("signature creation", "signatures.go makeSignature"), ("tag replacement", "signatures.go insertSignatures")],
 [("signature tags", "which signatures the header carries", "signatures.go insertSignatures")], ["SignRpmStream", "SignRpmFile", "Verify"])

prop("C19", "Verification reports who made each signature and over what",
 "For every accepted signature the report gives the identity whose key made it, that key's own ID and fingerprint (the subkey's when a subkey signed), the primary name of the identity, the hash and creation time of the signature, and whether it covers the header only. "
 "Without keys the key ID, hash, creation time and coverage are still reported as stored in the signature, and no signer is reported.",
 ["inputs", "configurations"], "every signature (issuer given by key ID, by fingerprint, or both), every key list order, primary keys and subkeys",
 "Tests compare the signer of two signatures made by a primary key and look at no other reported field.",
 ["verify.go", "verify_v4.go", "verify_digests.go"], [("report", "verify_v4.go setEntity/findKey"), ("coverage flag", "verify_digests.go digestAndVerify")],
 (), ["Verify"])

prop("C20", "A failed or interrupted signing leaves the old output intact",
 "Unless the output is the input file itself and is rewritten in place, signing to a file path (new, or naming a regular file) never exposes a partial result: if any read, write, close, or rename fails, an error is returned, the previous file at the path (or its absence) is unchanged and no temporary file remains. "
 "If the process is killed at any moment, the path holds either its complete previous contents or the complete signed package. "
 "Success is reported only when the complete signed package is at the path. "
 "Whatever happens, the call closes the files it opened and leaves open those it was given.",
 ["fault_sequences", "crash_points"], "every point at which a system call fails or the process dies, every kind of existing output",
 "No test signs to a file, injects a fault or kills the process.",
 ["signatures.go"], [("write to temporary file and rename", "signatures.go rewriteRpm")],
 [("temporary file", "where the new package is assembled", "signatures.go rewriteRpm")], ["SignRpmFile", "RewriteWithSignatures"])

prop("C21", "Signing never damages the input or other names of a file",
 "Signing to a path gives a complete signed package at that path whether the path is new, an existing file, the input file itself, a hard link to it, a symbolic link to it or to another file, or a pipe. "
 "The input's contents are only ever replaced if the path denotes the input, every other hard link of an existing file keeps its old contents, and no unrelated file is changed.",
 ["configurations", "histories"], "every relation between input and output path, with and without reserved space, every size relation of old and new signature header",
 "No test signs to a file; aliasing between input and output is never exercised.",
 ["signatures.go", "fileutil/fileutil_unix.go"], [("in-place decision", "signatures.go canOverwrite/writeInPlace, fileutil HasLinks"), ("rewrite", "signatures.go rewriteRpm")],
 (), ["SignRpmFile", "RewriteWithSignatures"])

prop("C22", "Signing changes nothing but the signature header",
 "Every way of signing (stream plus written signature header, new file, replacing, in place, inserting raw signatures) yields a package whose lead, general header and payload are byte for byte those of the input, and whose signature header is the one written out for the returned header. "
 "Replacing the first bytes of the input, as many as the reported original size, by the written signature header gives the same package as signing to a file, up to reserved space.",
 ["inputs", "configurations"], "every package, every way of signing, every size relation of old and new signature header",
 "Tests only join one dumped header with its payload and verify it; no file-writing path is executed by any test.",
 ["signatures.go", "writeheader.go"], [("copying", "signatures.go writeRpm/writeInPlace"), ("dump", "writeheader.go DumpSignatureHeader")],
 (), ["SignRpmStream", "SignRpmFile", "RewriteWithSignatures", "RpmHeader.DumpSignatureHeader"])

prop("C23", "Version comparison is rpm's algorithm",
 "For every pair of strings, version comparison returns the result of rpm's version comparison algorithm: runs of other characters only separate, '~' sorts before everything including the end, '^' sorts after the end but before anything else, numeric runs compare as unbounded numbers ignoring leading zeros and are newer than alphabetic runs, alphabetic runs compare bytewise, and with all compared runs equal the longer one is newer.",
 ["inputs"], "every pair of byte strings",
 "The test has 27 fixed pairs, with the caret cases rpm added commented out.",
 ["vercmp.go"], [("segment loop", "vercmp.go Vercmp")], (), ["Vercmp"])

prop("C24", "Version and package ordering is a total order usable for sorting",
 "Version comparison is reflexive, antisymmetric and transitive for all strings, so that sorting versions or packages always ends with every element present once and no element before one it is newer than. "
 "Package comparison orders by epoch, then version, then release, each by version comparison, and ignores name and architecture.",
 ["inputs"], "all pairs and triples of strings, all lists of packages",
 "Order laws quantify over all pairs and triples; the test checks 27 pairs and no sort.",
 ["vercmp.go", "nevra.go"], [("ordering", "vercmp.go VersionSlice, nevra.go NEVRAcmp/NEVRASlice")], (), ["Vercmp", "NEVRAcmp", "VersionSlice", "NEVRASlice.Sort"])

prop("C25", "A failing input is never taken for its end or for success",
 "When a read of the input fails, at any byte and with any error (also one that wraps io.EOF or resembles it), or the input ends early, then reading headers, reading archives and payloads, extracting, verifying and signing either report an error or had already been given everything they need: they never report success with a result that is not the complete, exact one, and they never panic or hang. "
 "Archive readers on an uncompressed archive that are used further after an error (permanent or passing) never deliver bytes or entries other than exactly the next ones of the archive, and they report the end only at the trailer; errors are reported only for streams that failed.",
 ["fault_sequences", "inputs"], "every archive and package, every failure (place, error value, alone or together with data, once, repeated or permanent), every way of continuing",
 "No test uses a stream that fails; the places and kinds of failures and the ways to continue are unbounded.",
 ["cpio/cpio.go", "cpio/stream.go", "cpio/reader.go", "cpio/extract.go", "payload.go", "verify_digests.go", "rpmutils.go"],
 [("skipping to the next entry", "cpio/cpio.go countingReader.Seek"), ("end of archive", "cpio/reader.go Next"), ("position check", "cpio/stream.go Read"), ("draining the payload", "verify_digests.go digestAndVerify")],
 [("stream position", "how many bytes of the archive were consumed", "cpio/cpio.go countingReader.curPos")],
 ["cpio.Reader", "cpio.CpioStream", "PayloadReader", "cpio.Extract", "ReadHeader", "Verify", "SignRpmStream"])

prop("C26", "Uses of different packages never influence each other",
 "Packages, archives, headers, destinations and versions are handled independently: whatever calls are made on other objects before, in between (also while a call waits for its input), or at the same time in other goroutines, each call answers what it answers when nothing else happens in the process. "
 "Reading tags of one header is free of side effects: tags can be read repeatedly, in any order and by several goroutines, with the same answers. "
 "Values that were returned stay as they are through later calls, options and key lists that were passed in are not modified, and the library itself has no data races in such uses. (Writing a signature header adjusts the reserved space of that header; one private key is not used by several goroutines at once.)",
 ["histories", "schedules"], "all programs of several users and all interleavings of their calls and of the reads inside of the calls",
 "Every test uses one object at a time in one goroutine; the interleavings of several users are unbounded.",
 ["rpmutils.go", "header.go", "verify_digests.go", "signatures.go", "writeheader.go", "cpio/cpio.go", "cpio/reader.go", "cpio/extract.go", "vercmp.go"],
 [("header objects", "header.go readHeader"), ("archive streams", "cpio/cpio.go ReadNextEntry"), ("digesters", "verify_digests.go digestAndVerify"), ("extraction", "cpio/extract.go Extract")],
 [("objects", "the state of each reader, header and digester is its own", "all")],
 ["ReadHeader", "RpmHeader", "PayloadReader", "cpio.Reader", "cpio.Extract", "Verify", "SignRpmStream", "SignRpmFile", "Vercmp"])

prop("C27", "A failing extraction never reports success and damages nothing else",
 "When a file operation of an extraction fails (create, write, close, link, remove; a full disk, a size limit, missing permissions), an error is reported: success is reported only when every entry is completely in place. "
 "Whatever fails, also when the process is killed at any moment, the entries before the current one are completely in place, the current one is as before, absent, complete, or a file with a beginning of its contents, and nothing else inside or outside of the destination has changed. "
 "Once extraction has returned, with success or with an error, no file it opened is still open.",
 ["fault_sequences", "crash_points"], "every archive and destination, every file operation and every way it fails, every moment of being killed",
 "No test makes a file operation fail or kills the process; which operations there are depends on the archive and on what is in the destination.",
 ["cpio/extract.go", "payload.go"],
 [("creating, writing and closing", "cpio/extract.go Extract"), ("removing what is in the way", "cpio/extract.go Extract"), ("hard links of one file", "cpio/extract.go Extract")],
 [("destination", "the tree below the destination directory", "cpio/extract.go")],
 ["cpio.Extract", "ExpandPayload"])

out = os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), "properties.jsonl")
with open(out, "w") as f:
    for p in P:
        f.write(json.dumps(p) + "\n")
print(len(P), "properties")
