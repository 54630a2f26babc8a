N["C23"] = ("Exhaustive for all pairs of strings up to the enumerated length over a byte alphabet with every class; longer, "
            "binary and non-ASCII strings are sampled. Trusts the transcription of rpmvercmp.c.")
N["C24"] = ("Order laws on every triple of the enumerated strings and of random families of related versions, judged by the "
            "code's own results, plus sort results; total preorder of the specified algorithm checked against a sort key.")
N["C04"] = ("Every archive of up to two entries over the size/name-length classes with every consumer pattern per entry; random "
            "archives (40 entries, contents beyond 2 GiB) with random consumers and stream chunkings. Contents longer than 48 "
            "bytes are compared by the harness with their generator.")
N["C05"] = ("Every cut position of every archive of up to two entries, and cuts around all boundaries with every consumer "
            "pattern; random larger archives, and packages (all compressors, both payload readers, cut or truncated streams).")
N["C06"] = ("Every stripped/mixed archive of up to two entries with every consumer pattern; random archives with sizes beyond "
            "4 GiB, indexes without sizes, and archives read without sizes.")
N["C01"] = ("All archives of up to two (three for the link and hard-link pools) entries over pools of hostile names, types and "
            "link targets, on prepared destinations, executed as an unprivileged user with everything outside listed before and "
            "after; random larger ones. Concurrent changes of the destination by others are out of scope.")
N["C02"] = ("The same archives with the resulting tree (types, targets, contents, hard-link identity) predicted by the "
            "specification; random archives up to 40 entries, re-extraction, spellings of the destination, chunkings. Directory "
            "modes always let the extracting user write; disagreeing contents within one hard-link group are not judged.")
N["C03"] = ("Every cut position, every character of every header number and magic number, and unsupported types at every entry "
            "of generated archives of up to five entries; random byte changes for panics and hangs only.")
N["C07"] = ("All lists of up to three files over types, devices, inodes and sizes, in every payload order; random packages of up to 90 "
            "files with link groups, ghosts, unknown entries, both name layouts and sizes beyond 4 GiB. The order of the "
            "entries of one link group is not judged.")
N["C08"] = ("Every payload format, compressor name, encoding, reader and way of ending, with several writers per encoding (Go "
            "libraries and the real gzip, bzip2, xz, lzma, zstd programs), in both builds. Payloads are sampled. Left-over "
            "goroutines are counted; memory of the C decoder is not. Known finding: multi-frame zstd with cgo.")
N["C09"] = ("Every index entry (type, offset, count around and beyond the limits) over patterned data areas up to 8 bytes in both headers with "
            "every accessor; 20000 mutated packages read in three ways; every claimed size on endless streams. Time and memory limits stand "
            "for termination; contents-outside-the-area is judged by containment of the returned bytes.")
N["C10"] = ("The same entries with the exact value every accessor may return; random well-formed headers with every type and "
            "extreme values in both areas. Trailing NUL semantics as stored; 64-bit values compared as byte strings.")
N["C11"] = ("Random packages of up to 30 files with tags missing, shorter, longer, retyped, shuffled, 32/64-bit; the layout and its "
            "inverse checked exhaustively on the specification for up to two (three) files. Names that path joining would clean are not judged.")
N["C12"] = ("Random headers with identity and size tags of every type, count and extreme value, decoys in the other area. Where a tag "
            "has several values any of them (or an error) is accepted.")
N["C13"] = ("All header sizes modulo eight with 0..3 entries, random sizes up to 65535 entries and 1 MiB of data, every chunking, cuts; "
            "plain reading, verification and signing.")
N["C14"] = ("Every set of 11 tags of all alignments with original sizes around the exact fit, written, signed and re-read in every order, on the "
            "specification; random signature headers (unsorted, slack, no region, reserved space of every size up to 700) on the code.")
N["C22"] = ("Random chains of signings in ten ways (new, replace, in place, links, pipe, standard output, stream with either dump, raw "
            "insertion), three key types; areas outside the signature header are compared by digest.")
N["C15"] = ("Every combination of SHA-256, SHA-1, MD5 and payload digests (absent, right, damaged, of another header or payload), 30 concrete "
            "packages each with the header or digest altered at random places, and random ones; read, verified and signed. Digests are symbolic.")
N["C16"] = ("The same packages: every combination of payload digests with every known and several unknown algorithms, payloads of 1 byte to 80 MiB and beyond 4 GiB "
            "altered, shortened and extended, with and without keys, all chunkings. Digests are symbolic.")
N["C17"] = ("Every single signature (tag, key, coverage, contents, alteration), every pair and many fours, against eight key lists, as v4 RSA, "
            "DSA, ECDSA and EdDSA signatures (keys and signatures past their lifetimes, hashes from SHA-1 to SHA-3) with the issuer named in every way; attacker model checked on the specification. Signatures naming a wrong key "
            "must only not be accepted without that key.")
N["C18"] = ("Random packages with any digests, signatures and other tags signed one to three times by five keys through the stream and file calls; "
            "the signatures are taken apart and checked by an own parser.")
N["C19"] = ("The packages of C17: the report for every key list compared with what made the signatures, issuer named by key ID, fingerprint, both, "
            "unsigned or contradictory.")
N["C20"] = ("Every system call of a signing (after the input is opened) made to fail, made to fail for good, interrupted, and the process killed before it, also "
            "during the clean-up after a failure; file size limits; another process signing at every such point; for 16 kinds of outputs, two calls and two "
            "sizes, and a random part of 144 generated file systems. Open files are compared before and after. Needs strace. Durability after power loss is not judged.")
N["C21"] = ("All 144 small file systems (regular files, hard links, symbolic links, loops, pipes, directories) with four fits of the header, two calls and five spellings; "
            "directories, odd names, removed inputs, chains of links, standard output, readers that come late or go away.")
N["C25"] = ("Every archive of up to three (four) entries failing anywhere and any number of times, and every operation on up to 6 (8) bytes read in any pieces, "
            "on the specification; random archives and packages with 20 error values failing at, before and after every kind of boundary, in the code. "
            "After the first error of a compressed payload nothing is judged (the libraries' own behaviour).")
N["C26"] = ("All schedules of up to three (four) users on the specification; all orders of 2 users with 5 (6) turns, 3 with 2 (3) and 4 with 1 (2), turns being stretches of "
            "calls and of reads inside calls, performed by random programs of nine kinds on the code and compared with the same program in a process of its own; "
            "eight users at the same time, also under the race detector (races whose accesses the library makes).")
N["C27"] = ("Extraction call by call on the specification, with every call failing and every moment of being killed, for all archives of two (three) entries of "
            "every type; the code, on random archives and destinations, with a part (1/4, 1/2) of the file operations made to fail with several errors, once or for good, "
            "interrupted, or the process killed before them, with limited file sizes and with directories that may not be written. Needs strace.")
