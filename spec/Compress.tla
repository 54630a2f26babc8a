------------------------------ MODULE Compress -------------------------------
(* Opening the payload of a package: the format and compressor that the header names, the
   encoding the payload really has, the three ways to read it and what they leave running.

   cfg is [fmt |-> payload format tag or "none", name |-> compressor tag or "none",
           stored |-> encoding, api |-> "extract" | "plain" | "ext",
           end |-> "full" | "trail" (bytes after the archive) | "cut" | "baddest" | "badentry"]
   A decoder may start workers when it is opened; they are gone when the decoder is closed. *)
EXTENDS Integers, Sequences
VARIABLES cfg, ents, k, st, workers
cvars == <<cfg, ents, k, st, workers>>

Codecs == {"uncompressed", "gzip", "bzip2", "lzma", "xz", "zstd"}
Refused(c) == c.fmt \notin {"none", "cpio"} \/ c.name \notin Codecs \cup {"none"}
Codec(c) == IF c.name # "none" THEN c.name ELSE IF c.stored = "gzip" THEN "gzip" ELSE "uncompressed"
(* the packages this is about: stored the way the header says *)
Sound(c) == Codec(c) = c.stored \/ Refused(c)
Whole(c) == c.end \in {"full", "trail"}

Begin(c, es) == cfg = c /\ ents = es /\ k = 0 /\ st = "start" /\ workers = 0
OpenRefused == st = "start" /\ Refused(cfg) /\ st' = "over" /\ UNCHANGED <<cfg, ents, k, workers>>
(* an encoding may already be found cut off when it is opened *)
OpenFails == st = "start" /\ ~Refused(cfg) /\ cfg.end = "cut" /\ st' = "over" /\ UNCHANGED <<cfg, ents, k, workers>>
Open(w) == st = "start" /\ ~Refused(cfg) /\ st' = "open" /\ workers' = w /\ UNCHANGED <<cfg, ents, k>>
NextEntry == st = "open" /\ cfg.api # "extract" /\ k < Len(ents) /\ k' = k + 1 /\ UNCHANGED <<cfg, ents, st, workers>>
(* the end of the archive closes what the extended reader opened; nothing tells the plain reader to *)
NextEnd == /\ st \in {"open", "end"} /\ cfg.api # "extract" /\ (k = Len(ents) \/ cfg.end = "cut")
           /\ st' = "end" /\ workers' = (IF cfg.api = "ext" THEN 0 ELSE workers) /\ UNCHANGED <<cfg, ents, k>>
NextFails == st = "open" /\ cfg.api # "extract" /\ cfg.end = "cut" /\ st' = "over" /\ UNCHANGED <<cfg, ents, k, workers>>
Extracted == st = "open" /\ cfg.api = "extract" /\ Whole(cfg) /\ st' = "end" /\ k' = Len(ents) /\ workers' = 0 /\ UNCHANGED <<cfg, ents>>
ExtractFails == st = "open" /\ cfg.api = "extract" /\ ~Whole(cfg) /\ st' = "over" /\ workers' = 0 /\ UNCHANGED <<cfg, ents, k>>
(* nothing may be left running *)
MustBeQuiet == Refused(cfg) \/ (IF cfg.api = "extract" THEN st # "open" ELSE cfg.api = "ext" /\ st = "end")
=============================================================================
