----------------------------- MODULE MCCompress ------------------------------
EXTENDS Compress, TLC, Json
Cfgs == {c \in [fmt : {"none", "cpio", "drpm", "tar", "CPIO"},
                name : Codecs \cup {"none", "lzip", "GZIP", "gz", "zst", "bzip", "bzip22", "lz4", "identity", "none1"},
                stored : Codecs, api : {"extract", "plain", "ext"}, end : {"full", "trail", "cut", "baddest", "badentry"}] :
           Sound(c) /\ (c.end \in {"baddest", "badentry"} => c.api = "extract") /\ (Refused(c) => c.end = "full")}
Init == \E c \in Cfgs, n \in 0..2 : Begin(c, [x \in 1..n |-> x])
Next == OpenRefused \/ OpenFails \/ (\E w \in 0..2 : Open(w)) \/ NextEntry \/ NextEnd \/ NextFails \/ Extracted \/ ExtractFails
Spec == Init /\ [][Next]_cvars /\ WF_cvars(Next)
Quiet == MustBeQuiet => workers = 0
(* the compressor makes no difference: what a whole package gives depends on the entries only *)
AllDelivered == st = "end" /\ Whole(cfg) => k = Len(ents)
NeverRefused == ~Refused(cfg) /\ Whole(cfg) /\ st = "over" => FALSE
Ends == <>(st \in {"over", "end"})
GInit == \E c \in Cfgs : Begin(c, <<>>)
GNext == FALSE /\ UNCHANGED cvars
Emit == PrintT("@@" \o ToJson(cfg))
=============================================================================
