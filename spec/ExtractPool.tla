---------------------------- MODULE ExtractPool ----------------------------
(* Names, link targets, entries and initial file systems to enumerate.  P stands for
   the directory in which a scenario takes place. *)
EXTENDS Extract, TLC
N(raw, abs, c) == [raw |-> raw, abs |-> abs, c |-> c]
Names == [
  a |-> N("a", FALSE, <<"a">>), b |-> N("b", FALSE, <<"b">>), ab |-> N("a/b", FALSE, <<"a", "b">>),
  abc |-> N("./a/b/c", FALSE, <<".", "a", "b", "c">>), ba |-> N("b/a", FALSE, <<"b", "a">>),
  dot |-> N(".", FALSE, <<".">>), empty |-> N("", FALSE, <<>>), root |-> N("/", TRUE, <<"", "">>),
  up |-> N("..", FALSE, <<"..">>), upa |-> N("../a", FALSE, <<"..", "a">>),
  upup |-> N("../../out/f", FALSE, <<"..", "..", "out", "f">>),
  absa |-> N("/a", TRUE, <<"", "a">>), absout |-> N("/P/out/f", TRUE, <<"", "P", "out", "f">>),
  aupb |-> N("a/../b", FALSE, <<"a", "..", "b">>), aupupx |-> N("a/../../destx/f", FALSE, <<"a", "..", "..", "destx", "f">>),
  slash |-> N("a//b/", FALSE, <<"a", "", "b", "">>),
  lf |-> N("l/f", FALSE, <<"l", "f">>), ldf |-> N("l/d/f", FALSE, <<"l", "d", "f">>), l |-> N("l", FALSE, <<"l">>),
  af |-> N("a/f", FALSE, <<"a", "f">>)]
Tos == [
  a |-> N("a", FALSE, <<"a">>), b |-> N("b", FALSE, <<"b">>), self |-> N(".", FALSE, <<".">>),
  up |-> N("..", FALSE, <<"..">>), out |-> N("../out", FALSE, <<"..", "out">>),
  outf |-> N("../out/f", FALSE, <<"..", "out", "f">>), abs |-> N("/P/out", TRUE, <<"", "P", "out">>),
  absf |-> N("/P/out/f", TRUE, <<"", "P", "out", "f">>),
  destx |-> N("../destx", FALSE, <<"..", "destx">>), in |-> N("/P/dest", TRUE, <<"", "P", "dest">>),
  back |-> N("../dest/b", FALSE, <<"..", "dest", "b">>), none |-> N("nowhere", FALSE, <<"nowhere">>)]
E0(n, t) == [name |-> Names[n], t |-> t, data |-> "", to |-> NoTo, key |-> ""]
EDir(n) == E0(n, "dir")
EFile(n, d) == [E0(n, "file") EXCEPT !.data = d]
EHard(n, d, k) == [E0(n, "file") EXCEPT !.data = d, !.key = k]
ELink(n, to) == [E0(n, "link") EXCEPT !.to = Tos[to]]
EFifo(n) == E0(n, "fifo")
EDev(n) == E0(n, "dev")

(* everything, for short archives *)
PoolAll ==
  {EDir(n) : n \in {"a", "b", "ab", "dot", "l", "up", "upa", "root", "aupb", "abc"}}
  \cup {EFile(n, "1") : n \in DOMAIN Names} \cup {EFile("a", "")}
  \cup {ELink(n, to) : n \in {"a", "l"}, to \in DOMAIN Tos} \cup {ELink("ab", "up"), ELink("dot", "out"), ELink("b", "a")}
  \cup {EFifo(n) : n \in {"a", "lf", "up", "dot"}}
  \cup {EHard(n, d, k) : n \in {"a", "b", "lf"}, d \in {"", "2"}, k \in {"g"}}
  \cup {EDev("a"), EDev("lf"), EDev("ba"), E0("a", "bad")}
(* interactions of three and more entries *)
PoolLinks ==
  {EDir("a"), EDir("l"), EFile("ab", "1"), EFile("lf", "1"), EFile("ldf", "1"), ELink("a", "out"), ELink("l", "up"), ELink("l", "a"),
   ELink("l", "destx"), ELink("a", "outf"), ELink("l", "back"), EFile("a", "1"), EFifo("l"), EFile("upup", "1"), ELink("ab", "abs"),
   EFile("abc", "1")}
PoolHard ==
  {EHard("a", "", "g"), EHard("a", "2", "g"), EHard("b", "", "g"), EHard("b", "2", "g"), EHard("ab", "", "g"), EHard("l", "", "g"),
   EHard("l", "2", "g"), EHard("b", "3", "h"), EHard("l", "", "h"), EFile("a", "1"), ELink("a", "outf"), ELink("b", "a"), EFifo("a"),
   EFile("b", "")}

(* initial file systems; 101.. are the files that are there *)
Outside == <<>> :> Dir @@ <<"P">> :> Dir @@ <<"P", "out">> :> Dir @@ <<"P", "out", "f">> :> File(1)
  @@ <<"P", "out", "d">> :> Dir @@ <<"P", "destx">> :> Dir @@ <<"P", "destx", "f">> :> File(2)
D == <<"P", "dest">>
Inside(k) ==
  CASE k = "missing" -> <<>> :> Dir
    [] k = "empty" -> D :> Dir
    [] k = "links" -> D :> Dir @@ D \o <<"a">> :> Link(Tos.outf) @@ D \o <<"l">> :> Link(Tos.out)
    [] k = "inner" -> D :> Dir @@ D \o <<"a">> :> Dir @@ D \o <<"l">> :> Link(Tos.a) @@ D \o <<"b">> :> Link(Tos.none)
    [] k = "hard" -> D :> Dir @@ D \o <<"a">> :> File(1) @@ D \o <<"b">> :> File(3) @@ D \o <<"l">> :> File(3)
    [] k = "full" -> D :> Dir @@ D \o <<"a">> :> Dir @@ D \o <<"a", "b">> :> File(3) @@ D \o <<"b">> :> Fifo
                     @@ D \o <<"l">> :> Link(Tos.up)
InitFS(k) == Inside(k) @@ Outside
=============================================================================
