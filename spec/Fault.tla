-------------------------------- MODULE Fault --------------------------------
(* An operation that reads a stream to completion, and a stream that fails. The operation needs the
   first `need` bytes; if `drain` it also has to see the end of the stream after them. It may read
   on as far as `slack` bytes. The stream fails at byte fail.at: with fail.kind "eof" it just ends,
   with "err" it reports an error, and with fail.with that comes together with the last bytes. If
   fail.once, the stream goes on after its error; such an error that comes with bytes that complete
   one of the reads of fixed size, by which the first `full` bytes are read, need not be noticed. *)
EXTENDS Integers

May(o, f) ==
  IF f.once /\ f.with /\ f.at > 0 /\ f.at <= o.full /\ f.kind = "err" THEN {"ok", "err"}
  ELSE IF f.at < o.need THEN {"err"}
  ELSE IF f.at = o.need THEN
    IF o.drain THEN (IF f.kind = "eof" THEN {"ok"} ELSE {"err"})
    ELSE IF f.with \/ o.slack > o.need THEN {"ok", "err"} ELSE {"ok"}
  ELSE IF f.at < o.slack \/ (f.at = o.slack /\ f.with) THEN {"ok", "err"}
  ELSE {"ok"}
=============================================================================
