------------------------------- MODULE Bytes -------------------------------
(***************************************************************************)
(* Byte buffers (property C10).                                            *)
(* mem: a memory area; w: the window of it a WriteBuf still can write to;  *)
(* dyn: the content of a growing write buffer; r: the window of mem or dyn *)
(* a ReadBuf still refers to.  Windows: bytes b+1..e.                      *)
(***************************************************************************)
EXTENDS Integers, Sequences
VARIABLES mem, w, r, dyn
vars == <<mem, w, r, dyn>>

Win(b, e) == [b |-> b, e |-> e]
RWin(src, b, e) == [src |-> src, b |-> b, e |-> e]
Left(x) == x.e - x.b
Source == IF r.src = "mem" THEN mem ELSE dyn
\* the next n bytes to read
Front(n) == SubSeq(Source, r.b + 1, r.b + n)

Init(m) == mem = m /\ w = Win(0, 0) /\ r = RWin("mem", 0, 0) /\ dyn = <<>>

NewWrite(b, e) == b <= e /\ e <= Len(mem) /\ w' = Win(b, e) /\ UNCHANGED <<mem, r, dyn>>
NewRead(src, b, e) == /\ b <= e /\ e <= Len(IF src = "mem" THEN mem ELSE dyn)
                      /\ r' = RWin(src, b, e) /\ UNCHANGED <<mem, w, dyn>>

Fail == UNCHANGED vars
\* the bytes bs are written to the front of the write buffer
Write(bs, ok) ==
  /\ ok = (Len(bs) <= Left(w))
  /\ IF ok THEN /\ mem' = [i \in DOMAIN mem |-> IF i > w.b /\ i <= w.b + Len(bs) THEN bs[i - w.b] ELSE mem[i]]
                /\ w' = [w EXCEPT !.b = @ + Len(bs)] /\ UNCHANGED <<r, dyn>>
     ELSE Fail
DynWrite(bs) == /\ dyn' = dyn \o bs /\ UNCHANGED <<mem, w>>
                /\ r' = IF r.src = "dyn" THEN RWin("mem", 0, 0) ELSE r
DynClear == dyn' = <<>> /\ UNCHANGED <<mem, w>> /\ r' = IF r.src = "dyn" THEN RWin("mem", 0, 0) ELSE r
SkipWrite(n, ok) == /\ ok = (n <= Left(w))
                    /\ IF ok THEN w' = [w EXCEPT !.b = @ + n] /\ UNCHANGED <<mem, r, dyn>> ELSE Fail
SkipRead(n, ok) == /\ ok = (n <= Left(r))
                   /\ IF ok THEN r' = [r EXCEPT !.b = @ + n] /\ UNCHANGED <<mem, w, dyn>> ELSE Fail
\* n bytes are read: the object that had the bytes old afterwards has new
Read(n, old, new, ok) ==
  /\ ok = (n <= Left(r))
  /\ IF ok THEN new = Front(n) /\ r' = [r EXCEPT !.b = @ + n] /\ UNCHANGED <<mem, w, dyn>>
     ELSE new = old /\ Fail
\* the leading (exact: all) bytes of the read buffer are copied
Copy(n, exact, old, new, ok) ==
  /\ ok = (IF exact THEN n = Left(r) ELSE n <= Left(r))
  /\ new = IF ok THEN Front(n) ELSE old
  /\ UNCHANGED vars

TypeOK == /\ 0 <= w.b /\ w.b <= w.e /\ w.e <= Len(mem)
          /\ 0 <= r.b /\ r.b <= r.e /\ r.e <= Len(Source)
=============================================================================
