----------------------------- MODULE BytesTrace -----------------------------
(* Validates executions of nytl/bytes.hpp.                                  *)
EXTENDS Bytes, TraceBase
TraceInit == l = 1 /\ Init(<<>>)
R(k) == IF k \in DOMAIN Rec THEN Rec[k] ELSE Assert(FALSE, "no value " \o k)
Reset == R("op") = "reset" /\ mem' = R("mem") /\ w' = Win(0, 0) /\ r' = RWin("mem", 0, 0) /\ dyn' = <<>>
Op(o) ==
  \/ o = "newwrite" /\ NewWrite(R("b"), R("e"))
  \/ o = "newread" /\ NewRead(R("src"), R("b"), R("e"))
  \/ o = "write" /\ Write(R("bs"), R("ok"))
  \/ o = "dynwrite" /\ R("ok") /\ DynWrite(R("bs"))
  \/ o = "dynclear" /\ DynClear
  \/ o = "skipw" /\ SkipWrite(R("n"), R("ok"))
  \/ o = "skipr" /\ SkipRead(R("n"), R("ok"))
  \/ o = "read" /\ Read(R("n"), R("old"), R("new"), R("ok"))
  \/ o = "copy" /\ Copy(R("n"), R("exact"), R("old"), R("new"), R("ok"))
Shows == /\ mem' = R("mem") /\ dyn' = R("dyn")
         /\ <<w'.b, w'.e>> = R("w")
         /\ R("r") = IF r'.src = "mem" THEN <<0, r'.b, r'.e>> ELSE <<1, r'.b, r'.e>>
Operation == Op(R("op")) /\ Shows
\* bytes(x) refers to exactly the bytes of x, writing them modifies x
View == /\ R("op") = "view" /\ UNCHANGED vars
        /\ R("size") = R("expected") /\ R("off") = 0 /\ R("content") = R("bs")
        /\ R("modified") = R("wrote")
\* sizes beyond 32 bits: digits base 2^20
Dig == 1048576
NotAbove(a, b) == a[1] < b[1] \/ (a[1] = b[1] /\ a[2] <= b[2])
Minus(a, b) == IF a[2] >= b[2] THEN <<a[1] - b[1], a[2] - b[2]>> ELSE <<a[1] - b[1] - 1, a[2] + Dig - b[2]>>
Huge == /\ R("op") = "huge" /\ UNCHANGED vars
        /\ LET fits == NotAbove(R("n"), R("size")) IN
           /\ R("ok") = fits
           /\ R("left") = IF fits THEN Minus(R("size"), R("n")) ELSE R("size")
           /\ R("at") = IF fits THEN R("n") ELSE <<0, 0>>
\* sizes that never fit
TooMuch == /\ R("op") = "toomuch" /\ UNCHANGED vars
           /\ \A i \in DOMAIN R("ok") : ~R("ok")[i]
           /\ R("left") = <<R("size"), R("size")>>
\* buffers of up to many million bytes: n objects of s bytes, byte j of object i (numbers from 0) is LongByte(i, j)
LongByte(i, j) == (i * 7 + (i \div 256) * 31 + j * 13 + 5) % 256
Right(samples, s) == \A k \in DOMAIN samples : samples[k][2] = LongByte(samples[k][1] \div s, samples[k][1] % s)
Long == /\ R("op") = "long" /\ UNCHANGED vars
        /\ R("ok") /\ R("size") = R("n") * R("s") /\ R("left") = 8 /\ R("around")
        /\ R("rok") /\ R("rleft") = 0 /\ R("rat") = R("n") * R("s")
        /\ Right(R("wrote"), R("s")) /\ Right(R("got"), R("s")) /\ Right(R("copied"), R("s"))
\* objects that are no plain data (or declared not to be) aren't converted
Plain == R("trivial") /\ R("layout") /\ ~R("prohibited")
Can == /\ R("op") = "can" /\ UNCHANGED vars
       /\ R("bytes") = Plain
       /\ ~R("seq") => R("into") = Plain /\ R("read") = Plain /\ R("copy") = Plain /\ R("exact") = Plain
       /\ R("seq") => (R("into") => Plain) /\ ~R("read") /\ ~R("copy") /\ ~R("exact")
TraceNext == Step /\ (Reset \/ Operation \/ View \/ Huge \/ TooMuch \/ Long \/ Can)
=============================================================================
