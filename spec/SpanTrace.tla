----------------------------- MODULE SpanTrace -----------------------------
(* Validates executions of nytl::span and nytl::StringParam.                *)
EXTENDS Span, TraceBase

R(k) == IF k \in DOMAIN Rec THEN Rec[k] ELSE Assert(FALSE, "no value " \o k)
TraceInit == l = 1 /\ Init(<<>>)

\* everything a span shows: R.v has the fields of the recorded view
Shows(m, w, v) ==
  LET e == IF w.len = 0 THEN <<>> ELSE Elems(m, w) IN
  /\ v.size = w.len
  /\ v.ext = w.ext
  /\ v.empty = (w.len = 0)
  /\ v.bytes = w.len * v.elsize
  /\ v.off = w.off * v.elsize
  /\ v.index = e /\ v.call = e /\ v.iter = e /\ v.citer = e
  /\ v.riter = Rev(e) /\ v.criter = Rev(e)
  /\ v.fb = (IF e = <<>> THEN <<>> ELSE <<e[1], e[Len(e)]>>)
  \* byte views: offset, size and extent in bytes
  /\ v.asbytes = <<w.off * v.elsize, w.len * v.elsize, IF w.ext = Dyn THEN Dyn ELSE w.ext * v.elsize>>
  /\ v.content = e

Reset == R("op") = "reset" /\ mem' = R("mem") /\ reg' = [r \in Regs |-> None]
Op(o) ==
  \/ o = "make" /\ Make(R("r"), R("o"), R("n"), R("e"))
  \/ o = "null" /\ MakeNull(R("r"))
  \/ o = "first" /\ First(R("r"), R("s"), R("n"), R("e"))
  \/ o = "last" /\ Last(R("r"), R("s"), R("n"), R("e"))
  \/ o = "sub" /\ Sub(R("r"), R("s"), R("o"), R("n"), R("e"))
  \/ o = "rest" /\ Rest(R("r"), R("s"), R("o"), R("e"))
  \/ o = "conv" /\ Convert(R("r"), R("s"), R("e"))
  \/ o = "write" /\ Write(R("r"), R("i"), R("v"))
  \/ o = "poke" /\ Poke(R("i"), R("v")) 
Operation == Op(R("op")) /\ mem' = R("mem") /\ IF R("op") = "poke" THEN TRUE ELSE Shows(mem', reg'[R("r")], R("view"))
Cmp == /\ R("op") = "cmp" /\ UNCHANGED vars
       /\ LET a == R("r") b == R("s") IN
          /\ R("eq") = Equal(a, b)
          \* ordered where they have the same type
          /\ IF reg[a].ext # reg[b].ext THEN TRUE ELSE
              /\ R("ne") = ~Equal(a, b)
              /\ R("lt") = Smaller(a, b) /\ R("gt") = Smaller(b, a)
              /\ R("le") = ~Smaller(b, a) /\ R("ge") = ~Smaller(a, b)

\* a string parameter created from the characters src (up to the first zero)
RECURSIVE UpToZero(_)
UpToZero(s) == IF s = <<>> \/ Head(s) = 0 THEN <<>> ELSE <<Head(s)>> \o UpToZero(Tail(s))
Str == /\ R("op") = "str" /\ UNCHANGED vars
       /\ LET e == UpToZero(R("src")) IN
          /\ R("chars") = e /\ R("size") = Len(e) /\ R("empty") = (e = <<>>)
          /\ R("cstr") = e                 \* up to the terminator
          /\ R("term") = 0                 \* the character behind the last one
          /\ R("same")                     \* refers to the source, no copy
\* long spans, numbers as digits base 2^20
Dig == 1048576
Plus(a, b) == IF a[2] + b[2] >= Dig THEN <<a[1] + b[1] + 1, a[2] + b[2] - Dig>> ELSE <<a[1] + b[1], a[2] + b[2]>>
Minus(a, b) == IF a[2] >= b[2] THEN <<a[1] - b[1], a[2] - b[2]>> ELSE <<a[1] - b[1] - 1, a[2] + Dig - b[2]>>
Huge == /\ R("op") = "huge" /\ UNCHANGED vars
        /\ LET f == R("fn")
               off == CASE f \in {"sub", "rest"} -> R("o") [] f = "last" -> Minus(R("size"), R("n")) [] OTHER -> <<0, 0>>
               len == CASE f = "rest" -> Minus(R("size"), R("o")) [] f = "whole" -> R("size") [] OTHER -> R("n")
               end == Plus(off, len) IN
           R("got") = <<len, off, len, len, end, end, len, off>> /\ R("empty") = (len = <<0, 0>>)
\* a span can only be created from elements of the same type that are not made mutable;
\* static extents of spans have to agree
Can == /\ R("op") = "can" /\ UNCHANGED vars
       /\ LET c == /\ R("kind") # "none" /\ R("elem") = R("to") /\ (R("const") => R("toconst"))
                   /\ (R("kind") = "span" => R("ext") = R("toext") \/ Dyn \in {R("ext"), R("toext")}) IN
          R("res") = c /\ R("assign") = c /\ R("implicit") = c
\* spans of no elements
Void == /\ R("op") = "void" /\ UNCHANGED vars
        /\ R("size") = 0 /\ R("empty") /\ R("n") = 0 /\ R("bytes") = 0
        /\ R("ext") = (IF R("static") THEN 0 ELSE Dyn) /\ R("byteext") = R("ext")
        /\ R("subs") = <<0, 0, 0, 0, 0, 0, 0, 0>>
\* elements that aren't equal to themselves (-1): equality is that of the elements, also
\* for a window and itself; the order of such elements is not specified
Nan == /\ R("op") = "nan" /\ UNCHANGED vars
       /\ LET a == R("a")  b == R("b")
              e == Len(a) = Len(b) /\ \A i \in DOMAIN a : a[i] # -1 /\ a[i] = b[i]
          IN
          /\ R("eq") = e /\ R("ne") = ~e
          /\ IF \E s \in {a, b} : \E i \in DOMAIN s : s[i] = -1 THEN TRUE ELSE R("lt") = Less(a, b) /\ R("gt") = Less(b, a)
TraceNext == Step /\ (Nan \/ Reset \/ Operation \/ Cmp \/ Str \/ Huge \/ Can \/ Void)
=============================================================================
