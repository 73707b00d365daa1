-------------------------------- MODULE Span --------------------------------
(***************************************************************************)
(* Spans over one sequence of elements (property C09).                     *)
(* mem: the elements; reg[r]: the window a span variable denotes: offset,  *)
(* length and static extent (Dyn: dynamic), off = -1: no such span;        *)
(* off = Null: the empty span without sequence.                            *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets
CONSTANT Regs
Dyn == -1
Null == -2
VARIABLES mem, reg
vars == <<mem, reg>>

None == [off |-> -1, len |-> 0, ext |-> Dyn]
Win(o, n, e) == [off |-> o, len |-> n, ext |-> e]
Fits(w) == w.ext = Dyn \/ w.ext = w.len
Valid(r) == reg[r].off # -1
\* the elements of a window
Elems(m, w) == SubSeq(m, w.off + 1, w.off + w.len)
RECURSIVE Rev(_)
Rev(s) == IF s = <<>> THEN <<>> ELSE Rev(Tail(s)) \o <<Head(s)>>

Init(m) == mem = m /\ reg = [r \in Regs |-> None]

Set(r, w) == Fits(w) /\ reg' = [reg EXCEPT ![r] = w] /\ UNCHANGED mem

\* a span of n elements of the sequence starting with the o-th one
Make(r, o, n, e) == o >= 0 /\ n >= 0 /\ o + n <= Len(mem) /\ Set(r, Win(o, n, e))
MakeNull(r) == Set(r, Win(Null, 0, Dyn))
First(r, s, n, e) == Valid(s) /\ n <= reg[s].len /\ Set(r, Win(reg[s].off, n, e))
Last(r, s, n, e) == Valid(s) /\ n <= reg[s].len /\ Set(r, Win(reg[s].off + reg[s].len - n, n, e))
Sub(r, s, o, n, e) == Valid(s) /\ o + n <= reg[s].len /\ Set(r, Win(reg[s].off + o, n, e))
\* without number of elements: the rest
Rest(r, s, o, e) == Valid(s) /\ o <= reg[s].len /\ Set(r, Win(reg[s].off + o, reg[s].len - o, e))
Convert(r, s, e) == Valid(s) /\ Set(r, Win(reg[s].off, reg[s].len, e))
\* the element i is written through the span s
Write(s, i, v) == /\ Valid(s) /\ i < reg[s].len
                  /\ mem' = [mem EXCEPT ![reg[s].off + i + 1] = v] /\ UNCHANGED reg
\* the underlying sequence is modified
Poke(i, v) == i < Len(mem) /\ mem' = [mem EXCEPT ![i + 1] = v] /\ UNCHANGED reg

\* lexicographical order of sequences of numbers
RECURSIVE Less(_, _)
Less(a, b) == IF b = <<>> THEN FALSE ELSE IF a = <<>> THEN TRUE
              ELSE IF Head(a) # Head(b) THEN Head(a) < Head(b) ELSE Less(Tail(a), Tail(b))
Content(s) == IF reg[s].len = 0 THEN <<>> ELSE Elems(mem, reg[s])
Equal(s, t) == Content(s) = Content(t)
Smaller(s, t) == Less(Content(s), Content(t))

TypeOK == \A r \in Regs : Valid(r) => /\ Fits(reg[r])
                                      /\ reg[r].off + reg[r].len <= Len(mem)
=============================================================================
