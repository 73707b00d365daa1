--------------------------- MODULE CallbackTrace ---------------------------
(* Validates recorded histories of callbacks (many functions, deep nesting, *)
(* long lives) against Callback.tla.  Every history begins with a record    *)
(* "new".  Prop selects what is demanded: a deviation that is the subject   *)
(* of another property ends the validation of its history only.             *)
EXTENDS Callback, TraceBase
CONSTANT Prop
VARIABLES meta, sync,   \* the history's kind of callback, whether it is still followed
          marks,        \* for every pending call: functions invoked, whether any removal came before it
          removal       \* whether there was any removal
tvars == <<meta, sync, marks, removal>>
Many == 1..400

TraceInit == Init /\ l = 1 /\ meta = [op |-> ""] /\ sync = FALSE /\ marks = <<>> /\ removal = FALSE
New == /\ Rec.op = "new"
       /\ live' = <<>> /\ pend' = {} /\ used' = {} /\ stack' = <<>> /\ alive' = TRUE /\ obs' = NoObs
       /\ meta' = Rec /\ sync' = TRUE /\ marks' = <<>> /\ removal' = FALSE
Skip == ~sync /\ Rec.op # "new" /\ UNCHANGED <<vars, tvars>>

\* many calls whose functions return at once, and many registrations that are removed again
Age == Can /\ UNCHANGED state /\ obs' = [NoObs EXCEPT !.op = "age", !.conn = Range(live)]
\* the steps Call^n, Disconnect(s), Return^(...) or Throw(n): the call is repeated by its first function
Dive(s) == /\ Can /\ ~Busy /\ Reentrant /\ live # <<>> /\ s \in Range(live)
           /\ live' = Without(live, {s}) /\ UNCHANGED <<pend, used, stack, alive>>
           /\ obs' = [NoObs EXCEPT !.op = "dive", !.arg = s, !.end = IF Rec.thrown THEN "exc" ELSE "ret", !.dres = 1,
                        !.sets = {s}, !.rems = {s}, !.conn = Range(live')]
RECURSIVE Sum(_)
Sum(q) == IF q = <<>> THEN 0 ELSE (IF meta.parity THEN Head(q) % 2 ELSE Head(q)) + Sum(Tail(q))
\* functions invoked by all these calls
Invoked == CASE Rec.op = "age" -> /\ Rec.total = Rec.n * Len(live) /\ (Rec.n > 0 => Rec.order = live)
                                  /\ (~meta.void => Rec.sum = Rec.n * Sum(live))
             [] Rec.op = "dive" -> /\ Rec.total = (IF Rec.thrown THEN Rec.n ELSE Rec.n * Len(live))
                                   /\ (~meta.void => Rec.sum = IF Rec.thrown THEN 0 ELSE Rec.n * Sum(live))
             [] OTHER -> TRUE

Action == CASE Rec.op = "add" -> Add(Rec.arg)
            [] Rec.op = "assign" -> Assign(Rec.arg)
            [] Rec.op = "addfail" -> AddFail
            [] Rec.op = "dis" -> Disconnect(Rec.arg)
            [] Rec.op = "stale" -> DisconnectStale(Rec.arg)
            [] Rec.op = "clear" -> Clear
            [] Rec.op = "call" -> Call
            [] Rec.op = "ret" -> Return
            [] Rec.op = "throw" -> Throw(Rec.arg)
            [] Rec.op = "destroy" -> Destroy
            [] Rec.op = "age" -> Age
            [] Rec.op = "dive" -> Dive(Rec.arg)
            [] OTHER -> FALSE

\* what was recorded differs from the step of the specification
Differs(f) == CASE f = "dres" -> Rec.dres # -2 /\ Rec.dres # obs'.dres
                [] f = "inv" -> Rec.inv # obs'.inv
                [] f = "end" -> Rec.end # obs'.end
                [] f = "vec" -> /\ ~meta.void
                                /\ IF meta.parity THEN Rec.vec # [i \in DOMAIN obs'.vec |-> obs'.vec[i] % 2] ELSE Rec.vec # obs'.vec
                [] f = "sets" -> meta.logs /\ Range(Rec.sets) # obs'.sets
                [] f = "rems" -> meta.logs /\ (Range(Rec.rems) # obs'.rems \/ Len(Rec.rems) # Cardinality(obs'.rems))
                [] f = "conn" -> meta.tracks /\ Range(Rec.conn) # obs'.conn \ Range(Rec.anon)
                [] f = "reg" -> Rec.reg # ""
                [] f = "handle" -> Rec.handle # ""

Mark(op) == op \in {"dis", "clear", "assign", "dive"}
\* the calls after this step, the functions invoked by each
Marks == IF Rec.op = "call" THEN (IF obs'.inv = 0 THEN marks ELSE Append(marks, [got |-> <<Rec.inv>>, before |-> removal]))
         ELSE IF Rec.op = "ret" THEN
              (IF obs'.end = "ret" THEN SubSeq(marks, 1, Len(marks) - 1) ELSE [marks EXCEPT ![Len(marks)].got = Append(@, Rec.inv)])
         ELSE IF Rec.op = "throw" THEN SubSeq(marks, 1, Len(marks) - Rec.arg)
         ELSE marks
Off == (Rec.inv = 0) # (obs'.inv = 0) \/ Rec.inv = -1 \/ Rec.end # obs'.end
Before == IF Rec.op = "call" THEN removal ELSE marks # <<>> /\ marks[Len(marks)].before
\* C02: a call that began after a removal executes another set of functions
OtherSet == \/ Off /\ Before
            \/ ~Invoked /\ Before
            \/ /\ Rec.op = "ret" /\ obs'.end = "ret" /\ Before
               /\ \/ Range(marks[Len(marks)].got) # Range(Top.snap) \/ Len(marks[Len(marks)].got) # Len(Top.snap)

Bad == CASE Prop = "C01" -> Differs("inv") \/ Differs("end") \/ Differs("vec") \/ ~Invoked
         [] Prop = "C02" -> Differs("dres") \/ OtherSet
         [] Prop = "C03" -> Differs("sets") \/ Differs("rems")
         [] Prop = "C04" -> Differs("conn") \/ Differs("handle")
         [] OTHER -> \E f \in {"dres", "inv", "end", "vec", "sets", "rems", "conn", "reg"} : Differs(f) \/ ~Invoked

Follow == /\ sync /\ Rec.op # "new"
          /\ IF Rec.op = "impossible"
             THEN Prop \notin {"C01", "C06"} /\ sync' = FALSE /\ UNCHANGED <<vars, meta, marks, removal>>
             ELSE /\ Action
                  /\ ~Bad
                  /\ sync' = (~Off /\ Invoked)
                  /\ marks' = Marks
                  /\ removal' = (removal \/ Mark(Rec.op))
                  /\ meta' = meta
TraceNext == Step /\ (New \/ Skip \/ Follow)
=============================================================================
