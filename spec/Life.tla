-------------------------------- MODULE Life --------------------------------
(***************************************************************************)
(* The life of a response: what a handler does with it, and what a chain   *)
(* of response filters makes of that.                                      *)
(*                                                                         *)
(* A filter is a script                                                    *)
(*   [begin |-> [st, hdr, act], writes |-> <<w, ...>>, end |-> act]        *)
(* where st is a new status (0 keeps it), hdr is a new value of a header   *)
(* ("" keeps it and "-" removes it), act is an action                      *)
(*   [t |-> "next", some |-> BOOLEAN, d |-> bytes], [t |-> "silent"],      *)
(*   [t |-> "abort"], [t |-> "panic"]                                      *)
(* and the n:th call of write does what the n:th w says, cyclically:       *)
(*   [t, p, s] with t among "id", "wrap" (in p and s), "twice", "drop",    *)
(*   "put" (p instead), "silent", "abort" and "panic".                     *)
(*                                                                         *)
(* A program is a sequence of operations [op, n, d]:                       *)
(*   before the response is started: "status" n, "header" d, "length" n    *)
(*     and then "send" d, "quiet" d, "chunked", "raw" n or "drop"                     *)
(*   after "chunked": "send" d, "quiet" d (with the result ignored), "write" d, "write_all" d, "flush" and then *)
(*     "end" or "drop"                                                     *)
(*   after "raw": the same                                                 *)
(*   anywhere: "panic"                                                     *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets

NextAct(some, d) == [t |-> "next", some |-> some, d |-> d]
SilentAct == [t |-> "silent"]
AbortAct == [t |-> "abort"]
PanicAct == [t |-> "panic"]

(* Statuses that come without a body *)
Bodyless(status) == status \in {204, 304} \/ status < 200

(***************************************************************************)
(* The chain. c = [calls, abort, panic], where calls is what each filter   *)
(* has been asked, abort is the filters that have aborted (as strings, in  *)
(* the current operation) and panic tells if one panicked.                 *)
(***************************************************************************)
Chain0(fs) == [calls |-> [i \in DOMAIN fs |-> <<>>], abort |-> {}, panic |-> FALSE]

Writes(c, i) == Len(SelectSeq(c.calls[i], LAMBDA x : x.c = "w"))

Called(c, i, call, act) ==
  [c EXCEPT !.calls[i] = Append(@, call),
            !.abort = IF act.t = "abort" THEN @ \cup {i} ELSE @,
            !.panic = @ \/ act.t = "panic"]

Apply(w, some, d) ==
  CASE w.t = "id" -> NextAct(some, d)
    [] w.t = "wrap" -> NextAct(some, IF some THEN w.p \o d \o w.s ELSE <<>>)
    [] w.t = "twice" -> NextAct(some, d \o d)
    [] w.t = "drop" -> NextAct(FALSE, <<>>)
    [] w.t = "put" -> NextAct(TRUE, w.p)
    [] OTHER -> [t |-> w.t]

(* filter i is given one piece *)
Write(fs, c, i, some, d) ==
  LET ws == fs[i].writes
      act == Apply(ws[(Writes(c, i) % Len(ws)) + 1], some, d)
  IN [c |-> Called(c, i, [c |-> "w", some |-> some, d |-> d], act), act |-> act]

(* a piece from the handler: through all of the filters *)
RECURSIVE Through(_, _, _, _)
Through(fs, c, i, act) ==
  IF i > Len(fs) \/ act.t # "next" \/ c.panic THEN [c |-> c, act |-> act]
  ELSE LET w == Write(fs, c, i, act.some, act.d) IN Through(fs, w.c, i + 1, w.act)

(* filter i is given all of the pieces in a queue *)
RECURSIVE Pass(_, _, _, _, _, _)
Pass(fs, c, i, queue, n, r) ==
  IF n > Len(queue) \/ c.panic THEN [c |-> c, queue |-> r.queue, err |-> r.err]
  ELSE CASE queue[n].t = "next" ->
              LET w == Write(fs, c, i, queue[n].some, queue[n].d)
              IN Pass(fs, w.c, i, queue, n + 1, [r EXCEPT !.queue = Append(@, w.act)])
         [] queue[n].t = "silent" -> Pass(fs, c, i, queue, n + 1, r)
         [] OTHER -> Pass(fs, c, i, queue, n + 1, [r EXCEPT !.err = TRUE])
PassAll(fs, c, i, queue) == Pass(fs, c, i, queue, 1, [queue |-> <<>>, err |-> FALSE])

(* the beginning: what a filter adds goes through the ones after it, and
   there is an initial piece without content *)
RECURSIVE BeginFrom(_, _, _, _, _, _, _)
BeginFrom(fs, c, i, status, hdr, queue, last) ==
  IF i > Len(fs) \/ last.t # "next" \/ c.panic
  THEN [c |-> c, status |-> status, hdr |-> hdr, queue |-> Append(queue, last), err |-> last.t = "abort"]
  ELSE LET b == fs[i].begin
           st2 == IF b.st = 0 THEN status ELSE b.st
           hdr2 == IF b.hdr = "" THEN hdr ELSE IF b.hdr = "-" THEN "" ELSE b.hdr
           c2 == Called(c, i, [c |-> "b", status |-> status, hdr |-> hdr], b.act)
       IN IF b.act.t \in {"abort", "panic"}
          THEN BeginFrom(fs, c2, i + 1, st2, hdr2, queue, b.act)
          ELSE LET p == PassAll(fs, c2, i, Append(queue, last))
               IN BeginFrom(fs, p.c, i + 1, st2, hdr2, p.queue, IF p.err THEN AbortAct ELSE b.act)
Begin(fs, c, status, hdr) == BeginFrom(fs, c, 1, status, hdr, <<>>, NextAct(FALSE, <<>>))

(* the end: the last one first, until one of them doesn't continue *)
RECURSIVE EndCalls(_, _, _, _)
EndCalls(fs, c, i, acts) ==
  IF i = 0 \/ c.panic THEN [c |-> c, acts |-> acts, err |-> FALSE]
  ELSE LET act == fs[i].end
           c2 == Called(c, i, [c |-> "e"], act)
       IN IF act.t = "next" THEN EndCalls(fs, c2, i - 1, <<[i |-> i, act |-> act]>> \o acts)
          ELSE [c |-> c2, acts |-> acts, err |-> act.t = "abort"]

RECURSIVE EndPieces(_, _, _, _, _)
EndPieces(fs, c, i, acts, queue) ==
  IF i > Len(fs) \/ c.panic THEN [c |-> c, queue |-> queue, err |-> FALSE]
  ELSE LET p == PassAll(fs, c, i, queue)
           own == SelectSeq(acts, LAMBDA a : a.i = i)
       IN IF p.err THEN [c |-> p.c, queue |-> <<>>, err |-> TRUE]
          ELSE EndPieces(fs, p.c, i + 1, acts, IF own = <<>> THEN p.queue ELSE Append(p.queue, own[1].act))

End(fs, c) ==
  LET e == EndCalls(fs, c, Len(fs), <<>>)
  IN IF e.err \/ e.c.panic THEN [c |-> e.c, queue |-> <<>>, err |-> e.err]
     ELSE EndPieces(fs, e.c, 1, e.acts, <<>>)

(* what is sent of a queue: the content up to the first abort *)
RECURSIVE Content(_)
Content(queue) ==
  IF queue = <<>> \/ Head(queue).t = "abort" THEN <<>>
  ELSE (IF Head(queue).t = "next" /\ Head(queue).some THEN Head(queue).d ELSE <<>>) \o Content(Tail(queue))
Aborts(queue) == \E i \in DOMAIN queue : queue[i].t = "abort"

(***************************************************************************)
(* The response. The state is                                              *)
(*   phase     "open", "chunked", "raw", "done"                            *)
(*   status, hdr  as set so far; length: a preset content length, or -1    *)
(*   head      what the head says, when it's sent                          *)
(*   body      what was sent of the body                                   *)
(*   whole     the response has been ended in an orderly way               *)
(*   writer    of a chunked response: "ok", "filter" or "io" if there is   *)
(*             an error to report, or "gone" if it has been reported       *)
(*   left      what remains of the declared length of a raw response       *)
(*   c         the chain of filters; results of all the operations         *)
(*   crashed, early (before anything was sent)                             *)
(***************************************************************************)
StartWith(fs, hdr) ==
  [phase |-> "open", status |-> 200, hdr |-> hdr, length |-> -1, head |-> [sent |-> FALSE], body |-> <<>>, whole |-> FALSE,
   writer |-> "ok", pending |-> {}, left |-> 0, c |-> Chain0(fs), results |-> <<>>, crashed |-> FALSE, aborted |-> FALSE]

Start(fs) == StartWith(fs, "")

Crash(s) ==
  [s EXCEPT !.phase = "done", !.crashed = TRUE, !.head = IF s.head.sent THEN @ ELSE [sent |-> TRUE, status |-> 500, hdr |-> s.hdr],
            !.whole = s.whole \/ (s.head.sent /\ s.phase = "raw" /\ s.left = 0)]

Result(s, op, res, n, errs) == [s EXCEPT !.results = Append(@, [op |-> op.op, res |-> res, n |-> n, errs |-> errs])]
Ok(s, op, n) == Result(s, op, "ok", n, {})
(* where the caller gets nothing *)
Quiet(s, op) == Result(s, op, "quiet", 0, {})

HeadSent(s, status, hdr) == [s EXCEPT !.head = [sent |-> TRUE, status |-> status, hdr |-> hdr]]
Clean(s) == [s EXCEPT !.c.abort = {}]
SetAborted(s, b) == [s EXCEPT !.aborted = @ \/ b]

(* the result of an operation that sends all of the response at once *)
SendSized(fs, s0, d) ==
  LET s == [Clean(s0) EXCEPT !.phase = "done"]
  IN IF fs = <<>>
     THEN LET t == HeadSent(s, s.status, s.hdr)
          IN IF Bodyless(s.status) THEN [s |-> [t EXCEPT !.whole = TRUE], res |-> IF d = <<>> THEN "ok" ELSE "io"]
             ELSE [s |-> [t EXCEPT !.body = d, !.whole = TRUE], res |-> "ok"]
     ELSE
     LET b == Begin(fs, s.c, s.status, s.hdr)
     IN IF b.c.panic THEN [s |-> Crash([s EXCEPT !.c = b.c]), res |-> "panic"]
        ELSE IF b.err THEN [s |-> HeadSent([s EXCEPT !.c = b.c, !.whole = TRUE], s.status, b.hdr), res |-> "filter"]
        ELSE
        LET t == HeadSent([s EXCEPT !.whole = TRUE], b.status, b.hdr)
        IN IF Aborts(b.queue) THEN [s |-> [t EXCEPT !.c = b.c], res |-> "filter"]
           ELSE
           LET m == Through(fs, b.c, 1, NextAct(TRUE, d))
           IN IF m.c.panic THEN [s |-> Crash([s EXCEPT !.c = m.c]), res |-> "panic"]
              ELSE IF m.act.t = "abort" THEN [s |-> [t EXCEPT !.c = m.c], res |-> "filter"]
              ELSE
              LET e == End(fs, m.c)
              IN IF e.c.panic THEN [s |-> Crash([s EXCEPT !.c = e.c]), res |-> "panic"]
                 ELSE IF e.err \/ Aborts(e.queue) THEN [s |-> [t EXCEPT !.c = e.c], res |-> "filter"]
                 ELSE
                 LET body == Content(b.queue) \o Content(<<m.act>>) \o Content(e.queue)
                     u == [t EXCEPT !.c = e.c]
                 IN IF Bodyless(b.status) THEN [s |-> u, res |-> IF body = <<>> THEN "ok" ELSE "io"]
                    ELSE [s |-> [u EXCEPT !.body = body], res |-> "ok"]

(* errors in a step are those of any of the filters that aborted in it *)
Finished(op, x, quiet) ==
  CASE x.res = "panic" -> x.s
    [] quiet -> SetAborted(Quiet(x.s, op), x.res = "filter")
    [] x.res = "ok" -> Ok(x.s, op, 0)
    [] OTHER -> SetAborted(Result(x.s, op, x.res, 0, x.s.c.abort), x.res = "filter")

IntoChunked(fs, s0, op) ==
  LET s == Clean(s0)
      b == Begin(fs, s.c, s.status, s.hdr)
      t == [s EXCEPT !.c = b.c, !.phase = "chunked"]
  IN IF b.c.panic THEN Crash(t)
     ELSE IF b.err THEN SetAborted(Quiet(HeadSent([t EXCEPT !.writer = "filter", !.pending = b.c.abort, !.whole = TRUE], s.status, b.hdr), op), TRUE)
     ELSE LET u == HeadSent(t, b.status, b.hdr)
              body == Content(b.queue)
          IN IF Bodyless(b.status) /\ body # <<>> THEN Quiet([u EXCEPT !.writer = "io", !.whole = TRUE], op)
             ELSE LET v == [u EXCEPT !.body = IF Bodyless(b.status) THEN <<>> ELSE body]
                  IN IF Aborts(b.queue)
                     THEN SetAborted(Quiet([v EXCEPT !.writer = "filter", !.pending = b.c.abort, !.whole = TRUE], op), TRUE)
                     ELSE Quiet(v, op)

(* an error is reported once *)
Broken(s, op) ==
  IF s.writer = "filter" THEN Result([s EXCEPT !.writer = "gone"], op, "filter", 0, s.pending)
  ELSE IF s.writer = "io" THEN Result([s EXCEPT !.writer = "gone"], op, "io", 0, {})
  ELSE Result(s, op, "io", 0, {})

ChunkedSend(fs, s0, op) ==
  IF s0.writer # "ok" THEN Broken(s0, op)
  ELSE LET s == Clean(s0)
           m == Through(fs, s.c, 1, NextAct(TRUE, op.d))
           t == [s EXCEPT !.c = m.c]
           out == Content(<<m.act>>)
       IN IF m.c.panic THEN Crash(t)
          ELSE IF m.act.t = "abort" THEN SetAborted(Result(t, op, "filter", 0, m.c.abort), TRUE)
          ELSE IF Bodyless(s.head.status) /\ out # <<>> THEN Result(t, op, "io", 0, {})
          ELSE Ok([t EXCEPT !.body = @ \o out], op, CASE op.op = "write" -> Len(op.d) [] op.op = "send" -> Len(out) [] OTHER -> 0)

ChunkedEnd(fs, s0, op, quiet) ==
  LET done == [s0 EXCEPT !.phase = "done"]
  IN IF s0.writer # "ok" THEN (IF quiet THEN Quiet(done, op) ELSE Broken(done, op))
     ELSE LET s == Clean(s0)
              e == End(fs, s.c)
              t == [s EXCEPT !.c = e.c, !.phase = "done", !.whole = TRUE]
              out == Content(e.queue)
          IN IF e.c.panic THEN Crash([s EXCEPT !.c = e.c])
             ELSE IF e.err THEN Finished(op, [s |-> t, res |-> "filter"], quiet)
             ELSE IF Bodyless(s.head.status) /\ out # <<>> THEN Finished(op, [s |-> t, res |-> "io"], quiet)
             ELSE Finished(op, [s |-> [t EXCEPT !.body = @ \o out], res |-> IF Aborts(e.queue) THEN "filter" ELSE "ok"], quiet)

(* the same, when the result is ignored *)
Unseen(s, t, op) == IF t.crashed THEN t ELSE Quiet([t EXCEPT !.results = s.results], op)

RawWrite(s, op) ==
  LET n == IF Bodyless(s.head.status) THEN 0 ELSE IF Len(op.d) < s.left THEN Len(op.d) ELSE s.left
      t == [s EXCEPT !.left = @ - n, !.body = @ \o SubSeq(op.d, 1, n)]
  IN IF op.op = "write" THEN Ok(t, op, n)
     ELSE IF n = Len(op.d) THEN Ok(t, op, 0) ELSE Result(t, op, "io", 0, {})

RawEnd(s, op, quiet) ==
  LET t == [s EXCEPT !.phase = "done", !.whole = Bodyless(s.head.status) \/ s.left = 0]
  IN IF quiet THEN Quiet(t, op) ELSE Ok(t, op, 0)

Step(fs, s, op) ==
  CASE op.op = "panic" -> Crash(s)
    [] s.phase = "open" ->
         (CASE op.op = "status" -> Quiet([s EXCEPT !.status = op.n], op)
            [] op.op = "header" -> Quiet([s EXCEPT !.hdr = IF op.h = "-" THEN "" ELSE op.h], op)
            [] op.op = "length" -> Quiet([s EXCEPT !.length = op.n], op)
            [] op.op = "send" -> Finished(op, SendSized(fs, s, op.d), FALSE)
            [] op.op = "quiet" -> Finished(op, SendSized(fs, s, op.d), TRUE)
            [] op.op = "drop" -> Finished(op, SendSized(fs, s, <<>>), TRUE)
            [] op.op = "chunked" -> IntoChunked(fs, s, op)
            [] op.op = "raw" -> Quiet(HeadSent([s EXCEPT !.phase = "raw", !.left = op.n, !.whole = Bodyless(s.status)], s.status, s.hdr), op))
    [] s.phase = "chunked" ->
         (CASE op.op \in {"send", "write", "write_all"} -> ChunkedSend(fs, s, op)
            [] op.op = "quiet" -> Unseen(s, ChunkedSend(fs, s, op), op)
            [] op.op = "flush" -> IF s.writer = "ok" THEN Ok(s, op, 0) ELSE Broken(s, op)
            [] op.op = "end" -> ChunkedEnd(fs, s, op, FALSE)
            [] op.op = "drop" -> ChunkedEnd(fs, s, op, TRUE))
    [] s.phase = "raw" ->
         (CASE op.op \in {"send", "write", "write_all"} -> RawWrite(s, op)
            [] op.op = "quiet" -> Unseen(s, RawWrite(s, op), op)
            [] op.op = "flush" -> Ok(s, op, 0)
            [] op.op = "end" -> RawEnd(s, op, FALSE)
            [] op.op = "drop" -> RawEnd(s, op, TRUE))

RECURSIVE RunFrom(_, _, _)
RunFrom(fs, s, prog) ==
  IF prog = <<>> \/ s.phase = "done" THEN s ELSE RunFrom(fs, Step(fs, s, Head(prog)), Tail(prog))
Run(fs, prog) == RunFrom(fs, Start(fs), prog)
(* with something else than "" as the header from the start *)
RunWith(fs, hdr, prog) == RunFrom(fs, StartWith(fs, hdr), prog)

(* what can be seen of it *)
Seen(s) ==
  [status |-> s.head.status, hdr |-> s.head.hdr, body |-> s.body, whole |-> s.whole, crashed |-> s.crashed,
   aborted |-> s.aborted, calls |-> s.c.calls, results |-> s.results]
=============================================================================
