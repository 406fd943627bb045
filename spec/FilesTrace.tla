----------------------------- MODULE FilesTrace -----------------------------
(* Recorded histories of real files, replayed on FileStore. *)
EXTENDS TraceBase
VARIABLES place, kind, data, target, mtime
S == INSTANCE FileStore WITH NNames <- 0, InitPlace <- <<>>, Datas <- {}, Times <- {}
Ev == Trace[l]
IsEvent(e) == l <= Len(Trace) /\ Ev.op = e /\ l' = l + 1
state == <<place, kind, data, target, mtime>>
TraceInit == l = 1 /\ place = <<>> /\ kind = <<>> /\ data = <<>> /\ target = <<>> /\ mtime = <<>>
\* all names start out missing, except faulty ones
TReset == /\ IsEvent("reset") /\ place' = Ev.place /\ kind' = Ev.kind
          /\ data' = [n \in 1..Len(Ev.place) |-> <<>>] /\ target' = [n \in 1..Len(Ev.place) |-> n]
          /\ mtime' = [n \in 1..Len(Ev.place) |-> <<0, 0>>]
\* a time unknown up to an interval of seconds is <<from, to, -1>>
TSet == /\ IsEvent("set")
        /\ Accept(Ev.ok = S!CanWrite(Ev.n))
        /\ IF S!CanWrite(Ev.n) THEN S!Set(Ev.n, Ev.d, Ev.t) ELSE UNCHANGED state
\* the medium takes only so many bytes (-1: none at all)
TFull == /\ IsEvent("full") /\ UNCHANGED state
         /\ Accept(Ev.ok = (S!Size(Ev.d) <= Ev.max))
TRemove == IsEvent("remove") /\ S!Remove(Ev.n)
\* the environment found another state than the store can be in
TThrew == IsEvent("threw") /\ UNCHANGED state /\ Accept(FALSE)
Free(n) == Accept(kind[n] = 0)
TMkDir == IsEvent("mkdir") /\ Free(Ev.n) /\ IF kind[Ev.n] = 0 THEN S!MkDir(Ev.n, Ev.t) ELSE UNCHANGED state
TLink == IsEvent("link") /\ Free(Ev.n) /\ IF kind[Ev.n] = 0 THEN S!MkLink(Ev.n, Ev.m) ELSE UNCHANGED state
TTouch == IsEvent("touch") /\ Accept(S!Exists(Ev.n)) /\ IF S!Exists(Ev.n) THEN S!Touch(Ev.n, Ev.t) ELSE UNCHANGED state
TimeOk(t, e) == IF Len(e) = 3 THEN t[1] >= e[1] /\ t[1] <= e[2] ELSE t = e
NotFound == 5
IsResult(r, ok, d) == IF ok THEN r.code = 0 /\ r.d = d ELSE r.code # 0
TGet == /\ IsEvent("get") /\ UNCHANGED state
        /\ LET n == Ev.n r == S!Real(n) IN Accept(IsResult(Ev, S!IsFile(n), IF r = 0 THEN <<>> ELSE data[r]))
TLines == /\ IsEvent("lines") /\ UNCHANGED state
          /\ LET n == Ev.n r == S!Real(n) IN
             Accept(IF Ev.max = 0 /\ S!Exists(n) /\ ~S!IsFile(n) THEN TRUE
                    ELSE IsResult(Ev, S!IsFile(n), IF r = 0 THEN <<>> ELSE S!MaxLines(data[r], Ev.max)))
TReadable == /\ IsEvent("readable") /\ UNCHANGED state
             /\ LET n == Ev.n IN
                Accept(IF ~S!Exists(n) THEN Ev.code # 0 /\ (S!Real(n) # 0 => Ev.code \in {NotFound, 2})
                       ELSE IF S!IsDir(n) THEN Ev.code # 0
                       ELSE IF S!IsFile(n) THEN Ev.code = 0 ELSE TRUE)
TMTime == /\ IsEvent("mtime") /\ UNCHANGED state
          /\ LET n == Ev.n r == S!Real(n) IN
             Accept(IF ~S!Exists(n) THEN Ev.code = NotFound ELSE Ev.code = 0 /\ (S!IsFile(n) \/ S!IsDir(n) => TimeOk(Ev.t, mtime[r])))
\* an artefact: data as read, the name given, the time of the file or the epoch
TArt == /\ IsEvent("art") /\ UNCHANGED state
        /\ LET n == Ev.n r == S!Real(n) IN
           Accept(/\ IF Ev.max = 0 /\ S!Exists(n) /\ ~S!IsFile(n) THEN TRUE
                     ELSE IsResult(Ev, S!IsFile(n), IF r = 0 THEN <<>> ELSE IF Ev.max < 0 THEN data[r] ELSE S!MaxLines(data[r], Ev.max))
                  /\ (Ev.code = 0 => Ev.name /\ Ev.tz = Ev.tzin /\ IF Ev.skip THEN Ev.t = <<0, 0>> ELSE S!IsFile(n) => TimeOk(Ev.t, mtime[r])))
TraceNext == TThrew \/ TReset \/ TSet \/ TFull \/ TRemove \/ TMkDir \/ TLink \/ TTouch \/ TGet \/ TLines \/ TReadable \/ TMTime \/ TArt
TraceSpec == TraceInit /\ [][TraceNext]_<<l, state>>
=============================================================================
