---------------------------- MODULE DigestToolMC ----------------------------
(* Small constants: names with blanks, asterisks, backslashes, line breaks. *)
EXTENDS DigestTool
MCNames == {<<42, 98>>, <<97, 10, 92>>}
MCContents == {1, 2}
MCAlgs == {"x", "y", "z"}
Tab == <<"x", 1>> :> <<48, 97>> @@ <<"x", 2>> :> <<97, 48>> @@ <<"y", 1>> :> <<98, 48, 48>> @@ <<"y", 2>> :> <<98, 48, 49>> @@ <<"z", 1>> :> <<99, 48>> @@ <<"z", 2>> :> <<99, 49>>
\* lines: what is printed is read, and only lines of the given form are
Bytes == {48, 97, 32, 42, 92, 110}
Short == UNION {[1..n -> Bytes] : n \in 0..5}
ASSUME \A s \in Short : Unescape(Escape(s)) = [ok |-> TRUE, name |-> s]
ASSUME \A s \in Short : s # <<>> => ReadLine(Line(<<48, 97>>, s), 2) = [ok |-> TRUE, hex |-> <<48, 97>>, name |-> s]
ASSUME \A s \in Short : LET p == ParseLine(s, 1) IN p.ok => s \in {p.hex \o <<32, m>> \o p.name : m \in {32, 42}} /\ p.name # <<>>
=============================================================================
