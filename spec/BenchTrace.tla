----------------------------- MODULE BenchTrace -----------------------------
(* The tree a run of the benchmark generator leaves in its directory, read     *)
(* file by file in any order.  The state collects what has been declared,      *)
(* defined and called, and by whom; the program is complete when all files     *)
(* have been read.                                                            *)
EXTENDS Integers, Sequences, FiniteSets, TLC, Json, IOUtils
Runs == ndJsonDeserialize(IOEnv.TRACE)
Set(s) == {s[k] : k \in 1..Len(s)}
NoDup(s) == Cardinality(Set(s)) = Len(s)
VARIABLES sid, pos, headers, sources, declared, defined, called, needs, scripts, mains, verdict
vars == <<sid, pos, headers, sources, declared, defined, called, needs, scripts, mains, verdict>>
Init ==
  /\ sid \in 1..Len(Runs) /\ pos = 0
  /\ headers = {} /\ sources = {} /\ declared = {} /\ defined = {} /\ called = {} /\ needs = {} /\ scripts = {} /\ mains = {}
  /\ verdict = "ok"
File == Runs[sid].files[pos + 1]
(* functions enter a set only when they are new to it *)
Fresh(names, s) == NoDup(names) /\ Set(names) \cap s = {}
Read(ok) ==
  /\ pos < Len(Runs[sid].files) /\ verdict = "ok"
  /\ pos' = pos + 1 /\ sid' = sid
  /\ verdict' = IF ok THEN "ok" ELSE "bad"
Header ==
  /\ File.kind = "header"
  /\ Read(Fresh(File.declares, declared) /\ File.defines = <<>>)
  /\ headers' = headers \cup {File.name} /\ declared' = declared \cup Set(File.declares)
  /\ UNCHANGED <<sources, defined, called, needs, scripts, mains>>
Source ==
  /\ File.kind = "source"
  /\ Read(Fresh(File.defines, defined) /\ File.includes # <<>>)
  /\ sources' = sources \cup {File.name} /\ defined' = defined \cup Set(File.defines)
  /\ needs' = needs \cup Set(File.includes)
  /\ UNCHANGED <<headers, declared, called, scripts, mains>>
Main ==
  /\ File.kind = "main"
  /\ Read(Fresh(File.calls, called) /\ mains = {})
  /\ called' = called \cup Set(File.calls)
  /\ mains' = {File.name} /\ needs' = needs \cup Set(File.includes)
  /\ UNCHANGED <<headers, sources, declared, defined, scripts>>
Script ==
  /\ File.kind = "script"
  /\ Read(NoDup(File.sources) /\ File.name \notin {s[1] : s \in scripts})
  /\ scripts' = scripts \cup {<<File.name, Set(File.sources)>>}
  /\ UNCHANGED <<headers, sources, declared, defined, called, needs, mains>>
Next == pos < Len(Runs[sid].files) /\ (Header \/ Source \/ Main \/ Script)
Spec == Init /\ [][Next]_vars
Done == pos = Len(Runs[sid].files)
Complete ==
  /\ mains = {"main.cpp"}
  /\ declared = defined /\ defined = called /\ called # {}
  /\ needs \subseteq headers                                   \* every file referred to was written
  /\ Cardinality(scripts) = 2
  /\ \A s \in scripts : s[2] = sources \cup mains
(* nothing outside the directory changed, and the program was built *)
Contained == Runs[sid].outside = <<>>
Built == Runs[sid].uncompiled = <<>> /\ Runs[sid].links
Conformance == verdict = "ok" /\ (Done => Complete /\ Contained /\ Built)
=============================================================================
