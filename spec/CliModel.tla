------------------------------ MODULE CliModel ------------------------------
(* How a command goes about it, in every situation: arguments, sources and    *)
(* output file, which may also be one of the sources.                         *)
EXTENDS Naturals, Sequences, FiniteSets, TLC
CONSTANT Careless \* create the output file first, and print as it goes
C == INSTANCE Cli

Tools == {"schemadiff", "schemalint"}
SrcKinds == {"ok", "unresolvable", "unreadable", "malformed"}
Outs == {"stdout", "file", "uncreatable", "full", "stdoutfull"}
SeqsOf(S, n) == UNION { [1..k -> S] : k \in 0..n }

VARIABLES run,   \* the situation
          alias, \* index of the source that is the output file, or 0
          pc, disk, \* disk[i]: content of source i; "same" until truncated
          file, stdout, message, status, buf
vars == << run, alias, pc, disk, file, stdout, message, status, buf >>

(* the output is a function of what is read *)
Result(seen) == << "result" >> \o seen
Full == [ i \in 1..3 |-> "whole" ]
Init ==
  /\ run \in [tool : Tools, badflag : BOOLEAN, srcs : SeqsOf(SrcKinds, 3), out : Outs, empty : BOOLEAN]
  /\ alias \in 0..Len(run.srcs)
  /\ alias # 0 => run.out = "file" /\ run.srcs[alias] = "ok"
  /\ pc = "args" /\ disk = Full /\ file = (IF alias = 0 THEN << >> ELSE << "whole" >>)
  /\ stdout = << >> /\ message = FALSE /\ status = 99 /\ buf = << >>

N == Len(run.srcs)
Exit(s) == pc' = "end" /\ status' = s /\ message' = (message \/ s # 0)
Keep == UNCHANGED << run, alias >>
Args == /\ pc = "args" /\ Keep /\ UNCHANGED << disk, file, stdout, buf >>
        /\ IF ~C!Usable(run) THEN Exit(1) ELSE pc' = (IF Careless THEN "open" ELSE "read") /\ UNCHANGED << status, message >>
Open == /\ pc = "open" /\ Keep /\ UNCHANGED << stdout, buf >>
        /\ IF run.out = "uncreatable" THEN Exit(1) /\ UNCHANGED << disk, file >>
           ELSE /\ pc' = "read" /\ UNCHANGED << status, message >>
                /\ file' = IF run.out = "file" THEN << << >> >> ELSE file
                /\ disk' = IF run.out = "file" /\ alias # 0 THEN [disk EXCEPT ![alias] = "truncated"] ELSE disk
Read == /\ pc = "read" /\ Keep /\ UNCHANGED << disk, file, stdout >>
        /\ IF \E i \in 1..N : run.srcs[i] # "ok" THEN Exit(1) /\ UNCHANGED buf
           ELSE pc' = "write" /\ buf' = Result(SubSeq(disk, 1, N)) /\ UNCHANGED << status, message >>
Write == /\ pc = "write" /\ Keep /\ UNCHANGED << disk, buf >>
         /\ CASE run.out = "stdout" -> stdout' = buf /\ Exit(0) /\ UNCHANGED file
              [] run.out = "file" -> file' = << buf >> /\ Exit(0) /\ UNCHANGED stdout
              [] run.out = "uncreatable" -> Exit(1) /\ UNCHANGED << file, stdout >>
              [] OTHER -> (Exit(1) \/ (run.empty /\ Exit(0))) /\ UNCHANGED << file, stdout >>
Next == Args \/ Open \/ Read \/ Write
Spec == Init /\ [][Next]_vars /\ WF_vars(Next)

Same(a, b) == a = b
Obs == [status |-> status, stdout |-> stdout, file |-> file, message |-> message, sql |-> stdout # << >>]
R == [tool |-> run.tool, badflag |-> run.badflag, srcs |-> run.srcs, out |-> run.out, empty |-> run.empty, want |-> Result(SubSeq(Full, 1, N))]
Kept == pc = "end" => C!Promise(R, Obs, Same, << >>) = ""
(* nothing is touched before the result is there *)
Untouched == pc # "end" => disk = Full /\ stdout = << >>
Ends == <>(pc = "end")
=============================================================================
