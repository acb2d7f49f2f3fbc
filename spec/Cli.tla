-------------------------------- MODULE Cli --------------------------------
(* The command-line tools. A run r is what the command is given:              *)
(*   tool    "schemalex", "schemadiff" or "schemalint"                        *)
(*   badflag a flag that does not exist or has an impossible value            *)
(*   srcs    for each argument "ok", "unresolvable", "unreadable" or          *)
(*           "malformed"                                                      *)
(*   out     where the output goes: "stdout", "file", a file that can not be  *)
(*           created ("uncreatable"), or a place that takes nothing ("full",  *)
(*           "stdoutfull")                                                    *)
(*   want    the output (anything that SameOutput compares)                   *)
(*   empty   whether want has no bytes                                        *)
(* and what comes of it is o: status, stdout, file (its content, << >> if     *)
(* there is none, << c >> otherwise), message (something on stderr), sql      *)
(* (stdout has SQL).                                                          *)
EXTENDS Naturals, Sequences

Arguments(tool) == IF tool = "schemalint" THEN 1 ELSE 2

Usable(r) == ~r.badflag /\ Len(r.srcs) = Arguments(r.tool)
Computes(r) == Usable(r) /\ \A i \in 1..Len(r.srcs) : r.srcs[i] = "ok"
Delivers(r) == r.out \in {"stdout", "file"}
(* writing nothing to a full place may fail or not *)
Open(r) == Computes(r) /\ r.out \in {"full", "stdoutfull"} /\ r.empty

(* "" if o keeps what is promised for r. Same(a, b): a is the output b        *)
Promise(r, o, Same(_, _), nothing) ==
  IF Open(r) /\ ~o.sql THEN ""
  ELSE IF Computes(r) /\ Delivers(r)
  THEN CASE o.status # 0 -> "fails although nothing went wrong"
         [] r.out \in {"stdout"} /\ ~Same(o.stdout, r.want) -> "standard output is not the result"
         [] r.out = "file" /\ o.file = << >> -> "no output file"
         [] r.out = "file" /\ ~Same(o.file[1], r.want) -> "the output file is not the result"
         [] r.out = "file" /\ o.stdout # nothing -> "standard output along with an output file"
         [] OTHER -> ""
  ELSE CASE o.status = 0 -> "reports success"
         [] ~Computes(r) /\ o.sql -> "SQL on standard output of a failed run"
         [] r.out \in {"file", "full", "uncreatable"} /\ o.sql -> "SQL on standard output of a failed run"
         [] (~Computes(r) \/ r.out = "uncreatable") /\ ~o.message -> "no message"
         [] OTHER -> ""
=============================================================================
