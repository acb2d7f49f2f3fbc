------------------------------ MODULE Pipeline ------------------------------
(* One call of the parser. The scanner runs on its own and sends tokens over  *)
(* a channel of bounded capacity; it closes the channel when it has sent the  *)
(* last one, which is EOF, or something ILLEGAL after which it gives up.      *)
(* The parser receives tokens; from a closed channel it gets the last token   *)
(* again. It may find an error at any token, and it returns at the last one   *)
(* at the latest. Returning cancels the scanner.                              *)
(* The model is explored for every input (tokens good or ILLEGAL, where a     *)
(* single stray character does not end the scan), every place of an error,    *)
(* every number of calls of the same parser at once, and every interleaving.  *)
EXTENDS CallTrace, FiniteSets, TLC
CONSTANTS Capacity,   \* of the channel
          MaxTokens,  \* before the last one
          Calls,      \* set of calls
          Careful,    \* the scanner can be cancelled while it waits
          Last        \* a closed channel yields the last token

Inputs == UNION { { s \o << e >> : s \in [1..n -> {"tok", "stray"}], e \in {"EOF", "UNTERM"} } : n \in 0..MaxTokens }
Stop == {"EOF", "UNTERM"}

VARIABLES input,  \* of each call
          scan,   \* "run", "send" or "gone"
          sent,   \* tokens sent
          chan,   \* what is in the channel
          closed, cancelled,
          parse,  \* "idle", "run", "think", "ok" or "error"
          got     \* tokens received
vars == << input, scan, sent, chan, closed, cancelled, parse, got >>

Init == /\ input \in [Calls -> Inputs]
        /\ scan = [c \in Calls |-> "none"] /\ sent = [c \in Calls |-> 0]
        /\ chan = [c \in Calls |-> << >>] /\ closed = [c \in Calls |-> FALSE] /\ cancelled = [c \in Calls |-> FALSE]
        /\ parse = [c \in Calls |-> "idle"] /\ got = [c \in Calls |-> << >>]

Begin(c) == /\ parse[c] = "idle"
            /\ parse' = [parse EXCEPT ![c] = "run"] /\ scan' = [scan EXCEPT ![c] = "run"]
            /\ UNCHANGED << input, sent, chan, closed, cancelled, got >>

(* The scanner *)
Scan(c) == /\ scan[c] = "run"
           /\ IF cancelled[c] \/ sent[c] = Len(input[c])
              THEN scan' = [scan EXCEPT ![c] = "gone"] /\ closed' = [closed EXCEPT ![c] = TRUE]
              ELSE scan' = [scan EXCEPT ![c] = "send"] /\ UNCHANGED closed
           /\ UNCHANGED << input, sent, chan, cancelled, parse, got >>
Send(c) == /\ scan[c] = "send" /\ Len(chan[c]) < Capacity
           /\ chan' = [chan EXCEPT ![c] = Append(@, input[c][sent[c] + 1])]
           /\ sent' = [sent EXCEPT ![c] = @ + 1]
           /\ scan' = [scan EXCEPT ![c] = "run"]
           /\ UNCHANGED << input, closed, cancelled, parse, got >>
GiveUp(c) == /\ Careful /\ scan[c] = "send" /\ cancelled[c]
             /\ scan' = [scan EXCEPT ![c] = "run"]
             /\ sent' = [sent EXCEPT ![c] = @ + 1]  \* it is lost
             /\ UNCHANGED << input, chan, closed, cancelled, parse, got >>

(* The parser *)
Return(c, what) == parse' = [parse EXCEPT ![c] = what] /\ cancelled' = [cancelled EXCEPT ![c] = TRUE]
Receive(c) ==
  /\ parse[c] = "run"
  /\ \/ /\ chan[c] # << >>
        /\ chan' = [chan EXCEPT ![c] = Tail(@)]
        /\ got' = [got EXCEPT ![c] = Append(@, Head(chan[c]))]
        /\ parse' = [parse EXCEPT ![c] = "think"] /\ UNCHANGED cancelled
     \/ /\ chan[c] = << >> /\ closed[c]
        /\ UNCHANGED << chan, got >>
        /\ IF Last THEN Return(c, "error") ELSE UNCHANGED << parse, cancelled >>
  /\ UNCHANGED << input, scan, sent, closed >>
(* What it makes of the token: it is the end; it is impossible here; it goes  *)
(* on (with what is ILLEGAL only in a statement that is skipped)              *)
Think(c) ==
  /\ parse[c] = "think"
  /\ \/ got[c][Len(got[c])] = "EOF" /\ Return(c, "ok")
     \/ Return(c, "error")
     \/ got[c][Len(got[c])] # "EOF" /\ parse' = [parse EXCEPT ![c] = "run"] /\ UNCHANGED cancelled
  /\ UNCHANGED << input, scan, sent, chan, closed, got >>

Next == \E c \in Calls : Begin(c) \/ Scan(c) \/ Send(c) \/ GiveUp(c) \/ Receive(c) \/ Think(c)
Fair == \A c \in Calls : WF_vars(Scan(c)) /\ WF_vars(Send(c)) /\ WF_vars(GiveUp(c)) /\ WF_vars(Receive(c)) /\ WF_vars(Think(c))
Spec == Init /\ [][Next]_vars /\ Fair

Bounded == \A c \in Calls : Len(chan[c]) <= Capacity
(* what has been received is what has been scanned, in order *)
InOrder == \A c \in Calls : got[c] = SubSeq(input[c], 1, Len(got[c]))
(* success only when everything has been received *)
Complete == \A c \in Calls : parse[c] = "ok" => got[c] = input[c] /\ input[c][Len(input[c])] = "EOF"
Returned(c) == parse[c] \in {"ok", "error"}
Returns == \A c \in Calls : parse[c] = "run" ~> Returned(c)
NoLeak == \A c \in Calls : parse[c] = "run" ~> scan[c] = "gone"

=============================================================================
