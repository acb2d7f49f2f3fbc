------------------------------- MODULE Source -------------------------------
(* Which object a source string names, and how a source is copied.            *)
(* A string is a sequence of one-character strings, one for each byte.        *)
EXTENDS Text, FiniteSets, SequencesExt

HasPrefix(s, p) == Len(s) >= Len(p) /\ SubSeq(s, 1, Len(p)) = p
From(s, i) == SubSeq(s, i, Len(s))
Chars(s) == [ i \in 1..Len(s) |-> CharAt(s, i) ]
LowerChar(c) == IF c \in Letters \ LowerSet THEN CHOOSE l \in LowerSet : UpMap[l] = c ELSE c

(* scheme ":" with scheme = letter { letter | digit | "+" | "-" | "." }       *)
SchemeChars == Letters \cup Digits \cup {"+", "-", "."}
RECURSIVE SchemeEnd(_, _)
SchemeEnd(s, i) ==
  IF i > Len(s) THEN 0
  ELSE IF s[i] = ":" THEN (IF i > 1 THEN i ELSE 0)
  ELSE IF (i = 1 /\ s[i] \in Letters) \/ (i > 1 /\ s[i] \in SchemeChars) THEN SchemeEnd(s, i + 1) ELSE 0
HasScheme(s) == SchemeEnd(s, 1) > 0

(* Position of the first of the characters in set, or one past the end        *)
RECURSIVE Find(_, _, _)
Find(s, set, i) == IF i > Len(s) THEN i ELSE IF s[i] \in set THEN i ELSE Find(s, set, i + 1)

HexDigits == << "0","1","2","3","4","5","6","7","8","9","a","b","c","d","e","f" >>
IsHex(c) == \E i \in 1..16 : HexDigits[i] = LowerChar(c)
Bad == << "bad" >>
(* Percent decoding. table maps the two (lower case) hexadecimal digits of a  *)
(* byte to its character; plus: "+" is a space                                *)
RECURSIVE Decode(_, _, _)
Decode(s, plus, table) ==
  IF s = << >> THEN << >>
  ELSE IF s[1] = "%"
       THEN IF Len(s) < 3 \/ ~IsHex(s[2]) \/ ~IsHex(s[3]) THEN << "", "bad" >>
            ELSE << table[LowerChar(s[2]) \o LowerChar(s[3])] >> \o Decode(From(s, 4), plus, table)
       ELSE << IF plus /\ s[1] = "+" THEN " " ELSE s[1] >> \o Decode(From(s, 2), plus, table)
IsBad(d) == \E i \in 1..Len(d) : d[i] = ""

(* "//" authority path [ "?" query ] [ "#" fragment ] *)
Split(r) ==
  LET f == Find(r, {"#"}, 1)
      u == SubSeq(r, 1, f - 1)
      q == Find(u, {"?"}, 1)
      h == SubSeq(u, 1, q - 1)
      p == Find(h, {"/"}, 3)
  IN [host |-> SubSeq(h, 3, p - 1), path |-> From(h, p), query |-> From(u, q + 1), frag |-> From(r, f + 1), uri |-> u]

RECURSIVE Pairs(_)
Pairs(q) == IF q = << >> THEN << >>
            ELSE LET a == Find(q, {"&"}, 1) IN << SubSeq(q, 1, a - 1) >> \o Pairs(From(q, a + 1))
Param(q, key, table) ==
  LET ps == SelectSeq(Pairs(q), LAMBDA p : Decode(SubSeq(p, 1, Find(p, {"="}, 1) - 1), TRUE, table) = Chars(key)) IN
  IF ps = << >> THEN << >> ELSE Decode(From(ps[1], Find(ps[1], {"="}, 1) + 1), TRUE, table)
BadQuery(q, table) == \E i \in 1..Len(q) : q[i] = ";" \/ (q[i] = "%" /\ IsBad(Decode(From(q, i), TRUE, table)))

Local == { << >>, Chars("localhost") }
LowerChars(s) == [ i \in 1..Len(s) |-> LowerChar(s[i]) ]
Error == [k |-> "error"]
(* Characters that a URI can not have; table also says which these are        *)
Control(s, table) == \E i \in 1..Len(s) : \E j \in 1..Len(table.control) : s[i] = table.control[j]
(* What the documentation leaves open: user information, other spellings of   *)
(* the local host, escapes in the fragment                                    *)
Unspecified(u) ==
  \/ \E i \in 1..Len(u.host) : u.host[i] \in {"@", "%"}
  \/ u.host \notin Local /\ LowerChars(u.host) \in Local
  \/ \E i \in 1..Len(u.frag) : u.frag[i] = "%"
Resolve(s, table) ==
  IF s = << "-" >> THEN [k |-> "stdin"]
  ELSE IF HasPrefix(s, Chars("mysql://")) THEN [k |-> "mysql", dsn |-> From(s, 9)]
  ELSE IF ~HasScheme(s) THEN [k |-> "file", path |-> s]
  ELSE LET e == SchemeEnd(s, 1)
           scheme == [ i \in 1..(e - 1) |-> LowerChar(s[i]) ]
           r == From(s, e + 1)
           u == Split(r)
           path == Decode(u.path, FALSE, table)
       IN CASE scheme \notin {Chars("file"), Chars("local-git")} -> Error
            [] ~HasPrefix(r, << "/", "/" >>) -> [k |-> "any"]
            [] Control(u.uri, table) -> Error
            [] Unspecified(u) -> [k |-> "any"]
            [] u.host \notin Local \/ IsBad(path) -> Error
            [] scheme = Chars("file") -> IF u.query # << >> THEN [k |-> "any"] ELSE [k |-> "file", path |-> path]
            [] BadQuery(u.query, table) -> Error
            [] OTHER ->
                 LET file == Param(u.query, "file", table) commit == Param(u.query, "commitish", table) IN
                 IF u.path = << >> \/ file = << >> \/ commit = << >> THEN [k |-> "any"] \* not specified
                 ELSE [k |-> "git", dir |-> path, file |-> file, commit |-> commit]

(* The content that s stands for in a world of files and repositories, as an  *)
(* identifier; "error" if there is none                                       *)
Lookup(seq, P(_)) == LET i == { j \in 1..Len(seq) : P(seq[j]) } IN IF i = {} THEN "error" ELSE seq[CHOOSE j \in i : TRUE].id
Content(s, w) ==
  LET t == Resolve(s, w.table) IN
  CASE t.k = "error" -> "error"
    [] t.k = "any" -> "any"
    [] t.k = "stdin" -> w.stdin
    [] t.k = "mysql" -> Lookup(w.mysql, LAMBDA x : x.dsn = t.dsn)
    [] t.k = "file" -> Lookup(w.files, LAMBDA x : x.path = t.path)
    [] t.k = "git" -> Lookup(w.git, LAMBDA x : x.dir = t.dir /\ x.file = t.file /\ x.commit = t.commit)

-----------------------------------------------------------------------------
(* Copying: what has been read (in), what the destination has taken (out)     *)
CopyStart == [in |-> "", out |-> "", eof |-> FALSE, broken |-> FALSE, done |-> ""]
CopyStuck == [done |-> "stuck"]
IsPrefixOf(a, b) == Len(a) <= Len(b) /\ SubSeq(b, 1, Len(a)) = a
CopyStep(c, e) ==
  CASE c.done # "" -> CopyStuck
    [] e.e = "read" ->
         [c EXCEPT !.in = @ \o e.v, !.eof = @ \/ e.f, !.broken = @ \/ ~e.ok]
    [] e.e = "write" ->
         IF ~IsPrefixOf(c.out \o e.v, c.in) THEN CopyStuck
         ELSE [c EXCEPT !.out = @ \o SubSeq(e.v, 1, e.t), !.broken = @ \/ ~e.ok]
    [] e.e = "return" ->
         IF e.ok THEN IF c.eof /\ ~c.broken /\ c.out = c.in THEN [c EXCEPT !.done = "ok"] ELSE CopyStuck
         ELSE IF c.broken THEN [c EXCEPT !.done = "error"] ELSE CopyStuck
RECURSIVE CopyFollow(_, _, _)
CopyFollow(c, evs, i) ==
  IF i > Len(evs) THEN (IF c.done = "" THEN i ELSE 0)
  ELSE LET t == CopyStep(c, evs[i]) IN IF t.done = "stuck" THEN i ELSE CopyFollow(t, evs, i + 1)
=============================================================================
