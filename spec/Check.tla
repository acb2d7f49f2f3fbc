------------------------------- MODULE Check --------------------------------
(* Verdicts on what the implementation did. Each case records an input and    *)
(* what was observed; Verdict(case) is "" if the specification allows that.   *)
EXTENDS Naturals, Sequences, TLC, Json, IOUtils

L == INSTANCE Lexer
G == INSTANCE Grammar
M == INSTANCE Migration
C == INSTANCE Canon
E == INSTANCE Emit
S == INSTANCE Source
Q == INSTANCE MySQLSource
K == INSTANCE Cli
P == INSTANCE CallTrace
T == INSTANCE Tables
O == INSTANCE Objects

Cases == ndJsonDeserialize(IOEnv.CASES)
World == JsonDeserialize(IOEnv.WORLD)

-----------------------------------------------------------------------------
(* parse: text (characters), obs *)

(* t is where the input goes wrong; e is the reported error. The context is   *)
(* the end of the text before t: its line, but at most 40 bytes.              *)
LineStart(text, e) ==
  LET nl == { i \in 1..e : text[i] = "\n" } IN IF nl = {} THEN 1 ELSE 1 + CHOOSE i \in nl : \A j \in nl : j <= i

Min(a, b) == IF a < b THEN a ELSE b
Context(text, t, ctx) ==
  LET all == L!Slice(text, 1, t.b - 1)
      own == L!Slice(text, LineStart(text, t.b - 1), t.b - 1)
  IN /\ Len(ctx) <= Len(all)
     /\ Len(ctx) >= Min(40, Len(own))
     /\ Len(ctx) <= 40
     /\ SubSeq(all, Len(all) - Len(ctx) + 1, Len(all)) = ctx

(* The rejected token *)
ErrorAt(text, toks, n, e, file) ==
  LET t == toks[n + 1] IN
  CASE ~e.parse -> "not a ParseError"
    [] e.line # t.line -> "error line is " \o ToString(e.line) \o ", not " \o ToString(t.line)
    [] e.col # t.col -> "error column is " \o ToString(e.col) \o ", not " \o ToString(t.col)
    [] e.eof # (t.k = "EOF") -> "wrong EOF flag"
    [] ~e.quote \/ ~Context(text, t, e.ctx) -> "wrong context"
    [] e.file # file -> "wrong file name"
    [] OTHER -> ""

FirstDiff(a, b) ==
  IF Len(a) # Len(b) THEN "number of statements"
  ELSE LET i == CHOOSE i \in 1..Len(a) : ~C!SameTable(a[i], b[i]) IN
       "table " \o ToString(i) \o
       (IF a[i].cols # b[i].cols
        THEN IF Len(a[i].cols) # Len(b[i].cols) THEN ": number of columns"
             ELSE LET j == CHOOSE j \in 1..Len(a[i].cols) : a[i].cols[j] # b[i].cols[j] IN
                  ": column " \o ToString(<< a[i].cols[j], b[i].cols[j] >>)
        ELSE IF a[i].opts # b[i].opts THEN ": options " \o ToString(<< a[i].opts, b[i].opts >>)
        ELSE IF ~C!SameBag(a[i].idx, b[i].idx) THEN ": indexes " \o ToString(<< a[i].idx, b[i].idx >>)
        ELSE ": name or flags")

ParseVerdict(c) ==
  LET toks == L!Tokens(c.text)
      st   == G!Parse(toks)
      o    == c.obs
  IN CASE c.panic # "" -> "panic"
       [] c.hang -> "does not return"
       [] G!Accepted(st) /\ ~o.ok -> "well-formed input is rejected"
       [] ~G!Accepted(st) /\ o.ok -> "malformed input is accepted (at token " \o ToString(st.n + 1) \o ")"
       [] ~G!Accepted(st) /\ ~o.nil -> "statements are returned along with an error"
       [] ~G!Accepted(st) -> ErrorAt(c.text, toks, st.n, o.err[1], c.file)
       [] ~C!SameSchema(st.out, o.stmts) -> "wrong model: " \o FirstDiff(st.out, o.stmts)
       [] OTHER -> ""

C06(c) == IF G!Accepted(G!Parse(L!Tokens(c.text))) THEN ParseVerdict(c) ELSE ""
C10(c) == IF G!Accepted(G!Parse(L!Tokens(c.text))) THEN "" ELSE ParseVerdict(c)

-----------------------------------------------------------------------------
(* Scanning: toks are the raw tokens of text                                  *)
SameToken(text, t, o) ==
  CASE t.k = "UNTERM" -> IF o.k # "ILLEGAL" THEN "kind " \o o.k \o " of something unterminated" ELSE ""
    [] t.k # o.k -> "kind " \o o.k \o ", not " \o t.k
    [] t.pos # o.pos -> "offset " \o ToString(o.pos) \o ", not " \o ToString(t.pos)
    [] t.line # o.line -> "line " \o ToString(o.line) \o ", not " \o ToString(t.line)
    [] t.k = "EOF" -> ""
    [] t.k = "SPACE" -> IF o.v # L!Slice(text, t.b, t.e) THEN "value" ELSE ""
    [] t.k = "COMMENT_IDENT" -> ""
    [] t.v # o.v -> "value " \o o.v \o ", not " \o t.v
    [] OTHER -> ""

LexVerdict(c) ==
  LET all == L!Lex(c.text)
      \* nothing follows what is unterminated
      u == Len(all) > 1 /\ all[Len(all) - 1].k = "UNTERM"
      toks == IF u THEN SubSeq(all, 1, Len(all) - 1) ELSE all
      n == Len(toks)
  IN CASE c.panic # "" -> "panic: " \o c.panic
       [] c.hang -> "the scanner does not end"
       [] \E i \in 1..(IF n < Len(c.toks) THEN n ELSE Len(c.toks)) : SameToken(c.text, toks[i], c.toks[i]) # "" ->
            LET bad == { i \in 1..(IF n < Len(c.toks) THEN n ELSE Len(c.toks)) : SameToken(c.text, toks[i], c.toks[i]) # "" }
                i == CHOOSE i \in bad : \A j \in bad : i <= j
            IN "token " \o ToString(i) \o ": " \o SameToken(c.text, toks[i], c.toks[i])
       [] n # Len(c.toks) -> "number of tokens: " \o ToString(Len(c.toks)) \o ", not " \o ToString(n)
       [] OTHER -> ""

(* Several layouts of the same tokens: texts, obs *)
KV(toks) == [ i \in 1..Len(toks) |-> << toks[i].k, toks[i].v >> ]
LayoutVerdict(c) ==
  LET first == KV(L!Tokens(c.texts[1])) IN
  CASE \E i \in 2..Len(c.texts) : KV(L!Tokens(c.texts[i])) # first -> "?the texts have different tokens"
    [] \E i \in 2..Len(c.texts) : c.obs[i].ok # c.obs[1].ok -> "layout decides whether the input is accepted"
    [] \E i \in 2..Len(c.texts) : c.obs[i].stmts # c.obs[1].stmts -> "layout changes the result"
    [] OTHER -> ""

-----------------------------------------------------------------------------
(* Formatting: text, and for each of its statements what was printed          *)
Printed(o) ==
  LET p == G!Parse(L!Tokens(o.out))
      q == G!Script(L!Tokens(o.out \o << ";" >>))
  IN CASE ~o.ok -> "formatting fails"
       [] ~G!Accepted(p) -> "the formatted text is malformed (at token " \o ToString(p.n + 1) \o ")"
       [] ~C!SameSchema(p.out, << o.table >>) -> "the formatted text declares something else: " \o FirstDiff(p.out, << o.table >>)
       [] ~G!Accepted(q) \/ Len(q.out) # 1 -> "the formatted text is no MySQL statement (at token " \o ToString(q.n + 1) \o ")"
       [] ~C!SameTable(C!CanonTable(q.out[1].x[1]), o.table) -> "MySQL reads something else"
       [] ~o.re.ok -> "the formatted text is not accepted"
       [] o.re.stmts # << o.table >> -> "the formatted text is not parsed to the same model"
       [] ~o.ok2 \/ o.out2 # o.out -> "formatting again prints another text"
       [] o.after # o.table -> "formatting changes the model"
       [] OTHER -> ""

FormatVerdict(c) ==
  CASE ~G!Accepted(G!Parse(L!Tokens(c.text))) -> "?the text is malformed"
    [] c.panic # "" -> "panic: " \o c.panic
    [] c.hang -> "does not return"
    [] ~c.ok -> "" \* see C06
    [] \E k \in 1..Len(c.outs) : Printed(c.outs[k]) # "" ->
         Printed(c.outs[CHOOSE k \in 1..Len(c.outs) : Printed(c.outs[k]) # ""])
    [] OTHER -> ""
(* an option whose value is a keyword in backquotes *)
C07keyword(c) ==
  LET v == FormatVerdict(c) IN
  IF v = "the formatted text is malformed (at token 15)" THEN "KF:keyword option value" ELSE v

(* Linting: text, ok, out; ok2, out2 for linting out again; indent            *)
(* Every definition begins on a line of its own, indented                     *)
RECURSIVE Indented(_, _, _, _, _)
Indented(out, indent, toks, i, depth) ==
  IF i > Len(toks) THEN TRUE
  ELSE LET t == toks[i]
           d == IF t.k = "LPAREN" THEN depth + 1 ELSE IF t.k = "RPAREN" THEN depth - 1 ELSE depth
       IN IF d = 1 /\ (t.k = "COMMA" \/ (t.k = "LPAREN" /\ depth = 0))
             /\ L!Slice(out, t.e + 1, toks[i + 1].b - 1) # "\n" \o indent
          THEN FALSE ELSE Indented(out, indent, toks, i + 1, d)

LintVerdict(c) ==
  LET st == G!Parse(L!Tokens(c.text)) IN
  CASE c.panic # "" -> "panic: " \o c.panic
    [] c.hang -> "does not return"
    [] ~G!Accepted(st) -> IF c.ok THEN "a malformed source is linted" ELSE ""
    [] ~c.ok -> "a well-formed source is not linted"
    [] OTHER ->
       LET toks == L!Tokens(c.out)
           p == G!Parse(toks)
           q == G!Script(toks)
       IN CASE ~G!Accepted(p) -> "the linted text is malformed (at token " \o ToString(p.n + 1) \o ")"
            [] ~C!SameSchema(p.out, st.out) -> "the linted text declares something else: " \o FirstDiff(p.out, st.out)
            [] ~G!Accepted(q) -> "the linted text is no sequence of terminated statements (at token " \o ToString(q.n + 1) \o ")"
            [] Len(q.out) # Len(st.out) -> "number of statements"
            [] ~Indented(c.out, c.indent, toks, 1, 0) -> "wrong indentation"
            [] ~c.ok2 \/ c.out2 # c.out -> "linting again prints another text"
            [] OTHER -> ""

-----------------------------------------------------------------------------
(* Normalizing: raw, and for the table and each column before, n1, mod1 (the  *)
(* result), after (the receiver), n2, mod2 (the result normalized again)      *)
NormVerdict(canon, same(_, _), o) ==
  CASE ~same(o.n1, canon) -> "wrong normal form"
    [] ~o.mod1 /\ o.n1 # o.before -> "a modification is not reported"
    [] o.mod1 /\ o.n1 = o.before -> "reports a modification, but there is none"
    [] o.after # o.before -> "changes its receiver"
    [] o.mod2 -> "normalizing again reports a modification"
    [] o.n2 # o.n1 -> "normalizing again changes it"
    [] OTHER -> ""
SameCol(a, b) == a = b
C08(c) ==
  CASE c.panic # "" -> "panic: " \o c.panic
    [] c.hang -> "does not return"
    [] ~C!SameTable(c.r.table.before, c.raw) -> "the model does not hold what it was given: " \o FirstDiff(<< c.r.table.before >>, << c.raw >>)
    [] OTHER ->
       LET t == NormVerdict(C!CanonTable(c.raw), C!SameTable, c.r.table)
           bad == { i \in 1..Len(c.raw.cols) : NormVerdict(C!CanonCol(c.raw.cols[i]), SameCol, c.r.cols[i]) # "" }
       IN IF t # "" THEN "table: " \o t \o
              (IF t = "wrong normal form" THEN ": " \o FirstDiff(<< C!CanonTable(c.raw) >>, << c.r.table.n1 >>) ELSE "")
          ELSE IF bad # {} THEN LET i == CHOOSE i \in bad : TRUE IN
                 "column: " \o NormVerdict(C!CanonCol(c.raw.cols[i]), SameCol, c.r.cols[i]) \o " " \o ToString(<< c.raw.cols[i], c.r.cols[i].n1 >>)
          ELSE IF c.r.owners # c.r.owners2 THEN "takes columns away from its receiver" ELSE ""

-----------------------------------------------------------------------------
(* Diffs: old, new (characters), runs: what was called and what came out.     *)
(* A verdict that begins with "?" says that the case itself is no good.       *)
Read(text) == G!Parse(L!Tokens(text))
ReadScript(text) == G!Script(L!Tokens(text))

(* f(old schema, new schema, statements, run) for each run *)
RECURSIVE EachRun(_, _, _, _)
EachRun(f(_, _, _, _), c, s, k) ==
  IF k > Len(c.runs) THEN ""
  ELSE LET run == c.runs[k]
           st  == ReadScript(run.out)
           ops == st.out
           v   == IF ~run.ok
                  THEN IF run.out # << >> THEN "an error after something was written"
                       ELSE IF M!Undroppable(s[1], s[2]) THEN "" ELSE "possible migration fails"
                  ELSE IF ~G!Accepted(st) THEN "the output is no script (at token " \o ToString(st.n + 1) \o ")"
                  ELSE f(s[1], s[2], ops, run)
       IN IF v # "" THEN (IF k = 1 THEN v ELSE v \o " (run " \o ToString(k) \o ")") ELSE EachRun(f, c, s, k + 1)

DiffVerdict(f(_, _, _, _), c) ==
  LET o == Read(c.old)
      n == Read(c.new)
  IN IF c.panic # "" THEN "panic: " \o c.panic
     ELSE IF c.hang THEN "does not return"
     ELSE IF ~G!Accepted(o) \/ ~G!Accepted(n)
     THEN IF \E k \in 1..Len(c.runs) : c.runs[k].ok THEN "malformed input is accepted"
          ELSE IF \E k \in 1..Len(c.runs) : c.runs[k].out # << >> THEN "an error after something was written" ELSE ""
     ELSE LET lo == M!Load(o.out) ln == M!Load(n.out)
          IN IF ~lo.ok THEN "?old schema: " \o lo.why
             ELSE IF ~ln.ok THEN "?new schema: " \o ln.why
             ELSE EachRun(f, c, << lo.db, ln.db >>, 1)

C01(o, n, ops, run) == M!Result(o, n, ops)
C02(o, n, ops, run) == M!Executable(o, n, ops)
C02strict(o, n, ops, run) ==
  LET r == M!StrictExecAll(o, ops) IN IF r.ok THEN "" ELSE "KF:" \o r.why
C03(o, n, ops, run) == M!LeavesAlone(o, n, ops)
C04(o, n, ops, run) == IF ~M!Equivalent(o, n) THEN "?these schemas are not equivalent" ELSE M!IsEmpty(ops)
(* a schema and itself, formatted, or linted *)
C04self(c) ==
  IF c.panic # "" THEN "panic: " \o c.panic
  ELSE IF c.hang THEN "does not return"
  ELSE IF ~G!Accepted(Read(c.old)) /\ ~G!Accepted(Read(c.new)) THEN "?neither text parses"
  ELSE IF ~c.runs[1].ok THEN "no diff"
  ELSE IF c.runs[1].out # << >> THEN "the difference is not empty"
  ELSE ""
C05(o, n, ops, run) == M!Positions(o, n, ops)

(* run.txn: the option is on *)
C12(o, n, ops, run) ==
  IF run.txn THEN IF ~M!Envelope(ops) THEN "no envelope"
                  ELSE IF ~M!NoEnvelope(M!Inner(ops)) THEN "more than one envelope" ELSE ""
  ELSE IF ~M!NoEnvelope(ops) THEN "an envelope without the option"
  ELSE IF ops = << >> /\ run.out # << >> THEN "output without statements" ELSE ""
Stmts(run) == LET ops == ReadScript(run.out).out IN IF run.txn THEN M!Inner(ops) ELSE ops
C12all(c) ==
  LET v == DiffVerdict(C12, c)
  IN IF v # "" THEN v
     ELSE IF \E k \in 2..Len(c.runs) : c.runs[k].ok # c.runs[1].ok THEN "entry points disagree on success"
     ELSE IF ~c.runs[1].ok THEN ""
     ELSE LET first == Stmts(c.runs[1]) IN
          IF \E k \in 2..Len(c.runs) : ~C!SameBag(first, Stmts(c.runs[k])) THEN "the set of statements varies" ELSE ""

-----------------------------------------------------------------------------
(* Faults: old, new (texts), set: the runs of one operation in environments   *)
(* that fail at different points. badstmts: what is given can not be printed. *)
Malformed(text) == ~G!Accepted(Read(text))
C13(c) ==
  LET op == c.op
      bad == CASE c.badstmts -> TRUE
               [] op = "format" -> FALSE
               [] op = "lint" -> Malformed(c.old)
               [] OTHER -> Malformed(c.old) \/ Malformed(c.new)
      b == E!Begin(IF op = "diff" THEN "all" ELSE "stream", c.set.need, c.set.total, bad \/ c.set.total < 0)
      wrong == { k \in 1..Len(c.set.runs) : E!Follow(b, c.set.runs[k].ev, 1) # 0 }
  IN IF c.panic # "" THEN "panic: " \o c.panic
     ELSE IF c.hang THEN "does not return"
     ELSE IF wrong = {} THEN ""
     ELSE LET k == CHOOSE k \in wrong : \A j \in wrong : k <= j
              r == c.set.runs[k]
              n == E!Follow(b, r.ev, 1)
          IN c.set.what \o ": fault " \o r.mode \o " at " \o ToString(r.at) \o ": "
             \o (IF n > Len(r.ev) THEN "no return"
                 ELSE IF r.ev[n].e = "return" THEN "returns success"
                 ELSE r.ev[n].e \o " that is not allowed (event " \o ToString(n) \o ")")

(* Copying a source *)
C14copy(c) ==
  IF c.panic # "" THEN "panic: " \o c.panic
  ELSE IF c.hang THEN "does not return"
  ELSE LET n == S!CopyFollow(S!CopyStart, c.ev, 1) IN
       IF n = 0 THEN "" ELSE "copying: event " \o ToString(n) \o " is not allowed: "
         \o (IF n <= Len(c.ev) THEN ToString(c.ev[n]) ELSE "no return")

(* Resolving a source string in a world: got is the content delivered,        *)
(* "error", or "neither"                                                      *)
C14(c, w) ==
  IF c.panic # "" THEN "panic: " \o c.panic
  ELSE IF c.hang THEN "does not return"
  ELSE IF c.got = "neither" THEN "neither a source nor an error"
  ELSE LET want == S!Content(c.uri, [w EXCEPT !.stdin = c.stdin])
           \* a destination that takes less than the content
           short == c.limit >= 0 /\ \E i \in 1..Len(w.sizes) : w.sizes[i].id = want /\ c.limit < w.sizes[i].size
       IN IF want = "any" THEN ""
          ELSE IF short THEN IF c.got = "error" THEN "" ELSE "the destination fails, but no error is reported for " \o want
          ELSE IF c.got = want THEN "" ELSE "delivers " \o c.got \o " for " \o want

-----------------------------------------------------------------------------
(* Reading the schema of a server                                             *)
C15(c) ==
  IF c.panic # "" THEN "panic: " \o c.panic
  ELSE IF c.hang THEN "does not return"
  ELSE LET n == Q!Follow(Q!Begin, c.ev, 1) IN
       IF n = 0 THEN ""
       ELSE IF n > Len(c.ev) THEN "no return"
       ELSE IF c.ev[n].ok THEN "fault " \o c.fault \o ": returns success, but not the complete schema"
       ELSE IF c.ev[n].out # "" THEN "fault " \o c.fault \o ": part of the schema has been written"
       ELSE "fault " \o c.fault \o ": fails although nothing went wrong"

-----------------------------------------------------------------------------
(* Runs of the commands. << "=" >> stands for exactly what the library prints *)
(* for the same input; statements may come in another order.                  *)
SqlWords == {"CREATE", "ALTER", "DROP", "BEGIN", "COMMIT", "SET", "INSERT"}
RECURSIVE UpperWord(_)
UpperWord(s) == IF s = << >> THEN "" ELSE C!UpChar(s[1]) \o UpperWord(SubSeq(s, 2, Len(s)))
FirstWord(line) ==
  LET sp == { i \in 1..Len(line) : line[i] \in {" ", "\t", ";", "`", "("} }
      e == IF sp = {} THEN Len(line) + 1 ELSE CHOOSE i \in sp : \A j \in sp : i <= j
  IN UpperWord(SubSeq(line, 1, e - 1))
HasSql(text) ==
  \/ text = << "=" >>
  \/ \E i \in 1..Len(text) : (i = 1 \/ text[i - 1] = "\n") /\ text[i] # "\n" /\
        FirstWord(SubSeq(text, i, IF i + 12 < Len(text) THEN i + 12 ELSE Len(text))) \in SqlWords
CliSame(tool, got, want) ==
  \/ got = << "=" >> \/ got = want
  \/ tool # "schemalint" /\ Len(got) = Len(want) /\
       LET a == ReadScript(got) b == ReadScript(want) IN G!Accepted(a) /\ C!SameBag(a.out, b.out)
C17(c) ==
  IF c.hang THEN "does not return"
  ELSE LET o == [status |-> c.o.status, stdout |-> c.o.stdout, file |-> c.o.file, message |-> c.o.message, sql |-> HasSql(c.o.stdout)]
           Same(a, b) == CliSame(c.run.tool, a, b)
       IN K!Promise(c.run, o, Same, << >>)

-----------------------------------------------------------------------------
(* Calls of the parser                                                        *)
C11(c) ==
  IF c.panic # "" THEN "panic: " \o c.panic
  ELSE IF c.hang THEN "does not return"
  ELSE LET n == P!Follow(c.ev) IN
       IF n = 0 THEN "" ELSE IF n > Len(c.ev) THEN "no end" ELSE c.ev[n].e
C11many(c) ==
  IF c.panic # "" THEN "panic: " \o c.panic
  ELSE IF c.hang THEN "does not return"
  ELSE IF P!Independent(c.alone, c.seen) THEN "" ELSE "a call gives something else along with others"
(* a scanner of which only the first tokens are read *)
C11lex(c) ==
  CASE c.panic # "" -> "panic: " \o c.panic
    [] c.hang -> "the scanner does not go on"
    [] c.left -> "the scanner stays although it has been cancelled"
    [] OTHER -> ""

-----------------------------------------------------------------------------
(* Tables that are edited. c.seen: what is seen of each table after each of   *)
(* the edits, or just after the last one.                                     *)
RECURSIVE FirstBad(_, _, _)
FirstBad(f(_), k, n) == IF k > n THEN "" ELSE LET v == f(k) IN IF v # "" THEN v ELSE FirstBad(f, k + 1, n)
SeenRight(c, st, seen, k) ==
  FirstBad(LAMBDA t : LET v == T!TableRight(st, t, c.names, c.defs, seen[t]) IN
                      IF v = "" THEN "" ELSE "table " \o ToString(t) \o " after " \o ToString(k) \o " edits: " \o v, 1, c.n)
RECURSIVE AllRight(_, _, _)
AllRight(c, st, k) ==
  IF k > Len(c.path) THEN ""
  ELSE LET s2 == T!Edit(st, c.path[k])
           v == IF c.every THEN SeenRight(c, s2, c.seen[k], k)
                ELSE IF k = Len(c.path) THEN SeenRight(c, s2, c.seen[1], k) ELSE ""
       IN IF ~T!Possible(st, c.path[k]) THEN "?no such column" ELSE IF v # "" THEN v ELSE AllRight(c, s2, k + 1)
(* Objects built by calls: heap, path, views, fluent                          *)
C19objects(c) ==
  LET want == O!Views(O!DoAll(c.heap, c.path, 1))
      bad == { i \in 1..Len(want) : c.views[i] # want[i] }
  IN CASE c.panic # "" -> "panic: " \o c.panic
       [] c.hang -> "does not return"
       [] Len(c.views) # Len(want) -> "?number of objects"
       [] bad # {} -> LET i == CHOOSE i \in bad : TRUE IN "object " \o ToString(i) \o " shows " \o ToString(c.views[i]) \o ", not " \o ToString(want[i])
       [] ~c.fluent -> "a setter returns something else than its receiver"
       [] OTHER -> ""

(* Parts of a table that was built by calls, each printed by itself           *)
Lit(s) == [ i \in 1..Len(s) |-> SubSeq(s, i, i) ]
Frame(kind, out) ==
  CASE kind = "column" -> Lit("CREATE TABLE `t` ( ") \o out \o Lit(" )")
    [] kind = "index"  -> Lit("CREATE TABLE `t` ( `a` INT , ") \o out \o Lit(" )")
    [] kind = "reference" -> Lit("CREATE TABLE `t` ( `a` INT , FOREIGN KEY ( `a` ) ") \o out \o Lit(" )")
    [] kind = "option" -> Lit("CREATE TABLE `t` ( `a` INT ) ") \o out
    [] OTHER -> out
Bare == [name |-> "t", temp |-> FALSE, ine |-> FALSE, like |-> << >>, cols |-> << >>, idx |-> << >>, opts |-> << >>]
JustA == [name |-> "a", typ |-> "INT", len |-> << >>, dec |-> << >>, uns |-> FALSE, zf |-> FALSE, bin |-> FALSE, cs |-> << >>, co |-> << >>,
          upd |-> << >>, nul |-> "none", def |-> << >>, ai |-> FALSE, uniq |-> FALSE, prim |-> FALSE, key |-> FALSE, com |-> << >>, vals |-> << >>]
WithA == [Bare EXCEPT !.cols = << JustA >>]
OnA(r) == [kind |-> "FOREIGN", sym |-> << >>, name |-> << >>, typ |-> "none", cols |-> << C!IdxCol("a") >>, opts |-> << >>, ref |-> << r >>]
PieceVerdict(kind, table, piece) ==
  LET text == Frame(kind, piece.out)
      p == G!Parse(L!Tokens(text))
      want == << C!CanonTable(table) >>
  IN CASE ~piece.ok -> kind \o " is not printed"
       [] ~G!Accepted(p) -> kind \o " is printed malformed (at token " \o ToString(p.n + 1) \o ")"
       [] ~C!SameSchema(p.out, want) -> kind \o " is printed as something else: " \o FirstDiff(p.out, want)
       [] OTHER -> ""
DatabaseVerdict(c) ==
  LET toks == KV(L!Tokens(c.r.db.out))
      none == IF c.ine THEN << "IF", "NOT", "EXISTS" >> ELSE << >>
      want == << "CREATE", "DATABASE" >> \o none \o << "BACKTICK_IDENT", "SEMICOLON", "EOF" >>
  IN CASE ~c.r.db.ok -> "a database is not printed"
       [] [ i \in 1..Len(toks) |-> toks[i][1] ] # want -> "a database is printed as " \o ToString(toks)
       [] toks[Len(toks) - 2][2] # c.t.name -> "a database is printed with another name"
       [] OTHER -> ""
RECURSIVE FirstOf(_)
FirstOf(s) == IF s = << >> THEN "" ELSE IF Head(s) # "" THEN Head(s) ELSE FirstOf(Tail(s))
C19pieces(c) ==
  CASE c.panic # "" -> "panic: " \o c.panic
    [] c.hang -> "does not return"
    [] c.r.before # c.t -> "the table does not hold what it was given: " \o FirstDiff(<< c.r.before >>, << c.t >>)
    [] c.r.after # c.t -> "printing changes the table"
    [] Len(c.r.cols) # Len(c.t.cols) \/ Len(c.r.idx) # Len(c.t.idx) \/ Len(c.r.opts) # Len(c.t.opts) -> "number of parts"
    [] OTHER ->
       FirstOf(<< PieceVerdict("table", c.t, c.r.table), DatabaseVerdict(c) >>
               \o [ i \in 1..Len(c.t.cols) |-> PieceVerdict("column", [Bare EXCEPT !.cols = << c.t.cols[i] >>], c.r.cols[i]) ]
               \o [ i \in 1..Len(c.t.idx) |-> PieceVerdict("index", [WithA EXCEPT !.idx = << c.t.idx[i] >>], c.r.idx[i]) ]
               \o [ i \in 1..Len(c.t.idx) |-> IF c.t.idx[i].ref = << >> THEN "" ELSE PieceVerdict("reference", [WithA EXCEPT !.idx = << OnA(c.t.idx[i].ref[1]) >>], c.r.refs[i]) ]
               \o [ i \in 1..Len(c.t.idx) |-> IF c.t.idx[i].ref = << >> THEN "" ELSE LET v == PieceVerdict("reference", [WithA EXCEPT !.idx = << OnA(c.t.idx[i].ref[1]) >>], c.r.strs[i]) IN IF v = "" THEN "" ELSE "as a string, " \o v ]
               \o [ i \in 1..Len(c.t.opts) |-> PieceVerdict("option", [WithA EXCEPT !.opts = << c.t.opts[i] >>], c.r.opts[i]) ])

(* Operations on shared schemas: each has the result that it has alone, and   *)
(* the schemas say what they said                                             *)
(* A list of statements is printed as its statements are                      *)
Alone(c, e) == LET o == IF e.op = "each" THEN "print" ELSE e.op
                   F == { k \in 1..Len(c.fresh) : c.fresh[k].op = o /\ c.fresh[k].a = e.a /\ c.fresh[k].b = e.b } IN c.fresh[CHOOSE k \in F : TRUE].res
C20readers(c) ==
  LET bad == { k \in 1..Len(c.ev) : c.ev[k].res # Alone(c, c.ev[k]) }
      touched == { k \in 1..Len(c.ev) : c.ev[k].view # c.view }
  IN CASE c.panic # "" -> "panic: " \o c.panic
       [] c.hang -> "does not return"
       [] bad # {} -> LET k == CHOOSE k \in bad : \A o \in bad : k <= o IN
            "operation " \o ToString(k) \o " (" \o c.ev[k].op \o ") has another result than it has alone"
       [] touched # {} -> LET k == CHOOSE k \in touched : \A o \in touched : k <= o IN
            "operation " \o ToString(k) \o " (" \o c.ev[k].op \o ") changes the schemas"
       [] ~c.gone -> "goroutines are left behind"
       [] c.found # c.first -> "a statement is not found by its ID: " \o ToString(c.found)
       [] OTHER -> ""

C18history(c) ==
  IF c.panic # "" THEN "panic: " \o c.panic
  ELSE IF c.hang THEN "does not return"
  ELSE AllRight(c, T!Start(1..c.n, 1..Len(c.names)), 1)
(* IDs say neither more nor less than definitions *)
C18ids(c) ==
  IF c.panic # "" THEN "panic: " \o c.panic
  ELSE IF c.hang THEN "does not return"
  ELSE IF \E i \in 1..Len(c.ids) : c.ids[i] = "(varies)" THEN "the ID of an index varies"
  ELSE LET mean == C!MeanIdxs(c.idx)
           bad == { p \in (1..Len(c.idx)) \X (1..Len(c.idx)) : p[1] < p[2] /\ ((c.ids[p[1]] = c.ids[p[2]]) # (mean[p[1]] = mean[p[2]])) }
           badcol == { p \in (1..Len(c.cols)) \X (1..Len(c.cols)) : p[1] < p[2] /\ ((c.colids[p[1]] = c.colids[p[2]]) # (c.cols[p[1]] = c.cols[p[2]])) }
       IN IF bad # {} THEN LET p == CHOOSE p \in bad : TRUE IN
                           (IF c.ids[p[1]] = c.ids[p[2]] THEN "different indexes with the same ID: " ELSE "an index with two IDs: ")
                           \o ToString(<< c.idx[p[1]], c.idx[p[2]] >>)
          ELSE IF badcol # {} THEN LET p == CHOOSE p \in badcol : TRUE IN "IDs of columns " \o ToString(<< c.cols[p[1]], c.cols[p[2]] >>)
          ELSE ""
C18together(c) ==
  IF c.panic # "" THEN "panic: " \o c.panic
  ELSE IF c.hang THEN "does not return"
  ELSE CASE ~C!SameBag(c.r.added, c.r.cols) -> "columns lost or there twice: " \o ToString(c.r.cols)
         [] c.shared /\ ~C!SameBag(c.r.added, c.r.other) -> "the other table changed"
         [] c.r.wrong # << >> -> "wrong answer: " \o c.r.wrong[1]
         [] ~T!Linearizable(c.r.ops) -> "no order of the calls explains the answers"
         [] OTHER -> ""

-----------------------------------------------------------------------------
Verdict(c) ==
  CASE c.kind = "parse" -> ParseVerdict(c)
    [] c.kind = "C06" -> C06(c)
    [] c.kind = "C10" -> C10(c)
    [] c.kind = "C09" -> LexVerdict(c)
    [] c.kind = "C09layout" -> LayoutVerdict(c)
    [] c.kind = "C07" -> FormatVerdict(c)
    [] c.kind = "C07keyword" -> C07keyword(c)
    [] c.kind = "C16" -> LintVerdict(c)
    [] c.kind = "C08" -> C08(c)
    [] c.kind = "C01" -> DiffVerdict(C01, c)
    [] c.kind = "C02" -> DiffVerdict(C02, c)
    [] c.kind = "C02strict" -> DiffVerdict(C02strict, c)
    [] c.kind = "C03" -> DiffVerdict(C03, c)
    [] c.kind = "C04" -> DiffVerdict(C04, c)
    [] c.kind = "C04self" -> C04self(c)
    [] c.kind = "C05" -> DiffVerdict(C05, c)
    [] c.kind = "C12" -> C12all(c)
    [] c.kind = "C13" -> C13(c)
    [] c.kind = "C14copy" -> C14copy(c)
    [] c.kind = "C14" -> C14(c, World)
    [] c.kind = "C15" -> C15(c)
    [] c.kind = "C17" -> C17(c)
    [] c.kind = "C11" -> C11(c)
    [] c.kind = "C11many" -> C11many(c)
    [] c.kind = "C11lex" -> C11lex(c)
    [] c.kind = "C18history" -> C18history(c)
    [] c.kind = "C19objects" -> C19objects(c)
    [] c.kind = "C19pieces" -> C19pieces(c)
    [] c.kind = "C20readers" -> C20readers(c)
    [] c.kind = "C18ids" -> C18ids(c)
    [] c.kind = "C18together" -> C18together(c)

VARIABLES i, done
Init == i \in 1..Len(Cases) /\ done = FALSE
Next == /\ ~done
        /\ done' = TRUE
        /\ i' = i
        /\ PrintT("@@" \o ToJson([i |-> Cases[i].i, v |-> Verdict(Cases[i])]))
=============================================================================
