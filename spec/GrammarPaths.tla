---------------------------- MODULE GrammarPaths -----------------------------
(* The automaton of Grammar, explored: every control state with a shortest    *)
(* input that leads to it, and which tokens may come next. Harnesses turn     *)
(* each (state, token) into an input for the real parser.                     *)
EXTENDS Naturals, Sequences, TLC, Json, IOUtils

G == INSTANCE Grammar
L == INSTANCE Lexer

CONSTANT Fine  \* tell apart all column types, or only their classes

Other == {"IDENT", "BACKTICK_IDENT", "SINGLE_QUOTE_IDENT", "DOUBLE_QUOTE_IDENT", "NUMBER", "LPAREN", "RPAREN",
          "COMMA", "SEMICOLON", "EQUAL", "DOT", "SLASH", "DASH", "PLUS", "ILLEGAL", "UNTERM", "EOF"}
Kinds == L!Keywords \cup Other

(* Every token has a text of its own, so that nothing goes to the wrong place *)
Tok(k, n) == [k |-> k, v |-> CASE k \in {"IDENT", "BACKTICK_IDENT", "SINGLE_QUOTE_IDENT", "DOUBLE_QUOTE_IDENT"} -> "n" \o ToString(n)
                               [] k = "NUMBER" -> ToString(n)
                               [] OTHER -> k]

VARIABLES st, path
vars == << st, path >>

Init == st = G!Start("schema") /\ path = << >>
Next == \E k \in Kinds :
          LET s == G!Step(st, Tok(k, Len(path) + 1)) IN
          /\ st.g \notin {"err", "done"}
          /\ s.g # "err"
          /\ st' = s
          /\ path' = Append(path, k)

(* Control: what decides what may come next, and what that means              *)
Class(typ) == IF typ = "" THEN "" ELSE IF Fine THEN typ ELSE ToString(G!Mask(typ))
InIndex == {"field", "ix", "ixcol", "ref"}
Control(s) ==
  << s.g, s.p,
     IF s.g \in InIndex /\ ~(s.g = "field" /\ s.p \in {"", "sym", "constraint"}) THEN s.ix.kind ELSE "",
     IF s.g = "ix" \/ (s.g = "ixcol" /\ s.w = "ix") THEN IF Fine THEN s.ix.typ ELSE ToString(s.ix.typ = "none") ELSE "",
     IF s.g = "ixcol" THEN s.w ELSE "",
     IF s.g = "ref" THEN s.ons ELSE 0,
     IF (s.g = "opt" /\ s.p \in {"eq", "value"}) \/ (s.g = "ref" /\ s.p \in {"action", "setnull", "noaction"}) THEN s.key ELSE "",
     IF s.g = "col" THEN << Class(s.col.typ), s.pos >> ELSE << "", 0 >> >>
View == Control(st)

(* Where each token leads *)
Moves == { k \in Kinds : G!Step(st, Tok(k, Len(path) + 1)).g # "err" }
Report == st.g \in {"err", "done"} \/
  PrintT("@@" \o ToJson([s |-> ToString(Control(st)), path |-> path,
     moves |-> [ k \in Moves |-> LET n == G!Step(st, Tok(k, Len(path) + 1)) IN
                                   IF n.g = "done" THEN "done" ELSE ToString(Control(n)) ]]))
=============================================================================
