-------------------------------- MODULE Text --------------------------------
(* Strings as sequences of one-character strings, and optional values.       *)
(* Text is passed in and out one character per byte; bytes outside of the    *)
(* printable ASCII range are represented by the character U+E000+byte.       *)
EXTENDS Naturals, Sequences

None    == << >>
Some(v) == << v >>

Digits   == {"0", "1", "2", "3", "4", "5", "6", "7", "8", "9"}
Lower    == << "a","b","c","d","e","f","g","h","i","j","k","l","m",
               "n","o","p","q","r","s","t","u","v","w","x","y","z" >>
UpperLtr == << "A","B","C","D","E","F","G","H","I","J","K","L","M",
               "N","O","P","Q","R","S","T","U","V","W","X","Y","Z" >>
LowerSet == { Lower[i] : i \in 1..26 }
Letters  == LowerSet \cup { UpperLtr[i] : i \in 1..26 }
UpMap    == [ c \in LowerSet |-> UpperLtr[CHOOSE i \in 1..26 : Lower[i] = c] ]

UpChar(c) == IF c \in LowerSet THEN UpMap[c] ELSE c
CharAt(s, i) == SubSeq(s, i, i)

RECURSIVE UpperFrom(_, _)
UpperFrom(s, i) == IF i > Len(s) THEN "" ELSE UpChar(CharAt(s, i)) \o UpperFrom(s, i + 1)
Upper(s) == UpperFrom(s, 1)

(* Position after the longest run of digits of s starting at i *)
RECURSIVE SkipDigits(_, _)
SkipDigits(s, i) == IF i <= Len(s) /\ CharAt(s, i) \in Digits THEN SkipDigits(s, i + 1) ELSE i

At(s, i) == IF i <= Len(s) THEN CharAt(s, i) ELSE ""

(* End of the number that starts at i (i is at a digit or at "."), the same  *)
(* rule as the scanner's: digits [ . digits ] [ E [-] digits ]               *)
NumberEnd(s, i) ==
  LET a == SkipDigits(s, i)
      b == IF At(s, a) = "." THEN SkipDigits(s, a + 1) ELSE a
  IN  IF At(s, b) \in {"e", "E"}
      THEN SkipDigits(s, IF At(s, b + 1) = "-" THEN b + 2 ELSE b + 1)
      ELSE b

(* s is the spelling of exactly one number *)
IsNumber(s) ==
  /\ Len(s) > 0
  /\ \/ /\ At(s, 1) \in Digits
        /\ NumberEnd(s, 1) = Len(s) + 1
     \/ /\ At(s, 1) \in {"+", "-"} /\ At(s, 2) \in Digits
        /\ NumberEnd(s, 2) = Len(s) + 1
     \/ /\ At(s, 1) = "." /\ At(s, 2) \in Digits
        /\ LET a == SkipDigits(s, 2) IN
             \* no second "." after a leading one
             /\ At(s, a) # "."
             /\ NumberEnd(s, 2) = Len(s) + 1

(* The elements of two sequences are the same, with multiplicities *)
CountIn(s, x) == LET RECURSIVE C(_) C(i) == IF i > Len(s) THEN 0 ELSE (IF s[i] = x THEN 1 ELSE 0) + C(i + 1) IN C(1)
SameBag(s, t) == Len(s) = Len(t) /\ \A i \in 1..Len(s) : CountIn(s, s[i]) = CountIn(t, s[i])

=============================================================================
