------------------------------ MODULE MC_Stream -----------------------------
(***************************************************************************)
(* Fractions are written one after the other, whitespace between them, and *)
(* read back step by step; and every short text is read.                   *)
(***************************************************************************)
EXTENDS Stream, TLC
CONSTANTS Count, MaxLen

Comps == {0, 1, 12, 305, -7}
Seps == {<<32>>, <<10, 9>>, <<32, 32>>}
Chars == {49, 48, 47, 45, 43, 32, 120}

VARIABLES sent, text, r, got, phase
vars == <<sent, text, r, got, phase>>
Init == sent = <<>> /\ text = <<>> /\ r = Reader(0) /\ got = <<>> /\ phase = "write"

Write == /\ phase = "write" /\ Len(sent) < Count
         /\ \E x \in Comps \X Comps, s \in Seps :
              /\ sent' = Append(sent, x)
              /\ text' = text \o (IF sent = <<>> THEN <<>> ELSE s) \o Written(x)
         /\ UNCHANGED <<r, got, phase>>
Rewind == phase = "write" /\ phase' = "read" /\ UNCHANGED <<sent, text, r, got>>
ReadOne == /\ phase = "read" /\ ~r.failed
           /\ LET o == Read(text, r, "int")
              IN r' = o.r /\ got' = (IF o.r.failed THEN got ELSE Append(got, o.x))
           /\ UNCHANGED <<sent, text, phase>>
\* any text, character by character
Type == /\ phase \in {"write", "type"} /\ sent = <<>> /\ Len(text) < MaxLen
        /\ \E ch \in Chars : text' = Append(text, ch)
        /\ phase' = "type" /\ UNCHANGED <<sent, r, got>>
Next == Write \/ Rewind \/ ReadOne \/ Type

Same1(a, b) == Len(a) = Len(b) /\ \A i \in DOMAIN a : Identical(a[i], b[i])
ReadsBack == phase = "read" => /\ Same1(got, SubSeq(sent, 1, Len(got)))
                               /\ (r.failed => Len(got) = Len(sent))
                               /\ ~r.loose
Progress == (phase = "read" /\ got # <<>> /\ ~r.failed) =>
              /\ At(text, r.pos - 1) \in DecDigit
              /\ At(text, r.pos) \in Space \cup {-1}
\* whatever is read from a typed text is spelled there
Typed == phase = "type" =>
  LET o == Read(text, Reader(0), "int")
      skip == SkipSpace(text, 0)
  IN /\ (~o.r.failed /\ ~o.r.loose) =>
          \E i \in skip + 1..o.r.pos : text[i] = Slash
     /\ (text = <<>> \/ ~HasSlash(text, 0)) => (o.r.failed \/ o.r.loose)
     /\ \A k \in 0..Len(text) : At(text, k) = 120 /\ k = skip => o.r.failed
=============================================================================
