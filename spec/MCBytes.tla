------------------------------ MODULE MCBytes ------------------------------
(* Any bytes in a string, of a PO document or of an image: right and wrong  *)
(* UTF-8. The decoders of Text and Mo are checked against the encoder.      *)
EXTENDS Mo, Json
CONSTANTS Target,   \* "po" or "mo"
          Alphabet, MaxLen, Emit

\* One byte of each class that UTF-8 tells apart
Classes == {97, 127, 128, 143, 144, 159, 160, 191, 192, 193, 194, 223, 224, 225, 237, 239,
            240, 241, 244, 245, 255}

VARIABLES bs
Init == bs = <<>>
Next == Len(bs) < MaxLen /\ \E b \in Alphabet : bs' = Append(bs, b)
Spec == Init /\ [][Next]_bs

Where == <<T("msgid \"a\""), T("msgstr \""), T("msgid \"z\""), T("msgstr \"y\"")>>
Doc == Where[1] \o <<LF>> \o Where[2] \o bs \o <<QUOTE, LF>>
       \o Where[3] \o <<LF>> \o Where[4] \o <<LF>>
Read == FoldLeft(LAMBDA ps, l : IF ps.err # <<>> THEN ps ELSE ReadRawLine(ps, l),
                 InitReader, DocLines(Doc))
\* An image with the bytes in a key and in a value
Img == MagicLE \o Concat(Map(<<0, 1, 28, 36, 0, 0>>, LAMBDA x : Word4(x, FALSE)))
       \o Concat(Map(<<Len(bs) + 1, 44, Len(bs), 45>>, LAMBDA x : Word4(x, FALSE)))
       \o <<97>> \o bs \o <<NUL>>

Printed ==
    Emit => IF Target = "po" THEN PrintT(ToJson([b |-> Doc, r |-> EndOfFile(Read)]))
            ELSE PrintT(ToJson([b |-> Img, r |-> MoOutcome(ReadMo(Img))]))

(***************************************************************************)
(* Decoders                                                                *)
(***************************************************************************)
Scalar(c) == (c >= 0 /\ c < 55296) \/ (c > 57343 /\ c <= 1114111)
OneText == DecodeFrom(bs, 1, <<>>) = DecodeWhole(bs)
\* What is decoded is the text that is written so
Written == LET d == DecodeFrom(bs, 1, <<>>)
           IN d[1] => /\ \A i \in 1..Len(d[2]) : Scalar(d[2][i])
                      /\ Utf8(d[2]) = bs
\* Nothing of what is not decoded is lost or made up: replacements stand for
\* one to three bytes, the other characters are in the bytes
LossyRight ==
    LET t == Lossy(bs)
        ok == DecodeFrom(bs, 1, <<>>)
    IN /\ Len(t) <= Len(bs)
       /\ ok[1] <=> (t = ok[2] /\ \A i \in 1..Len(t) : t[i] # Replacement)
       /\ \A i \in 1..Len(t) :
            t[i] # Replacement =>
              \E k \in 0..(Len(bs) - Len(Utf8Of(t[i]))) :
                SubSeq(bs, k + 1, k + Len(Utf8Of(t[i]))) = Utf8Of(t[i])
============================================================================
