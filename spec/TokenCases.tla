----------------------------- MODULE TokenCases -----------------------------
(***************************************************************************)
(* Every abstract token evaluation: the full product of the values below.  *)
(* A text in braces stands for a text the replay driver chooses ("{code~}" *)
(* for one that is close to but different from "{code}").  PINs stand for  *)
(* digit strings; the length of the stand-in decides on which side of the  *)
(* eight-digit bound it lies.                                              *)
(*                                                                         *)
(* A state is a case.  Invariants: the code-shaped decision conforms to    *)
(* the definition, and the properties C01-C03 hold of it.                  *)
(***************************************************************************)
EXTENDS Vci, Json, CSV, IOUtils

VARIABLES c, done

Pins == {None, Some("{pin}"), Some("{pin~}"), Some("{pinlong}"), Some("{pinlong~}")}
Pre == [code : {"{code}"}, req : {None, Some(TRUE), Some(FALSE)}]
Offers == {None} \cup {Some([auth |-> a, pre |-> p]) :
              a \in {None, Some([state |-> None]), Some([state |-> Some("{state}")])},
              p \in {None} \cup {Some(q) : q \in Pre}}
Opts == {None} \cup {Some([pin |-> p]) : p \in Pins}

Inputs == [grant : {"pre"}, code : {"{code}", "{code~}", "{code!}", "{state}", "{pin}"}, pin : Pins, offer : Offers, opts : Opts]
     \cup [grant : {"auth"}, code : {""}, pin : {None}, offer : Offers, opts : Opts]

Init == c \in Inputs /\ done = FALSE
Next == ~done /\ done' = TRUE /\ UNCHANGED c

(* The code-shaped decision is one the definition allows, on every case *)
Conforms == XTokenConforms(c)
(* Acceptance means exactly: the code of the offer, its PIN rule, the right grant *)
AcceptIff == (XToken(c) = NoErr) <=>
    /\ c.grant = "pre" /\ Has(c.offer) /\ Has(Get(c.offer).pre)
    /\ c.code = Get(Get(c.offer).pre).code
    /\ Has(c.pin) = PinRequired(Get(Get(c.offer).pre))
    /\ Has(c.pin) => Has(c.opts) /\ Get(c.opts).pin = c.pin /\ Len(Get(c.pin)) <= MaxPinDigits
(* The definition of the faults agrees with that reading *)
FaultsIff == (TokenFaults(c) = {}) <=> (XToken(c) = NoErr)

Emit == done => CSVWrite("%1$s", <<ToJson([in |-> c, F |-> TokenFaults(c), M |-> {}])>>, IOEnv.CASES)
=============================================================================
