------------------------------ MODULE ErrCases ------------------------------
(***************************************************************************)
(* Abstract error responses, error codes, errors and return objects:       *)
(* every code of both endpoints, every error of every module (with every   *)
(* error that it can wrap), every optional part present or absent, every   *)
(* number of warnings up to three.                                         *)
(***************************************************************************)
EXTENDS Responses, Json, CSV, IOUtils

VARIABLES c, done

Endpoints == {"token", "issuer"}
Details == {"none", "empty", "one", "nested", "many", "nulls"}
ErrorInputs ==
    {[kind |-> "response", endpoint |-> e, code |-> v, description |-> d, uri |-> u, details |-> x] :
        e \in {"token"}, v \in DOMAIN TokenCodes, d \in {None, Some("{$d}")}, u \in {None, Some("{$u}")}, x \in Details}
    \cup
    {[kind |-> "response", endpoint |-> e, code |-> v, description |-> d, uri |-> u, details |-> x] :
        e \in {"issuer"}, v \in DOMAIN IssuerCodes, d \in {None, Some("{$d}")}, u \in {None, Some("{$u}")}, x \in Details}
CodeInputs ==
    UNION {{[kind |-> "name", endpoint |-> e, code |-> v, text |-> ""] : v \in DOMAIN Codes(e)} : e \in Endpoints}
    \cup
    UNION {{[kind |-> "text", endpoint |-> e, code |-> v, text |-> how] :
              v \in DOMAIN TokenCodes \cup DOMAIN IssuerCodes, how \in {"same", "variant", "near"}} : e \in Endpoints}
    \cup {[kind |-> "text", endpoint |-> e, code |-> "", text |-> how] : e \in Endpoints, how \in {"foreign", "random"}}

(* Errors that an error wraps *)
Inner(m, n) ==
    CASE n = "JwtError" -> DOMAIN Numbers("jwt")
      [] n = "InvalidAuthorizedAndPreAuthorizedCodeFlow" -> DOMAIN Numbers("token")
      [] OTHER -> {""}
Modules == {"token", "issuer", "jwt", "validation"}
Errors == UNION {UNION {{[module |-> m, name |-> n, wraps |-> i] : i \in Inner(m, n)} : n \in DOMAIN Numbers(m)} : m \in Modules}
InfoInputs == {[kind |-> "info", module |-> e.module, name |-> e.name, wraps |-> e.wraps] : e \in Errors}
ReturnInputs ==
    {[kind |-> "return", module |-> e.module, name |-> e.name, wraps |-> e.wraps, warnings |-> w] : e \in Errors, w \in 0..3}
    \cup {[kind |-> "return", module |-> m, name |-> "", wraps |-> "", warnings |-> w] : m \in Modules, w \in 0..6}

Init == c \in ErrorInputs \cup CodeInputs \cup InfoInputs \cup ReturnInputs /\ done = FALSE
Next == ~done /\ done' = TRUE /\ UNCHANGED c

(* The names and numbers can be told apart *)
ASSUME Injective == CodesInjective("token") /\ CodesInjective("issuer")
ASSUME NumbersApart == \A m, k \in Modules : \A a \in DOMAIN Numbers(m), b \in DOMAIN Numbers(k) :
                   Numbers(m)[a] = Numbers(k)[b] => m = k /\ a = b
Emit == done => CSVWrite("%1$s", <<ToJson([in |-> c, F |-> {}])>>, IOEnv.CASES)
=============================================================================
