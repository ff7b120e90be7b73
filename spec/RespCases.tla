----------------------------- MODULE RespCases -----------------------------
(***************************************************************************)
(* Abstract success responses.  Token: every combination of present and    *)
(* absent values, each present number small, zero or largest.  Credential: *)
(* every combination of requested format, issued format or token or        *)
(* nothing, nonce, and a proof that is absent, valid or broken in one way. *)
(* Texts in braces are stand-ins for JSON scalars ("{#x}" a number) and    *)
(* texts.                                                                  *)
(***************************************************************************)
EXTENDS Responses, Json, CSV, IOUtils

VARIABLES c, done

OptN == {None, Some("{#n}"), Some("0"), Some("4294967295")}
OptS == {None, Some("{$s}")}
TokenInputs ==
    [kind : {"token"}, access_token : {"{$t}"}, expires_in : OptN, scope : {None, Some("{$scope}")}, c_nonce : {None, Some("{$nonce}")},
     c_nonce_expires_in : OptN, authorization_pending : {None, Some("true"), Some("false")}, interval : {None, Some("{#i}"), Some("0")}]

Formats == {"jwt_vc_json", "jwt_vc_json-ld", "ldp_vc", "mso_mdoc"}
Proof0 == [nseg |-> 3, hok |-> TRUE, bok |-> TRUE, input |-> "", keys |-> 1, keytext |-> TRUE,
        h |-> [typ |-> ProofTyp, alg |-> "EdDSA", kid |-> Some("did:{m}#{frag}"), jwk |-> None, x5c |-> None, extra |-> <<>>],
        b |-> [iss |-> None, aud |-> "{issuer}", sub |-> None, iat |-> <<5, 0, 0>>, nonce |-> "{nonce}", nbf |-> None, exp |-> None, extra |-> <<>>],
        sig |-> Some("{sig}")]
Valid == [ptype |-> "jwt", jwt |-> Proof0]
Proofs == {None, Some(Valid),
           Some([Valid EXCEPT !.ptype = "{ptype~}"]),
           Some([Valid EXCEPT !.jwt.nseg = 1, !.jwt.sig = None]), Some([Valid EXCEPT !.jwt.nseg = 2, !.jwt.sig = None]), Some([Valid EXCEPT !.jwt.nseg = 4]),
           Some([Valid EXCEPT !.jwt.hok = FALSE]), Some([Valid EXCEPT !.jwt.bok = FALSE]),
           Some([Valid EXCEPT !.jwt.h.typ = "{typ~}"]), Some([Valid EXCEPT !.jwt.h.alg = "{alg~}"]),
           Some([Valid EXCEPT !.jwt.h.jwk = Some("{jwk}"), !.jwt.keys = 2]),
           Some([Valid EXCEPT !.jwt.h.kid = None, !.jwt.keys = 0]),
           Some([Valid EXCEPT !.jwt.h.kid = Some("{notdid}")]),
           Some([Valid EXCEPT !.jwt.b.nbf = Some(<<15, 0, 0>>)]),
           Some([Valid EXCEPT !.jwt.b.exp = Some(<<5, 0, 0>>)])}
          \cup {Some([Valid EXCEPT !.jwt.h.alg = a]) : a \in SignatureAlgs \cup OpenAlgs \cup {"none", "HS256", "HS384", "HS512"}}
Nonces == {None} \cup {Some([c_nonce |-> "{$nonce}", expires |-> e]) : e \in OptN}
What == {[what |-> "nothing", credformat |-> "", token |-> ""], [what |-> "token", credformat |-> "", token |-> "{$t}"]}
        \cup {[what |-> "credential", credformat |-> f, token |-> ""] : f \in Formats}
CredInputs ==
    {[kind |-> "cred", format |-> f, proof |-> p, what |-> w.what, credformat |-> w.credformat, token |-> w.token, nonce |-> n] :
        f \in Formats, p \in {None, Some(Valid)}, w \in What, n \in Nonces}
    \cup
    {[kind |-> "cred", format |-> f, proof |-> p, what |-> w.what, credformat |-> w.credformat, token |-> w.token, nonce |-> None] :
        f \in Formats, p \in Proofs, w \in What}

Init == c \in TokenInputs \cup CredInputs /\ done = FALSE
Next == ~done /\ done' = TRUE /\ UNCHANGED c

(* A response states each of its values once *)
Functional(L) == \A a, b \in L : a[1] = b[1] => a = b
Once == IF c.kind = "token" THEN Functional(TokenResponse(c)) ELSE Functional(CredentialResponse(c @@ [cred |-> <<<<"/x", "1">>>>], "\"e\""))
(* Never both a credential and an acceptance token *)
NotBoth == c.kind = "cred" => LET L == CredentialResponse(c @@ [cred |-> <<<<"/x", "1">>>>], "\"e\"")
                              IN  ~(\E a \in L : a[1] = "/acceptance_token") \/ ~(\E a \in L : StartsWith(a[1], "/credential"))
(* A proof that ends up out of its time window is no reason: only its form is *)
WindowFree == c.kind = "cred" /\ Has(c.proof) => (ProofRefused(c) <=> ProofFaults(Get(c.proof)) # {})

F == IF c.kind = "token" THEN If(TokenResponseInvalid(c), "Invalid") ELSE IF Has(c.proof) THEN ProofFaults(Get(c.proof)) ELSE {}
Emit == done => CSVWrite("%1$s", <<ToJson([in |-> c, F |-> F])>>, IOEnv.CASES)
=============================================================================
