-------------------------------- MODULE Vci --------------------------------
(***************************************************************************)
(* The decisions of the library: token evaluation, pre-evaluation and      *)
(* evaluation of a credential request.                                     *)
(*                                                                         *)
(* Every decision has three definitions.                                   *)
(*   ...Faults(in)   the reasons for which the request MUST be refused;    *)
(*   ...May(in)      reasons for which it MAY be refused (the properties   *)
(*                   leave them open);                                     *)
(*   ...ErrTrue(in,e) whether the error e names a reason that is true of   *)
(*                   the request in, with true details.                    *)
(* A request must be accepted when both sets are empty.  Which of several  *)
(* true reasons is named is not constrained: no caller may rely on it.     *)
(*                                                                         *)
(* X...(in) is the decision in the shape of the code, check after check.   *)
(* TLC checks it against the definitions above over every case that the    *)
(* case modules enumerate (Conforms invariants).                           *)
(*                                                                         *)
(* An optional value is a sequence of length 0 or 1.  A PIN is the text of *)
(* its decimal digits.  An error is a record [name, data, inner].          *)
(***************************************************************************)
EXTENDS Clock, Sequences, FiniteSets, TLC

None == <<>>
Some(x) == <<x>>
Has(o) == Len(o) = 1
Get(o) == o[1]

(* A verdict: the set of the reasons for which something is wrong *)
If(b, reason) == IF b THEN {reason} ELSE {}

NoErr == [name |-> "", data |-> [none |-> TRUE], inner |-> <<>>]
Err(n) == [name |-> n, data |-> [none |-> TRUE], inner |-> <<>>]
ErrD(n, d) == [name |-> n, data |-> d, inner |-> <<>>]
ErrI(n, i) == [name |-> n, data |-> [none |-> TRUE], inner |-> i]

-----------------------------------------------------------------------------
(* Text *)

Char(s, i) == SubSeq(s, i, i)
StartsWith(s, p) == Len(s) >= Len(p) /\ SubSeq(s, 1, Len(p)) = p
Contains(s, c) == \E i \in 1..Len(s) : Char(s, i) = c

UpperLetters == <<"A","B","C","D","E","F","G","H","I","J","K","L","M",
                  "N","O","P","Q","R","S","T","U","V","W","X","Y","Z">>
LowerLetters == <<"a","b","c","d","e","f","g","h","i","j","k","l","m",
                  "n","o","p","q","r","s","t","u","v","w","x","y","z">>
LowerChar(c) == IF \E i \in 1..26 : UpperLetters[i] = c
                THEN LowerLetters[CHOOSE i \in 1..26 : UpperLetters[i] = c]
                ELSE c
RECURSIVE LowerFrom(_, _)
LowerFrom(s, i) == IF i > Len(s) THEN "" ELSE LowerChar(Char(s, i)) \o LowerFrom(s, i + 1)
EqualsIgnoringCase(s, lower) == Len(s) = Len(lower) /\ LowerFrom(s, 1) = lower

(* The DID of a DID URL: what precedes its path, query and fragment *)
DidOf(url) ==
    LET cut == {i \in 1..Len(url) : Char(url, i) \in {"/", "?", "#"}}
    IN  IF cut = {} THEN url
        ELSE SubSeq(url, 1, (CHOOSE i \in cut : \A k \in cut : i <= k) - 1)
IsDidUrl(s) == StartsWith(s, "did:") /\ Len(s) > 4

-----------------------------------------------------------------------------
(* Token evaluation.  in = [grant, code, pin, offer, opts]                 *)
(*   grant "auth" or "pre"; offer: optional [auth, pre] with auth optional *)
(*   and pre: optional [code, req]; opts: optional [pin]                   *)

MaxPinDigits == 8

PinRequired(pre) == Has(pre.req) /\ Get(pre.req)
ExpectedPin(in) == IF Has(in.opts) THEN Get(in.opts).pin ELSE None

LongPin(in) == in.grant = "pre" /\ Has(in.pin) /\ Len(Get(in.pin)) > MaxPinDigits

PreGrantFaults(in, pre) ==
         (IF in.code = pre.code THEN {} ELSE {"CodeMismatch"})
    \cup (IF PinRequired(pre) /\ ~Has(in.pin) THEN {"PinMissing"} ELSE {})
    \cup (IF ~PinRequired(pre) /\ Has(in.pin) THEN {"PinUnexpected"} ELSE {})
    \cup (IF Has(in.pin) /\ ~Has(ExpectedPin(in)) THEN {"PinUnverifiable"} ELSE {})
    \cup (IF Has(in.pin) /\ Has(ExpectedPin(in)) /\ in.pin # ExpectedPin(in)
          THEN {"PinMismatch"} ELSE {})

TokenFaults(in) ==
         (IF LongPin(in) THEN {"LongPin"} ELSE {})
    \cup (IF in.grant = "auth" THEN {"AuthGrantType"} ELSE {})
    \cup (IF ~Has(in.offer) THEN {"NoOffer"}
          ELSE LET o == Get(in.offer)
               IN  (IF ~Has(o.auth) /\ ~Has(o.pre) THEN {"NoGrant"} ELSE {})
              \cup (IF Has(o.auth) /\ ~Has(o.pre) /\ in.grant = "pre" THEN {"GrantNotOffered"} ELSE {})
              \cup (IF Has(o.pre) /\ in.grant = "pre" THEN PreGrantFaults(in, Get(o.pre)) ELSE {}))

GrantNames(g) == IF g = "pre" THEN {"pre_authorized_code_flow", "urn:ietf:params:oauth:grant-type:pre-authorized_code"}
                 ELSE {"authorized_code_flow", "authorization_code"}

GrantTypeErrTrue(in, e, offered) ==
    /\ e.name = "InvalidGrantType"
    /\ in.grant # offered
    /\ e.data.requested_grant_type \in GrantNames(in.grant)
    /\ Len(e.data.accepted_grant_type) = 1
    /\ e.data.accepted_grant_type[1] \in GrantNames(offered)

PreGrantErrTrue(in, pre, e) ==
    LET F == PreGrantFaults(in, pre)
    IN  CASE e.name = "InvalidPreAuthorizedCodeFlowValues" ->
               /\ e.data.should_pin_be_supplied = PinRequired(pre)
               /\ e.data.does_code_match = (in.code = pre.code)
               /\ F \cap {"CodeMismatch", "PinMissing", "PinUnexpected"} # {}
          [] e.name = "OptionsAreRequiredForEvaluation" -> "PinUnverifiable" \in F
          [] e.name = "UserPinMismatch" -> "PinMismatch" \in F
          [] OTHER -> FALSE

TokenErrTrue(in, e) ==
    LET F == TokenFaults(in)
        o == Get(in.offer)
    IN  CASE e.name = "ValidationError" -> "LongPin" \in F
          [] e.name = "AuthorizedFlowNotSupported" -> "AuthGrantType" \in F
          [] e.name = "CredentialOfferMustBeSupplied" -> "NoOffer" \in F
          [] e.name = "NoFlowSupportedInCredentialOffer" -> "NoGrant" \in F
          [] e.name = "InvalidGrantType" ->
               /\ Has(in.offer)
               /\ \/ Has(o.auth) /\ ~Has(o.pre) /\ GrantTypeErrTrue(in, e, "auth")
                  \/ Has(o.pre) /\ ~Has(o.auth) /\ GrantTypeErrTrue(in, e, "pre")
          [] e.name = "InvalidAuthorizedAndPreAuthorizedCodeFlow" ->
               /\ Has(in.offer) /\ Has(o.auth) /\ Has(o.pre)
               /\ Len(e.inner) = 2
               /\ GrantTypeErrTrue(in, e.inner[1], "auth")
               /\ PreGrantErrTrue(in, Get(o.pre), e.inner[2])
          [] OTHER -> /\ Has(in.offer) /\ Has(o.pre) /\ in.grant = "pre"
                      /\ PreGrantErrTrue(in, Get(o.pre), e)

(* The code: one check after the other *)
XPreGrant(in, pre) ==
    IF Has(in.pin) /\ ~Has(ExpectedPin(in)) THEN Err("OptionsAreRequiredForEvaluation")
    ELSE IF Has(in.pin) /\ in.pin # ExpectedPin(in) THEN Err("UserPinMismatch")
    ELSE IF Has(in.pin) = PinRequired(pre) /\ in.code = pre.code THEN NoErr
    ELSE ErrD("InvalidPreAuthorizedCodeFlowValues",
              [should_pin_be_supplied |-> PinRequired(pre), does_code_match |-> in.code = pre.code])
XAuthGrant == ErrD("InvalidGrantType", [requested_grant_type |-> "pre_authorized_code_flow",
                                        accepted_grant_type |-> <<"authorized_code_flow">>])
XToken(in) ==
    IF LongPin(in) THEN Err("ValidationError")
    ELSE IF in.grant = "auth" THEN Err("AuthorizedFlowNotSupported")
    ELSE IF ~Has(in.offer) THEN Err("CredentialOfferMustBeSupplied")
    ELSE LET o == Get(in.offer)
         IN  IF ~Has(o.auth) /\ ~Has(o.pre) THEN Err("NoFlowSupportedInCredentialOffer")
             ELSE IF ~Has(o.pre) THEN XAuthGrant
             ELSE IF ~Has(o.auth) THEN XPreGrant(in, Get(o.pre))
             ELSE IF XPreGrant(in, Get(o.pre)) = NoErr THEN NoErr
             ELSE ErrI("InvalidAuthorizedAndPreAuthorizedCodeFlow", <<XAuthGrant, XPreGrant(in, Get(o.pre))>>)

XTokenConforms(in) ==
    LET e == XToken(in)
    IN  IF e = NoErr THEN TokenFaults(in) = {} ELSE TokenErrTrue(in, e)

-----------------------------------------------------------------------------
(* The proof.  j = [nseg, hok, bok, h, b, sig, keys]                       *)
(*   nseg  number of dot-separated segments                                *)
(*   hok   first segment is base64url of a JSON header with a text typ and *)
(*         a text alg; bok: second segment is base64url of a JSON claims   *)
(*         set with every required claim of the right type                 *)
(*   keys  number of key references (kid, jwk, x5c) in the header          *)
(*   h     [typ, alg, kid, jwk, x5c, extra]                                *)
(*   b     [iss, aud, sub, iat, nonce, nbf, exp, extra]                    *)

ProofTyp == "openid4vci-proof+jwt"
SignatureAlgs == {"RS256", "RS384", "RS512", "ES256", "ES384", "ES512", "PS256", "PS384", "PS512", "EdDSA", "ES256K"}
OpenAlgs == {"ECDH-ES"}        \* neither a signature, nor none, nor a MAC: left open

Shape(j) == (IF j.nseg \in {2, 3} THEN {} ELSE {"Segments"})
       \cup (IF j.hok THEN {} ELSE {"Header"})
       \cup (IF j.bok THEN {} ELSE {"Claims"})

HeaderFaults(j) ==
         (IF EqualsIgnoringCase(j.h.typ, ProofTyp) THEN {} ELSE {"Typ"})
    \cup (IF j.h.alg \in SignatureAlgs \cup OpenAlgs THEN {} ELSE {"Alg"})
    \cup (IF j.keys > 1 THEN {"KeyRefs"} ELSE {})

(* Faults that both evaluation steps see *)
ProofFaults(p) ==
         (IF EqualsIgnoringCase(p.ptype, "jwt") THEN {} ELSE {"ProofType"})
    \cup (IF Shape(p.jwt) # {} THEN Shape(p.jwt) ELSE HeaderFaults(p.jwt))
Malformed == {"Segments", "Header", "Claims"}
TypeFaults == {"ProofType", "Typ", "Alg"} \cup Malformed
ValidationFaults == TypeFaults \cup {"KeyRefs", "Metadata"}

(* The verification methods of the document that a key id names *)
Named(doc, kid) == {i \in 1..Len(doc.vms) :
                      \/ doc.vms[i].id = kid
                      \/ DidOf(kid) = doc.id /\ doc.id \o doc.vms[i].id = kid}

KeyFaults(j, doc) ==
    IF j.keys > 1 THEN {}                                   \* KeyRefs, above
    ELSE IF Has(j.h.jwk) \/ Has(j.h.x5c) THEN {"KeyEmbedded"}
    ELSE IF ~Has(j.h.kid) THEN {"KeyNone"}
    ELSE IF ~IsDidUrl(Get(j.h.kid)) THEN {"KidNotDid"}
    ELSE IF ~Has(doc) THEN {"NoDocument"}
    ELSE IF Named(Get(doc), Get(j.h.kid)) = {} THEN {"KidNotInDocument"}
    ELSE IF \A i \in Named(Get(doc), Get(j.h.kid)) : Get(doc).vms[i].key.kind = "none" THEN {"KeyMissing"}
    ELSE {}

WindowFaults(j, now) ==
         (IF Has(j.b.nbf) /\ Before(now, Get(j.b.nbf)) THEN {"NotYetValid"} ELSE {})
    \cup (IF Has(j.b.exp) /\ AtOrBefore(Get(j.b.exp), now) THEN {"NotValidAnymore"} ELSE {})

-----------------------------------------------------------------------------
(* Evaluation.  in = [md, offer, asmeta, proof, cred, doc, opts, now]      *)
(*   md [iss, ids]; offer: optional [auth, pre]; proof: optional           *)
(*   [ptype, jwt]; cred: the requested credential; doc: optional           *)
(*   [id, vms]; opts: optional [nonce, client], nonce: optional            *)
(*   [created, ttl, expected]                                              *)

UniqueIds(ids) == \A i, k \in 1..Len(ids) : i # k /\ Has(ids[i]) /\ Has(ids[k]) => ids[i] # ids[k]

NonceOpts(in) == IF Has(in.opts) THEN Get(in.opts).nonce ELSE None
ClientId(in) == IF Has(in.opts) THEN Get(in.opts).client ELSE None
Expiry(n) == Plus(n.created, n.ttl)
ExpectedNonce(in) == IF Has(NonceOpts(in)) THEN Some(Get(NonceOpts(in)).expected) ELSE None

(* Without an offer the request is refused anyway *)
IssuerFaults(in, j) ==
    IF ~Has(in.opts) \/ ~Has(in.offer) THEN {}
    ELSE IF Has(ClientId(in)) THEN (IF j.b.iss = ClientId(in) THEN {} ELSE {"Issuer"})
    ELSE IF Has(Get(in.offer).auth) \/ ~Has(Get(in.offer).pre)
         THEN (IF Has(j.b.iss) THEN {"Issuer"} ELSE {})
    ELSE {}

EvalFaults(in) ==
         (IF UniqueIds(in.md.ids) THEN {} ELSE {"Metadata"})
    \cup (IF Has(in.offer) THEN {} ELSE {"NoOffer"})
    \cup (IF in.asmeta THEN {"AuthServerMetadata"} ELSE {})
    \cup (IF Has(NonceOpts(in)) /\ Before(Expiry(Get(NonceOpts(in))), in.now) THEN {"NonceExpired"} ELSE {})
    \cup (IF ~Has(in.proof) THEN {"NoProof"}
          ELSE LET p == Get(in.proof)
                   j == p.jwt
               IN  ProofFaults(p)
              \cup (IF Shape(j) # {} THEN {}
                    ELSE (IF Some(j.b.nonce) = ExpectedNonce(in) THEN {} ELSE {"Nonce"})
                    \cup IssuerFaults(in, j)
                    \cup (IF j.b.aud = in.md.iss THEN {} ELSE {"Audience"})
                    \cup WindowFaults(j, in.now)
                    \cup KeyFaults(j, in.doc)))

(* Reasons for which a request may, but need not, be refused *)
EvalMay(in) ==
    IF ~Has(in.proof) \/ Shape(Get(in.proof).jwt) # {} THEN {}
    ELSE LET j == Get(in.proof).jwt
         IN  (IF Has(j.sig) THEN {} ELSE {"Unsigned"})
        \cup (IF j.h.alg \in OpenAlgs THEN {"OpenAlg"} ELSE {})
        \cup (IF Has(j.h.kid) /\ Has(in.doc)
                 /\ \E i \in Named(Get(in.doc), Get(j.h.kid)) : Get(in.doc).vms[i].key.kind # "okp"
              THEN {"KeyKind"} ELSE {})

KeyErrNames == {"NoKeyFoundInProof", "NoDidDocumentProvidedForKidAsDid", "UnableToTransformIntoDid",
                "UnableToResolveDidInDidDocument", "UnableToMapVerificationMethodToJwk",
                "UnableToTransformIntoJoseItem", "UnsupportedAlgorithm", "EdDSAHasNoXCoordinate",
                "ESXXXHasNoXOrYCoordinate", "UnsupportedKeyTypeInJwtHeader"}

(* Errors about the proof; F the faults and M the open reasons of the call *)
JwtErrTrue(in, F, M, e) ==
    LET j == Get(in.proof).jwt
        n == e.name
        d == e.data
    IN  CASE n = "ValidationError" -> F \cap (ValidationFaults \ {"Metadata"}) # {} \/ "OpenAlg" \in M
          [] n = "NotYetValid" -> "NotYetValid" \in F /\ d.valid_from = Get(j.b.nbf) /\ d.now = in.now
          [] n = "NotValidAnymore" -> "NotValidAnymore" \in F /\ d.valid_until = Get(j.b.exp) /\ d.now = in.now
          [] n = "NonceMismatch" -> "Nonce" \in F /\ d.expected_nonce = ExpectedNonce(in) /\ d.actual_nonce = j.b.nonce
          [] n = "IssuerMismatch" -> "Issuer" \in F /\ d.expected_iss_in_jwt = ClientId(in) /\ d.actual_iss_in_jwt = j.b.iss
          [] n = "AudienceMismatch" -> "Audience" \in F /\ d.expected_aud_in_jwt = in.md.iss /\ d.actual_aud_in_jwt = j.b.aud
          [] n = "NoKeyFoundInProof" -> "KeyNone" \in F \/ ("KeyEmbedded" \in F /\ ~j.keytext)
          [] n = "NoDidDocumentProvidedForKidAsDid" -> "NoDocument" \in F
          [] n = "UnableToTransformIntoDid" -> "KidNotDid" \in F /\ d.kid = Get(j.h.kid)
          [] n = "UnableToResolveDidInDidDocument" -> "KidNotInDocument" \in F /\ d.did = Get(j.h.kid)
          [] n = "UnableToMapVerificationMethodToJwk" -> F \cap {"KeyMissing"} # {} \/ "KeyKind" \in M
          [] n = "UnableToTransformIntoJoseItem" -> "KeyEmbedded" \in F
          [] n = "UnsupportedAlgorithm" -> "KeyKind" \in M \/ "KeyEmbedded" \in F \/ "OpenAlg" \in M
          [] n \in {"EdDSAHasNoXCoordinate", "ESXXXHasNoXOrYCoordinate"} -> "KeyKind" \in M \/ "KeyEmbedded" \in F
          [] n = "SignatureNotInJwt" -> "Unsigned" \in M
          [] n = "UnsupportedKeyTypeInJwtHeader" ->
               /\ "KeyEmbedded" \in F
               /\ \/ d.key_name = "jwk" /\ Has(j.h.jwk) /\ d.key_type = Get(j.h.jwk)
                  \/ d.key_name = "x5c" /\ Has(j.h.x5c) /\ d.key_type = Get(j.h.x5c)
          [] OTHER -> FALSE

EvalErrTrue(in, e) ==
    LET F == EvalFaults(in)
        n == e.name
    IN  CASE n = "ValidationError" -> F \cap ValidationFaults # {} \/ "OpenAlg" \in EvalMay(in)
          [] n = "JwtError" -> Has(in.proof) /\ Len(e.inner) = 1 /\ JwtErrTrue(in, F, EvalMay(in), e.inner[1])
          [] n = "CredentialOfferMustBeSupplied" -> "NoOffer" \in F
          [] n = "AuthorizationServerMetadataNotSupported" -> "AuthServerMetadata" \in F
          [] n = "CNonceIsExpired" -> /\ "NonceExpired" \in F
                                      /\ e.data.now = in.now
                                      /\ e.data.expiry_timestamp = Expiry(Get(NonceOpts(in)))
          [] n = "NoProofInCredentialRequest" -> "NoProof" \in F
          [] OTHER -> FALSE

(* What an accepted request must report *)
SubjectTrue(in, r) == r.subject = Some(DidOf(Get(Get(in.proof).jwt.h.kid)))
KeyTrue(in, r) == LET j == Get(in.proof).jwt
                  IN  /\ Has(r.pop)
                      /\ \E i \in Named(Get(in.doc), Get(j.h.kid)) :
                            \E k \in 1..Len(Get(in.doc).vms[i].key.bytes) :
                               Get(r.pop).key = Get(in.doc).vms[i].key.bytes[k]
AlgTrue(in, r) == Has(r.pop) /\ Get(r.pop).alg = Get(in.proof).jwt.h.alg
SignatureTrue(in, r) == Has(r.pop) /\ (Has(Get(in.proof).jwt.sig) => Get(r.pop).sig = Get(Get(in.proof).jwt.sig))

(* The message is the signing input of the proof or - as the library does  *)
(* and its tests fix - the JSON text of its header and of its claims       *)
MessageTrue(m, j) ==
    \/ m.text = j.input
    \/ Has(m.json) /\ Get(m.json).h = j.h /\ Get(m.json).b = j.b
(* Known deviation: the JSON text leaves out parameters without a meaning here *)
MessageButExtra(m, j) ==
    /\ Has(m.json)
    /\ Get(m.json).h = [j.h EXCEPT !.extra = <<>>]
    /\ Get(m.json).b = [j.b EXCEPT !.extra = <<>>]

(* The code *)
XKey(j, doc) ==
    IF Has(j.h.kid) THEN
        IF ~IsDidUrl(Get(j.h.kid)) THEN ErrD("UnableToTransformIntoDid", [kid |-> Get(j.h.kid)])
        ELSE IF ~Has(doc) THEN Err("NoDidDocumentProvidedForKidAsDid")
        ELSE IF Named(Get(doc), Get(j.h.kid)) = {} THEN ErrD("UnableToResolveDidInDidDocument", [did |-> Get(j.h.kid)])
        ELSE LET i == CHOOSE i \in Named(Get(doc), Get(j.h.kid)) : \A k \in Named(Get(doc), Get(j.h.kid)) : i <= k
                 key == Get(doc).vms[i].key
             IN  IF key.kind = "none" THEN Err("UnableToMapVerificationMethodToJwk")
                 ELSE IF key.kind = "okp" THEN NoErr ELSE Err("UnsupportedAlgorithm")
    ELSE IF Has(j.h.jwk) THEN (IF j.keytext THEN ErrD("UnsupportedKeyTypeInJwtHeader", [key_name |-> "jwk", key_type |-> Get(j.h.jwk)])
                               ELSE Err("NoKeyFoundInProof"))
    ELSE IF Has(j.h.x5c) THEN (IF j.keytext THEN ErrD("UnsupportedKeyTypeInJwtHeader", [key_name |-> "x5c", key_type |-> Get(j.h.x5c)])
                               ELSE Err("NoKeyFoundInProof"))
    ELSE Err("NoKeyFoundInProof")

Jwt(e) == IF e = NoErr THEN NoErr ELSE ErrI("JwtError", <<e>>)

XProof(in, j) ==
    IF WindowFaults(j, in.now) # {}
    THEN IF "NotYetValid" \in WindowFaults(j, in.now)
         THEN Jwt(ErrD("NotYetValid", [valid_from |-> Get(j.b.nbf), now |-> in.now]))
         ELSE Jwt(ErrD("NotValidAnymore", [valid_until |-> Get(j.b.exp), now |-> in.now]))
    ELSE IF Some(j.b.nonce) # ExpectedNonce(in)
    THEN Jwt(ErrD("NonceMismatch", [expected_nonce |-> ExpectedNonce(in), actual_nonce |-> j.b.nonce]))
    ELSE IF LET o == Get(in.offer)
                validate == Has(ClientId(in)) \/ Has(o.auth) \/ ~(~Has(ClientId(in)) /\ Has(o.pre))
            IN  Has(in.opts) /\ validate /\ j.b.iss # ClientId(in)
    THEN Jwt(ErrD("IssuerMismatch", [expected_iss_in_jwt |-> ClientId(in), actual_iss_in_jwt |-> j.b.iss]))
    ELSE IF j.b.aud # in.md.iss
    THEN Jwt(ErrD("AudienceMismatch", [expected_aud_in_jwt |-> in.md.iss, actual_aud_in_jwt |-> j.b.aud]))
    ELSE Jwt(XKey(j, in.doc))

XEval(in) ==
    IF ~UniqueIds(in.md.ids) THEN Err("ValidationError")
    ELSE IF Has(in.proof) /\ ProofFaults(Get(in.proof)) # {} THEN Err("ValidationError")
    ELSE IF ~Has(in.offer) THEN Err("CredentialOfferMustBeSupplied")
    ELSE IF in.asmeta THEN Err("AuthorizationServerMetadataNotSupported")
    ELSE IF Has(NonceOpts(in)) /\ Before(Expiry(Get(NonceOpts(in))), in.now)
    THEN ErrD("CNonceIsExpired", [now |-> in.now, expiry_timestamp |-> Expiry(Get(NonceOpts(in)))])
    ELSE IF ~Has(in.proof) THEN Err("NoProofInCredentialRequest")
    ELSE XProof(in, Get(in.proof).jwt)

XEvalConforms(in) ==
    LET e == XEval(in)
    IN  IF e = NoErr THEN EvalFaults(in) = {} ELSE EvalErrTrue(in, e)

-----------------------------------------------------------------------------
(* Pre-evaluation.  in = [proof]                                           *)

PreFaults(in) ==
    IF ~Has(in.proof) THEN {}
    ELSE LET p == Get(in.proof)
             j == p.jwt
         IN  ProofFaults(p)
        \cup (IF Shape(j) = {} /\ j.keys = 1 /\ j.keytext /\ (Has(j.h.jwk) \/ Has(j.h.x5c)) THEN {"KeyEmbedded"} ELSE {})
PreMay(in) ==
    IF ~Has(in.proof) \/ Shape(Get(in.proof).jwt) # {} THEN {}
    ELSE LET j == Get(in.proof).jwt
         IN  (IF j.h.alg \in OpenAlgs THEN {"OpenAlg"} ELSE {})
        \cup (IF Has(j.h.kid) /\ ~IsDidUrl(Get(j.h.kid)) THEN {"KidNotDid"} ELSE {})
        \cup (IF j.keys = 1 /\ (Has(j.h.jwk) \/ Has(j.h.x5c)) THEN {"KeyEmbedded"} ELSE {})

PreErrTrue(in, e) ==
    LET F == PreFaults(in) \cup PreMay(in)
    IN  CASE e.name = "ValidationError" -> F \cap (ValidationFaults \cup {"OpenAlg"}) # {}
          [] e.name = "JwtError" -> /\ Has(in.proof) /\ Len(e.inner) = 1
                                    /\ e.inner[1].name \in KeyErrNames \cup {"ValidationError"}
                                    /\ JwtErrTrue(in, F, F, e.inner[1])
          [] OTHER -> FALSE

(* The DID to resolve: that of the key id, if it is a DID URL *)
PreDid(in) ==
    IF ~Has(in.proof) THEN None
    ELSE LET j == Get(in.proof).jwt
         IN  IF Has(j.h.kid) /\ IsDidUrl(Get(j.h.kid)) THEN Some(DidOf(Get(j.h.kid))) ELSE None

XPre(in) ==
    IF ~Has(in.proof) THEN NoErr
    ELSE LET j == Get(in.proof).jwt
         IN  IF ProofFaults(Get(in.proof)) # {} THEN Err("ValidationError")
             ELSE IF Has(j.h.jwk) \/ Has(j.h.x5c)
             THEN (LET e == XKey(j, None) IN IF e.name = "NoKeyFoundInProof" THEN NoErr ELSE Jwt(e))
             ELSE NoErr
XPreConforms(in) ==
    LET e == XPre(in)
    IN  IF e = NoErr THEN PreFaults(in) = {} ELSE PreErrTrue(in, e)
=============================================================================
