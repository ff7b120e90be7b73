----------------------------- MODULE ProofCases -----------------------------
(***************************************************************************)
(* Abstract credential request evaluations.  A case starts from a request  *)
(* that must be accepted and deviates from it in at most Depth places.     *)
(* Texts in braces are stand-ins, as in TokenCases; now is <<10,0,0>>.     *)
(* A state is a case; fields are changed in the order of Fields, so every  *)
(* set of deviations is reached exactly once.                              *)
(***************************************************************************)
EXTENDS Vci, Json, CSV, IOUtils

Depth == IF IOEnv.DEPTH = "1" THEN 1 ELSE IF IOEnv.DEPTH = "2" THEN 2 ELSE IF IOEnv.DEPTH = "3" THEN 3 ELSE 4

VARIABLES c, last, n

Now == <<10, 0, 0>>
Day == 86400
Earlier1ns == <<9, 86399, 999999999>>
Earlier1s == <<9, 86399, 0>>
EarlierDays == <<5, 0, 0>>
Later1ns == <<10, 0, 1>>
Later1s == <<10, 1, 0>>
LaterDays == <<15, 0, 0>>
Times == {"now", "-1ns", "-1s", "-days", "+1ns", "+1s", "+days"}
At(t) == CASE t = "now" -> Now [] t = "-1ns" -> Earlier1ns [] t = "-1s" -> Earlier1s [] t = "-days" -> EarlierDays
           [] t = "+1ns" -> Later1ns [] t = "+1s" -> Later1s [] t = "+days" -> LaterDays

Kid == "did:{m}#{frag}"
Kids == {Kid, "did:{m}/{path}", "did:{m}/{path}#{frag}", "did:{m}?{query}", "did:{m}?{query}#{frag}",
         "did:{m}/{path}?{query}#{frag}", "did:{m}", "did:{m}#", "did:{m}/"}

Fields == <<"grants", "ids", "asmeta", "ptype", "seg", "hdr", "body", "typ", "alg", "keyref", "kid", "doc",
            "vm", "nonce", "client", "iss", "aud", "nbf", "exp", "life", "sub", "extra">>

Values(f) ==
  CASE f = "grants" -> {"pre", "prepin", "auth", "both", "neither", "nooffer"}
    [] f = "ids" -> {"none", "one", "unique", "dup", "dupfar"}
    [] f = "asmeta" -> {"no", "yes"}
    [] f = "ptype" -> {"jwt", "{ptype~}", "absentproof"}
    [] f = "seg" -> {"3", "2", "1", "4", "5"}
    [] f = "hdr" -> {"ok", "bad"}
    [] f = "body" -> {"ok", "bad"}
    [] f = "typ" -> {ProofTyp, "{typ~}"}
    [] f = "alg" -> SignatureAlgs \cup OpenAlgs \cup {"none", "HS256", "HS384", "HS512", "{alg~}"}
    [] f = "keyref" -> {"kid", "none", "kid+jwk", "kid+x5c", "jwk+x5c", "all", "jwktext", "jwkobj", "x5ctext", "x5carr"}
    [] f = "kid" -> Kids \cup {"{notdid}"}
    [] f = "doc" -> {"abs", "rel", "auth", "other", "otherrel", "otherid", "near", "onlynear", "onlyfar",
                         "onlyforeign", "bare", "didonly", "twice", "stripped", "stripped2", "empty", "none"}
    [] f = "vm" -> {"okp", "ec", "nokey", "rsa"}
    [] f = "nonce" -> {"same", "{nonce~}", "{nonce!}", "{code}", "{state}", "nooptions", "noexpected"}
    [] f = "client" -> {"none", "{client}", "did:{m}"}
    [] f = "iss" -> {"none", "{client}", "{client~}", "did:{m}", "{issuer}"}
    [] f = "aud" -> {"{issuer}", "{issuer~}", "{issuer!}", "{client}"}
    [] f = "nbf" -> {"none"} \cup Times
    [] f = "exp" -> {"none"} \cup Times
    [] f = "life" -> {"+1d", "0", "+1ns", "-1ns", "+1s", "-1s", "-1d", "ttl0", "ttl0late", "future"}
    [] f = "sub" -> {"none", "{sub}", "{client}", "did:{m}"}
    [] f = "extra" -> {"none", "header", "claims"}

Base == [grants |-> "pre", ids |-> "unique", asmeta |-> "no", ptype |-> "jwt", seg |-> "3", hdr |-> "ok",
         body |-> "ok", typ |-> ProofTyp, alg |-> "EdDSA", keyref |-> "kid", kid |-> Kid, doc |-> "abs",
         vm |-> "okp", nonce |-> "same", client |-> "none", iss |-> "none", aud |-> "{issuer}",
         nbf |-> "none", exp |-> "none", life |-> "+1d", sub |-> "none", extra |-> "none"]
(* Other requests that must be accepted; they are varied in one place less *)
Bases2 == {[Base EXCEPT !.iss = "{client~}"],
           [Base EXCEPT !.client = "{client}", !.iss = "{client}"],
           [Base EXCEPT !.grants = "auth"],
           [Base EXCEPT !.grants = "neither"],
           [Base EXCEPT !.grants = "both", !.client = "{client}", !.iss = "{client}"],
           [Base EXCEPT !.nbf = "-days", !.exp = "+days", !.sub = "{sub}"],
           [Base EXCEPT !.nbf = "now", !.exp = "+1ns", !.life = "0"],
           [Base EXCEPT !.doc = "rel", !.kid = "did:{m}/{path}?{query}#{frag}"]}

-----------------------------------------------------------------------------
(* The request a choice of values stands for *)

Grants(g) ==
    LET pre(r) == Some([code |-> "{code}", req |-> r])
        auth == Some([state |-> Some("{state}")])
    IN  CASE g = "pre" -> Some([auth |-> None, pre |-> pre(None)])
          [] g = "prepin" -> Some([auth |-> None, pre |-> pre(Some(TRUE))])
          [] g = "auth" -> Some([auth |-> auth, pre |-> None])
          [] g = "both" -> Some([auth |-> auth, pre |-> pre(Some(FALSE))])
          [] g = "neither" -> Some([auth |-> None, pre |-> None])
          [] g = "nooffer" -> None
Ids(i) ==
    CASE i = "none" -> <<>>
      [] i = "one" -> <<None>>
      [] i = "unique" -> <<Some("{idA}"), None, Some("{idB}"), None>>
      [] i = "dup" -> <<Some("{idA}"), Some("{idA}")>>
      [] i = "dupfar" -> <<Some("{idA}"), None, Some("{idB}"), Some("{idA~}"), Some("{idB}")>>

Key(v) ==
    CASE v = "okp" -> [kind |-> "okp", bytes |-> <<"{key}">>]
      [] v = "ec" -> [kind |-> "ec", bytes |-> <<"{key}", "04{key}{keyy}", "02{key}", "03{key}">>]
      [] v = "rsa" -> [kind |-> "rsa", bytes |-> <<"{key}">>]
      [] v = "nokey" -> [kind |-> "none", bytes |-> <<>>]
Decoy(k) == [kind |-> "okp", bytes |-> <<k>>]
Rest(kid) == IF Len(kid) <= 7 THEN "" ELSE SubSeq(kid, 8, Len(kid))    \* what follows did:{m}
Vm(id, rel, key) == [id |-> id, rel |-> rel, key |-> key]
Doc(d, kid, key) ==
    LET near == Vm("did:{m}#{frag~}", "verificationMethod", Decoy("{key1}"))
        far == Vm("did:{m}#{frag!}", "verificationMethod", Decoy("{key2}"))
        foreign == Vm("did:{m~}#{frag}", "assertionMethod", Decoy("{key3}"))
        target(id, rel) == Vm(id, rel, key)
    IN  CASE d = "abs" -> Some([id |-> "did:{m}", vms |-> <<near, target(kid, "verificationMethod"), far, foreign>>])
          [] d = "rel" -> Some([id |-> "did:{m}", vms |-> IF Rest(kid) = "" THEN <<far, target(kid, "verificationMethod")>>
                                                         ELSE <<far, target(Rest(kid), "verificationMethod"), foreign>>])
          [] d = "auth" -> Some([id |-> "did:{m}", vms |-> <<near, target(kid, "authentication")>>])
          [] d = "other" -> Some([id |-> "did:{m~}", vms |-> <<Vm("#{frag}", "verificationMethod", Decoy("{key1}")), foreign>>])
          [] d = "otherid" -> Some([id |-> "did:{m~}", vms |-> <<foreign, target(kid, "verificationMethod")>>])
          [] d = "near" -> Some([id |-> "did:{m}", vms |-> <<near, far, foreign>>])
          [] d = "otherrel" -> Some([id |-> "did:{m~}", vms |-> <<target(Rest(kid), "verificationMethod"), near>>])
          [] d = "onlynear" -> Some([id |-> "did:{m}", vms |-> <<near>>])
          [] d = "onlyfar" -> Some([id |-> "did:{m}", vms |-> <<far>>])
          [] d = "onlyforeign" -> Some([id |-> "did:{m}", vms |-> <<foreign>>])
          [] d = "bare" -> Some([id |-> "did:{m}", vms |-> <<Vm("{frag}", "verificationMethod", Decoy("{key1}"))>>])
          [] d = "didonly" -> Some([id |-> "did:{m}", vms |-> <<Vm("did:{m}", "verificationMethod", Decoy("{key1}")), far>>])
          [] d = "twice" -> Some([id |-> "did:{m}", vms |-> <<near, target(kid, "keyAgreement"), Vm(kid, "authentication", Decoy("{key1}")), far>>])
             \* the key id without its path or query
          [] d = "stripped" -> Some([id |-> "did:{m}", vms |-> <<Vm(IF kid = Kid THEN "did:{m}/{path}#{frag}" ELSE Kid, "verificationMethod", Decoy("{key1}"))>>])
          [] d = "stripped2" -> Some([id |-> "did:{m}", vms |-> <<Vm("did:{m}?{query~}#{frag}", "authentication", Decoy("{key1}")),
                                                                 Vm("did:{m}/{path~}#{frag}", "assertionMethod", Decoy("{key2}"))>>])
          [] d = "empty" -> Some([id |-> "did:{m}", vms |-> <<>>])
          [] d = "none" -> None

Life(l) ==
    LET life(cr, d, s) == [created |-> cr, ttl |-> [d |-> d, s |-> s], expected |-> "{nonce}"]
    IN  CASE l = "+1d" -> life(<<9, 3600, 0>>, 2, 0)
          [] l = "0" -> life(<<9, 0, 0>>, 1, 0)
          [] l = "+1ns" -> life(<<9, 0, 1>>, 1, 0)
          [] l = "-1ns" -> life(<<8, 86399, 999999999>>, 1, 0)
          [] l = "+1s" -> life(<<9, 0, 0>>, 1, 1)
          [] l = "-1s" -> life(<<9, 0, 0>>, 0, 86399)
          [] l = "-1d" -> life(<<8, 0, 0>>, 1, 0)
          [] l = "ttl0" -> life(<<10, 0, 0>>, 0, 0)
          [] l = "future" -> life(<<11, 0, 0>>, 1, 0)
          [] l = "ttl0late" -> life(<<9, 86399, 999999999>>, 0, 0)

OptTime(t) == IF t = "none" THEN None ELSE Some(At(t))
OptText(t) == IF t = "none" THEN None ELSE Some(t)

Jwt0(x) ==
    LET kid == IF x.keyref \in {"kid", "kid+jwk", "kid+x5c", "all"} THEN Some(x.kid) ELSE None
        jwk == IF x.keyref \in {"kid+jwk", "jwk+x5c", "all", "jwktext", "jwkobj"} THEN Some("{jwk}") ELSE None
        x5c == IF x.keyref \in {"kid+x5c", "jwk+x5c", "all", "x5ctext", "x5carr"} THEN Some("{x5c}") ELSE None
    IN  [nseg |-> CASE x.seg = "1" -> 1 [] x.seg = "2" -> 2 [] x.seg = "3" -> 3 [] x.seg = "4" -> 4 [] x.seg = "5" -> 5,
         hok |-> x.hdr = "ok", bok |-> x.body = "ok", input |-> "",
         keys |-> Len(kid) + Len(jwk) + Len(x5c),
         keytext |-> x.keyref \notin {"jwkobj", "x5carr"},
         h |-> [typ |-> x.typ, alg |-> x.alg, kid |-> kid, jwk |-> jwk, x5c |-> x5c,
                extra |-> IF x.extra = "header" THEN <<"{xh}">> ELSE <<>>],
         b |-> [iss |-> OptText(x.iss), aud |-> x.aud, sub |-> OptText(x.sub), iat |-> EarlierDays,
                nonce |-> IF x.nonce \in {"{nonce~}", "{nonce!}", "{code}", "{state}"} THEN x.nonce ELSE "{nonce}",
                nbf |-> OptTime(x.nbf), exp |-> OptTime(x.exp),
                extra |-> IF x.extra = "claims" THEN <<"{xb}">> ELSE <<>>],
         sig |-> IF x.seg \in {"3", "4", "5"} THEN Some("{sig}") ELSE None]

Build(x) ==
    [md |-> [iss |-> "{issuer}", ids |-> Ids(x.ids)],
     offer |-> Grants(x.grants),
     asmeta |-> x.asmeta = "yes",
     proof |-> IF x.ptype = "absentproof" THEN None ELSE Some([ptype |-> x.ptype, jwt |-> Jwt0(x)]),
     cred |-> "{cred}",
     doc |-> Doc(x.doc, x.kid, Key(x.vm)),
     opts |-> IF x.nonce = "nooptions" THEN None
              ELSE Some([nonce |-> IF x.nonce = "noexpected" THEN None ELSE Some(Life(x.life)),
                         client |-> OptText(x.client)]),
     now |-> Now]

-----------------------------------------------------------------------------
Init == /\ n = 0 /\ last = 0
        /\ c \in {Base}
        \/ /\ n = 1 /\ last = 0
           /\ c \in Bases2
Next == /\ n < Depth
        /\ \E i \in last + 1 .. Len(Fields) :
             \E v \in Values(Fields[i]) \ {c[Fields[i]]} :
                /\ c' = [c EXCEPT ![Fields[i]] = v]
                /\ last' = i /\ n' = n + 1
Spec == Init /\ [][Next]_<<c, last, n>>

in == Build(c)

Conforms == XEvalConforms(in)
(* A code-shaped decision refuses whenever it must *)
FaultsIff == (XEval(in) = NoErr) => EvalFaults(in) = {}
(* and accepts whenever no property leaves it open *)
Complete == (EvalFaults(in) = {} /\ EvalMay(in) = {}) => XEval(in) = NoErr
PreConforms == XPreConforms([proof |-> in.proof])
(* Pre-evaluation never names another DID than evaluation reports *)
SameSubject == XEval(in) = NoErr => PreDid([proof |-> in.proof]) = Some(DidOf(Get(Get(in.proof).jwt.h.kid)))
(* Acceptance, said without fault sets *)
AcceptMeans == XEval(in) = NoErr =>
    LET j == Get(in.proof).jwt
    IN  /\ Has(in.offer) /\ ~in.asmeta
        /\ j.b.nonce = Get(NonceOpts(in)).expected
        /\ AtOrBefore(in.now, Expiry(Get(NonceOpts(in))))
        /\ j.b.aud = in.md.iss
        /\ Has(ClientId(in)) => j.b.iss = ClientId(in)
        /\ (~Has(ClientId(in)) /\ Has(Get(in.offer).auth)) => ~Has(j.b.iss)
        /\ j.h.alg \in SignatureAlgs \cup OpenAlgs
        /\ Has(j.b.nbf) => AtOrBefore(Get(j.b.nbf), in.now)
        /\ Has(j.b.exp) => Before(in.now, Get(j.b.exp))
        /\ Has(j.h.kid) /\ ~Has(j.h.jwk) /\ ~Has(j.h.x5c)
        /\ Named(Get(in.doc), Get(j.h.kid)) # {}

Emit == CSVWrite("%1$s", <<ToJson([in |-> in, F |-> EvalFaults(in), M |-> EvalMay(in), n |-> n])>>, IOEnv.CASES)
=============================================================================
