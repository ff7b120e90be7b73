----------------------------- MODULE WireCases ------------------------------
(***************************************************************************)
(* Documents of every type: the document with every optional parameter and *)
(* the one with none, each with up to DEPTH parameters flipped (optional   *)
(* parameters present or absent, lists and maps longer, members without a  *)
(* definition), and each with a required parameter left out.  And every    *)
(* name that is registered for something else, or for nothing, in the      *)
(* place of one that is listed.                                            *)
(***************************************************************************)
EXTENDS Wire, Json, CSV, IOUtils

VARIABLES type, variant, full, flips, drop, name, done
vars == <<type, variant, full, flips, drop, name, done>>

Depth == atoi(IOEnv.DEPTH)

(* variant: the format of the credentials in the document, and how it is written *)
Variants(t) ==
    CASE t \in {"offer", "request"} -> {[f |-> f, how |-> h] : f \in Formats, h \in {""}} \cup {[f |-> "\"ldp_vc\"", how |-> "isolated"], [f |-> "\"jwt_vc_json-ld\"", how |-> "isolated"]}
      [] t \in {"metadata", "profile"} -> {[f |-> f, how |-> ""] : f \in Formats}
      [] t = "credential_response" -> {[f |-> "\"ldp_vc\"", how |-> ""], [f |-> "\"jwt_vc_json\"", how |-> "encoded"]}
      [] t \in {"token_request", "token_request_flat"} -> {[f |-> "", how |-> "pre"], [f |-> "", how |-> "auth"]}
      [] t = "header" -> {[f |-> "", how |-> h] : h \in {"kid", "jwk", "x5c"}}
      [] t = "claims" -> {[f |-> "", how |-> ""], [f |-> "", how |-> "numeric"]}
      [] OTHER -> {[f |-> "", how |-> ""]}

(* Fields that a variant writes *)
Excluded(t, v) ==
    CASE t = "header" -> {"kid", "jwk", "x5c"} \ {v.how}
      [] OTHER -> {}
Fields(s, t, v) ==
    LET all == IF s.k = "obj" THEN s.f
               ELSE IF s.k = "grant" THEN <<Req("grant_type", Text)>> \o (IF v.how = "pre" THEN s.f ELSE <<>>)
               ELSE <<Req("format", Text)>> \o s.f \o (IF s.isolate /\ v.how = "isolated" THEN Isolated ELSE FormatFields(v.f))
    IN  SelectSeq(all, LAMBDA f : f.n \notin Excluded(t, v))

RECURSIVE Params(_, _, _, _)
Params(s, p, t, v) ==
    CASE s.k \in {"obj", "profile", "grant"} ->
           UNION {LET f == Fields(s, t, v)[i] IN If(~f.req, p \o "/" \o f.n) \cup Params(f.s, p \o "/" \o f.n, t, v) : i \in 1..Len(Fields(s, t, v))}
           \cup {p \o "/+"}
      [] s.k \in {"list", "map"} -> {p \o "#"} \cup Params(s.s, p \o "/[]", t, v)
      [] s.k = "either" -> IF v.how = "encoded" THEN {} ELSE {p \o "?"} \cup Params(s.s, p, t, v)
      [] OTHER -> {}
RECURSIVE Required(_, _, _, _)
Required(s, p, t, v) ==
    CASE s.k \in {"obj", "profile", "grant"} ->
           UNION {LET f == Fields(s, t, v)[i] IN If(f.req, p \o "/" \o f.n) \cup Required(f.s, p \o "/" \o f.n, t, v) : i \in 1..Len(Fields(s, t, v))}
      [] s.k \in {"list", "map"} -> Required(s.s, p \o "/[]", t, v)
      [] s.k = "either" -> IF v.how = "encoded" THEN {} ELSE Required(s.s, p, t, v)
      [] OTHER -> {}

On(p) == full # (p \in flips)
Size(p) == IF full THEN (IF p \in flips THEN 3 ELSE 1) ELSE (IF p \in flips THEN 1 ELSE 0)

(* Names that are not listed                                               *)
OtherAlgs == {"\"HS1\"", "\"RS1\"", "\"RS255\"", "\"ECDH-1PU\"", "\"ECDH-ES+A128KW\"", "\"ECDH-ES+A192KW\"", "\"ECDH-ES+A256KW\"",
      "\"ECDH-1PU+A256KW\"", "\"ECDH-SS\"", "\"ECDH\"", "\"A128KW\"", "\"A192KW\"", "\"A256KW\"", "\"dir\"", "\"A128GCMKW\"",
      "\"A256GCMKW\"", "\"A128GCM\"", "\"A256GCM\"", "\"A128CBC-HS256\"", "\"A256CBC-HS512\"", "\"PBES2-HS256+A128KW\"",
      "\"PBES2-HS512+A256KW\"", "\"RSA1_5\"", "\"RSA-OAEP\"", "\"RSA-OAEP-256\"", "\"RSA-OAEP-512\"", "\"ES256K-R\"",
      "\"ESKPS256\"", "\"ESKPS256R\"", "\"ESK256\"", "\"ESP256\"", "\"ESP384\"", "\"ESB256\"", "\"Ed25519\"", "\"Ed448\"",
      "\"EdDSA25519\"", "\"EdBlake2b\"", "\"ESBlake2b\"", "\"ESBlake2bK\"", "\"AleoTestnet1Signature\"", "\"BBS+\"", "\"BBS\"",
      "\"BLS12381G2\"", "\"SM2\"", "\"ML-DSA-44\"", "\"ML-DSA-65\"", "\"Dilithium2\"", "\"SLH-DSA-SHA2-128s\"", "\"HSS-LMS\"",
      "\"GOST\"", "\"X25519\"", "\"P-256\"", "\"P256\"", "\"secp256k1\"", "\"RSA\"", "\"EC\"", "\"OKP\"", "\"oct\"", "\"SHA256\"",
      "\"sha256\"", "\"HMAC\"", "\"HMACSHA256\"", "\"WalnutDSA\"", "\"None\"", "\"NONE\"", "\"null\"", "\"nil\"", "\"no\"",
      "\"hs256\"", "\"es256\"", "\"rs256\"", "\"eddsa\"", "\"EDDSA\"", "\"EdDsa\"", "\"ES256k\"", "\"es256K\"", "\"ES-256\"",
      "\"HS-256\"", "\"RS-256\"", "\"PS-256\"", "\"ES_256\"", "\"HS256/64\"", "\"ECDHES\"", "\"ECDH-es\"", "\"ecdh-es\"",
      "\"ECDH_ES\"", "\"ECDSA\"", "\"RSASSA-PSS\"", "\"\"", "\" \"", "\"none \"", "\"HS224\"", "\"HS256K\"", "\"ES224\"",
      "\"ES128\"", "\"ES521\"", "\"PS224\"", "\"RS224\"", "\"SHA512\"", "\"ED25519\"",
      "\"http://www.w3.org/2001/04/xmldsig-more#rsa-sha256\""}
OtherFormats == {"\"jwt_vc\"", "\"vp\"", "\"ldp_vc_json\"", "\"jwt_vc_json-LD\"", "\"JWT_VC_JSON\"", "\"Jwt_vc_json\"", "\"LDP_VC\"",
      "\"MSO_MDOC\"", "\"mso-mdoc\"", "\"mso_mDoc\"", "\"json-ld\"", "\"anoncreds\"", "\"dc+sd-jwt\"", "\"vc+jwt\"",
      "\"vc+sd-jwt\"", "\"vc+ld+json\"", "\"cwt_vc\"", "\"iso_mdl\"", "\"mso_mdl\"", "\"AnonCreds\"", "\"jwt_json\"",
      "\"ldp_vc_ld\"", "\"ldp_vp\"", "\"jwt_vp_json\"", "\"jwt_vp\"", "\"mdoc\"", "\"mso\"", "\"jwt\"", "\"ldp\"",
      "\"jwt_vc_jsonld\"", "\"jwt_vc_json_ld\"", "\"jwt-vc-json\"", "\"jwt_vc_json+ld\"", "\"sd-jwt\"", "\"ac_vc\"", "\"ac_vp\"",
      "\"ld-vc\"", "\"di_vc\"", "\"vc\"", "\"\"", "\"credential\"", "\"JwtVcJson\"", "\"LdpVc\"", "\"MsoMdoc\"", "\"jwtVcJson\"",
      "\"application/vc+jwt\"", "\"hlindy\"", "\"org.iso.18013.5.1.mDL\""}
OtherGrants == {"\"authorization-code\"", "\"Authorization_code\"", "\"AUTHORIZATION_CODE\"", "\"AuthorizationCode\"",
      "\"authorizationCode\"", "\"authorization_code_pkce\"", "\"code\"", "\"pre-authorized_code\"", "\"pre_authorized_code\"",
      "\"pre-authorized-code\"", "\"PreAuthorizedCode\"", "\"urn:ietf:params:oauth:grant-type:pre-authorized-code\"",
      "\"urn:ietf:params:oauth:grant-type:pre_authorized_code\"", "\"urn:ietf:params:oauth:grant-type:preauthorized_code\"",
      "\"URN:IETF:PARAMS:OAUTH:GRANT-TYPE:PRE-AUTHORIZED_CODE\"", "\"urn:ietf:params:oauth:grant-type:authorization_code\"",
      "\"urn:ietf:params:oauth:grant_type:pre-authorized_code\"", "\"urn:openid:params:grant-type:pre-authorized_code\"",
      "\"urn:ietf:params:oauth:pre-authorized_code\"", "\"client_credentials\"", "\"refresh_token\"", "\"implicit\"",
      "\"password\"", "\"token\"", "\"none\"", "\"\"", "\"device_code\"", "\"urn:ietf:params:oauth:grant-type:jwt-bearer\"",
      "\"urn:ietf:params:oauth:grant-type:device_code\"", "\"urn:ietf:params:oauth:grant-type:token-exchange\"",
      "\"urn:ietf:params:oauth:grant-type:saml2-bearer\"", "\"urn:openid:params:grant-type:ciba\"",
      "\"urn:ietf:params:oauth:grant-type:uma-ticket\"", "\"urn:ietf:params:oauth:grant-type:refresh_token\"", "\"oauth\"",
      "\"openid\"", "\"vp_token\"", "\"id_token\""}
OtherTokens == {"\"mac\"", "\"MAC\"", "\"PoP\"", "\"pop\"", "\"Basic\"", "\"basic\"", "\"JWT\"", "\"jwt\"", "\"access_token\"",
      "\"urn:ietf:params:oauth:token-type:access_token\"", "\"urn:ietf:params:oauth:token-type:jwt\"", "\"example\"", "\"Digest\"",
      "\"DPoP\"", "\"dpop\"", "\"DPOP\"", "\"N_A\"", "\"none\"", "\"Bearer token\"", "\"bearer_token\"", "\"bearer-token\"",
      "\"bearertoken\"", "\"Bearer,DPoP\"", "\"Bearer \"", "\"hotk\"", "\"\"", "\"token\"", "\"HoK\"", "\"GNAP\"", "\"Negotiate\"",
      "\"HOBA\"", "\"Mutual\"", "\"oauth\"", "\"Bear\"", "\"Bearers\"", "\"bearer_jwt\""}
Others(t) == CASE t = "header" -> OtherAlgs
               [] t \in {"request", "profile", "metadata", "offer"} -> OtherFormats
               [] t \in {"token_request", "token_request_flat"} -> OtherGrants
               [] t = "token_response" -> OtherTokens
               [] OTHER -> {}
ASSUME /\ OtherAlgs \cap AlgNames = {} /\ OtherFormats \cap Formats = {} /\ OtherGrants \cap GrantTypes = {}
       /\ \A t \in OtherTokens : ~EqualsIgnoringCase(t, "\"bearer\"")
Listed(v) == IF name = "" THEN v ELSE name

(* i: what distinguishes the stand-ins of the elements of a list *)
RECURSIVE Build(_, _, _)
Build(s, p, i) ==
    CASE s.k \in {"obj", "profile", "grant"} ->
           LET F == SelectSeq(Fields(s, type, variant), LAMBDA f : (f.req \/ On(p \o "/" \o f.n)) /\ drop # p \o "/" \o f.n)
               known == [k \in 1..Len(F) |-> <<F[k].n, IF F[k].n = "format" /\ s.k = "profile" THEN Scalar("s", Listed(variant.f)) ELSE Build(F[k].s, p \o "/" \o F[k].n, i)>>]
           IN  Object(known \o (IF p \o "/+" \in flips THEN
                                    <<<<"{more" \o i \o "}", IF s.rest = "claim" THEN Build([s EXCEPT !.rest = "drop"], p, i \o "'") ELSE Scalar("s", "{$more" \o i \o "}")>>>> ELSE <<>>))
      [] s.k = "list" -> Array([k \in 1..Size(p \o "#") |-> Build(s.s, p \o "/[]", i \o "." \o ToString(k))])
      [] s.k = "map" -> Object([k \in 1..Size(p \o "#") |-> <<"{key" \o p \o i \o "." \o ToString(k) \o "}", Build(s.s, p \o "/[]", i \o "." \o ToString(k))>>])
      [] s.k = "either" -> IF variant.how = "encoded" \/ p \o "?" \in flips THEN Scalar("s", "{$" \o p \o i \o "}") ELSE Build(s.s, p, i)
      [] s.k = "text" -> IF type \in {"token_request", "token_request_flat"} /\ p \in {"/grant_type", "/grant_type/grant_type"}
                         THEN Scalar("s", Listed(IF variant.how = "pre" THEN PreAuthorized ELSE "\"authorization_code\""))
                         ELSE IF type = "token_request_flat" /\ p = "/user_pin" THEN Scalar("s", "\"{pin}\"")
                         ELSE Scalar("s", "{$" \o p \o i \o "}")
      [] s.k = "number" -> Scalar("n", "{#" \o p \o i \o "}")
      [] s.k = "flag" -> Scalar("b", "{?" \o p \o i \o "}")
      [] s.k = "time" -> IF variant.how = "numeric" THEN Scalar("n", "{#" \o p \o "}") ELSE Scalar("s", "{@" \o p \o "}")
      [] s.k = "bearer" -> Scalar("s", Listed("{bearer}"))
      [] s.k = "alg" -> Scalar("s", Listed("{algname}"))
      [] OTHER -> Scalar("?", s.k)                      \* any JSON, or any @context: the replay driver chooses

Init == /\ type \in Types
        /\ variant \in Variants(type)
        /\ full \in BOOLEAN
        /\ flips = {} /\ done = FALSE
        /\ drop \in {""} \cup Required(Schema(type), "", type, variant)
        /\ name \in {""} \cup (IF drop = "" THEN Others(type) ELSE {})
Next == \/ /\ ~done /\ name = "" /\ Cardinality(flips) < (IF drop = "" THEN Depth ELSE 1)
           /\ \E x \in Params(Schema(type), "", type, variant) \ flips : flips' = flips \cup {x}
           /\ UNCHANGED <<type, variant, full, drop, name, done>>
        \/ ~done /\ done' = TRUE /\ UNCHANGED <<type, variant, full, flips, drop, name>>
Spec == Init /\ [][Next]_vars

Doc == Build(Schema(type), "", "")

(* What is left out is found missing, and nothing else is *)
DropFound == LET M == Missing(Schema(type), Doc, "")
             IN  IF drop = "" THEN M = {} ELSE full /\ flips = {} => M # {}
(* A name that is not listed is found, wherever there is one *)
OtherFound == name # "" /\ (full \/ type \notin {"offer", "metadata"}) => Foreign(Schema(type), Doc, "") # {}
(* The document that is written is the document that was read *)
SelfKept == drop = "" => /\ ~HasNull(Schema(type), Doc) /\ ~Twice(Doc)
                         /\ Default(type, <<"", "", "">>) = FALSE
RECURSIVE Compact(_)
Compact(n) == CASE n.t = "o" -> <<"o", [k \in 1..Len(n.m) |-> <<n.m[k][1], Compact(n.m[k][2])>>]>>
                [] n.t = "a" -> <<"a", [k \in 1..Len(n.e) |-> Compact(n.e[k])]>>
                [] OTHER -> <<n.t, n.v>>
Emit == done => CSVWrite("%1$s", <<ToJson([in |-> [type |-> type, doc |-> Compact(Doc)], F |-> {}])>>, IOEnv.CASES)
=============================================================================
