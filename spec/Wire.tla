-------------------------------- MODULE Wire --------------------------------
(***************************************************************************)
(* The messages on the wire: their parameters, under the names of the      *)
(* specification (OpenID4VCI 1.0, draft 11), which of them are required,   *)
(* and what reading and writing may do to them.                            *)
(*                                                                         *)
(* A JSON document is a tree [t, v, i, m, e]:                              *)
(*   t "o" object, m its members <<name, tree>>                            *)
(*     "a" array, e its elements                                           *)
(*     "s" "n" "b" "z" text, number, boolean, null; v its JSON text        *)
(*         and i, for a text that is a point in time, that instant         *)
(***************************************************************************)
EXTENDS Vci

Scalar(t, v) == [t |-> t, v |-> v, i |-> None, m |-> <<>>, e |-> <<>>]
Object(m) == [t |-> "o", v |-> "", i |-> None, m |-> m, e |-> <<>>]
Array(e) == [t |-> "a", v |-> "", i |-> None, m |-> <<>>, e |-> e]

At(n, name) == {k \in 1..Len(n.m) : n.m[k][1] = name}
Present(n, name) == n.t = "o" /\ \E k \in At(n, name) : n.m[k][2].t # "z"
Member(n, name) == n.m[CHOOSE k \in At(n, name) : n.m[k][2].t # "z"][2]

-----------------------------------------------------------------------------
(* Schemas.  rest: what happens to members without a definition - "drop"   *)
(* (may be left out), "keep" (kept as they are), "claim" (nested claims)   *)

Text == [k |-> "text"]
Number == [k |-> "number"]
Flag == [k |-> "flag"]
Time == [k |-> "time"]
AnyJson == [k |-> "any"]
Context == [k |-> "context"]           \* an element of a JSON-LD @context: a text or an object
Bearer == [k |-> "bearer"]
Alg == [k |-> "alg"]
List(s) == [k |-> "list", s |-> s]
Map(s) == [k |-> "map", s |-> s]
Obj(f, rest) == [k |-> "obj", f |-> f, rest |-> rest]
Req(n, s) == [n |-> n, req |-> TRUE, s |-> s]
Opt(n, s) == [n |-> n, req |-> FALSE, s |-> s]

AlgNames == {"\"HS256\"", "\"HS384\"", "\"HS512\"", "\"RS256\"", "\"RS384\"", "\"RS512\"", "\"ES256\"", "\"ES384\"", "\"ES512\"",
             "\"PS256\"", "\"PS384\"", "\"PS512\"", "\"EdDSA\"", "\"ES256K\"", "\"ECDH-ES\"", "\"none\""}

Claim == Obj(<<Opt("mandatory", Flag), Opt("value_type", Text),
               Opt("display", List(Obj(<<Opt("name", Text), Opt("locale", Text)>>, "drop")))>>, "claim")
Claims == Map(Claim)
LdpFields == <<Req("@context", List(Context)), Req("types", List(Text)), Opt("credentialSubject", Claims), Opt("order", List(Text))>>
FormatFields(f) ==
    CASE f = "\"jwt_vc_json\"" -> <<Req("types", List(Text)), Opt("credentialSubject", Claims), Opt("order", List(Text))>>
      [] f = "\"jwt_vc_json-ld\"" -> <<Opt("@context", List(Context)), Req("types", List(Text)), Opt("credentialSubject", Claims), Opt("order", List(Text))>>
      [] f = "\"ldp_vc\"" -> LdpFields
      [] f = "\"mso_mdoc\"" -> <<Req("doctype", Text), Opt("claims", Map(Claims)), Opt("order", List(Text))>>
      [] OTHER -> <<>>
Formats == {"\"jwt_vc_json\"", "\"jwt_vc_json-ld\"", "\"ldp_vc\"", "\"mso_mdoc\""}
(* Offers and requests may isolate the description of linked data          *)
Isolated == <<Req("credential_definition", Obj(<<Req("@context", List(Context)), Req("types", List(Text)), Opt("credentialSubject", Claims)>>, "drop"))>>
(* An object whose fields depend on its format, besides the given ones     *)
Profile(f, rest, isolate) == [k |-> "profile", f |-> f, rest |-> rest, isolate |-> isolate]
(* An object whose fields depend on its grant_type                         *)
Grant(f) == [k |-> "grant", f |-> f, rest |-> "drop"]
PreAuthorized == "\"urn:ietf:params:oauth:grant-type:pre-authorized_code\""
GrantTypes == {PreAuthorized, "\"authorization_code\""}
Either(s) == [k |-> "either", s |-> s]                  \* a text, or s

Grants == Obj(<<Opt("authorization_code", Obj(<<Opt("issuer_state", Text)>>, "drop")),
                Opt("urn:ietf:params:oauth:grant-type:pre-authorized_code",
                    Obj(<<Req("pre-authorized_code", Text), Opt("user_pin_required", Flag)>>, "drop"))>>, "drop")
Display == Obj(<<Req("name", Text), Opt("locale", Text), Opt("logo", Obj(<<Opt("url", Text), Opt("alt_text", Text)>>, "drop")),
                 Opt("description", Text), Opt("background_color", Text), Opt("text_color", Text)>>, "drop")
Supported == Profile(<<Opt("id", Text), Opt("cryptographic_binding_methods_supported", List(Text)),
                       Opt("cryptographic_suites_supported", List(Text)), Opt("display", List(Display))>>, "drop", FALSE)

Schema(type) ==
    CASE type = "offer" -> Obj(<<Req("credential_issuer", Text), Req("credentials", List(Either(Profile(<<>>, "drop", TRUE)))),
                                 Opt("grants", Grants)>>, "drop")
      [] type = "metadata" -> Obj(<<Req("credential_issuer", Text), Opt("authorization_server", Text), Req("credential_endpoint", Text),
                                    Opt("batch_credential_endpoint", Text), Req("credentials_supported", List(Supported))>>, "keep")
      [] type = "request" -> Profile(<<Opt("proof", Obj(<<Opt("proof_type", Text), Req("jwt", Text)>>, "drop"))>>, "drop", TRUE)
      [] type = "profile" -> Profile(<<>>, "drop", FALSE)
      [] type = "token_request" -> Obj(<<Req("grant_type", Grant(<<Req("pre_authorized_code", Text), Opt("user_pin", Number)>>))>>, "drop")
      [] type = "token_request_flat" -> Grant(<<Req("pre-authorized_code", Text), Opt("user_pin", Text)>>)
      [] type = "token_response" -> Obj(<<Req("access_token", Text), Req("token_type", Bearer), Opt("expires_in", Number), Opt("scope", Text),
                                          Opt("c_nonce", Text), Opt("c_nonce_expires_in", Number), Opt("authorization_pending", Flag),
                                          Opt("interval", Number)>>, "drop")
      [] type = "credential_response" -> Obj(<<Req("format", Text), Opt("credential", Either(Profile(<<>>, "drop", FALSE))), Opt("acceptance_token", Text),
                                               Opt("c_nonce", Text), Opt("c_nonce_expires_in", Number)>>, "drop")
      [] type = "header" -> Obj(<<Req("typ", Text), Req("alg", Alg), Opt("kid", Text), Opt("jwk", Text), Opt("x5c", Text)>>, "drop")
      [] type = "claims" -> Obj(<<Opt("iss", Text), Req("aud", Text), Opt("sub", Text), Req("iat", Time), Req("nonce", Text),
                                  Opt("nbf", Time), Opt("exp", Time)>>, "drop")
Types == {"offer", "metadata", "request", "profile", "token_request", "token_request_flat", "token_response", "credential_response", "header", "claims"}

(* The fields of an object that is read under a schema *)
FormatOf(n) == IF Present(n, "format") THEN Member(n, "format").v ELSE ""
FieldsOf(s, n) ==
    IF s.k = "obj" THEN s.f
    ELSE IF s.k = "grant"
    THEN <<Req("grant_type", Text)>> \o (IF Present(n, "grant_type") /\ Member(n, "grant_type").v = PreAuthorized THEN s.f ELSE <<>>)
    ELSE <<Req("format", Text)>> \o s.f
         \o (IF s.isolate /\ Present(n, "credential_definition") /\ FormatOf(n) \in {"\"ldp_vc\"", "\"jwt_vc_json-ld\""}
             THEN Isolated ELSE FormatFields(FormatOf(n)))
Names2(f) == {f[i].n : i \in 1..Len(f)}

-----------------------------------------------------------------------------
(* Required parameters that are missing, parameters of another JSON type,  *)
(* and the leaves of the defined parameters <<path, schema path, value>>.  *)
(* Containers count as leaves, null counts as absent.                      *)

RECURSIVE Missing(_, _, _)
Missing(s, n, p) ==
    CASE s.k \in {"obj", "profile", "grant"} ->
           IF n.t # "o" THEN {}
           ELSE UNION {LET f == FieldsOf(s, n)[i]
                       IN  IF Present(n, f.n) THEN Missing(f.s, Member(n, f.n), p \o "/" \o f.n)
                           ELSE If(f.req, p \o "/" \o f.n) : i \in 1..Len(FieldsOf(s, n))}
      [] s.k = "list" -> IF n.t # "a" THEN {} ELSE UNION {Missing(s.s, n.e[i], p \o "/[]") : i \in 1..Len(n.e)}
      [] s.k = "map" -> IF n.t # "o" THEN {} ELSE UNION {Missing(s.s, n.m[i][2], p \o "/{}") : i \in 1..Len(n.m)}
      [] s.k = "either" -> IF n.t = "o" THEN Missing(s.s, n, p) ELSE {}
      [] OTHER -> {}

Digits == {"0", "1", "2", "3", "4", "5", "6", "7", "8", "9"}
RECURSIVE WrongKind(_, _)
WrongKind(s, n) ==
    CASE s.k \in {"obj", "profile", "grant"} ->
           \/ n.t # "o"
           \/ s.k = "profile" /\ Present(n, "format") /\ FormatOf(n) \notin Formats
           \/ \E i \in 1..Len(FieldsOf(s, n)) : LET f == FieldsOf(s, n)[i] IN Present(n, f.n) /\ WrongKind(f.s, Member(n, f.n))
           \/ s.k = "grant" /\ Present(n, "grant_type") /\ Member(n, "grant_type").v \notin GrantTypes
           \/ s.k = "obj" /\ s.rest = "claim" /\ \E i \in 1..Len(n.m) : n.m[i][1] \notin Names2(s.f) /\ WrongKind(s, n.m[i][2])
      [] s.k = "list" -> n.t # "a" \/ \E i \in 1..Len(n.e) : WrongKind(s.s, n.e[i])
      [] s.k = "map" -> n.t # "o" \/ \E i \in 1..Len(n.m) : WrongKind(s.s, n.m[i][2])
      [] s.k = "either" -> n.t # "s" /\ WrongKind(s.s, n)
      [] s.k = "text" -> n.t # "s"
      [] s.k = "number" -> n.t # "n" \/ Len(n.v) > 10 \/ \E i \in 1..Len(n.v) : Char(n.v, i) \notin Digits
      [] s.k = "context" -> n.t \notin {"s", "o"}
      [] s.k = "flag" -> n.t # "b"
      [] s.k = "time" -> n.t # "n" /\ ~(n.t = "s" /\ Has(n.i))
      [] s.k = "bearer" -> n.t # "s" \/ ~EqualsIgnoringCase(n.v, "\"bearer\"")
      [] s.k = "alg" -> n.t # "s" \/ n.v \notin AlgNames
      [] OTHER -> FALSE

(* A text that is none of those the specification lists for its parameter  *)
RECURSIVE Foreign(_, _, _)
Foreign(s, n, p) ==
    CASE s.k \in {"obj", "profile", "grant"} ->
           IF n.t # "o" THEN {}
           ELSE If(s.k = "profile" /\ Present(n, "format") /\ Member(n, "format").t = "s" /\ FormatOf(n) \notin Formats, p \o "/format")
                \cup If(s.k = "grant" /\ Present(n, "grant_type") /\ Member(n, "grant_type").t = "s" /\ Member(n, "grant_type").v \notin GrantTypes, p \o "/grant_type")
                \cup UNION {LET f == FieldsOf(s, n)[i]
                             IN  IF Present(n, f.n) THEN Foreign(f.s, Member(n, f.n), p \o "/" \o f.n) ELSE {} : i \in 1..Len(FieldsOf(s, n))}
      [] s.k = "list" -> IF n.t # "a" THEN {} ELSE UNION {Foreign(s.s, n.e[i], p \o "/[]") : i \in 1..Len(n.e)}
      [] s.k = "either" -> IF n.t = "o" THEN Foreign(s.s, n, p) ELSE {}
      [] s.k = "bearer" -> If(n.t = "s" /\ ~EqualsIgnoringCase(n.v, "\"bearer\""), p)
      [] s.k = "alg" -> If(n.t = "s" /\ n.v \notin AlgNames, p)
      [] OTHER -> {}

(* A parameter that is there as null: whether that may stand for its absence is left open *)
RECURSIVE HasNull(_, _)
HasNull(s, n) ==
    CASE s.k \in {"obj", "profile", "grant"} ->
           n.t = "o" /\ \E i \in 1..Len(FieldsOf(s, n)) :
               LET f == FieldsOf(s, n)[i]
               IN  \/ At(n, f.n) # {} /\ ~Present(n, f.n)
                   \/ Present(n, f.n) /\ HasNull(f.s, Member(n, f.n))
      [] s.k = "list" -> n.t = "a" /\ \E i \in 1..Len(n.e) : HasNull(s.s, n.e[i])
      [] s.k = "map" -> n.t = "o" /\ \E i \in 1..Len(n.m) : HasNull(s.s, n.m[i][2])
      [] s.k = "either" -> HasNull(s.s, n)
      [] OTHER -> FALSE

(* An object with a member twice *)
RECURSIVE Twice(_)
Twice(n) ==
    CASE n.t = "o" -> \/ Cardinality({n.m[i][1] : i \in 1..Len(n.m)}) < Len(n.m)
                      \/ \E i \in 1..Len(n.m) : Twice(n.m[i][2])
      [] n.t = "a" -> \E i \in 1..Len(n.e) : Twice(n.e[i])
      [] OTHER -> FALSE

RECURSIVE AllLeaves(_, _)
AllLeaves(n, p) ==
    CASE n.t = "o" -> {<<p, "{}">>} \cup UNION {AllLeaves(n.m[i][2], p \o "/" \o n.m[i][1]) : i \in 1..Len(n.m)}
      [] n.t = "a" -> {<<p, "[]">>} \cup UNION {AllLeaves(n.e[i], p \o "/" \o ToString(i)) : i \in 1..Len(n.e)}
      [] OTHER -> {<<p, n.v>>}

Label(f) == IF f.n = "@context" /\ ~f.req THEN "@context of jwt_vc_json-ld" ELSE f.n
RECURSIVE Defined(_, _, _, _)
Defined(s, n, p, q) ==
    CASE n.t = "z" -> {}
      [] s.k \in {"obj", "profile", "grant"} /\ n.t = "o" ->
           LET F == FieldsOf(s, n)
           IN  {<<p, q, "{}">>}
               \cup UNION {LET f == F[i] IN IF Present(n, f.n) THEN Defined(f.s, Member(n, f.n), p \o "/" \o f.n, q \o "/" \o Label(f)) ELSE {} : i \in 1..Len(F)}
               \cup (CASE s.rest = "keep" -> UNION {IF n.m[i][1] \in Names2(F) THEN {}
                                                     ELSE Defined(AnyJson, n.m[i][2], p \o "/" \o n.m[i][1], q \o "/*") : i \in 1..Len(n.m)}
                       [] s.rest = "claim" -> UNION {IF n.m[i][1] \in Names2(F) \/ n.m[i][2].t # "o" THEN {}
                                                     ELSE Defined(s, n.m[i][2], p \o "/" \o n.m[i][1], q \o "/{}") : i \in 1..Len(n.m)}
                       [] OTHER -> {})
      [] s.k = "list" /\ n.t = "a" -> {<<p, q, "[]">>} \cup UNION {Defined(s.s, n.e[i], p \o "/" \o ToString(i), q \o "/[]") : i \in 1..Len(n.e)}
      [] s.k = "map" /\ n.t = "o" -> {<<p, q, "{}">>} \cup UNION {Defined(s.s, n.m[i][2], p \o "/" \o n.m[i][1], q \o "/{}") : i \in 1..Len(n.m)}
      [] s.k = "either" /\ n.t = "o" -> Defined(s.s, n, p, q)
      [] s.k = "time" -> {<<p, q, IF Has(n.i) THEN ToString(Get(n.i)) ELSE n.v>>}
      [] s.k = "bearer" -> {<<p, q, IF EqualsIgnoringCase(n.v, "\"bearer\"") THEN "\"Bearer\"" ELSE n.v>>}
      [] s.k \in {"any", "context"} -> {<<l[1], q, l[2]>> : l \in AllLeaves(n, p)}
      [] n.t \in {"o", "a"} -> {}                       \* of another JSON type
      [] OTHER -> {<<p, q, n.v>>}

(* Parameters that a message gets when it is read without them *)
Default(type, l) ==
    \/ type = "request" /\ l[2] = "/proof/proof_type" /\ l[3] = "\"JWT\""
    \/ type = "offer" /\ l[2] = "/grants" /\ l[3] = "{}"

HasNumericTime(s, n) ==
    n.t = "o" /\ s.k = "obj" /\ \E i \in 1..Len(s.f) : s.f[i].s.k = "time" /\ Present(n, s.f[i].n) /\ Member(n, s.f[i].n).t = "n"
RECURSIVE IsIsolated(_)
IsIsolated(n) ==
    \/ n.t = "o" /\ \E i \in 1..Len(n.m) : n.m[i][1] = "credential_definition" \/ IsIsolated(n.m[i][2])
    \/ n.t = "a" /\ \E i \in 1..Len(n.e) : IsIsolated(n.e[i])
Form(type, n) ==
    CASE type = "claims" /\ HasNumericTime(Schema(type), n) -> "claims with a NumericDate"
      [] type \in {"offer", "request"} /\ IsIsolated(n) -> type \o " with credential_definition"
      [] OTHER -> type

(* Members of which there is at most one *)
TooMany(type, n) == type = "header" /\ n.t = "o" /\ Cardinality({x \in {"kid", "jwk", "x5c"} : At(n, x) # {}}) > 1

(* in = [type, doc], out = [ok, doc, fields, reread]: the document that was *)
(* read; the document written from what was read; the public fields of what *)
(* was read, as a document; whether reading the written document gives an   *)
(* equal message                                                            *)
WireVerdict(in, out) ==
    LET s == Schema(in.type)
        n == in.doc
        M == Missing(s, n, "")
        open == WrongKind(s, n) \/ TooMany(in.type, n)
        D == Defined(s, n, "", "")
    IN  IF ~out.ok THEN If(M = {} /\ ~open /\ ~HasNull(s, n), "not read: " \o Form(in.type, n))
        ELSE {"read without its required parameter " \o m : m \in IF open THEN {} ELSE M}
        \cup {"a value that is not registered is read: " \o in.type \o x : x \in Foreign(s, n, "")}
        \cup If(Twice(Get(out.doc)), "a parameter is written twice")
        \cup If(~out.reread, "reading what was written does not give an equal message")
        \cup (IF open THEN {}
              ELSE LET W == Defined(s, Get(out.doc), "", "")
                   IN  {"not kept: " \o in.type \o l[2] : l \in D \ W}
                       \cup {"written but not read: " \o in.type \o l[2] : l \in {x \in W \ D : ~Default(in.type, x)}}
                       \cup If(\E l \in AllLeaves(Get(out.doc), "") : /\ l[2] # "null" /\ l \notin AllLeaves(n, "")
                                                                       /\ ~\E x \in W : x[1] = l[1], "a parameter out of nowhere")
                       \cup (IF Has(out.fields)
                             THEN LET F == Defined(s, Get(out.fields), "", "")
                                  IN  {"a field holds another parameter: " \o in.type \o l[2] : l \in (F \ W) \cup (W \ F)}
                             ELSE {}))
=============================================================================
