------------------------------- MODULE Offers -------------------------------
(***************************************************************************)
(* Issuer metadata, resolution of credential ids, and credential offers.   *)
(* md = [iss, sup]: sup is the list of supported credentials, each         *)
(* [id: optional text, cred: text].  A credential asked for is [id, cred]: *)
(* by id when id is present, inline otherwise.                             *)
(***************************************************************************)
EXTENDS Vci

Ids(md) == [i \in 1..Len(md.sup) |-> md.sup[i].id]
MdUnique(md) == UniqueIds(Ids(md))

Entries(md, id) == {i \in 1..Len(md.sup) : md.sup[i].id = Some(id)}
Known(md, c) == Has(c.id) => Entries(md, Get(c.id)) # {}
(* What a credential asked for may resolve to *)
Resolution(md, c) == IF Has(c.id) THEN {md.sup[i].cred : i \in Entries(md, Get(c.id))} ELSE {c.cred}

ResolveTrue(md, c, r) ==
    IF r.ok THEN Known(md, c) /\ r.cred \in Resolution(md, c)
    ELSE ~Known(md, c) /\ r.err.name = "CredentialIdNotInIssuerMetadata" /\ Some(r.err.data.id) = c.id
ResolveAllTrue(md, cs, r) ==
    IF r.ok THEN /\ Len(r.creds) = Len(cs)
                 /\ \A i \in 1..Len(cs) : Known(md, cs[i]) /\ r.creds[i] \in Resolution(md, cs[i])
    ELSE /\ r.err.name = "CredentialIdNotInIssuerMetadata"
         /\ \E i \in 1..Len(cs) : ~Known(md, cs[i]) /\ cs[i].id = Some(r.err.data.id)

-----------------------------------------------------------------------------
(* Offer creation.  in = [md, creds, endpoint, auth, pre]                  *)

OfferFaults(in) ==
         (IF MdUnique(in.md) THEN {} ELSE {"Metadata"})
    \cup (IF Has(in.auth) THEN {"AuthGrant"} ELSE {})
    \cup (IF \A i \in 1..Len(in.creds) : Known(in.md, in.creds[i]) THEN {} ELSE {"UnknownId"})

OfferErrTrue(in, e) ==
    LET F == OfferFaults(in)
    IN  CASE e.name = "ValidationError" -> "Metadata" \in F
          [] e.name = "AuthorizedFlowNotSupported" -> "AuthGrant" \in F
          [] e.name = "CredentialIdNotInIssuerMetadata" ->
               \E i \in 1..Len(in.creds) : ~Known(in.md, in.creds[i]) /\ in.creds[i].id = Some(e.data.id)
          [] OTHER -> FALSE

XOffer(in) ==
    IF ~MdUnique(in.md) THEN Err("ValidationError")
    ELSE IF Has(in.auth) THEN Err("AuthorizedFlowNotSupported")
    ELSE LET missing == {i \in 1..Len(in.creds) : ~Known(in.md, in.creds[i])}
         IN  IF missing = {} THEN NoErr
             ELSE ErrD("CredentialIdNotInIssuerMetadata",
                       [id |-> Get(in.creds[CHOOSE i \in missing : \A k \in missing : i <= k].id)])
XOfferConforms(in) ==
    LET e == XOffer(in)
    IN  IF e = NoErr THEN OfferFaults(in) = {} ELSE OfferErrTrue(in, e)

(* The offer states what it was made from *)
OfferTrue(in, o) ==
    /\ o.iss = in.md.iss
    /\ o.creds = in.creds
    /\ o.auth = None
    /\ o.pre = in.pre

-----------------------------------------------------------------------------
(* The link: prefix, "credential_offer=", percent-encoded JSON of the offer *)

EndsWith(s, c) == Len(s) > 0 /\ Char(s, Len(s)) = c
Prefixes(endpoint) ==
    IF ~Has(endpoint) THEN {"openid-credential-offer://", "openid-credential-offer://?"}
    ELSE {Get(endpoint) \o (IF Contains(Get(endpoint), "?") THEN "&" ELSE "?")}
         \* a separator that is there already need not be written again
         \cup (IF Contains(Get(endpoint), "?") /\ (EndsWith(Get(endpoint), "?") \/ EndsWith(Get(endpoint), "&"))
               THEN {Get(endpoint)} ELSE {})
Unreserved == {"-", "_", ".", "~", "0", "1", "2", "3", "4", "5", "6", "7", "8", "9"}
              \cup {UpperLetters[i] : i \in 1..26} \cup {LowerLetters[i] : i \in 1..26}

(* link = [url, len, enclen, charset, json, decoded, reread, same]: the     *)
(* link up to the value of the parameter; the lengths of the link and of   *)
(* the value; the characters of the value; the JSON of the created offer;  *)
(* the percent-decoded value as JSON, if it is JSON; whether reading that  *)
(* JSON gives an equal offer, and what that offer states.                  *)
LinkFaults(in, o, link) ==
    LET fits == \E p \in Prefixes(in.endpoint) : link.url = p \o "credential_offer="
        chars == {link.charset[i] : i \in 1..Len(link.charset)}
    IN  IF ~fits THEN {"the link has another prefix"}
        ELSE If(~(chars \subseteq (Unreserved \cup {"%"})), "the parameter is not percent-encoded")
        \cup If(link.len # Len(link.url) + link.enclen, "the link carries more than the offer")
        \cup If(link.decoded # Some(link.json), "the link carries another offer")
        \cup If(~link.reread, "the link does not read back as an equal offer")
        \cup If(link.same # Some(o), "the offer of the link states other values")
=============================================================================
