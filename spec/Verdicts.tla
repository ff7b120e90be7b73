------------------------------ MODULE Verdicts ------------------------------
(***************************************************************************)
(* What each property says about one recorded call of the library: the set *)
(* of reasons for which the call breaks the property, empty if it does not.*)
(* A recorded call carries its complete input, so faults are computed here *)
(* from the input alone, never from what the replay driver meant to build. *)
(***************************************************************************)
EXTENDS Vci, Offers, Responses, Wire, Total

(* Name of an error and of the errors inside it *)
RECURSIVE Names(_)
Names(e) == {e.name} \cup UNION {Names(e.inner[i]) : i \in 1..Len(e.inner)}

-----------------------------------------------------------------------------
(* C01 - C03: token evaluation *)

TokenFaultsOf(p) ==
    CASE p = "C01" -> {"AuthGrantType", "NoOffer", "NoGrant", "GrantNotOffered", "CodeMismatch"}
      [] p = "C02" -> {"LongPin", "PinMissing", "PinUnexpected", "PinUnverifiable", "PinMismatch"}
      [] OTHER -> {}
TokenErrorsOf(p) ==
    CASE p = "C01" -> {"InvalidGrantType", "AuthorizedFlowNotSupported", "NoFlowSupportedInCredentialOffer",
                       "CredentialOfferMustBeSupplied", "InvalidPreAuthorizedCodeFlowValues"}
      [] p = "C02" -> {"ValidationError", "OptionsAreRequiredForEvaluation", "UserPinMismatch",
                       "InvalidPreAuthorizedCodeFlowValues"}
      [] OTHER -> {}

TokenVerdict(p, ev) ==
    LET in == ev.in
        F == TokenFaults(in)
        ok == ev.out.ok
        untrue == ~ok /\ ~TokenErrTrue(in, ev.out.err)
    IN  CASE p \in {"C01", "C02"} ->
               {"granted: " \o f : f \in IF ok THEN F \cap TokenFaultsOf(p) ELSE {}}
               \cup If(untrue /\ Names(ev.out.err) \cap TokenErrorsOf(p) # {}, "untrue refusal: " \o ev.out.err.name)
          [] p = "C03" ->
               If(~ok /\ F = {}, "correct request refused: " \o ev.out.err.name)
               \cup If(untrue, "untrue refusal: " \o ev.out.err.name)
          [] OTHER -> {}

-----------------------------------------------------------------------------
(* C04 - C11: the proof *)

KeyFaultNames == {"KeyRefs", "KeyEmbedded", "KeyNone", "KidNotDid", "NoDocument", "KidNotInDocument", "KeyMissing"}
ProofFaultsOf(p) ==
    CASE p = "C04" -> {"NonceExpired", "Nonce"}
      [] p = "C05" -> {"Audience"}
      [] p = "C06" -> {"Issuer"}
      [] p = "C07" -> TypeFaults
      [] p = "C08" -> {"NotYetValid", "NotValidAnymore"}
      [] p = "C09" -> KeyFaultNames
      [] p = "C11" -> {"NoOffer", "AuthServerMetadata", "NoProof", "Metadata"}
      [] OTHER -> {}
ProofErrorsOf(p) ==
    CASE p = "C04" -> {"CNonceIsExpired", "ExpiredCNonce", "NonceMismatch"}
      [] p = "C05" -> {"AudienceMismatch"}
      [] p = "C06" -> {"IssuerMismatch"}
      [] p = "C07" -> {"ValidationError"}
      [] p = "C08" -> {"NotYetValid", "NotValidAnymore"}
      [] p = "C09" -> KeyErrNames
      [] p = "C10" -> {"SignatureNotInJwt"}
      [] OTHER -> {}

MessageVerdict(m, j) ==
    IF MessageTrue(m, j) THEN {}
    ELSE IF MessageButExtra(m, j) THEN {"message leaves out parameters without a meaning to the library"}
    ELSE {"message does not state the proof"}

(* What an accepted request reports *)
ReportVerdict(p, in, r) ==
    CASE p = "C09" -> If(~SubjectTrue(in, r), "wrong subject") \cup If(~KeyTrue(in, r), "wrong public key")
      [] p = "C10" ->
           IF ~Has(Get(in.proof).jwt.sig) THEN {}
           ELSE If(~AlgTrue(in, r), "wrong algorithm") \cup If(~SignatureTrue(in, r), "wrong signature")
                \cup (IF Has(r.pop) THEN MessageVerdict(Get(r.pop).message, Get(in.proof).jwt) ELSE {"no message"})
      [] p = "C11" -> If(r.cred # in.cred, "another credential reported")
      [] OTHER -> {}

EvalVerdict(p, ev) ==
    LET in == ev.in
        F == EvalFaults(in)
        M == EvalMay(in)
        ok == ev.out.ok
        untrue == ~ok /\ ~EvalErrTrue(in, ev.out.err)
    IN  {"accepted: " \o f : f \in IF ok THEN F \cap ProofFaultsOf(p) ELSE {}}
        \cup (IF ok /\ F = {} THEN ReportVerdict(p, in, Get(ev.out.res)) ELSE {})
        \cup If(untrue /\ (p = "C11" \/ Names(ev.out.err) \cap ProofErrorsOf(p) # {}),
                "untrue refusal: " \o ToString(Names(ev.out.err)))
        \cup If(p = "C11" /\ ~ok /\ F = {} /\ M = {}, "correct request refused")

PreVerdict(p, ev) ==
    LET in == [proof |-> ev.in.proof]
        F == PreFaults(in)
        ok == ev.pre.ok
        untrue == ~ok /\ ~PreErrTrue(in, ev.pre.err)
    IN  IF p \notin {"C07", "C09", "C11"} THEN {}
        ELSE {"pre-evaluation accepted: " \o f : f \in IF ok THEN F \cap ProofFaultsOf(p) ELSE {}}
        \cup If(p = "C09" /\ ok /\ F = {} /\ Get(ev.pre.res).did # PreDid(in), "pre-evaluation names another DID")
        \cup If(untrue /\ (p = "C11" \/ Names(ev.pre.err) \cap ProofErrorsOf(p) # {}),
                "untrue refusal by pre-evaluation: " \o ToString(Names(ev.pre.err)))
        \cup If(p = "C11" /\ ~ok /\ F = {} /\ PreMay(in) = {}, "correct request refused by pre-evaluation")

(* One operation o that must succeed exactly when b, or else fail with an error of the call *)
Exactly(b, o, name) == If(o.ok /\ ~b, name \o " succeeded") \cup If(~o.ok /\ b, name \o " failed")

OpsVerdict(p, ev) ==
    IF ev.ops = <<>> THEN {}
    ELSE LET in == ev.in
             j == Get(in.proof).jwt
             parse == Get(ev.ops).parse
             parsed == parse.ok
             o == Get(Get(ev.ops).rest)
             hard == HeaderFaults(j)
             open == j.h.alg \in OpenAlgs
             kf == KeyFaults(j, in.doc)
             true(e) == JwtErrTrue(in, EvalFaults(in) \cup kf, EvalMay(in), e)
         IN
         CASE p = "C07" ->
                IF Shape(j) # {} THEN If(parsed, "malformed JWT parsed")
                ELSE IF ~parsed THEN If(hard = {} /\ ~open, "well-formed JWT not parsed")
                ELSE If(o.validate.ok /\ hard # {}, "validate succeeded")
                     \cup If(~o.validate.ok /\ hard = {} /\ ~open, "validate failed")
           [] ~parsed \/ Shape(j) # {} -> {}
           [] p = "C04" -> Exactly(Some(j.b.nonce) = ExpectedNonce(in), o.nonce, "check_nonce")
                           \cup If(~o.nonce.ok /\ ~(o.nonce.err.name = "NonceMismatch" /\ o.nonce.err.data.expected_nonce = ExpectedNonce(in)
                                                    /\ o.nonce.err.data.actual_nonce = j.b.nonce), "check_nonce: untrue error")
           [] p = "C05" -> Exactly(j.b.aud = in.md.iss, o.aud, "check_aud")
                           \cup If(~o.aud.ok /\ ~(o.aud.err.name = "AudienceMismatch" /\ o.aud.err.data.expected_aud_in_jwt = in.md.iss
                                                  /\ o.aud.err.data.actual_aud_in_jwt = j.b.aud), "check_aud: untrue error")
           [] p = "C06" -> Exactly(j.b.iss = ClientId(in), o.iss, "check_iss")
                           \cup If(~o.iss.ok /\ ~(o.iss.err.name = "IssuerMismatch" /\ o.iss.err.data.expected_iss_in_jwt = ClientId(in)
                                                  /\ o.iss.err.data.actual_iss_in_jwt = j.b.iss), "check_iss: untrue error")
           [] p = "C08" -> Exactly(WindowFaults(j, in.now) = {}, o.verify, "verify")
                           \cup If(~o.verify.ok /\ ~true(o.verify.err), "verify: untrue error")
           [] p = "C09" ->
                (IF o.did.ok
                 THEN If(Get(o.did.res).did # PreDid([proof |-> in.proof]), "extract_did names another DID")
                 ELSE If(j.keys = 0 \/ (Has(j.h.kid) /\ IsDidUrl(Get(j.h.kid)) /\ j.keys = 1), "extract_did failed"))
                \cup
                (IF o.key.ok
                 THEN IF kf = {} THEN If(~KeyTrue(in, [pop |-> <<[key |-> Get(o.key.res).key]>>]), "extract_key: wrong key")
                      ELSE If(kf # {"KeyEmbedded"}, "extract_key succeeded: " \o ToString(kf))
                 ELSE If(kf = {} /\ "KeyKind" \notin EvalMay(in), "extract_key failed")
                      \cup If(~true(o.key.err), "extract_key: untrue error " \o o.key.err.name))
           [] p = "C10" ->
                IF ~Has(j.sig) THEN {}
                ELSE (IF o.key.ok THEN If(Get(o.key.res).alg # j.h.alg, "extract_key: wrong algorithm") ELSE {})
                \cup (IF o.sig.ok THEN If(Get(o.sig.res).sig # Get(j.sig), "extract_signature: wrong signature")
                      ELSE {"extract_signature failed"})
                \cup (IF ~j.keytext THEN {} ELSE IF o.message.ok THEN MessageVerdict(Get(o.message.res).message, j) ELSE {"to_signable_message failed"})
           [] OTHER -> {}

ProofVerdict(p, ev) == EvalVerdict(p, ev) \cup PreVerdict(p, ev) \cup OpsVerdict(p, ev)

-----------------------------------------------------------------------------
(* C12 - C14: metadata and offers *)

OfferVerdict(p, ev) ==
    LET in == ev.in
        out == Get(ev.out)
        F == OfferFaults(in)
    IN  CASE p = "C12" ->
               {"offer created: " \o f : f \in IF out.ok THEN F ELSE {}}
               \cup If(~out.ok /\ F = {}, "correct offer refused: " \o out.err.name)
               \cup If(~out.ok /\ ~OfferErrTrue(in, out.err), "untrue refusal: " \o out.err.name)
               \cup If(out.ok /\ ~OfferTrue(in, Get(out.res).offer), "the offer states other values")
          [] p = "C13" -> IF out.ok THEN LinkFaults(in, Get(out.res).offer, Get(out.res).link) ELSE {}
          [] p = "C14" ->
               LET md == Get(ev.md)
                   r == Get(ev.resolve)
               IN  If(md.ok /\ ~MdUnique(in.md), "metadata with an id twice is valid")
                   \cup If(~md.ok /\ MdUnique(in.md), "metadata with unique ids is not valid")
                   \cup If(\E i \in 1..Len(r.one) : ~ResolveTrue(in.md, r.one[i].c, r.one[i].r), "a credential resolves wrongly")
                   \cup If(~ResolveAllTrue(in.md, in.creds, r.all), "a list resolves wrongly")
          [] OTHER -> {}

-----------------------------------------------------------------------------
(* C15 - C18: responses, codes, error information, return objects *)

ResponseVerdict(p, ev) ==
    CASE ev.op = "resp" -> IF ev.in.kind = "token" THEN TokenResponseVerdict(ev.in, ev.out) ELSE CredentialResponseVerdict(ev.in, ev.out)
      [] ev.op = "err" -> ErrorResponseVerdict(ev.in, ev.out)
      [] ev.op = "code" -> CodeVerdict(ev.in, ev.out)
      [] ev.op = "info" -> InformationVerdict(ev.in, ev.out)
      [] ev.op = "ret" -> ReturnVerdict(ev.in, ev.out)

-----------------------------------------------------------------------------
Verdict(p, ev) ==
    CASE ev.op = "died" -> {"the call of " \o ev.of \o " did not return"}
      [] ev.op = "total" -> TotalVerdict(ev.out)
         \* C19 on the calls of the other suites
      [] p = "C19" -> If(ev.panics > 0, "a call of the " \o ev.op \o " suite panics")
      [] ev.op = "token" -> TokenVerdict(p, ev)
      [] ev.op = "offer" -> OfferVerdict(p, ev)
      [] ev.op = "proof" -> ProofVerdict(p, ev)
      [] ev.op = "wire" -> WireVerdict(ev.in, ev.out)
      [] ev.op \in {"resp", "err", "code", "info", "ret"} -> ResponseVerdict(p, ev)
=============================================================================
