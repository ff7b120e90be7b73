----------------------------- MODULE Responses -----------------------------
(***************************************************************************)
(* Success and error responses, error information and return objects.      *)
(* JSON documents are sets of leaves <<path, value>>; a value is the text  *)
(* of a JSON scalar (or of an empty container).  A parameter that is null  *)
(* counts as absent.                                                       *)
(***************************************************************************)
EXTENDS Vci

Leaves(s) == {s[i] : i \in 1..Len(s)}
NotNull(L) == {l \in L : l[2] # "null"}
Leaf(p, o) == IF Has(o) THEN {<<p, Get(o)>>} ELSE {}
Under(p, L) == {<<p \o l[1], l[2]>> : l \in L}

-----------------------------------------------------------------------------
(* Token success.  in: the values as JSON texts, optional ones as options  *)

TokenResponse(in) ==
    {<<"/access_token", in.access_token>>, <<"/token_type", "\"Bearer\"">>}
    \cup Leaf("/expires_in", in.expires_in) \cup Leaf("/scope", in.scope)
    \cup Leaf("/c_nonce", in.c_nonce) \cup Leaf("/c_nonce_expires_in", in.c_nonce_expires_in)
    \cup Leaf("/authorization_pending", in.authorization_pending) \cup Leaf("/interval", in.interval)
TokenResponseInvalid(in) == Has(in.c_nonce_expires_in) /\ ~Has(in.c_nonce)

TokenResponseVerdict(in, out) ==
    IF ~out.ok THEN {"refused"}
    ELSE (IF NotNull(Leaves(out.leaves)) = TokenResponse(in) THEN {} ELSE {"states other values"})
    \cup (IF out.at = in.now THEN {} ELSE {"not stamped with the time of the call"})
    \cup (IF out.valid = ~TokenResponseInvalid(in) THEN {} ELSE {"validation"})
    \cup (IF out.reread THEN {} ELSE {"does not read back as an equal response"})

-----------------------------------------------------------------------------
(* Credential success.  in = [format, proof, what, cred, token, nonce, now]*)
(*   proof optional [ptype, jwt]; what "credential", "token" or "nothing"; *)
(*   credformat, cred: format and leaves of the credential                 *)

CredentialResponse(in, encoded) ==
    {<<"/format", "\"" \o in.format \o "\"">>}
    \cup (IF in.what = "token" THEN {<<"/acceptance_token", in.token>>} ELSE {})
    \cup (IF in.what = "credential" /\ in.credformat = "ldp_vc" THEN Under("/credential", Leaves(in.cred)) ELSE {})
    \cup (IF in.what = "credential" /\ in.credformat # "ldp_vc" THEN {<<"/credential", encoded>>} ELSE {})
    \cup (IF Has(in.nonce) THEN {<<"/c_nonce", Get(in.nonce).c_nonce>>} \cup Leaf("/c_nonce_expires_in", Get(in.nonce).expires)
          ELSE {})

ProofRefused(in) == Has(in.proof) /\ ProofFaults(Get(in.proof)) # {}
ProofOpen(in) == Has(in.proof) /\ Shape(Get(in.proof).jwt) = {} /\ Get(in.proof).jwt.h.alg \in OpenAlgs

CredentialResponseVerdict(in, out) ==
    IF ~out.ok THEN If(~ProofRefused(in) /\ ~ProofOpen(in), "refused") \cup If(out.err.name # "ValidationError", "untrue refusal")
    ELSE If(ProofRefused(in), "created for a request whose proof is not valid")
    \cup (IF NotNull(Leaves(out.leaves)) = CredentialResponse(in, out.text) THEN {} ELSE {"states other values"})
    \cup (IF in.what = "credential" /\ in.credformat # "ldp_vc" /\ (~Has(out.decoded) \/ Leaves(Get(out.decoded)) # Leaves(in.cred))
          THEN {"the encoded credential is another one"} ELSE {})
    \cup (IF out.at = in.now THEN {} ELSE {"not stamped with the time of the call"})
    \cup (IF out.reread THEN {} ELSE {"does not read back as an equal response"})

-----------------------------------------------------------------------------
(* Error codes *)

TokenCodes == [InvalidRequest |-> "invalid_request", InvalidGrant |-> "invalid_grant", InvalidClient |-> "invalid_client",
               AccessDenied |-> "access_denied", UnsupportedResponseType |-> "unsupported_response_type",
               InvalidScope |-> "invalid_scope", ServerError |-> "server_error",
               TemporarilyUnavailable |-> "temporarily_unavailable"]
IssuerCodes == [InvalidRequest |-> "invalid_request", InvalidToken |-> "invalid_token",
                UnsupportedCredentialType |-> "unsupported_credential_type",
                UnsupportedCredentialFormat |-> "unsupported_credential_format",
                InvalidOrMissingProof |-> "invalid_or_missing_proof"]
Codes(endpoint) == IF endpoint = "token" THEN TokenCodes ELSE IssuerCodes
Registered(endpoint) == {Codes(endpoint)[v] : v \in DOMAIN Codes(endpoint)}

CodesInjective(endpoint) == \A v, w \in DOMAIN Codes(endpoint) : v # w => Codes(endpoint)[v] # Codes(endpoint)[w]

(* An error response *)
ErrorResponse(in) ==
    {<<"/error", "\"" \o Codes(in.endpoint)[in.code] \o "\"">>}
    \cup Leaf("/error_description", in.description) \cup Leaf("/error_uri", in.uri)
    \cup (IF Has(in.details) THEN Leaves(Get(in.details)) ELSE {})
ErrorResponseVerdict(in, out) ==
    IF ~out.ok THEN {"refused"}
    ELSE LET Open == {<<"/error_description", "null">>, <<"/error_uri", "null">>}    \* null for a text that is not there
         IN  IF Leaves(out.leaves) \ Open = ErrorResponse(in) \ Open THEN {} ELSE {"states other values"}

(* A code to its name and back, a text to a code *)
CodeVerdict(in, out) ==
    CASE in.dir = "name" ->
           (IF out.name = Codes(in.endpoint)[in.code] THEN {} ELSE {"wrong name"})
           \cup (IF out.json = "\"" \o Codes(in.endpoint)[in.code] \o "\"" THEN {} ELSE {"wrong name in JSON"})
           \cup (IF out.back = in.code THEN {} ELSE {"the name does not convert back"})
           \cup (IF out.reread = in.code THEN {} ELSE {"the JSON name does not read back"})
      [] in.dir = "text" ->
           (IF in.text \in Registered(in.endpoint)
            THEN (IF out.code # "" /\ Codes(in.endpoint)[out.code] = in.text THEN {} ELSE {"a registered name is another code"})
            ELSE (IF out.code = "" THEN {} ELSE {"a text that is no registered name converts"}))

-----------------------------------------------------------------------------
(* Error information *)

Numbers(module) ==
    CASE module = "token" ->
           [ValidationError |-> 400, InvalidGrantType |-> 401, AuthorizedFlowNotSupported |-> 402,
            NoFlowSupportedInCredentialOffer |-> 403, InvalidPreAuthorizedCodeFlowValues |-> 404,
            InvalidAuthorizedAndPreAuthorizedCodeFlow |-> 405, OptionsAreRequiredForEvaluation |-> 406,
            UserPinMismatch |-> 407, CredentialOfferMustBeSupplied |-> 409]
      [] module = "issuer" ->
           [ValidationError |-> 100, JwtError |-> 101, AuthorizedFlowNotSupported |-> 102,
            CredentialIdNotInIssuerMetadata |-> 103, InvalidCredentialOfferEncoding |-> 104,
            InvalidRequestedCredential |-> 105, ExpiredCNonce |-> 106, CredentialAndAcceptanceTokenSupplied |-> 107,
            AuthorizationServerMetadataNotSupported |-> 108, CredentialOfferMustBeSupplied |-> 109,
            EvaluteCredentialRequestOptionsNotSupplied |-> 110, CNonceIsExpired |-> 111, NoProofInCredentialRequest |-> 112]
      [] module = "jwt" ->
           [ValidationError |-> 300, NotYetValid |-> 301, NotValidAnymore |-> 302, IssuerMismatch |-> 303,
            NoKeyFoundInProof |-> 304, NoDidDocumentProvidedForKidAsDid |-> 305, UnableToTransformIntoDid |-> 306,
            UnableToResolveDidInDidDocument |-> 307, UnableToMapVerificationMethodToJwk |-> 308,
            UnableToTransformIntoJoseItem |-> 309, UnsupportedAlgorithm |-> 310, EdDSAHasNoXCoordinate |-> 311,
            ESXXXHasNoXOrYCoordinate |-> 312, SignatureNotInJwt |-> 313, UnsupportedKeyTypeInJwtHeader |-> 314,
            NonceMismatch |-> 315, AudienceMismatch |-> 316]
      [] module = "validation" -> [Any |-> 1]

(* in = [module, name, fields, text]: the variant, the leaves of its       *)
(* fields, its display text.  out = [code, name, description, info]        *)
InformationVerdict(in, out) ==
    IF ~out.ok THEN {"no information"}
    ELSE (IF out.name = in.name THEN {} ELSE {"wrong name"})
    \cup (IF out.code = Numbers(in.module)[in.name] THEN {} ELSE {"wrong code"})
    \cup (IF out.description = in.text THEN {} ELSE {"wrong description"})
    \cup (IF Leaves(in.fields) = {} THEN (IF NotNull(Leaves(out.info)) = {} THEN {} ELSE {"data out of nowhere"})
          ELSE IF NotNull(Leaves(out.info)) = NotNull(Leaves(in.fields)) THEN {} ELSE {"wrong data"})
    \cup (IF out.json THEN {} ELSE {"the JSON of the information differs from it"})

(* Return objects.  in = [ok, value, module, name, fields, text, warnings]: *)
(* the leaves of the success value or what the error was made of, and the  *)
(* warnings in order.  out = [info, error, warnings, leaves]               *)
InformationLeaves(in) ==
    {<<"/code", ToString(Numbers(in.module)[in.name])>>, <<"/name", "\"" \o in.name \o "\"">>, <<"/description", in.text>>}
    \cup Under("/additional_information", Leaves(in.fields))
WarningLeaves(w) == {<<"/warnings/" \o ToString(i - 1), w[i]>> : i \in 1..Len(w)}

ReturnVerdict(in, out) ==
    IF ~out.ok THEN {"no return object"}
    ELSE (IF in.ok THEN If(~Has(out.info) \/ Leaves(Get(out.info)) # Leaves(in.value), "wrong value")
                        \cup If(out.error # None, "an error besides the value")
          ELSE If(~Has(out.error) \/ NotNull(Leaves(Get(out.error))) # NotNull(InformationLeaves(in)), "wrong error")
               \cup If(out.info # None, "a value besides the error"))
    \cup (IF in.warnings = <<>> THEN If(out.warnings \notin {None, Some(<<>>)}, "warnings out of nowhere")
          ELSE If(out.warnings # Some(in.warnings), "wrong warnings"))
    \cup If(NotNull(Leaves(out.leaves))
            # NotNull((IF in.ok THEN Under("/info", Leaves(in.value)) ELSE Under("/error", InformationLeaves(in)))
                      \cup WarningLeaves(in.warnings)), "wrong JSON")
=============================================================================
