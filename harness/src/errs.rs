//! Projection of the library's errors: name, details, nested errors, numeric code.
use crate::util::{eopt, esc, opt, Time};
use openid4vci::access_token::error::AccessTokenError;
use openid4vci::credential_issuer::error::CredentialIssuerError;
use openid4vci::jwt::error::JwtError;
use openid4vci::validate::ValidationError;
use serde_json::{json, Value};

fn e(name: &str, data: Value, inner: Vec<Value>) -> Value {
    let data = match &data {
        Value::Object(m) if m.is_empty() => json!({"none": true}),
        _ => data,
    };
    json!({"name": esc(name), "data": data, "inner": inner})
}
pub fn none() -> Value {
    json!({"name": "", "data": {"none": true}, "inner": []})
}

pub fn validation(x: &ValidationError) -> Value {
    #[allow(unreachable_patterns)]
    match x {
        ValidationError::Any { validation_message } => e("Any", json!({"validation_message": esc(validation_message)}), vec![]),
        _ => e(x.as_ref(), json!({}), vec![]),
    }
}

pub fn token(x: &AccessTokenError) -> Value {
    use AccessTokenError as A;
    #[allow(unreachable_patterns)]
    match x {
        A::ValidationError(v) => e("ValidationError", json!({}), vec![validation(v)]),
        A::InvalidGrantType { requested_grant_type, accepted_grant_type } => e(
            "InvalidGrantType",
            json!({"requested_grant_type": esc(requested_grant_type),
                   "accepted_grant_type": accepted_grant_type.iter().map(|s| esc(s)).collect::<Vec<_>>()}),
            vec![],
        ),
        A::AuthorizedFlowNotSupported => e("AuthorizedFlowNotSupported", json!({}), vec![]),
        A::NoFlowSupportedInCredentialOffer => e("NoFlowSupportedInCredentialOffer", json!({}), vec![]),
        A::InvalidPreAuthorizedCodeFlowValues { should_pin_be_supplied, does_code_match } => e(
            "InvalidPreAuthorizedCodeFlowValues",
            json!({"should_pin_be_supplied": should_pin_be_supplied, "does_code_match": does_code_match}),
            vec![],
        ),
        A::InvalidAuthorizedAndPreAuthorizedCodeFlow { authorized_error, pre_authorized_error } => {
            e("InvalidAuthorizedAndPreAuthorizedCodeFlow", json!({}), vec![token(authorized_error), token(pre_authorized_error)])
        }
        A::OptionsAreRequiredForEvaluation { reason } => e("OptionsAreRequiredForEvaluation", json!({"reason": esc(reason)}), vec![]),
        A::UserPinMismatch => e("UserPinMismatch", json!({}), vec![]),
        A::CredentialOfferMustBeSupplied => e("CredentialOfferMustBeSupplied", json!({}), vec![]),
        _ => e(x.as_ref(), json!({}), vec![]),
    }
}

pub fn jwt(x: &JwtError) -> Value {
    use JwtError as J;
    #[allow(unreachable_patterns)]
    match x {
        J::ValidationError(v) => e("ValidationError", json!({}), vec![validation(v)]),
        J::NotYetValid { valid_from, now } => e(
            "NotYetValid",
            json!({"valid_from": Time::of(*valid_from).json(), "now": Time::of(*now).json()}),
            vec![],
        ),
        J::NotValidAnymore { valid_until, now } => e(
            "NotValidAnymore",
            json!({"valid_until": Time::of(*valid_until).json(), "now": Time::of(*now).json()}),
            vec![],
        ),
        J::IssuerMismatch { expected_iss_in_jwt, actual_iss_in_jwt } => e(
            "IssuerMismatch",
            json!({"expected_iss_in_jwt": eopt(expected_iss_in_jwt.as_deref()), "actual_iss_in_jwt": eopt(actual_iss_in_jwt.as_deref())}),
            vec![],
        ),
        J::NoKeyFoundInProof => e("NoKeyFoundInProof", json!({}), vec![]),
        J::NoDidDocumentProvidedForKidAsDid => e("NoDidDocumentProvidedForKidAsDid", json!({}), vec![]),
        J::UnableToTransformIntoDid { kid, message } => {
            e("UnableToTransformIntoDid", json!({"kid": esc(kid), "message": esc(message)}), vec![])
        }
        J::UnableToResolveDidInDidDocument { did, message } => {
            e("UnableToResolveDidInDidDocument", json!({"did": esc(did), "message": esc(message)}), vec![])
        }
        J::UnableToMapVerificationMethodToJwk { messsage } => {
            e("UnableToMapVerificationMethodToJwk", json!({"messsage": esc(messsage)}), vec![])
        }
        J::UnableToTransformIntoJoseItem { original_string, serde_message } => e(
            "UnableToTransformIntoJoseItem",
            json!({"original_string": esc(original_string), "serde_message": esc(serde_message)}),
            vec![],
        ),
        J::UnsupportedAlgorithm { algorithm } => e("UnsupportedAlgorithm", json!({"algorithm": esc(algorithm)}), vec![]),
        J::EdDSAHasNoXCoordinate => e("EdDSAHasNoXCoordinate", json!({}), vec![]),
        J::ESXXXHasNoXOrYCoordinate { algorithm, x, y } => e(
            "ESXXXHasNoXOrYCoordinate",
            json!({"algorithm": esc(algorithm), "x": opt(x.as_ref().map(|b| crate::util::hex(b))), "y": opt(y.as_ref().map(|b| crate::util::hex(b)))}),
            vec![],
        ),
        J::SignatureNotInJwt { jwt } => e("SignatureNotInJwt", json!({"jwt": esc(jwt)}), vec![]),
        J::UnsupportedKeyTypeInJwtHeader { key_name, key_type } => {
            e("UnsupportedKeyTypeInJwtHeader", json!({"key_name": esc(key_name), "key_type": esc(key_type)}), vec![])
        }
        J::NonceMismatch { expected_nonce, actual_nonce } => e(
            "NonceMismatch",
            json!({"expected_nonce": eopt(expected_nonce.as_deref()), "actual_nonce": esc(actual_nonce)}),
            vec![],
        ),
        J::AudienceMismatch { expected_aud_in_jwt, actual_aud_in_jwt } => e(
            "AudienceMismatch",
            json!({"expected_aud_in_jwt": esc(expected_aud_in_jwt), "actual_aud_in_jwt": esc(actual_aud_in_jwt)}),
            vec![],
        ),
        _ => e(x.as_ref(), json!({}), vec![]),
    }
}

pub fn issuer(x: &CredentialIssuerError) -> Value {
    use CredentialIssuerError as C;
    #[allow(unreachable_patterns)]
    match x {
        C::ValidationError(v) => e("ValidationError", json!({}), vec![validation(v)]),
        C::JwtError(j) => e("JwtError", json!({}), vec![jwt(j)]),
        C::CredentialIdNotInIssuerMetadata { id } => e("CredentialIdNotInIssuerMetadata", json!({"id": esc(id)}), vec![]),
        C::InvalidCredentialOfferEncoding { error_message } => {
            e("InvalidCredentialOfferEncoding", json!({"error_message": esc(error_message)}), vec![])
        }
        C::ExpiredCNonce { now, expires_in } => e(
            "ExpiredCNonce",
            json!({"now": Time::of(*now).json(), "expires_in": opt(expires_in.map(|t| Time::of(t).json()))}),
            vec![],
        ),
        C::EvaluteCredentialRequestOptionsNotSupplied { reason } => {
            e("EvaluteCredentialRequestOptionsNotSupplied", json!({"reason": esc(reason)}), vec![])
        }
        C::CNonceIsExpired { now, expiry_timestamp } => e(
            "CNonceIsExpired",
            json!({"now": Time::of(*now).json(), "expiry_timestamp": Time::of(*expiry_timestamp).json()}),
            vec![],
        ),
        _ => e(x.as_ref(), json!({}), vec![]),
    }
}
