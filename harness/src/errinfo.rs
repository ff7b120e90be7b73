//! Error responses, error codes, error information and return objects.
use crate::env::{profile, Env};
use crate::token::fill;
use crate::util::*;
use crate::Log;
use chrono::SecondsFormat;
use openid4vci::access_token::error::{AccessTokenError, AccessTokenResult};
use openid4vci::access_token::error_response::AccessTokenErrorCode;
use openid4vci::access_token::AccessToken;
use openid4vci::credential_issuer::error::{CredentialIssuerError, CredentialIssuerResult};
use openid4vci::credential_issuer::error_code::CredentialIssuerErrorCode;
use openid4vci::credential_issuer::CredentialIssuer;
use openid4vci::error::ErrorInformation;
use openid4vci::jwt::error::{JwtError, JwtResult};
use openid4vci::return_object::{ReturnObject, ToReturnObject};
use openid4vci::validate::{ValidationError, ValidationResult};
use serde_json::{json, Map, Value};

// ------------------------------------------------------------------ values
fn any(r: &mut Rng, depth: usize) -> Value {
    match r.below(if depth == 0 { 5 } else { 7 }) {
        0 => json!(text(r)),
        1 => json!(r.next() as u32),
        2 => json!(r.chance(1, 2)),
        3 => json!(-(r.below(1000) as i64)),
        4 => json!(r.word(3)),
        5 => Value::Array((0..r.below(4)).map(|_| any(r, depth - 1)).collect()),
        _ => Value::Object((0..r.below(4)).map(|_| (text(r), any(r, depth - 1))).collect()),
    }
}
/// Details; their values may be the same as what else is said
fn details(class: &str, said: &[String], r: &mut Rng) -> Option<Value> {
    let mut v = plain_details(class, r)?;
    if let (Some(m), true) = (v.as_object_mut(), !said.is_empty() && r.chance(1, 2)) {
        for x in m.values_mut() {
            if r.chance(1, 2) {
                let s = json!(r.pick(said));
                *x = match r.below(4) {
                    0 => json!([s]),
                    1 => json!({ "x": s }),
                    _ => s,
                };
            }
        }
    }
    Some(v)
}
fn plain_details(class: &str, r: &mut Rng) -> Option<Value> {
    let taken = ["error", "error_description", "error_uri"];
    let near = ["Error", "error_", "error-description", "errorDescription", "error_description_2", "code", "name", "uri", "details"];
    let name = |r: &mut Rng| loop {
        let k = if r.chance(1, 3) { (*r.pick(&near)).to_owned() } else { text(r) };
        if !taken.contains(&k.as_str()) {
            return k;
        }
    };
    let mut m = Map::new();
    match class {
        "none" => return None,
        "one" => {
            m.insert(name(r), any(r, 0));
        }
        "nested" => {
            let inner: Map<String, Value> = ["error", "x", "error_uri"].iter().map(|k| ((*k).to_owned(), any(r, 2))).collect();
            m.insert(name(r), Value::Object(inner));
        }
        "many" => {
            for _ in 0..2 + r.below(12) {
                m.insert(name(r), any(r, 3));
            }
        }
        "nulls" => {
            m.insert(name(r), Value::Null);
            m.insert(name(r), json!({"a": null, "b": [null, 1]}));
        }
        _ => {}
    }
    Some(Value::Object(m))
}
fn flat(v: &Value) -> Value {
    if v.as_object().map_or(false, Map::is_empty) { json!([]) } else { jleaves(v) }
}

// ------------------------------------------------------------------ codes
macro_rules! codes {
    ($all:ident, $name:ident, $t:ident, $($v:ident),*) => {
        fn $all(n: &str) -> Option<$t> {
            match n { $(stringify!($v) => Some($t::$v),)* _ => None }
        }
        fn $name(c: &$t) -> &'static str {
            #[allow(unreachable_patterns)]
            match c { $($t::$v => stringify!($v),)* _ => "?" }
        }
    };
}
codes!(token_code, token_name, AccessTokenErrorCode, InvalidRequest, InvalidGrant, InvalidClient, AccessDenied, UnsupportedResponseType,
       InvalidScope, ServerError, TemporarilyUnavailable);
codes!(issuer_code, issuer_name, CredentialIssuerErrorCode, InvalidRequest, InvalidToken, UnsupportedCredentialType,
       UnsupportedCredentialFormat, InvalidOrMissingProof);

fn to_name(endpoint: &str, code: &str) -> Option<String> {
    Some(if endpoint == "token" { <&str>::from(token_code(code)?).to_owned() } else { <&str>::from(issuer_code(code)?).to_owned() })
}
fn to_json(endpoint: &str, code: &str) -> Option<String> {
    (if endpoint == "token" { serde_json::to_string(&token_code(code)?) } else { serde_json::to_string(&issuer_code(code)?) }).ok()
}
fn from_text(endpoint: &str, t: &str) -> String {
    if endpoint == "token" {
        AccessTokenErrorCode::try_from(t.to_owned()).map_or("", |c| token_name(&c)).to_owned()
    } else {
        CredentialIssuerErrorCode::try_from(t.to_owned()).map_or("", |c| issuer_name(&c)).to_owned()
    }
}
fn from_json(endpoint: &str, t: &str) -> String {
    if endpoint == "token" {
        serde_json::from_str::<AccessTokenErrorCode>(t).map_or("", |c| token_name(&c)).to_owned()
    } else {
        serde_json::from_str::<CredentialIssuerErrorCode>(t).map_or("", |c| issuer_name(&c)).to_owned()
    }
}

// ------------------------------------------------------------------ errors
/// An error of each kind, and the fields it was made of
fn validation(_: &str, r: &mut Rng) -> (ValidationError, Value) {
    let t = text(r);
    (ValidationError::Any { validation_message: t.clone() }, json!({ "validation_message": t }))
}
fn time(r: &mut Rng) -> (chrono::DateTime<chrono::Utc>, Value) {
    let secs = match r.below(3) {
        0 => r.next() as i64 % 60_000_000_000,
        1 => 1_500_000_000 + r.below(1_000_000_000) as i64,
        _ => r.below(5) as i64,
    };
    let nanos = *r.pick(&[0, 1, 999_999_999, 500_000_000, 123_456_000]);
    let d = Time { secs, nanos }.dt().unwrap();
    (d, json!(d.to_rfc3339_opts(SecondsFormat::AutoSi, true)))
}
fn opt_text(r: &mut Rng) -> Option<String> {
    r.chance(2, 3).then(|| text(r))
}
fn opt_bytes(r: &mut Rng) -> Option<Vec<u8>> {
    r.chance(2, 3).then(|| (0..r.below(40)).map(|_| r.below(256) as u8).collect())
}
fn jwt(name: &str, r: &mut Rng) -> Option<(JwtError, Value)> {
    use JwtError as J;
    Some(match name {
        "ValidationError" => {
            let (e, v) = validation("", r);
            (J::ValidationError(e), v)
        }
        "NotYetValid" => {
            let ((a, ja), (b, jb)) = (time(r), time(r));
            (J::NotYetValid { valid_from: a, now: b }, json!({"valid_from": ja, "now": jb}))
        }
        "NotValidAnymore" => {
            let ((a, ja), (b, jb)) = (time(r), time(r));
            (J::NotValidAnymore { valid_until: a, now: b }, json!({"valid_until": ja, "now": jb}))
        }
        "IssuerMismatch" => {
            let (a, b) = (opt_text(r), opt_text(r));
            (J::IssuerMismatch { expected_iss_in_jwt: a.clone(), actual_iss_in_jwt: b.clone() }, json!({"expected_iss_in_jwt": a, "actual_iss_in_jwt": b}))
        }
        "NoKeyFoundInProof" => (J::NoKeyFoundInProof, json!({})),
        "NoDidDocumentProvidedForKidAsDid" => (J::NoDidDocumentProvidedForKidAsDid, json!({})),
        "UnableToTransformIntoDid" => {
            let (a, b) = (text(r), text(r));
            (J::UnableToTransformIntoDid { kid: a.clone(), message: b.clone() }, json!({"kid": a, "message": b}))
        }
        "UnableToResolveDidInDidDocument" => {
            let (a, b) = (text(r), text(r));
            (J::UnableToResolveDidInDidDocument { did: a.clone(), message: b.clone() }, json!({"did": a, "message": b}))
        }
        "UnableToMapVerificationMethodToJwk" => {
            let a = text(r);
            (J::UnableToMapVerificationMethodToJwk { messsage: a.clone() }, json!({ "messsage": a }))
        }
        "UnableToTransformIntoJoseItem" => {
            let (a, b) = (text(r), text(r));
            (J::UnableToTransformIntoJoseItem { original_string: a.clone(), serde_message: b.clone() }, json!({"original_string": a, "serde_message": b}))
        }
        "UnsupportedAlgorithm" => {
            let a = text(r);
            (J::UnsupportedAlgorithm { algorithm: a.clone() }, json!({ "algorithm": a }))
        }
        "EdDSAHasNoXCoordinate" => (J::EdDSAHasNoXCoordinate, json!({})),
        "ESXXXHasNoXOrYCoordinate" => {
            let (a, x, y) = (text(r), opt_bytes(r), opt_bytes(r));
            (J::ESXXXHasNoXOrYCoordinate { algorithm: a.clone(), x: x.clone(), y: y.clone() }, json!({"algorithm": a, "x": x, "y": y}))
        }
        "SignatureNotInJwt" => {
            let a = text(r);
            (J::SignatureNotInJwt { jwt: a.clone() }, json!({ "jwt": a }))
        }
        "UnsupportedKeyTypeInJwtHeader" => {
            let (a, b) = (text(r), text(r));
            (J::UnsupportedKeyTypeInJwtHeader { key_name: a.clone(), key_type: b.clone() }, json!({"key_name": a, "key_type": b}))
        }
        "NonceMismatch" => {
            let (a, b) = (opt_text(r), text(r));
            (J::NonceMismatch { expected_nonce: a.clone(), actual_nonce: b.clone() }, json!({"expected_nonce": a, "actual_nonce": b}))
        }
        "AudienceMismatch" => {
            let (a, b) = (text(r), text(r));
            (J::AudienceMismatch { expected_aud_in_jwt: a.clone(), actual_aud_in_jwt: b.clone() }, json!({"expected_aud_in_jwt": a, "actual_aud_in_jwt": b}))
        }
        _ => return None,
    })
}
fn token(name: &str, wraps: &str, r: &mut Rng) -> Option<(AccessTokenError, Value)> {
    use AccessTokenError as A;
    Some(match name {
        "ValidationError" => {
            let (e, v) = validation("", r);
            (A::ValidationError(e), v)
        }
        "InvalidGrantType" => {
            let (a, b) = (text(r), (0..r.below(3)).map(|_| text(r)).collect::<Vec<_>>());
            (A::InvalidGrantType { requested_grant_type: a.clone(), accepted_grant_type: b.clone() }, json!({"requested_grant_type": a, "accepted_grant_type": b}))
        }
        "AuthorizedFlowNotSupported" => (A::AuthorizedFlowNotSupported, json!({})),
        "NoFlowSupportedInCredentialOffer" => (A::NoFlowSupportedInCredentialOffer, json!({})),
        "InvalidPreAuthorizedCodeFlowValues" => {
            let (a, b) = (r.chance(1, 2), r.chance(1, 2));
            (A::InvalidPreAuthorizedCodeFlowValues { should_pin_be_supplied: a, does_code_match: b }, json!({"should_pin_be_supplied": a, "does_code_match": b}))
        }
        "InvalidAuthorizedAndPreAuthorizedCodeFlow" => {
            let deeper = if wraps == name { "UserPinMismatch" } else { "" };
            let other = *r.pick(&["InvalidGrantType", "UserPinMismatch", "InvalidPreAuthorizedCodeFlowValues", "OptionsAreRequiredForEvaluation"]);
            let ((a, ja), (b, jb)) = (token(wraps, deeper, r)?, token(other, "", r)?);
            let null = |v: Value| if v == json!({}) { Value::Null } else { v };
            let (ja, jb) = (null(ja), null(jb));
            if r.chance(1, 2) {
                (A::InvalidAuthorizedAndPreAuthorizedCodeFlow { authorized_error: Box::new(a), pre_authorized_error: Box::new(b) },
                 json!({"authorized_error": ja, "pre_authorized_error": jb}))
            } else {
                (A::InvalidAuthorizedAndPreAuthorizedCodeFlow { authorized_error: Box::new(b), pre_authorized_error: Box::new(a) },
                 json!({"authorized_error": jb, "pre_authorized_error": ja}))
            }
        }
        "OptionsAreRequiredForEvaluation" => {
            let a = text(r);
            (A::OptionsAreRequiredForEvaluation { reason: a.clone() }, json!({ "reason": a }))
        }
        "UserPinMismatch" => (A::UserPinMismatch, json!({})),
        "CredentialOfferMustBeSupplied" => (A::CredentialOfferMustBeSupplied, json!({})),
        _ => return None,
    })
}
fn issuer(name: &str, wraps: &str, r: &mut Rng) -> Option<(CredentialIssuerError, Value)> {
    use CredentialIssuerError as C;
    Some(match name {
        "ValidationError" => {
            let (e, v) = validation("", r);
            (C::ValidationError(e), v)
        }
        "JwtError" => {
            let (e, v) = jwt(wraps, r)?;
            (C::JwtError(e), v)
        }
        "AuthorizedFlowNotSupported" => (C::AuthorizedFlowNotSupported, json!({})),
        "CredentialIdNotInIssuerMetadata" => {
            let a = text(r);
            (C::CredentialIdNotInIssuerMetadata { id: a.clone() }, json!({ "id": a }))
        }
        "InvalidCredentialOfferEncoding" => {
            let a = text(r);
            (C::InvalidCredentialOfferEncoding { error_message: a.clone() }, json!({ "error_message": a }))
        }
        "InvalidRequestedCredential" => {
            let (a, b) = (profile(r), (0..r.below(3)).map(|_| profile(r)).collect::<Vec<_>>());
            (
                C::InvalidRequestedCredential {
                    requested_credential: Box::new(serde_json::from_value(a.clone()).ok()?),
                    supported_formats: serde_json::from_value(json!(b)).ok()?,
                },
                json!({"requested_credential": a, "supported_formats": b}),
            )
        }
        "ExpiredCNonce" => {
            let ((a, ja), (b, jb)) = (time(r), time(r));
            let some = r.chance(2, 3);
            (C::ExpiredCNonce { now: a, expires_in: some.then_some(b) }, json!({"now": ja, "expires_in": some.then_some(jb)}))
        }
        "CredentialAndAcceptanceTokenSupplied" => (C::CredentialAndAcceptanceTokenSupplied, json!({})),
        "AuthorizationServerMetadataNotSupported" => (C::AuthorizationServerMetadataNotSupported, json!({})),
        "CredentialOfferMustBeSupplied" => (C::CredentialOfferMustBeSupplied, json!({})),
        "EvaluteCredentialRequestOptionsNotSupplied" => {
            let a = text(r);
            (C::EvaluteCredentialRequestOptionsNotSupplied { reason: a.clone() }, json!({ "reason": a }))
        }
        "CNonceIsExpired" => {
            let ((a, ja), (b, jb)) = (time(r), time(r));
            (C::CNonceIsExpired { now: a, expiry_timestamp: b }, json!({"now": ja, "expiry_timestamp": jb}))
        }
        "NoProofInCredentialRequest" => (C::NoProofInCredentialRequest, json!({})),
        _ => return None,
    })
}

fn info_out(i: &ErrorInformation) -> Value {
    let v = serde_json::to_value(i).unwrap_or(Value::Null);
    let mut want = json!({"code": i.code, "name": i.name, "description": i.description});
    if let Some(a) = &i.additional_information {
        want["additional_information"] = a.clone();
    }
    let shown: Value = serde_json::from_str(&i.to_string()).unwrap_or(Value::Null);
    let plain = |v: &Value| leaves(v).into_iter().filter(|l| l.1 != "null").collect::<Vec<_>>();
    let json = plain(&v) == plain(&want) && plain(&shown) == plain(&want);
    json!({"ok": true, "code": i.code, "name": esc(&i.name), "description": jtext(&i.description),
           "info": i.additional_information.as_ref().map_or(json!([]), flat), "json": json})
}
fn jtext(s: &str) -> String {
    esc(&Value::String(s.to_owned()).to_string())
}

fn returned<T: serde::Serialize + Clone, R: ToReturnObject<T, ErrorInformation, String>>(r: &R, warnings: &[String]) -> Value {
    let o = guard(|| {
        let mut o: ReturnObject<T, ErrorInformation, String> = r.to_return_object();
        for w in warnings {
            o = o.add_warning(w.clone());
        }
        json!({
            "ok": true,
            "info": opt(o.info.as_ref().map(|i| jleaves(&serde_json::to_value(i).unwrap()))),
            "error": opt(o.error.as_ref().map(|i| jleaves(&serde_json::to_value(i).unwrap()))),
            "warnings": opt(o.warnings.as_ref().map(|w| w.iter().map(|t| jtext(t)).collect::<Vec<_>>())),
            "leaves": jleaves(&serde_json::to_value(&o).unwrap()),
        })
    });
    o.unwrap_or_else(|_| json!({"ok": false, "info": [], "error": [], "warnings": [], "leaves": []}))
}
/// A return object of a value of some type
fn value_returned<E: Clone>(r: &mut Rng, warnings: &[String], e: Option<E>, via: &mut dyn FnMut(Result<Value, E>, &[String]) -> Value) -> (Value, Value) {
    let v = any(r, 3);
    let x = match e {
        Some(e) => Err(e),
        None => Ok(v.clone()),
    };
    (jleaves(&v), via(x, warnings))
}

// ------------------------------------------------------------------ cases
pub fn run(case: &Value, env: &mut Env, log: &mut Log) -> Vec<Value> {
    let s = |k: &str| case[k].as_str().unwrap_or("").to_owned();
    match s("kind").as_str() {
        "response" => {
            let c = fill(case, env);
            let plain = |k: &str| c[k].get(0).map(|t| serde_json::from_str::<String>(t.as_str().unwrap()).unwrap());
            let (d, mut u) = (plain("description"), plain("uri"));
            if u.is_some() && d.is_some() && env.rng.chance(1, 12) {
                u = d.clone();
            }
            let said: Vec<String> = d.iter().chain(&u).cloned().chain(guard(|| to_name(&s("endpoint"), &s("code"))).ok().flatten()).collect();
            let x = details(&s("details"), &said, &mut env.rng);
            let input = json!({"endpoint": s("endpoint"), "code": s("code"), "description": opt(d.as_ref().map(|t| jtext(t))),
                               "uri": opt(u.as_ref().map(|t| jtext(t))), "details": opt(x.as_ref().map(flat))});
            log.about("err", &input);
            let r = guard(|| {
                if s("endpoint") == "token" {
                    AccessToken::create_access_token_error_response(token_code(&s("code"))?, d, u, x).ok().and_then(|r| serde_json::to_string(&r).ok())
                } else {
                    CredentialIssuer::create_credential_error_response(&issuer_code(&s("code"))?, d, u, x).ok().and_then(|r| serde_json::to_string(&r).ok())
                }
            });
            let v = r.ok().flatten().and_then(|t| serde_json::from_str::<Value>(&t).ok());
            vec![json!({"op": "err", "in": input, "out": {"ok": v.is_some(), "leaves": v.as_ref().map_or(json!([]), jleaves)}})]
        }
        "name" => {
            let (e, c) = (s("endpoint"), s("code"));
            let input = json!({"dir": "name", "endpoint": e, "code": c, "text": ""});
            log.about("code", &input);
            let name = guard(|| to_name(&e, &c)).ok().flatten().unwrap_or_default();
            let js = guard(|| to_json(&e, &c)).ok().flatten().unwrap_or_default();
            let back = guard(|| from_text(&e, &name)).unwrap_or_default();
            let reread = guard(|| from_json(&e, &js)).unwrap_or_default();
            vec![json!({"op": "code", "in": input, "out": {"name": esc(&name), "json": esc(&js), "back": back, "reread": reread, "code": ""}})]
        }
        "text" => {
            let e = s("endpoint");
            let r = &mut env.rng;
            let name = [to_name("token", &s("code")), to_name("issuer", &s("code"))].into_iter().flatten().next().unwrap_or_default();
            let t = match s("text").as_str() {
                "same" => name,
                "variant" => {
                    let words: Vec<&str> = name.split('_').collect();
                    let (a, b) = (r.below(words.len()), r.below(words.len()));
                    match r.below(11) {
                        0 => s("code"),
                        1 => name.replace('_', "-"),
                        2 => name.to_uppercase(),
                        3 => name.replace('_', ""),
                        4 => name.replace('_', " "),
                        5 => s("code").chars().enumerate().map(|(i, c)| if i == 0 { c.to_ascii_lowercase() } else { c }).collect(),
                        6 => words.iter().rev().copied().collect::<Vec<_>>().join("_"),
                        7 => r.below(9).to_string(),
                        // some of its words
                        8 => words.iter().enumerate().filter(|(i, _)| *i != a).map(|(_, w)| *w).collect::<Vec<_>>().join("_"),
                        _ => words[a.min(b)..=a.max(b)].join("_"),
                    }
                }
                "near" => near(&name, env.k, r),
                "foreign" => (*r.pick(&[
                    "invalid_proof", "authorization_pending", "slow_down", "expired_token", "unauthorized_client", "unsupported_grant_type",
                    "issuance_pending", "invalid_credential_request", "interaction_required", "login_required", "insufficient_scope",
                    "invalid_redirect_uri", "invalid_client_metadata", "request_not_supported", "consent_required", "missing_proof", "error", "null",
                    "invalid_nonce", "invalid_pin", "invalid_credential", "unknown_credential_type", "unsupported_type", "unsupported_format",
                    "credential_request_denied", "invalid_target", "internal_error", "server_error_", "unavailable", "denied", "invalid",
                    "unsupported", "access_token_expired", "invalid_or_missing_nonce", "use_dpop_nonce", "unmet_authentication_requirements",
                ]))
                .to_owned(),
                _ => text(r),
            };
            let js = if r.chance(1, 2) { Value::String(t.clone()).to_string() } else { scrambled(&json!(t), r) };
            ["text", "json"]
                .iter()
                .map(|via| {
                    let input = json!({"dir": "text", "endpoint": e, "code": "", "text": esc(&t), "via": via});
                    log.about("code", &input);
                    let got = guard(|| if *via == "text" { from_text(&e, &t) } else { from_json(&e, &js) }).unwrap_or_else(|_| "?".to_owned());
                    json!({"op": "code", "in": input, "out": {"code": got}})
                })
                .collect()
        }
        kind @ ("info" | "return") => {
            let r = &mut env.rng;
            let (m, n, w) = (s("module"), s("name"), s("wraps"));
            let warnings: Vec<String> = (0..case["warnings"].as_u64().unwrap_or(0)).map(|i| if i > 0 && r.chance(1, 4) { "again".to_owned() } else { text(r) }).collect();
            // the error and what it was made of
            macro_rules! go {
                ($made:expr, $res:ident) => {{
                    let made = if n.is_empty() { None } else { Some($made.expect("a variant")) };
                    let (fields, shown) = made.as_ref().map_or((json!([]), String::new()), |(e, f)| (flat(f), jtext(&e.to_string())));
                    let mut input = json!({"module": m, "name": n, "wraps": w, "fields": fields, "text": shown});
                    if kind == "info" {
                        log.about("info", &input);
                        let e = made.unwrap().0;
                        let out = guard(|| info_out(&e.information())).unwrap_or_else(|_| json!({"ok": false}));
                        vec![json!({"op": "info", "in": input, "out": out})]
                    } else {
                        input["ok"] = json!(made.is_none());
                        input["warnings"] = json!(warnings.iter().map(|t| jtext(t)).collect::<Vec<_>>());
                        log.about("ret", &input);
                        let e = made.map(|x| x.0);
                        let mut evs = vec![];
                        // values of several types
                        let (v, out) = value_returned(r, &warnings, e.clone(), &mut |x, w| {
                            let x: $res<Value> = x;
                            returned(&x, w)
                        });
                        input["value"] = v;
                        evs.push(json!({"op": "ret", "in": input.clone(), "out": out}));
                        let t = text(r);
                        let x: $res<String> = match &e { Some(e) => Err(e.clone()), None => Ok(t.clone()) };
                        input["value"] = jleaves(&json!(t));
                        evs.push(json!({"op": "ret", "in": input.clone(), "out": returned(&x, &warnings)}));
                        let l: Vec<u32> = (0..r.below(4)).map(|_| r.next() as u32).collect();
                        let x: $res<Vec<u32>> = match e { Some(e) => Err(e), None => Ok(l.clone()) };
                        input["value"] = jleaves(&json!(l));
                        evs.push(json!({"op": "ret", "in": input, "out": returned(&x, &warnings)}));
                        evs
                    }
                }};
            }
            match m.as_str() {
                "token" => go!(token(&n, &w, r), AccessTokenResult),
                "issuer" => go!(issuer(&n, &w, r), CredentialIssuerResult),
                "jwt" => go!(jwt(&n, r), JwtResult),
                _ => go!(Some(validation(&n, r)), ValidationResult),
            }
        }
        k => panic!("no kind {k}"),
    }
}
