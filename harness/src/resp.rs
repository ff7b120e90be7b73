//! Success responses
use crate::env::{profile_of, Env};
use crate::errs;
use crate::proof::{proof_json, Shift};
use crate::token::{escaped, fill};
use crate::util::*;
use openid4vci::access_token::{AccessToken, AccessTokenSuccessResponse};
use openid4vci::credential_issuer::{CNonce, CredentialIssuer, CredentialOrAcceptanceToken, CredentialSuccessResponse};
use openid4vci::types::credential::CredentialFormatProfile;
use openid4vci::types::credential_request::CredentialRequest;
use openid4vci::types::token_type::AccessTokenType;
use openid4vci::validate::Validatable;
use serde_json::{json, Value};

enum What {
    Token,
    Cred(CredentialRequest, Option<CredentialFormatProfile>),
}
pub struct Call {
    pub input: Value,
    plain: Value,
    what: What,
    now: Time,
}

fn parsed(o: &Value) -> Option<Value> {
    o.get(0).map(|t| serde_json::from_str(t.as_str().unwrap()).unwrap())
}
fn text_of(o: &Value) -> Option<String> {
    parsed(o).map(|v| v.as_str().unwrap().to_owned())
}
fn number(o: &Value) -> Option<u32> {
    parsed(o).map(|v| v.as_u64().unwrap() as u32)
}

pub fn build(case: &Value, env: &mut Env) -> Option<Call> {
    let mut c = fill(case, env);
    let shift = Shift::random(&mut env.rng);
    c["now"] = shift.now.json();
    let what = if c["kind"] == "token" {
        What::Token
    } else {
        let mut r = profile_of(&mut env.rng, c["format"].as_str().unwrap());
        if let Some(p) = c["proof"].get_mut(0) {
            r["proof"] = proof_json(p, &shift, &mut env.rng).0;
        }
        let cred = match c["credformat"].as_str().unwrap() {
            "" => {
                c["cred"] = json!([]);
                None
            }
            f => {
                let v = profile_of(&mut env.rng, f);
                c["cred"] = jleaves(&v);
                Some(serde_json::from_value(v).ok()?)
            }
        };
        What::Cred(serde_json::from_value(r).ok()?, cred)
    };
    let mut input = escaped(&c);
    if c.get("cred").is_some() {
        input["cred"] = c["cred"].clone(); // its leaves are in ASCII form already
    }
    Some(Call { input, plain: c, what, now: shift.now })
}

/// The JSON text a response is sent as, read as plain JSON
fn sent(r: &impl serde::Serialize) -> (String, Value) {
    let t = serde_json::to_string(r).unwrap_or_default();
    let v = serde_json::from_str(&t).unwrap_or(Value::Null);
    (t, v)
}

impl Call {
    pub fn run(&self) -> Value {
        set_clock(self.now);
        self.run_now()
    }
    pub fn args(&self) -> String {
        match &self.what {
            What::Token => String::new(),
            What::Cred(r, c) => format!("{:?}{:?}", serde_json::to_string(r), c),
        }
    }
    pub fn run_now(&self) -> Value {
        let failed = |e: Value| json!({"ok": false, "err": e, "leaves": [], "at": [], "valid": false, "reread": false, "text": "", "decoded": []});
        let c = &self.plain;
        match &self.what {
            What::Token => {
                let r = guard(|| {
                    AccessToken::create_access_token_success_response(
                        text_of(&json!([c["access_token"]])).unwrap(),
                        AccessTokenType::Bearer,
                        number(&c["expires_in"]),
                        text_of(&c["scope"]),
                        text_of(&c["c_nonce"]),
                        number(&c["c_nonce_expires_in"]),
                        parsed(&c["authorization_pending"]).map(|b| b.as_bool().unwrap()),
                        number(&c["interval"]),
                    )
                    .map(|(r, at)| {
                        let (t, v) = sent(&r);
                        let valid = r.validate().is_ok();
                        let reread = serde_json::from_str::<AccessTokenSuccessResponse>(&t).map_or(false, |x| x == r);
                        json!({"ok": true, "err": errs::none(), "leaves": jleaves(&v), "at": Time::of(at).json(), "valid": valid, "reread": reread})
                    })
                    .map_err(|e| errs::token(&e))
                });
                match r {
                    Ok(Ok(v)) => v,
                    Ok(Err(e)) => failed(e),
                    Err(m) => failed(panicked(&m)["err"].clone()),
                }
            }
            What::Cred(req, cred) => {
                let what = match c["what"].as_str().unwrap() {
                    "token" => Some(CredentialOrAcceptanceToken::AcceptanceToken(text_of(&json!([c["token"]])).unwrap())),
                    "credential" => Some(CredentialOrAcceptanceToken::Credential(cred.clone().unwrap())),
                    _ => None,
                };
                let nonce = c["nonce"].get(0).map(|n| CNonce {
                    c_nonce: text_of(&json!([n["c_nonce"]])).unwrap(),
                    c_nonce_expires_in: number(&n["expires"]),
                });
                let r = guard(|| {
                    CredentialIssuer::create_credential_success_response(req, what, nonce)
                        .map(|(r, at)| {
                            let (t, v) = sent(&r);
                            let reread = serde_json::from_str::<CredentialSuccessResponse>(&t).map_or(false, |x| x == r);
                            let decoded = v["credential"]
                                .as_str()
                                .and_then(unb64url)
                                .and_then(|b| serde_json::from_slice::<Value>(&b).ok());
                            json!({"ok": true, "err": errs::none(), "leaves": jleaves(&v), "at": Time::of(at).json(), "reread": reread,
                                   "text": esc(&v["credential"].to_string()), "decoded": opt(decoded.map(|d| jleaves(&d)))})
                        })
                        .map_err(|e| errs::issuer(&e))
                });
                match r {
                    Ok(Ok(v)) => v,
                    Ok(Err(e)) => failed(e),
                    Err(m) => failed(panicked(&m)["err"].clone()),
                }
            }
        }
    }
}
