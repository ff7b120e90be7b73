//! Token evaluation
use crate::env::Env;
use crate::errs;
use crate::util::*;
use openid4vci::access_token::{AccessToken, AccessTokenRequest, EvaluateAccessTokenRequestOptions};
use openid4vci::credential_issuer::CredentialOffer;
use serde_json::{json, Map, Value};

const PRE: &str = "urn:ietf:params:oauth:grant-type:pre-authorized_code";

pub fn request(v: &Value) -> Option<AccessTokenRequest> {
    let pin = v["pin"].get(0).and_then(Value::as_str);
    let grant = if v["grant"] == "auth" { "authorization_code" } else { PRE };
    let mut inner = Map::new();
    inner.insert("grant_type".into(), json!(grant));
    if grant == PRE {
        inner.insert("pre_authorized_code".into(), v["code"].clone());
        if let Some(p) = pin {
            inner.insert("user_pin".into(), json!(p.parse::<u64>().unwrap()));
        }
    }
    let nested = json!({ "grant_type": inner });
    if let Ok(r) = serde_json::from_value(nested) {
        return Some(r);
    }
    // the flat form of the specification, for a library that reads it
    let mut flat = Map::new();
    flat.insert("grant_type".into(), json!(grant));
    if grant == PRE {
        flat.insert("pre-authorized_code".into(), v["code"].clone());
        if let Some(p) = pin {
            flat.insert("user_pin".into(), json!(p));
        }
    }
    serde_json::from_value(Value::Object(flat)).ok()
}

pub fn grants(o: &Value) -> Value {
    let mut g = Map::new();
    if let Some(a) = o["auth"].get(0) {
        let mut m = Map::new();
        if let Some(s) = a["state"].get(0) {
            m.insert("issuer_state".into(), s.clone());
        }
        g.insert("authorization_code".into(), Value::Object(m));
    }
    if let Some(p) = o["pre"].get(0) {
        let mut m = Map::new();
        m.insert("pre-authorized_code".into(), p["code"].clone());
        if let Some(r) = p["req"].get(0) {
            m.insert("user_pin_required".into(), r.clone());
        }
        g.insert(PRE.into(), Value::Object(m));
    }
    Value::Object(g)
}

pub fn offer(o: &Value, rng: &mut Rng) -> Option<CredentialOffer> {
    let creds: Vec<Value> = (0..rng.below(3)).map(|_| json!(text(rng))).collect();
    serde_json::from_value(json!({"credential_issuer": url(rng), "credentials": creds, "grants": grants(o)})).ok()
}

/// Replace stand-ins in every text
pub fn fill(v: &Value, env: &mut Env) -> Value {
    env.prepare(v);
    filled(v, env)
}
fn filled(v: &Value, env: &mut Env) -> Value {
    match v {
        Value::String(s) => json!(env.text(s)),
        Value::Array(a) => Value::Array(a.iter().map(|x| filled(x, env)).collect()),
        Value::Object(m) => Value::Object(m.iter().map(|(k, x)| (k.clone(), filled(x, env))).collect()),
        x => x.clone(),
    }
}
/// Texts in their ASCII form
pub fn escaped(v: &Value) -> Value {
    match v {
        Value::String(s) => json!(esc(s)),
        Value::Array(a) => Value::Array(a.iter().map(escaped).collect()),
        Value::Object(m) => Value::Object(m.iter().map(|(k, x)| (k.clone(), escaped(x))).collect()),
        x => x.clone(),
    }
}

pub struct Call {
    pub input: Value,
    req: AccessTokenRequest,
    offer: Option<Value>,
    pin: Option<Option<u64>>,
    seed: u64,
}

pub fn build(case: &Value, env: &mut Env) -> Option<Call> {
    let c = fill(case, env);
    let req = request(&c)?;
    let pin = c["opts"].get(0).map(|o| o["pin"].get(0).and_then(Value::as_str).map(|p| p.parse().unwrap()));
    Some(Call { input: escaped(&c), req, offer: c["offer"].get(0).cloned(), pin, seed: env.rng.next() })
}
impl Call {
    pub fn run(&self) -> Value {
        let mut rng = Rng(self.seed);
        let offer = self.offer.as_ref().and_then(|o| offer(o, &mut rng));
        let opts: Option<EvaluateAccessTokenRequestOptions> = self
            .pin
            .map(|p| serde_json::from_value(match p { Some(p) => json!({"expected_user_pin": p}), None => json!({}) }).unwrap());
        match guard(|| AccessToken::evaluate_access_token_request(&self.req, offer, opts)) {
            Ok(Ok(())) => json!({"ok": true, "err": errs::none()}),
            Ok(Err(e)) => json!({"ok": false, "err": errs::token(&e)}),
            Err(m) => panicked(&m),
        }
    }
}
