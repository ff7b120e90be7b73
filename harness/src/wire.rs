//! Messages read from JSON and written as JSON
use crate::env::Env;
use crate::util::*;
use openid4vci::access_token::{AccessTokenRequest, AccessTokenSuccessResponse};
use openid4vci::credential_issuer::{CredentialOffer, CredentialSuccessResponse};
use openid4vci::jwt::{ProofJwt, ProofJwtAdditionalHeader, ProofJwtBody, ProofJwtHeader};
use openid4vci::types::credential::{CredentialFormatProfile, CredentialSubject};
use openid4vci::types::credential_issuer_metadata::CredentialIssuerMetadata;
use openid4vci::types::credential_request::CredentialRequest;
use serde::de::{DeserializeOwned, MapAccess, SeqAccess, Visitor};
use serde::{Deserialize, Deserializer, Serialize};
use serde_json::{json, Map, Value};
use std::str::FromStr;

// ------------------------------------------------------------------ trees
/// A JSON document as the specification reads it: members in order, duplicates kept
pub struct Tree(Value);
fn node(t: &str, v: &str, m: Value, e: Value) -> Value {
    let plain: Option<String> = if t == "s" { serde_json::from_str(v).ok() } else { None };
    let at = plain.and_then(|s| chrono::DateTime::parse_from_rfc3339(&s).ok()).map(|d| Time::of(d.with_timezone(&chrono::Utc)).json());
    json!({"t": t, "v": esc(v), "i": opt(at), "m": m, "e": e})
}
pub fn tree(v: &Value) -> Value {
    match v {
        Value::Object(m) => node("o", "", Value::Array(m.iter().map(|(k, v)| json!([esc(k), tree(v)])).collect()), json!([])),
        Value::Array(a) => node("a", "", json!([]), Value::Array(a.iter().map(tree).collect())),
        Value::String(_) => node("s", &v.to_string(), json!([]), json!([])),
        Value::Number(_) => node("n", &v.to_string(), json!([]), json!([])),
        Value::Bool(_) => node("b", &v.to_string(), json!([]), json!([])),
        Value::Null => node("z", "null", json!([]), json!([])),
    }
}
impl<'de> Deserialize<'de> for Tree {
    fn deserialize<D: Deserializer<'de>>(d: D) -> Result<Self, D::Error> {
        struct V;
        impl<'de> Visitor<'de> for V {
            type Value = Tree;
            fn expecting(&self, f: &mut std::fmt::Formatter) -> std::fmt::Result {
                f.write_str("JSON")
            }
            fn visit_bool<E>(self, v: bool) -> Result<Tree, E> {
                Ok(Tree(tree(&json!(v))))
            }
            fn visit_i64<E>(self, v: i64) -> Result<Tree, E> {
                Ok(Tree(tree(&json!(v))))
            }
            fn visit_u64<E>(self, v: u64) -> Result<Tree, E> {
                Ok(Tree(tree(&json!(v))))
            }
            fn visit_f64<E>(self, v: f64) -> Result<Tree, E> {
                Ok(Tree(tree(&json!(v))))
            }
            fn visit_str<E>(self, v: &str) -> Result<Tree, E> {
                Ok(Tree(tree(&json!(v))))
            }
            fn visit_unit<E>(self) -> Result<Tree, E> {
                Ok(Tree(tree(&Value::Null)))
            }
            fn visit_seq<A: SeqAccess<'de>>(self, mut a: A) -> Result<Tree, A::Error> {
                let mut e = vec![];
                while let Some(x) = a.next_element::<Tree>()? {
                    e.push(x.0);
                }
                Ok(Tree(node("a", "", json!([]), Value::Array(e))))
            }
            fn visit_map<A: MapAccess<'de>>(self, mut a: A) -> Result<Tree, A::Error> {
                let mut m = vec![];
                while let Some((k, x)) = a.next_entry::<String, Tree>()? {
                    m.push(json!([esc(&k), x.0]));
                }
                Ok(Tree(node("o", "", Value::Array(m), json!([]))))
            }
        }
        d.deserialize_any(V)
    }
}

// ------------------------------------------------------------------ documents
pub fn any_json(r: &mut Rng, depth: usize) -> Value {
    match r.below(if depth == 0 { 5 } else { 8 }) {
        0 => json!(text(r)),
        1 => json!(r.next() as u32),
        2 => json!(r.chance(1, 2)),
        3 => Value::Null,
        4 => json!(-(r.below(1000) as i64)),
        5 | 6 => Value::Object((0..r.below(4)).map(|_| (text(r), any_json(r, depth - 1))).collect()),
        _ => Value::Array((0..r.below(4)).map(|_| any_json(r, depth - 1)).collect()),
    }
}
fn name(n: &str, env: &mut Env) -> String {
    if n.starts_with('{') {
        serde_json::from_str(&env.get(&format!("$name {n}"))).unwrap()
    } else {
        n.to_owned()
    }
}
fn fill(c: &Value, env: &mut Env) -> Value {
    let t = c[0].as_str().unwrap();
    match t {
        "o" => Value::Object(c[1].as_array().unwrap().iter().map(|m| (name(m[0].as_str().unwrap(), env), fill(&m[1], env))).collect()),
        "a" => Value::Array(c[1].as_array().unwrap().iter().map(|x| fill(x, env)).collect()),
        "?" if c[1] == "context" => match env.rng.below(3) {
            0 => Value::Object((0..env.rng.below(3)).map(|_| (text(&mut env.rng), any_json(&mut env.rng, 2))).collect()),
            1 => json!("https://www.w3.org/2018/credentials/v1"),
            _ => json!(text(&mut env.rng)),
        },
        "?" => any_json(&mut env.rng, 3),
        _ => {
            let v = c[1].as_str().unwrap();
            let r = &mut env.rng;
            match (v, v.get(..2)) {
                ("{bearer}", _) => json!(*r.pick(&["Bearer", "bearer", "BEARER", "bEARER", "BeArEr"])),
                ("{algname}", _) => json!(*r.pick(crate::env::ALGS)),
                (_, Some("{?")) => json!(r.chance(1, 2)),
                (_, Some("{@")) => {
                    let s = crate::proof::Shift::random(r);
                    json!(s.now.rfc3339(r))
                }
                _ => serde_json::from_str(&env.text(v)).unwrap(),
            }
        }
    }
}
fn kind(v: &Value, r: &mut Rng) -> Value {
    match r.below(9) {
        0 => Value::Null,
        1 => json!({}),
        2 => json!([]),
        3 => json!(text(r)),
        4 => json!(r.below(100)),
        5 => json!(true),
        6 => json!([v]),
        7 => json!({"a": v}),
        _ => json!(v.to_string()),
    }
}
/// Change one place of the document
fn mutate_doc(v: &mut Value, r: &mut Rng) {
    let deeper = r.chance(4, 5);
    match v {
        Value::Object(m) if !m.is_empty() && deeper => {
            let ks: Vec<String> = m.keys().cloned().collect();
            let k = r.pick(&ks).clone();
            mutate_doc(m.get_mut(&k).unwrap(), r);
        }
        Value::Array(a) if !a.is_empty() && deeper => {
            let i = r.below(a.len());
            mutate_doc(&mut a[i], r);
        }
        Value::Object(m) => match r.below(4) {
            0 | 1 => {
                let ks: Vec<String> = m.keys().cloned().collect();
                if !ks.is_empty() {
                    m.remove(r.pick(&ks));
                }
            }
            2 => {
                m.insert(format!("x-{}", r.word(4)), any_json(r, 2));
            }
            _ => *v = kind(v, r),
        },
        Value::Array(a) => match r.below(4) {
            0 if !a.is_empty() => {
                let i = r.below(a.len());
                a.remove(i);
            }
            1 if !a.is_empty() => {
                let i = r.below(a.len());
                let x = a[i].clone();
                for _ in 0..*r.pick(&[1, 2, 5, 60]) {
                    a.push(x.clone());
                }
            }
            2 => r.shuffle(a),
            _ => *v = kind(v, r),
        },
        Value::String(_) if r.chance(2, 3) => {
            let t = text(r);
            *v = json!(t);
        }
        x => *x = kind(x, r),
    }
}

/// The places that hold one of a list of registered texts
fn listed<'a>(v: &'a mut Value, o: &mut Vec<&'a mut Value>) {
    match v {
        Value::Object(m) => {
            for (k, x) in m {
                if matches!(k.as_str(), "format" | "grant_type" | "token_type" | "alg") && x.is_string() {
                    o.push(x);
                } else {
                    listed(x, o);
                }
            }
        }
        Value::Array(a) => a.iter_mut().for_each(|x| listed(x, o)),
        _ => {}
    }
}
fn other_value(v: &mut Value, k: usize, r: &mut Rng) {
    let mut at = vec![];
    listed(v, &mut at);
    if at.is_empty() {
        return;
    }
    let i = r.below(at.len());
    let s = at[i].as_str().unwrap().to_owned();
    *at[i] = json!(match r.below(7) {
        5 => (*r.pick(crate::env::OTHER_ALGS)).to_owned(),
        0 => (*r.pick(&["jwt_vc", "vp", "ldp_vc_json", "jwt_vc_json-LD", "json-ld", "anoncreds", "dc+sd-jwt", "vc+jwt", "vc+ld+json", "cwt_vc", "iso_mdl", "mso_mdl", "AnonCreds", "jwt_json", "ldp_vc_ld", "vc+sd-jwt", "ldp_vp", "jwt_vp_json", "mdoc", "mso", "jwt", "ldp", "jwt_vc_jsonld", "jwt_vc_json_ld", "sd-jwt", "ac_vc", "ld-vc"])).to_owned(),
        1 => (*r.pick(&["pre-authorized_code", "pre_authorized_code", "client_credentials", "refresh_token", "implicit", "password", "code",
            "urn:ietf:params:oauth:grant-type:jwt-bearer", "urn:ietf:params:oauth:grant-type:device_code", "urn:ietf:params:oauth:grant-type:token-exchange", "urn:ietf:params:oauth:grant-type:saml2-bearer",
            "urn:openid:params:grant-type:ciba", "urn:ietf:params:oauth:grant-type:uma-ticket", "authorization_code_pkce", "none", "token", "device_code", "urn:ietf:params:oauth:grant-type:refresh_token", "urn:ietf:params:oauth:grant-type:pre-authorized-code",
            "urn:ietf:params:oauth:grant-type:authorization_code", "authorization-code"])).to_owned(),
        2 => (*r.pick(&["mac", "PoP", "pop", "MAC", "Basic", "JWT", "jwt", "access_token", "urn:ietf:params:oauth:token-type:access_token", "example", "Digest", "DPoP", "N_A", "none", "Bearer token", "bearer_token", "Bearer,DPoP", "basic", ""])).to_owned(),
        _ => near(&s, k, r),
    });
}

// ------------------------------------------------------------------ what was read, field by field
fn put(m: &mut Map<String, Value>, k: &str, v: Option<impl Into<Value>>) {
    if let Some(v) = v {
        m.insert(k.to_owned(), v.into());
    }
}
fn subjects(o: &Option<std::collections::HashMap<String, CredentialSubject>>) -> Option<Value> {
    o.as_ref().map(|h| {
        Value::Object(
            h.iter()
                .map(|(k, c)| {
                    let mut m = Map::new();
                    put(&mut m, "mandatory", c.mandatory);
                    put(&mut m, "value_type", c.value_type.clone());
                    put(&mut m, "display", c.display.as_ref().map(|d| {
                        d.iter()
                            .map(|d| {
                                let mut x = Map::new();
                                put(&mut x, "name", d.name.clone());
                                put(&mut x, "locale", d.locale.clone());
                                Value::Object(x)
                            })
                            .collect::<Vec<_>>()
                    }));
                    (k.clone(), Value::Object(m))
                })
                .collect(),
        )
    })
}
pub fn profile_fields(p: &CredentialFormatProfile) -> Map<String, Value> {
    let mut m = Map::new();
    match p {
        CredentialFormatProfile::JwtVcJson { types, credential_subject, order } => {
            m.insert("format".into(), json!("jwt_vc_json"));
            m.insert("types".into(), json!(types));
            put(&mut m, "credentialSubject", subjects(credential_subject));
            put(&mut m, "order", order.clone());
        }
        CredentialFormatProfile::JwtVcJsonLd { types, credential_subject, order, .. } => {
            m.insert("format".into(), json!("jwt_vc_json-ld"));
            m.insert("types".into(), json!(types));
            put(&mut m, "credentialSubject", subjects(credential_subject));
            put(&mut m, "order", order.clone());
        }
        CredentialFormatProfile::LdpVc { context, types, credential_subject, order } => {
            m.insert("format".into(), json!("ldp_vc"));
            m.insert("@context".into(), serde_json::to_value(context).unwrap_or_default());
            m.insert("types".into(), json!(types));
            put(&mut m, "credentialSubject", subjects(credential_subject));
            put(&mut m, "order", order.clone());
        }
        CredentialFormatProfile::MsoMdoc { doctype, claims, order } => {
            m.insert("format".into(), json!("mso_mdoc"));
            m.insert("doctype".into(), json!(doctype));
            put(&mut m, "claims", subjects(claims));
            put(&mut m, "order", order.clone());
        }
    }
    m
}
fn offer_fields(o: &CredentialOffer) -> Option<Value> {
    let mut g = Map::new();
    put(&mut g, "authorization_code", o.grants.authorized_code_flow.as_ref().map(|a| {
        let mut m = Map::new();
        put(&mut m, "issuer_state", a.issuer_state.clone());
        m
    }));
    put(&mut g, "urn:ietf:params:oauth:grant-type:pre-authorized_code", o.grants.pre_authorized_code_flow.as_ref().map(|p| {
        let mut m = Map::new();
        put(&mut m, "pre-authorized_code", Some(p.code.clone()));
        put(&mut m, "user_pin_required", p.user_pin_required);
        m
    }));
    Some(json!({"credential_issuer": o.credential_issuer, "credentials": serde_json::to_value(&o.credentials).ok()?, "grants": g}))
}
fn metadata_fields(d: &CredentialIssuerMetadata) -> Option<Value> {
    // a defined parameter has a field of its own
    let own = ["credential_issuer", "authorization_server", "credential_endpoint", "batch_credential_endpoint", "credentials_supported"];
    let mut m: Map<String, Value> = d.additional_fields.clone().unwrap_or_default().into_iter().filter(|(k, _)| !own.contains(&k.as_str())).collect();
    put(&mut m, "credential_issuer", Some(d.credential_issuer.clone()));
    put(&mut m, "authorization_server", d.authorization_server.clone());
    put(&mut m, "credential_endpoint", Some(d.credential_endpoint.clone()));
    put(&mut m, "batch_credential_endpoint", d.batch_credential_endpoint.clone());
    let sup: Vec<Value> = d
        .credentials_supported
        .iter()
        .map(|s| {
            let mut m = profile_fields(&s.format);
            put(&mut m, "id", s.id.clone());
            put(&mut m, "cryptographic_binding_methods_supported", s.cryptographic_binding_mehtods_supported.clone());
            put(&mut m, "cryptographic_suites_supported", s.cryptographic_suites_supported.clone());
            put(&mut m, "display", s.display.as_ref().map(|ds| {
                ds.iter()
                    .map(|d| {
                        let mut m = Map::new();
                        put(&mut m, "name", Some(d.name.clone()));
                        put(&mut m, "locale", d.locale.clone());
                        put(&mut m, "logo", d.logo.as_ref().map(|l| {
                            let mut m = Map::new();
                            put(&mut m, "url", l.url.clone());
                            put(&mut m, "alt_text", l.alt_text.clone());
                            m
                        }));
                        put(&mut m, "description", d.description.clone());
                        put(&mut m, "background_color", d.background_color.clone());
                        put(&mut m, "text_color", d.text_color.clone());
                        Value::Object(m)
                    })
                    .collect::<Vec<_>>()
            }));
            Value::Object(m)
        })
        .collect();
    put(&mut m, "credentials_supported", Some(sup));
    Some(Value::Object(m))
}
fn request_fields(r: &CredentialRequest) -> Option<Value> {
    let mut m = profile_fields(&r.format);
    put(&mut m, "proof", r.proof.as_ref().map(|p| json!({"proof_type": p.proof_type, "jwt": p.jwt})));
    Some(Value::Object(m))
}
fn token_fields(t: &AccessTokenSuccessResponse) -> Option<Value> {
    let mut m = Map::new();
    put(&mut m, "access_token", Some(t.access_token.clone()));
    put(&mut m, "token_type", Some("Bearer"));
    put(&mut m, "expires_in", t.expires_in);
    put(&mut m, "scope", t.scope.clone());
    put(&mut m, "c_nonce", t.c_nonce.clone());
    put(&mut m, "c_nonce_expires_in", t.c_nonce_expires_in);
    put(&mut m, "authorization_pending", t.authorization_pending);
    put(&mut m, "interval", t.interval);
    Some(Value::Object(m))
}
fn header_fields(h: &ProofJwtHeader) -> Option<Value> {
    let mut m = Map::new();
    put(&mut m, "typ", Some(h.typ.clone()));
    put(&mut m, "alg", serde_json::to_value(&h.alg).ok());
    match &h.additional_header {
        Some(ProofJwtAdditionalHeader::KeyId(k)) => put(&mut m, "kid", Some(k.clone())),
        Some(ProofJwtAdditionalHeader::Jwk(k)) => put(&mut m, "jwk", Some(k.clone())),
        Some(ProofJwtAdditionalHeader::X5c(k)) => put(&mut m, "x5c", Some(k.clone())),
        None => {}
    }
    Some(Value::Object(m))
}
fn claims_fields(b: &ProofJwtBody) -> Option<Value> {
    let time = |t: &chrono::DateTime<chrono::Utc>| t.to_rfc3339_opts(chrono::SecondsFormat::Nanos, true);
    let mut m = Map::new();
    put(&mut m, "iss", b.issuer.clone());
    put(&mut m, "aud", Some(b.audience.clone()));
    put(&mut m, "sub", b.subject.clone());
    put(&mut m, "iat", Some(time(&b.issued_at)));
    put(&mut m, "nonce", Some(b.nonce.clone()));
    put(&mut m, "nbf", b.not_before.as_ref().map(time));
    put(&mut m, "exp", b.expires_at.as_ref().map(time));
    Some(Value::Object(m))
}
fn no_fields<T>(_: &T) -> Option<Value> {
    None
}

// ------------------------------------------------------------------ the call
const NOT_READ: fn() -> Value = || json!({"ok": false, "doc": [], "fields": [], "reread": false});
fn same_json<T: Serialize>(a: &T, b: &T) -> bool {
    serde_json::to_value(a).ok() == serde_json::to_value(b).ok()
}
fn exchange<T: DeserializeOwned + Serialize>(
    doc: &Value,
    way: usize,
    r: &mut Rng,
    fields: fn(&T) -> Option<Value>,
    equal: fn(&T, &T) -> bool,
) -> Value {
    let spaced = scrambled(doc, r);
    let read: Result<T, _> = match way % 4 {
        0 => serde_json::from_str(&spaced),
        1 => serde_json::from_value(doc.clone()),
        2 => serde_json::from_slice(doc.to_string().as_bytes()),
        _ => serde_json::from_reader(spaced.as_bytes()),
    };
    let Ok(x) = read else { return NOT_READ() };
    let written = match way % 3 {
        0 => serde_json::to_string(&x),
        1 => serde_json::to_string_pretty(&x),
        _ => serde_json::to_vec(&x).map(|v| String::from_utf8(v).unwrap_or_default()),
    }
    .unwrap_or_default();
    let Ok(t) = serde_json::from_str::<Tree>(&written) else {
        return json!({"ok": true, "doc": [tree(&Value::Null)], "fields": [], "reread": false});
    };
    let again = serde_json::from_str::<T>(&written).ok();
    let reread = again.as_ref().map_or(false, |y| equal(&x, y) && same_json(&x, y) && fields(&x) == fields(y));
    json!({"ok": true, "doc": [t.0], "fields": opt(fields(&x).map(|f| tree(&f))), "reread": reread})
}
fn compact(s: &str) -> Option<(String, String, String)> {
    let (h, r) = s.split_once('.')?;
    let (b, sig) = r.find('.').map_or((r, ""), |i| r.split_at(i));
    let text = |x: &str| unb64url(x).and_then(|b| String::from_utf8(b).ok());
    Some((text(h)?, text(b)?, sig.to_owned()))
}
fn plain(s: &str) -> Option<(String, String, String)> {
    let end = |s: &str| {
        let mut d = serde_json::Deserializer::from_str(s).into_iter::<Value>();
        d.next()?.ok()?;
        Some(d.byte_offset())
    };
    let (h, r) = s.split_at(end(s)?);
    let r = r.strip_prefix('.')?;
    let (b, sig) = r.split_at(end(r)?);
    Some((h.to_owned(), b.to_owned(), sig.to_owned()))
}
/// A header or claims, as a segment of a JWT
fn jwt_exchange(doc: &Value, header: bool, way: usize) -> Value {
    let h = json!({"typ": "openid4vci-proof+jwt", "alg": "ES256"});
    let b = json!({"aud": "a", "iat": "2020-01-01T00:00:00Z", "nonce": "n"});
    let (h, b) = if header { (doc, &b) } else { (&h, doc) };
    let s = |v: &Value| b64url(v.to_string().as_bytes());
    let sig = if way % 2 == 0 { ".c2ln" } else { "" };
    let text = format!("{}.{}{sig}", s(h), s(b));
    let Ok(j) = ProofJwt::from_str(&text) else { return NOT_READ() };
    let out: Result<String, _> = (&j).try_into();
    let Ok(out) = out else { return json!({"ok": true, "doc": [tree(&Value::Null)], "fields": [], "reread": false}) };
    // as a compact JWT, or as the texts of its parts joined by dots
    let parts = compact(&out).or_else(|| plain(&out));
    let Some((h2, b2, rest)) = parts else { return json!({"ok": true, "doc": [tree(&Value::Null)], "fields": [], "reread": false}) };
    let t = serde_json::from_str::<Tree>(if header { &h2 } else { &b2 }).map_or(tree(&Value::Null), |t| t.0);
    let again = format!("{}.{}{rest}", b64url(h2.as_bytes()), b64url(b2.as_bytes()));
    let reread = rest == sig && ProofJwt::from_str(&again).map_or(false, |k| same_json(&j, &k));
    let f = if header { header_fields(&j.header) } else { claims_fields(&j.body) };
    json!({"ok": true, "doc": [t], "fields": opt(f.map(|f| tree(&f))), "reread": reread})
}

pub struct Call {
    pub input: Value,
    doc: Value,
    kind: String,
    way: usize,
    rng: Rng,
}
pub fn build(case: &Value, env: &mut Env, rep: usize) -> Call {
    let kind = case["type"].as_str().unwrap().to_owned();
    let mut doc = fill(&case["doc"], env);
    if env.rng.chance(1, 6) {
        let k = env.rng.below(MUTATORS);
        other_value(&mut doc, k, &mut env.rng);
    } else if rep > 0 && env.rng.chance(1, 2) {
        for _ in 0..1 + env.rng.below(2) {
            mutate_doc(&mut doc, &mut env.rng);
        }
    }
    Call { input: json!({"type": kind, "doc": tree(&doc)}), doc, kind, way: env.rng.below(24), rng: env.rng.clone() }
}
impl Call {
    pub fn run(&self) -> Value {
        let (d, w) = (&self.doc, self.way);
        let mut r = self.rng.clone();
        let out = guard(|| match self.kind.as_str() {
            "offer" => exchange::<CredentialOffer>(d, w, &mut r, offer_fields, |a, b| a == b),
            "metadata" => exchange::<CredentialIssuerMetadata>(d, w, &mut r, metadata_fields, |_, _| true),
            "request" => exchange::<CredentialRequest>(d, w, &mut r, request_fields, |_, _| true),
            "profile" => exchange::<CredentialFormatProfile>(d, w, &mut r, |p| Some(Value::Object(profile_fields(p))), |a, b| a == b),
            "token_request" | "token_request_flat" => exchange::<AccessTokenRequest>(d, w, &mut r, no_fields, |a, b| a == b),
            "token_response" => exchange::<AccessTokenSuccessResponse>(d, w, &mut r, token_fields, |a, b| a == b),
            "credential_response" => exchange::<CredentialSuccessResponse>(d, w, &mut r, no_fields, |a, b| a == b),
            "header" if w % 2 == 0 => exchange::<ProofJwtHeader>(d, w, &mut r, header_fields, |_, _| true),
            "header" => jwt_exchange(d, true, w / 2),
            "claims" if w % 2 == 0 => exchange::<ProofJwtBody>(d, w, &mut r, claims_fields, |_, _| true),
            "claims" => jwt_exchange(d, false, w / 2),
            k => panic!("no message type {k}"),
        });
        match out {
            Ok(v) => v,
            Err(m) => json!({"ok": true, "doc": [tree(&json!(format!("PANIC {m}")))], "fields": [], "reread": false}),
        }
    }
}
