//! Credential request evaluation, pre-evaluation and the operations on the proof they are made of
use crate::env::{profile, Env, ALGS};
use crate::errs;
use crate::token::{escaped, fill, grants};
use crate::util::*;
use openid4vci::credential_issuer::{CNonceOptions, CredentialIssuer, CredentialOffer, EvaluateCredentialRequestOptions};
use openid4vci::jwt::ProofJwt;
use openid4vci::types::authorization_server_metadata::AuthorizationServerMetadata;
use openid4vci::types::credential_issuer_metadata::CredentialIssuerMetadata;
use openid4vci::types::credential_request::CredentialRequest;
use openid4vci::validate::Validatable;
use openid4vci::Document;
use serde_json::{json, Map, Value};
use std::str::FromStr;

pub const TYP: &str = "openid4vci-proof+jwt";

// ------------------------------------------------------------------ time
/// Abstract instants lie around <<10,0,0>>; concrete ones around `now`, whole days stretched
pub struct Shift {
    pub now: Time,
    stretch: i64,
}
impl Shift {
    pub fn random(rng: &mut Rng) -> Self {
        let secs = match rng.below(10) {
            0 => 0,
            1 => rng.below(86400 * 3) as i64,
            2 => 2_147_483_647 + rng.below(3) as i64 - 1,
            3 => 4_294_967_295 + rng.below(3) as i64 - 1,
            4 => 253_402_300_799 - 86400 * 10 - rng.below(2) as i64,
            5 => 951_782_400 + rng.below(86400 * 2) as i64,
            6 => (rng.next() % 250_000_000_000) as i64,
            _ => 1_600_000_000 + rng.below(800_000_000) as i64,
        };
        let nanos = match rng.below(6) {
            0 => 0,
            1 => 999_999_999,
            2 => 1,
            3 => 1_000_000 * rng.below(1000) as u32,
            _ => rng.below(1_000_000_000) as u32,
        };
        let room = (253_402_300_799 - secs) / 86400 / 8;
        let stretch = [1, 1, 1 + rng.below(40) as i64, 1 + rng.below(3650) as i64, 1 + rng.below(18_000) as i64][rng.below(5)];
        Shift { now: Time { secs, nanos }, stretch: stretch.min(room).max(1) }
    }
    pub fn fixed(now: Time) -> Self {
        Shift { now, stretch: 1 }
    }
    pub fn at(&self, t: &Value) -> Time {
        let (d, s, n) = (t[0].as_i64().unwrap(), t[1].as_i64().unwrap(), t[2].as_i64().unwrap());
        // distance from <<10,0,0>>: sub-day distances are kept, whole days are stretched
        let total = (d - 10) * 86400 + s;
        let (days, rest) = (total / 86400, total % 86400);
        self.now.add(days * 86400 * self.stretch + rest, n)
    }
}

// ------------------------------------------------------------------ JWT text
fn bad_json(good: &Value, required: &[&str], rng: &mut Rng) -> Vec<u8> {
    let text = good.to_string();
    let mut m = good.as_object().unwrap().clone();
    let r = *rng.pick(required);
    match rng.below(13) {
        12 => {
            // bytes that are no text, in a member without a definition
            let bad: &[u8] = *rng.pick(&[&[0xff][..], &[0xc3, 0x28], &[0xed, 0xa0, 0x80], &[0x80], &[0xf4, 0x90, 0x80, 0x80], &[0xc0, 0xaf]]);
            let (open, close) = *rng.pick(&[("\"x\":\"", "\""), ("\"x\":[{\"y\":\"a", "b\"}]"), ("\"", "\":1")]);
            if rng.chance(1, 2) {
                [b"{", open.as_bytes(), bad, close.as_bytes(), b",", &text.as_bytes()[1..]].concat()
            } else {
                [&text.as_bytes()[..text.len() - 1], b",", open.as_bytes(), bad, close.as_bytes(), b"}"].concat()
            }
        }
        0 => text[..text.len() - 1].as_bytes().to_vec(),
        1 => format!("{text}x").into_bytes(),
        2 => b"[]".to_vec(),
        3 => b"null".to_vec(),
        4 => Value::String(text).to_string().into_bytes(),
        5 => vec![],
        6 => [&text.as_bytes()[..text.len() - 2], &[0xff, 0xfe], &text.as_bytes()[text.len() - 2..]].concat(),
        7 | 8 => {
            m.remove(r);
            Value::Object(m).to_string().into_bytes()
        }
        9 => {
            m.insert(r.to_owned(), json!(17));
            if r == "iat" { m.remove(r); }
            Value::Object(m).to_string().into_bytes()
        }
        10 => {
            m.insert(r.to_owned(), Value::Null);
            Value::Object(m).to_string().into_bytes()
        }
        _ => {
            m.insert(r.to_owned(), json!({"x": [1]}));
            Value::Object(m).to_string().into_bytes()
        }
    }
}
fn bad_segment(good: &Value, required: &[&str], claims: bool, rng: &mut Rng) -> String {
    let b = b64url(good.to_string().as_bytes());
    match rng.below(11) {
        10 => {
            // the other alphabet
            let mut m = good.as_object().unwrap().clone();
            for i in 0..40 {
                m.insert("zz".into(), json!(format!("{}?>~?>~?>~", rng.word(1 + i % 3))));
                let t = b64url(Value::Object(m.clone()).to_string().as_bytes());
                if t.contains(['-', '_']) {
                    return t.replace('-', "+").replace('_', "/");
                }
            }
            format!("{b}+")
        }
        8 => {
            let sp = *rng.pick(&[" ", "\n", "\t", "\r\n", "\u{a0}", "\u{0}"]);
            if rng.chance(1, 2) { format!("{sp}{b}") } else { format!("{b}{sp}") }
        }
        9 => match good.to_string().len() % 3 {
            0 => format!("{b}="),
            1 => format!("{b}=="),
            _ => format!("{b}="),
        },
        0 => format!("!{b}"),
        1 => format!("{b}\u{e9}"),
        2 => format!("{} {}", &b[..b.len() / 2], &b[b.len() / 2..]),
        3 => good.to_string().replace('.', "%2e"),
        4 if claims => {
            let mut m = good.as_object().unwrap().clone();
            let (k, v) = match rng.below(7) {
                0 => ("iat", json!("yesterday")),
                1 => ("iat", json!("2018-09-14")),
                2 => ("exp", json!("never")),
                3 => ("nbf", json!(true)),
                4 => ("iss", json!(["a"])),
                5 => ("aud", json!([m["aud"].clone()])),
                _ => ("iat", json!("2018-13-45T99:19:10Z")),
            };
            m.insert(k.into(), v);
            b64url(Value::Object(m).to_string().as_bytes())
        }
        _ => b64url(&bad_json(good, required, rng)),
    }
}
fn casing(s: &str, rng: &mut Rng) -> String {
    match rng.below(4) {
        0 => s.to_uppercase(),
        1 => s.chars().map(|c| if rng.chance(1, 2) { c.to_ascii_uppercase() } else { c }).collect(),
        _ => s.to_owned(),
    }
}
fn extra(v: &Value, into: &mut Map<String, Value>) {
    for x in v.as_array().unwrap() {
        let (n, j) = x.as_str().unwrap().split_once('=').unwrap();
        into.insert(n.to_owned(), serde_json::from_str(j).unwrap());
    }
}

/// Builds the JWT text and fills in what the log needs
pub fn jwt_text(j: &mut Value, shift: &Shift, rng: &mut Rng) -> String {
    let keytext = j["keytext"].as_bool().unwrap();
    let mut h = Map::new();
    if j["h"]["typ"] == TYP {
        j["h"]["typ"] = json!(casing(TYP, rng));
    }
    h.insert("typ".into(), j["h"]["typ"].clone());
    h.insert("alg".into(), j["h"]["alg"].clone());
    for k in ["kid", "jwk", "x5c"] {
        if let Some(x) = j["h"][k].get(0).cloned() {
            let v = match (k, keytext) {
                ("jwk", false) => serde_json::from_str(x.as_str().unwrap()).unwrap(),
                ("x5c", false) => json!([x]),
                _ => x,
            };
            h.insert(k.into(), v);
        }
    }
    extra(&j["h"]["extra"], &mut h);
    let mut b = Map::new();
    b.insert("aud".into(), j["b"]["aud"].clone());
    b.insert("nonce".into(), j["b"]["nonce"].clone());
    for (k, key) in [("iss", "iss"), ("sub", "sub")] {
        match j["b"][k].get(0) {
            Some(x) => { b.insert(key.into(), x.clone()); }
            None if rng.chance(1, 12) => { b.insert(key.into(), Value::Null); }
            None => {}
        }
    }
    // often one of the other instants of the proof, to the nanosecond or nearly so
    let others: Vec<Time> = ["nbf", "exp"].iter().filter_map(|k| j["b"][*k].get(0)).map(|t| shift.at(t)).collect();
    let iat = match rng.below(6) {
        0 | 1 if !others.is_empty() => {
            let t = *rng.pick(&others);
            match rng.below(4) {
                0 => t.add(*rng.pick(&[-1, 1]), 0),
                _ => t,
            }
        }
        0 => Time { secs: (rng.next() % 253_402_000_000) as i64, nanos: 0 },
        1 => shift.now.add(1 + rng.below(1_000_000) as i64, 0),
        2 => shift.now,
        _ => shift.now.add(-(rng.below(1000) as i64), 0),
    };
    let iat = if iat.secs > 253_402_000_000 { shift.now } else { iat };
    j["b"]["iat"] = iat.json();
    b.insert("iat".into(), json!(iat.rfc3339(rng)));
    for k in ["nbf", "exp"] {
        if let Some(t) = j["b"][k].get(0).cloned() {
            let t = shift.at(&t);
            b.insert(k.into(), json!(t.rfc3339(rng)));
            j["b"][k] = json!([t.json()]);
        }
    }
    extra(&j["b"]["extra"], &mut b);
    let (h, b) = (Value::Object(h), Value::Object(b));
    let hs = if j["hok"] == true { b64url(scrambled(&h, rng).as_bytes()) } else { bad_segment(&h, &["typ", "alg"], false, rng) };
    let bs = if j["bok"] == true { b64url(scrambled(&b, rng).as_bytes()) } else { bad_segment(&b, &["aud", "iat", "nonce"], true, rng) };
    j["input"] = json!(digest(&esc(&format!("{hs}.{bs}"))));
    let n = j["nseg"].as_u64().unwrap() as usize;
    let mut segs = vec![hs, bs];
    if n >= 3 {
        segs.push(j["sig"][0].as_str().unwrap().to_owned());
    }
    while segs.len() < n {
        let s = match rng.below(4) {
            0 => String::new(),
            1 => segs[0].clone(),
            2 => segs[1].clone(),
            _ => rng.word(20),
        };
        segs.push(s);
    }
    segs.truncate(n);
    segs.join(".")
}

// ------------------------------------------------------------------ DID documents
fn base58(b: &[u8]) -> String {
    const A: &[u8] = b"123456789ABCDEFGHJKLMNPQRSTUVWXYZabcdefghijkmnopqrstuvwxyz";
    let mut digits: Vec<u32> = vec![];
    for &x in b {
        let mut carry = u32::from(x);
        for d in &mut digits {
            carry += *d << 8;
            *d = carry % 58;
            carry /= 58;
        }
        while carry > 0 {
            digits.push(carry % 58);
            carry /= 58;
        }
    }
    let zeros = b.iter().take_while(|x| **x == 0).count();
    "1".repeat(zeros) + &digits.iter().rev().map(|d| A[*d as usize] as char).collect::<String>()
}
fn vm_json(vm: &Value, rng: &mut Rng) -> Value {
    let first = vm["key"]["bytes"].get(0).and_then(Value::as_str).unwrap_or("");
    let key = unhex(first);
    let id = &vm["id"];
    let mut m = Map::new();
    m.insert("id".into(), id.clone());
    m.insert("controller".into(), json!(format!("did:example:{}", rng.word(4))));
    match vm["key"]["kind"].as_str().unwrap() {
        "okp" => match rng.below(4) {
            0 => {
                m.insert("type".into(), json!("Ed25519VerificationKey2018"));
                m.insert("publicKeyBase58".into(), json!(base58(&key)));
            }
            1 => {
                m.insert("type".into(), json!("Ed25519VerificationKey2020"));
                m.insert("publicKeyMultibase".into(), json!(format!("z{}", base58(&[&[0xed, 0x01], &key[..]].concat()))));
            }
            _ => {
                m.insert("type".into(), json!("JsonWebKey2020"));
                let mut j = json!({"kty": "OKP", "crv": "Ed25519", "x": b64url(&key)});
                if rng.chance(1, 2) {
                    j["alg"] = json!("EdDSA");
                }
                m.insert("publicKeyJwk".into(), j);
            }
        },
        "ec" => {
            let y = unhex(&vm["key"]["bytes"][1].as_str().unwrap()[2 + first.len()..]);
            m.insert("type".into(), json!("JsonWebKey2020"));
            m.insert("publicKeyJwk".into(), json!({"kty": "EC", "crv": *rng.pick(&["P-256", "secp256k1"]), "x": b64url(&key), "y": b64url(&y)}));
        }
        "rsa" => {
            m.insert("type".into(), json!("JsonWebKey2020"));
            m.insert("publicKeyJwk".into(), json!({"kty": "RSA", "n": b64url(&key), "e": "AQAB"}));
        }
        _ => {
            m.insert("type".into(), json!("JsonWebKey2020"));
        }
    }
    Value::Object(m)
}
pub fn document(d: &Value, rng: &mut Rng) -> Option<Document> {
    let mut m = Map::new();
    m.insert("@context".into(), json!(["https://www.w3.org/ns/did/v1"]));
    m.insert("id".into(), d["id"].clone());
    for vm in d["vms"].as_array().unwrap() {
        let rel = vm["rel"].as_str().unwrap();
        let j = vm_json(vm, rng);
        if rel == "verificationMethod" && rng.chance(1, 4) {
            // a reference besides the definition
            let r = *rng.pick(&["authentication", "assertionMethod"]);
            m.entry(r).or_insert(json!([])).as_array_mut().unwrap().push(vm["id"].clone());
        }
        m.entry(rel).or_insert(json!([])).as_array_mut().unwrap().push(j);
    }
    serde_json::from_value(Value::Object(m)).ok()
}
const RELS: &[&str] = &["verificationMethod", "authentication", "assertionMethod", "keyAgreement", "capabilityInvocation", "capabilityDelegation"];
fn pad_document(d: &mut Value, env: &mut Env) {
    let n = match env.rng.below(40) {
        0 => 70,
        1..=6 => 1 + env.rng.below(4),
        _ => 0,
    };
    for i in 0..n {
        let rel = if env.rng.chance(2, 3) { "verificationMethod" } else { *env.rng.pick(RELS) };
        let vm = json!({"id": format!("did:example:filler{}#{i}", env.rng.word(3)), "rel": rel,
            "key": {"kind": "okp", "bytes": [(0..32).map(|_| format!("{:02x}", env.rng.below(256))).collect::<String>()]}});
        let v = d["vms"].as_array_mut().unwrap();
        let at = env.rng.below(v.len() + 1);
        v.insert(at, vm);
    }
}

// ------------------------------------------------------------------ issuer metadata
pub fn metadata(iss: &Value, entries: &[(Option<String>, Value)], rng: &mut Rng) -> Option<CredentialIssuerMetadata> {
    let sup: Vec<Value> = entries
        .iter()
        .map(|(id, cred)| {
            let mut m = cred.as_object().unwrap().clone();
            if let Some(id) = id {
                m.insert("id".into(), json!(id));
            }
            if rng.chance(1, 5) {
                m.insert("display".into(), json!([{"name": text(rng), "logo": {"url": "https://example.com/l.png"}}]));
            }
            Value::Object(m)
        })
        .collect();
    let mut m = json!({"credential_issuer": iss, "credential_endpoint": format!("https://{}.example.com/credential", rng.word(3)), "credentials_supported": sup});
    if rng.chance(1, 4) {
        m["authorization_server"] = json!(url(rng));
    }
    serde_json::from_value(m).ok()
}

// ------------------------------------------------------------------ the call
pub struct Call {
    pub input: Value,
    pub md: CredentialIssuerMetadata,
    pub req: CredentialRequest,
    pub offer: Option<CredentialOffer>,
    pub asmeta: Option<AuthorizationServerMetadata>,
    pub doc: Option<Document>,
    pub opts: Option<EvaluateCredentialRequestOptions>,
    pub jwt: Option<String>,
    pub now: Time,
}

/// The proof object of a request, and the JWT in it
pub fn proof_json(p: &mut Value, shift: &Shift, rng: &mut Rng) -> (Value, String) {
    let t = jwt_text(&mut p["jwt"], shift, rng);
    let mut m = json!({"jwt": t});
    if p["ptype"] == "jwt" {
        if rng.chance(1, 10) {
            p["ptype"] = json!("JWT"); // the default
        } else {
            p["ptype"] = json!(casing("jwt", rng));
            m["proof_type"] = p["ptype"].clone();
        }
    } else {
        m["proof_type"] = p["ptype"].clone();
    }
    (m, t)
}

pub fn build(case: &Value, env: &mut Env) -> Option<Call> {
    let shift = Shift::random(&mut env.rng);
    build_at(case, env, &shift)
}
pub fn build_at(case: &Value, env: &mut Env, shift: &Shift) -> Option<Call> {
    let mut c = fill(case, env);
    // nonce lifetime: move the creation time and the lifetime together
    let mut opts = None;
    if let Some(o) = c["opts"].get_mut(0) {
        let nonce = o["nonce"].get_mut(0).map(|n| {
            let mut created = shift.now.add(
                (n["created"][0].as_i64().unwrap() - 10) * 86400 + n["created"][1].as_i64().unwrap(),
                n["created"][2].as_i64().unwrap(),
            );
            let mut ttl = n["ttl"]["d"].as_i64().unwrap() * 86400 + n["ttl"]["s"].as_i64().unwrap();
            if ttl > 0 {
                let longest = i64::from(u32::MAX);
                let new = match env.rng.below(8) {
                    0 => longest,
                    1 => i64::from(i32::MAX) + env.rng.below(3) as i64,
                    2 => (env.rng.next() % 4_294_967_296) as i64,
                    3 => 1 + env.rng.below(10) as i64,
                    4 => 300,
                    5 => 65536 + env.rng.below(2) as i64,
                    6 => 86400 * (1 + env.rng.below(400) as i64),
                    _ => ttl,
                };
                created = created.add(ttl - new, 0);
                ttl = new;
            }
            n["created"] = created.json();
            n["ttl"] = lifetime(ttl as u32);
            CNonceOptions {
                c_nonce_expires_in: ttl as u32,
                expected_c_nonce: n["expected"].as_str().unwrap().to_owned(),
                c_nonce_created_at: created.dt().unwrap(),
            }
        });
        let client_id = o["client"].get(0).and_then(Value::as_str).map(ToOwned::to_owned);
        opts = Some(EvaluateCredentialRequestOptions { c_nonce: nonce, client_id });
    }
    c["now"] = shift.now.json();
    // issuer metadata, at times with many more entries
    let mut ids: Vec<Option<String>> =
        c["md"]["ids"].as_array().unwrap().iter().map(|i| i.get(0).and_then(Value::as_str).map(ToOwned::to_owned)).collect();
    if env.rng.chance(1, 40) {
        for i in 0..200 {
            let at = env.rng.below(ids.len() + 1);
            ids.insert(at, (i % 3 > 0).then(|| format!("filler-{i}-{}", env.rng.word(3))));
        }
    }
    c["md"]["ids"] = Value::Array(ids.iter().map(|i| opt(i.clone())).collect());
    // the other texts of the call, to be confused with the ones that count
    let aud = c["proof"].get(0).map_or(Value::Null, |p| p["jwt"]["b"]["aud"].clone());
    let confusing = |r: &mut Rng, c: &Value| -> Value {
        match r.below(5) {
            0 | 1 => aud.clone(),
            2 => json!(near(c["md"]["iss"].as_str().unwrap(), r.below(MUTATORS), r)),
            3 => json!(url(r)),
            _ => c["md"]["iss"].clone(),
        }
    };
    let entries: Vec<(Option<String>, Value)> = ids
        .into_iter()
        .map(|i| (i, json!({"format": "jwt_vc_json", "types": [env.rng.word(3)]})))
        .collect();
    let mut md = metadata(&c["md"]["iss"], &entries, &mut env.rng)?;
    if let (true, Some(x)) = (env.rng.chance(1, 4), confusing(&mut env.rng, &c).as_str()) {
        match env.rng.below(4) {
            0 => md.authorization_server = Some(x.to_owned()),
            1 => md.credential_endpoint = x.to_owned(),
            2 => md.batch_credential_endpoint = Some(x.to_owned()),
            _ => md.additional_fields = Some([("issuer".to_owned(), json!(x)), ("token_endpoint".to_owned(), json!(x))].into()),
        }
    }
    let offered_by = if env.rng.chance(1, 2) { confusing(&mut env.rng, &c) } else { c["md"]["iss"].clone() };
    let offered_by = if offered_by.is_string() { offered_by } else { c["md"]["iss"].clone() };
    let offer = match c["offer"].get(0) {
        Some(o) => {
            let n = env.rng.below(3);
            let listed: Vec<Value> = (0..n).map(|_| if env.rng.chance(1, 2) { json!(text(&mut env.rng)) } else { profile(&mut env.rng) }).collect();
            Some(serde_json::from_value(json!({"credential_issuer": offered_by, "credentials": listed, "grants": grants(o)})).ok()?)
        }
        None => None,
    };
    let asmeta = if c["asmeta"] == true { Some(serde_json::from_value(json!({})).ok()?) } else { None };
    // request
    let mut r: Map<String, Value> = serde_json::from_str(c["cred"].as_str().unwrap()).ok()?;
    let mut text_of_jwt = None;
    if let Some(p) = c["proof"].get_mut(0) {
        let (m, t) = proof_json(p, shift, &mut env.rng);
        r.insert("proof".into(), m);
        text_of_jwt = Some(t);
    }
    let req: CredentialRequest = serde_json::from_value(Value::Object(r)).ok()?;
    c["cred"] = json!(digest(&canon(&serde_json::to_value(&req.format).ok()?)));
    let doc = match c["doc"].get_mut(0) {
        Some(d) => {
            pad_document(d, env);
            Some(document(d, &mut env.rng)?)
        }
        None => None,
    };
    Some(Call { input: escaped(&c), md, req, offer, asmeta, doc, opts, jwt: text_of_jwt, now: shift.now })
}

/// Header and claims the message states, if it is the JSON text of the two
pub fn stated(text: &str) -> Option<Value> {
    let mut s = serde_json::Deserializer::from_str(text).into_iter::<Value>();
    let h = s.next()?.ok()?;
    let rest = text.get(s.byte_offset()..)?.strip_prefix('.')?;
    let b: Value = serde_json::from_str(rest).ok()?;
    let (h, b) = (h.as_object()?, b.as_object()?);
    let t = |m: &Map<String, Value>, k: &str| m.get(k).and_then(Value::as_str).map(esc).unwrap_or_default();
    let o = |m: &Map<String, Value>, k: &str| match m.get(k) {
        None | Some(Value::Null) => json!([]),
        Some(Value::String(s)) => json!([esc(s)]),
        Some(x) => json!([ecanon(x)]),
    };
    let time = |m: &Map<String, Value>, k: &str| match m.get(k) {
        None | Some(Value::Null) => json!([]),
        Some(Value::String(s)) => match chrono::DateTime::parse_from_rfc3339(s) {
            Ok(t) => json!([Time::of(t.into()).json()]),
            Err(_) => json!([[0, 0, -1]]),
        },
        Some(_) => json!([[0, 0, -2]]),
    };
    let extra = |m: &Map<String, Value>, known: &[&str]| {
        let mut v: Vec<String> =
            m.iter().filter(|(k, _)| !known.contains(&k.as_str())).map(|(k, v)| esc(&format!("{k}={}", canon(v)))).collect();
        v.sort();
        json!(v)
    };
    let iat = time(b, "iat");
    Some(json!({
        "h": {"typ": t(h, "typ"), "alg": t(h, "alg"), "kid": o(h, "kid"), "jwk": o(h, "jwk"), "x5c": o(h, "x5c"),
              "extra": extra(h, &["typ", "alg", "kid", "jwk", "x5c"])},
        "b": {"iss": o(b, "iss"), "aud": t(b, "aud"), "sub": o(b, "sub"), "iat": iat.get(0).cloned().unwrap_or(json!([0, 0, -3])),
              "nonce": t(b, "nonce"), "nbf": time(b, "nbf"), "exp": time(b, "exp"),
              "extra": extra(b, &["iss", "aud", "sub", "iat", "nonce", "nbf", "exp"])}
    }))
}
pub fn message(m: &[u8]) -> Value {
    let t = String::from_utf8_lossy(m);
    json!({"text": digest(&esc(&t)), "json": opt(stated(&t))})
}
fn alg_name(a: &impl serde::Serialize) -> String {
    match serde_json::to_value(a) {
        Ok(Value::String(s)) => esc(&s),
        _ => "?".to_owned(),
    }
}
fn res<T>(r: Result<Result<T, Value>, String>, value: impl FnOnce(T) -> Value) -> Value {
    match r {
        Ok(Ok(t)) => json!({"ok": true, "err": errs::none(), "res": [value(t)]}),
        Ok(Err(e)) => json!({"ok": false, "err": e, "res": []}),
        Err(m) => {
            let mut v = panicked(&m);
            v["res"] = json!([]);
            v
        }
    }
}

impl Call {
    pub fn eval(&self) -> Value {
        set_clock(self.now);
        self.eval_now()
    }
    pub fn eval_now(&self) -> Value {
        res(
            guard(|| {
                CredentialIssuer::evaluate_credential_request(
                    &self.md,
                    &self.req,
                    self.offer.as_ref(),
                    self.asmeta.as_ref(),
                    self.doc.as_ref(),
                    self.opts.clone(),
                )
                .map_err(|e| errs::issuer(&e))
            }),
            |r| {
                json!({"subject": eopt(r.subject_id.as_deref()),
                       "pop": opt(r.proof_of_possession.as_ref().map(|p| json!({
                           "alg": alg_name(&p.algorithm), "key": hex(&p.public_key), "message": message(&p.message),
                           "sig": esc(&String::from_utf8_lossy(&p.signature))}))),
                       "cred": esc(&digest(&canon(&serde_json::to_value(&r.credential).unwrap_or(Value::Null))))})
            },
        )
    }
    pub fn pre(&self) -> Value {
        res(
            guard(|| CredentialIssuer::pre_evaluate_credential_request(&self.req).map_err(|e| errs::issuer(&e))),
            |r| json!({"did": eopt(r.did.as_deref())}),
        )
    }
    /// The operations of the proof, one by one
    pub fn ops(&self) -> Value {
        set_clock(self.now);
        self.ops_now()
    }
    pub fn ops_now(&self) -> Value {
        let Some(text) = &self.jwt else { return json!([]) };
        let parsed = guard(|| ProofJwt::from_str(text));
        let unit = |()| json!({"none": true});
        let parse = match &parsed {
            Ok(Ok(_)) => json!({"ok": true, "err": errs::none(), "res": []}),
            Ok(Err(e)) => json!({"ok": false, "err": errs::validation(e), "res": []}),
            Err(m) => {
                let mut v = panicked(m);
                v["res"] = json!([]);
                v
            }
        };
        let Ok(Ok(j)) = parsed else { return json!([{"parse": parse, "rest": []}]) };
        let expected = self.opts.as_ref().and_then(|o| o.c_nonce.as_ref()).map(|c| c.expected_c_nonce.clone());
        let client = self.opts.as_ref().and_then(|o| o.client_id.clone());
        let rest = json!({
            "validate": res(guard(|| j.validate().map_err(|e| errs::validation(&e))), unit),
            "verify": res(guard(|| j.verify().map_err(|e| errs::jwt(&e))), unit),
            "nonce": res(guard(|| j.check_nonce(expected).map_err(|e| errs::jwt(&e))), unit),
            "iss": res(guard(|| j.check_iss(client).map_err(|e| errs::jwt(&e))), unit),
            "aud": res(guard(|| j.check_aud(&self.md.credential_issuer).map_err(|e| errs::jwt(&e))), unit),
            "did": res(guard(|| j.extract_did().map_err(|e| errs::jwt(&e))), |d| json!({"did": eopt(d.as_deref())})),
            "key": res(guard(|| j.extract_key_and_alg(self.doc.as_ref()).map_err(|e| errs::jwt(&e))), |(k, a)| json!({"key": hex(&k), "alg": alg_name(&a)})),
            "message": res(guard(|| j.to_signable_message().map_err(|e| errs::jwt(&e))), |m| json!({"message": message(&m)})),
            "sig": res(guard(|| j.extract_signature().map_err(|e| errs::jwt(&e))), |s| json!({"sig": esc(&String::from_utf8_lossy(&s))})),
        });
        json!([{"parse": parse, "rest": [rest]}])
    }
}

/// A random case, not derived from an enumerated one: the specification judges it all the same
pub fn random_case(rng: &mut Rng) -> Value {
    let some = |b: bool, v: &str| if b { json!([v]) } else { json!([]) };
    let r = rng;
    let kid = *r.pick(&["did:{m}#{frag}", "did:{m}/{path}", "did:{m}?{query}#{frag}", "did:{m}/{path}?{query}#{frag}", "did:{m}", "{notdid}", "did:{m~}#{frag~}"]);
    let refs = [r.chance(19, 20), r.chance(1, 20), r.chance(1, 20)];
    let t = |r: &mut Rng, past: bool| -> Value {
        if r.chance(1, 2) {
            return json!([]);
        }
        let p = [[9, 86399, 999_999_999], [9, 86399, 0], [5, 0, 0], [9, 3600, 7]];
        let f = [[10, 0, 1], [10, 1, 0], [15, 0, 0], [10, 3600, 5]];
        json!([if past ^ r.chance(1, 15) { p[r.below(4)] } else { f[r.below(4)] }])
    };
    let rest = kid.strip_prefix("did:{m}").unwrap_or("#x");
    let mut vms = vec![];
    for i in 0..r.below(6) {
        let id = match r.below(8) {
            0 => "did:{m}#{frag~}".to_owned(),
            1 => "#{frag!}".to_owned(),
            2 => "did:{m~}#{frag}".to_owned(),
            3 => "{frag}".to_owned(),
            4 => "did:{m}#{frag!}{frag}".to_owned(),
            _ => format!("did:{{m}}#f{i}"),
        };
        vms.push(json!({"id": id, "rel": *r.pick(RELS), "key": {"kind": "okp", "bytes": [format!("{{key{i}}}")]}}));
    }
    let id = if r.chance(1, 3) { rest.to_owned() } else { kid.to_owned() };
    if r.chance(19, 20) && !id.is_empty() {
        let at = r.below(vms.len() + 1);
        vms.insert(at, json!({"id": id, "rel": *r.pick(RELS), "key": {"kind": "okp", "bytes": ["{key}"]}}));
    }
    let client = r.chance(1, 2);
    let alg = if r.chance(9, 10) { *r.pick(&ALGS[3..15]) } else { *r.pick(ALGS) };
    let ttl = r.below(5 * 86400);
    json!({
        "md": {"iss": "{issuer}", "ids": (0..r.below(5)).map(|i| if r.chance(1, 2) { json!([format!("{{id{i}}}")]) } else { json!([]) }).collect::<Vec<_>>()},
        "offer": some(r.chance(39, 40), "x").as_array().unwrap().iter().map(|_| json!({
            "auth": if r.chance(1, 3) { json!([{"state": some(r.chance(1, 2), "{state}")}]) } else { json!([]) },
            "pre": if r.chance(4, 5) { json!([{"code": "{code}", "req": if r.chance(1, 2) { json!([r.chance(1, 2)]) } else { json!([]) }}]) } else { json!([]) },
        })).collect::<Vec<_>>(),
        "asmeta": r.chance(1, 40),
        "proof": [{"ptype": if r.chance(29, 30) { "jwt" } else { "{ptype~}" }, "jwt": {
            "nseg": 3, "hok": r.chance(59, 60), "bok": r.chance(59, 60), "input": "",
            "keys": refs.iter().filter(|x| **x).count(), "keytext": true,
            "h": {"typ": if r.chance(29, 30) { TYP } else { "{typ~}" }, "alg": alg, "kid": some(refs[0], kid), "jwk": some(refs[1], "{jwk}"), "x5c": some(refs[2], "{x5c}"), "extra": []},
            "b": {"iss": if client { some(r.chance(9, 10), if r.chance(9, 10) { "{client}" } else { "{client~}" }) } else { some(r.chance(1, 8), "{client}") },
                  "aud": if r.chance(14, 15) { "{issuer}" } else { "{issuer~}" }, "sub": some(r.chance(1, 2), "{sub}"), "iat": [5, 0, 0],
                  "nonce": if r.chance(14, 15) { "{nonce}" } else { "{nonce~}" }, "nbf": t(r, true), "exp": t(r, false), "extra": []},
            "sig": ["{sig}"]}}],
        "cred": "{cred}",
        "doc": if r.chance(39, 40) { json!([{"id": if r.chance(19, 20) { "did:{m}" } else { "did:{m~}" }, "vms": vms}]) } else { json!([]) },
        "opts": if r.chance(39, 40) { json!([{"nonce": if r.chance(39, 40) { json!([{"created": if r.chance(14, 15) { json!([9, 86399 - r.below(80000), 5]) } else { json!([3, 5, 5]) },
            "ttl": {"d": 1 + ttl / 86400, "s": ttl % 86400}, "expected": "{nonce}"}]) } else { json!([]) },
            "client": some(client, "{client}")}]) } else { json!([]) },
        "now": [10, 0, 0]
    })
}
#[allow(dead_code)]
pub fn any_profile(rng: &mut Rng) -> Value {
    profile(rng)
}
