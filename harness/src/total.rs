//! Documents with all kinds of trouble done to them, and every operation called on what can be read
use crate::env::{claim, profile, Env, ALGS};
use crate::util::*;
use crate::wire::any_json;
use openid4vci::access_token::error_response::AccessTokenErrorCode;
use openid4vci::access_token::{AccessToken, AccessTokenRequest, AccessTokenSuccessResponse, EvaluateAccessTokenRequestOptions};
use openid4vci::credential_issuer::error_code::CredentialIssuerErrorCode;
use openid4vci::credential_issuer::{
    AuthorizedCodeFlow, CNonce, CredentialIssuer, CredentialOffer, CredentialOrAcceptanceToken, CredentialOrIds, CredentialSuccessResponse,
    EvaluateCredentialRequestOptions, PreAuthorizedCodeFlow,
};
use openid4vci::error::ErrorInformation;
use openid4vci::jwt::{ProofJwt, ProofJwtBody, ProofJwtHeader};
use openid4vci::return_object::ToReturnObject;
use openid4vci::types::authorization_server_metadata::AuthorizationServerMetadata;
use openid4vci::types::credential::{CredentialFormatProfile, CredentialFormatProfileOrEncoded};
use openid4vci::types::credential_issuer_metadata::CredentialIssuerMetadata;
use openid4vci::types::credential_request::CredentialRequest;
use openid4vci::types::token_type::AccessTokenType;
use openid4vci::validate::Validatable;
use openid4vci::Document;
use serde::de::DeserializeOwned;
use serde::Serialize;
use serde_json::{json, Map, Value};
use std::collections::BTreeMap;
use std::fmt::{Debug, Display};
use std::str::FromStr;

const PRE: &str = "urn:ietf:params:oauth:grant-type:pre-authorized_code";
const DATES: &[&str] = &[
    "+262142-12-31T23:59:59.999999999Z", "-262143-01-01T00:00:00Z", "+262143-12-31T23:59:59.999999999Z", "-262144-01-01T00:00:00Z", "9999-12-31T23:59:59.999999999Z",
    "0000-01-01T00:00:00Z", "-0001-01-01T00:00:00Z", "1970-01-01T00:00:00Z", "1969-12-31T23:59:59.999999999Z", "+10000-01-01T00:00:00Z",
    "2038-01-19T03:14:08Z", "1677-09-21T00:12:43.145224192Z", "2262-04-11T23:47:16.854775808Z", "+262142-12-31T23:59:59-23:59", "-262143-01-01T00:00:00+23:59",
    "2020-02-29T00:00:00Z", "2100-02-28T24:00:00Z", "2020-01-01T00:00:00+14:00", "1900-01-01T00:00:00.000000001Z",
];
const LEAPS: &[&str] = &["2016-12-31T23:59:60Z", "2016-12-31T23:59:60.999999999Z", "1999-12-31T23:59:60+00:00", "2020-06-15T12:34:60.5Z", "+262142-12-31T23:59:60.999999999Z"];

/// What the issuer handles, as JSON; "jwt" and "endpoint" are plain text
fn scenario(env: &mut Env) -> BTreeMap<&'static str, Value> {
    let r = &mut env.rng;
    let did = format!("did:{}", ["example:123", "key:z6MkpTHR8VNsBxYAAWHut2Geadd9jSwuBV8xRoAnwWsdvktH", "web:localhost%3A8443:a"][r.below(3)]);
    let frag = text(r);
    let kid = format!("{did}#{frag}");
    let (issuer, nonce, code) = (url(r), text(r), text(r));
    let now = Time { secs: 1_600_000_000, nanos: 5 };
    let date = |d: i64, r: &mut Rng| json!(now.add(d, 0).rfc3339(r));
    let mut m = BTreeMap::new();
    m.insert("token_request", json!({"grant_type": {"grant_type": PRE, "pre_authorized_code": code, "user_pin": 1234}}));
    m.insert("token_options", json!({"expected_user_pin": 1234}));
    m.insert("offer", json!({"credential_issuer": issuer, "credentials": ["id", profile(r)], "grants": {PRE: {"pre-authorized_code": code, "user_pin_required": true}}}));
    let mut sup: Vec<Value> = (0..1 + r.below(3)).map(|_| profile(r)).collect();
    sup[0]["id"] = json!("id");
    sup[0]["display"] = json!([{"name": "n", "locale": "en", "logo": {"url": "u", "alt_text": "t"}, "description": "d", "background_color": "#12107c", "text_color": "#fff"}]);
    sup[0]["cryptographic_binding_methods_supported"] = json!(["did"]);
    m.insert("metadata", json!({"credential_issuer": issuer, "credential_endpoint": "https://e.example", "credentials_supported": sup, "display": [{"name": "x"}]}));
    let mut p = profile(r);
    if r.chance(1, 2) {
        p["credentialSubject"] = json!({ "a": claim(r) });
    }
    m.insert("request", p);
    m.insert("proof", json!({"proof_type": "jwt"}));
    let alg = if r.chance(4, 5) { "EdDSA" } else { *r.pick(ALGS) };
    m.insert("header", json!({"typ": "openid4vci-proof+jwt", "alg": alg, "kid": kid}));
    m.insert("claims", json!({"iss": "c", "aud": issuer, "iat": date(-5, r), "nonce": nonce, "nbf": date(-9, r), "exp": date(9, r), "sub": "s"}));
    m.insert("jwt", json!("c2lnbmF0dXJl"));
    let key = b64url(&[7u8; 32]);
    m.insert("did_document", json!({"@context": "https://www.w3.org/ns/did/v1", "id": did,
        "verificationMethod": [{"id": kid, "type": "JsonWebKey2020", "controller": did, "publicKeyJwk": {"kty": "OKP", "crv": "Ed25519", "x": key}}],
        "authentication": [kid, {"id": format!("{did}#other"), "type": "Ed25519VerificationKey2018", "controller": did, "publicKeyBase58": "4zvwRjXUKGfvwnParsHAS3HuSVzV5cA4McphgmoCtajS"}]}));
    m.insert("options", json!({"client_id": "c", "c_nonce": {"expected_c_nonce": nonce, "c_nonce_expires_in": 600, "c_nonce_created_at": date(-60, r)}}));
    m.insert("response", json!({"access_token": "t", "token_type": "bearer", "expires_in": 5, "scope": "s", "c_nonce": "n", "c_nonce_expires_in": 6, "authorization_pending": true, "interval": 7}));
    m.insert("error", json!({"description": "d", "uri": "u", "details": {"a": 1}}));
    m.insert("endpoint", json!("https://wallet.example/x"));
    m.insert("clock", json!(now.secs));
    m
}

// ------------------------------------------------------------------ troubles
fn hard_number(r: &mut Rng) -> Value {
    match r.below(10) {
        0 => json!(u64::MAX),
        1 => json!(i64::MIN),
        2 => json!(-1),
        3 => json!(0),
        4 => json!(u32::MAX),
        5 => json!(u64::from(u32::MAX) + 1),
        6 => json!(99_999_999),
        7 => json!(100_000_000),
        8 => json!(1u64 << r.below(64)),
        _ => json!(i32::MAX),
    }
}
fn hard_text(r: &mut Rng) -> String {
    match r.below(16) {
        0 => String::new(),
        1 => "é".to_owned(),
        2 => "😀.😀.😀".to_owned(),
        3 => "a\u{301}\u{200d}\u{feff}".to_owned(),
        4 => "\u{0}".to_owned(),
        5 => "\u{202e}abc\u{2028}".to_owned(),
        6 => "%".to_owned(),
        7 => "%zz%e9%".to_owned(),
        8 => "\u{10ffff}\u{fffd}".to_owned(),
        9 => "İıſK".to_owned(),
        10 => "ß".repeat(40),
        11 => "{}".to_owned(),
        12 => "..".to_owned(),
        13 => "null".to_owned(),
        14 => "\\\"\n\r\t".to_owned(),
        _ => text(r),
    }
}
/// Texts of many bytes per character, a multiple of nothing away from the start
fn wide(r: &mut Rng) -> String {
    let c = *r.pick(&["é", "€", "😀", "ß", "e\u{301}", "\u{10ffff}", "\u{7ff}"]);
    let n = match r.below(6) {
        0 => 1 + r.below(8),
        1 => 30 + r.below(200),
        2 => 250 + r.below(20),
        _ => 5000 + r.below(9),
    };
    format!("{}{}", "x".repeat(r.below(4)), c.repeat(n))
}
fn hard_did(r: &mut Rng) -> String {
    if r.chance(1, 3) {
        let w = wide(r);
        return match r.below(8) {
            0..=2 => format!("#{w}"),
            3 => format!("did:{w}"),
            4 => format!("did:example:{w}#k"),
            5 => format!("did:example:a#{w}"),
            6 => format!("did:example:a/{w}?{w}#{w}"),
            _ => w,
        };
    }
    match r.below(26) {
        0 => "did:".into(),
        1 => "did".into(),
        2 => "did:é:😀#😀".into(),
        3 => "#".into(),
        4 => "".into(),
        5 => "did:#".into(),
        6 => "did:/".into(),
        7 => "did:?".into(),
        8 => "did::".into(),
        9 => "did:example:#".into(),
        10 => "did:example:a#".into(),
        11 => "did:example:a##".into(),
        12 => "did:example:a/?#".into(),
        13 => "did:example:a?#/".into(),
        14 => format!("did:example:{}", "x".repeat(50_000)),
        15 => format!("did:example:a#{}", "#".repeat(5000)),
        16 => "did:example:a%".into(),
        17 => "did:example:a%2".into(),
        18 => "did:example:a%zz#k".into(),
        19 => "did:example:a;b=c/d#e".into(),
        20 => "did\u{0}:a".into(),
        21 => "did:example:a#k\u{0}".into(),
        22 => "did:key:z".into(),
        23 => "did:example:ä#ö/ü?ß".into(),
        24 => "did:example:a?versionTime=2021-05-10T17:00:00Z#k".into(),
        _ => format!("did:{}", hard_text(r)),
    }
}
fn hard_key(r: &mut Rng) -> Value {
    let n = *r.pick(&[0usize, 1, 31, 32, 33, 64, 65, 300]);
    let x = b64url(&vec![r.below(256) as u8; n]);
    let mut v = json!({"id": "did:example:123#k", "type": *r.pick(&["JsonWebKey2020", "Ed25519VerificationKey2018", "Ed25519VerificationKey2020", "EcdsaSecp256k1VerificationKey2019", "RsaVerificationKey2018", "Unknown", ""]), "controller": "did:example:123"});
    match r.below(14) {
        0 => v["publicKeyJwk"] = json!({"kty": "OKP", "crv": "Ed25519", "x": x}),
        1 => v["publicKeyJwk"] = json!({"kty": "EC", "crv": *r.pick(&["P-256", "P-384", "P-521", "secp256k1", "x"]), "x": x, "y": x}),
        2 => v["publicKeyJwk"] = json!({"kty": "EC", "crv": "P-256", "x": x}),
        3 => v["publicKeyJwk"] = json!({"kty": "EC", "crv": "P-256"}),
        4 => v["publicKeyJwk"] = json!({"kty": "RSA", "n": x, "e": ""}),
        5 => v["publicKeyJwk"] = json!({"kty": "RSA"}),
        6 => v["publicKeyJwk"] = json!({"kty": "oct", "k": x}),
        7 => v["publicKeyJwk"] = json!({"kty": "OKP", "crv": *r.pick(&["X25519", "Bls12381G2", "Ed448", ""]), "x": x, "d": x}),
        8 => v["publicKeyBase58"] = json!(*r.pick(&["", "0", "l", "1111", "é", "z", "4zvwRjXUKGfvwnParsHAS3HuSVzV5cA4McphgmoCtajS"])),
        9 => v["publicKeyMultibase"] = json!(*r.pick(&["", "z", "zz", "é", "m", "z6MkpTHR8VNsBxYAAWHut2Geadd9jSwuBV8xRoAnwWsdvktH", "u7QE", "zQ3sh", "z1", "f"])),
        10 => v["publicKeyPem"] = json!(*r.pick(&["", "-----BEGIN PUBLIC KEY-----", "é"])),
        11 => v["publicKeyHex"] = json!(*r.pick(&["", "0", "zz", "é", "02"])),
        12 => v["publicKeyJwk"] = json!({"kty": "OKP", "crv": "Ed25519", "x": *r.pick(&["", "=", "é", "A", "AA==", "A A", "+/"])}),
        _ => {}
    }
    v
}
/// Places of a document, as pointers
fn places(v: &Value, at: String, o: &mut Vec<String>) {
    o.push(at.clone());
    match v {
        Value::Object(m) => m.iter().for_each(|(k, x)| places(x, format!("{at}/{}", k.replace('~', "~0").replace('/', "~1")), o)),
        Value::Array(a) => a.iter().enumerate().for_each(|(i, x)| places(x, format!("{at}/{i}"), o)),
        _ => {}
    }
}
fn pick<'a>(v: &'a mut Value, r: &mut Rng, what: fn(&Value) -> bool) -> &'a mut Value {
    let mut ps = vec![];
    places(v, String::new(), &mut ps);
    let good: Vec<String> = ps.iter().filter(|p| v.pointer(p).map_or(false, what)).cloned().collect();
    let p = if good.is_empty() { r.pick(&ps).clone() } else { r.pick(&good).clone() };
    v.pointer_mut(&p).unwrap()
}
fn is_date(v: &Value) -> bool {
    v.as_str().map_or(false, |s| s.len() > 18 && s.as_bytes()[4] == b'-' && s.contains('T'))
}
fn trouble(v: &mut Value, t: &str, r: &mut Rng) {
    match t {
        "drop" => {
            if let Value::Object(m) = pick(v, r, |x| x.as_object().map_or(false, |m| !m.is_empty())) {
                let ks: Vec<String> = m.keys().cloned().collect();
                if !ks.is_empty() {
                    m.remove(r.pick(&ks));
                }
            }
        }
        "null" => *pick(v, r, |_| true) = Value::Null,
        "kind" => *pick(v, r, |_| true) = any_json(r, 2),
        "empty" => {
            let p = pick(v, r, |_| true);
            *p = match p {
                Value::Object(_) => json!({}),
                Value::Array(_) => json!([]),
                _ => json!(""),
            }
        }
        "huge" => *pick(v, r, Value::is_string) = json!(r.pick(&["x", "é", ".", "a.", "\"", "#", "/"]).repeat(*r.pick(&[1000, 65_536, 200_000]))),
        "unicode" => *pick(v, r, Value::is_string) = json!(hard_text(r)),
        "control" => *pick(v, r, Value::is_string) = json!((0..40u8).map(char::from).collect::<String>()),
        "number" => *pick(v, r, Value::is_number) = hard_number(r),
        "float" => *pick(v, r, Value::is_number) = json!([1.5, -0.0, 1e300, 5e-324, 4294967296.0][r.below(5)]),
        "date" => *pick(v, r, is_date) = json!(*r.pick(DATES)),
        "leap" => *pick(v, r, is_date) = json!(*r.pick(LEAPS)),
        "notdate" => *pick(v, r, is_date) = json!(*r.pick(&["", "T", "2020-01-01", "2020-01-01T00:00:00", "2020-01-01T00:00:00+99:99", "é", "1e9", "2020-13-01T00:00:00Z", "999999999999999-01-01T00:00:00Z"])),
        "many" => {
            let n = *r.pick(&[50, 500, 3000]);
            match pick(v, r, |x| x.is_array() || x.is_object()) {
                Value::Array(a) => {
                    let x = a.first().cloned().unwrap_or(json!("x"));
                    a.extend((0..n).map(|_| x.clone()));
                }
                Value::Object(m) => {
                    let x = m.values().next().cloned().unwrap_or(json!("x"));
                    for i in 0..n {
                        m.insert(format!("m{i}"), x.clone());
                    }
                }
                _ => {}
            }
        }
        "deep" => {
            let p = pick(v, r, |_| true);
            let mut x = std::mem::take(p);
            for i in 0..*r.pick(&[10, 60, 100, 115, 120, 126, 127, 128, 200]) {
                x = if i % 2 == 0 { json!([x]) } else { json!({ "a": x }) };
            }
            *p = x;
        }
        "extra" => {
            if let Value::Object(m) = pick(v, r, Value::is_object) {
                for _ in 0..3 {
                    m.insert(hard_text(r), any_json(r, 2));
                }
                let k = (*r.pick(&["kid", "jwk", "x5c", "format", "id", "crit", "proof", "grants", "@context", "types", "credentialSubject", "order"])).to_owned();
                m.insert(k, any_json(r, 2));
            }
        }
        "near" => {
            let p = pick(v, r, Value::is_string);
            if let Some(s) = p.as_str() {
                *p = json!(mutate(s, r.below(MUTATORS), r));
            }
        }
        "did" => {
            let d = hard_did(r);
            *pick(v, r, |x| x.as_str().map_or(false, |s| s.starts_with("did:"))) = json!(d);
        }
        "key" => {
            let k = hard_key(r);
            match v.pointer_mut("/verificationMethod/0") {
                Some(x) => {
                    let id = x["id"].clone();
                    *x = k;
                    x["id"] = id;
                }
                None => *pick(v, r, Value::is_object) = k["publicKeyJwk"].clone(),
            }
        }
        "swap" => {
            let x = pick(v, r, |_| true).clone();
            *pick(v, r, |_| true) = x;
        }
        "wrap" => {
            let p = pick(v, r, |_| true);
            *p = if r.chance(1, 2) { json!([p.take()]) } else { json!(p.take().to_string()) };
        }
        "wide" => *pick(v, r, Value::is_string) = json!(wide(r)),
        "dots" => *pick(v, r, Value::is_string) = json!(*r.pick(&[".", "..", "...", "a.b.c", "{\"a\":\".\"}", "\".\"", "\"}.{\"", "é.é"])),
        _ => {}
    }
}
/// Troubles of the text rather than the document
fn text_trouble(s: &str, t: &str, r: &mut Rng) -> Vec<u8> {
    let mut b = s.as_bytes().to_vec();
    match t {
        "cut" => {
            let n = r.below(b.len() + 1);
            b.truncate(n);
        }
        "bytes" if r.chance(1, 2) => {
            // bytes that no text has, or that begin other encodings
            let x: Vec<u8> = match r.below(4) {
                0 => vec![*r.pick(&[0xff, 0xfe, 0xef, 0xc0, 0xed, 0x80, 0xf5, 0, 0x7f, b'\n', b' ', b'"', b'[', b'0'])],
                1 => r.pick(&[&[0xef, 0xbb, 0xbf][..], &[0xff, 0xfe], &[0xfe, 0xff], &[0xed, 0xa0, 0x80], &[0xf4, 0x90, 0x80, 0x80], &[0xc0, 0x80]]).to_vec(),
                2 => vec![r.below(256) as u8],
                _ => (0..r.below(40)).map(|_| r.below(256) as u8).collect(),
            };
            match r.below(4) {
                0 => b = [&x[..], &b[..]].concat(),
                1 => b = x,
                2 => b.extend(x),
                _ => {
                    let i = r.below(b.len() + 1);
                    b.splice(i..i, x);
                }
            }
        }
        "flip" | "bytes" => {
            for _ in 0..if t == "flip" { 1 } else { 1 + r.below(20) } {
                if !b.is_empty() {
                    let i = r.below(b.len());
                    b[i] ^= 1 << r.below(if t == "flip" { 7 } else { 8 });
                }
            }
        }
        "surrogate" => {
            let q: Vec<usize> = b.iter().enumerate().filter(|(_, c)| **c == b'"').map(|(i, _)| i).collect();
            if !q.is_empty() {
                let i = *r.pick(&q) + 1;
                b.splice(i..i, r.pick(&[&b"\\ud800"[..], b"\\udfff\\ud800", b"\\u0000", b"\\x", b"\\"]).iter().copied());
            }
        }
        _ if t.starts_with("octet ") => b.insert(0, t[6..].parse().unwrap()),
        _ if t.starts_with("only ") => b = vec![t[5..].parse().unwrap()],
        "twice" => {
            // a member given twice
            if b.first() == Some(&b'{') && b.len() > 4 {
                let inner = b[1..b.len() - 1].to_vec();
                b = [b"{", &inner[..], b",", &inner[..], b"}"].concat();
            }
        }
        _ => {}
    }
    b
}

// ------------------------------------------------------------------ calls
struct Calls(Vec<Value>);
impl Calls {
    fn end(&mut self, name: &str, end: &str) {
        self.0.push(json!({"call": name, "end": end}));
    }
    /// A call that returns a value or an error; both can be shown
    fn go<T: Debug, E: Debug>(&mut self, name: &str, f: impl FnOnce() -> Result<T, E>) -> Option<T> {
        let r = guard(|| {
            let r = f();
            let shown = format!("{r:?}");
            (r, shown.len())
        });
        match r {
            Ok((Ok(t), _)) => {
                self.end(name, "value");
                Some(t)
            }
            Ok((Err(_), _)) => {
                self.end(name, "error");
                None
            }
            Err(m) => {
                self.end(name, &format!("panic: {}", esc(&m).chars().take(200).collect::<String>()));
                None
            }
        }
    }
    fn read<T: DeserializeOwned + Serialize + Debug>(&mut self, name: &str, text: &[u8]) -> Option<T> {
        let t = self.go(&format!("read {name}"), || serde_json::from_slice::<T>(text));
        if let Some(t) = &t {
            self.go(&format!("write {name}"), || serde_json::to_string(t));
        }
        t
    }
}
trait Info: Debug + Display {
    fn info(&self) -> ErrorInformation;
}
macro_rules! info {
    ($($t:ty),*) => { $(impl Info for $t { fn info(&self) -> ErrorInformation { self.information() } })* };
}
info!(
    openid4vci::access_token::error::AccessTokenError,
    openid4vci::credential_issuer::error::CredentialIssuerError,
    openid4vci::jwt::error::JwtError,
    openid4vci::validate::ValidationError
);
fn told<T, E: Info>(r: Result<T, E>) -> Result<T, String> {
    r.map_err(|e| {
        let i = e.info();
        format!("{e} {e:?} {i} {:?}", serde_json::to_string(&i))
    })
}

pub fn run(troubles: &Value, env: &mut Env) -> Vec<Value> {
    let mut docs = scenario(env);
    let r = &mut env.rng;
    let troubles: Vec<(&str, &str)> = troubles.as_array().unwrap().iter().map(|t| (t[0].as_str().unwrap(), t[1].as_str().unwrap())).collect();
    for (d, t) in &troubles {
        if let Some(v) = docs.get_mut(d) {
            trouble(v, t, r);
        }
    }
    let raw = |d: &str, r: &mut Rng| -> Vec<u8> {
        let mut b = docs[d].to_string().into_bytes();
        for (x, t) in &troubles {
            if *x == d {
                b = match String::from_utf8(b) {
                    Ok(s) => text_trouble(&s, t, r),
                    Err(e) => e.into_bytes(),
                };
            }
        }
        b
    };
    let b: BTreeMap<&str, Vec<u8>> =
        ["token_request", "token_options", "offer", "metadata", "header", "claims", "did_document", "options", "response"].iter().map(|d| (*d, raw(d, r))).collect();
    // the proof
    let sig = docs["jwt"].as_str().map_or_else(|| docs["jwt"].to_string(), ToOwned::to_owned);
    let mut jwt = format!("{}.{}.{sig}", b64url(&b["header"]), b64url(&b["claims"]));
    for (x, t) in &troubles {
        if *x == "jwt" {
            jwt = match *t {
                "null" => String::new(),
                "drop" => jwt.split('.').next().unwrap_or("").to_owned(),
                "swap" => jwt.split('.').rev().collect::<Vec<_>>().join("."),
                "many" => jwt.clone() + &".".repeat(*r.pick(&[1, 2, 3, 5000])),
                "wrap" => format!("{}.{}.{sig}", String::from_utf8_lossy(&b["header"]), String::from_utf8_lossy(&b["claims"])),
                "did" => format!("{}=.{}==.{sig}", b64url(&b["header"]), b64url(&b["claims"])),
                "key" => jwt.replace('.', "\u{3002}"),
                "date" => jwt.replacen('.', ".é.", 1),
                "number" => format!("..{sig}"),
                "float" => format!(".{jwt}"),
                "leap" => format!("{}.{}", b64url(&b["header"]), b64url(&b["claims"])),
                "twice" => format!("{jwt}.{jwt}"),
                "deep" => format!("{}.{}.{sig}", b64url(format!("{}1{}", "[".repeat(130), "]".repeat(130)).as_bytes()), b64url(&b["claims"])),
                _ => String::from_utf8_lossy(&text_trouble(&jwt, t, r)).into_owned(),
            };
        }
    }
    let mut proof = docs["proof"].clone();
    if proof.is_object() && !troubles.contains(&("proof", "drop")) {
        proof["jwt"] = json!(jwt);
    }
    docs.insert("proof", proof);
    let mut request = docs["request"].clone();
    if request.is_object() {
        request["proof"] = docs["proof"].clone();
    }
    docs.insert("request", request);
    let raw = |d: &str, r: &mut Rng| -> Vec<u8> {
        let mut b = docs[d].to_string().into_bytes();
        for (x, t) in &troubles {
            if *x == d {
                b = match String::from_utf8(b) {
                    Ok(s) => text_trouble(&s, t, r),
                    Err(e) => e.into_bytes(),
                };
            }
        }
        b
    };
    let request = raw("request", r);
    let proof_text = raw("proof", r);
    let clock = match docs["clock"].as_i64() {
        Some(s) if (0..8_000_000_000_000).contains(&s) => s,
        _ => *r.pick(&[0, 1, i64::from(i32::MAX), i64::from(u32::MAX) + 1, 253_402_300_799, 253_402_300_800, 8_000_000_000_000]),
    };
    set_clock(Time { secs: clock, nanos: *r.pick(&[0, 1, 999_999_999]) });

    let mut c = Calls(vec![]);
    // token
    let treq: Option<AccessTokenRequest> = c.read("token_request", &b["token_request"]);
    let offer = |c: &mut Calls| -> Option<CredentialOffer> { c.read("offer", &b["offer"]) };
    let topts: Option<EvaluateAccessTokenRequestOptions> = c.read("token_options", &b["token_options"]);
    if let Some(q) = &treq {
        c.go("validate token_request", || told(q.validate()));
        for (o, p) in [(offer(&mut c), topts.clone()), (None, None), (offer(&mut c), None)] {
            c.go("evaluate token", || told(AccessToken::evaluate_access_token_request(q, o, p)));
        }
    }
    let num = |v: &Value| v.as_u64().map(|x| x as u32);
    let txt = |v: &Value| v.as_str().map(ToOwned::to_owned);
    let rs = &docs["response"];
    let made = c.go("token response", || {
        told(AccessToken::create_access_token_success_response(
            txt(&rs["access_token"]).unwrap_or_default(), AccessTokenType::Bearer, num(&rs["expires_in"]), txt(&rs["scope"]), txt(&rs["c_nonce"]),
            num(&rs["c_nonce_expires_in"]), rs["authorization_pending"].as_bool(), num(&rs["interval"]),
        ))
    });
    if let Some((m, _)) = &made {
        c.go("validate token response", || told(m.validate()));
        c.go("write token response", || serde_json::to_string(m));
    }
    let _: Option<AccessTokenSuccessResponse> = c.read("token_response", &b["response"]);
    let e = &docs["error"];
    let details = match &e["details"] {
        Value::Null => None,
        x => Some(x.clone()),
    };
    let te = c.go("token error", || told(AccessToken::create_access_token_error_response(AccessTokenErrorCode::InvalidGrant, txt(&e["description"]), txt(&e["uri"]), details.clone())));
    if let Some(t) = te {
        c.go("write token error", || serde_json::to_string(&t));
    }
    let ce = c.go("credential error", || told(CredentialIssuer::create_credential_error_response(&CredentialIssuerErrorCode::InvalidToken, txt(&e["description"]), txt(&e["uri"]), details.clone())));
    if let Some(t) = ce {
        c.go("write credential error", || serde_json::to_string(&t));
    }
    let any = hard_text(r);
    c.go("error codes", || {
        let a = AccessTokenErrorCode::try_from(any.clone());
        let b = CredentialIssuerErrorCode::try_from(any.clone());
        Ok::<_, ()>(format!("{a:?}{b:?}"))
    });
    c.go("token types", || AccessTokenType::try_from(any.clone()));
    c.go("information", || {
        let i = ErrorInformation::new(num(&rs["interval"]).unwrap_or(7), any.clone(), any.clone(), details.clone());
        let r: openid4vci::error::Result<String> = Err(i.clone());
        let _ = r;
        Ok::<_, ()>(format!("{i}{i:?}"))
    });
    // metadata and offers
    let md: Option<CredentialIssuerMetadata> = c.read("metadata", &b["metadata"]);
    let off = offer(&mut c);
    let endpoint = Some(docs["endpoint"].as_str().map_or_else(|| docs["endpoint"].to_string(), ToOwned::to_owned)).filter(|e| e != "null");
    if let Some(o) = &off {
        c.go("validate offer", || told(o.validate()));
        c.go("url of offer", || told(o.url_encode()));
    }
    if let Some(m) = &md {
        c.go("validate metadata", || told(m.validate()));
        for s in m.credentials_supported.iter().take(20) {
            c.go("validate supported", || told(s.validate()));
        }
        let asks: Vec<CredentialOrIds> = off.iter().map(|o| serde_json::from_value::<CredentialOrIds>(serde_json::to_value(&o.credentials).unwrap_or_default())).flatten().collect();
        for a in &asks {
            c.go("resolve", || told(a.resolve_all(m)));
        }
        for (id, auth, pre) in [("id", false, true), (any.as_str(), true, true), ("", false, false)] {
            let pre = pre.then(|| PreAuthorizedCodeFlow { code: any.clone(), user_pin_required: Some(true) });
            let auth = auth.then(|| AuthorizedCodeFlow { issuer_state: Some(any.clone()) });
            c.go("create offer", || told(CredentialIssuer::create_offer(m, vec![id.to_owned()], &endpoint, &auth, &pre)));
        }
        for a in asks {
            c.go("create offer", || told(CredentialIssuer::create_offer(m, a, &endpoint, &None, &None)));
        }
    }
    // proofs
    let _: Option<ProofJwtHeader> = c.read("header", &b["header"]);
    let _: Option<ProofJwtBody> = c.read("claims", &b["claims"]);
    let doc: Option<Document> = c.read("did_document", &b["did_document"]);
    let opts: Option<EvaluateCredentialRequestOptions> = c.read("options", &b["options"]);
    let whole = format!("{{\"header\":{},\"body\":{},\"signature\":{}}}", String::from_utf8_lossy(&b["header"]), String::from_utf8_lossy(&b["claims"]), json!(sig));
    let direct: Option<ProofJwt> = c.read("proof", whole.as_bytes());
    let parsed = c.go("parse jwt", || told(ProofJwt::from_str(&jwt)));
    for j in [direct, parsed].into_iter().flatten() {
        c.go("validate jwt", || told(j.validate()));
        c.go("verify jwt", || told(j.verify()));
        c.go("check nonce", || told(j.check_nonce(opts.as_ref().and_then(|o| o.c_nonce.as_ref()).map(|n| n.expected_c_nonce.clone()))));
        c.go("check iss", || told(j.check_iss(opts.as_ref().and_then(|o| o.client_id.clone()))));
        c.go("check aud", || told(j.check_aud(md.as_ref().map_or("", |m| &m.credential_issuer))));
        c.go("extract did", || told(j.extract_did()));
        c.go("extract key", || told(j.extract_key_and_alg(doc.as_ref())));
        c.go("extract key without document", || told(j.extract_key_and_alg(None)));
        c.go("message", || told(j.to_signable_message()));
        c.go("signature", || told(j.extract_signature()));
        c.go("jwt text", || told(TryInto::<String>::try_into(&j)));
    }
    // requests
    let _: Option<openid4vci::types::credential_request::CredentialRequestProof> = c.read("request proof", &proof_text);
    let req: Option<CredentialRequest> = c.read("request", &request);
    let asmeta: AuthorizationServerMetadata = serde_json::from_str("{}").unwrap();
    let mut creds: Vec<CredentialFormatProfile> = vec![];
    if let Some(q) = &req {
        creds.push(q.format.clone());
        c.go("validate request", || told(q.validate()));
        c.go("pre-evaluate", || told(CredentialIssuer::pre_evaluate_credential_request(q)));
        if let Some(m) = &md {
            for (o, a, d, p) in [
                (off.as_ref(), None, doc.as_ref(), opts.clone()),
                (off.as_ref(), Some(&asmeta), doc.as_ref(), opts.clone()),
                (None, None, doc.as_ref(), opts.clone()),
                (off.as_ref(), None, None, opts.clone()),
                (off.as_ref(), None, doc.as_ref(), None),
            ] {
                let ev = c.go("evaluate", || told(CredentialIssuer::evaluate_credential_request(m, q, o, a, d, p)));
                if let Some(ev) = ev {
                    creds.push(ev.credential);
                }
            }
        }
    }
    let p: Option<CredentialFormatProfile> = c.read("profile of request", &request);
    creds.extend(p);
    c.end("profile", "value");
    for f in creds.iter().take(4) {
        c.go("format name", || Ok::<_, ()>(f.get_format_name()));
        c.go("validate profile", || told(f.validate()));
        let enc = c.go("encode profile", || told(CredentialFormatProfileOrEncoded::try_from(f.clone()).map(|x| serde_json::to_string(&x).map(|s| s.len()).unwrap_or(0))));
        let _ = enc;
        if let Some(q) = &req {
            for what in [Some(CredentialOrAcceptanceToken::Credential(f.clone())), Some(CredentialOrAcceptanceToken::AcceptanceToken(any.clone())), None] {
                let nonce = CNonce { c_nonce: any.clone(), c_nonce_expires_in: num(&rs["interval"]) };
                let r = c.go("credential response", || told(CredentialIssuer::create_credential_success_response(q, what, Some(nonce))));
                if let Some((r, _)) = r {
                    let t = c.go("write credential response", || serde_json::to_string(&r)).unwrap_or_default();
                    let _: Option<CredentialSuccessResponse> = c.read("credential response", t.as_bytes());
                }
            }
        }
    }
    // return objects
    if let (Some(q), Some(m)) = (&req, &md) {
        c.go("return object", || {
            let r = CredentialIssuer::evaluate_credential_request(m, q, off.as_ref(), None, doc.as_ref(), opts.clone()).map(|_| 1);
            let o: openid4vci::return_object::ReturnObject<i32, ErrorInformation, String> = r.to_return_object();
            serde_json::to_string(&o.add_warning(any.clone()))
        });
    }
    let mut m = Map::new();
    m.insert("n".into(), json!(1));
    c.0
}
