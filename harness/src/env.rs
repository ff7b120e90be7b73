//! Stand-ins of the specification's cases ("{code}", "{code~}", ...) and the texts chosen for them.
use crate::util::*;
use serde_json::{json, Map, Value};
use std::collections::HashMap;

#[derive(Clone)]
pub struct Env {
    pub rng: Rng,
    pub k: usize,
    vals: HashMap<String, String>,
}

pub const ALGS: &[&str] = &[
    "HS256", "HS384", "HS512", "RS256", "RS384", "RS512", "ES256", "ES384", "ES512", "PS256", "PS384", "PS512", "EdDSA",
    "ES256K", "ECDH-ES", "none",
];

/// Registered for other purposes, or not at all
pub const OTHER_ALGS: &[&str] = &[
    "HS1", "RS1", "RS255", "ECDH-1PU", "ECDH-ES+A128KW", "ECDH-ES+A192KW", "ECDH-ES+A256KW", "ECDH-1PU+A256KW", "ECDH-SS", "ECDH",
    "A128KW", "A192KW", "A256KW", "dir", "A128GCMKW", "A256GCMKW", "A128GCM", "A256GCM", "A128CBC-HS256", "A256CBC-HS512",
    "PBES2-HS256+A128KW", "PBES2-HS512+A256KW", "RSA1_5", "RSA-OAEP", "RSA-OAEP-256", "RSA-OAEP-512", "ES256K-R", "ESKPS256", "ESKPS256R",
    "ESK256", "ESP256", "ESP384", "ESB256", "Ed25519", "Ed448", "EdDSA25519", "EdBlake2b", "ESBlake2b", "ESBlake2bK", "AleoTestnet1Signature",
    "BBS+", "BBS", "BLS12381G2", "SM2", "ML-DSA-44", "ML-DSA-65", "Dilithium2", "SLH-DSA-SHA2-128s", "HSS-LMS", "GOST", "X25519",
    "P-256", "P256", "secp256k1", "RSA", "EC", "OKP", "oct", "SHA256", "sha256", "HMAC", "HMACSHA256", "WalnutDSA",
    "None", "NONE", "null", "nil", "no", "hs256", "es256", "rs256", "eddsa", "EDDSA", "EdDsa", "ES256k", "es256K", "ES-256", "HS-256", "RS-256",
    "PS-256", "ES_256", "HS256/64", "ECDHES", "ECDH-es", "ecdh-es", "ECDH_ES", "ECDSA", "RSASSA-PSS", "", " ", "none ", "HS224", "HS256K", "ES224",
    "ES128", "ES521", "PS224", "RS224", "SHA512", "ED25519", "http://www.w3.org/2001/04/xmldsig-more#rsa-sha256",
];

fn kind(name: &str) -> &str {
    name.trim_end_matches(|c: char| c == '~' || c == '!')
}

impl Env {
    pub fn new(rng: Rng, k: usize) -> Self {
        Env { rng, k, vals: HashMap::new() }
    }
    pub fn set(&mut self, name: &str, v: String) {
        self.vals.insert(name.to_owned(), v);
    }
    /// Replace every stand-in
    pub fn text(&mut self, s: &str) -> String {
        let mut o = String::new();
        let mut rest = s;
        while let Some(i) = rest.find('{') {
            let Some(j) = rest[i..].find('}') else { break };
            o.push_str(&rest[..i]);
            let name = rest[i + 1..i + j].to_owned();
            o.push_str(&self.get(&name));
            rest = &rest[i + j + 1..];
        }
        o.push_str(rest);
        o
    }
    pub fn get(&mut self, name: &str) -> String {
        if let Some(v) = self.vals.get(name) {
            return v.clone();
        }
        let base = kind(name).to_owned();
        let v = if name.ends_with('~') {
            let b = self.near_base(&base);
            self.vary(&base, &b)
        } else if name.ends_with('!') {
            let b = self.get(&base);
            loop {
                let x = self.fresh(&base);
                if x != b {
                    break x;
                }
            }
        } else {
            let taken: Vec<String> = self.vals.values().cloned().collect();
            let mut tries = 0;
            loop {
                let x = self.fresh(&base);
                tries += 1;
                // different stand-ins are different texts
                if tries > 50 || !taken.contains(&x) {
                    break x;
                }
            }
        };
        self.vals.insert(name.to_owned(), v.clone());
        v
    }
    fn near_base(&mut self, base: &str) -> String {
        match base {
            "typ" => "openid4vci-proof+jwt".to_owned(),
            "ptype" => (*self.rng.pick(&["jwt", "JWT"])).to_owned(),
            "alg" => (*self.rng.pick(ALGS)).to_owned(),
            _ => self.get(base),
        }
    }
    /// Chooses the texts of the plain stand-ins of a case, before any that are made from them
    pub fn prepare(&mut self, v: &Value) {
        match v {
            Value::String(s) => {
                for part in s.split('{').skip(1) {
                    if let Some((name, _)) = part.split_once('}') {
                        if !name.ends_with(['~', '!']) {
                            self.get(name);
                        }
                    }
                }
            }
            Value::Array(a) => a.iter().for_each(|x| self.prepare(x)),
            Value::Object(m) => m.values().for_each(|x| self.prepare(x)),
            _ => {}
        }
    }
    /// Is the text possible for a stand-in of this kind?
    fn legal(base: &str, s: &str) -> bool {
        match base {
            "m" => !s.is_empty() && !s.contains(['/', '?', '#']),
            "path" => !s.is_empty() && !s.starts_with('/') && !s.contains(['?', '#']),
            "query" | "frag" => !s.is_empty() && !s.contains('#'),
            "sig" => !s.contains('.'),
            "typ" => !s.eq_ignore_ascii_case("openid4vci-proof+jwt"),
            "ptype" => !s.eq_ignore_ascii_case("jwt"),
            "alg" => !ALGS.contains(&s),
            "notdid" => !s.starts_with("did:"),
            _ => true,
        }
    }
    fn vary(&mut self, base: &str, b: &str) -> String {
        match base {
            "pin" | "pinlong" => return self.vary_pin(b, base == "pinlong"),
            "cred" => loop {
                let x = profile(&mut self.rng).to_string();
                if x != b {
                    return x;
                }
            },
            "ptype" => {
                let more = ["jws", "cwt", "ldp_vp", "", "jwt ", "openid4vci-proof+jwt", "jwtx", "xjwt", "j", "none", "vc+jwt"];
                if self.k % 3 == 0 {
                    return (*self.rng.pick(&more)).to_owned();
                }
            }
            "typ" => {
                let more = ["JWT", "jwt", "", "openid4vci-proof", "proof+jwt", "openid4vci-proof+jwt+x", "application/openid4vci-proof+jwt",
                    "openid4vci-proof jwt", "openid4vci-proof+cwt", "openidvci-proof+jwt", "openid4vci-proof+sd-jwt",
                    "openid4vci-proof+jwt;v=1", "openid4vci-proof+jwt; charset=utf-8", "openid4vci-proof+JWT,jwt", "vc+openid4vci-proof+jwt", "openid4vci_proof+jwt", "openid4vci-proof\u{2b}jwt\u{0}"];
                if self.k % 3 == 0 {
                    return (*self.rng.pick(&more)).to_owned();
                }
            }
            "alg" => {
                let more = OTHER_ALGS;
                if self.k % 2 == 0 {
                    return (*self.rng.pick(more)).to_owned();
                }
            }
            _ => {}
        }
        if !base.starts_with(['$', '#']) && !["jwk", "inline"].contains(&base) && !base.starts_with("key") && !base.starts_with("cred") && self.rng.chance(1, 6) {
            let mut others: Vec<String> = self.vals.values().filter(|v| v.len() < 300 && *v != b).cloned().collect();
            others.sort();
            if !others.is_empty() {
                let o = self.rng.pick(&others).clone();
                let m = combined(b, &o, &mut self.rng);
                if m != b && Self::legal(base, &m) {
                    return m;
                }
            }
        }
        for i in 0..200 {
            let m = near(b, self.k + i, &mut self.rng);
            if m != b && Self::legal(base, &m) {
                return m;
            }
        }
        format!("{b}x")
    }
    fn vary_pin(&mut self, b: &str, long: bool) -> String {
        let n: u64 = b.parse().unwrap();
        let r = &mut self.rng;
        for i in 0..100 {
            let d = 10u64.pow(r.below(8) as u32);
            let c: u64 = match (self.k + i) % 16 {
                0 => n.wrapping_add(1),
                1 => n.wrapping_sub(1),
                2 => n / 10,
                3 => n.wrapping_mul(10),
                4 => n ^ 1,
                5 => n ^ (1 << r.below(27)),
                6 => n % 10_000,
                7 => n % 1_000_000,
                8 => b.chars().rev().collect::<String>().parse().unwrap_or(0),
                9 => n.wrapping_add(d),
                10 => n.wrapping_sub(d),
                11 => 0,
                12 => n & 0xffff,
                13 => n.wrapping_add(65536),
                14 => n.wrapping_add(256),
                _ => r.next() % 100_000_000,
            };
            let c = if long {
                match r.below(4) {
                    0 => n.wrapping_add(1 << 32),
                    1 => n.wrapping_add(10u64.pow(9)),
                    2 => n.wrapping_add(1),
                    _ => c,
                }
            } else {
                c
            };
            if c != n && (c >= 100_000_000) == long {
                return c.to_string();
            }
        }
        if long { (n ^ (1 << 40) | (1 << 41)).to_string() } else { ((n + 1) % 100_000_000).to_string() }
    }
    fn fresh(&mut self, base: &str) -> String {
        let r = &mut self.rng;
        match base {
            "m" => match r.below(6) {
                0 => format!("key:z{}", r.word(24)),
                1 => format!("web:{}.example.com:{}", r.word(4).to_lowercase(), r.word(3)),
                2 => format!("example:{}", r.word(1)),
                3 => format!("ion:{}:{}", r.word(10), r.word(60)),
                4 => format!("web:localhost%3A8443:{}", r.word(3)),
                _ => format!("example:{}", r.word(12)),
            },
            "frag" => match r.below(6) {
                0 => format!("key-{}", r.below(100)),
                1 => format!("z{}", r.word(20)),
                2 => format!("keys/{}", r.below(9)),
                3 => r.word(1),
                4 => format!("k{}?{}", r.word(2), r.word(2)),
                _ => format!("key{}", r.word(3)),
            },
            "path" => match r.below(3) {
                0 => format!("keys/{}", r.below(20)),
                1 => r.word(1),
                _ => format!("{}/{}/", r.word(3), r.word(2)),
            },
            "query" => match r.below(3) {
                0 => format!("versionId={}", r.below(9)),
                1 => format!("service={}&relativeRef=/{}", r.word(3), r.word(2)),
                _ => r.word(2),
            },
            b if b.starts_with("key") => (0..32).map(|_| format!("{:02x}", r.below(256))).collect(),
            "issuer" => match r.below(40) {
                0 => String::new(),
                1 => text(r),
                2 => r.word(1),
                _ => url(r),
            },
            "pin" => match r.below(12) {
                0 => "0".to_owned(),
                1 => "99999999".to_owned(),
                2 => "10000000".to_owned(),
                3 => "9999999".to_owned(),
                4 => r.below(10).to_string(),
                5 => r.below(10_000).to_string(),
                6 => (10_000_000 + r.below(90_000_000)).to_string(),
                7 => r.below(1_000_000).to_string(),
                8 => (*r.pick(&[65535u64, 65536, 255, 256, 1, 16_777_216, 1_000_000, 99_999_990])).to_string(),
                _ => r.below(100_000_000).to_string(),
            },
            "pinlong" => match r.below(10) {
                0 => "100000000".to_owned(),
                1 => "999999999".to_owned(),
                2 => u64::MAX.to_string(),
                3 => (1u64 << 32).to_string(),
                4 => ((1u64 << 32) + r.next() % 100_000_000).to_string(),
                5 => (100_000_000 + r.below(100_000_000) as u64).to_string(),
                6 => 1_000_000_000u64.to_string(),
                7 => (1u64 << (27 + r.below(37))).to_string(),
                8 => 10u64.pow(8 + r.below(12) as u32).to_string(),
                _ => (r.next() | (1 << 30)).to_string(),
            },
            "sig" => match r.below(18) {
                12 => format!("{}==", r.word(84)),
                13 => format!("{}=", r.word(85)),
                14 => format!("{}{}", r.word(20), *r.pick(&["\n", " ", "\r\n", "\t", "\u{0}"])),
                15 => format!("{}{}", *r.pick(&[" ", "\t", "-", "_", "="]), r.word(20)),
                16 => format!("{}+/{}", r.word(12), r.word(12)),
                0 if r.chance(1, 3) => String::new(),
                1 => r.word(1),
                2 if r.chance(1, 10) => r.word(2000),
                3 => format!("{}=={}", r.word(20), r.word(2)),
                4 => format!("{} {}", r.word(8), r.word(8)),
                5 => format!("{}\"{{}}{}", r.word(8), r.word(8)),
                6 => format!("{}é{}", r.word(8), r.word(8)),
                7 => format!("{}-_{}", r.word(40), r.word(44)),
                _ => r.word(86),
            },
            "jwk" => json!({"kty": "OKP", "crv": "Ed25519", "x": b64url(&(0..32).map(|_| r.below(256) as u8).collect::<Vec<_>>())}).to_string(),
            "x5c" => format!("MII{}", r.word(40)),
            b if b.starts_with("cred") || b == "inline" => profile(r).to_string(),
            "xa" => match r.below(4) {
                0 => r.word(6),
                1 => format!("{}%20{}", r.word(2), r.word(2)),
                2 => format!("credential_offer%3D{}", r.word(3)),
                _ => format!("{}/{}:{}", r.word(2), r.word(1), r.word(3)),
            },
            "notdid" => match r.below(10) {
                0 => "key-1".to_owned(),
                1 => format!("https://example.com/{}#k", r.word(3)),
                2 => format!("DID:example:{}#k", r.word(3)),
                3 => format!("urn:uuid:{}", r.word(8)),
                4 => format!("#{}", r.word(3)),
                5 => String::new(),
                6 => format!(" did:example:{}#k", r.word(3)),
                7 => format!("did.example.{}#k", r.word(3)),
                8 => "did".to_owned(),
                _ => format!("{}#did:example:1", r.word(6)),
            },
            "xh" => {
                let n = (*r.pick(&["crit", "cty", "x5t", "jku", "url", "b64", "Kid", "KID", "Alg", "zip"])).to_owned();
                let v = json!([r.word(3), r.below(9)]);
                format!("{n}={}", canon(&v))
            }
            "xb" => {
                let n = (*r.pick(&["jti", "azp", "Nonce", "c_nonce", "client_id", "not_before", "expires_at", "Aud"])).to_owned();
                let v = json!(r.word(5));
                format!("{n}={}", canon(&v))
            }
            "endpoint" => endpoint(r),
            // JSON texts of a string and of a number
            b if b.starts_with('$') => {
                let t = if r.chance(1, 40) { String::new() } else { text(r) };
                Value::String(t).to_string()
            }
            b if b.starts_with('#') => match r.below(5) {
                0 => r.below(10).to_string(),
                1 => 86400.to_string(),
                2 => (1u64 << r.below(32)).to_string(),
                _ => (r.next() as u32).to_string(),
            },
            _ => {
                let t = if r.chance(1, 30) { String::new() } else { text(r) };
                if base.starts_with("id") || base.starts_with("long") {
                    t
                } else if r.chance(1, 150) {
                    let n = 300 + r.below(2000);
                    format!("{t}{}", r.word(n))
                } else {
                    t
                }
            }
        }
    }
}

pub fn endpoint(r: &mut Rng) -> String {
    match r.below(8) {
        0 => "https://wallet.example.org".to_owned(),
        1 => format!("https://wallet.example.org/{}", r.word(5)),
        2 => "openid-initiate-issuance://".to_owned(),
        3 => format!("{}://offer", r.word(5).to_lowercase()),
        4 => format!("https://{}.example.org:8443/a%20b/", r.word(3).to_lowercase()),
        5 => format!("http://localhost/{}", r.word(2)),
        6 => format!("haip://{}", r.word(2)),
        _ => url(r).split('?').next().unwrap().to_owned(),
    }
}

// ------------------------------------------------------------------ credential formats
pub fn claim(r: &mut Rng) -> Value {
    let mut m = Map::new();
    if r.chance(1, 2) {
        m.insert("mandatory".into(), json!(r.chance(1, 2)));
    }
    if r.chance(1, 2) {
        m.insert("value_type".into(), json!(text(r)));
    }
    if r.chance(1, 2) {
        let d: Vec<Value> = (0..r.below(3))
            .map(|_| {
                let mut d = Map::new();
                if r.chance(2, 3) {
                    d.insert("name".into(), json!(text(r)));
                }
                if r.chance(2, 3) {
                    d.insert("locale".into(), json!("en-US"));
                }
                Value::Object(d)
            })
            .collect();
        m.insert("display".into(), json!(d));
    }
    Value::Object(m)
}
fn claims(r: &mut Rng) -> Value {
    let mut m = Map::new();
    for _ in 0..r.below(4) {
        let k = text(r);
        m.insert(k, claim(r));
    }
    Value::Object(m)
}
fn texts(r: &mut Rng, max: usize) -> Value {
    let n = if r.chance(1, 400) { 300 } else { r.below(max + 1) };
    Value::Array((0..n).map(|_| json!(text(r))).collect())
}
/// JSON of a random credential format profile, as the library itself writes it
pub fn profile(r: &mut Rng) -> Value {
    let f = r.below(4);
    profile_of(r, ["jwt_vc_json", "jwt_vc_json-ld", "ldp_vc", "mso_mdoc"][f])
}
pub fn profile_of(r: &mut Rng, format: &str) -> Value {
    let mut m = Map::new();
    m.insert("format".into(), json!(format));
    let subject = if format == "mso_mdoc" {
        m.insert("doctype".into(), json!(text(r)));
        "claims"
    } else {
        m.insert("types".into(), texts(r, 3));
        "credentialSubject"
    };
    if format == "ldp_vc" {
        let c: Vec<Value> = (0..r.below(3))
            .map(|i| if r.chance(2, 3) { json!(format!("https://www.w3.org/{}", text(r))) } else { json!({ text(r): {"@id": r.word(4)}, "n": i }) })
            .collect();
        m.insert("@context".into(), json!(c));
    }
    if r.chance(1, 2) {
        m.insert(subject.into(), claims(r));
    }
    if r.chance(1, 3) {
        m.insert("order".into(), texts(r, 3));
    }
    Value::Object(m)
}
