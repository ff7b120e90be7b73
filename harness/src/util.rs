//! Clock, random numbers, text and JSON projections.  Nothing here knows what the library should
//! answer: that is decided by the TLA+ specification alone.
use chrono::{DateTime, NaiveDateTime, Utc};
use serde_json::{json, Map, Value};
use std::sync::atomic::{AtomicBool, AtomicI64, Ordering};

// ------------------------------------------------------------------ clock
static VIRTUAL: AtomicBool = AtomicBool::new(false);
static SECS: AtomicI64 = AtomicI64::new(0);
static NANOS: AtomicI64 = AtomicI64::new(0);

/// The library reads the wall clock through this symbol: the harness decides what time it is.
#[no_mangle]
pub extern "C" fn clock_gettime(id: libc::clockid_t, tp: *mut libc::timespec) -> libc::c_int {
    if id == libc::CLOCK_REALTIME && VIRTUAL.load(Ordering::SeqCst) {
        unsafe {
            (*tp).tv_sec = SECS.load(Ordering::SeqCst);
            (*tp).tv_nsec = NANOS.load(Ordering::SeqCst);
        }
        return 0;
    }
    unsafe { libc::syscall(libc::SYS_clock_gettime, id, tp) as libc::c_int }
}

pub fn set_clock(t: Time) {
    SECS.store(t.secs, Ordering::SeqCst);
    NANOS.store(i64::from(t.nanos), Ordering::SeqCst);
    VIRTUAL.store(true, Ordering::SeqCst);
}

/// True when the library sees the clock of the harness
pub fn clock_works() -> bool {
    set_clock(Time { secs: 1_234_567_890, nanos: 987_654_321 });
    Time::of(Utc::now()) == Time { secs: 1_234_567_890, nanos: 987_654_321 }
}

#[derive(Clone, Copy, Debug, PartialEq, Eq)]
pub struct Time {
    pub secs: i64,
    pub nanos: u32,
}

impl Time {
    pub fn of(t: DateTime<Utc>) -> Self {
        Time { secs: t.timestamp(), nanos: t.timestamp_subsec_nanos() }
    }
    pub fn dt(self) -> Option<DateTime<Utc>> {
        NaiveDateTime::from_timestamp_opt(self.secs, self.nanos).map(|n| DateTime::from_utc(n, Utc))
    }
    /// <<day, second, nanosecond>>
    pub fn json(self) -> Value {
        json!([self.secs.div_euclid(86400), self.secs.rem_euclid(86400), self.nanos])
    }
    pub fn add(self, dsecs: i64, dnanos: i64) -> Time {
        let total = i128::from(self.secs) * 1_000_000_000 + i128::from(self.nanos)
            + i128::from(dsecs) * 1_000_000_000 + i128::from(dnanos);
        Time { secs: total.div_euclid(1_000_000_000) as i64, nanos: total.rem_euclid(1_000_000_000) as u32 }
    }
    pub fn rfc3339(self, rng: &mut Rng) -> String {
        let t = self.dt().unwrap();
        match rng.below(4) {
            0 if self.nanos == 0 => t.to_rfc3339_opts(chrono::SecondsFormat::Secs, true),
            1 => t.to_rfc3339_opts(chrono::SecondsFormat::AutoSi, false),
            2 => {
                let off = chrono::FixedOffset::east_opt([3600, -3600, 19800, 45 * 60, -43200][rng.below(5)]).unwrap();
                t.with_timezone(&off).to_rfc3339_opts(chrono::SecondsFormat::Nanos, false)
            }
            _ => t.to_rfc3339_opts(chrono::SecondsFormat::AutoSi, true),
        }
    }
}

pub fn lifetime(secs: u32) -> Value {
    json!({"d": secs / 86400, "s": secs % 86400})
}

// ------------------------------------------------------------------ rng
#[derive(Clone)]
pub struct Rng(pub u64);
impl Rng {
    pub fn new(seed: u64, salt: &str) -> Self {
        let mut h = 0xcbf2_9ce4_8422_2325_u64 ^ seed.wrapping_mul(0x9e37_79b9_7f4a_7c15);
        for b in salt.bytes() {
            h = (h ^ u64::from(b)).wrapping_mul(0x0100_0000_01b3);
        }
        let mut r = Rng(h);
        r.next();
        r
    }
    pub fn next(&mut self) -> u64 {
        self.0 = self.0.wrapping_add(0x9e37_79b9_7f4a_7c15);
        let mut z = self.0;
        z = (z ^ (z >> 30)).wrapping_mul(0xbf58_476d_1ce4_e5b9);
        z = (z ^ (z >> 27)).wrapping_mul(0x94d0_49bb_1331_11eb);
        z ^ (z >> 31)
    }
    pub fn below(&mut self, n: usize) -> usize {
        (self.next() % n.max(1) as u64) as usize
    }
    pub fn chance(&mut self, num: usize, den: usize) -> bool {
        self.below(den) < num
    }
    pub fn pick<'a, T>(&mut self, v: &'a [T]) -> &'a T {
        &v[self.below(v.len())]
    }
    pub fn shuffle<T>(&mut self, v: &mut [T]) {
        for i in (1..v.len()).rev() {
            v.swap(i, self.below(i + 1));
        }
    }
    pub fn word(&mut self, n: usize) -> String {
        const A: &[u8] = b"abcdefghijklmnopqrstuvwxyzABCDEFGHIJKLMNOPQRSTUVWXYZ0123456789";
        (0..n).map(|_| A[self.below(A.len())] as char).collect()
    }
}

// ------------------------------------------------------------------ text
/// ASCII form of a text; equal iff the texts are equal, and the form of a concatenation is the
/// concatenation of the forms.
pub fn esc(s: &str) -> String {
    let mut o = String::with_capacity(s.len());
    for c in s.chars() {
        match c {
            '\\' => o.push_str("\\u{5c}"),
            ' '..='~' => o.push(c),
            _ => o.push_str(&format!("\\u{{{:x}}}", c as u32)),
        }
    }
    o
}

/// A text with room for trouble
pub fn text(rng: &mut Rng) -> String {
    let n = match rng.below(10) {
        0 => 1,
        1 => 2,
        2 => *rng.pick(&[31, 32, 33, 63, 64, 65, 127, 128, 129, 255, 256, 257, 300]),
        _ => 4 + rng.below(28),
    };
    let w = rng.word(n);
    match rng.below(30) {
        0 => format!("{w}.{}.{}", rng.word(3), rng.word(4)),
        1 => format!("{w}\"{}\"", rng.word(3)),
        2 => format!("{w}\\{}", rng.word(3)),
        3 => format!("{w}é{}ß", rng.word(2)),
        4 => format!("{w}/{}?{}#{}", rng.word(3), rng.word(3), rng.word(3)),
        5 => format!("{w}=&{}%20+", rng.word(3)),
        6 => format!("{w}\u{1F600}{}", rng.word(2)),
        7 => format!("{}-{}-{}", rng.word(8), rng.word(4), rng.word(12)),
        8 => (0..n.min(20)).map(|_| char::from(b'0' + rng.below(10) as u8)).collect(),
        9 => format!("{w} {}", rng.word(3)),
        10 => format!("{{\"a\":\"{w}\"}}"),
        11 => format!("{w}_{}-{}", rng.word(3), rng.word(3)),
        12 => w.to_lowercase(),
        13 => w.to_uppercase(),
        14 => format!("{w}{}", "==".get(..1 + rng.below(2)).unwrap()),
        15 => format!("\t{w}\n\u{0}\u{7f}"),
        16 => format!("{w}:{}", rng.word(5)),
        17 => format!("{w}'<>&;,{}", rng.word(1)),
        18 => format!(" {w} "),
        19 => format!("00{}", rng.below(1000)),
        20 => format!("{w}e\u{301}{}", rng.word(2)),
        21 => (*rng.pick(&["null", "true", "0", "[]", "{}", "none", "undefined", "-1", "1e3", "*", "%", "did:", "did:a:b"])).to_owned(),
        22 => (0..n.max(12)).map(|_| *rng.pick(&['A', 'b', 'C', 'd', '0', '9', '+', '/'])).collect(),
        23 => (0..n.max(12)).map(|_| *rng.pick(&['A', 'b', 'C', 'd', '0', '9', '-', '_'])).collect(),
        _ => w,
    }
}

pub fn url(rng: &mut Rng) -> String {
    let host = match rng.below(5) {
        0 => format!("{}.example.com", rng.word(5).to_lowercase()),
        1 => "localhost".to_owned(),
        2 => format!("issuer-{}.example.org", rng.word(2).to_lowercase()),
        3 => format!("{}.bücher.example", rng.word(2).to_lowercase()),
        _ => "server.example.com".to_owned(),
    };
    let port = match rng.below(4) {
        0 => ":443",
        1 => ":8443",
        _ => "",
    };
    let path = match rng.below(7) {
        0 => "/".to_owned(),
        1 => format!("/{}", rng.word(4)),
        2 => format!("/{}/", rng.word(4)),
        3 => format!("/tenant/{}/issuer", rng.word(3)),
        4 => format!("/a%20b/{}", rng.word(3)),
        5 => format!("/{}?tenant={}", rng.word(2), rng.word(3)),
        _ => String::new(),
    };
    format!("{}://{host}{port}{path}", if rng.chance(1, 8) { "http" } else { "https" })
}

pub const MUTATORS: usize = 90;
/// A text that is close to, but (nearly always) different from, the given one
pub fn mutate(s: &str, k: usize, rng: &mut Rng) -> String {
    let cs: Vec<char> = s.chars().collect();
    let n = cs.len();
    let at = |i: usize, c: char| -> String {
        cs.iter().enumerate().map(|(j, x)| if j == i { c } else { *x }).collect()
    };
    let flip = |c: char| if c.is_ascii_uppercase() { c.to_ascii_lowercase() } else { c.to_ascii_uppercase() };
    let alpha: Vec<usize> = (0..n).filter(|i| cs[*i].is_ascii_alphabetic()).collect();
    let other = |c: char| if c == 'x' { 'y' } else { 'x' };
    let r = match k % MUTATORS {
        0 => s.to_uppercase(),
        1 => s.to_lowercase(),
        2 => match alpha.first() { Some(i) => at(*i, flip(cs[*i])), None => format!("{s}A") },
        3 => match alpha.last() { Some(i) => at(*i, flip(cs[*i])), None => format!("{s}a") },
        4 => if alpha.is_empty() { format!("{s}0") } else { let i = *rng.pick(&alpha); at(i, flip(cs[i])) },
        5 => cs[..n.saturating_sub(1)].iter().collect(),
        6 => cs[n.min(1)..].iter().collect(),
        7 => cs[..n / 2].iter().collect(),
        8 => cs[n / 2..].iter().collect(),
        9 => format!("{s}x"),
        10 => format!("x{s}"),
        11 => format!("{s}{s}"),
        12 => format!("{s} "),
        13 => format!(" {s}"),
        14 => format!("{s}\n"),
        15 => format!("{s}\u{0}"),
        16 => format!("{s}/"),
        17 => s.trim_end_matches('/').to_owned(),
        18 => format!("{s}\u{200b}"),
        19 => if n > 0 { at(0, other(cs[0])) } else { "x".to_owned() },
        20 => if n > 0 { at(n - 1, other(cs[n - 1])) } else { "y".to_owned() },
        21 => if n > 0 { let i = rng.below(n); at(i, other(cs[i])) } else { "z".to_owned() },
        22 => cs.iter().rev().collect(),
        23 => if n > 1 { let mut v = cs.clone(); v.swap(0, n - 1); v.into_iter().collect() } else { format!("{s}-") },
        24 => if n > 1 { let mut v = cs.clone(); let i = rng.below(n - 1); v.swap(i, i + 1); v.into_iter().collect() } else { format!("-{s}") },
        25 => String::new(),
        26 => " ".to_owned(),
        27 => s.replace("https", "http"),
        28 => s.replace('-', "_"),
        29 => s.replace(|c: char| c.is_ascii_digit(), "0"),
        30 => format!("{s}?a=b"),
        31 => format!("{s}#a"),
        32 => format!("{s}.evil.example"),
        33 => s.replace("://", "://evil@"),
        34 => s.replace("%20", " ").replace('+', " "),
        35 => s.chars().map(|c| if c.is_ascii_alphanumeric() { c.to_string() } else { format!("%{:02X}", c as u32) }).collect(),
        36 => if n > 8 { cs[..8].iter().collect::<String>() + &rng.word(n - 8) } else { rng.word(n + 1) },
        37 => if n > 8 { rng.word(n - 8) + &cs[n - 8..].iter().collect::<String>() } else { rng.word(n + 2) },
        38 => if n > 2 { format!("{}{}{}", cs[0], rng.word(n - 2), cs[n - 1]) } else { rng.word(n + 3) },
        39 => if n > 0 { let mut v = cs.clone(); v.remove(rng.below(n)); v.into_iter().collect() } else { "q".to_owned() },
        40 => { let mut v = cs.clone(); v.insert(rng.below(n + 1), 'x'); v.into_iter().collect() }
        41 => rng.word(n.max(1)),
        42 => s.replace('e', "е").replace('a', "а").replace('o', "о"),
        43 => format!("{s},{}", rng.word(3)),
        44 => format!("\"{s}\""),
        45 => { let mut v = cs.clone(); v.sort_unstable(); v.into_iter().collect() }
        46 => if n > 0 { at(n - 1, char::from_u32((cs[n - 1] as u32) ^ 1).unwrap_or('!')) } else { "w".to_owned() },
        47 => if n > 0 { at(0, char::from_u32((cs[0] as u32) ^ 0x20).unwrap_or('!')) } else { "v".to_owned() },
        48 => format!("0{s}"),
        49 => format!("+{s}"),
        50 => format!("{s}="),
        51 => format!("{s}=="),
        // one character percent-encoded
        52 => if n > 0 { let i = rng.below(n); let mut b = [0; 4]; let e: String = cs[i].encode_utf8(&mut b).bytes().map(|b| format!("%{b:02x}")).collect(); format!("{}{e}{}", cs[..i].iter().collect::<String>(), cs[i + 1..].iter().collect::<String>()) } else { "%".to_owned() },
        53 => format!("{s}\u{301}"),
        // the same text in another composition
        54 => if s.contains('é') { s.replace('é', "e\u{301}") } else if s.contains('ü') { s.replace('ü', "u\u{308}") } else { s.replacen('e', "é", 1) },
        55 => if s.contains(":443") { s.replacen(":443", "", 1) } else { host_end(s, |h| format!("{h}:443")) },
        56 => if s.contains(":8443") { s.replacen(":8443", ":443", 1) } else { host_end(s, |h| format!("{h}:80")) },
        57 => host_end(s, |h| format!("{h}.")),
        58 => host_end(s, |h| h.to_uppercase()),
        59 => match s.split_once("://") { Some((a, b)) => format!("{}://{b}", a.to_uppercase()), None => s.replacen(':', "%3A", 1) },
        60 => host_end(s, |h| format!("{h}/.")),
        61 => match s.rfind('/') { Some(i) => format!("{}//{}", &s[..i], &s[i + 1..]), None => s.replace('_', "-") },
        62 => s.split(['?', '#']).next().unwrap().to_owned(),
        63 => s.rsplit_once('/').map_or(format!("{s}%00"), |(a, _)| a.to_owned()),
        64 => s.split_once("://").map_or(format!("{s}\r\n"), |(_, b)| b.to_owned()),
        65 => s.replacen('.', "", 1),
        66 => s.replace(['-', '_', '.', ' '], ""),
        67 => s.replace('.', "x"),
        68 => cs.iter().map(|c| match c { '0' => 'O', 'O' => '0', '1' => 'l', 'l' => '1', c => *c }).collect(),
        69 => format!("\t{s}"),
        70 => format!("\u{feff}{s}"),
        71 => format!("{s};{}", rng.word(2)),
        72 => { let v: Vec<usize> = (0..n).filter(|i| cs[*i].is_ascii_punctuation() || cs[*i] == ' ').collect(); if v.is_empty() { format!("{s};") } else { let i = *rng.pick(&v); at(i, if cs[i] == '-' { '_' } else { '-' }) } }
        73 => cs.iter().map(|c| if c.is_ascii() { *c } else { '?' }).collect::<String>() + if s.is_ascii() { "é" } else { "" },
        74 => { let v: Vec<usize> = (0..n).filter(|i| !cs[*i].is_ascii()).collect(); if v.is_empty() { format!("é{s}") } else { let i = *rng.pick(&v); at(i, char::from_u32(cs[i] as u32 + 1).unwrap_or('ö')) } }
        75 => { let mut v = cs.clone(); v.extend(cs.iter().take(n.min(4))); v.into_iter().collect() }
        76 => if n > 64 { cs[..n - 1].iter().chain(&['~']).collect() } else { format!("{s}{}", "x".repeat(256)) },
        77 => if n > 0 { at(n - 1, char::from_u32(cs[n - 1] as u32 + 256).unwrap_or('!')) } else { "u".to_owned() },
        78 => { let v: Vec<usize> = (0..n).filter(|i| cs[*i].is_ascii_digit()).collect(); if v.is_empty() { format!("1{s}") } else { let i = *rng.pick(&v); at(i, if cs[i] == '9' { '8' } else { char::from(cs[i] as u8 + 1) }) } }
        // another alphabet
        79 => { let t: String = cs.iter().map(|c| match c { '-' => '+', '_' => '/', '+' => '-', '/' => '_', c => *c }).collect(); if t == s { format!("{s}-") } else { t } }
        80 => { let t: String = cs.iter().map(|c| match c { '-' => '+', '_' => '/', c => *c }).collect(); if t == s { format!("{s}_") } else { t } }
        81 => { let t: String = cs.iter().map(|c| match c { '+' => '-', '/' => '_', c => *c }).collect(); if t == s { format!("{s}+") } else { t } }
        // other punctuation, as many characters
        82 => { let t: String = cs.iter().map(|c| if c.is_ascii_punctuation() { if *c == '.' { ':' } else { '.' } } else { *c }).collect(); if t == s { format!("{s}.") } else { t } }
        83 => { let t: String = cs.iter().map(|c| if c.is_ascii_alphanumeric() { *c } else if *c == '!' { '~' } else { '!' }).collect(); if t == s { format!("{s}!") } else { t } }
        // the same sum of characters
        84 => { let v: Vec<usize> = (0..n).filter(|i| cs[*i].is_ascii_alphanumeric() && !matches!(cs[*i], 'z' | 'Z' | '9' | 'a' | 'A' | '0')).collect(); if v.len() < 2 { format!("{s}4") } else { let i = rng.below(v.len() - 1); let mut w = cs.clone(); w[v[i]] = char::from(cs[v[i]] as u8 + 1); w[v[i + 1]] = char::from(cs[v[i + 1]] as u8 - 1); w.into_iter().collect() } }
        85 => { let mut w = cs.clone(); w.rotate_left(usize::from(n > 1)); w.into_iter().collect() }
        86 => if n > 1 { format!("{}{}{}", other(cs[0]), cs[1..n - 1].iter().collect::<String>(), other(cs[n - 1])) } else { format!("{s}6") },
        87 => s.split_whitespace().collect::<Vec<_>>().join(" ") + if s.contains(char::is_whitespace) { "" } else { "\u{a0}" },
        // digits of another script
        88 => cs.iter().map(|c| if c.is_ascii_digit() { char::from_u32(*c as u32 - 0x30 + 0xff10).unwrap() } else { *c }).collect(),
        // everything but one character in the middle is the same
        _ => if n > 2 { let i = n / 2; at(i, if cs[i] == 'm' { 'n' } else { 'm' }) } else { format!("{s}m") },
    };
    r
}
/// One text with another
pub fn combined(s: &str, other: &str, rng: &mut Rng) -> String {
    let sep = *rng.pick(&[":", ":", "", "", ".", "-", "/", "#", "~", "|", " ", "+", "_", ",", ";", "&", "?", "=", "@", "%3A"]);
    match rng.below(7) {
        0 => other.to_owned(),
        1 | 2 => format!("{other}{sep}{s}"),
        3 => {
            let (c, d): (Vec<char>, Vec<char>) = (s.chars().collect(), other.chars().collect());
            c[..c.len() / 2].iter().chain(&d[d.len() / 2..]).collect()
        }
        _ => format!("{s}{sep}{other}"),
    }
}
/// Changes what precedes the first slash after the scheme
fn host_end(s: &str, f: impl Fn(&str) -> String) -> String {
    let from = s.find("://").map_or(0, |i| i + 3);
    let end = s[from..].find(['/', '?', '#']).map_or(s.len(), |i| from + i);
    format!("{}{}{}", &s[..from], f(&s[from..end]), &s[end..])
}
/// As `mutate`, but never the text itself
pub fn near(s: &str, k: usize, rng: &mut Rng) -> String {
    for i in 0..MUTATORS {
        let m = mutate(s, k + i, rng);
        if m != s {
            return m;
        }
    }
    format!("{s}~")
}

// ------------------------------------------------------------------ encodings
pub fn b64url(data: &[u8]) -> String {
    const A: &[u8] = b"ABCDEFGHIJKLMNOPQRSTUVWXYZabcdefghijklmnopqrstuvwxyz0123456789-_";
    let mut o = String::new();
    for ch in data.chunks(3) {
        let b = [ch[0], *ch.get(1).unwrap_or(&0), *ch.get(2).unwrap_or(&0)];
        let v = (u32::from(b[0]) << 16) | (u32::from(b[1]) << 8) | u32::from(b[2]);
        for i in 0..=ch.len() {
            o.push(A[(v >> (18 - 6 * i)) as usize & 63] as char);
        }
    }
    o
}
pub fn unb64url(s: &str) -> Option<Vec<u8>> {
    let mut o = vec![];
    let (mut acc, mut bits) = (0u32, 0);
    for c in s.bytes() {
        let v = match c {
            b'A'..=b'Z' => c - b'A',
            b'a'..=b'z' => c - b'a' + 26,
            b'0'..=b'9' => c - b'0' + 52,
            b'-' => 62,
            b'_' => 63,
            _ => return None,
        };
        acc = (acc << 6) | u32::from(v);
        bits += 6;
        if bits >= 8 {
            bits -= 8;
            o.push((acc >> bits) as u8);
            acc &= (1 << bits) - 1;
        }
    }
    (bits < 6 && acc == 0).then_some(o)
}
pub fn hex(b: &[u8]) -> String {
    b.iter().map(|x| format!("{x:02x}")).collect()
}
pub fn unhex(s: &str) -> Vec<u8> {
    (0..s.len() / 2).map(|i| u8::from_str_radix(&s[2 * i..2 * i + 2], 16).unwrap_or(0)).collect()
}
pub fn unpct(s: &str) -> Option<Vec<u8>> {
    let b = s.as_bytes();
    let (mut o, mut i) = (vec![], 0);
    while i < b.len() {
        if b[i] == b'%' {
            let h = s.get(i + 1..i + 3)?;
            o.push(u8::from_str_radix(h, 16).ok()?);
            i += 3;
        } else {
            o.push(b[i]);
            i += 1;
        }
    }
    Some(o)
}

// ------------------------------------------------------------------ JSON
/// Text of a JSON value with sorted members
pub fn canon(v: &Value) -> String {
    match v {
        Value::Object(m) => {
            let mut ks: Vec<_> = m.keys().collect();
            ks.sort();
            let parts: Vec<_> = ks.iter().map(|k| format!("{}:{}", Value::String((*k).clone()), canon(&m[*k]))).collect();
            format!("{{{}}}", parts.join(","))
        }
        Value::Array(a) => format!("[{}]", a.iter().map(canon).collect::<Vec<_>>().join(",")),
        x => x.to_string(),
    }
}
pub fn ecanon(v: &Value) -> String {
    esc(&canon(v))
}
/// A long text by its length and hash: only ever compared
pub fn digest(s: &str) -> String {
    if s.len() <= 120 {
        return s.to_owned();
    }
    let h = |seed: u64| s.bytes().fold(seed, |h, b| (h ^ u64::from(b)).wrapping_mul(0x0100_0000_01b3).rotate_left(5));
    format!("<{} {:016x}{:016x}>", s.len(), h(0xcbf2_9ce4_8422_2325), h(0x9e37_79b9_7f4a_7c15))
}
/// Leaves of a JSON value as [path, value]; empty containers count as leaves
pub fn leaves(v: &Value) -> Vec<(String, String)> {
    fn go(v: &Value, p: &str, o: &mut Vec<(String, String)>) {
        match v {
            Value::Object(m) if !m.is_empty() => {
                for (k, x) in m {
                    go(x, &format!("{p}/{k}"), o);
                }
            }
            Value::Array(a) if !a.is_empty() => {
                for (i, x) in a.iter().enumerate() {
                    go(x, &format!("{p}/{i}"), o);
                }
            }
            x => o.push((esc(p), esc(&x.to_string()))),
        }
    }
    let mut o = vec![];
    go(v, "", &mut o);
    o.sort();
    o
}
pub fn jleaves(v: &Value) -> Value {
    Value::Array(leaves(v).into_iter().map(|(a, b)| json!([a, b])).collect())
}
/// Optional value as array of length 0 or 1
pub fn opt<T: Into<Value>>(o: Option<T>) -> Value {
    match o {
        Some(x) => Value::Array(vec![x.into()]),
        None => Value::Array(vec![]),
    }
}
pub fn eopt(o: Option<&str>) -> Value {
    opt(o.map(esc))
}
pub fn obj(v: Vec<(&str, Value)>) -> Value {
    Value::Object(v.into_iter().map(|(k, v)| (k.to_owned(), v)).collect::<Map<_, _>>())
}
/// JSON text with members in a random order and random white space
pub fn scrambled(v: &Value, rng: &mut Rng) -> String {
    match v {
        Value::Object(m) => {
            let mut ks: Vec<_> = m.keys().cloned().collect();
            rng.shuffle(&mut ks);
            let sp = *rng.pick(&["", "", " ", "\n "]);
            let parts: Vec<_> = ks.iter().map(|k| format!("{sp}{}:{sp}{}", jstr(k, rng), scrambled(&m[k], rng))).collect();
            format!("{{{}{sp}}}", parts.join(","))
        }
        Value::Array(a) => format!("[{}]", a.iter().map(|x| scrambled(x, rng)).collect::<Vec<_>>().join(",")),
        Value::String(s) => jstr(s, rng),
        x => x.to_string(),
    }
}
fn jstr(s: &str, rng: &mut Rng) -> String {
    if rng.chance(1, 6) {
        let mut o = String::from("\"");
        for c in s.chars() {
            let mut b = [0u16; 2];
            for u in c.encode_utf16(&mut b) {
                o.push_str(&format!("\\u{u:04x}"));
            }
        }
        o.push('"');
        o
    } else {
        Value::String(s.to_owned()).to_string()
    }
}

// ------------------------------------------------------------------ calls
use std::panic::{catch_unwind, AssertUnwindSafe};
/// Run a call; a panic is an outcome like any other
pub fn guard<T>(f: impl FnOnce() -> T) -> Result<T, String> {
    catch_unwind(AssertUnwindSafe(f)).map_err(|e| {
        e.downcast_ref::<String>().cloned().or_else(|| e.downcast_ref::<&str>().map(|s| (*s).to_owned())).unwrap_or_else(|| "panic".to_owned())
    })
}
pub fn panicked(m: &str) -> Value {
    json!({"ok": false, "err": {"name": "PANIC", "data": {"message": esc(m)}, "inner": []}})
}
