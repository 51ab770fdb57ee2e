//! Licenses.
use std::time::{Duration, UNIX_EPOCH};

/// the source of crates/licensing, so that its private items can be reached
#[allow(dead_code)]
mod lic {
    include!("/repo/crates/licensing/src/lib.rs");

    pub struct L(License);
    pub const LEVELS: [LicenseLevel; 2] = [LicenseLevel::Standard, LicenseLevel::NoLicense];

    #[allow(clippy::too_many_arguments)]
    impl L {
        pub fn new(name: String, email: String, company: String, from: u64, until: u64, level: LicenseLevel) -> L {
            let mut l = License::create(name, email, company, UNIX_EPOCH, UNIX_EPOCH, level);
            l.valid_from = from;
            l.valid_until = until;
            L(l)
        }
        pub fn created(from: SystemTime, until: SystemTime) -> L {
            L(License::create("n".into(), "e".into(), "c".into(), from, until, LicenseLevel::Standard))
        }
        pub fn set_version(&mut self, v: usize) {
            self.0.license_version = v;
        }
        pub fn times(&self) -> (u64, u64) {
            (self.0.valid_from, self.0.valid_until)
        }
        pub fn sign(&mut self, key: &[u8; 32]) {
            self.0.sign(key).unwrap()
        }
        pub fn signature(&self) -> String {
            self.0.signature.clone()
        }
        pub fn set_signature(&mut self, s: String) {
            self.0.signature = s;
        }
        /// 0: false, 1: true, 2: error
        pub fn verify(&self, now: SystemTime, keys: &[[u8; 32]]) -> u8 {
            match self.0.verify_with_keys(now, keys.iter()) {
                Ok(false) => 0,
                Ok(true) => 1,
                Err(_) => 2,
            }
        }
        pub fn same(&self, o: &L) -> bool {
            let (a, b) = (&self.0, &o.0);
            a.name == b.name
                && a.email == b.email
                && a.company == b.company
                && a.valid_from == b.valid_from
                && a.valid_until == b.valid_until
                && a.license_version == b.license_version
                && a.level == b.level
        }
        /// all fields one behind the other
        pub fn joined(&self) -> String {
            let a = &self.0;
            let level = if a.level == LicenseLevel::Standard { "S" } else { "N" };
            format!("{}{}{}{}{}{}{level}", a.name, a.email, a.company, a.valid_from, a.valid_until, a.license_version)
        }
        pub fn fields(&self) -> (&str, &str, &str, bool) {
            (&self.0.name, &self.0.email, &self.0.company, self.0.level == LicenseLevel::Standard)
        }
        pub fn json(&self) -> String {
            self.0.to_json()
        }
        pub fn from_json(s: &str) -> Option<L> {
            License::from_json(s).ok().map(L)
        }
    }
}
use lic::L;

zsym::entries!(h_time, h_tamper, h_shift, h_hexkey, h_json, h_create);

const KEY: [u8; 32] = [7; 32];
const PUB: [u8; 32] = [7 ^ 0x55; 32];
const OTHER: [u8; 32] = [9; 32];

fn warm() {
    let mut l = L::new("a".into(), "b".into(), "c".into(), 1, 2, lic::LEVELS[0]);
    l.sign(&KEY);
    std::hint::black_box(l.verify(UNIX_EPOCH, &[PUB]));
    std::hint::black_box(L::from_json(&l.json()).is_some());
}

/// a signed license is valid exactly from its first to its last second
#[unsafe(no_mangle)]
#[inline(never)]
pub extern "C" fn h_time() {
    warm();
    zsym::begin();
    let now = zsym::u64();
    let time = || {
        const BASE: [u64; 6] = [0, 1_699_999_950, 9_999_999_950, 253_402_300_750, i64::MAX as u64 - 50, u64::MAX - 99];
        BASE[zsym::split(zsym::range(0, BASE.len() as u8 - 1) as u64) as usize] + zsym::range(0, zsym::param(0) as u8) as u64
    };
    let (from, until) = (time(), time());
    // what a SystemTime can represent
    zsym::assume(now <= i64::MAX as u64);
    let mut l = L::new("n".into(), "e".into(), "c".into(), from, until, lic::LEVELS[0]);
    l.sign(&KEY);
    let r = l.verify(UNIX_EPOCH + Duration::from_secs(now), &[OTHER, PUB]);
    let inside = from <= now && now <= until;
    if inside {
        zsym::cover(0);
    } else {
        zsym::cover(1);
    }
    zsym::check((r == 1) == inside, "a license is accepted outside of its time or rejected inside of it");
    zsym::check(r != 0, "the signature of a genuine license is not recognised");
    zsym::check(l.verify(UNIX_EPOCH + Duration::from_secs(now), &[OTHER]) == 0, "a license that was signed with another key is accepted");
    zsym::out(r as u64);
}

fn small(n: usize) -> String {
    let k = zsym::split(zsym::range(0, n as u8) as u64) as usize;
    zsym::ascii(k, b"a1")
}

fn any(n: usize, level: bool) -> L {
    let (a, b) = (zsym::range(0, 99) as u64, zsym::range(0, 99) as u64);
    let lv = if level { lic::LEVELS[zsym::split(zsym::range(0, 1) as u64) as usize] } else { lic::LEVELS[0] };
    let mut l = L::new(small(n), small(n), small(n), a, b, lv);
    l.set_version(zsym::range(1, 2) as usize);
    l
}

fn tamper(shifted: bool) {
    warm();
    zsym::begin();
    let n = zsym::param(0) as usize;
    let mut a = any(n, false);
    a.sign(&KEY);
    let mut b = any(n, true);
    let same = b.same(&a);
    let shift = !same && b.joined() == a.joined();
    zsym::assume(shift == shifted);
    b.set_signature(a.signature());
    let now = UNIX_EPOCH + Duration::from_secs(zsym::range(0, 99) as u64);
    let r = b.verify(now, &[PUB]);
    if shift {
        zsym::check(r == 0, "text moved from one field of a license to the next one");
    } else if same {
        zsym::cover(0);
        zsym::check(r != 0, "an unchanged license is not recognised");
    } else {
        zsym::cover(1);
        zsym::check(r == 0, "a license is accepted although it was changed after it was signed");
    }
}

/// a license that was changed after it was signed is not accepted
#[unsafe(no_mangle)]
#[inline(never)]
pub extern "C" fn h_tamper() {
    tamper(false);
}

/// ... also not when text moved from one field to the next (known finding)
#[unsafe(no_mangle)]
#[inline(never)]
pub extern "C" fn h_shift() {
    tamper(true);
}

/// keys are parsed exactly
#[unsafe(no_mangle)]
#[inline(never)]
pub extern "C" fn h_hexkey() {
    warm();
    zsym::begin();
    let n = zsym::param(0) as usize;
    let parts = zsym::split(zsym::range(30, 33) as u64) as usize;
    let at = zsym::split(zsym::one_of(&[0, 15, 29]) as u64) as usize;
    let mid = zsym::ascii(n, b"09afAFgG:+- xz/@`");
    let mut s = String::new();
    for i in 0..parts {
        if i > 0 {
            s.push(':');
        }
        if i == at { s.push_str(&mid) } else { s.push_str("0c") }
    }
    let want: Option<Vec<u8>> = s
        .as_bytes()
        .split(|c| *c == b':')
        .map(|p| {
            let p = if p.len() > 1 && p[0] == b'+' { &p[1..] } else { p };
            let mut v = 0u32;
            for c in p {
                let d = match *c {
                    b'0'..=b'9' => *c - b'0',
                    b'a'..=b'f' => *c - b'a' + 10,
                    b'A'..=b'F' => *c - b'A' + 10,
                    _ => return None,
                };
                v = v * 16 + d as u32;
            }
            if p.is_empty() || v > 255 { None } else { Some(v as u8) }
        })
        .collect();
    let want = want.filter(|w| w.len() == 32);
    let got = lic::hex_string_key_to_bytes(s).ok();
    match (&want, &got) {
        (None, None) => zsym::cover(1),
        (Some(w), Some(g)) => {
            zsym::cover(0);
            zsym::check(w[..] == g[..], "a key has a wrong value");
        }
        _ => zsym::check(false, "a valid key is rejected or an invalid one is accepted"),
    }
    zsym::check(true, "");
}

/// a license survives its file
#[unsafe(no_mangle)]
#[inline(never)]
pub extern "C" fn h_json() {
    warm();
    zsym::begin();
    let n = zsym::param(0) as usize;
    let mut s = zsym::ascii(n, b"a\"\\/\x00\x1f\n\t\x7f{u");
    if zsym::split(zsym::range(0, 1) as u64) == 1 {
        s.push('\u{1d11e}');
    }
    let (a, b) = ([0, 1, u64::MAX][zsym::split(zsym::range(0, 2) as u64) as usize], zsym::range(0, 9) as u64);
    let f = zsym::split(zsym::range(0, 2) as u64);
    let pick = |i: u64| if i == f { s.clone() } else { "q".into() };
    let mut l = L::new(pick(0), pick(1), pick(2), a, b, lic::LEVELS[zsym::split(zsym::range(0, 1) as u64) as usize]);
    l.sign(&KEY);
    let r = L::from_json(&l.json());
    zsym::check(r.is_some(), "a saved license cannot be read");
    let Some(r) = r else { return };
    zsym::check(r.same(&l) && r.signature() == l.signature(), "a license is changed by saving and reading it");
}

/// a license for n days is valid from now on for n days
#[unsafe(no_mangle)]
#[inline(never)]
pub extern "C" fn h_create() {
    warm();
    unsafe { std::env::set_var("ZUBAN_SIGNING_KEY", ["07"; 32].join(":")) };
    zsym::begin();
    let days = if zsym::param(0) == 0 { zsym::range(0, 99) as u64 } else { [36_500, u64::MAX / 86_400, u64::MAX / 86_400 + 1, u64::MAX][zsym::split(zsym::range(0, 3) as u64) as usize] };
    let r = lic::create_license("n".into(), "e".into(), "c".into(), days);
    let Ok(json) = r else {
        zsym::cover(1);
        return zsym::check(days > 36_500, "no license can be made for a reasonable number of days");
    };
    let l = L::from_json(&json);
    zsym::check(l.is_some(), "a created license cannot be read");
    let Some(l) = l else { return };
    let (from, until) = l.times();
    zsym::check(l.fields() == ("n", "e", "c", true), "a created license is not made for the given person");
    zsym::check(days < 1 << 40 && until == from + days * 86_400, "a created license is not valid for the given number of days");
    zsym::check(l.verify(UNIX_EPOCH + Duration::from_secs(until), &[PUB]) == 1, "a created license is not valid until its end");
}
