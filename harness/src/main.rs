//! Executes scenarios (one JSON object per line) against the http-ntlm crate and records, for
//! every operation, its arguments and what was observed. It judges nothing: the records are
//! checked against the TLA+ specification by TLC.
use http_ntlm::client::Client;
use http_ntlm::messages::flags::Flags;
use http_ntlm::messages::structures::*;
use http_ntlm::messages::{Authenticate, Challenge, Negotiate};
use http_ntlm::{verif, NtlmVersion};
use serde_json::{json, Map, Value};
use std::collections::HashMap;
use std::io::{BufRead, Write};
use std::os::unix::ffi::OsStringExt;
use std::panic::{catch_unwind, AssertUnwindSafe};
use std::sync::atomic::{AtomicBool, AtomicI64, AtomicUsize, Ordering};
use std::sync::{Barrier, Mutex};
use std::time::{Duration, SystemTime, UNIX_EPOCH};

// ---------------------------------------------------------------------------------------------
// The process environment as seen by the crate

/// The content of /etc/hostname, or why it cannot be had.
static HOSTNAME: Mutex<Result<Vec<u8>, libc::c_int>> = Mutex::new(Err(libc::ENOENT));
fn set_host(h: Result<Vec<u8>, libc::c_int>) {
    *HOSTNAME.lock().unwrap_or_else(|e| e.into_inner()) = h;
}

/// Stands in for libc's `open64` in this process: /etc/hostname is what the scenario says.
///
/// # Safety
/// Same contract as open(2).
#[no_mangle]
pub unsafe extern "C" fn open64(path: *const libc::c_char, flags: libc::c_int, mode: libc::mode_t) -> libc::c_int {
    if std::ffi::CStr::from_ptr(path).to_bytes() == b"/etc/hostname" {
        return match *HOSTNAME.lock().unwrap_or_else(|e| e.into_inner()) {
            Err(libc::EISDIR) => libc::syscall(libc::SYS_openat, libc::AT_FDCWD, b"/\0".as_ptr(), flags, mode) as libc::c_int,
            Err(n) => {
                *libc::__errno_location() = n;
                -1
            }
            Ok(ref content) => {
                let fd = libc::memfd_create(b"hostname\0".as_ptr().cast(), 0);
                if fd >= 0 {
                    libc::write(fd, content.as_ptr().cast(), content.len());
                    libc::lseek(fd, 0, libc::SEEK_SET);
                }
                fd
            }
        };
    }
    let name = std::ffi::CStr::from_ptr(path).to_bytes();
    if let Some(rumour) = rumour() {
        if ![&b"/dev/"[..], b"/proc/self", b"/sys/"].iter().any(|p| name.starts_with(p)) {
            let fd = libc::memfd_create(b"rumour\0".as_ptr().cast(), 0);
            libc::write(fd, rumour.as_ptr().cast(), rumour.len() - 1);
            libc::lseek(fd, 0, libc::SEEK_SET);
            return fd;
        }
    }
    libc::syscall(libc::SYS_openat, libc::AT_FDCWD, path, flags, mode) as libc::c_int
}

/// What everybody says who should not be asked: variables, files and names of the machine which are
/// no part of the scenario's environment. Nothing at all in every fifth scenario.
static RUMOUR: AtomicUsize = AtomicUsize::new(0);
fn rumour() -> Option<&'static [u8]> {
    [None, Some(&b"rumour.example\0"[..]), Some(b"1\0"), Some(b"0\0"), Some(b"\0")][RUMOUR.load(Ordering::SeqCst) % 5]
}

extern "C" {
    static environ: *const *const libc::c_char;
}
/// Stands in for libc's `getenv`: a variable nobody has set is set nevertheless.
///
/// # Safety
/// Same contract as getenv(3).
#[no_mangle]
pub unsafe extern "C" fn getenv(name: *const libc::c_char) -> *mut libc::c_char {
    let name = std::ffi::CStr::from_ptr(name).to_bytes();
    let mut e = environ;
    while !e.is_null() && !(*e).is_null() {
        let entry = std::ffi::CStr::from_ptr(*e).to_bytes();
        if entry.len() > name.len() && entry.starts_with(name) && entry[name.len()] == b'=' {
            return (*e).add(name.len() + 1) as *mut _;
        }
        e = e.add(1);
    }
    if ENV.iter().any(|k| k.as_bytes() == name) || name.starts_with(b"RUST_") {
        return std::ptr::null_mut();
    }
    rumour().map_or(std::ptr::null_mut(), |r| r.as_ptr() as *mut _)
}
/// Stands in for libc's `gethostname`.
///
/// # Safety
/// Same contract as gethostname(2).
#[no_mangle]
pub unsafe extern "C" fn gethostname(name: *mut libc::c_char, len: libc::size_t) -> libc::c_int {
    let r = rumour().unwrap_or(b"noise-host\0");
    if len < r.len() {
        return -1;
    }
    std::ptr::copy_nonoverlapping(r.as_ptr().cast(), name, r.len());
    0
}

static STOPPED: AtomicBool = AtomicBool::new(false);
/// Nothing moves: all clocks stand still, and the process has a number it shares with others.
static STILL: AtomicBool = AtomicBool::new(false);
static SECS: AtomicI64 = AtomicI64::new(0);
static NANOS: AtomicI64 = AtomicI64::new(0);

/// Stands in for libc's `clock_gettime`: the system clock may stand still where the scenario says.
///
/// # Safety
/// Same contract as clock_gettime(2).
#[no_mangle]
pub unsafe extern "C" fn clock_gettime(clock: libc::clockid_t, t: *mut libc::timespec) -> libc::c_int {
    if clock == libc::CLOCK_REALTIME && STOPPED.load(Ordering::SeqCst) {
        (*t).tv_sec = SECS.load(Ordering::SeqCst);
        (*t).tv_nsec = NANOS.load(Ordering::SeqCst);
        return 0;
    }
    if STILL.load(Ordering::SeqCst) {
        (*t).tv_sec = if clock == libc::CLOCK_REALTIME { 1_700_000_000 } else { 4321 };
        (*t).tv_nsec = 123_456_789;
        return 0;
    }
    libc::syscall(libc::SYS_clock_gettime, clock, t) as libc::c_int
}
/// Stands in for libc's `getpid`.
#[no_mangle]
pub extern "C" fn getpid() -> libc::pid_t {
    if STILL.load(Ordering::SeqCst) {
        return 4242;
    }
    unsafe { libc::syscall(libc::SYS_getpid) as libc::pid_t }
}
fn stop_clock(at: Option<(u64, u32)>) {
    if let Some((s, n)) = at {
        SECS.store(s as i64, Ordering::SeqCst);
        NANOS.store(n as i64, Ordering::SeqCst);
    }
    STOPPED.store(at.is_some(), Ordering::SeqCst);
}

thread_local! {
    /// What is drawn at random next on this thread: length, used, bytes
    static DICE: std::cell::Cell<(usize, usize, [u8; 64])> = const { std::cell::Cell::new((0, 0, [0; 64])) };
}
/// Lets `f` draw these bytes first, where it asks the system for random ones
fn loaded<T>(dice: &[u8], f: impl FnOnce() -> T) -> T {
    let mut d = (dice.len(), 0, [0; 64]);
    d.2[..dice.len()].copy_from_slice(dice);
    DICE.with(|x| x.set(d));
    let r = f();
    DICE.with(|x| x.set((0, 0, [0; 64])));
    r
}
/// Stands in for libc's `syscall`: for getrandom, the dice come first.
///
/// # Safety
/// Same contract as syscall(2).
#[cfg(target_arch = "x86_64")]
#[no_mangle]
pub unsafe extern "C" fn syscall(n: libc::c_long, a: libc::c_long, b: libc::c_long, c: libc::c_long, d: libc::c_long, e: libc::c_long, f: libc::c_long) -> libc::c_long {
    if n == libc::SYS_getrandom && b > 0 {
        let (len, used, bytes) = DICE.with(|x| x.get());
        if used < len {
            let k = (len - used).min(b as usize);
            std::ptr::copy_nonoverlapping(bytes.as_ptr().add(used), a as *mut u8, k);
            DICE.with(|x| x.set((len, used + k, bytes)));
            return k as libc::c_long;
        }
    }
    let r: libc::c_long;
    std::arch::asm!("syscall", inlateout("rax") n => r, in("rdi") a, in("rsi") b, in("rdx") c, in("r10") d, in("r8") e, in("r9") f,
                    lateout("rcx") _, lateout("r11") _, options(nostack));
    if (-4095..0).contains(&r) {
        *libc::__errno_location() = -r as libc::c_int;
        return -1;
    }
    r
}

static LOG: Mutex<Vec<u8>> = Mutex::new(Vec::new());
struct Logger;
impl log::Log for Logger {
    fn enabled(&self, _: &log::Metadata) -> bool {
        true
    }
    fn log(&self, record: &log::Record) {
        if let Ok(mut l) = LOG.lock() {
            let _ = writeln!(l, "{}", record.args());
        }
    }
    fn flush(&self) {}
}
static LOGGER: Logger = Logger;

/// Reads what was written to stdout, stderr and the log since the last call.
struct Io {
    fd: libc::c_int,
    pos: libc::off_t,
    on: bool,
}
impl Io {
    fn new() -> Self {
        unsafe {
            let fd = libc::memfd_create(b"io\0".as_ptr().cast(), 0);
            libc::dup2(fd, 1);
            libc::dup2(fd, 2);
            Self { fd, pos: 0, on: false }
        }
    }
    fn take(&mut self) -> Vec<u8> {
        let _ = std::io::stdout().flush();
        let mut out = Vec::new();
        unsafe {
            let end = libc::lseek(self.fd, 0, libc::SEEK_END);
            if self.on {
                let n = (end - self.pos) as usize;
                out.resize(n, 0);
                let got = libc::pread(self.fd, out.as_mut_ptr().cast(), n, self.pos);
                out.truncate(got.max(0) as usize);
            }
            libc::ftruncate(self.fd, 0);
            libc::lseek(self.fd, 0, libc::SEEK_SET);
            self.pos = 0;
        }
        let mut l = LOG.lock().unwrap_or_else(|e| e.into_inner());
        if self.on {
            out.extend_from_slice(&l);
        }
        l.clear();
        out
    }
}

// ---------------------------------------------------------------------------------------------
// JSON <-> values

fn hex(b: &[u8]) -> Value {
    let mut s = String::with_capacity(b.len() * 2);
    for x in b {
        s.push_str(&format!("{:02x}", x));
    }
    Value::String(s)
}
fn unhex(v: &Value) -> Vec<u8> {
    let s = v.as_str().expect("hex string").as_bytes();
    s.chunks(2)
        .map(|c| u8::from_str_radix(std::str::from_utf8(c).unwrap(), 16).unwrap())
        .collect()
}
fn arr<const N: usize>(v: &Value) -> [u8; N] {
    unhex(v).try_into().expect("length")
}
fn text(s: &str) -> Value {
    Value::Array(s.chars().map(|c| json!(c as u32)).collect())
}
fn untext(v: &Value) -> String {
    v.as_array()
        .expect("text")
        .iter()
        .map(|c| char::from_u32(c.as_u64().unwrap() as u32).unwrap())
        .collect()
}
fn opt<T>(o: Option<T>, f: impl Fn(T) -> Value) -> Value {
    Value::Array(o.into_iter().map(f).collect())
}
fn unopt<T>(v: &Value, f: impl Fn(&Value) -> T) -> Option<T> {
    v.as_array().expect("option").first().map(f)
}
// 32-bit numbers are written as 8 hex digits, most significant first
fn be(n: u32) -> Value {
    Value::String(format!("{:08x}", n))
}
fn unbe(v: &Value) -> u32 {
    u32::from_str_radix(v.as_str().unwrap(), 16).unwrap()
}

fn ver(v: &Version) -> Value {
    json!([v.major, v.minor, v.build, v.revision_count])
}
fn unver(v: &Value) -> Version {
    let n = |i: usize| v[i].as_u64().unwrap();
    Version { major: n(0) as u8, minor: n(1) as u8, build: n(2) as u16, revision_count: n(3) as u8 }
}
fn ft(t: &FileTime) -> Value {
    json!([be(t.high), be(t.low)])
}
fn unft(v: &Value) -> FileTime {
    FileTime { high: unbe(&v[0]), low: unbe(&v[1]) }
}
fn shd(s: &SingleHostData) -> Value {
    json!({"size": be(s.size), "z4": be(s.z4), "cd": hex(&s.custom_data), "mi": hex(&s.machine_id)})
}
fn unshd(v: &Value) -> SingleHostData {
    SingleHostData { size: unbe(&v["size"]), z4: unbe(&v["z4"]), custom_data: arr(&v["cd"]), machine_id: arr(&v["mi"]) }
}
fn avflags(f: &MsvAvFlags) -> Value {
    json!([
        f.account_authentication_constrained as u8,
        f.mic_present as u8,
        f.generated_spn_from_untrusted_source as u8
    ])
}
fn unavflags(v: &Value) -> MsvAvFlags {
    let b = |i: usize| v[i].as_u64().unwrap() != 0;
    MsvAvFlags {
        account_authentication_constrained: b(0),
        mic_present: b(1),
        generated_spn_from_untrusted_source: b(2),
    }
}
fn av(p: &AvPair) -> Value {
    match p {
        AvPair::MsvAvEOL => json!({"id": 0}),
        AvPair::MsvAvNbComputerName(s) => json!({"id": 1, "t": text(s)}),
        AvPair::MsvAvNbDomainName(s) => json!({"id": 2, "t": text(s)}),
        AvPair::MsvAvDnsComputerName(s) => json!({"id": 3, "t": text(s)}),
        AvPair::MsvAvDnsDomainName(s) => json!({"id": 4, "t": text(s)}),
        AvPair::MsvAvDnsTreeName(s) => json!({"id": 5, "t": text(s)}),
        AvPair::MsvAvFlags(f) => json!({"id": 6, "f": avflags(f)}),
        AvPair::MsvAvTimestamp(t) => json!({"id": 7, "ft": ft(t)}),
        AvPair::MsvAvSingleHost(s) => json!({"id": 8, "shd": shd(s)}),
        AvPair::MsvAvTargetName(s) => json!({"id": 9, "t": text(s)}),
        AvPair::MsvAvChannelBindings(b) => json!({"id": 10, "b": hex(b)}),
    }
}
fn unav(v: &Value) -> AvPair {
    match v["id"].as_u64().unwrap() {
        0 => AvPair::MsvAvEOL,
        1 => AvPair::MsvAvNbComputerName(untext(&v["t"])),
        2 => AvPair::MsvAvNbDomainName(untext(&v["t"])),
        3 => AvPair::MsvAvDnsComputerName(untext(&v["t"])),
        4 => AvPair::MsvAvDnsDomainName(untext(&v["t"])),
        5 => AvPair::MsvAvDnsTreeName(untext(&v["t"])),
        6 => AvPair::MsvAvFlags(unavflags(&v["f"])),
        7 => AvPair::MsvAvTimestamp(unft(&v["ft"])),
        8 => AvPair::MsvAvSingleHost(unshd(&v["shd"])),
        9 => AvPair::MsvAvTargetName(untext(&v["t"])),
        10 => AvPair::MsvAvChannelBindings(arr(&v["b"])),
        n => panic!("AV id {}", n),
    }
}
fn avs(l: &[AvPair]) -> Value {
    Value::Array(l.iter().map(av).collect())
}
fn unavs(v: &Value) -> Vec<AvPair> {
    v.as_array().unwrap().iter().map(unav).collect()
}
fn lm1(c: &Lmv1Challenge) -> Value {
    json!({"v": 1, "r": hex(&c.response)})
}
fn lm2(c: &Lmv2Challenge) -> Value {
    json!({"v": 2, "r": hex(&c.response), "cc": hex(&c.challenge_from_client)})
}
fn unlm1(v: &Value) -> Lmv1Challenge {
    Lmv1Challenge { response: arr::<24>(&v["r"]).into() }
}
fn unlm2(v: &Value) -> Lmv2Challenge {
    Lmv2Challenge { response: arr::<16>(&v["r"]).into(), challenge_from_client: arr::<8>(&v["cc"]).into() }
}
fn lm(c: &LmChallenge) -> Value {
    match c {
        LmChallenge::V1(c) => lm1(c),
        LmChallenge::V2(c) => lm2(c),
    }
}
fn unlm(v: &Value) -> LmChallenge {
    if v["v"] == json!(1) {
        LmChallenge::V1(unlm1(v))
    } else {
        LmChallenge::V2(unlm2(v))
    }
}
fn nt1(c: &Ntv1Challenge) -> Value {
    json!({"v": 1, "r": hex(&c.response)})
}
fn nt2(c: &Ntv2Challenge) -> Value {
    json!({"v": 2, "ts": ft(&c.timestamp), "cc": hex(&c.challenge_from_client), "ti": avs(&c.target_infos)})
}
fn nt3(r: &Ntv2Response) -> Value {
    let mut v = nt2(&r.challenge);
    v["v"] = json!(3);
    v["p"] = hex(&r.nt_proof_str);
    v
}
fn unnt1(v: &Value) -> Ntv1Challenge {
    Ntv1Challenge { response: arr::<24>(&v["r"]).into() }
}
fn unnt2(v: &Value) -> Ntv2Challenge {
    Ntv2Challenge {
        timestamp: unft(&v["ts"]),
        challenge_from_client: arr::<8>(&v["cc"]).into(),
        target_infos: unavs(&v["ti"]),
    }
}
fn unnt3(v: &Value) -> Ntv2Response {
    Ntv2Response { nt_proof_str: arr::<16>(&v["p"]).into(), challenge: unnt2(v) }
}
fn nt(c: &NtChallenge) -> Value {
    match c {
        NtChallenge::V1(c) => nt1(c),
        NtChallenge::V2(c) => nt2(c),
        NtChallenge::V2Response(r) => nt3(r),
    }
}
fn unnt(v: &Value) -> NtChallenge {
    match v["v"].as_u64().unwrap() {
        1 => NtChallenge::V1(unnt1(v)),
        2 => NtChallenge::V2(unnt2(v)),
        _ => NtChallenge::V2Response(unnt3(v)),
    }
}
fn sig(s: &MessageSignature) -> Value {
    json!({"pad": hex(&s.random_pad), "sum": be(s.checksum), "seq": be(s.seq_num)})
}
fn unsig(v: &Value) -> MessageSignature {
    MessageSignature { random_pad: arr::<4>(&v["pad"]).into(), checksum: unbe(&v["sum"]), seq_num: unbe(&v["seq"]) }
}
fn neg(m: &Negotiate) -> Value {
    json!({"flags": be(m.negotiate_flags.0), "dom": opt(m.get_domain_name(), |s| text(s)),
           "ws": opt(m.get_workstation(), |s| text(s)), "ver": opt(m.version.as_ref(), ver)})
}
fn unneg(v: &Value) -> Negotiate {
    let mut m = Negotiate::default();
    m.set_domain_name(unopt(&v["dom"], untext));
    m.set_workstation(unopt(&v["ws"], untext));
    m.version = unopt(&v["ver"], unver);
    m.negotiate_flags = Flags(unbe(&v["flags"]));
    m
}
fn chal(m: &Challenge) -> Value {
    json!({"tn": opt(m.get_target_name(), |s| text(s)), "flags": be(m.negotiate_flags.0),
           "sc": hex(&m.server_challenge), "ti": avs(m.get_target_infos()), "ver": opt(m.version.as_ref(), ver)})
}
fn add(m: &mut Challenge, p: AvPair) {
    match p {
        AvPair::MsvAvEOL => panic!("the terminator is not an item"),
        AvPair::MsvAvNbComputerName(s) => m.target_infos_add_computername(s),
        AvPair::MsvAvNbDomainName(s) => m.target_infos_add_domainname(s),
        AvPair::MsvAvDnsComputerName(s) => m.target_infos_add_dnscomputername(s),
        AvPair::MsvAvDnsDomainName(s) => m.target_infos_add_dnsdomainname(s),
        AvPair::MsvAvDnsTreeName(s) => m.target_infos_add_dnstreename(s),
        AvPair::MsvAvFlags(f) => m.target_infos_add_flags(f),
        AvPair::MsvAvTimestamp(t) => m.target_infos_add_timestamp(t),
        AvPair::MsvAvSingleHost(s) => m.target_infos_add_singlehost(s),
        AvPair::MsvAvTargetName(s) => m.target_infos_add_targetname(s),
        AvPair::MsvAvChannelBindings(b) => m.target_infos_add_channelbindings(b),
    };
}
/// Items and the one terminator that the builder adds
fn unchal(v: &Value) -> Challenge {
    let mut m = Challenge::default();
    if let Some(tn) = unopt(&v["tn"], untext) {
        m.set_target_name(Some(tn));
    }
    let ti = unavs(&v["ti"]);
    if let Some((_, items)) = ti.split_last() {
        for p in items {
            add(&mut m, p.clone());
        }
    }
    m.server_challenge = arr::<8>(&v["sc"]).into();
    m.version = unopt(&v["ver"], unver);
    m.negotiate_flags = Flags(unbe(&v["flags"]));
    m
}
fn auth(m: &Authenticate) -> Value {
    json!({"lm": opt(m.lm_challenge_response.as_ref(), lm), "nt": opt(m.nt_challenge_response.as_ref(), nt),
           "dom": opt(m.domain.as_ref(), |s| text(s)), "user": opt(m.user.as_ref(), |s| text(s)),
           "ws": opt(m.workstation.as_ref(), |s| text(s)),
           "key": opt(m.get_encrypted_random_session_key(), |k| hex(k)),
           "flags": be(m.negotiate_flags.0), "ver": opt(m.version.as_ref(), ver), "mic": hex(&m.mic)})
}
fn unauth(v: &Value) -> Authenticate {
    let mut m = Authenticate::default();
    m.lm_challenge_response = unopt(&v["lm"], unlm);
    m.nt_challenge_response = unopt(&v["nt"], unnt);
    m.domain = unopt(&v["dom"], |t| untext(t).into());
    m.user = unopt(&v["user"], |t| untext(t).into());
    m.workstation = unopt(&v["ws"], |t| untext(t).into());
    m.set_encrypted_random_session_key(unopt(&v["key"], |k| arr::<16>(k).into()));
    m.version = unopt(&v["ver"], unver);
    m.mic = arr::<16>(&v["mic"]).into();
    m.negotiate_flags = Flags(unbe(&v["flags"]));
    m
}

// ---------------------------------------------------------------------------------------------
// Any message or structure

enum Obj {
    Neg(Negotiate),
    Chal(Challenge),
    Auth(Authenticate),
    Other(Value, Box<dyn Fn() -> Vec<u8>>),
}

fn from_val(kind: &str, v: &Value) -> Obj {
    macro_rules! other {
        ($e:expr) => {{
            let x = $e;
            Obj::Other(v.clone(), Box::new(move || verif::encode(&x)))
        }};
    }
    match kind {
        "neg" => Obj::Neg(unneg(v)),
        "chal" => Obj::Chal(unchal(v)),
        "auth" => Obj::Auth(unauth(v)),
        "ver" => other!(unver(v)),
        "flags" => other!(Flags(unbe(v))),
        "ft" => other!(unft(v)),
        "av" => other!(unav(v)),
        "avs" => other!(unavs(v)),
        "avflags" => other!(unavflags(v)),
        "shd" => other!(unshd(v)),
        "sig" => other!(unsig(v)),
        "lm" => other!(unlm(v)),
        "lm1" => other!(unlm1(v)),
        "lm2" => other!(unlm2(v)),
        "nt" => other!(unnt(v)),
        "nt1" => other!(unnt1(v)),
        "nt2" => other!(unnt2(v)),
        "nt3" => other!(unnt3(v)),
        k => panic!("kind {}", k),
    }
}
fn dump(o: &Obj) -> Value {
    match o {
        Obj::Neg(m) => neg(m),
        Obj::Chal(m) => chal(m),
        Obj::Auth(m) => auth(m),
        Obj::Other(v, _) => v.clone(),
    }
}
fn encode(o: &Obj) -> Vec<u8> {
    match o {
        Obj::Neg(m) => verif::encode(m),
        Obj::Chal(m) => verif::encode(m),
        Obj::Auth(m) => verif::encode(m),
        Obj::Other(_, f) => f(),
    }
}
/// The value and the number of bytes that were consumed
fn decode(kind: &str, raw: &[u8]) -> Option<(Obj, usize)> {
    macro_rules! dec {
        ($t:ty, $f:expr, msg $v:path) => {
            verif::decode::<$t>(raw).ok().map(|(rest, m)| ($v(m), raw.len() - rest.len()))
        };
        ($t:ty, $f:expr) => {
            verif::decode::<$t>(raw).ok().map(|(rest, m)| {
                let v = $f(&m);
                (Obj::Other(v, Box::new(move || verif::encode(&m))), raw.len() - rest.len())
            })
        };
    }
    match kind {
        "neg" => dec!(Negotiate, neg, msg Obj::Neg),
        "chal" => dec!(Challenge, chal, msg Obj::Chal),
        "auth" => dec!(Authenticate, auth, msg Obj::Auth),
        "ver" => dec!(Version, ver),
        "flags" => dec!(Flags, |f: &Flags| be(f.0)),
        "ft" => dec!(FileTime, ft),
        "av" => dec!(AvPair, av),
        "avs" => dec!(Vec<AvPair>, |l: &Vec<AvPair>| avs(l)),
        "avflags" => dec!(MsvAvFlags, avflags),
        "shd" => dec!(SingleHostData, shd),
        "sig" => dec!(MessageSignature, sig),
        "lm" => dec!(LmChallenge, lm),
        "lm1" => dec!(Lmv1Challenge, lm1),
        "lm2" => dec!(Lmv2Challenge, lm2),
        "nt" => dec!(NtChallenge, nt),
        "nt1" => dec!(Ntv1Challenge, nt1),
        "nt2" => dec!(Ntv2Challenge, nt2),
        "nt3" => dec!(Ntv2Response, nt3),
        k => panic!("kind {}", k),
    }
}

// ---------------------------------------------------------------------------------------------
// Clients of all levels

trait AnyClient {
    fn neg(&mut self) -> Vec<u8>;
    fn chal(&mut self, c: Challenge);
    fn auth(&mut self) -> Vec<u8>;
    fn ver(&mut self, v: Option<Version>);
    fn esk(&self) -> Option<Vec<u8>>;
}
impl<V: NtlmVersion> AnyClient for Client<V> {
    fn neg(&mut self) -> Vec<u8> {
        self.send_negociate().to_vec()
    }
    fn chal(&mut self, c: Challenge) {
        self.recv_challenge(c)
    }
    fn auth(&mut self) -> Vec<u8> {
        self.send_authenticate().to_vec()
    }
    fn ver(&mut self, v: Option<Version>) {
        self.verif_set_version(v)
    }
    fn esk(&self) -> Option<Vec<u8>> {
        self.verif_exported_session_key()
    }
}
macro_rules! level {
    ($name:ident, $n:expr) => {
        struct $name;
        impl NtlmVersion for $name {
            fn version() -> u32 {
                $n
            }
        }
    };
}
level!(L0, 0);
level!(L1, 1);
level!(L2, 2);
level!(L3, 3);
level!(L4, 4);
level!(L5, 5);
level!(L6, 6);
level!(Beyond, u32::MAX);
fn client(op: &Value) -> Box<dyn AnyClient> {
    let pw = untext(&op["pw"]);
    let target = untext(&op["target"]);
    macro_rules! mk {
        ($l:ty) => {
            if op["via"] == json!("account") {
                Box::new(Client::<$l>::new(untext(&op["acct"]), pw, target))
            } else {
                Box::new(Client::<$l>::new_with_domain(untext(&op["user"]), untext(&op["dom"]), pw, target))
            }
        };
    }
    match op["level"].as_u64().unwrap() {
        0 => mk!(L0),
        1 => mk!(L1),
        2 => mk!(L2),
        3 => mk!(L3),
        4 => mk!(L4),
        5 => mk!(L5),
        6 => mk!(L6),
        _ => mk!(Beyond),
    }
}

// ---------------------------------------------------------------------------------------------

fn guard<T>(f: impl FnOnce() -> T) -> Result<T, ()> {
    catch_unwind(AssertUnwindSafe(f)).map_err(|_| ())
}
fn clock() -> Value {
    let d = SystemTime::now().duration_since(UNIX_EPOCH).unwrap();
    json!([format!("{:016x}", d.as_secs()), d.subsec_nanos()])
}
fn set_env(k: &str, v: Option<Vec<u8>>) {
    match v {
        Some(b) => std::env::set_var(k, std::ffi::OsString::from_vec(b)),
        None => std::env::remove_var(k),
    }
}
const ENV: [&str; 4] = ["COMPUTERNAME", "COMPUTERDNSNAME", "USERDOMAIN", "USERDNSDOMAIN"];

fn flag_constants() -> Value {
    use http_ntlm::messages::flags::*;
    macro_rules! all {
        ($($n:ident)*) => { json!([$([stringify!($n), $n]),*]) };
    }
    all!(NTLMSSP_NEGOTIATE_56 NTLMSSP_NEGOTIATE_KEY_EXCH NTLMSSP_NEGOTIATE_128 R1 R2 R3
         NTLMSSP_NEGOTIATE_VERSION R4 NTLMSSP_NEGOTIATE_TARGET_INFO NTLMSSP_REQUEST_NON_NT_SESSION_KEY R5
         NTLMSSP_NEGOTIATE_IDENTIFY NTLMSSP_NEGOTIATE_EXTENDED_SESSIONSECURITY R6 NTLMSSP_TARGET_TYPE_SERVER
         NTLMSSP_TARGET_TYPE_DOMAIN NTLMSSP_NEGOTIATE_ALWAYS_SIGN R7
         NTLMSSP_NEGOTIATE_OEM_WORKSTATION_SUPPLIED NTLMSSP_NEGOTIATE_OEM_DOMAIN_SUPPLIED NTLMSSP_ANONYMOUS R8
         NTLMSSP_NEGOTIATE_NTLM R9 NTLMSSP_NEGOTIATE_LM_KEY NTLMSSP_NEGOTIATE_DATAGRAM NTLMSSP_NEGOTIATE_SEAL
         NTLMSSP_NEGOTIATE_SIGN R10 NTLMSSP_REQUEST_TARGET NTLM_NEGOTIATE_OEM NTLMSSP_NEGOTIATE_UNICODE)
}

// ---------------------------------------------------------------------------------------------
// Values of their own

macro_rules! buffers {
    ($kind:expr, $f:ident) => {
        match $kind {
            "ServerChallenge" => $f!(ServerChallenge),
            "ClientChallenge" => $f!(ClientChallenge),
            "SessionBaseKey" => $f!(SessionBaseKey),
            "KeyExchangeKey" => $f!(KeyExchangeKey),
            "ExportedSessionKey" => $f!(ExportedSessionKey),
            "EncryptedRandomSessionKey" => $f!(EncryptedRandomSessionKey),
            "NtProofStr" => $f!(NtProofStr),
            "Response16" => $f!(Response16),
            "Response24" => $f!(Response24),
            "Mic" => $f!(Mic),
            "RandomPad" => $f!(RandomPad),
            k => panic!("kind {}", k),
        }
    };
}
fn drawn(kind: &str) -> Vec<u8> {
    macro_rules! draw {
        ($t:ident) => {
            $t::random().to_vec()
        };
    }
    buffers!(kind, draw)
}
/// How often each byte occurs at each place, how often two places have the same byte, how often a
/// place has the byte that some place of the value before had, and how many values came before
fn tally(l: &[Vec<u8>]) -> Value {
    let size = l.first().map(|b| b.len()).unwrap_or(0);
    if l.iter().any(|b| b.len() != size) {
        return json!({"n": l.len(), "size": 0, "counts": [], "same": [], "next": [], "dups": 0});
    }
    let mut counts = vec![vec![0u32; 256]; size];
    let mut same = vec![vec![0u32; size]; size];
    let mut next = vec![vec![0u32; size]; size];
    for (k, b) in l.iter().enumerate() {
        for i in 0..size {
            counts[i][b[i] as usize] += 1;
            for j in 0..size {
                same[i][j] += (b[i] == b[j]) as u32;
                next[i][j] += (k > 0 && l[k - 1][i] == b[j]) as u32;
            }
        }
    }
    let distinct: std::collections::HashSet<&Vec<u8>> = l.iter().collect();
    json!({"n": l.len(), "size": size, "counts": counts, "same": same, "next": next, "dups": l.len() - distinct.len()})
}
/// Very many handshakes of one client: where nonces are in the messages, as they are
fn harvest(op: &Value) -> Value {
    let field = |b: &[u8], at: usize| {
        let n = u16::from_le_bytes([b[at], b[at + 1]]) as usize;
        let o = u32::from_le_bytes([b[at + 4], b[at + 5], b[at + 6], b[at + 7]]) as usize;
        b[o..o + n].to_vec()
    };
    let (mut lm, mut nt, mut keys) = (Vec::new(), Vec::new(), Vec::new());
    let (_, m) = verif::decode::<Challenge>(&unhex(&op["raw"])).expect("challenge");
    let mut c = client(op);
    for _ in 0..op["n"].as_u64().unwrap() {
        c.neg();
        c.chal(m.clone());
        let b = c.auth();
        lm.push(field(&b, 12).into_iter().take(8).collect());
        nt.push(field(&b, 20).into_iter().skip(32).take(8).collect());
        keys.push(c.esk().unwrap_or_default());
    }
    json!({"lm": tally(&lm), "nt": tally(&nt), "key": tally(&keys)})
}
/// Calls that fail, or that nobody looks at; whatever they do, nothing else may notice
fn outcast(what: u64) {
    fn odd<V: NtlmVersion>(user: &str, domain: &str) -> Client<V> {
        Client::new_with_domain(user.to_owned(), domain.to_owned(), "0utcast".to_owned(), "http".to_owned())
    }
    let long = "n".repeat(70_000);
    let given = || {
        let mut m = Challenge::default();
        m.negotiate_flags = Flags(0xe28a8215);
        m.server_challenge = [7, 6, 5, 4, 3, 2, 1, 0].into();
        m
    };
    match what {
        0 => drop(odd::<L6>("outcast", "NOWHERE").send_negociate()),
        1 => drop(odd::<Beyond>("", "").send_negociate()),
        2 => drop(odd::<L3>("outcast", &long).send_negociate()),
        3 => drop(odd::<L1>("outcast", "NOWHERE").send_authenticate()),
        4 => {
            let mut c = odd::<L4>(&long, "NOWHERE");
            c.send_negociate();
            c.recv_challenge(given());
            drop(c.send_authenticate())
        }
        5 => {
            let mut c = odd::<L2>(&long, &long);
            c.recv_challenge(given());
            drop(c.send_authenticate())
        }
        6 => {
            let mut m = given();
            m.target_infos_add_computername(long);
            let mut c = odd::<L5>("outcast", "NOWHERE");
            c.send_negociate();
            c.recv_challenge(m);
            drop(c.send_authenticate())
        }
        7 => {
            let mut m = Negotiate::default();
            m.set_workstation(Some(long));
            verif::encode(&m);
        }
        8 => {
            let mut a = Authenticate::default();
            a.user = Some(long.as_str().into());
            a.exported_session_key = Some([9; 16].into());
            a.compute_mic(&Negotiate::default(), &given());
        }
        9 => {
            let mut c = odd::<L5>("outcast", "NOWHERE");
            c.verif_set_version(Some((77, 77, 7777).into()));
            c.send_negociate();
            c.recv_challenge(given());
            c.send_authenticate();
            c.send_negociate();
            c.recv_challenge(given()); // and left there
        }
        10 => {
            for b in [&b"NTLMSSP\0\x02"[..], b"", b"NTLMSSP\0\x02\0\0\0\xff\xff\xff\xff\xff\xff\xff\xff", &[0xff; 100]] {
                let _ = (verif::decode::<Negotiate>(b).is_ok(), verif::decode::<Challenge>(b).is_ok(), verif::decode::<Authenticate>(b).is_ok());
            }
        }
        _ => {
            let mut c = odd::<L0>("", "");
            c.send_negociate();
            let mut m = given();
            m.negotiate_flags = Flags(0xffffffff);
            c.recv_challenge(m);
            c.send_authenticate();
        }
    }
}
fn converted(f: &str, a: &Value) -> Value {
    match f {
        "ver3" => {
            let n = |i: usize| a[i].as_u64().unwrap();
            ver(&Version::from((n(0) as u8, n(1) as u8, n(2) as u16)))
        }
        "ver8" => opt(Version::try_from(arr::<8>(a)).ok(), |v| ver(&v)),
        "lm1" => hex(&Lmv1Challenge::from_client_challenge(&arr::<8>(a).into()).response),
        "lm2" => {
            let c = Lmv2Challenge::from_server_challenge(&arr::<8>(&a[0]).into(), &unhex(&a[1]), &arr::<8>(&a[2]).into());
            hex(&[&c.response[..], &c.challenge_from_client[..]].concat())
        }
        "lmfrom" => lm(&if a["v"] == json!(1) { LmChallenge::from(unlm1(a)) } else { LmChallenge::from(unlm2(a)) }),
        "ntfrom" => nt(&match a["v"].as_u64().unwrap() {
            1 => NtChallenge::from(unnt1(a)),
            2 => NtChallenge::from(unnt2(a)),
            _ => NtChallenge::from(unnt3(a)),
        }),
        "key" => hex(&EncryptedRandomSessionKey::from(ExportedSessionKey::from(arr::<16>(a)))),
        "kek" => hex(&KeyExchangeKey::from(SessionBaseKey::from(arr::<16>(a)))),
        // contents, rendering, and contents written through the reference, encoded and decoded
        "bytes" => {
            let b = unhex(&a[1]);
            macro_rules! bytes {
                ($t:ident) => {{
                    let x = $t::from(<[u8; std::mem::size_of::<$t>()]>::try_from(&b[..]).unwrap());
                    let mut y = $t::default();
                    y.copy_from_slice(&x);
                    let raw = verif::encode(&y);
                    let z: $t = verif::decode(&raw).unwrap().1;
                    json!([hex(&x), format!("{:?}", x), hex(&z), format!("{:#?}", x)])
                }};
            }
            buffers!(a[0].as_str().unwrap(), bytes)
        }
        "text" => {
            let s = untext(a);
            let mut m = Authenticate::default();
            m.user = Some(s.clone().into());
            m.domain = Some(s.as_str().into());
            let (u, d) = (m.user.unwrap(), m.domain.unwrap());
            json!([text(&String::from(u.clone())), text(&String::from(d.clone())), text(&format!("{}", u)), text(&d)])
        }
        "avid" => json!(unav(a).get_id() as u16),
        k => panic!("conversion {}", k),
    }
}

/// What a thread is given although its type does not say that it may be.
struct Anywhere<T>(T);
unsafe impl<T> Send for Anywhere<T> {}
impl<T> Anywhere<T> {
    fn get(self) -> T {
        self.0
    }
}

#[derive(Default)]
struct World {
    clients: HashMap<u64, Box<dyn AnyClient>>,
    objs: HashMap<u64, Obj>,
    flags: HashMap<u64, Flags>,
}

/// What is seen of a decoding: "ok", "err" or "panic", the value and the bytes used.
fn decoded(kind: &str, raw: &[u8], ev: &mut Map<String, Value>) -> Option<Obj> {
    match guard(|| decode(kind, raw).map(|(o, n)| (dump(&o), o, n))) {
        Ok(Some((v, o, n))) => {
            ev.insert("res".into(), json!("ok"));
            ev.insert("got".into(), json!([v]));
            ev.insert("used".into(), json!(n));
            Some(o)
        }
        Ok(None) => {
            ev.insert("res".into(), json!("err"));
            ev.insert("got".into(), json!([]));
            ev.insert("used".into(), json!(0));
            None
        }
        Err(()) => {
            ev.insert("res".into(), json!("panic"));
            ev.insert("got".into(), json!([]));
            ev.insert("used".into(), json!(0));
            None
        }
    }
}

fn step(w: &mut World, op: &Value) -> Map<String, Value> {
    let mut ev = op.as_object().unwrap().clone();
    let c = op["c"].as_u64().unwrap_or(0);
    let o = op["o"].as_u64().unwrap_or(0);
    macro_rules! put {
        ($k:expr, $v:expr) => {{
            let v = $v;
            ev.insert($k.to_string(), v);
        }};
    }
    macro_rules! out {
        ($r:expr) => {
            match $r {
                Ok(b) => {
                    put!("panic", json!(0));
                    put!("out", json!([hex(&b)]));
                }
                Err(()) => {
                    put!("panic", json!(1));
                    put!("out", json!([]));
                }
            }
        };
    }
    match op["op"].as_str().unwrap() {
        "env" => set_env(op["k"].as_str().unwrap(), unopt(&op["v"], unhex)),
        "host" => set_host(unopt(&op["v"], unhex).ok_or(op["err"].as_i64().unwrap_or(libc::ENOENT as i64) as libc::c_int)),
        "clock" => stop_clock(unopt(&op["t"], |t| (u64::from_str_radix(t[0].as_str().unwrap(), 16).unwrap(), t[1].as_u64().unwrap() as u32))),
        "new" => match guard(|| client(op)) {
            Ok(cl) => {
                w.clients.insert(c, cl);
                put!("panic", json!(0));
            }
            Err(()) => {
                w.clients.remove(&c);
                put!("panic", json!(1));
            }
        },
        "ver" => {
            if let Some(cl) = w.clients.get_mut(&c) {
                cl.ver(unopt(&op["ver"], unver));
            }
        }
        "neg" => {
            let r = match w.clients.get_mut(&c) {
                Some(cl) => guard(|| cl.neg()),
                None => Err(()),
            };
            out!(r);
        }
        "chal" => {
            // a challenge as received ("raw") or as built ("val", or the object in slot "o")
            let obj = if let Some(raw) = op.get("raw") {
                decoded("chal", &unhex(raw), &mut ev)
            } else {
                let built = guard(|| match op.get("val") {
                    Some(v) => Some(Obj::Chal(unchal(v))),
                    None => match w.objs.get(&o) {
                        Some(Obj::Chal(m)) => Some(Obj::Chal(m.clone())),
                        _ => None,
                    },
                })
                .unwrap_or(None);
                let bytes = guard(|| built.as_ref().map(|b| (encode(b), dump(b))));
                match bytes {
                    Ok(Some((b, v))) => {
                        put!("raw", hex(&b));
                        put!("res", json!("ok"));
                        put!("got", json!([v]));
                    }
                    _ => {
                        put!("raw", json!(""));
                        put!("res", json!("panic"));
                        put!("got", json!([]));
                    }
                }
                built
            };
            put!("panic", json!(0));
            if let (Some(Obj::Chal(m)), Some(cl)) = (obj, w.clients.get_mut(&c)) {
                if guard(|| cl.chal(m)).is_err() {
                    put!("panic", json!(1));
                }
            }
        }
        "auth" => {
            put!("t0", clock());
            let r = match w.clients.get_mut(&c) {
                Some(cl) => guard(|| loaded(&op.get("dice").map(unhex).unwrap_or_default(), || cl.auth())),
                None => Err(()),
            };
            put!("t1", clock());
            let esk = w.clients.get(&c).and_then(|cl| cl.esk());
            put!("esk", opt(esk, |k| hex(&k)));
            match r {
                Ok(ref b) => {
                    decoded("auth", b, &mut ev);
                }
                Err(()) => {
                    decoded("auth", b"", &mut ev);
                }
            }
            out!(r);
        }
        "mk" => {
            let obj = match op["kind"].as_str().unwrap() {
                "neg" => Obj::Neg(Negotiate::default()),
                "chal" => Obj::Chal(Challenge::default()),
                _ => Obj::Auth(Authenticate::default()),
            };
            put!("got", json!([dump(&obj)]));
            w.objs.insert(o, obj);
        }
        "build" => {
            w.objs.remove(&o);
            put!("panic", json!(1));
            put!("got", json!([]));
            if let Ok((obj, v)) = guard(|| {
                let obj = from_val(op["kind"].as_str().unwrap(), &op["val"]);
                let v = dump(&obj);
                (obj, v)
            }) {
                put!("panic", json!(0));
                put!("got", json!([v]));
                w.objs.insert(o, obj);
            }
        }
        "enc" => {
            if let Some(obj) = w.objs.get(&o) {
                put!("got", json!([dump(obj)]));
                let r = guard(|| encode(obj));
                out!(r);
            } else {
                put!("got", json!([]));
                out!(Err::<Vec<u8>, ()>(()));
            }
        }
        "dec" => {
            let obj = decoded(op["kind"].as_str().unwrap(), &unhex(&op["raw"]), &mut ev);
            match obj {
                // "brief": only whether it decodes matters
                Some(_) if op.get("brief").is_some() => {
                    put!("got", json!([]));
                    w.objs.remove(&o);
                }
                Some(obj) => {
                    w.objs.insert(o, obj);
                }
                None => {
                    w.objs.remove(&o);
                }
            }
        }
        // value -> bytes -> value -> bytes
        "rt" => {
            let kind = op["kind"].as_str().unwrap();
            put!("again", json!([]));
            put!("was", json!([]));
            let r = guard(|| {
                let obj = from_val(kind, &op["val"]);
                let was = dump(&obj);
                (was, encode(&obj))
            });
            match r {
                Ok((was, b)) => {
                    put!("was", json!([was]));
                    let obj = decoded(kind, &b, &mut ev);
                    if let Some(obj) = obj {
                        if let Ok(b2) = guard(|| encode(&obj)) {
                            put!("again", json!([hex(&b2)]));
                        }
                    }
                    out!(Ok::<Vec<u8>, ()>(b));
                }
                Err(()) => {
                    put!("res", json!("err"));
                    put!("got", json!([]));
                    put!("used", json!(0));
                    out!(Err::<Vec<u8>, ()>(()));
                }
            }
        }
        "set" => {
            let r = guard(|| match (w.objs.get_mut(&o), op["f"].as_str().unwrap()) {
                (Some(Obj::Neg(m)), "dom") => {
                    m.set_domain_name(unopt(&op["v"], untext));
                }
                (Some(Obj::Neg(m)), "ws") => {
                    m.set_workstation(unopt(&op["v"], untext));
                }
                (Some(Obj::Neg(m)), "flags") => m.negotiate_flags = Flags(unbe(&op["v"][0])),
                (Some(Obj::Neg(m)), "ver") => m.version = unopt(&op["v"], unver),
                (Some(Obj::Chal(m)), "tn") => {
                    m.set_target_name(unopt(&op["v"], untext));
                }
                (Some(Obj::Chal(m)), "flags") => m.negotiate_flags = Flags(unbe(&op["v"][0])),
                (Some(Obj::Chal(m)), "ver") => m.version = unopt(&op["v"], unver),
                (Some(Obj::Chal(m)), "sc") => m.server_challenge = arr::<8>(&op["v"][0]).into(),
                (Some(Obj::Auth(m)), "key") => {
                    m.set_encrypted_random_session_key(unopt(&op["v"], |k| arr::<16>(k).into()));
                }
                (Some(Obj::Auth(m)), "flags") => m.negotiate_flags = Flags(unbe(&op["v"][0])),
                (Some(Obj::Auth(m)), "ver") => m.version = unopt(&op["v"], unver),
                (Some(Obj::Auth(m)), "user") => m.user = unopt(&op["v"], |t| untext(t).into()),
                (Some(Obj::Auth(m)), "dom") => m.domain = unopt(&op["v"], |t| untext(t).into()),
                (Some(Obj::Auth(m)), "ws") => m.workstation = unopt(&op["v"], |t| untext(t).into()),
                (Some(_), f) => panic!("field {}", f),
                (None, _) => {}
            });
            put!("panic", json!(r.is_err() as u8));
            put!("got", opt(w.objs.get(&o), dump));
        }
        "add" => {
            let r = guard(|| {
                if let Some(Obj::Chal(m)) = w.objs.get_mut(&o) {
                    add(m, unav(&op["item"]));
                }
            });
            put!("panic", json!(r.is_err() as u8));
            put!("got", opt(w.objs.get(&o), dump));
        }
        "fill" => {
            let r = guard(|| {
                if let Some(Obj::Chal(m)) = w.objs.get_mut(&o) {
                    m.fill_from_env();
                }
            });
            put!("panic", json!(r.is_err() as u8));
            put!("got", opt(w.objs.get(&o), dump));
        }
        "fnew" => {
            let f = op.get("word").map(|x| Flags(unbe(x))).unwrap_or_default();
            put!("now", be(f.0));
            w.flags.insert(o, f);
        }
        "fset" | "fclr" | "fhas" => {
            let bit = op["bit"].as_u64().unwrap() as u32;
            let f = w.flags.get_mut(&o).unwrap();
            let r = guard(|| match op["op"].as_str().unwrap() {
                "fset" => {
                    f.set_flag(bit);
                    false
                }
                "fclr" => {
                    f.clear_flag(bit);
                    false
                }
                _ => f.has_flag(bit),
            });
            put!("panic", json!(r.is_err() as u8));
            put!("has", json!(r.unwrap_or(false) as u8));
            put!("now", be(w.flags[&o].0));
        }
        // everything that shows a flag word: has_flag of all bits, encoding, decoding, rendering
        "fshow" => {
            let f = w.flags[&o];
            let r = guard(|| {
                let has: Vec<u32> = (0..32).filter(|b| f.has_flag(*b)).collect();
                (has, verif::encode(&f), format!("{:?}", f), format!("{:#?}", f))
            });
            match r {
                Ok((has, b, s, alt)) => {
                    put!("has", json!(has));
                    put!("dbg", hex(s.as_bytes()));
                    put!("alt", hex(alt.as_bytes()));
                    decoded("flags", &b, &mut ev);
                    out!(Ok::<Vec<u8>, ()>(b));
                }
                Err(()) => {
                    put!("has", json!([]));
                    put!("dbg", json!(""));
                    decoded("flags", b"", &mut ev);
                    out!(Err::<Vec<u8>, ()>(()));
                }
            }
            put!("now", be(f.0));
        }
        "fconst" => put!("consts", flag_constants()),
        // seconds and nanoseconds before or after 1970
        "ft_from" => {
            let secs = u64::from_str_radix(op["secs"].as_str().unwrap(), 16).unwrap();
            let d = Duration::new(secs, op["nanos"].as_u64().unwrap() as u32);
            let t = if op["neg"] == json!(1) { UNIX_EPOCH.checked_sub(d) } else { UNIX_EPOCH.checked_add(d) };
            put!("got", json!([]));
            match t {
                None => put!("res", json!("untimely")),
                Some(t) => match guard(|| FileTime::try_from(t)) {
                    Ok(Ok(f)) => {
                        put!("res", json!("ok"));
                        put!("got", json!([ft(&f)]));
                    }
                    Ok(Err(_)) => put!("res", json!("err")),
                    Err(()) => put!("res", json!("panic")),
                },
            }
        }
        "ft_to" => {
            let f = unft(&op["ft"]);
            let r = guard(|| (f.to_system_time(), f.as_u64()));
            put!("neg", json!(0));
            put!("secs", json!("0000000000000000"));
            put!("nanos", json!(0));
            put!("u64", json!("0000000000000000"));
            put!("back", json!([]));
            match r {
                Err(()) => put!("res", json!("panic")),
                Ok((t, n)) => {
                    put!("u64", json!(format!("{:016x}", n)));
                    match t {
                        None => put!("res", json!("none")),
                        Some(t) => {
                            put!("res", json!("ok"));
                            let (neg, d) = match t.duration_since(UNIX_EPOCH) {
                                Ok(d) => (0, d),
                                Err(e) => (1, e.duration()),
                            };
                            put!("neg", json!(neg));
                            put!("secs", json!(format!("{:016x}", d.as_secs())));
                            put!("nanos", json!(d.subsec_nanos()));
                            put!("back", opt(guard(|| FileTime::try_from(t).ok()).unwrap_or(None), |f| ft(&f)));
                        }
                    }
                }
            }
        }
        "ft_now" => {
            put!("t0", clock());
            let r = guard(FileTime::now);
            put!("t1", clock());
            put!("got", opt(r.ok(), |f| ft(&f)));
        }
        // the MIC of the AUTHENTICATE in slot o, for the other two messages in slots n and h
        "mic" => {
            let n = op["n"].as_u64().unwrap();
            let h = op["h"].as_u64().unwrap();
            let key = unopt(&op["key"], |k| ExportedSessionKey::from(arr::<16>(k)));
            let others = match (w.objs.get(&n), w.objs.get(&h)) {
                (Some(Obj::Neg(a)), Some(Obj::Chal(b))) => Some((a.clone(), b.clone())),
                _ => None,
            };
            put!("panic", json!(0));
            put!("after", json!([]));
            if let (Some(Obj::Auth(m)), Some((a, b))) = (w.objs.get_mut(&o), others) {
                m.exported_session_key = key;
                let r = guard(|| m.compute_mic(&a, &b));
                put!("panic", json!(r.is_err() as u8));
                put!("after", opt(m.exported_session_key.as_ref(), |k| hex(k)));
            }
            put!("got", opt(w.objs.get(&o), dump));
        }
        "rand" => {
            let n = op["n"].as_u64().unwrap();
            let kind = op["kind"].as_str().unwrap();
            let r = guard(|| (0..n).map(|_| hex(&drawn(kind))).collect::<Vec<_>>());
            put!("panic", json!(r.is_err() as u8));
            put!("outs", json!(r.unwrap_or_default()));
        }
        "tally" => {
            let (n, kind) = (op["n"].as_u64().unwrap(), op["kind"].as_str().unwrap());
            let r = guard(|| tally(&(0..n).map(|_| drawn(kind)).collect::<Vec<_>>()));
            put!("panic", json!(r.is_err() as u8));
            put!("tally", opt(r.ok(), |t| t.clone()));
        }
        "harvest" => {
            let r = guard(|| harvest(op));
            put!("panic", json!(r.is_err() as u8));
            put!("found", opt(r.ok(), |t| t.clone()));
        }
        "outcast" => {
            let _ = guard(|| outcast(op["what"].as_u64().unwrap()));
        }
        "conv" => {
            let r = guard(|| converted(op["f"].as_str().unwrap(), &op["a"]));
            put!("panic", json!(r.is_err() as u8));
            put!("got", r.unwrap_or(Value::Null));
        }
        x => panic!("op {}", x),
    }
    ev
}

type Task = Box<dyn FnOnce() + Send>;

/// Threads that live as long as a scenario does
#[derive(Default)]
struct Workers(HashMap<u64, (std::sync::mpsc::Sender<Task>, std::thread::JoinHandle<()>)>);

impl Workers {
    fn run(&mut self, n: u64, task: Task) {
        let (tx, _) = self.0.entry(n).or_insert_with(|| {
            let (tx, rx) = std::sync::mpsc::channel::<Task>();
            (tx, std::thread::spawn(move || rx.into_iter().for_each(|task| task())))
        });
        tx.send(task).expect("worker");
    }
}

impl Drop for Workers {
    fn drop(&mut self) {
        for (_, (tx, thread)) in self.0.drain() {
            drop(tx);
            let _ = thread.join();
        }
    }
}

/// One step on thread `n`: 1 is one that lives for this step only, the others live on
fn elsewhere(w: &mut World, op: &Value, workers: &mut Workers, n: u64) -> Map<String, Value> {
    let w = Anywhere(w);
    if n == 1 {
        return std::thread::scope(|s| s.spawn(move || step(w.get(), op)).join().expect("thread"));
    }
    let (tx, rx) = std::sync::mpsc::channel();
    let task: Box<dyn FnOnce() + Send + '_> = Box::new(move || tx.send(step(w.get(), op)).expect("answer"));
    // what it borrows outlives it: nothing goes on here before it has answered
    workers.run(n, unsafe { std::mem::transmute::<Box<dyn FnOnce() + Send + '_>, Task>(task) });
    rx.recv().expect("thread")
}

/// What strangers do all the while: calls of all kinds, none of them looked at
fn rummage(kind: usize, quiet: &AtomicBool) {
    fn shake<V: NtlmVersion + 'static>(i: u64, whole: bool) -> Vec<u8> {
        let mut c = Client::<V>::new_with_domain(format!("Stranger-{}", i % 7), format!("ELSE{}", i % 5), format!("Wr0ng-{}", i), "CIFS/noise".to_owned());
        if !whole {
            return Vec::new();
        }
        c.verif_set_version((i % 3 == 0).then(|| (9u8, 8u8, 777u16).into()));
        c.send_negociate();
        if i % 11 == 10 {
            return c.send_authenticate().to_vec(); // nothing to answer: a panic
        }
        let mut h = Challenge::default();
        h.negotiate_flags = Flags([0xe28a8215u32, 0x00000281, 0x42088211, 0xffffffff][i as usize % 4]);
        h.server_challenge = (i.wrapping_mul(0x9e3779b97f4a7c15) | 1).to_le_bytes().into();
        h.target_infos_add_computername(format!("NOISE{}", i % 9));
        c.recv_challenge(h.clone());
        c.recv_challenge(h);
        c.send_authenticate().to_vec()
    }
    let mut i = kind as u64;
    while !quiet.load(Ordering::Relaxed) {
        i += 1;
        let _ = guard(|| match kind % 4 {
            0 => shake::<L3>(i, false),
            1 => [shake::<L0>, shake::<L1>, shake::<L2>][i as usize % 3](i, true),
            2 => [shake::<L3>, shake::<L4>, shake::<L5>][i as usize % 3](i, true),
            _ => {
                let mut n = Negotiate::default();
                n.set_domain_name(Some(format!("NOISE{}", i)));
                let mut h = Challenge::default();
                h.fill_from_env();
                h.target_infos_add_flags(MsvAvFlags::default());
                h.target_infos_add_timestamp(FileTime::now());
                h.set_target_name(Some(format!("noise{}", i)));
                let mut a = Authenticate::default();
                a.user = Some(format!("noise{}", i).as_str().into());
                a.exported_session_key = Some(ExportedSessionKey::random());
                a.compute_mic(&n, &h);
                let b = [verif::encode(&n), verif::encode(&h), verif::encode(&a)];
                let _ = (verif::decode::<Negotiate>(&b[0]), verif::decode::<Challenge>(&b[1]), verif::decode::<Authenticate>(&b[2]));
                format!("{:?}{:?}", a.mic, h.negotiate_flags).into_bytes()
            }
        });
    }
}

/// Every word on a thread of its own, all at the same time, `rep` times, while `noise` strangers
/// rummage; their events one thread after the other
fn at_once(words: &[Value], rep: u64, noise: usize) -> Vec<Value> {
    let start = Barrier::new(words.len());
    let quiet = AtomicBool::new(false);
    std::thread::scope(|s| {
        for kind in 0..noise {
            let quiet = &quiet;
            s.spawn(move || rummage(kind, quiet));
        }
        let threads: Vec<_> = words
            .iter()
            .map(|word| {
                let start = &start;
                s.spawn(move || {
                    let mut w = World::default();
                    let mut evs = Vec::new();
                    let ops = word.as_array().unwrap();
                    for _ in 0..rep {
                        start.wait();
                        for op in ops {
                            evs.push(Value::Object(step(&mut w, op)));
                        }
                    }
                    evs
                })
            })
            .collect();
        let evs = threads.into_iter().flat_map(|t| t.join().expect("thread")).collect();
        quiet.store(true, Ordering::SeqCst);
        evs
    })
}

fn main() {
    let args: Vec<String> = std::env::args().collect();
    let (input, output, progress) = (&args[1], &args[2], &args[3]);
    let mut out = std::io::BufWriter::new(std::fs::OpenOptions::new().append(true).create(true).open(output).unwrap());
    let lines: Vec<String> = std::io::BufReader::new(std::fs::File::open(input).unwrap()).lines().map(|l| l.unwrap()).collect();
    let mut prog = std::fs::File::create(progress).unwrap();
    let _ = log::set_logger(&LOGGER);
    log::set_max_level(log::LevelFilter::Trace);
    // are /etc/hostname and the clock really ours?
    set_host(Ok(b"interposed".to_vec()));
    stop_clock(Some((12345, 678)));
    if std::fs::read_to_string("/etc/hostname").ok().as_deref() != Some("interposed") || SystemTime::now() != UNIX_EPOCH + Duration::new(12345, 678) {
        eprintln!("cannot stand in for /etc/hostname and the clock");
        std::process::exit(3);
    }
    RUMOUR.store(1, Ordering::SeqCst);
    if std::env::var("NOBODY_SETS_THIS").ok().as_deref() != Some("rumour.example") {
        eprintln!("cannot stand in for the environment");
        std::process::exit(3);
    }
    stop_clock(None);
    STILL.store(args.get(4).map(|a| a == "still").unwrap_or(false), Ordering::SeqCst);
    // nobody should look at these
    for (k, v) in [("HOSTNAME", "noise-host"), ("HOST", "noise-host"), ("NAME", "noise"), ("USER", "noise-user"), ("USERNAME", "noise-user"),
                   ("LOGNAME", "noise-user"), ("PASSWORD", "noise-pass"), ("LANG", "tr_TR.UTF-8"), ("LC_ALL", "tr_TR.UTF-8"), ("TZ", "Asia/Kathmandu")] {
        std::env::set_var(k, v);
    }
    let mut io = Io::new();
    for (n, line) in lines.iter().enumerate() {
        use std::io::{Seek, SeekFrom};
        prog.seek(SeekFrom::Start(0)).unwrap();
        write!(prog, "{:10}", n).unwrap();
        let sc: Value = serde_json::from_str(line).expect("scenario");
        for k in ENV {
            set_env(k, None);
        }
        set_host(Err(libc::ENOENT));
        stop_clock(None);
        // the same for the same scenario
        RUMOUR.store(line.bytes().map(usize::from).sum(), Ordering::SeqCst);
        io.on = sc.get("io").map(|v| *v == json!(1)).unwrap_or(false);
        io.take();
        let mut w = World::default();
        let mut workers = Workers::default();
        let mut evs = Vec::new();
        for op in sc["ops"].as_array().unwrap() {
            if op["op"] == "loop" {
                // what the first, the last and some of the rounds in between show is recorded
                let inner = op["ops"].as_array().unwrap();
                for n in 1..=op["n"].as_u64().unwrap() {
                    let shown: Vec<_> = inner.iter().map(|op| Value::Object(step(&mut w, op))).collect();
                    let few = n <= 10 || n % 100 == 99 && n < 1000 || n & (n - 1) == 0 || (n - 1) & (n - 2) == 0;
                    if few || n == op["n"].as_u64().unwrap() {
                        evs.extend(shown);
                    }
                }
                io.take();
                continue;
            }
            let mut ev = match op.get("th") {
                Some(n) => elsewhere(&mut w, op, &mut workers, n.as_u64().unwrap()),
                None => step(&mut w, op),
            };
            let shown = io.take();
            if io.on {
                ev.insert("io".into(), hex(&shown));
            }
            evs.push(Value::Object(ev));
        }
        if let Some(words) = sc.get("par") {
            evs.extend(at_once(words.as_array().unwrap(), sc["rep"].as_u64().unwrap_or(1), sc["noise"].as_u64().unwrap_or(0) as usize));
        }
        let rec = json!({"id": sc["id"], "ev": evs});
        serde_json::to_writer(&mut out, &rec).unwrap();
        out.write_all(b"\n").unwrap();
        out.flush().unwrap();
    }
}
