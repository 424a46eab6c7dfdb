//! C30: TIME() against the configured local time.
use super::BOTH;
use crate::clock;
use crate::engine::*;
use crate::sym;

const DAY: i64 = 86_400;

#[repr(C)]
struct Tm {
    sec: i32,
    min: i32,
    hour: i32,
    mday: i32,
    mon: i32,
    year: i32,
    wday: i32,
    yday: i32,
    isdst: i32,
    gmtoff: i64,
    zone: *const u8,
}
extern "C" {
    fn tzset();
    fn localtime_r(t: *const i64, tm: *mut Tm) -> *mut Tm;
}
/// seconds since local midnight, by the C library
fn local_seconds(t: i64) -> i64 {
    unsafe {
        let mut tm = std::mem::zeroed::<Tm>();
        tzset();
        assert!(!localtime_r(&t, &mut tm).is_null());
        tm.hour as i64 * 3600 + tm.min as i64 * 60 + tm.sec as i64
    }
}

/// zone files a machine usually has; only those present are used
const ZONES: &[&str] = &[
    "Europe/Berlin", "America/New_York", "Asia/Kolkata", "Asia/Kathmandu", "Australia/Lord_Howe", "Pacific/Apia", "Pacific/Kiritimati",
    "America/St_Johns", "Africa/Casablanca", "Pacific/Chatham", "America/Sao_Paulo", "Asia/Tehran", "Etc/GMT+12", "Etc/GMT-14", "UTC",
];
fn zones() -> &'static [&'static str] {
    static mut Z: Option<Vec<&'static str>> = None;
    #[allow(static_mut_refs)]
    unsafe {
        if Z.is_none() {
            Z = Some(ZONES.iter().copied().filter(|z| std::path::Path::new(&format!("/usr/share/zoneinfo/{z}")).exists()).collect());
        }
        Z.as_ref().unwrap()
    }
}
const DST: &[&str] = &[
    "CET-1CEST,M3.5.0,M10.5.0/3", "EST5EDT,M3.2.0,M11.1.0", "NZST-12NZDT,M9.5.0,M4.1.0/3", "<+1030>-10:30<+11>-11,M10.1.0,M4.1.0",
    "NST3:30NDT,M3.2.0,M11.1.0", "<-03>3<-02>,M3.5.0/0,M10.5.0/1",
];

/// (TZ value, is there daylight saving time)
fn zone(src: &mut Src) -> (String, bool) {
    match src.weighted(&[4, 3, if zones().is_empty() { 0 } else { 3 }, 3]) {
        0 => {
            let east = src.bool();
            // up to 24 h off UTC, the widest POSIX allows
            let (h, m) = (src.below(24), if src.chance(1, 2) { src.below(60) } else { 0 });
            // POSIX counts west of Greenwich
            let s = if src.chance(1, 3) { format!(":{:02}", src.below(60)) } else { String::new() };
            (format!("<LLL>{}{h}:{m:02}{s}", if east { "-" } else { "" }), false)
        }
        1 => (src.pick(DST).to_string(), true),
        2 => {
            let z: &str = *src.pick(zones());
            (z.to_string(), true)
        }
        _ => (String::new(), true),
    }
}

/// a zone of our own, as a file in memory in the format of the tz database (RFC 8536); gone when dropped
struct ZoneFile {
    path: String,
    _file: std::fs::File,
}
extern "C" {
    fn memfd_create(name: *const u8, flags: u32) -> i32;
}
/// up to 8 kinds of local time, up to 40 changes between them; the instants of the changes are returned
fn zone_file(src: &mut Src) -> (ZoneFile, Vec<i64>) {
    let kinds = 1 + src.len(7);
    let mut types: Vec<(i32, bool)> = (0..kinds)
        .map(|_| {
            // whole hours, quarters, or down to the second; up to 24 h off UTC
            let o = match src.below(3) {
                0 => src.range(-14, 14) as i32 * 3600,
                1 => src.range(-56, 56) as i32 * 900,
                _ => src.range(-86_399, 86_399) as i32,
            };
            (o, src.chance(1, 3))
        })
        .collect();
    // before the first change the first kind holds, after the last one the footer, which says standard time
    types[0].1 = false;
    let mut at = src.range(0, 2_000_000_000) as i64;
    let mut changes = vec![];
    for _ in 0..src.len(40) {
        changes.push((at, src.below(kinds as u64) as u8));
        at += match src.below(3) {
            0 => 1 + src.below(90_000) as i64,
            1 => 15_000_000 + src.below(1_000_000) as i64,
            _ => 1 + src.below(60_000_000) as i64,
        };
    }
    changes.push((at, 0));
    let mut b = vec![];
    for (v, n) in [(0, 0), (8, changes.len())] {
        let k = if v == 0 { 1 } else { kinds };
        b.extend(b"TZif2");
        b.extend([0; 15]);
        for c in [0, 0, 0, n, k, 4] {
            b.extend((c as u32).to_be_bytes());
        }
        if v == 8 {
            changes.iter().for_each(|c| b.extend(c.0.to_be_bytes()));
            changes.iter().for_each(|c| b.push(c.1));
        }
        for t in &types[..k] {
            b.extend(t.0.to_be_bytes());
            b.extend([t.1 as u8, 0]);
        }
        b.extend(b"LLL\0");
    }
    let o = -types[0].0;
    b.extend(format!("\nLLL{}{}:{:02}:{:02}\n", if o < 0 { "-" } else { "" }, o.abs() / 3600, o.abs() / 60 % 60, o.abs() % 60).bytes());
    use std::io::Write;
    use std::os::fd::FromRawFd;
    let fd = unsafe { memfd_create(b"zone\0".as_ptr(), 1) };
    assert!(fd >= 0, "no file in memory");
    let mut file = unsafe { std::fs::File::from_raw_fd(fd) };
    file.write_all(&b).unwrap();
    // neither library looks again at a file whose name is still that of the last one
    static N: std::sync::atomic::AtomicU64 = std::sync::atomic::AtomicU64::new(0);
    let n = N.fetch_add(1, std::sync::atomic::Ordering::Relaxed);
    let path = format!("/proc/self/fd/{}{fd}", "./".repeat(n as usize % 8));
    src.note(|| format!("changes of the offset: {:?}", changes.iter().map(|c| (c.0, types[c.1 as usize].0)).collect::<Vec<_>>()));
    (ZoneFile { path, _file: file }, changes.into_iter().map(|c| c.0).collect())
}

/// puts the process into one of a few time zones, none at all among them
pub(super) fn enter_zone(src: &mut Src) {
    match src.weighted(&[4, 1, 1, if zones().is_empty() { 0 } else { 3 }]) {
        0 => std::env::remove_var("TZ"),
        1 => std::env::set_var("TZ", "UTC0"),
        2 => std::env::set_var("TZ", *src.pick(DST)),
        _ => std::env::set_var("TZ", *src.pick(zones())),
    }
    src.note(|| std::env::var("TZ").map(|z| format!("TZ={z}")).unwrap_or_default());
}

fn c30(src: &mut Src) -> Res {
    let time = sym!("TIME", fn() -> i64);
    if cfg!(debug_assertions) {
        return mocked(src, time);
    }
    let (mut tz, dst) = zone(src);
    let file = tz.is_empty().then(|| zone_file(src));
    if let Some((f, _)) = &file {
        tz = format!(":{}", f.path);
        src.label("zone file of our own");
    }
    // 1970..2100
    let last = 4_102_444_799i128;
    let mut t = match src.weighted(&[3, 2]) {
        0 => src.range(2 * DAY as i128, last) as i64,
        _ => 1_600_000_000 + src.sint(29),
    };
    if let Some((_, changes)) = &file {
        if src.chance(3, 4) {
            t = (*src.pick(changes) + src.below(5) as i64 - 2).max(2 * DAY);
            src.label("within 2 s of a change of the zone's offset");
        }
    }
    std::env::set_var("TZ", &tz);
    match src.weighted(&[2, 4, 2]) {
        0 => {}
        1 => {
            // close to local midnight
            t -= local_seconds(t);
            t += src.below(5) as i64 - 2;
            src.label("within 2 s of local midnight");
        }
        _ => {
            // close to a full minute or hour
            let unit = *src.pick(&[60, 3600]);
            t -= t % unit;
            t += src.below(3) as i64 - 1;
        }
    }
    let nsec = match src.weighted(&[2, 1, 1, 3]) {
        0 => 0,
        1 => 999_999_999,
        2 => *src.pick(&[1i128, 999_999, 1_000_000, 999_999_998, 500_000_000]),
        _ => src.range(0, 999_999_999),
    };
    let want = local_seconds(t) * 1_000_000_000 + nsec as i64;
    let c = clock::Controlled::new();
    // chrono looks at TZ again when its clock has moved by more than a second
    clock::set_wall((t as i128 - 100_000) * 1_000_000_000);
    let _ = call(|| unsafe { time() });
    let n = 1 + src.below(3) as i64;
    for k in 0..n {
        let ns = t as i128 * 1_000_000_000 + nsec;
        clock::set_wall(ns);
        let got = call(|| unsafe { time() });
        let ctx = format!("TIME() at {t}.{nsec:09} s after 1970 UTC in time zone {} (call {k})", if file.is_some() { "file" } else { &tz });
        match got {
            Ok(g) if g == want => {}
            Ok(g) => return fail("wrong", format!("{ctx} = {g}, expected {want}")),
            Err(p) => return fail("panic", format!("{ctx} rejected: {p}")),
        }
    }
    drop(c);
    src.label_if(dst, "zone with daylight saving time");
    src.nt(want / 1_000_000_000 != t.rem_euclid(DAY));
    src.note(|| format!("TZ={tz} t={t}.{nsec:09} -> {want}"));
    Ok(())
}

#[cfg(debug_assertions)]
fn mocked(src: &mut Src, time: unsafe extern "C-unwind" fn() -> i64) -> Res {
    let s = match src.weighted(&[3, 2, 2]) {
        0 => src.below(DAY as u64),
        1 => src.uint(32),
        _ => (src.below(40_000) * DAY as u64 + src.below(5)).saturating_sub(2),
    };
    iec61131std::extra_functions::test_time_helpers::MockClock::set_time(s as u32);
    // the crate's mock clock always shows 100 ns past the second
    let want = (s as i64 % DAY) * 1_000_000_000 + 100;
    match call(|| unsafe { time() }) {
        Ok(g) if g == want => {}
        Ok(g) => return fail("wrong", format!("TIME() at mock time {s} s = {g}, expected {want}")),
        Err(p) => return fail("panic", format!("TIME() at mock time {s} s rejected: {p}")),
    }
    src.label_if(s % DAY as u64 <= 2, "just after midnight");
    src.nt(s >= 1);
    src.note(|| format!("mock clock {s} s -> {want}"));
    Ok(())
}
#[cfg(not(debug_assertions))]
fn mocked(_: &mut Src, _: unsafe extern "C-unwind" fn() -> i64) -> Res {
    unreachable!()
}

pub fn props() -> Vec<Prop> {
    vec![Prop {
        id: "C30", run: c30, quick: 400_000, thorough: 8_000_000, sweep: None, configs: BOTH,
        assumptions: &[
            "release configuration: the wall clock is the clock_gettime the standard library calls, the time zone comes from TZ; instants 1970 to 2100",
            "checked configuration: the crate's own mock clock, whose sub-second part is constant",
            "the C library's localtime_r is right",
        ],
        rule: "instants biased to local midnight, full minutes and hours, zones: generated fixed offsets, POSIX rules with daylight saving, zone files if present; non-trivial: local time of day differs from UTC (release), any time but 0 (mock)",
    }]
}
