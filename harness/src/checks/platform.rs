//! C28: the build profile, the word size and the byte order never change what is written.

use crate::checks::prog::{self, *};
use crate::mon::{hash, Ctx, Obs, R};
use crate::rng::Rng;
use crate::val::*;
use pdf_writer::*;
use std::sync::OnceLock;

/// Where the same programs are run again.
#[derive(Clone, Copy, PartialEq, Debug)]
enum Place { Release, Plain, Size, Narrow, BigEndian }
use Place::*;
impl Place {
    fn name(self) -> &'static str { match self { Release => "release", Plain => "plain", Size => "size", Narrow => "i686-unknown-linux-gnu", BigEndian => "s390x-unknown-linux-gnu" } }
}

/// Does not depend on the platform, other than `hash`, which sees the width of lengths.
fn fnv(b: &[u8]) -> u64 { b.iter().fold(0xcbf2_9ce4_8422_2325, |h, &x| (h ^ x as u64).wrapping_mul(0x0000_0100_0000_01b3)) }
fn mix(master: u64, case: u64) -> u64 { Rng::new(master ^ case.wrapping_mul(0xD1B5_4A32_D192_ED03)).next() }

/// Documents whose offsets and numbers need wide cross-reference fields.
fn wide(r: &mut Rng, l: &mut Lay) -> R<Out> {
    let mut pdf = l.pdf();
    let n = *r.pick(&[200, 255, 300, 65_000, 65_535, 66_000, 70_000]);
    pdf.stream(Ref::new(1), &vec![b'.'; n]);
    let step = r.range(1, 400) as i32;
    for k in 0..r.range(0, 4) as i32 { pdf.indirect(Ref::new(2 + k * step)).primitive(r.int()); }
    pdf.catalog(Ref::new(2 + 5 * step)).pages(Ref::new(1));
    let id = Ref::new(3 + 5 * step);
    let bytes = match r.below(3) {
        0 => pdf.finish(),
        1 => pdf.finish_with_xref_stream(id),
        _ => pdf.finish_with_xref_stream_and_filter(id, |b| (b.iter().rev().copied().collect(), XRefFilter::Multiple(vec![Filter::LzwDecode, Filter::AsciiHexDecode]))),
    };
    Ok(Out { kind: Kind::File, bytes, calls: 4, sized: true })
}

/// Single values of every kind.
fn values(r: &mut Rng, l: &mut Lay) -> R<Out> {
    let mut c = l.chunk();
    {
        let mut a = c.indirect(Ref::new(1)).array();
        for _ in 0..6 { Prim::random(r).put(IntoObj(a.push())); }
    }
    let lim = c.limits();
    let mut bytes = c.as_bytes().to_vec();
    bytes.extend(format!("{} {:?} {} {} {} {}", lim.int(), lim.real(), lim.name_len(), lim.str_len(), lim.array_len(), lim.dict_entries()).bytes());
    Ok(Out { kind: Kind::Text, bytes, calls: 6, sized: true })
}

const KINDS: usize = PROGRAMS.len() + 3;
fn kind(k: usize) -> &'static str { if k < PROGRAMS.len() { PROGRAMS[k].0 } else { ["wide document", "values", "refusals"][k - PROGRAMS.len()] } }
fn bytes(k: usize, seed: u64, pretty: bool) -> Result<Vec<u8>, String> {
    let mut r = Rng::new(seed);
    let mut lay = Lay::plain(pretty);
    let res = crate::mon::guarded(|| if k < PROGRAMS.len() { prog::run(k, seed, &mut lay) } else {
        match k - PROGRAMS.len() { 0 => wide(&mut r, &mut lay), 1 => values(&mut r, &mut lay), _ => Ok(Out { kind: Kind::Text, bytes: crate::checks::guards::refusals(&mut r, pretty), calls: 12, sized: true }) }
    });
    match res {
        Ok(Ok(o)) => Ok(o.bytes),
        Ok(Err(e)) => Err(format!("error {}", e.lines().next().unwrap_or(""))),
        Err(e) => Err(format!("panic {}", e.lines().next().unwrap_or("").split(" @ ").next().unwrap_or(""))),
    }
}
fn run(k: usize, seed: u64, pretty: bool) -> String {
    match bytes(k, seed, pretty) { Ok(b) => format!("{:016x} {}", fnv(&b), b.len()), Err(e) => e }
}

/// `platform MASTER FROM TO` or `platform KIND:SEED ...`: one line per program and layout.
pub fn command(args: &[String]) -> i32 {
    crate::mon::install_hook();
    let n = |s: &str| s.parse::<u64>().expect("HARNESS: number");
    let list: Vec<(usize, u64)> = if args.iter().any(|a| a.contains(':')) {
        args.iter().map(|a| { let (k, s) = a.split_once(':').expect("HARNESS: program"); (n(k) as usize, n(s)) }).collect()
    } else { (n(&args[1])..n(&args[2])).map(|c| ((c % KINDS as u64) as usize, mix(n(&args[0]), c))).collect() };
    for (k, s) in list {
        for pretty in [true, false] { println!("{}", run(k, s, pretty)); }
    }
    0
}

static BUILT: [OnceLock<Result<(), String>>; 5] = [const { OnceLock::new() }; 5];

fn tool(args: &[String]) -> R<std::process::Output> {
    let root = std::env::var("VERIF_ROOT").unwrap_or_else(|_| ".".into());
    std::process::Command::new(format!("{root}/tools/place.sh")).args(args).env_remove("HARNESS_SLOTS").output().map_err(|e| format!("HARNESS: place.sh: {e}"))
}
fn ready(p: Place) -> R<()> {
    BUILT[p as usize].get_or_init(|| {
        let out = tool(&[p.name().into(), "build".into()])?;
        if out.status.success() { Ok(()) } else { Err(format!("HARNESS: {} could not be built: {}", p.name(), String::from_utf8_lossy(&out.stderr).lines().last().unwrap_or(""))) }
    }).clone()
}

fn compare(p: Place, per: usize, r: &mut Rng, o: &mut Obs) -> R<()> {
    ready(p)?;
    let interpreted = matches!(p, Narrow | BigEndian);
    let (mut list, mut args) = (vec![], vec![p.name().to_string()]);
    let mut k = r.below(KINDS);
    let (master, from) = (r.next() >> 1, r.next() >> 40);
    if !interpreted { args.extend([master.to_string(), from.to_string(), (from + per as u64).to_string()]); }
    let mut n = 0;
    while list.len() < per {
        let s = if interpreted { k = (k + 1) % KINDS; r.next() } else { let c = from + n; k = (c % KINDS as u64) as usize; mix(master, c) };
        n += 1;
        let here = [run(k, s, true), run(k, s, false)];
        // The interpreter is slow: short programs (a long stream is no work).
        let long = |h: &String| h.rsplit(' ').next().and_then(|n| n.parse::<usize>().ok()).is_some_and(|n| n > 3_000);
        if interpreted && k != PROGRAMS.len() && (long(&here[0]) || long(&here[1])) { continue; }
        if interpreted { args.push(format!("{k}:{s}")); }
        list.push((k, s, here));
    }
    let out = tool(&args)?;
    let text = String::from_utf8_lossy(&out.stdout).to_string();
    let there: Vec<&str> = text.lines().collect();
    for (i, (k, s, here)) in list.iter().enumerate() {
        for (j, h) in here.iter().enumerate() {
            let what = || format!("{} (pretty={}, seed {s})", kind(*k), j == 0);
            let Some(t) = there.get(2 * i + j) else {
                if out.status.code() == Some(124) { o.count("programs left out: too slow", 1); continue; }
                return Err(format!("{}: the process ended ({}) in {}: {}", p.name(), out.status, what(), String::from_utf8_lossy(&out.stderr).lines().filter(|l| l.contains("rror")).collect::<Vec<_>>().join(" ")));
            };
            if h != t { return Err(format!("{}: {} gives {t:?} there and {h:?} here", p.name(), what())); }
            if h.starts_with("panic") || h.starts_with("error") { o.count("programs without output", 1); continue; }
            o.count(&format!("outputs identical under {}", p.name()), 1);
            o.count("bytes compared", h.rsplit(' ').next().and_then(|n| n.parse().ok()).unwrap_or(0));
            o.eval(hash(&(h, p.name())), true);
            if *k == KINDS - 1 { o.count("refusals compared", 1); }
        }
        o.sample(|| format!("{}: {} {}", p.name(), kind(*k), here[0]));
    }
    Ok(())
}

pub fn c28(ctx: &Ctx) {
    ctx.rule("the same program was run in two builds or on two platforms and its output compared; distinct = distinct output and place");
    ctx.cases("release build", 16, 200, |_, r, o| compare(Release, 3_000, r, o));
    if ctx.thorough {
        ctx.cases("unoptimized build", 16, 60, |_, r, o| compare(Plain, 1_500, r, o));
        ctx.cases("size-optimized build", 16, 60, |_, r, o| compare(Size, 3_000, r, o));
    }
    ctx.cases("32-bit words", 16, 100, |_, r, o| compare(Narrow, 6, r, o));
    ctx.cases("big-endian", 16, 100, |_, r, o| compare(BigEndian, 6, r, o));
    ctx.require("refusals compared", 1_000);
    ctx.require("outputs identical under release", 10_000);
    ctx.require("outputs identical under i686-unknown-linux-gnu", 100);
    ctx.require("outputs identical under s390x-unknown-linux-gnu", 100);
}
