//! C09: layout settings, capacities and repetition never change the meaning of the output.

use crate::checks::prog::{self, *};
use crate::mon::{hash, Ctx};
use crate::pdf::esc;
use std::io::Write;

fn seed(master: u64, case: u64) -> u64 { hash(&(master, "layout", case)) }

/// Runs programs in a process of its own and prints the hash of every output.
pub fn digests(args: &[String]) -> i32 {
    let n = |i: usize| args[i].parse::<u64>().expect("HARNESS: number");
    let (master, count, reverse) = (n(0), n(1), n(2) == 1);
    let mut out = vec![(0u64, 0u64); count as usize];
    let order: Vec<u64> = if reverse { (0..count).rev().collect() } else { (0..count).collect() };
    for c in order {
        let mut h = [0u64; 2];
        for (i, pretty) in [(0, true), (1, false)] {
            h[i] = match prog::run(c as usize, seed(master, c), &mut Lay::plain(pretty)) { Ok(o) => hash(&o.bytes), Err(_) => 1 };
        }
        out[c as usize] = (h[0], h[1]);
    }
    let mut s = String::new();
    for (a, b) in out { s.push_str(&format!("{a} {b}\n")); }
    std::io::stdout().write_all(s.as_bytes()).is_err() as i32
}

fn first_diff(a: &[u8], b: &[u8]) -> String {
    let i = a.iter().zip(b).take_while(|(x, y)| x == y).count();
    let cut = |v: &[u8]| esc(&v[i.saturating_sub(30)..(i + 30).min(v.len())]);
    format!("lengths {} and {}, first difference at {i}: {} against {}", a.len(), b.len(), cut(a), cut(b))
}

pub fn c09(ctx: &Ctx) {
    ctx.rule("the program made at least one call and was run in both layouts, with varied capacities and repeatedly");
    let np = PROGRAMS.len();
    ctx.cases("programs", 30_000, 400_000, |i, r, o| {
        let s = r.next();
        let p = i as usize % np;
        let pretty = prog::run(p, s, &mut Lay::plain(true))?;
        let compact = prog::run(p, s, &mut Lay::plain(false))?;
        let m = |e: String| format!("{}: {e}\npretty {}\ncompact {}", PROGRAMS[p].0, esc(&pretty.bytes), esc(&compact.bytes));
        let (a, b) = (prog::read(&pretty).map_err(m)?, prog::read(&compact).map_err(m)?);
        same_meaning(&a, &b, PROGRAMS[p].0 == "page content").map_err(m)?;
        // A content stream may start with the space its second operation would need; files may not grow.
        let slack = (pretty.kind == Kind::Content) as usize;
        if pretty.sized && compact.bytes.len() > pretty.bytes.len() + slack { return Err(m(format!("compact output has {} bytes, pretty output {}", compact.bytes.len(), pretty.bytes.len()))); }
        for base in [&pretty, &compact] {
            let pr = std::ptr::eq(base, &pretty);
            for k in 0..3 {
                let mut lay = if k == 0 { Lay::plain(pr) } else { Lay::varied(pr, r.fork()) };
                let again = prog::run(p, s, &mut lay)?;
                if again.bytes != base.bytes { return Err(format!("{} (pretty={pr}): {} changed the output: {}", PROGRAMS[p].0, if k == 0 { "a repeated run" } else { "another capacity" }, first_diff(&base.bytes, &again.bytes))); }
                o.count("byte-identical reruns", 1);
            }
        }
        o.count(&format!("programs: {}", PROGRAMS[p].0), 1);
        o.count("calls", pretty.calls as u64 * 2);
        o.count("bytes saved by the compact layout", (pretty.bytes.len() as i64 - compact.bytes.len() as i64).max(0) as u64);
        if pretty.bytes != compact.bytes { o.count("programs laid out differently", 1); }
        o.max("bytes", pretty.bytes.len() as u64);
        o.sample(|| format!("{}: {}", PROGRAMS[p].0, esc(&compact.bytes)));
        o.eval(hash(&pretty.bytes), pretty.calls > 0);
        Ok(())
    });
    // The same programs in other processes, in the opposite order: neither the process nor what
    // was written before matters.
    ctx.cases("other processes", 4, 24, |i, r, o| {
        let master = r.next() >> 8;
        let n = 700u64;
        let exe = std::env::current_exe().map_err(|e| format!("HARNESS: {e}"))?;
        let child = std::process::Command::new(exe).args(["digests", &master.to_string(), &n.to_string(), if i % 2 == 0 { "1" } else { "0" }])
            .output().map_err(|e| format!("HARNESS: {e}"))?;
        let text = String::from_utf8_lossy(&child.stdout).to_string();
        let lines: Vec<&str> = text.lines().collect();
        if lines.len() != n as usize { return Err(format!("the other process produced {} of {n} results: {:?} {}", lines.len(), child.status, String::from_utf8_lossy(&child.stderr))); }
        for c in 0..n {
            let mut h = [0u64; 2];
            for (k, pretty) in [(0, true), (1, false)] { h[k] = hash(&prog::run(c as usize, seed(master, c), &mut Lay::plain(pretty))?.bytes); }
            if lines[c as usize] != format!("{} {}", h[0], h[1]) { return Err(format!("{}: program {c} gave another result in another process", PROGRAMS[c as usize % np].0)); }
            o.count("programs compared across processes", 1);
        }
        o.eval(hash(&(i, master)), true);
        Ok(())
    });
    // One operation at a time: every pair of adjacent things in both layouts is C06, C08 and C14.
    ctx.require("programs laid out differently", 1000);
    ctx.require("programs compared across processes", 1000);
}
