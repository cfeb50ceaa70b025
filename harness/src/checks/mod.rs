use crate::mon::Ctx;

pub mod calc;
pub mod cmap;
pub mod conc;
pub mod content;
pub mod cost;
pub mod doc;
pub mod extreme;
pub mod guards;
pub mod layout;
pub mod limits;
pub mod platform;
pub mod prim;
pub mod prog;
pub mod renum;
pub mod roles;
pub mod tree;
pub mod typed;

pub type Check = fn(&Ctx);
pub const ALL: &[(&str, Check)] = &[
    ("C01", doc::c01),
    ("C02", doc::c02),
    ("C03", doc::c03),
    ("C04", doc::c04),
    ("C05", prim::c05),
    ("C06", prim::c06),
    ("C07", prim::c07),
    ("C08", tree::c08),
    ("C09", layout::c09),
    ("C10", doc::c10),
    ("C11", doc::c11),
    ("C12", renum::c12),
    ("C13", renum::c13),
    ("C14", content::c14),
    ("C15", limits::c15), ("C16", cmap::c16), ("C17", calc::c17),
    ("C18", typed::c18), ("C19", typed::c19), ("C20", typed::c20), ("C21", typed::c21), ("C22", typed::c22), ("C23", typed::c23),
    ("C24", roles::c24),
    ("C25", guards::c25),
    ("C26", extreme::c26),
    ("C27", conc::c27),
    ("C28", platform::c28),
    ("C29", cost::c29),
];

pub fn find(id: &str) -> Option<Check> {
    ALL.iter().find(|c| c.0 == id).map(|c| c.1)
}

/// Runs the monitor again under a sanitizer or interpreter (tools/san.sh) and adopts what it reports.
pub fn sanitized(ctx: &Ctx, kind: &str) {
    if ctx.replaying() || std::env::var("HARNESS_NO_EVIDENCE").is_ok() { return; }
    let root = std::env::var("VERIF_ROOT").unwrap_or_else(|_| ".".into());
    ctx.external(kind, |say| {
        let mut child = std::process::Command::new(format!("{root}/tools/san.sh"))
            .args([kind, &ctx.id])
            .env("VERIF_SEED", ctx.seed.to_string())
            .env_remove("HARNESS_SLOTS")
            .stdout(std::process::Stdio::piped())
            .spawn().map_err(|e| format!("HARNESS: san.sh: {e}"))?;
        let mut observed = None;
        let mut bad = vec![];
        for l in std::io::BufRead::lines(std::io::BufReader::new(child.stdout.take().unwrap())) {
            let l = l.unwrap_or_default();
            say(&l);
            if let Some(m) = l.strip_prefix("MISMATCH ") { bad.push(m.to_string()); }
            if l.contains("ERROR: AddressSanitizer") || l.contains("ERROR: LeakSanitizer") || l.contains("WARNING: ThreadSanitizer") || l.contains("error: Undefined Behavior") || l.contains("error: memory leaked") || l.contains("stack overflow") { bad.push(l.clone()); }
            if let Some(m) = l.strip_prefix("ERROR ") { ctx.error(format!("{kind}: {m}")); }
            if let Some(m) = l.strip_prefix("OBSERVED ") { observed = Some(m.to_string()); }
        }
        let st = child.wait().map_err(|e| format!("HARNESS: {e}"))?;
        if let Some(m) = bad.first() { return Err(format!("under {kind}: {m} ({} reports)", bad.len())); }
        match (st.code(), observed) {
            (Some(0), Some(m)) => { ctx.extra(kind, m); Ok(()) }
            (Some(c), _) if c == 3 => { ctx.error(format!("{kind} could not be built or started")); Ok(()) }
            (Some(124), _) => { ctx.error(format!("{kind} ran out of time")); Ok(()) }
            (c, _) => Err(format!("under {kind} the process ended abnormally: {c:?} {st}")),
        }
    });
}
