mod codec_a;
mod codec_b;
mod engine;
mod logs;
mod session_a;
mod session_b;
mod session_c;
mod session_d;
mod session_e;
mod sim;
mod threads;
mod wire;

use engine::*;

type Check = fn(&mut Ctx);
fn checks() -> Vec<(&'static str, Check)> {
    vec![
        ("C01", codec_a::c01),
        ("C02", codec_a::c02),
        ("C03", codec_a::c03),
        ("C04", codec_a::c04),
        ("C05", codec_a::c05),
        ("C06", codec_a::c06),
        ("C07", codec_a::c07),
        ("C08", codec_a::c08),
        ("C09", codec_a::c09),
        ("C10", codec_a::c10),
        ("C11", codec_b::c11),
        ("C12", codec_b::c12),
        ("C13", codec_b::c13),
        ("C14", codec_b::c14),
        ("C15", codec_b::c15),
        ("C16", session_a::c16),
        ("C17", session_a::c17),
        ("C18", session_a::c18),
        ("C19", session_a::c19),
        ("C20", session_a::c20),
        ("C21", session_b::c21),
        ("C22", session_b::c22),
        ("C23", session_b::c23),
        ("C24", session_b::c24),
        ("C25", session_b::c25),
        ("C26", session_b::c26),
        ("C27", session_b::c27),
        ("C28", session_c::c28),
        ("C29", session_c::c29),
        ("C30", session_c::c30),
        ("C31", session_c::c31),
        ("C32", session_c::c32),
        ("C33", session_d::c33),
        ("C34", session_d::c34),
        ("C35", session_d::c35),
        ("C36", session_e::c36),
        ("C37", session_e::c37),
    ]
}

fn main() {
    let args: Vec<String> = std::env::args().skip(1).collect();
    let usage = || -> ! {
        eprintln!("usage: pbt <property> | pbt replay <file>");
        std::process::exit(2)
    };
    let (id, replay) = match args.iter().map(String::as_str).collect::<Vec<_>>()[..] {
        ["replay", f] => {
            let v: serde_json::Value = serde_json::from_slice(&std::fs::read(f).expect("replay file")).expect("replay file");
            let id = v["property"].as_str().expect("property").to_string();
            (id, Some((v["check"].as_str().expect("check").to_string(), v["case"].clone())))
        }
        [id] => (id.to_string(), None),
        _ => usage(),
    };
    let seed = std::env::var("VERIF_SEED").ok().and_then(|s| s.parse().ok()).unwrap_or(1u64);
    let tier = match std::env::var("VERIF_TIER").as_deref() {
        Ok("thorough") => Tier::Thorough,
        _ => Tier::Quick,
    };
    let Some((_, f)) = checks().into_iter().find(|(n, _)| *n == id) else { usage() };
    install_panic_hook();
    logs::install();
    let mut c = Ctx::new(&id, seed, tier, replay);
    f(&mut c);
    std::process::exit(c.finish("exploration"));
}
