mod conv;
mod p_ast;
mod p_emit;
mod p_err;
mod p_mgr;
mod p_parse;
mod p_ssr;
mod util;

use oracle::report::Opts;

#[global_allocator]
static ALLOC: p_mgr::Counting = p_mgr::Counting;

fn main() {
    util::quiet_panics();
    let o = Opts::parse();
    if o.rest.iter().any(|m| m == "--worker") {
        std::process::exit(p_parse::worker(o));
    }
    if let Some(i) = o.rest.iter().position(|m| m == "--ids") {
        let n = o.rest[i + 1].parse().unwrap();
        for m in p_mgr::p10_ids(8, n, o.seed) {
            println!("{}", m.0);
        }
        return;
    }
    let rc = match o.prop.as_str() {
        "P01" => p_parse::p01(o),
        "P02" => p_parse::p02(o),
        "P03" => p_parse::p03(o),
        "P04" => p_parse::p04(o),
        "P05" | "P06" | "P07" | "P08" => p_emit::run(o),
        "P09" => p_mgr::p09(o),
        "P10" => p_mgr::p10(o),
        "P11" => p_mgr::p11(o),
        "P12" => p_mgr::p12(o),
        "P13" => p_ssr::p13(o),
        "P14" => p_ssr::p14(o),
        "P15" => p_ssr::p15(o),
        "P26" => p_ast::p26(o),
        "P33" => p_err::p33(o),
        p => {
            eprintln!("unknown property {p}");
            4
        }
    };
    std::process::exit(rc);
}
