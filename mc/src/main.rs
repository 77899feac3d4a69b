mod cli;
mod drv;
mod engine;
mod duplex;
mod hdr;
mod err;
mod hdl;
mod hs;
mod http;
mod io;
mod model;
mod e2e;
mod net;
mod rx;
mod see;
mod shim;
mod srv;
mod stall;
mod tls;
mod tx;

fn main() {
    let a: Vec<String> = std::env::args().collect();
    engine::install_hook();
    http::selftest();
    let root = std::env::var("MC_ROOT").unwrap_or_else(|_| "/verif".into());
    tls::system_trust(&root);
    if a.len() >= 4 && a[1] == "probe-read-dataframe" {
        std::process::exit(rx::probe_read_dataframe(a[2] == "1", &a[3]));
    }
    if a.len() >= 5 && a[1] == "probe-deep" {
        std::process::exit(rx::probe_deep(a[2].parse().unwrap(), a[3] == "1", a[4].parse().unwrap()));
    }
    if a.len() >= 2 && a[1] == "probe-keys" {
        std::process::exit(tx::probe_keys());
    }
    if a.len() >= 2 && a[1] == "probe-handshake-keys" {
        std::process::exit(cli::probe_keys());
    }
    let (prop, tier, only) = if a.len() >= 3 && a[1] == "replay" {
        let t = std::fs::read_to_string(&a[2]).expect("replay file");
        let get = |k: &str| t.lines().find_map(|l| l.strip_prefix(k)).expect("replay file field").trim().to_string();
        (get("property:"), get("tier:"), Some((get("section:"), get("index:").parse().expect("index"))))
    } else if a.len() >= 3 {
        (a[1].clone(), a[2].clone(), None)
    } else {
        eprintln!("usage: mc <property> quick|thorough | mc replay <file>");
        std::process::exit(2);
    };
    let x = engine::Ctx::new(&prop, tier == "thorough", only);
    println!("{} {}", prop, tier);
    match prop.as_str() {
        "C01" => rx::c01(&x),
        "C04" => rx::c04(&x),
        "C05" => rx::c05(&x),
        "C06" => rx::c06(&x),
        "C07" => rx::c07(&x),
        "C08" => rx::c08(&x),
        "C02" => tx::c02(&x),
        "C03" => tx::c03(&x),
        "C15" => duplex::c15(&x),
        "C16" => tx::c16(&x),
        "C09" => srv::c09(&x),
        "C10" => srv::c10(&x),
        "C11" => cli::c11(&x),
        "C12" => cli::c12(&x),
        "C13" => hs::c13(&x),
        "C14" => hdr::c14(&x),
        "C17" => net::c17(&x),
        "C19" => e2e::c19(&x),
        "C18" => tls::c18(&x),
        "C20" => hs::c20(&x),
        "C21" => tx::c21(&x),
        "C22" => tx::c22(&x),
        "C23" => hdl::c23(&x),
        "C24" => err::c24(&x),
        "C25" => see::c25(&x),
        _ => {
            eprintln!("unknown property {}", prop);
            std::process::exit(2);
        }
    }
    std::process::exit(x.finish(&root));
}
