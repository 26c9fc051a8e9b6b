mod alloc;
mod cli;
mod env;
mod hist;
mod s_gate;
mod s_hist;
mod s_host;
mod s_leak;
mod s_life;
mod s_load;
mod s_prog;
#[cfg(feature = "table")]
mod s_table;
mod s_wire;
mod server;
fn main() {
    env::install_hook();
    env::install_tracing();
    env::start_canary();
    let _ = server::keys();
    let a: Vec<String> = std::env::args().collect();
    let code = match a.get(1).map(|s| s.as_str()).unwrap_or("") {
        "S01" => s_hist::s01("S01"),
        "S02" => s_load::s02(),
        "S17" => s_load::s17(),
        "S05" => s_gate::s05(),
        "S06" => s_gate::s06(),
        "S12" => s_gate::s12(),
        "S18" => s_gate::s18(),
        "S04" => s_host::s04(),
        "S07" => s_host::s07(),
        "S13" => s_wire::s13(),
        "S14" => s_wire::s14(),
        #[cfg(feature = "table")]
        "S15" => s_table::s15(),
        // built without the hook: the table as clients see it
        #[cfg(not(feature = "table"))]
        "S15" => s_hist::s01("S15"),
        "S08" => s_life::s08(),
        "S09" => s_life::s09(),
        "S11" => s_life::s11(),
        "S03" => s_hist::s03(),
        "S10" => s_hist::s10(),
        "D01" => s_prog::d01(&a[2..]),
        "R01" => s_leak::r01(),
        "R02" => s_leak::r02(),
        "S16" => s_hist::s16(),
        _ => {
            eprintln!("usage: broker S01..S18");
            2
        }
    };
    std::process::exit(code);
}
