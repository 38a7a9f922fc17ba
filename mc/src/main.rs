mod convert;
mod gens;
mod graph;
mod names;
mod optional;
mod schemas;
mod transforms;
mod values;
use vcore::Report;

fn main() {
    // Panics of the code under test are caught and judged; keep stderr readable.
    if std::env::var("MC_PANIC").is_err() {
        std::panic::set_hook(Box::new(|_| {}));
    }
    let id = std::env::args().nth(1).expect("usage: mc <property> [quick|thorough]");
    let r = Report::new(&id);
    match id.as_str() {
        "G01" => gens::g01(&r),
        "G02" => gens::g02(&r),
        "G03" => gens::g03(&r),
        "N01" => names::run(&r),
        "T01" => transforms::t01(&r),
        "T02" => transforms::t02(&r),
        "O01" => optional::o01(&r),
        "T03" => convert::t03(&r),
        "S01" => schemas::s01(&r),
        "V01" => values::v01(&r),
        "T04" => transforms::t04(&r),
        _ => {
            eprintln!("unknown property {id}");
            std::process::exit(2);
        }
    }
    r.finish();
}
