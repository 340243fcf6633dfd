mod binarize;
mod bits;
mod corners;
mod damage;
mod dump;
mod format;
mod history;
mod mocks;
mod paint;
mod plane;
mod report;
mod scene;
mod symbol;
mod symbols;
mod tables;

fn main() {
    std::panic::set_hook(Box::new(|p| {
        // panics of the code under test are data, those of the harness are not
        if p.location().map_or(false, |l| l.file().starts_with("src/")) {
            eprintln!("{}", p);
        }
    }));
    let r = std::panic::catch_unwind(run);
    if let Err(e) = r {
        let s = e
            .downcast_ref::<String>()
            .cloned()
            .or_else(|| e.downcast_ref::<&str>().map(|s| s.to_string()))
            .unwrap_or_default();
        eprintln!("harness error: {}", s);
        std::process::exit(3);
    }
}

fn run() {
    let a: Vec<String> = std::env::args().skip(1).collect();
    let arg = |i: usize| a.get(i).cloned().unwrap_or_else(|| panic!("argument {} missing", i));
    match a.first().map(|s| s.as_str()).unwrap_or("") {
        // harness symbols TABLES INPUT OUT
        "symbols" => symbols::run(&tables::Tables::load(&arg(1)), &arg(2), &arg(3)),
        // harness format TABLES FORMATS TEXTS FULL STEP OUT
        "format" => format::run(&tables::Tables::load(&arg(1)), &arg(2), &arg(6), &arg(3), &arg(4), arg(5).parse().unwrap()),
        // harness bits INPUT OUT
        "bits" => bits::replay(&arg(1), &arg(2)),
        // harness plane INPUT OUT
        "plane" => plane::run(&arg(1), &arg(2)),
        // harness bits-trace COUNT OPS TRACE
        "bits-trace" => bits::record(arg(1).parse().unwrap(), arg(2).parse().unwrap(), &arg(3)),
        // harness damage TABLES CLEAN MODE COUNT TRACE OUT
        "damage" => damage::run(&tables::Tables::load(&arg(1)), &arg(2), &arg(3), arg(4).parse().unwrap(), &arg(5), &arg(6)),
        "selfcheck" => symbols::selfcheck(&tables::Tables::load(&arg(1)), &arg(2)),
        // harness pipeline TABLES TEXTS INPUT TRACE OUT
        "pipeline" => mocks::pipeline(&tables::Tables::load(&arg(1)), &arg(2), &arg(3), &arg(4), &arg(5)),
        // harness builder TABLES INPUT TEXTS TRACE OUT
        "builder" => mocks::builder(&tables::Tables::load(&arg(1)), &arg(2), &arg(3), &arg(4), &arg(5)),
        // harness scenes TABLES TEXTS INPUT OUT
        "scenes" => scene::run(&tables::Tables::load(&arg(1)), &arg(2), &arg(3), &arg(4)),
        // harness extract TABLES TEXTS INPUT OUT
        "extract" => scene::extract(&tables::Tables::load(&arg(1)), &arg(2), &arg(3), &arg(4)),
        "dump-matrix" => dump::matrix(&tables::Tables::load(&arg(1)), &arg(2), &arg(3)),
        "dump-scene" => dump::picture(&tables::Tables::load(&arg(1)), &arg(2), &arg(3), &arg(4)),
        // harness corners TABLES TEXTS INPUT OUT
        "corners" => corners::run(&tables::Tables::load(&arg(1)), &arg(2), &arg(3), &arg(4)),
        "robust" => paint::run(&tables::Tables::load(&arg(1)), &arg(2), &arg(3), &arg(4)),
        "fresh" => history::fresh(&tables::Tables::load(&arg(1)), &arg(2), &arg(3), arg(4).parse().unwrap(), &arg(5), &arg(6)),
        "history" => history::history(&tables::Tables::load(&arg(1)), &arg(2), &arg(3), &arg(4), &arg(5), &arg(6)),
        "containers" => history::containers(&tables::Tables::load(&arg(1)), &arg(2), &arg(3), &arg(4), &arg(5), &arg(6)),
        "stages" => history::stages(&tables::Tables::load(&arg(1)), &arg(2), &arg(3), &arg(4), &arg(5), &arg(6)),
        // harness binarize INPUT OUT
        "binarize" => binarize::run(&arg(1), &arg(2)),
        "scene-selfcheck" => scene::selfcheck(&tables::Tables::load(&arg(1)), &arg(2), &arg(3)),
        c => panic!("unknown command {:?}", c),
    }
}
