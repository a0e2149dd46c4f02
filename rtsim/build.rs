fn main() {
    let mut jobs: Vec<(String, cc::Build)> = vec![];
    let tsan = |b: &mut cc::Build| {
        b.flag("-fsanitize=thread").flag("-g1").opt_level(1).warnings(false).std("c++20");
    };
    // the bridges' generated code; one library each so that they compile in parallel
    let mut b = cxx_build::bridges(["src/gen_bridge.rs", "src/gen_alt.rs", "src/gen_ptr.rs", "src/gen_cont.rs", "src/gen_uv.rs", "src/w_strs.rs", "src/w_io.rs", "src/w_fmt.rs"]);
    tsan(&mut b);
    jobs.push(("rtsim_bridge".into(), b));
    let mut base = cxx_build::bridges(None::<&str>);
    tsan(&mut base);
    let mut files: Vec<String> = std::fs::read_dir("cxx").unwrap().map(|e| e.unwrap().file_name().into_string().unwrap()).collect();
    files.sort();
    for f in files {
        if let Some(stem) = f.strip_suffix(".cc") {
            if stem != "simnew" {
                let mut b = base.clone();
                b.file(format!("cxx/{f}"));
                jobs.push((format!("rtsim_{stem}"), b));
            }
        }
    }
    let mut s = cc::Build::new();
    s.file("cxx/sim.c").file("cxx/content.c").flag("-fno-builtin").flag("-fno-sanitize=all").opt_level(2).warnings(false).flag("-g1");
    jobs.push(("rtsim_sim".into(), s));
    let mut n = cc::Build::new();
    n.cpp(true).file("cxx/simnew.cc").flag("-fno-sanitize=all").opt_level(2).warnings(false).flag("-g1");
    jobs.push(("rtsim_new".into(), n));
    let names: Vec<String> = jobs.iter().map(|j| j.0.clone()).collect();
    let jobs = std::sync::Mutex::new(jobs);
    std::thread::scope(|sc| {
        for _ in 0..8 {
            sc.spawn(|| loop {
                let Some((name, mut b)) = jobs.lock().unwrap().pop() else { break };
                b.cargo_metadata(false);
                b.compile(&name);
            });
        }
    });
    // in a fixed order; operator new must come from here, not from libstdc++
    println!("cargo:rustc-link-search=native={}", std::env::var("OUT_DIR").unwrap());
    for n in names {
        let whole = if n == "rtsim_new" { ":+whole-archive" } else { "" };
        println!("cargo:rustc-link-lib=static{whole}={n}");
    }
    println!("cargo:rustc-link-lib=stdc++");
    println!("cargo:rerun-if-changed=cxx");
}
