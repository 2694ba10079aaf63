mod exec;
mod expr;
mod ir;
mod mem;
mod shared;
mod solver;
use exec::*;
use shared::*;
use std::time::{Duration, Instant};

extern "C" {
    fn waitpid(p: i32, s: *mut i32, o: i32) -> i32;
    fn prctl(a: i32, ...) -> i32;
}

fn prim_of(n: &str, has_body: bool) -> Option<Prim> {
    Some(match n {
        "rsym_sym" => Prim::Sym,
        "rsym_choose" => Prim::Choose,
        "rsym_assume" => Prim::Assume,
        "rsym_assert" => Prim::Assert,
        "rsym_fail" => Prim::Fail,
        "rsym_reach" => Prim::Reach,
        "rsym_end" => Prim::End,
        "rsym_thread_new" => Prim::ThreadNew,
        "rsym_switch" => Prim::Switch,
        "rsym_cur" => Prim::Cur,
        "rsym_log" => Prim::Log,
        "rsym_conc" => Prim::Conc,
        "rsym_insts" => Prim::Insts,
        "rsym_is_sym" => Prim::IsSym,
        "malloc" => Prim::Malloc,
        "calloc" => Prim::Calloc,
        "realloc" => Prim::Realloc,
        "free" => Prim::Free,
        "posix_memalign" => Prim::Memalign,
        "malloc_usable_size" => Prim::MallocUsable,
        "memcmp" | "bcmp" => Prim::Memcmp,
        "memcpy" | "memmove" if !has_body => Prim::Memcpy,
        "memset" if !has_body => Prim::Memset,
        "strlen" => Prim::Strlen,
        "abort" => Prim::Abort,
        "dlsym" => Prim::Null,
        _ => {
            if n.starts_with("_ZN4core9panicking9panic_fmt17h")
                || n.starts_with("_ZN4core9panicking19panic_cannot_unwind")
                || n.starts_with("_ZN4core9panicking18panic_nounwind_fmt")
                || n.starts_with("_ZN5alloc5alloc18handle_alloc_error")
            {
                Prim::Panic
            } else if n.contains("core3fmt3num") && n.contains("3fmt17h") {
                Prim::FmtNum
            } else if n.contains("core..hash..sip..Hasher") && n.contains("5write17h") {
                Prim::SipWrite
            } else {
                return None;
            }
        }
    })
}

/// The name under which a function's stand-in is looked for.
fn external(name: &str) -> &str {
    if name.starts_with("_ZN6memchr4arch6x86_646memchr10memchr_raw6detect") {
        // picks a vector implementation by looking at the processor
        return "memchr_raw";
    }
    name
}

fn main() {
    let mut ir = String::new();
    let mut entry = String::new();
    let mut out = String::new();
    let mut o = Opts {
        max_insts: 200_000_000,
        deadline: Instant::now() + Duration::from_secs(600),
        workers: 8,
        verbose: false,
        keep_going: false,
        max_enum: 300,
    };
    let mut list = false;
    let mut force = false;
    let mut it = std::env::args().skip(1);
    while let Some(a) = it.next() {
        let mut nx = || it.next().expect("value");
        match a.as_str() {
            "--ir" => ir = nx(),
            "--entry" => entry = nx(),
            "--out" => out = nx(),
            "--workers" => o.workers = nx().parse().unwrap(),
            "--deadline" => o.deadline = Instant::now() + Duration::from_secs(nx().parse().unwrap()),
            "--max-insts" => o.max_insts = nx().parse().unwrap(),
            "--max-enum" => o.max_enum = nx().parse().unwrap(),
            "--keep-going" => o.keep_going = true,
            "--force-z3" => force = true,
            "-v" => o.verbose = true,
            "--list" => list = true,
            _ => panic!("unknown option {}", a),
        }
    }
    let t0 = Instant::now();
    let text: &'static [u8] = Box::leak(std::fs::read(&ir).expect("read IR").into_boxed_slice());
    let mut m = ir::Module::load(text);
    for f in 0..m.funcs.len() {
        if external(&m.funcs[f].name) != m.funcs[f].name {
            m.funcs[f].body = None;
        }
    }
    if list {
        for f in &m.funcs {
            println!("{} {}", if f.body.is_some() { "def" } else { "ext" }, f.name);
        }
        return;
    }
    let prims: Vec<Option<Prim>> = m.funcs.iter().map(|f| prim_of(&f.name, f.body.is_some())).collect();
    let simos: Vec<u32> = m
        .funcs
        .iter()
        .map(|f| {
            if f.name == "rsym_argv_init" {
                // what the startup code of a program runs to note its arguments
                let init = m.funcs.iter().position(|g| {
                    g.body.is_some() && g.name.contains("ARGV_INIT_ARRAY") && g.name.contains("init_wrapper")
                });
                return init.map(|i| i as u32).unwrap_or(u32::MAX);
            }
            m.fmap.get(&format!("simos_{}", external(&f.name))).copied().unwrap_or(u32::MAX)
        })
        .collect();
    shared::init();
    unsafe {
        prctl(36, 1u64, 0u64, 0u64, 0u64);
    }
    let eid = match m.fmap.get(&entry) {
        Some(e) => *e,
        None => {
            eprintln!("rsym: no entry function {}", entry);
            std::process::exit(74)
        }
    };
    let mut ex = Exec {
        m,
        prims,
        sol: solver::Solver::new(),
        o,
        work: vec![],
        asserts_sym: 0,
        asserts_conc: 0,
        paths: 0,
        killed: 0,
        forks: 0,
        insts: 0,
        last_handoff: Instant::now(),
        hook_trace: false,
        simos,
        done_paths: 0,
        fork_sites: Default::default(),
        prof: Default::default(),
        tls_init: vec![],
    };
    ex.sol.force_z3 = force;
    let st = match ex.init_state(eid) {
        Ok(s) => s,
        Err(e) => {
            eprintln!("rsym: init: {}", e);
            std::process::exit(75)
        }
    };
    if ex.o.verbose {
        eprintln!("loaded in {:?}", t0.elapsed());
    }
    ex.work.push(st);
    ex.explore();
    ex.flush();
    shared().release();
    let mut bad_child = 0;
    loop {
        let mut s = 0;
        let r = unsafe { waitpid(-1, &mut s, 0) };
        if r < 0 {
            break;
        }
        if s != 0 {
            bad_child += 1;
            eprintln!("rsym: worker ended with status {:#x}", s);
            shared().report_error("worker process died");
        }
    }
    let s = shared();
    let status = if s.nviol() > 0 {
        "violation"
    } else if s.nerr() > 0 || bad_child > 0 {
        "error"
    } else if s.timed_out() {
        "timeout"
    } else {
        "ok"
    };
    let g = |i: usize| s.c[i].load(std::sync::atomic::Ordering::SeqCst);
    let mut js = String::from("{");
    js.push_str(&format!("\"status\":\"{}\",\"wall_s\":{:.3}", status, t0.elapsed().as_secs_f64()));
    for (n, i) in [
        ("paths", C_PATHS),
        ("killed", C_KILLED),
        ("forks", C_FORKS),
        ("insts", C_INSTS),
        ("asserts_symbolic", C_ASSYM),
        ("asserts_concrete", C_ASCONC),
        ("z3_queries", C_QUERIES),
        ("cached_queries", C_CACHED),
        ("domain_queries", C_DOMQ),
        ("audited_queries", C_AUDIT),
        ("solver_us", C_SOLVER_US),
        ("max_query_us", C_MAXQ_US),
    ] {
        js.push_str(&format!(",\"{}\":{}", n, g(i)));
    }
    js.push_str(",\"reached\":{");
    let mut first = true;
    for i in 0..NTAG {
        if s.tags[i][0] != 0 {
            let t: Vec<u8> = s.tags[i].iter().copied().take_while(|c| *c != 0).collect();
            if !first {
                js.push(',')
            }
            first = false;
            js.push_str(&format!(
                "{}:{}",
                jstr(&String::from_utf8_lossy(&t)),
                s.tagn[i].load(std::sync::atomic::Ordering::SeqCst)
            ));
        }
    }
    js.push_str("},\"functions\":[");
    let mut first = true;
    for (i, f) in ex.m.funcs.iter().enumerate() {
        if s.cov[i % NFN].load(std::sync::atomic::Ordering::SeqCst) != 0 {
            if !first {
                js.push(',')
            }
            first = false;
            js.push_str(&jstr(&f.name));
        }
    }
    js.push_str("],\"violations\":[");
    let v = s.violations();
    js.push_str(&v.trim_end().split('\n').collect::<Vec<_>>().join(","));
    js.push_str("],\"samples\":[");
    let v = s.samples();
    js.push_str(&v.trim_end().split('\n').collect::<Vec<_>>().join(","));
    js.push_str("],\"errors\":");
    js.push_str(&jstr(&s.errors()));
    js.push('}');
    if out.is_empty() {
        let mut short = js.clone();
        if let (Some(a), Some(b)) = (short.find(",\"functions\":["), short.find(",\"violations\":")) {
            short.replace_range(a..b, "");
        }
        println!("{}", short);
    } else {
        std::fs::write(&out, js).unwrap();
    }
    std::process::exit(match status {
        "ok" => 0,
        "violation" => 1,
        "timeout" => 4,
        _ => 3,
    });
}
