//! symex: path-exploring symbolic executor for LLVM IR, deciding branches and
//! assertions with z3.  Usage:
//!   symex run --ll FILE --units FILE --out FILE [--threads N] [--time SECS] [--steps N] [--samples N] [--dump PREFIX]
mod exec;
mod expr;
mod ir;
mod z3;
use exec::*;
use std::collections::VecDeque;
use std::sync::atomic::*;
use std::sync::{Arc, Condvar, Mutex};
use std::time::*;

#[derive(Clone)]
struct Unit {
    name: String,
    entry: u32,
    params: Vec<u64>,
}
#[derive(Clone)]
struct Task {
    unit: usize,
    pc: Pc,
}
#[derive(Default, Clone)]
struct UStat {
    paths: u64,
    assume: u64,
    viol: u64,
    unsup: u64,
    forks: u64,
    steps: u64,
    covers: u64,
    maxsteps: u64,
    maxvars: usize,
    time: f64,
    viols: Vec<(String, String, Vec<u8>)>, // kind,msg,input
    unsups: Vec<(String, Vec<u8>)>,
    samples: Vec<(Vec<u8>, u64, String)>,
    incomplete: u64,
}
struct Shared {
    q: Mutex<(VecDeque<Task>, usize, bool)>, // tasks, idle workers, done
    cv: Condvar,
    qlen: AtomicUsize,
    idle: AtomicUsize,
    stats: Mutex<Vec<UStat>>,
    deadline: Instant,
    stop: AtomicBool,
    cur: Vec<AtomicUsize>,
}

fn esc(s: &str) -> String {
    let mut o = String::from("\"");
    for c in s.chars() {
        match c {
            '"' => o.push_str("\\\""),
            '\\' => o.push_str("\\\\"),
            '\n' => o.push_str("\\n"),
            c if (c as u32) < 32 => o.push_str(&format!("\\u{:04x}", c as u32)),
            c => o.push(c),
        }
    }
    o.push('"');
    o
}
fn hex(b: &[u8]) -> String {
    b.iter().map(|x| format!("{:02x}", x)).collect()
}

fn model(e: &mut Eng, st: &State) -> Vec<u8> {
    let mut out: Vec<u8> = st.doms.iter().map(|d| d.pick()).collect();
    if !st.multi.is_empty() {
        let doms: Vec<(u32, z3::Dom)> = (0..st.doms.len() as u32).filter(|v| st.multi_sup >> v & 1 != 0).map(|v| (v, st.doms[v as usize])).collect();
        // prefer printable models
        let mut pd = doms.clone();
        let mut pr = z3::Dom([0; 4]);
        for b in 0x20..0x7f {
            pr.set(b);
        }
        let mut ok = true;
        for d in pd.iter_mut() {
            let x = d.1.and(&pr.0);
            if x.empty() {
                ok = false;
            }
            d.1 = x;
        }
        let mut m = vec![];
        let c = st.multi.clone();
        let r = if ok { e.z.check(&e.s, &pd, &c, Some(&mut m)) } else { Some(false) };
        if r != Some(true) {
            m.clear();
            e.z.check(&e.s, &doms, &c, Some(&mut m));
        }
        for (v, b) in m {
            out[v as usize] = b;
        }
    }
    out
}

fn record(e: &mut Eng, sh: &Shared, us: &mut UStat, st: &State, end: End, samples: u64, sample_every: &mut u64) {
    us.steps += st.steps;
    us.maxsteps = us.maxsteps.max(st.steps);
    us.maxvars = us.maxvars.max(st.doms.len());
    let _ = sh;
    match end {
        End::Assume => us.assume += 1,
        End::Done => {
            us.paths += 1;
            us.covers |= st.covers;
            // reservoir-like deterministic thinning
            if us.paths % *sample_every == 0 && (us.samples.len() as u64) < samples {
                let m = model(e, st);
                let mut memo = Default::default();
                let mut h: u64 = 0xcbf29ce484222325;
                let mut txt = String::new();
                for o in &st.outs {
                    let v = if o.e == 0 { o.v } else { e.s.eval(o.e, &m, &mut memo) };
                    for k in 0..8 {
                        h ^= (v >> (8 * k)) & 0xff;
                        h = h.wrapping_mul(0x100000001b3);
                    }
                    if txt.len() < 400 {
                        txt.push_str(&format!("{:x} ", v));
                    }
                }
                us.samples.push((m, h, txt));
                if us.samples.len() as u64 % 16 == 0 {
                    *sample_every = (*sample_every * 2).min(1 << 20);
                }
            }
        }
        End::Viol { kind, msg } => {
            us.viol += 1;
            let n = us.viols.iter().filter(|v| v.1 == msg).count();
            if n < 3 && us.viols.len() < 60 {
                let m = model(e, st);
                us.viols.push((kind, msg, m));
            }
        }
        End::Unsup(m) => {
            us.unsup += 1;
            let n = us.unsups.iter().filter(|v| v.0 == m).count();
            if n < 2 && us.unsups.len() < 20 {
                let md = model(e, st);
                us.unsups.push((m, md));
            }
        }
    }
}

fn worker(sh: Arc<Shared>, units: Arc<Vec<Unit>>, im: &'static Image, nthreads: usize, cfg: Arc<Cfg>, id: usize) -> (Vec<bool>, u64, f64, f64, u64, u64, u64, u64) {
    let mut e = Eng::new(im);
    e.max_steps = cfg.steps;
    if let Some(d) = &cfg.dump {
        if id == 0 {
            e.z.dump = Some(d.clone());
        }
    }
    let (mut q, mut zt, mut mt, mut ch, mut unk) = (0u64, 0f64, 0f64, 0u64, 0u64);
    let mut visited = vec![false; im.m.funcs.len()];
    loop {
        let task = {
            let mut g = sh.q.lock().unwrap();
            loop {
                if let Some(t) = g.0.pop_front() {
                    sh.qlen.store(g.0.len(), Ordering::Relaxed);
                    break Some(t);
                }
                if g.2 {
                    break None;
                }
                g.1 += 1;
                sh.idle.store(g.1, Ordering::Relaxed);
                if g.1 == nthreads {
                    g.2 = true;
                    sh.cv.notify_all();
                    break None;
                }
                g = sh.cv.wait(g).unwrap();
                g.1 -= 1;
                sh.idle.store(g.1, Ordering::Relaxed);
            }
        };
        let Some(task) = task else { break };
        let t0 = Instant::now();
        sh.cur[id].store(task.unit, Ordering::Relaxed);
        let u = &units[task.unit];
        let mut us = UStat::default();
        if sh.stop.load(Ordering::Relaxed) || Instant::now() > sh.deadline {
            us.incomplete += 1;
            let mut g = sh.stats.lock().unwrap();
            merge(&mut g[task.unit], us, cfg.samples);
            continue;
        }
        if e.s.n.len() > 1_500_000 {
            // recycle the expression store between tasks
            q += e.z.queries;
            zt += e.z.time;
            mt = mt.max(e.z.maxt);
            ch += e.cache_hits;
            unk += e.unknowns;
            for (i, v) in e.visited.iter().enumerate() {
                visited[i] |= *v;
            }
            e = Eng::new(im);
            e.max_steps = cfg.steps;
        }
        e.params = u.params.clone();
        e.visited[u.entry as usize] = true;
        let mut st = e.initial(u.entry);
        e.import(&mut st, &task.pc);
        let mut every = 1u64;
        let mut stack: Vec<State> = vec![];
        let mut cur = Some(st);
        let mut cnt = 0u32;
        while let Some(mut s) = cur.take().or_else(|| stack.pop()) {
            cnt += 1;
            if cnt % 8 == 0 || s.steps > 200_000 {
                if Instant::now() > sh.deadline || sh.stop.load(Ordering::Relaxed) {
                    us.incomplete += 1 + stack.len() as u64;
                    stack.clear();
                    break;
                }
            }
            // donate work
            if stack.len() > 1 && sh.qlen.load(Ordering::Relaxed) < nthreads && (sh.idle.load(Ordering::Relaxed) > 0) {
                let n = (stack.len() / 2).max(1).min(8);
                let don: Vec<State> = stack.drain(..n).collect();
                let mut g = sh.q.lock().unwrap();
                for d in don {
                    let pc = e.export(&d);
                    g.0.push_back(Task { unit: task.unit, pc });
                }
                sh.qlen.store(g.0.len(), Ordering::Relaxed);
                sh.cv.notify_all();
            }
            match e.run(&mut s) {
                Step::Fork(alts) => {
                    us.forks += 1;
                    let n = alts.len();
                    for i in (1..n).rev() {
                        let mut c = s.clone();
                        e.apply(&mut c, &alts[i]);
                        stack.push(c);
                    }
                    e.apply(&mut s, &alts[0]);
                    cur = Some(s);
                }
                Step::End(x) => {
                    record(&mut e, &sh, &mut us, &s, x, cfg.samples, &mut every);
                }
                _ => unreachable!(),
            }
        }
        us.time = t0.elapsed().as_secs_f64();
        let mut g = sh.stats.lock().unwrap();
        merge(&mut g[task.unit], us, cfg.samples);
        if cfg.maxviol > 0 {
            let tot: usize = g.iter().map(|x| x.viols.len()).sum();
            if tot >= cfg.maxviol {
                sh.stop.store(true, Ordering::Relaxed);
            }
        }
    }
    for (i, v) in e.visited.iter().enumerate() {
        visited[i] |= *v;
    }
    (visited, q + e.z.queries, zt + e.z.time, mt.max(e.z.maxt), ch + e.cache_hits, unk + e.unknowns, e.s.n.len() as u64, e.total_steps)
}

fn merge(a: &mut UStat, b: UStat, samples: u64) {
    a.paths += b.paths;
    a.assume += b.assume;
    a.viol += b.viol;
    a.unsup += b.unsup;
    a.forks += b.forks;
    a.steps += b.steps;
    a.covers |= b.covers;
    a.maxsteps = a.maxsteps.max(b.maxsteps);
    a.maxvars = a.maxvars.max(b.maxvars);
    a.time += b.time;
    a.incomplete += b.incomplete;
    for v in b.viols {
        if a.viols.iter().filter(|x| x.1 == v.1).count() < 3 && a.viols.len() < 60 {
            a.viols.push(v);
        }
    }
    for v in b.unsups {
        if a.unsups.iter().filter(|x| x.0 == v.0).count() < 2 {
            a.unsups.push(v);
        }
    }
    for s in b.samples {
        if (a.samples.len() as u64) < samples {
            a.samples.push(s);
        }
    }
}

struct Cfg {
    steps: u64,
    samples: u64,
    dump: Option<String>,
    maxviol: usize,
}

fn main() {
    let a: Vec<String> = std::env::args().collect();
    let opt = |k: &str| a.iter().position(|x| x == k).and_then(|i| a.get(i + 1)).cloned();
    let ll = opt("--ll").expect("--ll");
    let uf = opt("--units").expect("--units");
    let out = opt("--out").expect("--out");
    let threads: usize = opt("--threads").map(|x| x.parse().unwrap()).unwrap_or(8);
    let time: f64 = opt("--time").map(|x| x.parse().unwrap()).unwrap_or(300.0);
    let cfg = Arc::new(Cfg {
        steps: opt("--steps").map(|x| x.parse().unwrap()).unwrap_or(3_000_000),
        samples: opt("--samples").map(|x| x.parse().unwrap()).unwrap_or(100),
        dump: opt("--dump"),
        maxviol: opt("--maxviol").map(|x| x.parse().unwrap()).unwrap_or(0),
    });
    let t0 = Instant::now();
    let src = std::fs::read_to_string(&ll).unwrap();
    let m = ir::parse(&src);
    drop(src);
    let im: &'static Image = Box::leak(Box::new(build_image(m)));
    let parse_t = t0.elapsed().as_secs_f64();
    let mut units = vec![];
    for l in std::fs::read_to_string(&uf).unwrap().lines() {
        let p: Vec<&str> = l.split_whitespace().collect();
        if p.len() < 2 || p[0].starts_with('#') {
            continue;
        }
        let entry = *im.entry.get(p[1]).unwrap_or_else(|| {
            eprintln!("no entry {}", p[1]);
            std::process::exit(3)
        });
        units.push(Unit { name: p[0].into(), entry, params: p[2..].iter().map(|x| x.parse().unwrap()).collect() });
    }
    let units = Arc::new(units);
    let sh = Arc::new(Shared {
        q: Mutex::new((units.iter().enumerate().map(|(i, _)| Task { unit: i, pc: Pc::default() }).collect(), 0, false)),
        cv: Condvar::new(),
        qlen: AtomicUsize::new(units.len()),
        idle: AtomicUsize::new(0),
        stats: Mutex::new(vec![UStat::default(); units.len()]),
        deadline: t0 + Duration::from_secs_f64(time),
        stop: AtomicBool::new(false),
        cur: (0..threads).map(|_| AtomicUsize::new(usize::MAX)).collect(),
    });
    let mut hs = vec![];
    for id in 0..threads {
        let (sh, units, cfg) = (sh.clone(), units.clone(), cfg.clone());
        hs.push(std::thread::Builder::new().stack_size(256 << 20).spawn(move || worker(sh, units, im, threads, cfg, id)).unwrap());
    }
    let mut visited = vec![false; im.m.funcs.len()];
    let (mut q, mut zt, mut mt, mut ch, mut unk, mut nodes, mut steps) = (0, 0f64, 0f64, 0, 0, 0, 0);
    let mut crashed = 0;
    // a solver call may ignore its own time limit: do not wait for it for ever
    while hs.iter().any(|h| !h.is_finished()) && Instant::now() < sh.deadline + Duration::from_secs(30) {
        std::thread::sleep(Duration::from_millis(20));
    }
    let mut stuck = 0;
    for (id, h) in hs.into_iter().enumerate() {
        if !h.is_finished() {
            stuck += 1;
            let u = sh.cur[id].load(Ordering::Relaxed);
            if u < units.len() {
                let mut g = sh.stats.lock().unwrap();
                g[u].unsup += 1;
                g[u].incomplete += 1;
                g[u].unsups.push(("the solver gave no answer within its time limit".into(), vec![]));
                unk += 1;
            }
            continue;
        }
        match h.join() {
            Ok(r) => {
                for (i, v) in r.0.iter().enumerate() {
                    visited[i] |= *v;
                }
                q += r.1;
                zt += r.2;
                mt = mt.max(r.3);
                ch += r.4;
                unk += r.5;
                nodes += r.6;
                steps += r.7;
            }
            Err(_) => crashed += 1,
        }
    }
    let g = sh.stats.lock().unwrap();
    let mut j = String::from("{\n");
    j.push_str(&format!(
        "\"wall\":{:.3},\"parse\":{:.3},\"threads\":{},\"queries\":{},\"solver_s\":{:.3},\"max_query_s\":{:.4},\"cache_hits\":{},\"unknown\":{},\"nodes\":{},\"steps\":{},\"crashed\":{},\n",
        t0.elapsed().as_secs_f64(),
        parse_t,
        threads,
        q,
        zt,
        mt,
        ch,
        unk,
        nodes,
        steps,
        crashed
    ));
    j.push_str("\"functions\":[");
    let fl: Vec<String> = im.m.funcs.iter().enumerate().filter(|(i, _)| visited[*i]).map(|(_, f)| esc(&f.name)).collect();
    j.push_str(&fl.join(","));
    j.push_str("],\n\"units\":[\n");
    let mut first = true;
    for (i, u) in g.iter().enumerate() {
        if !first {
            j.push_str(",\n");
        }
        first = false;
        j.push_str(&format!(
            "{{\"name\":{},\"paths\":{},\"assume\":{},\"viol\":{},\"unsup\":{},\"forks\":{},\"steps\":{},\"maxsteps\":{},\"maxvars\":{},\"covers\":{},\"time\":{:.3},\"incomplete\":{},",
            esc(&units[i].name),
            u.paths,
            u.assume,
            u.viol,
            u.unsup,
            u.forks,
            u.steps,
            u.maxsteps,
            u.maxvars,
            u.covers,
            u.time,
            u.incomplete
        ));
        let v: Vec<String> = u.viols.iter().map(|(k, m, b)| format!("{{\"kind\":{},\"msg\":{},\"input\":\"{}\"}}", esc(k), esc(m), hex(b))).collect();
        j.push_str(&format!("\"violations\":[{}],", v.join(",")));
        let v: Vec<String> = u.unsups.iter().map(|(m, b)| format!("{{\"msg\":{},\"input\":\"{}\"}}", esc(m), hex(b))).collect();
        j.push_str(&format!("\"unsupported\":[{}],", v.join(",")));
        let v: Vec<String> = u.samples.iter().map(|(b, h, t)| format!("[\"{}\",\"{:016x}\",{}]", hex(b), h, esc(t))).collect();
        j.push_str(&format!("\"samples\":[{}]}}", v.join(",")));
    }
    j.push_str("\n]}\n");
    std::fs::write(&out, j).unwrap();
    if stuck > 0 {
        std::process::exit(0);
    }
}
