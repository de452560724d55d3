//! SMT-LIB pipe to a solver process.
use crate::expr::*;
use std::io::{BufRead, BufReader, Write};
use std::process::{Child, ChildStdin, ChildStdout, Command, Stdio};
use std::time::Instant;

pub enum Ans { Sat(Vec<(u32, u128)>), Unsat, Unknown(String) }

pub struct Solver {
    cmd: Vec<String>,
    proc: Option<(Child, ChildStdin, BufReader<ChildStdout>)>,
    defined: Vec<bool>,
    ndef: usize,
    pub queries: u64, pub sat: u64, pub unsat: u64, pub time: f64, pub max_time: f64, pub fallback: u64,
    pub timeout_ms: u64, pub first_ms: u64,
    pub dump: Option<String>, pub inline_defs: bool, pub narrow: u16,
    pub ints: bool, iproc: Option<(Child, ChildStdin, BufReader<ChildStdout>)>,  pub iq: u64,
}

fn name(d: &Dag, e: Ex, out: &mut String) {
    use std::fmt::Write;
    let k = d.key(e);
    match k.op {
        Op::Const => cst(k.k, k.w, out),
        Op::Var => out.push_str(&d.var_names[k.k as usize].0),
        _ => { let _ = write!(out, "n{}", e); }
    }
}
fn cst(v: u128, w: u16, out: &mut String) {
    use std::fmt::Write;
    if w == 1 { out.push_str(if v != 0 { "true" } else { "false" }); }
    else { let _ = write!(out, "(_ bv{} {})", v, w); }
}
fn sort(w: u16) -> String { if w == 1 { "Bool".into() } else { format!("(_ BitVec {})", w) } }

fn body(d: &Dag, e: Ex) -> String {
    let k = d.key(e);
    let n = |x: Ex| { let mut s = String::new(); name(d, x, &mut s); s };
    let (a, b, c) = (k.a, k.b, k.c);
    let aw = d.w(a);
    let bin = |o: &str| format!("({} {} {})", o, n(a), n(b));
    let bv1 = |x: Ex| if d.w(x) == 1 { format!("(ite {} #b1 #b0)", n(x)) } else { n(x) };
    let fp = |x: Ex| format!("((_ to_fp 11 53) {})", n(x));
    match k.op {
        Op::Not => if k.w == 1 { format!("(not {})", n(a)) } else { format!("(bvnot {})", n(a)) },
        Op::Add => bin("bvadd"), Op::Sub => bin("bvsub"), Op::Mul => bin("bvmul"),
        Op::UDiv => bin("bvudiv"), Op::SDiv => bin("bvsdiv"), Op::URem => bin("bvurem"), Op::SRem => bin("bvsrem"),
        Op::And => bin(if k.w == 1 { "and" } else { "bvand" }),
        Op::Or => bin(if k.w == 1 { "or" } else { "bvor" }),
        Op::Xor => bin(if k.w == 1 { "xor" } else { "bvxor" }),
        Op::Shl => bin("bvshl"), Op::LShr => bin("bvlshr"), Op::AShr => bin("bvashr"),
        Op::Eq => bin("="),
        Op::Ult => if aw == 1 { format!("(and (not {}) {})", n(a), n(b)) } else { bin("bvult") },
        Op::Ule => if aw == 1 { format!("(or (not {}) {})", n(a), n(b)) } else { bin("bvule") },
        Op::Slt => if aw == 1 { format!("(and {} (not {}))", n(a), n(b)) } else { bin("bvslt") },
        Op::Sle => if aw == 1 { format!("(or {} (not {}))", n(a), n(b)) } else { bin("bvsle") },
        Op::Ite => format!("(ite {} {} {})", n(a), n(b), n(c)),
        Op::ZExt => if aw == 1 { format!("(ite {} (_ bv1 {}) (_ bv0 {}))", n(a), k.w, k.w) } else { format!("((_ zero_extend {}) {})", k.w - aw, n(a)) },
        Op::SExt => if aw == 1 { format!("(ite {} (bvnot (_ bv0 {})) (_ bv0 {}))", n(a), k.w, k.w) } else { format!("((_ sign_extend {}) {})", k.w - aw, n(a)) },
        Op::Extract => { let s = format!("((_ extract {} {}) {})", k.k + k.w as u128 - 1, k.k, n(a)); if k.w == 1 { format!("(= {} #b1)", s) } else { s } }
        Op::Concat => format!("(concat {} {})", bv1(a), bv1(b)),
        Op::FAdd => format!("(fp.to_ieee_bv (fp.add RNE {} {}))", fp(a), fp(b)),
        Op::FSub => format!("(fp.to_ieee_bv (fp.sub RNE {} {}))", fp(a), fp(b)),
        Op::FMul => format!("(fp.to_ieee_bv (fp.mul RNE {} {}))", fp(a), fp(b)),
        Op::FDiv => format!("(fp.to_ieee_bv (fp.div RNE {} {}))", fp(a), fp(b)),
        Op::FLt => format!("(fp.lt {} {})", fp(a), fp(b)),
        Op::FLe => format!("(fp.leq {} {})", fp(a), fp(b)),
        Op::FEq => format!("(fp.eq {} {})", fp(a), fp(b)),
        Op::FIsNan => format!("(fp.isNaN {})", fp(a)),
        Op::UiToF => format!("(fp.to_ieee_bv ((_ to_fp_unsigned 11 53) RNE {}))", n(a)),
        Op::SiToF => format!("(fp.to_ieee_bv ((_ to_fp 11 53) RNE {}))", n(a)),
        Op::FToUiSat => {
            let m = mask(k.w) as f64; // 2^w after rounding
            let lim = format!("((_ to_fp 11 53) (_ bv{} 64))", (2f64.powi(k.w as i32)).to_bits()); let _ = m;
            format!("(ite (or (fp.isNaN {x}) (fp.leq {x} ((_ to_fp 11 53) (_ bv0 64)))) (_ bv0 {w}) (ite (fp.geq {x} {lim}) (bvnot (_ bv0 {w})) ((_ fp.to_ubv {w}) RTZ {x})))", x = fp(a), w = k.w, lim = lim)
        }
        Op::FToSiSat => {
            let lim = |v: f64| format!("((_ to_fp 11 53) (_ bv{} 64))", v.to_bits());
            let p = 2f64.powi(k.w as i32 - 1);
            format!("(ite (fp.isNaN {x}) (_ bv0 {w}) (ite (fp.geq {x} {hi}) (_ bv{mx} {w}) (ite (fp.lt {x} {lo}) (_ bv{mn} {w}) ((_ fp.to_sbv {w}) RTZ {x}))))", x = fp(a), w = k.w, hi = lim(p), lo = lim(-p), mx = mask(k.w - 1), mn = 1u128 << (k.w - 1))
        }
        Op::FTo32 => format!("(fp.to_ieee_bv ((_ to_fp 8 24) RNE {}))", fp(a)),
        Op::FFrom32 => format!("(fp.to_ieee_bv ((_ to_fp 11 53) RNE ((_ to_fp 8 24) {})))", n(a)),
        Op::FRound => { let m = ["RTN", "RTP", "RTZ", "RNA", "RNE"][k.k as usize]; format!("(fp.to_ieee_bv (fp.roundToIntegral {} {}))", m, fp(a)) }
        Op::Const | Op::Var => unreachable!(),
    }
}

impl Solver {
    pub fn new(cmd: &[&str], first_ms: u64, timeout_ms: u64) -> Solver {
        Solver { cmd: cmd.iter().map(|s| s.to_string()).collect(), proc: None, defined: vec![], ndef: 0, queries: 0, sat: 0, unsat: 0, time: 0.0, max_time: 0.0, fallback: 0, timeout_ms, first_ms, dump: None, inline_defs: false, narrow: 0, ints: false, iproc: None, iq: 0 }
    }
    fn start(&mut self) {
        if let Some((mut c, i, _)) = self.proc.take() { drop(i); let _ = c.kill(); let _ = c.wait(); }
        let mut c = Command::new(&self.cmd[0]).args(&self.cmd[1..]).stdin(Stdio::piped()).stdout(Stdio::piped()).stderr(Stdio::null()).spawn().expect("cannot start solver");
        let mut i = c.stdin.take().unwrap();
        let o = BufReader::with_capacity(1 << 16, c.stdout.take().unwrap());
        let _ = i.write_all(format!("(set-option :print-success false)\n(set-option :produce-models true)\n(set-option :timeout {})\n", self.first_ms).as_bytes());
        self.proc = Some((c, i, o));
        self.defined.clear(); self.ndef = 0;
    }
    fn topo(&self, d: &Dag, roots: &[Ex], defined: &mut Vec<bool>, out: &mut String) -> usize {
        use std::fmt::Write;
        if defined.len() < d.nodes.len() { defined.resize(d.nodes.len() + 4096, false); }
        let mut st: Vec<(Ex, bool)> = roots.iter().rev().map(|&e| (e, false)).collect();
        let mut n = 0;
        while let Some((e, done)) = st.pop() {
            if defined[e as usize] { continue; }
            let k = d.key(e);
            if k.op == Op::Const { continue; }
            if k.op == Op::Var && self.inline_defs && d.abs_def.contains_key(&(k.k as u32)) {
                let x = d.abs_def[&(k.k as u32)].1;
                if done {
                    let _ = write!(out, "(define-fun {} () {} ", d.var_names[k.k as usize].0, sort(k.w)); name(d, x, out); out.push_str(")\n");
                    defined[e as usize] = true; n += 1;
                } else { st.push((e, true)); if !defined[x as usize] { st.push((x, false)); } }
                continue;
            }
            let nb = if k.w > 32 { 2 * self.narrow } else { self.narrow };
            if k.op == Op::Var && nb > 0 && k.w > nb {
                let v = &d.var_names[k.k as usize].0;
                let _ = writeln!(out, "(declare-const {}! (_ BitVec {}))\n(define-fun {} () {} ((_ zero_extend {}) {}!))", v, nb, v, sort(k.w), k.w - nb, v);
                defined[e as usize] = true; n += 1; continue;
            }
            if k.op == Op::Var {
                let _ = writeln!(out, "(declare-const {} {})", d.var_names[k.k as usize].0, sort(k.w));
                defined[e as usize] = true; n += 1; continue;
            }
            if done {
                let _ = writeln!(out, "(define-fun n{} () {} {})", e, sort(k.w), body(d, e));
                defined[e as usize] = true; n += 1;
            } else {
                st.push((e, true));
                let (c, m) = d.children(e);
                for i in 0..m { if !defined[c[i] as usize] { st.push((c[i], false)); } }
            }
        }
        n
    }
    /// The same query over the integers, when every operation in it is known
    /// not to wrap around.  None: not expressible, or no answer.
    fn check_ints(&mut self, d: &Dag, asserts: &[Ex], vars: &[u32]) -> Option<Ans> {
        if self.iproc.is_none() {
            if let Some((mut c, i, _)) = self.iproc.take() { drop(i); let _ = c.kill(); let _ = c.wait(); }
            let mut c = Command::new("z3-new").args(["-in", "-smt2"]).stdin(Stdio::piped()).stdout(Stdio::piped()).stderr(Stdio::null()).spawn().ok()?;
            let mut i = c.stdin.take().unwrap();
            let o = BufReader::with_capacity(1 << 16, c.stdout.take().unwrap());
            i.write_all(b"(set-option :print-success false)\n(set-option :produce-models true)\n(set-option :timeout 2000)\n").ok()?;
            self.iproc = Some((c, i, o));
        }
        // self-contained: constraints on terms of other queries would only get in the way
        let mut s = String::from("(push 1)\n");
        let mut memo = Default::default();
        let mut names = vec![];
        let mut ok = true;
        for &a in asserts { match int_term(d, a, B, false, &mut memo, &mut s) { Some(n) => names.push(n), None => { ok = false; break; } } }
        if !ok { return None; }
        for n in &names { s.push_str("(assert "); s.push_str(n); s.push_str(")\n"); }
        s.push_str("(check-sat)\n");
        let (_, i, o) = self.iproc.as_mut().unwrap();
        if i.write_all(s.as_bytes()).is_err() || i.flush().is_err() { self.iproc = None; return None; }
        let mut l = String::new();
        if o.read_line(&mut l).unwrap_or(0) == 0 { self.iproc = None; return None; }
        let r = match l.trim() {
            "unsat" => Some(Ans::Unsat),
            "sat" => if vars.is_empty() { Some(Ans::Sat(vec![])) } else {
                let mut q = String::from("(get-value (");
                for &v in vars { q.push('I'); q.push_str(&d.var_names[v as usize].0); q.push(' '); }
                q.push_str("))\n");
                let _ = i.write_all(q.as_bytes()); let _ = i.flush();
                match read_sexp(o) { Some(t) => parse_ints(&t, vars, d), None => { self.iproc = None; return None; } }
            },
            x => { if std::env::var("SXDBG").is_ok() { eprintln!("ints: {}", x); } None }
        };
        if let Some((_, i, _)) = self.iproc.as_mut() { let _ = i.write_all(b"(pop 1)\n"); }
        r
    }
    /// Satisfiability of a conjunction; `vars` are the variables to report.
    pub fn check(&mut self, d: &Dag, asserts: &[Ex], vars: &[u32]) -> Ans {
        let t0 = Instant::now();
        if self.ints {
            if let Some(r) = self.check_ints(d, asserts, vars) {
                self.queries += 1; self.iq += 1;
                let dt = t0.elapsed().as_secs_f64();
                self.time += dt; if dt > self.max_time { self.max_time = dt; }
                match r { Ans::Sat(_) => self.sat += 1, Ans::Unsat => self.unsat += 1, _ => {} }
                return r;
            }
        }
        if self.proc.is_none() || self.ndef > 400_000 { self.start(); }
        let mut s = String::new();
        let mut def = std::mem::take(&mut self.defined);
        self.ndef += self.topo(d, asserts, &mut def, &mut s);
        self.defined = def;
        s.push_str("(push 1)\n");
        for &a in asserts { s.push_str("(assert "); name(d, a, &mut s); s.push_str(")\n"); }
        s.push_str("(check-sat)\n");
        self.queries += 1;
        let r = self.run_pipe(d, &s, vars);
        let r = match r {
            Ans::Unknown(_) => { self.fallback += 1; self.start(); self.fresh(d, asserts, vars) }
            r => r,
        };
        let dt = t0.elapsed().as_secs_f64();
        self.time += dt; if dt > self.max_time { self.max_time = dt; }
        match r { Ans::Sat(_) => self.sat += 1, Ans::Unsat => self.unsat += 1, _ => {} }
        r
    }
    /// One self-contained query with its own time limit.
    /// Abstract terms are replaced by their definitions; with bits > 0 every
    /// input is restricted to that many bits.
    pub fn exact(&mut self, d: &Dag, asserts: &[Ex], vars: &[u32], ms: u64, bits: u16) -> Ans {
        let t0 = Instant::now();
        self.inline_defs = true; self.narrow = bits;
        let old = std::mem::replace(&mut self.timeout_ms, ms);
        self.queries += 1;
        let r = self.fresh(d, asserts, vars);
        self.inline_defs = false; self.narrow = 0;
        self.timeout_ms = old;
        let dt = t0.elapsed().as_secs_f64();
        self.time += dt; if dt > self.max_time { self.max_time = dt; }
        match r { Ans::Sat(_) => self.sat += 1, Ans::Unsat => self.unsat += 1, _ => {} }
        r
    }
    fn run_pipe(&mut self, d: &Dag, s: &str, vars: &[u32]) -> Ans {
        let (_, i, o) = self.proc.as_mut().unwrap();
        if i.write_all(s.as_bytes()).is_err() || i.flush().is_err() { return Ans::Unknown("pipe".into()); }
        let mut l = String::new();
        if o.read_line(&mut l).unwrap_or(0) == 0 { return Ans::Unknown("eof".into()); }
        let ans = match l.trim() {
            "unsat" => Ans::Unsat,
            "sat" => {
                if vars.is_empty() { Ans::Sat(vec![]) } else {
                    let mut q = String::from("(get-value (");
                    for &v in vars { q.push_str(&d.var_names[v as usize].0); q.push(' '); }
                    q.push_str("))\n");
                    let _ = i.write_all(q.as_bytes()); let _ = i.flush();
                    match read_sexp(o) { Some(t) => parse_model(&t, vars, d), None => Ans::Unknown("eof".into()) }
                }
            }
            x => Ans::Unknown(x.to_string()),
        };
        if let Ans::Unknown(_) = ans { return ans; }
        let _ = i.write_all(b"(pop 1)\n");
        ans
    }
    /// Self-contained query tried on several engines.
    fn fresh(&mut self, d: &Dag, asserts: &[Ex], vars: &[u32]) -> Ans {
        let mut s = String::new();
        let mut def = vec![];
        self.topo(d, asserts, &mut def, &mut s);
        for &a in asserts { s.push_str("(assert "); name(d, a, &mut s); s.push_str(")\n"); }
        let uses_fp = s.contains("fp.");
        let logic = if uses_fp { "QF_BVFP" } else { "QF_BV" };
        let getv = { let mut q = String::from("(get-value ("); for &v in vars { q.push_str(&d.var_names[v as usize].0); q.push(' '); } q.push_str("))\n"); q };
        if let Some(p) = &self.dump { let _ = std::fs::write(format!("{}/q{}_{}.smt2", p, std::process::id(), self.fallback), format!("(set-logic {})\n{}(check-sat)\n", logic, s)); }
        let secs = (self.timeout_ms / 1000).max(1);
        let mut engines: Vec<(Vec<String>, String)> = vec![
            (vec!["z3-new".into(), "-in".into(), format!("-T:{}", secs)], format!("(set-logic {})\n(set-option :produce-models true)\n{}(check-sat)\n", logic, s)),
        ];
        if !s.contains("fp.to_ieee_bv") && self.timeout_ms > 1000 {
            engines.push((vec!["cvc5".into(), "--lang=smt2".into(), "--produce-models".into(), format!("--tlimit={}", self.timeout_ms), "-q".into()], format!("(set-logic {})\n{}(check-sat)\n", logic, s)));
            engines.push((vec!["cvc5".into(), "--lang=smt2".into(), "--produce-models".into(), "--solve-bv-as-int=sum".into(), format!("--tlimit={}", self.timeout_ms), "-q".into()], format!("(set-logic ALL)\n{}(check-sat)\n", s)));
        }
        if self.inline_defs && self.narrow == 0 {
            // the same over the integers, where nothing wraps around
            let mut memo = Default::default(); let mut q = String::new(); let mut ns = vec![];
            for &a in asserts { match int_term(d, a, B, true, &mut memo, &mut q) { Some(n) => ns.push(n), None => { ns.clear(); break; } } }
            if !ns.is_empty() {
                for n in &ns { q.push_str("(assert "); q.push_str(n); q.push_str(")\n"); }
                if let Some(p) = &self.dump { let _ = std::fs::write(format!("{}/n{}_{}.smt2", p, std::process::id(), self.queries), format!("{}(check-sat)\n", q)); }
                if self.timeout_ms <= 5000 { engines.clear(); }
                engines.push((vec!["z3-new".into(), "-in".into(), format!("-T:{}", secs)], format!("(set-option :produce-models true)\n{}(check-sat)\n;ints\n", q)));
                engines.push((vec!["cvc5".into(), "--lang=smt2".into(), "--produce-models".into(), format!("--tlimit={}", self.timeout_ms), "-q".into()], format!("(set-logic QF_NIA)\n{}(check-sat)\n;ints\n", q)));
            }
        }
        // run concurrently, first answer wins
        let (tx, rx) = std::sync::mpsc::channel();
        let mut kids = vec![];
        for (cmd, script) in engines {
            let mut c = match Command::new(&cmd[0]).args(&cmd[1..]).stdin(Stdio::piped()).stdout(Stdio::piped()).stderr(Stdio::null()).spawn() { Ok(c) => c, Err(_) => continue };
            let mut i = c.stdin.take().unwrap(); let o = c.stdout.take().unwrap();
            let ints = script.ends_with(";ints\n");
            let tx = tx.clone(); let getv = getv.clone(); 
            let geti = if ints { let mut q = String::from("(get-value ("); for &v in vars { let n = format!("I{}", d.var_names[v as usize].0); if script.contains(&format!("(declare-const {} ", n)) { q.push_str(&n); q.push(' '); } } q.push_str("))\n"); q } else { String::new() };
            let novars = vars.is_empty();
            kids.push(c);
            std::thread::spawn(move || {
                let _ = i.write_all(script.as_bytes()); let _ = i.flush();
                let mut o = BufReader::new(o); let mut l = String::new();
                let _ = o.read_line(&mut l);
                match l.trim() {
                    "unsat" => { let _ = tx.send(Some((false, String::new()))); }
                    "sat" if ints => { let _ = i.write_all(geti.as_bytes()); let _ = i.flush(); let _ = tx.send(read_sexp(&mut o).map(|t| (true, format!(";ints{}", t)))); }
                    "sat" => { if novars { let _ = tx.send(Some((true, String::new()))); } else { let _ = i.write_all(getv.as_bytes()); let _ = i.flush(); let _ = tx.send(read_sexp(&mut o).map(|t| (true, t))); } }
                    _ => { let _ = tx.send(None); }
                }
            });
        }
        drop(tx);
        let mut ans = Ans::Unknown("timeout".into());
        while let Ok(r) = rx.recv() {
            match r { None => continue, Some((false, _)) => { ans = Ans::Unsat; break; } Some((true, t)) => { ans = if vars.is_empty() { Ans::Sat(vec![]) } else if let Some(t) = t.strip_prefix(";ints") { match parse_ints(t, vars, d) { Some(a) => a, None => continue } } else { parse_model(&t, vars, d) }; break; } }
        }
        for mut k in kids { let _ = k.kill(); let _ = k.wait(); }
        ans
    }
}
impl Drop for Solver { fn drop(&mut self) { if let Some((mut c, i, _)) = self.iproc.take() { drop(i); let _ = c.kill(); let _ = c.wait(); } if let Some((mut c, i, _)) = self.proc.take() { drop(i); let _ = c.kill(); let _ = c.wait(); } } }

fn read_sexp<R: BufRead>(o: &mut R) -> Option<String> {
    let mut t = String::new(); let mut depth = 0i32;
    loop {
        let mut l = String::new();
        if o.read_line(&mut l).ok()? == 0 { return None; }
        for c in l.chars() { if c == '(' { depth += 1 } else if c == ')' { depth -= 1 } }
        t.push_str(&l);
        if depth <= 0 && !t.trim().is_empty() { return Some(t); }
    }
}
fn parse_model(t: &str, vars: &[u32], d: &Dag) -> Ans {
    if t.contains("(error") { return Ans::Unknown(t.to_string()); }
    let toks: Vec<String> = t.replace('(', " ( ").replace(')', " ) ").split_whitespace().map(|s| s.to_string()).collect();
    let mut out = vec![];
    let mut i = 0;
    let byname: std::collections::HashMap<&str, u32> = vars.iter().map(|&v| (d.var_names[v as usize].0.as_str(), v)).collect();
    while i < toks.len() {
        if let Some(&v) = byname.get(toks[i].as_str()) {
            let x = &toks[i + 1];
            let val = if x == "true" { 1 } else if x == "false" { 0 }
                else if let Some(h) = x.strip_prefix("#x") { u128::from_str_radix(h, 16).unwrap() }
                else if let Some(h) = x.strip_prefix("#b") { u128::from_str_radix(h, 2).unwrap() }
                else if x == "(" && toks[i + 2] == "_" { toks[i + 3].trim_start_matches("bv").parse().unwrap() }
                else { return Ans::Unknown(t.to_string()) };
            out.push((v, val));
        }
        i += 1;
    }
    Ans::Sat(out)
}

const U: u8 = 0; const S: u8 = 1; const B: u8 = 2;
fn lit(v: i128) -> String { if v < 0 { format!("(- {})", (v as i128).unsigned_abs()) } else { format!("{}", v) } }
fn ulit(v: u128) -> String { format!("{}", v) }
/// Integer value (unsigned, signed) or truth value of a node, as a defined name.
fn int_term(d: &Dag, e: Ex, m: u8, nia: bool, memo: &mut FxMap<(Ex, u8), Option<()>>, out: &mut String) -> Option<String> {
    use std::fmt::Write;
    let k = d.key(e);
    let n = &d.nodes[e as usize];
    if k.op == Op::Const { return Some(match m { B => (if k.k != 0 { "true" } else { "false" }).to_string(), U => ulit(k.k), _ => lit(sext(k.k, k.w)) }); }
    // a value that is not negative reads the same both ways
    let m = if m == S && n.slo >= 0 && k.w > 1 && !(k.op == Op::Var && d.abs_def.contains_key(&(k.k as u32))) { U } else { m };
    let nm = if k.op == Op::Var && k.w > 1 && (m == U) != d.abs_def.contains_key(&(k.k as u32)) { format!("I{}", d.var_names[k.k as usize].0) } else if k.op == Op::Var && m == B { format!("B{}", d.var_names[k.k as usize].0) } else { format!("t{}_{}", e, m) };
    match memo.get(&(e, m)) { Some(Some(())) => return Some(nm), Some(None) => return None, None => {} }
    let two = |w: u16| if w >= 128 { "340282366920938463463374607431768211456".to_string() } else { ulit(1u128 << w) };
    let aw = d.w(k.a);
    let mut t = |x: Ex, m: u8, out: &mut String| int_term(d, x, m, nia, memo, out);
    let r: Option<String> = (|| {
        if k.op == Op::Var {
            let vn = format!("I{}", d.var_names[k.k as usize].0);
            if k.w == 1 {
                if m != B { return None; }
                let _ = writeln!(out, "(declare-const {v} Int)\n(assert (and (<= 0 {v}) (<= {v} 1)))", v = vn);
                return Some(format!("(= {} 1)", vn));
            }
            let ab = d.abs_def.contains_key(&(k.k as u32));
            if ab && nia && m == S { return t(d.abs_def[&(k.k as u32)].1, S, out); }
            if (m == U) != ab {
                let (lo, hi) = if ab { (lit(n.slo), lit(n.shi)) } else { (ulit(n.ulo), ulit(n.uhi)) };
                let _ = writeln!(out, "(declare-const {v} Int)\n(assert (and (<= {lo} {v}) (<= {v} {hi})))", v = vn, lo = lo, hi = hi);
                return Some(String::new());
            }
            // the other reading
            return if ab { if n.slo >= 0 { let x = t(e, S, out)?; Some(x) } else { let x = t(e, S, out)?; Some(format!("(ite (< {x} 0) (+ {x} {p}) {x})", x = x, p = two(k.w))) } }
                else { let x = t(e, U, out)?; Some(format!("(ite (>= {x} {h}) (- {x} {p}) {x})", x = x, h = two(k.w - 1), p = two(k.w))) };
        }
        if m == B {
            return Some(match k.op {
                Op::Not => format!("(not {})", t(k.a, B, out)?),
                Op::And | Op::Or | Op::Xor => format!("({} {} {})", match k.op { Op::And => "and", Op::Or => "or", _ => "xor" }, t(k.a, B, out)?, t(k.b, B, out)?),
                Op::Ite => format!("(ite {} {} {})", t(k.a, B, out)?, t(k.b, B, out)?, t(k.c, B, out)?),
                Op::Eq if aw == 1 => format!("(= {} {})", t(k.a, B, out)?, t(k.b, B, out)?),
                Op::Eq => { let u = d.nodes[k.a as usize].slo >= 0 && d.nodes[k.b as usize].slo >= 0; let q = if u { U } else { S };
                    match (t(k.a, q, out), t(k.b, q, out)) { (Some(x), Some(y)) => format!("(= {} {})", x, y), _ => { let q = U + S - q; format!("(= {} {})", t(k.a, q, out)?, t(k.b, q, out)?) } } }
                Op::Ult | Op::Ule if aw > 1 => format!("({} {} {})", if k.op == Op::Ult { "<" } else { "<=" }, t(k.a, U, out)?, t(k.b, U, out)?),
                Op::Slt | Op::Sle if aw > 1 => format!("({} {} {})", if k.op == Op::Slt { "<" } else { "<=" }, t(k.a, S, out)?, t(k.b, S, out)?),
                _ => return None,
            });
        }
        if k.w == 1 { return None; }
        // direct readings, unsigned or signed
        let op = |o: Op| match o { Op::Add => "+", Op::Sub => "-", _ => "*" };
        let cst = |x: Ex| d.as_const(x).is_some();
        let direct: Option<(u8, String)> = match k.op {
            Op::Add | Op::Sub | Op::Mul => {
                if k.op == Op::Mul && !nia && !cst(k.a) && !cst(k.b) { None }
                else if m == U && d.no_uoverflow(k.op, k.a, k.b) { Some((U, format!("({} {} {})", op(k.op), t(k.a, U, out)?, t(k.b, U, out)?))) }
                else if d.no_soverflow(k.op, k.a, k.b) { Some((S, format!("({} {} {})", op(k.op), t(k.a, S, out)?, t(k.b, S, out)?))) }
                else if d.no_uoverflow(k.op, k.a, k.b) { Some((U, format!("({} {} {})", op(k.op), t(k.a, U, out)?, t(k.b, U, out)?))) }
                else if k.op != Op::Mul {
                    // wraps at most once
                    let x = format!("({} {} {})", op(k.op), t(k.a, U, out)?, t(k.b, U, out)?);
                    let _ = writeln!(out, "(define-fun y{}_{} () Int {})", e, m, x);
                    let x = format!("y{}_{}", e, m);
                    Some((U, if k.op == Op::Add { format!("(ite (>= {x} {p}) (- {x} {p}) {x})", x = x, p = two(k.w)) } else { format!("(ite (< {x} 0) (+ {x} {p}) {x})", x = x, p = two(k.w)) }))
                }
                else { None }
            }
            Op::ZExt => if aw == 1 { Some((U, format!("(ite {} 1 0)", t(k.a, B, out)?))) } else { Some((U, t(k.a, U, out)?)) },
            Op::SExt => if aw == 1 { Some((S, format!("(ite {} (- 1) 0)", t(k.a, B, out)?))) } else { Some((S, t(k.a, S, out)?)) },
            Op::Not => Some((S, format!("(- (- 1) {})", t(k.a, S, out)?))),
            Op::Extract if k.k == 0 => {
                let a = &d.nodes[k.a as usize];
                if a.uhi <= mask(k.w) { Some((U, t(k.a, U, out)?)) }
                else if a.slo >= -(1i128 << (k.w - 1)) && a.shi < (1i128 << (k.w - 1)) { Some((S, t(k.a, S, out)?)) }
                else {
                    // the low bits
                    let x = t(k.a, S, out)?;
                    let _ = writeln!(out, "(declare-const h{e}_{m} Int)\n(declare-const l{e}_{m} Int)\n(assert (and (= {x} (+ (* {p} h{e}_{m}) l{e}_{m})) (<= 0 l{e}_{m}) (< l{e}_{m} {p})))", e = e, m = m, x = x, p = two(k.w));
                    Some((U, format!("l{}_{}", e, m)))
                }
            }
            Op::SDiv | Op::UDiv if nia && (k.op == Op::SDiv || d.nodes[k.a as usize].slo >= 0 && d.nodes[k.b as usize].slo >= 0) => {
                let (x, y) = (t(k.a, S, out)?, t(k.b, S, out)?);
                let _ = writeln!(out, "(declare-const q{e} Int)\n(declare-const r{e} Int)\n(assert (or (= {y} 0) (and (= {x} (+ (* q{e} {y}) r{e})) (< r{e} (ite (< {y} 0) (- {y}) {y})) (< (ite (< {y} 0) {y} (- {y})) r{e}) (or (and (>= {x} 0) (>= r{e} 0)) (and (<= {x} 0) (<= r{e} 0))))))", e = e, x = x, y = y);
                Some((S, format!("q{}", e)))
            }
            Op::Concat if aw > 1 && d.w(k.b) > 1 => Some((U, format!("(+ (* {} {}) {})", t(k.a, U, out)?, two(d.w(k.b)), t(k.b, U, out)?))),
            Op::Ite => Some((m, format!("(ite {} {} {})", t(k.a, B, out)?, t(k.b, m, out)?, t(k.c, m, out)?))),
            _ => None,
        };
        let (q, x) = direct?;
        if q == m { return Some(x); }
        if n.slo >= 0 { return Some(x); } // same number either way
        let _ = writeln!(out, "(define-fun x{}_{} () Int {})", e, m, x);
        let x = format!("x{}_{}", e, m);
        Some(if m == U { format!("(ite (< {x} 0) (+ {x} {p}) {x})", x = x, p = two(k.w)) } else { format!("(ite (>= {x} {h}) (- {x} {p}) {x})", x = x, h = two(k.w - 1), p = two(k.w)) })
    })();
    match r {
        None => { if std::env::var("SXDBG").is_ok() { eprintln!("unsupported {:?} w{} aw{} m{}", k.op, k.w, aw, m); } memo.insert((e, m), None); None }
        Some(body) => {
            if !body.is_empty() { let _ = writeln!(out, "(define-fun {} () {} {})", nm, if m == B { "Bool" } else { "Int" }, body); }
            memo.insert((e, m), Some(()));
            Some(nm)
        }
    }
}
fn parse_ints(t: &str, vars: &[u32], d: &Dag) -> Option<Ans> {
    if t.contains("(error") { return None; }
    let toks: Vec<String> = t.replace('(', " ( ").replace(')', " ) ").split_whitespace().map(|s| s.to_string()).collect();
    let byname: std::collections::HashMap<String, u32> = vars.iter().map(|&v| (format!("I{}", d.var_names[v as usize].0), v)).collect();
    let mut out = vec![];
    for i in 0..toks.len() {
        if let Some(&v) = byname.get(toks[i].as_str()) {
            let w = d.var_names[v as usize].1;
            let val = if toks[i + 1] == "(" && toks[i + 2] == "-" { toks[i + 3].parse::<u128>().ok()?.wrapping_neg() } else { toks[i + 1].parse::<u128>().ok()? };
            out.push((v, val & mask(w)));
        }
    }
    if out.len() < vars.len() { return None; }
    Some(Ans::Sat(out))
}
