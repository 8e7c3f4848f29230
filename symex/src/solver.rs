//! SMT-LIB2 over a pipe to z3, with slicing done by the caller and a result cache.
use crate::expr::*;
use std::fmt::Write as _;
use std::io::{BufRead, BufReader, Write};
use std::process::{Child, ChildStdin, ChildStdout, Command, Stdio};
use std::time::Instant;

pub enum Sat {
    Sat(Vec<(u32, u64)>),
    Unsat,
    Unknown,
}

pub struct Solver {
    cmd: Vec<String>,
    proc: Option<(Child, ChildStdin, BufReader<ChildStdout>)>,
    emitted: FxSet<E>,
    cache: FxMap<Vec<E>, Option<Vec<(u32, u64)>>>,
    pub queries: u64,
    pub cache_hits: u64,
    pub sat: u64,
    pub unsat: u64,
    pub unknown: u64,
    pub time: f64,
    pub max_time: f64,
    pub hard: u64,
    inc_ms: u64,
    timeout_ms: u64,
}

impl Solver {
    pub fn new(cmd: Vec<String>, timeout_ms: u64) -> Self {
        Solver {
            cmd,
            proc: None,
            emitted: FxSet::default(),
            cache: FxMap::default(),
            queries: 0,
            cache_hits: 0,
            sat: 0,
            unsat: 0,
            unknown: 0,
            time: 0.0,
            max_time: 0.0,
            hard: 0,
            inc_ms: timeout_ms.min(3000),
            timeout_ms,
        }
    }
    fn start(&mut self) {
        let mut c = Command::new(&self.cmd[0])
            .args(&self.cmd[1..])
            .stdin(Stdio::piped())
            .stdout(Stdio::piped())
            .stderr(Stdio::null())
            .spawn()
            .expect("cannot start the SMT solver");
        let mut i = c.stdin.take().unwrap();
        let o = BufReader::new(c.stdout.take().unwrap());
        let z3 = self.cmd[0].contains("z3");
        let mut s = String::new();
        if z3 {
            let _ = writeln!(s, "(set-option :timeout {})", self.inc_ms);
        } else {
            let _ = writeln!(s, "(set-option :tlimit-per {})", self.inc_ms);
            let _ = writeln!(s, "(set-option :incremental true)");
        }
        let _ = writeln!(s, "(set-option :produce-models true)");
        let _ = writeln!(s, "(set-logic QF_BV)");
        i.write_all(s.as_bytes()).unwrap();
        self.emitted.clear();
        self.proc = Some((c, i, o));
    }
    /// After fork(): the child must not share the parent's solver.
    pub fn forget_process(&mut self) {
        if let Some(p) = self.proc.take() {
            std::mem::forget(p);
        }
        self.emitted.clear();
    }
    pub fn reset_counters(&mut self) {
        self.queries = 0;
        self.cache_hits = 0;
        self.sat = 0;
        self.unsat = 0;
        self.unknown = 0;
        self.hard = 0;
        self.time = 0.0;
        self.max_time = 0.0;
    }
    pub fn stop(&mut self) {
        if let Some((mut c, i, _o)) = self.proc.take() {
            drop(i);
            let _ = c.kill();
            let _ = c.wait();
        }
    }
    fn define(&mut self, ctx: &Ctx, e: E, out: &mut String) {
        // iterative post-order
        let mut stack = vec![(e, false)];
        while let Some((x, done)) = stack.pop() {
            if self.emitted.contains(&x) {
                continue;
            }
            let n = ctx.n(x);
            let w = ctx.w(x);
            if let Node::Const(_) = n {
                continue;
            }
            if !done {
                stack.push((x, true));
                match n {
                    Node::Bin(_, a, b) | Node::Concat(a, b) => {
                        stack.push((a, false));
                        stack.push((b, false));
                    }
                    Node::Ite(a, b, c) => {
                        stack.push((a, false));
                        stack.push((b, false));
                        stack.push((c, false));
                    }
                    Node::Extract(a, _) | Node::Zext(a) | Node::Sext(a) => stack.push((a, false)),
                    _ => {}
                }
                continue;
            }
            self.emitted.insert(x);
            let r = |e: E| -> String {
                match ctx.n(e) {
                    Node::Const(v) => format!("(_ bv{} {})", v, ctx.w(e)),
                    Node::Var(v) => format!("v{}_{}", v, ctx.w(e)),
                    _ => format!("n{}", e),
                }
            };
            match n {
                Node::Var(v) => {
                    let _ = writeln!(out, "(declare-fun v{}_{} () (_ BitVec {}))", v, w, w);
                }
                Node::Bin(op, a, b) => {
                    let (name, cmp) = match op {
                        Op::Add => ("bvadd", false),
                        Op::Sub => ("bvsub", false),
                        Op::Mul => ("bvmul", false),
                        Op::UDiv => ("bvudiv", false),
                        Op::URem => ("bvurem", false),
                        Op::SDiv => ("bvsdiv", false),
                        Op::SRem => ("bvsrem", false),
                        Op::Shl => ("bvshl", false),
                        Op::LShr => ("bvlshr", false),
                        Op::AShr => ("bvashr", false),
                        Op::And => ("bvand", false),
                        Op::Or => ("bvor", false),
                        Op::Xor => ("bvxor", false),
                        Op::Eq => ("=", true),
                        Op::Ult => ("bvult", true),
                        Op::Ule => ("bvule", true),
                        Op::Slt => ("bvslt", true),
                        Op::Sle => ("bvsle", true),
                    };
                    if cmp {
                        let _ = writeln!(
                            out,
                            "(define-fun n{} () (_ BitVec 1) (ite ({} {} {}) #b1 #b0))",
                            x, name, r(a), r(b)
                        );
                    } else {
                        let _ = writeln!(
                            out,
                            "(define-fun n{} () (_ BitVec {}) ({} {} {}))",
                            x, w, name, r(a), r(b)
                        );
                    }
                }
                Node::Ite(c, a, b) => {
                    let _ = writeln!(
                        out,
                        "(define-fun n{} () (_ BitVec {}) (ite (= {} #b1) {} {}))",
                        x, w, r(c), r(a), r(b)
                    );
                }
                Node::Extract(a, lo) => {
                    let _ = writeln!(
                        out,
                        "(define-fun n{} () (_ BitVec {}) ((_ extract {} {}) {}))",
                        x,
                        w,
                        lo as u32 + w as u32 - 1,
                        lo,
                        r(a)
                    );
                }
                Node::Concat(a, b) => {
                    let _ = writeln!(
                        out,
                        "(define-fun n{} () (_ BitVec {}) (concat {} {}))",
                        x, w, r(a), r(b)
                    );
                }
                Node::Zext(a) => {
                    let _ = writeln!(
                        out,
                        "(define-fun n{} () (_ BitVec {}) ((_ zero_extend {}) {}))",
                        x,
                        w,
                        w - ctx.w(a),
                        r(a)
                    );
                }
                Node::Sext(a) => {
                    let _ = writeln!(
                        out,
                        "(define-fun n{} () (_ BitVec {}) ((_ sign_extend {}) {}))",
                        x,
                        w,
                        w - ctx.w(a),
                        r(a)
                    );
                }
                Node::Const(_) => {}
            }
        }
    }
    pub fn vars_of(ctx: &Ctx, es: &[E]) -> Vec<(u32, u8)> {
        let mut seen: FxSet<E> = FxSet::default();
        let mut out = vec![];
        let mut st: Vec<E> = es.to_vec();
        while let Some(x) = st.pop() {
            if !seen.insert(x) {
                continue;
            }
            match ctx.n(x) {
                Node::Var(v) => out.push((v, ctx.w(x))),
                Node::Bin(_, a, b) | Node::Concat(a, b) => {
                    st.push(a);
                    st.push(b)
                }
                Node::Ite(a, b, c) => {
                    st.push(a);
                    st.push(b);
                    st.push(c)
                }
                Node::Extract(a, _) | Node::Zext(a) | Node::Sext(a) => st.push(a),
                Node::Const(_) => {}
            }
        }
        out.sort();
        out
    }
    /// Is the conjunction of the (1-bit) expressions satisfiable?
    pub fn check(&mut self, ctx: &Ctx, conj: &[E]) -> Sat {
        let mut key: Vec<E> = conj.to_vec();
        key.sort();
        key.dedup();
        key.retain(|e| ctx.as_const(*e) != Some(1));
        if key.iter().any(|e| ctx.as_const(*e) == Some(0)) {
            return Sat::Unsat;
        }
        if let Some(r) = self.cache.get(&key) {
            self.cache_hits += 1;
            return match r {
                Some(m) => Sat::Sat(m.clone()),
                None => Sat::Unsat,
            };
        }
        let t0 = Instant::now();
        let r = if crate::lin::refute(ctx, &key) {
            Sat::Unsat
        } else {
            match crate::lin::search(ctx, &key, &Self::vars_of(ctx, &key)) {
                crate::lin::Found::Model(m) => Sat::Sat(m),
                crate::lin::Found::Unsat => Sat::Unsat,
                crate::lin::Found::Unknown => self.raw_check(ctx, &key),
            }
        };
        let dt = t0.elapsed().as_secs_f64();
        self.time += dt;
        if dt > 0.1 && std::env::var("SYMEX_SLOW").is_ok() {
            eprintln!("SLOW {:.2} {} {}", dt, matches!(r, Sat::Sat(_)), key.iter().map(|e| ctx.head(*e, std::env::var("SYMEX_SLOW").unwrap().parse().unwrap_or(3))).collect::<Vec<_>>().join(" ; "));
        }
        if dt > self.max_time {
            self.max_time = dt;
        }
        self.queries += 1;
        match &r {
            Sat::Sat(m) => {
                self.sat += 1;
                self.cache.insert(key, Some(m.clone()));
            }
            Sat::Unsat => {
                self.unsat += 1;
                self.cache.insert(key, None);
            }
            Sat::Unknown => self.unknown += 1,
        }
        r
    }
    /// One-shot run of a single query in a fresh process (no incremental mode, full preprocessing).
    fn fresh_check(&mut self, ctx: &Ctx, conj: &[E]) -> Sat {
        let (saved, cmd) = (self.proc.take(), self.cmd.clone());
        let emitted = std::mem::take(&mut self.emitted);
        let mut out = String::new();
        if cmd[0].contains("z3") {
            let _ = writeln!(out, "(set-option :timeout {})", self.timeout_ms);
        } else {
            let _ = writeln!(out, "(set-option :tlimit-per {})", self.timeout_ms);
        }
        out.push_str("(set-option :produce-models true)\n(set-logic QF_BV)\n");
        for e in conj {
            self.define(ctx, *e, &mut out);
        }
        for e in conj {
            match ctx.n(*e) {
                Node::Var(v) => {
                    let _ = writeln!(out, "(assert (= v{}_1 #b1))", v);
                }
                _ => {
                    let _ = writeln!(out, "(assert (= n{} #b1))", e);
                }
            }
        }
        self.emitted = emitted;
        self.proc = saved;
        out.push_str("(check-sat)\n");
        let vars = Self::vars_of(ctx, conj);
        if !vars.is_empty() {
            out.push_str("(get-value (");
            for (v, w) in &vars {
                let _ = write!(out, "v{}_{} ", v, w);
            }
            out.push_str("))\n");
        }
        out.push_str("(exit)\n");
        if let Ok(p) = std::env::var("SYMEX_HARD_LOG") {
            let _ = std::fs::write(format!("{}.{}.{}.smt2", p, std::process::id(), self.queries), &out);
        }
        let mut c = match Command::new(&cmd[0])
            .args(&cmd[1..])
            .stdin(Stdio::piped())
            .stdout(Stdio::piped())
            .stderr(Stdio::null())
            .spawn()
        {
            Ok(c) => c,
            Err(_) => return Sat::Unknown,
        };
        let mut i = c.stdin.take().unwrap();
        let _ = i.write_all(out.as_bytes());
        drop(i);
        let mut txt = String::new();
        use std::io::Read;
        let _ = c.stdout.take().unwrap().read_to_string(&mut txt);
        let _ = c.wait();
        if txt.starts_with("unsat") {
            return Sat::Unsat;
        }
        if !txt.starts_with("sat") {
            return Sat::Unknown;
        }
        Sat::Sat(parse_model(&txt))
    }
    fn raw_check(&mut self, ctx: &Ctx, conj: &[E]) -> Sat {
        match self.inc_check(ctx, conj) {
            Sat::Unknown => {
                self.hard += 1;
                self.fresh_check(ctx, conj)
            }
            r => r,
        }
    }
    fn inc_check(&mut self, ctx: &Ctx, conj: &[E]) -> Sat {
        if self.emitted.len() > 200_000 {
            self.stop();
        }
        if self.proc.is_none() {
            self.start();
        }
        let mut out = String::new();
        for e in conj {
            self.define(ctx, *e, &mut out);
        }
        let vars = Self::vars_of(ctx, conj);
        out.push_str("(push 1)\n");
        for e in conj {
            match ctx.n(*e) {
                Node::Var(v) => {
                    let _ = writeln!(out, "(assert (= v{}_1 #b1))", v);
                }
                _ => {
                    let _ = writeln!(out, "(assert (= n{} #b1))", e);
                }
            }
        }
        out.push_str("(check-sat)\n");
        if let Ok(p) = std::env::var("SYMEX_SMT_LOG") {
            use std::fs::OpenOptions;
            if let Ok(mut f) = OpenOptions::new().append(true).create(true).open(p) {
                let _ = f.write_all(out.as_bytes());
            }
        }
        let (_, i, o) = self.proc.as_mut().unwrap();
        if i.write_all(out.as_bytes()).is_err() || i.flush().is_err() {
            self.stop();
            return Sat::Unknown;
        }
        let mut line = String::new();
        if o.read_line(&mut line).unwrap_or(0) == 0 {
            self.stop();
            return Sat::Unknown;
        }
        let ans = line.trim().to_string();
        let res = match ans.as_str() {
            "unsat" => Sat::Unsat,
            "sat" => {
                let mut m = vec![];
                if !vars.is_empty() {
                    let mut q = String::from("(get-value (");
                    for (v, w) in &vars {
                        let _ = write!(q, "v{}_{} ", v, w);
                    }
                    q.push_str("))\n");
                    i.write_all(q.as_bytes()).unwrap();
                    i.flush().unwrap();
                    // read balanced parens
                    let mut txt = String::new();
                    let mut depth = 0i32;
                    loop {
                        let mut l = String::new();
                        if o.read_line(&mut l).unwrap_or(0) == 0 {
                            panic!("solver died in get-value");
                        }
                        for c in l.chars() {
                            match c {
                                '(' => depth += 1,
                                ')' => depth -= 1,
                                _ => {}
                            }
                        }
                        txt.push_str(&l);
                        if depth == 0 {
                            break;
                        }
                    }
                    m = parse_model(&txt);
                }
                Sat::Sat(m)
            }
            other => {
                if other.starts_with("(error") {
                    eprintln!("solver error: {}", other);
                    self.stop();
                    return Sat::Unknown;
                }
                Sat::Unknown
            }
        };
        let (_, i, _) = self.proc.as_mut().unwrap();
        let _ = i.write_all(b"(pop 1)\n");
        res
    }
}

fn parse_model(txt: &str) -> Vec<(u32, u64)> {
    let mut m = vec![];
    for part in txt.split("(v").skip(1) {
        let mut it = part.split_whitespace();
        let name = it.next().unwrap();
        let val = it.next().unwrap().trim_end_matches(')');
        let id: u32 = name.split('_').next().unwrap().parse().unwrap();
        let v = if let Some(h) = val.strip_prefix("#x") {
            u64::from_str_radix(h, 16).unwrap()
        } else if let Some(b) = val.strip_prefix("#b") {
            u64::from_str_radix(b, 2).unwrap()
        } else {
            panic!("cannot parse model value {}", val)
        };
        m.push((id, v));
    }
    m
}
