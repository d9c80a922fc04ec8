//! What a check found: obligations, violations, undecided points and what was analysed.
use std::collections::{BTreeMap, BTreeSet};

#[derive(Clone, Debug)]
pub struct Finding {
    pub rule: String,
    /// file, function, call site or path
    pub site: String,
    pub msg: String,
    pub detail: Vec<String>,
}

#[derive(Default)]
pub struct Report {
    pub prop: String,
    /// rule -> (obligations, discharged)
    pub rules: BTreeMap<String, (u64, u64)>,
    pub violations: Vec<Finding>,
    seen: BTreeMap<(String, String), usize>,
    pub undecided: Vec<Finding>,
    pub functions: BTreeSet<String>,
    pub roots: Vec<String>,
    pub counts: BTreeMap<String, u64>,
    pub samples: Vec<String>,
    pub time: BTreeMap<String, f64>,
}

impl Report {
    pub fn new(prop: &str) -> Report {
        Report { prop: prop.to_string(), ..Default::default() }
    }
    pub fn ok(&mut self, rule: &str) {
        let e = self.rules.entry(rule.to_string()).or_default();
        e.0 += 1;
        e.1 += 1;
    }
    pub fn count(&mut self, what: &str, n: u64) {
        *self.counts.entry(what.to_string()).or_default() += n;
    }
    pub fn violation(&mut self, rule: &str, site: &str, msg: &str, detail: Vec<String>) {
        self.rules.entry(rule.to_string()).or_default().0 += 1;
        let k = (site.to_string(), msg.to_string());
        let n = self.seen.entry(k).or_default();
        *n += 1;
        if *n > 1 || self.violations.len() > 60 {
            return;
        }
        self.violations.push(Finding { rule: rule.into(), site: site.into(), msg: msg.into(), detail });
    }
    pub fn undecided(&mut self, rule: &str, site: &str, msg: &str, detail: Vec<String>) {
        self.rules.entry(rule.to_string()).or_default().0 += 1;
        if self.undecided.len() < 60 && !self.undecided.iter().any(|x| x.site == site && x.msg == msg) {
            self.undecided.push(Finding { rule: rule.into(), site: site.into(), msg: msg.into(), detail });
        }
    }
    /// one obligation: holds, or is violated
    pub fn check(&mut self, rule: &str, holds: bool, site: &str, msg: &str) {
        if holds {
            self.ok(rule)
        } else {
            self.violation(rule, site, msg, vec![])
        }
    }
    pub fn sample(&mut self, s: String) {
        if self.samples.len() < 5 {
            self.samples.push(s);
        }
    }
    pub fn json(&self) -> String {
        let f = |v: &Vec<Finding>| -> String {
            let x: Vec<String> = v
                .iter()
                .map(|x| {
                    let n = self.seen.get(&(x.site.clone(), x.msg.clone())).cloned().unwrap_or(1);
                    format!(
                        "{{\"rule\":{},\"site\":{},\"msg\":{},\"occurrences\":{},\"detail\":[{}]}}",
                        js(&x.rule),
                        js(&x.site),
                        js(&x.msg),
                        n,
                        x.detail.iter().map(|d| js(d)).collect::<Vec<_>>().join(",")
                    )
                })
                .collect();
            format!("[{}]", x.join(",\n"))
        };
        let strs = |v: &mut dyn Iterator<Item = &String>| v.map(|s| js(s)).collect::<Vec<_>>().join(",");
        format!(
            "{{\"property\":{},\n\"rules\":{{{}}},\n\"violations\":{},\n\"undecided\":{},\n\"roots\":[{}],\n\"functions\":[{}],\n\"counts\":{{{}}},\n\"time\":{{{}}},\n\"samples\":[{}]}}\n",
            js(&self.prop),
            self.rules
                .iter()
                .map(|(k, (o, d))| format!("{}:{{\"obligations\":{},\"discharged\":{}}}", js(k), o, d))
                .collect::<Vec<_>>()
                .join(","),
            f(&self.violations),
            f(&self.undecided),
            strs(&mut self.roots.iter()),
            strs(&mut self.functions.iter()),
            self.counts.iter().map(|(k, n)| format!("{}:{}", js(k), n)).collect::<Vec<_>>().join(","),
            self.time.iter().map(|(k, n)| format!("{}:{:.2}", js(k), n)).collect::<Vec<_>>().join(","),
            strs(&mut self.samples.iter()),
        )
    }
}

pub fn js(s: &str) -> String {
    let mut o = String::from("\"");
    for c in s.chars() {
        match c {
            '"' => o.push_str("\\\""),
            '\\' => o.push_str("\\\\"),
            '\n' => o.push_str("\\n"),
            c if (c as u32) < 32 => o.push_str(&format!("\\u{:04x}", c as u32)),
            c => o.push(c),
        }
    }
    o.push('"');
    o
}

// ------------------------------------------------------------- work shared among processes
extern "C" {
    fn fork() -> i32;
    fn waitpid(pid: i32, status: *mut i32, options: i32) -> i32;
    fn _exit(code: i32) -> !;
}
impl Report {
    fn dump(&self) -> String {
        let mut o = String::new();
        let esc = |s: &str| s.replace(['\x1f', '\x1e'], " ").replace('\n', "\x1e");
        for (k, (a, b)) in &self.rules {
            o += &format!("R\x1f{}\x1f{}\x1f{}\n", esc(k), a, b);
        }
        for (k, n) in &self.counts {
            o += &format!("C\x1f{}\x1f{}\n", esc(k), n);
        }
        for s in &self.samples {
            o += &format!("S\x1f{}\n", esc(s));
        }
        for ((a, b), n) in &self.seen {
            o += &format!("N\x1f{}\x1f{}\x1f{}\n", esc(a), esc(b), n);
        }
        for (c, l) in [("V", &self.violations), ("U", &self.undecided)] {
            for f in l {
                o += &format!("{}\x1f{}\x1f{}\x1f{}", c, esc(&f.rule), esc(&f.site), esc(&f.msg));
                for d in &f.detail {
                    o += "\x1f";
                    o += &esc(d);
                }
                o += "\n";
            }
        }
        o + "E\n"
    }
    fn merge(&mut self, text: &str) -> bool {
        let mut end = false;
        for l in text.lines() {
            let p: Vec<String> = l.split('\x1f').map(|x| x.replace('\x1e', "\n")).collect();
            match p[0].as_str() {
                "R" => {
                    let e = self.rules.entry(p[1].clone()).or_default();
                    e.0 += p[2].parse::<u64>().unwrap_or(0);
                    e.1 += p[3].parse::<u64>().unwrap_or(0);
                }
                "C" => self.count(&p[1], p[2].parse().unwrap_or(0)),
                "S" => self.sample(p[1].clone()),
                "N" => *self.seen.entry((p[1].clone(), p[2].clone())).or_default() += p[3].parse::<usize>().unwrap_or(0),
                c @ ("V" | "U") => {
                    let f = Finding { rule: p[1].clone(), site: p[2].clone(), msg: p[3].clone(), detail: p[4..].to_vec() };
                    let l = if c == "V" { &mut self.violations } else { &mut self.undecided };
                    if l.len() < 60 && !l.iter().any(|x| x.site == f.site && x.msg == f.msg) {
                        l.push(f);
                    }
                }
                "E" => end = true,
                _ => {}
            }
        }
        end
    }
    /// take over what another report says
    pub fn absorb(&mut self, o: Report) {
        let t = o.dump();
        self.merge(&t);
        self.functions.extend(o.functions);
        self.roots.extend(o.roots);
        for (k, v) in o.time {
            *self.time.entry(k).or_default() += v;
        }
    }
    /// do `f` for each item, the items being shared among processes
    pub fn parallel(&mut self, items: usize, f: &mut dyn FnMut(&mut Report, usize)) {
        let n = if items < 200 { 1 } else { 8 };
        if n == 1 {
            for i in 0..items {
                f(self, i);
            }
            return;
        }
        let dir = std::env::temp_dir().join(format!("rasn-part-{}", std::process::id()));
        let _ = std::fs::create_dir_all(&dir);
        let mut pids = vec![];
        for k in 0..n {
            let pid = unsafe { fork() };
            if pid == 0 {
                let mut r = Report::new(&self.prop);
                let ok = std::panic::catch_unwind(std::panic::AssertUnwindSafe(|| {
                    for i in (k..items).step_by(n) {
                        f(&mut r, i);
                    }
                }));
                if ok.is_ok() {
                    let _ = std::fs::write(dir.join(k.to_string()), r.dump());
                }
                unsafe { _exit(0) }
            }
            pids.push(pid);
        }
        for (k, pid) in pids.iter().enumerate() {
            let mut s = 0;
            if *pid > 0 {
                unsafe { waitpid(*pid, &mut s, 0) };
            }
            let t = std::fs::read_to_string(dir.join(k.to_string())).unwrap_or_default();
            if !self.merge(&t) {
                self.undecided("analysis", "engine", "a part of the analysis ended without a report", vec![]);
            }
        }
        let _ = std::fs::remove_dir_all(&dir);
    }
}
