//! Integer abstract domain: affine forms over interned atoms (finite atoms may contribute through a table),
//! value sets, and the per-path fact store.
use std::cell::RefCell;
use std::collections::{BTreeMap, HashMap};
use std::rc::Rc;

pub type AtomId = u32;
pub type KeyId = u32;
pub const INF: i128 = 1i128 << 100;
pub const SMALL: i128 = 20000;

// ---------------------------------------------------------------- value sets
#[derive(Clone, PartialEq, Eq, Hash, Debug, PartialOrd, Ord)]
pub struct VSet(pub Vec<(i128, i128)>);

impl VSet {
    pub fn empty() -> VSet {
        VSet(vec![])
    }
    pub fn full() -> VSet {
        VSet(vec![(-INF, INF)])
    }
    pub fn one(v: i128) -> VSet {
        VSet(vec![(v, v)])
    }
    pub fn range(a: i128, b: i128) -> VSet {
        if a > b {
            VSet(vec![])
        } else {
            VSet(vec![(a, b)])
        }
    }
    pub fn from_vals(mut v: Vec<i128>) -> VSet {
        v.sort();
        v.dedup();
        let mut r: Vec<(i128, i128)> = vec![];
        for x in v {
            if let Some(l) = r.last_mut() {
                if l.1 + 1 == x {
                    l.1 = x;
                    continue;
                }
            }
            r.push((x, x));
        }
        VSet(r)
    }
    pub fn is_empty(&self) -> bool {
        self.0.is_empty()
    }
    pub fn lo(&self) -> i128 {
        self.0[0].0
    }
    pub fn hi(&self) -> i128 {
        self.0[self.0.len() - 1].1
    }
    pub fn single(&self) -> Option<i128> {
        if self.0.len() == 1 && self.0[0].0 == self.0[0].1 {
            Some(self.0[0].0)
        } else {
            None
        }
    }
    pub fn contains(&self, v: i128) -> bool {
        self.0.iter().any(|&(a, b)| a <= v && v <= b)
    }
    pub fn inter(&self, o: &VSet) -> VSet {
        let mut r = vec![];
        let (mut i, mut j) = (0, 0);
        while i < self.0.len() && j < o.0.len() {
            let a = self.0[i].0.max(o.0[j].0);
            let b = self.0[i].1.min(o.0[j].1);
            if a <= b {
                r.push((a, b));
            }
            if self.0[i].1 < o.0[j].1 {
                i += 1
            } else {
                j += 1
            }
        }
        VSet(r)
    }
    pub fn compl(&self) -> VSet {
        let mut r = vec![];
        let mut cur = -INF;
        for &(a, b) in &self.0 {
            if a > cur {
                r.push((cur, a - 1));
            }
            cur = b + 1;
        }
        if cur <= INF {
            r.push((cur, INF));
        }
        VSet(r)
    }
    pub fn union(&self, o: &VSet) -> VSet {
        let mut v: Vec<(i128, i128)> = self.0.iter().chain(o.0.iter()).cloned().collect();
        v.sort();
        let mut r: Vec<(i128, i128)> = vec![];
        for (a, b) in v {
            if let Some(l) = r.last_mut() {
                if a <= l.1 + 1 {
                    l.1 = l.1.max(b);
                    continue;
                }
            }
            r.push((a, b));
        }
        VSet(r)
    }
    pub fn subset(&self, o: &VSet) -> bool {
        self.inter(o) == *self
    }
    pub fn size(&self) -> i128 {
        let mut n: i128 = 0;
        for &(a, b) in &self.0 {
            n += b - a + 1;
            if n > INF {
                return INF;
            }
        }
        n
    }
    pub fn iter(&self) -> impl Iterator<Item = i128> + '_ {
        self.0.iter().flat_map(|&(a, b)| a..=b)
    }
    pub fn affine(&self, k: i128, d: i128) -> VSet {
        // { k*x + d }, over-approximated by intervals when |k| > 1 and the set is large
        if k == 0 {
            return if self.is_empty() { VSet::empty() } else { VSet::one(d) };
        }
        if self.is_empty() {
            return VSet::empty();
        }
        if k.abs() > 1 && self.size() <= SMALL {
            return VSet::from_vals(self.iter().map(|x| k * x + d).collect());
        }
        let f = |x: i128| -> i128 {
            if x >= INF {
                if k > 0 {
                    INF
                } else {
                    -INF
                }
            } else if x <= -INF {
                if k > 0 {
                    -INF
                } else {
                    INF
                }
            } else {
                clamp(k.checked_mul(x).map(|y| y + d).unwrap_or(if (k > 0) == (x > 0) { INF } else { -INF }))
            }
        };
        let mut r: Vec<(i128, i128)> = self
            .0
            .iter()
            .map(|&(a, b)| if k > 0 { (f(a), f(b)) } else { (f(b), f(a)) })
            .collect();
        r.sort();
        VSet(r)
    }
    pub fn show(&self) -> String {
        let f = |x: i128| {
            if x >= INF {
                "inf".to_string()
            } else if x <= -INF {
                "-inf".to_string()
            } else {
                x.to_string()
            }
        };
        let mut v: Vec<String> = self
            .0
            .iter()
            .take(12)
            .map(|&(a, b)| if a == b { f(a) } else { format!("{}..{}", f(a), f(b)) })
            .collect();
        if self.0.len() > 12 {
            v.push("...".into());
        }
        format!("{{{}}}", v.join(","))
    }
}

pub fn clamp(x: i128) -> i128 {
    x.max(-INF).min(INF)
}
pub fn floor_div(a: i128, b: i128) -> i128 {
    a.div_euclid(b)
}

// ---------------------------------------------------------------- atoms
#[derive(Clone, PartialEq, Eq, Hash, Debug)]
pub enum AtomKind {
    /// element `off` of a symbolic slice region (octets for byte regions)
    Elem(KeyId, Form),
    /// opaque quantity with a name that identifies it
    Named(String),
    /// floor(form / k)
    Div(Form, i128),
    /// a small-range form on which a non-linear function is applied
    Compound(Form),
    /// discriminant (variant index) of a symbolic value
    Discr(KeyId),
}

pub struct AtomInfo {
    pub kind: AtomKind,
    pub lo: i128,
    pub hi: i128,
}

#[derive(Default)]
pub struct Interner {
    pub atoms: Vec<AtomInfo>,
    pub ids: HashMap<AtomKind, AtomId>,
    pub keys: Vec<String>,
    pub key_ids: HashMap<String, KeyId>,
}

thread_local! {
    pub static INT: RefCell<Interner> = RefCell::new(Interner::default());
}

pub fn key(s: &str) -> KeyId {
    INT.with(|i| {
        let mut i = i.borrow_mut();
        if let Some(&k) = i.key_ids.get(s) {
            return k;
        }
        let k = i.keys.len() as KeyId;
        i.keys.push(s.to_string());
        i.key_ids.insert(s.to_string(), k);
        k
    })
}
pub fn key_name(k: KeyId) -> String {
    INT.with(|i| i.borrow().keys[k as usize].clone())
}

pub fn atom(kind: AtomKind, lo: i128, hi: i128) -> AtomId {
    INT.with(|i| {
        let mut i = i.borrow_mut();
        if let Some(&a) = i.ids.get(&kind) {
            return a;
        }
        let a = i.atoms.len() as AtomId;
        i.atoms.push(AtomInfo { kind: kind.clone(), lo, hi });
        i.ids.insert(kind, a);
        a
    })
}
pub fn atom_lookup(kind: &AtomKind) -> Option<AtomId> {
    INT.with(|i| i.borrow().ids.get(kind).cloned())
}
pub fn atom_range(a: AtomId) -> (i128, i128) {
    INT.with(|i| {
        let i = i.borrow();
        (i.atoms[a as usize].lo, i.atoms[a as usize].hi)
    })
}
pub fn atom_kind(a: AtomId) -> AtomKind {
    INT.with(|i| i.borrow().atoms[a as usize].kind.clone())
}
/// definition of a derived atom: (form, 0) for a compound, (form, k) for a quotient
pub fn atom_def(a: AtomId) -> Option<(Form, i128)> {
    INT.with(|i| match &i.borrow().atoms[a as usize].kind {
        AtomKind::Compound(f) => Some((f.clone(), 0)),
        AtomKind::Div(f, k) => Some((f.clone(), *k)),
        _ => None,
    })
}
pub fn atom_name(a: AtomId) -> String {
    match atom_kind(a) {
        AtomKind::Elem(r, o) => format!("{}[{}]", key_name(r), o.show()),
        AtomKind::Named(n) => n,
        AtomKind::Div(f, k) => format!("({})/{}", f.show(), k),
        AtomKind::Compound(f) => format!("<{}>", f.show()),
        AtomKind::Discr(k) => format!("variant({})", key_name(k)),
    }
}

// ---------------------------------------------------------------- forms
#[derive(Clone, PartialEq, Eq, Hash, Debug, PartialOrd, Ord)]
pub enum Term {
    Lin(i128),
    /// function of the atom's value, tabulated over its inherent range; value at the low end is 0
    Tab(Rc<Vec<i128>>),
}

#[derive(Clone, PartialEq, Eq, Hash, Debug, PartialOrd, Ord)]
pub struct Form {
    pub c: i128,
    pub t: Rc<Vec<(AtomId, Term)>>,
}

fn tab_of(a: AtomId, t: &Term) -> Option<Vec<i128>> {
    let (lo, hi) = atom_range(a);
    match t {
        Term::Tab(v) => Some((**v).clone()),
        Term::Lin(k) => {
            if hi - lo > SMALL {
                None
            } else {
                Some((lo..=hi).map(|x| k * (x - lo)).collect())
            }
        }
    }
}

impl Form {
    pub fn k(c: i128) -> Form {
        Form { c, t: Rc::new(vec![]) }
    }
    pub fn atom(a: AtomId) -> Form {
        let (lo, hi) = atom_range(a);
        if lo == hi {
            return Form::k(lo);
        }
        Form { c: 0, t: Rc::new(vec![(a, Term::Lin(1))]) }
    }
    pub fn named(n: &str, lo: i128, hi: i128) -> Form {
        Form::atom(atom(AtomKind::Named(n.to_string()), lo, hi))
    }
    pub fn elem(r: KeyId, off: &Form, lo: i128, hi: i128) -> Form {
        Form::atom(atom(AtomKind::Elem(r, off.clone()), lo, hi))
    }
    pub fn constant(&self) -> Option<i128> {
        if self.t.is_empty() {
            Some(self.c)
        } else {
            None
        }
    }
    /// a table over one atom: vals[i] is the value at lo+i
    pub fn table(a: AtomId, vals: Vec<i128>) -> Form {
        let (lo, hi) = atom_range(a);
        assert_eq!(vals.len() as i128, hi - lo + 1);
        let c0 = vals[0];
        let v: Vec<i128> = vals.iter().map(|x| x - c0).collect();
        // affine?
        let n = v.len();
        if v.iter().all(|&x| x == 0) {
            return Form::k(c0);
        }
        if n >= 2 {
            let k = v[1];
            if v.iter().enumerate().all(|(i, &x)| x == k * i as i128) {
                // k*(x-lo) + c0
                return Form { c: c0 - k * lo, t: Rc::new(vec![(a, Term::Lin(k))]) };
            }
        }
        Form { c: c0, t: Rc::new(vec![(a, Term::Tab(Rc::new(v)))]) }
    }
    pub fn add(&self, o: &Form) -> Form {
        self.comb(1, o, 1)
    }
    pub fn sub(&self, o: &Form) -> Form {
        self.comb(1, o, -1)
    }
    pub fn addk(&self, k: i128) -> Form {
        Form { c: self.c + k, t: self.t.clone() }
    }
    pub fn scale(&self, k: i128) -> Form {
        self.comb(k, &Form::k(0), 0)
    }
    pub fn neg(&self) -> Form {
        self.scale(-1)
    }
    pub fn comb(&self, ka: i128, o: &Form, kb: i128) -> Form {
        if o.t.is_empty() && ka == 1 {
            return Form { c: self.c + kb * o.c, t: self.t.clone() };
        }
        let mut c = ka * self.c + kb * o.c;
        let mut r: Vec<(AtomId, Term)> = vec![];
        let (mut i, mut j) = (0, 0);
        let sc = |t: &Term, k: i128| -> Term {
            match t {
                Term::Lin(x) => Term::Lin(x.checked_mul(k).expect("coefficient")),
                Term::Tab(v) => Term::Tab(Rc::new(v.iter().map(|x| x * k).collect())),
            }
        };
        while i < self.t.len() || j < o.t.len() {
            let ai = self.t.get(i).map(|x| x.0).unwrap_or(u32::MAX);
            let aj = o.t.get(j).map(|x| x.0).unwrap_or(u32::MAX);
            if ai < aj {
                if ka != 0 {
                    r.push((ai, sc(&self.t[i].1, ka)));
                }
                i += 1;
            } else if aj < ai {
                if kb != 0 {
                    r.push((aj, sc(&o.t[j].1, kb)));
                }
                j += 1;
            } else {
                match (&self.t[i].1, &o.t[j].1) {
                    (Term::Lin(x), Term::Lin(y)) => {
                        let k = ka * x + kb * y;
                        if k != 0 {
                            r.push((ai, Term::Lin(k)));
                        }
                    }
                    (x, y) => {
                        let (lo, _) = atom_range(ai);
                        // Lin(k) over an atom starting at lo is k*(x-lo) + k*lo
                        if let Term::Lin(k) = x {
                            c += ka * k * lo;
                        }
                        if let Term::Lin(k) = y {
                            c += kb * k * lo;
                        }
                        let tx = tab_of(ai, x).expect("finite");
                        let ty = tab_of(ai, y).expect("finite");
                        let f = Form::table(ai, tx.iter().zip(ty.iter()).map(|(p, q)| ka * p + kb * q).collect());
                        c += f.c;
                        for t in f.t.iter() {
                            r.push(t.clone());
                        }
                    }
                }
                i += 1;
                j += 1;
            }
        }
        Form { c, t: Rc::new(r) }
    }
    /// if the form depends on exactly one atom, that atom
    /// whether a multiple of the coefficients' common divisor, and the constant, can be in the set
    pub fn hits(&self, s: &VSet) -> bool {
        let mut g = 0;
        for (_, t) in self.t.iter() {
            match t {
                Term::Lin(k) => g = gcd(g, k.abs()),
                Term::Tab(_) => return true,
            }
        }
        g <= 1 || s.0.iter().any(|(lo, hi)| *lo <= -INF || *hi >= INF || hi - (hi - self.c).rem_euclid(g) >= *lo)
    }
    pub fn single(&self) -> Option<AtomId> {
        if self.t.len() == 1 {
            Some(self.t[0].0)
        } else {
            None
        }
    }
    /// value of a single-term form for atom value x
    pub fn at(&self, x: i128) -> i128 {
        match self.t.len() {
            0 => self.c,
            1 => match &self.t[0].1 {
                Term::Lin(k) => self.c + k * x,
                Term::Tab(v) => {
                    let (lo, _) = atom_range(self.t[0].0);
                    self.c + v[(x - lo) as usize]
                }
            },
            _ => panic!("at on multi-term form"),
        }
    }
    /// inherent range, without facts
    pub fn inherent(&self) -> (i128, i128) {
        let mut lo = self.c;
        let mut hi = self.c;
        for (a, t) in self.t.iter() {
            let (l, h) = match t {
                Term::Lin(k) => {
                    let (al, ah) = atom_range(*a);
                    let s = VSet::range(al, ah).affine_hull(*k);
                    s
                }
                Term::Tab(v) => (*v.iter().min().unwrap(), *v.iter().max().unwrap()),
            };
            lo = clamp(lo + l);
            hi = clamp(hi + h);
        }
        (lo, hi)
    }
    /// normalised key: no constant, primitive, leading sign positive; returns (key, k, d) with self = k*key + d
    pub fn norm(&self) -> (Form, i128, i128) {
        let mut g: i128 = 0;
        for (_, t) in self.t.iter() {
            match t {
                Term::Lin(k) => g = gcd(g, *k),
                Term::Tab(v) => {
                    for x in v.iter() {
                        g = gcd(g, *x)
                    }
                }
            }
        }
        if g == 0 {
            return (Form::k(0), 1, self.c);
        }
        let sign = match &self.t[0].1 {
            Term::Lin(k) => k.signum(),
            Term::Tab(v) => v.iter().find(|x| **x != 0).unwrap().signum(),
        };
        let k = g * sign;
        if k == 1 {
            return (Form { c: 0, t: self.t.clone() }, 1, self.c);
        }
        let t = self
            .t
            .iter()
            .map(|(a, t)| {
                (
                    *a,
                    match t {
                        Term::Lin(x) => Term::Lin(x / k),
                        Term::Tab(v) => Term::Tab(Rc::new(v.iter().map(|x| x / k).collect())),
                    },
                )
            })
            .collect();
        (Form { c: 0, t: Rc::new(t) }, k, self.c)
    }
    pub fn show(&self) -> String {
        if self.t.is_empty() {
            return self.c.to_string();
        }
        let mut v: Vec<String> = vec![];
        for (a, t) in self.t.iter() {
            let n = atom_name(*a);
            match t {
                Term::Lin(1) => v.push(n),
                Term::Lin(-1) => v.push(format!("-{}", n)),
                Term::Lin(k) => v.push(format!("{}*{}", k, n)),
                Term::Tab(tb) => {
                    let mut h: u64 = 1469598103934665603;
                    for x in tb.iter() {
                        h = (h ^ (*x as u64)).wrapping_mul(1099511628211);
                    }
                    v.push(format!("f{:04x}({})", h & 0xffff, n))
                }
            }
        }
        if self.c != 0 {
            v.push(self.c.to_string());
        }
        v.join(" + ").replace("+ -", "- ")
    }
    pub fn atoms(&self) -> Vec<AtomId> {
        self.t.iter().map(|x| x.0).collect()
    }
    /// all atoms this form is built from, through definitions
    pub fn deep_atoms(&self, out: &mut Vec<AtomId>) {
        for (a, _) in self.t.iter() {
            if out.contains(a) {
                continue;
            }
            out.push(*a);
            match atom_kind(*a) {
                AtomKind::Div(f, _) | AtomKind::Compound(f) => f.deep_atoms(out),
                AtomKind::Elem(_, f) => f.deep_atoms(out),
                _ => {}
            }
        }
    }
    /// substitute atom -> form (also below Elem/Div/Compound definitions)
    pub fn subst(&self, a: AtomId, f: &Form) -> Form {
        let mut deep = vec![];
        self.deep_atoms(&mut deep);
        if !deep.contains(&a) {
            return self.clone();
        }
        let mut r = Form::k(self.c);
        for (b, t) in self.t.iter() {
            let base: Form = if *b == a {
                f.clone()
            } else {
                match atom_kind(*b) {
                    AtomKind::Elem(rg, o) => {
                        let o2 = o.subst(a, f);
                        let (lo, hi) = atom_range(*b);
                        Form::elem(rg, &o2, lo, hi)
                    }
                    AtomKind::Div(g, k) => g.subst(a, f).div_nofacts(k),
                    AtomKind::Compound(g) => g.subst(a, f),
                    _ => Form::atom(*b),
                }
            };
            match t {
                Term::Lin(k) => r = r.comb(1, &base, *k),
                Term::Tab(v) => {
                    let (lo, _) = atom_range(*b);
                    let g = base.map_small(&|x| {
                        let i = x - lo;
                        if i < 0 || i >= v.len() as i128 {
                            0
                        } else {
                            v[i as usize]
                        }
                    });
                    r = r.add(&g.expect("small"));
                }
            }
        }
        r
    }
    /// simultaneous substitution
    pub fn subst_many(&self, m: &HashMap<AtomId, Form>) -> Form {
        let mut deep = vec![];
        self.deep_atoms(&mut deep);
        if !deep.iter().any(|a| m.contains_key(a)) {
            return self.clone();
        }
        let mut r = Form::k(self.c);
        for (b, t) in self.t.iter() {
            let base: Form = if let Some(f) = m.get(b) {
                f.clone()
            } else {
                match atom_kind(*b) {
                    AtomKind::Elem(rg, o) => {
                        let o2 = o.subst_many(m);
                        let (lo, hi) = atom_range(*b);
                        Form::elem(rg, &o2, lo, hi)
                    }
                    AtomKind::Div(g, k) => g.subst_many(m).div_nofacts(k),
                    AtomKind::Compound(g) => g.subst_many(m),
                    _ => Form::atom(*b),
                }
            };
            match t {
                Term::Lin(k) => r = r.comb(1, &base, *k),
                Term::Tab(v) => {
                    let (lo, _) = atom_range(*b);
                    let g = base.map_small(&|x| {
                        let i = x - lo;
                        if i < 0 || i >= v.len() as i128 {
                            0
                        } else {
                            v[i as usize]
                        }
                    });
                    match g {
                        Some(g) => r = r.add(&g),
                        // not expressible: an unrelated quantity
                        None => {
                            let mx = *v.iter().max().unwrap();
                            let mn = *v.iter().min().unwrap();
                            r = r.add(&Form::named(&format!("tab({})#{}", base.show(), self.show()), mn, mx))
                        }
                    }
                }
            }
        }
        r
    }
    fn div_nofacts(&self, k: i128) -> Form {
        div_form(self, k, &|f| f.inherent())
    }
    /// apply a function to a form of small inherent range
    pub fn map_small(&self, f: &dyn Fn(i128) -> i128) -> Option<Form> {
        if let Some(c) = self.constant() {
            return Some(Form::k(f(c)));
        }
        if let Some(a) = self.single() {
            let (lo, hi) = atom_range(a);
            if hi - lo <= SMALL {
                return Some(Form::table(a, (lo..=hi).map(|x| f(self.at(x))).collect()));
            }
        }
        let (lo, hi) = self.inherent();
        if hi - lo > SMALL {
            return None;
        }
        let (nf, k, d) = self.norm();
        let (lo, hi) = nf.inherent();
        let a = atom(AtomKind::Compound(nf), lo, hi);
        Some(Form::table(a, (lo..=hi).map(|x| f(k * x + d)).collect()))
    }
}

pub fn div_form(f: &Form, d: i128, rng: &dyn Fn(&Form) -> (i128, i128)) -> Form {
    assert!(d > 0);
    if d == 1 {
        return f.clone();
    }
    if let Some(c) = f.constant() {
        return Form::k(floor_div(c, d));
    }
    // split off the part divisible by d
    let mut div: Vec<(AtomId, Term)> = vec![];
    let mut rest: Vec<(AtomId, Term)> = vec![];
    for (a, t) in f.t.iter() {
        let ok = match t {
            Term::Lin(k) => k % d == 0,
            Term::Tab(v) => v.iter().all(|x| x % d == 0),
        };
        if ok {
            div.push((
                *a,
                match t {
                    Term::Lin(k) => Term::Lin(k / d),
                    Term::Tab(v) => Term::Tab(Rc::new(v.iter().map(|x| x / d).collect())),
                },
            ))
        } else {
            rest.push((*a, t.clone()))
        }
    }
    let cq = floor_div(f.c, d);
    let cr = f.c - cq * d;
    let q = Form { c: cq, t: Rc::new(div) };
    let r = Form { c: cr, t: Rc::new(rest) };
    if r.t.is_empty() {
        return q;
    }
    let (lo, hi) = rng(&r);
    if lo >= 0 && hi < d {
        return q;
    }
    if floor_div(lo, d) == floor_div(hi, d) && lo > -INF && hi < INF {
        return q.addk(floor_div(lo, d));
    }
    if let Some(m) = r.map_small(&|x| floor_div(x, d)) {
        return q.add(&m);
    }
    let (lo, hi) = r.inherent();
    let l = if lo <= -INF { -INF } else { floor_div(lo, d) };
    let h = if hi >= INF { INF } else { floor_div(hi, d) };
    q.add(&Form::atom(atom(AtomKind::Div(r, d), l, h)))
}

impl VSet {
    fn affine_hull(&self, k: i128) -> (i128, i128) {
        let m = |x: i128| -> i128 {
            if k == 0 {
                0
            } else if x >= INF {
                if k > 0 {
                    INF
                } else {
                    -INF
                }
            } else if x <= -INF {
                if k > 0 {
                    -INF
                } else {
                    INF
                }
            } else {
                clamp(x.checked_mul(k).unwrap_or(if (x > 0) == (k > 0) { INF } else { -INF }))
            }
        };
        let a = m(self.lo());
        let b = m(self.hi());
        (a.min(b), a.max(b))
    }
}

pub fn gcd(a: i128, b: i128) -> i128 {
    let (mut a, mut b) = (a.abs(), b.abs());
    while b != 0 {
        let t = a % b;
        a = b;
        b = t;
    }
    a
}

// ---------------------------------------------------------------- facts
/// the x with k*x + c in s
fn preimage(s: &VSet, k: i128, c: i128) -> VSet {
    let mut ns = VSet(vec![]);
    for &(x, y) in &s.0 {
        let (x, y) = (x - c, y - c);
        let (p, q) = if k > 0 { (x, y) } else { (-y, -x) };
        let kk = k.abs();
        let lo = if p <= -INF / 2 { -INF } else { -floor_div(-p, kk) };
        let hi = if q >= INF / 2 { INF } else { floor_div(q, kk) };
        if lo <= hi {
            ns = ns.union(&VSet(vec![(lo, hi)]));
        }
    }
    ns
}
#[derive(Clone, Debug, PartialEq, Eq, Default)]
pub struct Facts {
    /// per atom
    pub atoms: Rc<BTreeMap<AtomId, VSet>>,
    /// per normalised multi-term form
    pub forms: Rc<BTreeMap<Form, VSet>>,
}

impl Facts {
    pub fn atom_set(&self, a: AtomId) -> VSet {
        let own = match self.atoms.get(&a) {
            Some(s) => s.clone(),
            None => {
                let (lo, hi) = atom_range(a);
                VSet::range(lo, hi)
            }
        };
        if own.single().is_some() {
            return own;
        }
        match atom_def(a) {
            None => own,
            Some((g, 0)) => {
                let (lo, hi) = self.sum_range(&g);
                let mut s = own.inter(&VSet::range(lo, hi));
                if let Some(f) = self.forms.get(&g) {
                    s = s.inter(f);
                }
                s
            }
            Some((g, k)) => {
                let (lo, hi) = self.range(&g);
                let l = if lo <= -INF { -INF } else { floor_div(lo, k) };
                let h = if hi >= INF { INF } else { floor_div(hi, k) };
                own.inter(&VSet::range(l, h))
            }
        }
    }
    fn hull(&self, a: AtomId) -> (i128, i128) {
        let s = self.atom_set(a);
        if s.is_empty() {
            return (1, 0);
        }
        (s.lo(), s.hi())
    }
    fn term_range(&self, a: AtomId, t: &Term) -> (i128, i128) {
        match t {
            Term::Lin(k) => {
                let (lo, hi) = self.hull(a);
                VSet(vec![(lo, hi)]).affine_hull(*k)
            }
            Term::Tab(v) => {
                let (lo, _) = atom_range(a);
                match self.atoms.contains_key(&a) || atom_def(a).is_some() {
                    false => (*v.iter().min().unwrap(), *v.iter().max().unwrap()),
                    true => {
                        let s = self.atom_set(a);
                        let mut mn = INF;
                        let mut mx = -INF;
                        for x in s.iter() {
                            let y = v[(x - lo) as usize];
                            mn = mn.min(y);
                            mx = mx.max(y);
                        }
                        (mn, mx)
                    }
                }
            }
        }
    }
    fn sum_range(&self, f: &Form) -> (i128, i128) {
        let (mut lo, mut hi) = (f.c, f.c);
        for (a, t) in f.t.iter() {
            let (l, h) = self.term_range(*a, t);
            lo = clamp(lo + l);
            hi = clamp(hi + h);
        }
        (lo, hi)
    }
    /// interval of f, using  g - d*(g div d) in [0, d-1]
    fn div_range(&self, f: &Form, depth: u32) -> (i128, i128) {
        let (mut lo, mut hi) = self.sum_range(f);
        if depth == 0 || lo >= hi {
            return (lo, hi);
        }
        for (a, t) in f.t.iter() {
            let k = match t {
                Term::Lin(k) => *k,
                _ => continue,
            };
            let (g, d) = match atom_def(*a) {
                Some((g, d)) if d != 0 => (g, d),
                _ => continue,
            };
            if k % d != 0 {
                continue;
            }
            let c = k / d;
            // k*q = c*(g - r)
            let rest = f.sub(&Form::atom(*a).scale(k)).comb(1, &g, c);
            if rest.t.len() > f.t.len() + 3 {
                continue;
            }
            let (mut l, mut h) = self.div_range(&rest, depth - 1);
            if !rest.t.is_empty() {
                let dd = self.direct(&rest);
                if !dd.is_empty() {
                    l = l.max(dd.lo());
                    h = h.min(dd.hi());
                }
            }
            // the remainder is congruent to g modulo the gcd of its coefficients and d
            let mut gg = d;
            for (_, u) in g.t.iter() {
                gg = match u {
                    Term::Lin(x) => gcd(gg, *x),
                    Term::Tab(v) => v.iter().fold(gg, |m, x| gcd(m, *x)),
                };
            }
            let r0 = g.c.rem_euclid(gg);
            let r1 = d - gg + r0;
            let (rl, rh) = if c > 0 { (-c * r1, -c * r0) } else { (-c * r0, -c * r1) };
            lo = lo.max(clamp(l + rl));
            hi = hi.min(clamp(h + rh));
        }
        (lo, hi)
    }
    fn direct(&self, f: &Form) -> VSet {
        // facts stored for the form itself
        let (nf, k, d) = f.norm();
        if let Some(s) = self.forms.get(&nf) {
            return s.affine(k, d);
        }
        VSet::full()
    }
    /// value set of a form under the facts (over-approximation)
    pub fn vset(&self, f: &Form) -> VSet {
        if let Some(c) = f.constant() {
            return VSet::one(c);
        }
        if let Some(a) = f.single() {
            let s = self.atom_set(a);
            match &f.t[0].1 {
                Term::Lin(k) => {
                    let r = s.affine(*k, f.c);
                    if r.is_empty() || r.lo() > -INF && r.hi() < INF {
                        return r;
                    }
                    let (lo, hi) = self.combo(f, r.lo(), r.hi(), 2);
                    return r.inter(&VSet::range(lo, hi));
                }
                Term::Tab(_) => return VSet::from_vals(s.iter().map(|x| f.at(x)).collect()),
            }
        }
        let (mut lo, mut hi) = self.div_range(f, 3);
        // a quotient with a coefficient that is no multiple of its divisor: scale
        let mut m = 1;
        for (a, t) in f.t.iter() {
            if let (Term::Lin(k), Some((_, d))) = (t, atom_def(*a)) {
                if d > 1 && k % d != 0 && m % d != 0 && m * d <= 1 << 16 {
                    m *= d / gcd(*k, d);
                }
            }
        }
        if m > 1 {
            let (l, h) = self.div_range(&f.scale(m), 3);
            if l > -INF {
                lo = lo.max(-floor_div(-l, m));
            }
            if h < INF {
                hi = hi.min(floor_div(h, m));
            }
        }
        let mut s = VSet::range(lo, hi).inter(&self.direct(f));
        if f.t.iter().any(|(a, t)| matches!(t, Term::Tab(_)) && self.atoms.contains_key(a) && atom_def(*a).is_none()) {
            if let Some(g) = self.simplify(f) {
                if g != *f && g.t.len() >= 2 {
                    s = s.inter(&self.direct(&g));
                    if !s.is_empty() && s.single().is_none() && !g.t.iter().any(|x| matches!(x.1, Term::Tab(_))) {
                        let (lo, hi) = self.combo(&g, s.lo(), s.hi(), 2);
                        s = s.inter(&VSet::range(lo, hi));
                    }
                }
            }
        }
        let (nf, k, d) = f.norm();
        if let Some(a) = atom_lookup(&AtomKind::Compound(nf)) {
            s = s.inter(&self.atom_set(a).affine(k, d));
        }
        if s.is_empty() || s.single().is_some() {
            return s;
        }
        let (lo, hi) = self.combo(f, s.lo(), s.hi(), 2);
        s.inter(&VSet::range(lo, hi))
    }
    /// tighten the bounds of f by adding/subtracting known facts that share an opaque atom
    fn combo(&self, f: &Form, lo: i128, hi: i128, depth: u32) -> (i128, i128) {
        let (mut lo, mut hi) = (lo, hi);
        if depth == 0 || self.forms.is_empty() {
            return (lo, hi);
        }
        // pivot: an atom whose range is wide
        for (a, t) in f.t.iter() {
            let k = match t {
                Term::Lin(k) => *k,
                _ => continue,
            };
            let (al, ah) = self.hull(*a);
            let narrow = ah - al <= 255;
            for (g, s) in self.forms.iter() {
                let kg = match g.t.iter().find(|x| x.0 == *a) {
                    Some((_, Term::Lin(kg))) => *kg,
                    _ => continue,
                };
                if k % kg != 0 {
                    if kg % k == 0 && !narrow {
                        // w*f = g + rest
                        let w = kg / k;
                        let rest = f.scale(w).comb(1, g, -1);
                        if rest.t.len() > 2 {
                            continue;
                        }
                        let (rl, rh) = self.sum_range(&rest);
                        let (a, b) = (clamp(s.lo() + rl), clamp(s.hi() + rh));
                        let (a, b, w) = if w > 0 { (a, b, w) } else { (-b, -a, -w) };
                        if a > -INF {
                            lo = lo.max(-floor_div(-a, w));
                        }
                        if b < INF {
                            hi = hi.min(floor_div(b, w));
                        }
                    }
                    continue;
                }
                let m = k / kg; // f = m*g + rest
                let rest = f.comb(1, g, -m);
                if rest.t.len() > if narrow { 1 } else { f.t.len() + 2 } {
                    continue;
                }
                if narrow && rest.t.iter().any(|x| atom_def(x.0).is_some()) {
                    continue;
                }
                let (mut rl, mut rh) = self.sum_range(&rest);
                if !rest.t.is_empty() {
                    let dd = self.direct(&rest);
                    if dd.is_empty() {
                        return (1, 0);
                    }
                    rl = rl.max(dd.lo());
                    rh = rh.min(dd.hi());
                    if (rl <= -INF || rh >= INF) && depth > 1 {
                        let (x, y) = self.combo(&rest, rl, rh, depth - 1);
                        rl = rl.max(x);
                        rh = rh.min(y);
                    }
                }
                let (gl, gh) = VSet(vec![(s.lo(), s.hi())]).affine_hull(m);
                lo = lo.max(clamp(gl + rl));
                hi = hi.min(clamp(gh + rh));
            }
        }
        (lo, hi)
    }
    pub fn range(&self, f: &Form) -> (i128, i128) {
        let s = self.vset(f);
        if s.is_empty() {
            return (1, 0);
        }
        (s.lo(), s.hi())
    }
    pub fn entails(&self, f: &Form, s: &VSet) -> bool {
        self.vset(f).subset(s)
    }
    pub fn possible(&self, f: &Form, s: &VSet) -> bool {
        let mut c = self.clone();
        c.assume(f, s)
    }
    /// constant value under the facts
    pub fn const_of(&self, f: &Form) -> Option<i128> {
        if let Some(c) = f.constant() {
            return Some(c);
        }
        self.vset(f).single()
    }
    pub fn eq0(&self, f: &Form) -> bool {
        if f.constant() == Some(0) {
            return true;
        }
        if self.const_of(f) == Some(0) {
            return true;
        }
        // eliminate compound atoms: replace <F> by F where the rest cancels
        self.simplify(f).map(|g| self.const_of(&g) == Some(0)).unwrap_or(false)
    }
    /// substitute atoms with a known value; fold affine-on-domain tables; expand compound atoms that are linear on their domain
    pub fn simplify(&self, f: &Form) -> Option<Form> {
        let mut r = Form::k(f.c);
        for (a, t) in f.t.iter() {
            let s = self.atom_set(*a);
            if s.is_empty() {
                return None;
            }
            let (alo, _) = atom_range(*a);
            let val = |x: i128| -> i128 {
                match t {
                    Term::Lin(k) => k * x,
                    Term::Tab(v) => v[(x - alo) as usize],
                }
            };
            if let Some(x) = s.single() {
                r = r.addk(val(x));
                continue;
            }
            // affine on the current domain?
            let lin = match t {
                Term::Lin(k) => Some((*k, 0)),
                Term::Tab(_) => {
                    let x0 = s.lo();
                    let x1 = s.iter().nth(1).unwrap();
                    let dv = val(x1) - val(x0);
                    let dx = x1 - x0;
                    if dv % dx == 0 {
                        let k = dv / dx;
                        let d = val(x0) - k * x0;
                        if s.iter().all(|x| val(x) == k * x + d) {
                            Some((k, d))
                        } else {
                            None
                        }
                    } else {
                        None
                    }
                }
            };
            match (lin, atom_kind(*a)) {
                (Some((k, d)), AtomKind::Compound(g)) => {
                    let g2 = self.simplify(&g)?;
                    r = r.comb(1, &g2, k).addk(d)
                }
                (Some((k, d)), _) => r = r.comb(1, &Form::atom(*a), k).addk(d),
                (None, _) => {
                    let one = Form { c: 0, t: Rc::new(vec![(*a, t.clone())]) };
                    r = r.add(&one)
                }
            }
        }
        Some(r)
    }

    /// the offset under which a cell of a region is known: cells at equal offsets have one name
    pub fn offset(&self, r: KeyId, off: &Form, all: bool) -> Form {
        let open = off.t.iter().any(|(a, t)| matches!(t, Term::Tab(_)) || self.atoms.get(a).map(|s| s.single().is_some()).unwrap_or(false));
        if !open && !all {
            return off.clone();
        }
        if let Some(a) = atom_lookup(&AtomKind::Elem(r, off.clone())) {
            if self.atoms.contains_key(&a) {
                return off.clone();
            }
        }
        let o2 = self.simplify(off).unwrap_or(off.clone());
        if o2 == *off && !all {
            return o2;
        }
        if let Some(a) = atom_lookup(&AtomKind::Elem(r, o2.clone())) {
            if self.atoms.contains_key(&a) {
                return o2;
            }
        }
        for a in self.atoms.keys() {
            if let AtomKind::Elem(k, g) = atom_kind(*a) {
                if k == r && !g.t.is_empty() && g != o2 {
                    if let Some(d) = self.simplify(&g.sub(&o2)) {
                        if d.constant() == Some(0) {
                            return g;
                        }
                    }
                }
            }
        }
        o2
    }

    /// another name under which the cell at this offset is known
    pub fn alias(&self, r: KeyId, off: &Form) -> Option<Form> {
        if off.t.is_empty() {
            return None;
        }
        let o2 = self.simplify(off)?;
        for a in self.atoms.keys() {
            if let AtomKind::Elem(k, g) = atom_kind(*a) {
                if k == r && g != *off && (g == o2 || !g.t.is_empty()) {
                    if g == o2 || self.simplify(&g.sub(&o2)).map(|d| d.constant() == Some(0)).unwrap_or(false) {
                        return Some(g);
                    }
                }
            }
        }
        None
    }

    fn set_atom(&mut self, a: AtomId, s: VSet) {
        Rc::make_mut(&mut self.atoms).insert(a, s);
    }

    /// add a fact; false if it contradicts the others
    pub fn assume(&mut self, f: &Form, s: &VSet) -> bool {
        let mut q: std::collections::VecDeque<(Form, VSet)> = std::collections::VecDeque::new();
        q.push_back((f.clone(), s.clone()));
        let mut budget = 200;
        while let Some((f, s)) = q.pop_front() {
            budget -= 1;
            if budget == 0 {
                break;
            }
            if !self.apply(&f, &s, &mut q) {
                return false;
            }
        }
        true
    }
    fn apply(&mut self, f: &Form, s: &VSet, q: &mut std::collections::VecDeque<(Form, VSet)>) -> bool {
        if s.is_empty() {
            return false;
        }
        if let Some(c) = f.constant() {
            return s.contains(c);
        }
        if let Some(a) = f.single() {
            let cur = self.atom_set(a);
            let new = match &f.t[0].1 {
                Term::Lin(k) => {
                    if k.abs() == 1 {
                        cur.inter(&s.affine(*k, -k * f.c))
                    } else {
                        cur.inter(&preimage(s, *k, f.c))
                    }
                }
                Term::Tab(_) => VSet::from_vals(cur.iter().filter(|x| s.contains(f.at(*x))).collect()),
            };
            if new.is_empty() {
                return false;
            }
            if new == cur {
                return true;
            }
            self.set_atom(a, new.clone());
            match atom_kind(a) {
                AtomKind::Compound(g) => q.push_back((g, new)),
                AtomKind::Div(g, k) => {
                    let pre = VSet(
                        new.0
                            .iter()
                            .map(|&(x, y)| {
                                (
                                    if x <= -INF { -INF } else { clamp(x * k) },
                                    if y >= INF { INF } else { clamp(y * k + k - 1) },
                                )
                            })
                            .collect(),
                    );
                    q.push_back((g, VSet::empty().union(&pre)));
                }
                _ => {}
            }
            return self.touch(a, q);
        }
        // multi-term
        let (nf, k, d) = f.norm();
        let ns = preimage(s, k, d);
        let cur = self.vset(&nf);
        let new = cur.inter(&ns);
        if new.is_empty() {
            return false;
        }
        let stored = self.forms.get(&nf);
        if stored.is_some_and(|x| *x == new) {
            return true;
        }
        if stored.is_none() && new == cur {
            // already implied, unless only by what is known of the form as a whole
            match atom_lookup(&AtomKind::Compound(nf.clone())) {
                Some(a) if self.atoms.contains_key(&a) => {}
                _ => return true,
            }
        }
        if nf.t.iter().any(|(a, t)| matches!(t, Term::Tab(_)) && self.atoms.contains_key(a)) {
            if let Some(g) = self.simplify(&nf) {
                if g != nf && g.t.len() < 2 {
                    q.push_back((g, new.clone()));
                } else if g != nf {
                    // stored in its simpler form
                    let (gf, k, d) = g.norm();
                    let gs = self.direct(&gf).inter(&preimage(&new, k, d));
                    if gs.is_empty() {
                        return false;
                    }
                    if self.forms.get(&gf) != Some(&gs) && !self.set_form(&gf, gs, q) {
                        return false;
                    }
                }
            }
        }
        self.set_form(&nf, new, q)
    }
    fn set_form(&mut self, nf: &Form, new: VSet, q: &mut std::collections::VecDeque<(Form, VSet)>) -> bool {
        Rc::make_mut(&mut self.forms).insert(nf.clone(), new.clone());
        if let Some(a) = atom_lookup(&AtomKind::Compound(nf.clone())) {
            let c = self.atom_set(a).inter(&new);
            if c.is_empty() {
                return false;
            }
            let stored = self.atoms.get(&a).is_some_and(|x| *x == c);
            if !stored {
                self.set_atom(a, c);
                if !self.touch(a, q) {
                    return false;
                }
            }
        }
        self.prop_form(nf, q)
    }
    /// bounds consistency of one multi-term fact
    fn prop_form(&mut self, nf: &Form, q: &mut std::collections::VecDeque<(Form, VSet)>) -> bool {
        let s = match self.forms.get(nf) {
            Some(s) => s.clone(),
            None => return true,
        };
        let (flo, fhi) = (s.lo(), s.hi());
        let rs: Vec<(i128, i128)> = nf.t.iter().map(|(b, u)| self.term_range(*b, u)).collect();
        for i in 0..nf.t.len() {
            let (a, t) = nf.t[i].clone();
            let mut rl = 0;
            let mut rh = 0;
            for (j, (l, h)) in rs.iter().enumerate() {
                if i != j {
                    rl = clamp(rl + l);
                    rh = clamp(rh + h);
                }
            }
            let tl = if flo <= -INF || rh >= INF { -INF } else { flo - rh };
            let th = if fhi >= INF || rl <= -INF { INF } else { fhi - rl };
            if tl <= rs[i].0 && th >= rs[i].1 {
                continue;
            }
            if tl > th {
                return false;
            }
            q.push_back((Form { c: 0, t: Rc::new(vec![(a, t)]) }, VSet::range(tl, th)));
        }
        // an equation, modulo one of its coefficients
        if let Some(v) = s.single() {
            for (i, (_, t)) in nf.t.iter().enumerate() {
                let g = match t {
                    Term::Lin(k) if k.abs() > 1 => k.abs(),
                    _ => continue,
                };
                if nf.t[..i].iter().any(|(_, u)| matches!(u, Term::Lin(k) if k.abs() == g)) {
                    continue;
                }
                let mut rest = vec![];
                let (mut rl, mut rh) = (0, 0);
                for ((b, u), (l, h)) in nf.t.iter().zip(rs.iter()) {
                    if !matches!(u, Term::Lin(k) if k % g == 0) {
                        rest.push((*b, u.clone()));
                        rl = clamp(rl + l);
                        rh = clamp(rh + h);
                    }
                }
                if rl <= -INF || rh >= INF || rh - rl >= 2 * g || rl == rh {
                    continue;
                }
                let first = rl + (v - rl).rem_euclid(g);
                if first > rh {
                    return false;
                }
                let vals: Vec<i128> = (0..3).map(|n| first + n * g).filter(|x| *x <= rh).collect();
                q.push_back((Form { c: 0, t: Rc::new(rest) }, VSet::from_vals(vals)));
            }
        }
        // exact refinement for small finite domains: two finite atoms
        if nf.t.len() == 2 {
            let (a, _) = nf.t[0];
            let (b, _) = nf.t[1];
            let (sa, sb) = (self.atom_set(a), self.atom_set(b));
            if sa.size() <= 4096 && sb.size() <= 4096 {
                let fa = Form { c: 0, t: Rc::new(vec![nf.t[0].clone()]) };
                let fb = Form { c: 0, t: Rc::new(vec![nf.t[1].clone()]) };
                let va: Vec<(i128, i128)> = sa.iter().map(|x| (x, fa.at(x))).collect();
                let vb: Vec<(i128, i128)> = sb.iter().map(|y| (y, fb.at(y))).collect();
                let distinct = |v: &[(i128, i128)]| VSet::from_vals(v.iter().map(|p| p.1).collect());
                let (da, db) = (distinct(&va), distinct(&vb));
                if da.size().saturating_mul(db.size()) > 4096 {
                    return true;
                }
                let ga = VSet::from_vals(da.iter().filter(|x| db.iter().any(|y| s.contains(x + y))).collect());
                let gb = VSet::from_vals(db.iter().filter(|y| da.iter().any(|x| s.contains(x + y))).collect());
                let oka: Vec<i128> = va.iter().filter(|p| ga.contains(p.1)).map(|p| p.0).collect();
                let okb: Vec<i128> = vb.iter().filter(|p| gb.contains(p.1)).map(|p| p.0).collect();
                if oka.is_empty() {
                    return false;
                }
                let na = VSet::from_vals(oka);
                let nb = VSet::from_vals(okb);
                if na != sa {
                    q.push_back((Form::atom(a), na));
                }
                if nb != sb {
                    q.push_back((Form::atom(b), nb));
                }
            }
        }
        true
    }
    /// re-examine the facts that depend on an atom
    fn touch(&mut self, a: AtomId, q: &mut std::collections::VecDeque<(Form, VSet)>) -> bool {
        let fs: Vec<Form> = self
            .forms
            .keys()
            .filter(|f| {
                f.t.iter().any(|x| x.0 == a || {
                    let mut v = vec![];
                    match atom_def(x.0) {
                        Some((g, _)) => {
                            g.deep_atoms(&mut v);
                            v.contains(&a)
                        }
                        None => false,
                    }
                })
            })
            .cloned()
            .collect();
        for f in fs {
            // a table that has become linear
            if f.t.iter().any(|x| x.0 == a && matches!(x.1, Term::Tab(_))) {
                if let Some(g) = self.simplify(&f) {
                    if g != f && g.t.len() >= 2 && !g.t.iter().any(|x| x.0 == a && matches!(x.1, Term::Tab(_))) {
                        q.push_back((g, self.forms[&f].clone()));
                    }
                }
            }
            // the stored set may now be contradictory
            let (lo, hi) = self.div_range(&f, 3);
            let old = self.forms[&f].clone();
            let s = old.inter(&VSet::range(lo, hi));
            if s.is_empty() {
                return false;
            }
            if s != old {
                if !self.set_form(&f, s, q) {
                    return false;
                }
            } else if !self.prop_form(&f, q) {
                return false;
            }
        }
        true
    }
    pub fn show(&self) -> Vec<String> {
        let mut v = vec![];
        for (a, s) in self.atoms.iter() {
            v.push(format!("{} in {}", atom_name(*a), s.show()));
        }
        for (f, s) in self.forms.iter() {
            v.push(format!("{} in {}", f.show(), s.show()));
        }
        v
    }
}
