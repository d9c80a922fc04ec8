//! Loop analysis: bounded unrolling, otherwise widening to a symbolic loop head with template invariants
//! found by ascending iteration, and a termination measure.
use crate::form::*;
use crate::interp::*;
use crate::val::*;
use rustc_public::ty::*;
use std::collections::{BTreeMap, HashMap};
use std::rc::Rc;

#[derive(Clone, Debug)]
pub struct Leaf {
    pub name: String,
    pub atom: AtomId,
    pub entry: Form,
    /// counters this wide do not overflow by repeated constant steps
    pub wide: bool,
}

pub type Iterate<'a> = dyn Fn(&mut En, State) -> Vec<(State, usize)> + 'a;

#[derive(Clone, Debug)]
struct Tmpl {
    form: Form,
    lo: i128,
    hi: i128,
    keep: bool,
}

struct Gen<'a> {
    id: u32,
    leaves: &'a mut Vec<Leaf>,
    by_atom: &'a mut HashMap<AtomId, usize>,
    changed: bool,
    pre: &'a State,
    back: &'a State,
    ys: HashMap<AtomId, Form>,
    fail: Option<String>,
    obj_tys: HashMap<KeyId, Ty>,
}

impl<'a> Gen<'a> {
    fn leaf(&mut self, h: &Form, b: &Form, path: &str, lo: i128, hi: i128, wide: bool) -> Form {
        if let (Some(a), true) = (h.single(), h.c == 0) {
            if matches!(h.t[0].1, Term::Lin(1)) && self.by_atom.contains_key(&a) {
                self.ys.insert(a, b.clone());
                return h.clone();
            }
        }
        if h == b || self.back.facts.eq0(&h.sub(b)) {
            return h.clone();
        }
        let name = format!("L{}.{}", self.id, path);
        let a = atom(AtomKind::Named(name.clone()), lo, hi);
        if !self.by_atom.contains_key(&a) {
            self.by_atom.insert(a, self.leaves.len());
            self.leaves.push(Leaf { name, atom: a, entry: h.clone(), wide });
        }
        self.changed = true;
        self.ys.insert(a, b.clone());
        Form::atom(a)
    }
    fn slice(&mut self, h: &SliceV, b: &SliceV, path: &str) -> SliceV {
        if h.base == b.base {
            let start = self.leaf(&h.start, &b.start, &format!("{}.start", path), 0, LEN_MAX, true);
            let len = self.leaf(&h.len, &b.len, &format!("{}.len", path), 0, LEN_MAX, true);
            return SliceV { base: h.base.clone(), start, len };
        }
        let e = match (&h.base, &b.base) {
            (SBase::Sym(_, e), _) | (SBase::Obj(_, e), _) | (_, SBase::Sym(_, e)) | (_, SBase::Obj(_, e)) => *e,
            (SBase::Bytes(_), _) => Ty::unsigned_ty(UintTy::U8),
            (SBase::Text(_), _) => Ty::unsigned_ty(UintTy::U8),
            _ => {
                self.fail = Some(format!("slices of different constants at {}", path));
                return h.clone();
            }
        };
        let k = key(&format!("L{}.{}", self.id, path));
        let own = matches!(&h.base, SBase::Sym(x, _) if *x == k);
        if !own {
            self.changed = true;
        }
        let len = self.leaf(
            if own { &h.len } else { &h.len },
            &b.len,
            &format!("{}.len", path),
            0,
            LEN_MAX,
            true,
        );
        if own {
            return SliceV { base: h.base.clone(), start: h.start.clone(), len };
        }
        SliceV { base: SBase::Sym(k, e), start: Form::k(0), len }
    }
    fn fresh(&mut self, path: &str, t: Option<Ty>) -> Val {
        match t {
            Some(t) => {
                self.changed = true;
                let k = key(&format!("L{}.{}", self.id, path));
                // a symbolic value of any enum stays symbolic
                sym(k, t)
            }
            None => {
                self.changed = true;
                Val::Opaque(key(&format!("L{}.{}", self.id, path)))
            }
        }
    }
    fn is_fresh(&self, k: KeyId) -> bool {
        key_name(k).starts_with(&format!("L{}.", self.id))
    }
    fn list(&mut self, h: &[Val], b: &[Val], path: &str, tys: &dyn Fn(usize) -> Option<Ty>) -> Vec<Val> {
        (0..h.len()).map(|i| self.val(&h[i], &b[i], &format!("{}.{}", path, i), tys(i))).collect()
    }
    fn val(&mut self, h: &Val, b: &Val, path: &str, ty: Option<Ty>) -> Val {
        // leaves of this loop have to be visited even if nothing changed
        match (h, b) {
            (Val::Int(x), Val::Int(y)) => {
                let (lo, hi) = match ty.and_then(int_range) {
                    Some(r) => r,
                    None => (-(1i128 << 63), 1i128 << 64),
                };
                let wide = ty.and_then(int_bits).map(|b| b.0 >= 64).unwrap_or(false);
                Val::Int(self.leaf(x, y, path, lo, hi, wide))
            }
            (Val::Bool(f, s), Val::Bool(g, t)) => {
                if f == g && s == t {
                    if let Some(a) = f.single() {
                        if self.by_atom.contains_key(&a) {
                            self.ys.insert(a, g.clone());
                        }
                    }
                    return h.clone();
                }
                let conv = |st: &State, f: &Form, s: &VSet| -> Option<Form> {
                    let v = st.facts.vset(f);
                    if v.subset(s) {
                        return Some(Form::k(1));
                    }
                    if v.inter(s).is_empty() {
                        return Some(Form::k(0));
                    }
                    f.map_small(&|x| s.contains(x) as i128)
                };
                // the head value is a leaf of this loop, or it is what entered the loop: it must not be read
                // under what one path through the body has found out
                let own = f.single().map(|a| f.c == 0 && self.by_atom.contains_key(&a)).unwrap_or(false);
                let fx = if own && *s == VSet::one(1) { Some(f.clone()) } else { conv(self.pre, f, s) };
                match (fx, conv(self.back, g, t)) {
                    (Some(x), Some(y)) => Val::Bool(self.leaf(&x, &y, path, 0, 1, false), VSet::one(1)),
                    _ => {
                        self.changed = true;
                        Val::Bool(Form::named(&format!("L{}.{}.any", self.id, path), 0, 1), VSet::one(1))
                    }
                }
            }
            (Val::Undef, _) => Val::Undef,
            (_, Val::Undef) => {
                self.changed = true;
                Val::Undef
            }
            (Val::Agg(x), Val::Agg(y)) if x.f.len() == y.f.len() => {
                let t = x.ty;
                let tys = move |i: usize| -> Option<Ty> { agg_field_ty(t, i) };
                let f = self.list(&x.f, &y.f, path, &tys);
                Val::agg(x.ty, f)
            }
            (Val::Enum(x), Val::Enum(y)) if x.v == y.v && x.f.len() == y.f.len() => {
                let (t, v) = (x.ty, x.v);
                let tys = move |i: usize| variant_fields(t, v).get(i).cloned();
                let f = self.list(&x.f, &y.f, path, &tys);
                Val::en(x.ty, x.v, f)
            }
            (Val::Enum(x), _) => self.fresh(path, Some(x.ty)),
            (Val::Sym(k, t), _) => {
                if self.is_fresh(*k) || h == b {
                    return h.clone();
                }
                if let Val::Agg(_) = b {
                    if let Some(e) = expand(*k, *t) {
                        return self.val(&e, b, path, ty);
                    }
                }
                self.fresh(path, Some(*t))
            }
            (Val::Agg(x), Val::Sym(k, t)) => match expand(*k, *t) {
                Some(e @ Val::Agg(_)) => self.val(h, &e, path, ty),
                _ => self.fresh(path, Some(x.ty)),
            },
            (Val::Slice(x), Val::Slice(y)) => Val::Slice(Rc::new(self.slice(x, y, path))),
            (Val::Vec(x), Val::Vec(y)) => {
                if x == y {
                    if let Some((_, n)) = &x.base {
                        if let Some(a) = n.single() {
                            if self.by_atom.contains_key(&a) {
                                self.ys.insert(a, n.clone());
                            }
                        }
                    }
                    return h.clone();
                }
                let k = key(&format!("L{}.{}", self.id, path));
                let own = matches!(&x.base, Some((k2, _)) if *k2 == k) && x.items.is_empty();
                if !own {
                    self.changed = true;
                }
                let n = self.leaf(&x.len(), &y.len(), &format!("{}.len", path), 0, LEN_MAX, true);
                Val::Vec(Rc::new(VecV { elem: x.elem, base: Some((k, n)), items: vec![] }))
            }
            (Val::Iter(x), Val::Iter(y)) => match (&**x, &**y) {
                (IterV::Slice(p, v), IterV::Slice(q, w)) if v == w => Val::Iter(Rc::new(IterV::Slice(self.slice(p, q, path), *v))),
                (IterV::Chunks(p, n, x), IterV::Chunks(q, m, y)) if n == m && x == y => {
                    Val::Iter(Rc::new(IterV::Chunks(self.slice(p, q, path), n.clone(), x.clone())))
                }
                _ => {
                    self.fail = Some(format!("iterators of different kind at {}", path));
                    h.clone()
                }
            },
            (Val::Ref(p), Val::Ref(q)) => self.pl_ref(p, q, path, ty, h),
            (Val::Dyn(p, t), Val::Dyn(q, u)) if t == u => Val::Dyn(Rc::new(self.val(p, q, path, None)), *t),
            (Val::Dyn(..), Val::Dyn(..)) | (Val::SymDyn(..), Val::Dyn(..)) => {
                match h {
                    Val::SymDyn(k, _) if self.is_fresh(*k) => h.clone(),
                    _ => match ty.and_then(pointee) {
                        Some(p) => {
                            self.changed = true;
                            Val::SymDyn(key(&format!("L{}.{}", self.id, path)), p)
                        }
                        None => {
                            self.changed = true;
                            Val::Opaque(key(&format!("L{}.{}", self.id, path)))
                        }
                    },
                }
            }
            (Val::Str(p), Val::Str(q)) => {
                if p == q {
                    return h.clone();
                }
                let k = key(&format!("L{}.{}", self.id, path));
                let v = Val::Str(Rc::new(vec![Piece::Arg(Rc::new(ArgV {
                    val: Val::Opaque(k),
                    ty: Ty::unsigned_ty(UintTy::U8),
                    how: "text".into(),
                    spec: "".into(),
                }))]));
                if v != *h {
                    self.changed = true;
                }
                v
            }
            (Val::Opaque(k), _) if self.is_fresh(*k) => h.clone(),
            _ => {
                if h == b {
                    return h.clone();
                }
                self.fresh(path, ty)
            }
        }
    }
    fn pl_ref(&mut self, p: &Pl, q: &Pl, path: &str, ty: Option<Ty>, h: &Val) -> Val {
        if p == q {
            return h.clone();
        }
        if p.path == q.path {
            if let (Base::Elem(a, f, t), Base::Elem(b, g, _)) = (&p.base, &q.base) {
                if a == b {
                    let i = self.leaf(f, g, &format!("{}.idx", path), 0, LEN_MAX, true);
                    return Val::Ref(Pl { base: Base::Elem(*a, i, *t), path: p.path.clone() });
                }
            }
        }
        if let Base::Obj(k, _) = &p.base {
            if self.is_fresh(*k) && p.path.is_empty() {
                return h.clone();
            }
        }
        match ty.and_then(pointee) {
            Some(t) => {
                self.changed = true;
                Val::Ref(Pl::new(Base::Obj(key(&format!("L{}.{}*", self.id, path)), t)))
            }
            None => {
                self.changed = true;
                Val::Opaque(key(&format!("L{}.{}", self.id, path)))
            }
        }
    }
}

pub fn agg_field_ty(t: Ty, i: usize) -> Option<Ty> {
    match &*kind(t) {
        TyKind::RigidTy(RigidTy::Tuple(ts)) => ts.get(i).cloned(),
        TyKind::RigidTy(RigidTy::Array(e, _)) => Some(*e),
        TyKind::RigidTy(RigidTy::Adt(d, _)) if d.kind() == AdtKind::Struct => variant_fields(t, 0).get(i).cloned(),
        TyKind::RigidTy(RigidTy::Closure(_, ga)) => {
            let up = ga.0.last().and_then(|x| x.ty().cloned())?;
            match &*kind(up) {
                TyKind::RigidTy(RigidTy::Tuple(ts)) => ts.get(i).cloned(),
                _ => None,
            }
        }
        _ => None,
    }
}

/// largest number of iterations of a slice or range iteration that is certain to be small
fn small_bound(st: &State, v: &Val, depth: u32, max: i128) -> Option<i128> {
    if depth == 0 {
        return None;
    }
    match v {
        Val::Iter(i) => match &**i {
            IterV::Slice(s, _) | IterV::Chunks(s, ..) => {
                let (_, hi) = st.facts.range(&s.len);
                if hi <= max.max(24) {
                    Some(hi)
                } else {
                    None
                }
            }
        },
        Val::Agg(a) => {
            let n = adt_name(a.ty);
            if (n == "std::ops::Range" || n == "std::ops::range::Range") && a.f.len() == 2 {
                if let (Val::Int(x), Val::Int(y)) = (&a.f[0], &a.f[1]) {
                    let (_, hi) = st.facts.range(&y.sub(x));
                    return if hi <= max.max(24) { Some(hi) } else { None };
                }
            }
            a.f.iter().find_map(|x| small_bound(st, x, depth - 1, max))
        }
        Val::Slice(s) => {
            let (_, hi) = st.facts.range(&s.len);
            if hi <= max.max(16) {
                Some(hi)
            } else {
                None
            }
        }
        _ => None,
    }
}

fn changed_bounds(h: &State, b: &State, max: i128) -> Option<i128> {
    // some changed value that bounds the iterations by a small number
    let u = h.frames.len() - 1;
    let (fh, fb) = (&h.frames[u].locals, &b.frames[u].locals);
    let mut best = None;
    for (x, y) in fh.iter().zip(fb.iter()) {
        if x != y && !matches!(y, Val::Undef) {
            if let Some(n) = small_bound(h, x, 4, max) {
                best = Some(best.map_or(n, |m: i128| m.min(n)));
            }
        }
    }
    best
}
pub fn has_growth(h: &State, b: &State) -> bool {
    h.trace.len() != b.trace.len() || list_growth(h, b)
}
/// a list or a string has another length
pub fn list_growth(h: &State, b: &State) -> bool {
    fn grows(x: &Val, y: &Val) -> bool {
        match (x, y) {
            (Val::Vec(a), Val::Vec(b)) => a.len() != b.len(),
            (Val::Agg(a), Val::Agg(b)) if a.f.len() == b.f.len() => a.f.iter().zip(b.f.iter()).any(|(p, q)| grows(p, q)),
            (Val::Str(a), Val::Str(b)) => a.len() != b.len(),
            _ => false,
        }
    }
    for (a, b) in h.frames.iter().zip(b.frames.iter()) {
        if !Rc::ptr_eq(a, b) && a.locals.iter().zip(b.locals.iter()).any(|(x, y)| grows(x, y)) {
            return true;
        }
    }
    h.heap.iter().any(|(k, v)| b.heap.get(k).map(|w| grows(v, w)).unwrap_or(false))
}
/// some integer with a known value steps to another known value
fn const_counter(h: &State, b: &State) -> bool {
    fn steps(x: &Val, y: &Val) -> bool {
        match (x, y) {
            (Val::Int(p), Val::Int(q)) => matches!((p.constant(), q.constant()), (Some(a), Some(b)) if a != b),
            _ => false,
        }
    }
    // the number that an enumeration has come to, inside whatever adaptors
    fn numbers(x: &Val, y: &Val, d: u32) -> bool {
        match (x, y) {
            (Val::Agg(a), Val::Agg(c)) if d > 0 && a.f.len() == c.f.len() => {
                let own = adt_name(a.ty).ends_with("::Enumerate") || adt_name(a.ty).ends_with("::Take");
                a.f.iter().zip(c.f.iter()).any(|(p, q)| own && steps(p, q) || numbers(p, q, d - 1))
            }
            _ => false,
        }
    }
    let u = h.frames.len() - 1;
    h.frames[u].locals.iter().zip(b.frames[u].locals.iter()).any(|(x, y)| steps(x, y) || numbers(x, y, 6))
}
/// a slice or iterator whose remaining length is unbounded advances: unrolling cannot finish
fn unbounded_advance(h: &State, b: &State, max: i128) -> bool {
    fn adv(st: &State, x: &Val, y: &Val, d: u32, max: i128) -> bool {
        if d == 0 {
            return false;
        }
        match (x, y) {
            (Val::Slice(a), Val::Slice(c)) => a.base == c.base && a.len != c.len && st.facts.range(&a.len).1 > max.max(24),
            (Val::Iter(a), Val::Iter(c)) => match (&**a, &**c) {
                (IterV::Slice(p, _), IterV::Slice(q, _)) | (IterV::Chunks(p, ..), IterV::Chunks(q, ..)) => {
                    p.len != q.len && st.facts.range(&p.len).1 > max.max(24)
                }
                _ => false,
            },
            (Val::Agg(a), Val::Agg(c)) if a.f.len() == c.f.len() => {
                let n = adt_name(a.ty);
                if (n == "std::ops::Range" || n == "std::ops::range::Range") && a.f.len() == 2 && x != y {
                    if let (Val::Int(p), Val::Int(q)) = (&a.f[0], &a.f[1]) {
                        if st.facts.range(&q.sub(p)).1 > max.max(24) {
                            return true;
                        }
                    }
                }
                a.f.iter().zip(c.f.iter()).any(|(p, q)| adv(st, p, q, d - 1, max))
            }
            (Val::Enum(a), Val::Enum(c)) if a.v == c.v => a.f.iter().zip(c.f.iter()).any(|(p, q)| adv(st, p, q, d - 1, max)),
            _ => false,
        }
    }
    for (a, c) in h.frames.iter().zip(b.frames.iter()) {
        if !Rc::ptr_eq(a, c) && a.locals.iter().zip(c.locals.iter()).any(|(x, y)| adv(h, x, y, 6, max)) {
            return true;
        }
    }
    false
}

/// the same values everywhere
fn same_memory(a: &State, b: &State) -> bool {
    a.frames.len() == b.frames.len()
        && a.frames.iter().zip(b.frames.iter()).all(|(x, y)| Rc::ptr_eq(x, y) || x.locals.iter().zip(y.locals.iter()).all(|(p, q)| same_val(p, q, 8)))
        && a.heap.iter().all(|(k, v)| b.heap.get(k).map(|w| same_val(v, w, 8)).unwrap_or(false))
}
/// equal, though one of them may have been looked at more closely
fn same_val(x: &Val, y: &Val, depth: u32) -> bool {
    if x == y {
        return true;
    }
    if depth == 0 {
        return false;
    }
    let all = |p: &[Val], q: &[Val]| p.len() == q.len() && p.iter().zip(q.iter()).all(|(p, q)| same_val(p, q, depth - 1));
    match (x, y) {
        (Val::Sym(k, t), o) | (o, Val::Sym(k, t)) => match expand(*k, *t) {
            Some(Val::Sym(..)) | None => false,
            Some(e) => same_val(&e, o, depth - 1),
        },
        (Val::Agg(p), Val::Agg(q)) => p.ty == q.ty && all(&p.f, &q.f),
        (Val::Enum(p), Val::Enum(q)) => {
            let mut r = (**q).clone();
            r.f = p.f.clone();
            r == **p && all(&p.f, &q.f)
        }
        (Val::Vec(h), Val::Vec(b)) => {
            let ((kh, nh), (kb, nb)) = match (&h.base, &b.base) {
                (Some(x), Some(y)) => (x.clone(), y.clone()),
                _ => return h.base == b.base && all(&h.items, &b.items),
            };
            let d = match nh.sub(&nb).constant() {
                Some(d) if kh == kb && (0..=4).contains(&d) => d,
                _ => return false,
            };
            let full: Vec<Val> = (0..d).map(|i| sym_elem(kh, &nb.addk(i), h.elem)).chain(h.items.iter().cloned()).collect();
            all(&full, &b.items)
        }
        _ => false,
    }
}

struct Mark {
    allocs: usize,
    ends: usize,
    recs: usize,
}

impl En {
    fn note_stuck(&mut self, head: &State, back: &State, func: &str, span: &str) {
        if crate::observe::on() && crate::observe::exact(back) && same_memory(head, back) {
            self.stuck.push((func.to_string(), span.to_string(), back.clone()));
        }
    }
    fn mark(&self) -> Mark {
        Mark { ends: self.ends.len(), recs: self.recs.len(), allocs: self.allocs.len() }
    }
    fn rollback(&mut self, m: &Mark) {
        self.ends.truncate(m.ends);
        self.recs.truncate(m.recs);
        self.allocs.truncate(m.allocs);
    }
    pub fn handle_loop(&mut self, mut st: State, info: &Rc<FnInfo>, l: usize) -> Vec<(State, usize)> {
        let header = info.loops[l].header;
        // forget what is dead at the head
        let u = st.top() as usize;
        let mut fr = (*st.frames[u]).clone();
        for i in 0..fr.locals.len() {
            if !info.live_in[header][i] && !info.addr[i] {
                fr.locals[i] = Val::Undef;
            }
        }
        st.frames[u] = Rc::new(fr);
        let span = span_str(info.body.blocks[header].terminator.source_info.span);
        let inf = info.clone();
        let live = {
            let inf = info.clone();
            move |i: usize| inf.live_in[header][i] || inf.addr[i]
        };
        let it = move |en: &mut En, s: State| -> Vec<(State, usize)> {
            en.explore(s, &inf, header, Some(l))
                .into_iter()
                .filter_map(|(s, e)| match e {
                    Exit::To(b) => Some((s, b)),
                    Exit::Return(_) => None,
                })
                .collect()
        };
        let name = info.name.clone();
        self.run_loop(st, header, &it, &live, &name, &span)
    }

    /// analyse a loop: `iterate` runs one iteration and yields states with `header` (back edge) or an exit label
    pub fn run_loop(
        &mut self,
        st: State,
        header: usize,
        iterate: &Iterate,
        live: &dyn Fn(usize) -> bool,
        fname: &str,
        span: &str,
    ) -> Vec<(State, usize)> {
        let clean = |s: State| clean_state(s, live);
        let st = clean(st);
        if self.cut > 0 {
            let mut exits: Vec<(State, usize)> = vec![];
            let mut cur = vec![st];
            for _ in 0..self.cut {
                let mut next: Vec<State> = vec![];
                for s in cur {
                    let head = s.clone();
                    for (s2, b) in iterate(self, s) {
                        if s2.trace.len() > self.cut_trace {
                            continue;
                        }
                        if b == header {
                            let s2 = clean(s2);
                            self.note_stuck(&head, &s2, fname, span);
                            next.push(s2);
                        } else {
                            exits.push((s2, b));
                        }
                    }
                }
                merge_plain(&mut next);
                cur = next;
            }
            merge_exits(&mut exits);
            return exits;
        }
        let start = self.mark();
        // ---- first iteration, and bounded unrolling
        let mut exits: Vec<(State, usize)> = vec![];
        let mut cur = vec![st.clone()];
        let mut limit = (self.unroll as usize).max(if self.bounded > 0 { self.bounded as usize + 4 } else { 0 });
        let mut n = 0;
        let mut ok = true;
        let steps0 = self.steps;
        let mut tentative = 300_000;
        let mut peel = false;
        let mut width = 24;
        while !cur.is_empty() {
            if peel && n >= limit && cur.len() <= 3 {
                // the iterations with a known counter stay exact, the others are widened
                for s in cur {
                    exits.extend(self.widen_loop(s, header, iterate, live, fname, span));
                }
                merge_exits(&mut exits);
                return exits;
            }
            if n >= limit || cur.len() > width || (n > 2 && self.steps - steps0 > tentative) {
                ok = false;
                break;
            }
            let mut next: Vec<State> = vec![];
            for s in cur.iter() {
                for (s2, b) in iterate(self, s.clone()) {
                    if b == header {
                        let s2 = clean(s2);
                        self.note_stuck(s, &s2, fname, span);
                        next.push(s2);
                    } else {
                        exits.push((s2, b));
                    }
                }
            }
            merge_plain(&mut next);
            if n == 0 {
                let mut bound: Option<i128> = Some(0);
                for b in &next {
                    match changed_bounds(&st, b, self.bounded) {
                        Some(x) => bound = bound.map(|m| m.max(x)),
                        None => bound = None,
                    }
                }
                peel = !next.is_empty() && next.iter().all(|b| const_counter(&st, b) && !has_growth(&st, b));
                match bound {
                    Some(b) => {
                        limit = limit.max(b as usize + 2);
                        if b <= 16 {
                            width = 600;
                        }
                    }
                    None => {
                        if next.iter().any(|b| has_growth(&st, b) || unbounded_advance(&st, b, self.bounded)) {
                            if !next.iter().all(|b| const_counter(&st, b)) {
                                ok = false;
                                break;
                            }
                            tentative = 20_000;
                        }
                    }
                }
            }
            n += 1;
            cur = next;
        }
        if ok {
            merge_exits(&mut exits);
            return exits;
        }
        drop(exits);
        self.rollback(&start);
        self.widen_loop(st, header, iterate, live, fname, span)
    }
    /// find an invariant of the loop by widening
    fn widen_loop(
        &mut self,
        st: State,
        header: usize,
        iterate: &Iterate,
        live: &dyn Fn(usize) -> bool,
        fname: &str,
        span: &str,
    ) -> Vec<(State, usize)> {
        let start = self.mark();
        let clean = |s: State| clean_state(s, live);
        self.loop_seq += 1;
        let id = self.loop_seq;
        let mut leaves: Vec<Leaf> = vec![];
        let mut by_atom: HashMap<AtomId, usize> = HashMap::new();
        let mut head = st.clone();
        let mut tm: Vec<Tmpl> = vec![];
        // templates that turned out to bound nothing are not tried again
        let mut useless: std::collections::HashSet<Form> = Default::default();
        let outer_sig = st.frames.len();
        let _ = outer_sig;
        let mut round = 0;
        loop {
            round += 1;
            self.rollback(&start);
            let rec = self.recs.len();
            let mut h = head.clone();
            h.facts = st.facts.clone();
            let mut feasible = true;
            for t in &tm {
                if t.lo > -INF || t.hi < INF {
                    if !h.facts.assume(&t.form, &VSet::range(t.lo, t.hi)) {
                        feasible = false;
                    }
                }
            }
            if !feasible {
                // contradictory templates cannot happen: every template holds at entry
                self.end(EndKind::Unsup(format!("inconsistent loop invariants in {}", fname)), h);
                return vec![];
            }
            let mut tr = (*st.trace).clone();
            tr.push(Event::Loop(rec));
            h.trace = Rc::new(tr);
            self.recs.push(LoopRec {
                func: fname.to_string(),
                span: span.to_string(),
                pre: st.clone(),
                head: h.clone(),
                backs: vec![],
                exits: vec![],
                tlen: h.trace.len(),
                leaves: vec![],
                ys: vec![],
                inv: vec![],
                measure: None,
            });
            let outs = iterate(self, h.clone());
            let mut backs: Vec<State> = vec![];
            let mut exits: Vec<(State, usize)> = vec![];
            for (s, b) in outs {
                if b == header {
                    backs.push(clean(s));
                } else {
                    exits.push((s, b));
                }
            }
            // structural widening
            let mut changed = false;
            let mut nhead = head.clone();
            let mut ys: Vec<HashMap<AtomId, Form>> = vec![];
            for b in &backs {
                let mut g = Gen {
                    id,
                    leaves: &mut leaves,
                    by_atom: &mut by_atom,
                    changed: false,
                    pre: &st,
                    back: b,
                    ys: HashMap::new(),
                    fail: None,
                    obj_tys: HashMap::new(),
                };
                let _ = &g.obj_tys;
                let mut frames = vec![];
                for (fi, (fh, fb)) in nhead.frames.iter().zip(b.frames.iter()).enumerate() {
                    if Rc::ptr_eq(fh, fb) {
                        frames.push(fh.clone());
                        continue;
                    }
                    let mut nf = (**fh).clone();
                    for (li, (vh, vb)) in fh.locals.iter().zip(fb.locals.iter()).enumerate() {
                        let t = local_ty(fh.inst, li);
                        let p = if fi == nhead.frames.len() - 1 { format!("{}", li) } else { format!("f{}.{}", fi, li) };
                        nf.locals[li] = g.val(vh, vb, &p, t);
                    }
                    frames.push(Rc::new(nf));
                }
                let mut heap: BTreeMap<KeyId, Val> = (*nhead.heap).clone();
                for (k, v) in b.heap.iter() {
                    let hv = match nhead.heap.get(k) {
                        Some(x) => x.clone(),
                        None => {
                            if key_name(*k).starts_with('h') && key_name(*k)[1..].parse::<u32>().map(|n| n >= st.nheap).unwrap_or(false) {
                                continue; // allocated in the iteration
                            }
                            // first write to an object that was symbolic so far
                            match b.obj_ty(*k) {
                                Some(t) => {
                                    let s = sym(*k, t);
                                    match (&s, v) {
                                        (Val::Sym(k2, t2), Val::Agg(_)) => expand(*k2, *t2).unwrap_or(s),
                                        _ => s,
                                    }
                                }
                                None => continue,
                            }
                        }
                    };
                    let nv = g.val(&hv, v, &key_name(*k), b.obj_ty(*k));
                    heap.insert(*k, nv);
                }
                if let Some(f) = g.fail.take() {
                    self.end(EndKind::Unsup(f), b.clone());
                    return vec![];
                }
                changed |= g.changed;
                ys.push(std::mem::take(&mut g.ys));
                drop(g);
                nhead.frames = frames;
                nhead.heap = Rc::new(heap);
                if nhead.taint.is_none() {
                    nhead.taint = b.taint.clone();
                }
            }
            // substitution of each back state, complete over all leaves
            let sub_of = |y: &HashMap<AtomId, Form>| -> HashMap<AtomId, Form> {
                let mut m = y.clone();
                for l in &leaves {
                    m.entry(l.atom).or_insert_with(|| l.entry.clone());
                }
                m
            };
            let entry: HashMap<AtomId, Form> = leaves.iter().map(|l| (l.atom, l.entry.clone())).collect();
            // templates
            let mut want: Vec<(Form, bool)> = vec![];
            for l in &leaves {
                let a = Form::atom(l.atom);
                want.push((a.clone(), true));
                if l.entry.constant().is_none() {
                    want.push((a.sub(&l.entry), true));
                }
            }
            for i in 0..leaves.len() {
                for j in 0..i {
                    let (a, b) = (Form::atom(leaves[i].atom), Form::atom(leaves[j].atom));
                    let (x, y) = (leaves[i].entry.clone(), leaves[j].entry.clone());
                    want.push((a.add(&b).sub(&x.add(&y)), false));
                    want.push((a.sub(&b).sub(&x.sub(&y)), false));
                    // constant ratio
                    if let Some(y0) = ys.first().map(|m| sub_of(m)) {
                        if let (Some(di), Some(dj)) = (
                            y0[&leaves[i].atom].sub(&a).constant(),
                            y0[&leaves[j].atom].sub(&b).constant(),
                        ) {
                            if di != 0 && dj != 0 && di.abs() != dj.abs() {
                                let f = a.scale(dj).sub(&b.scale(di));
                                let e = x.scale(dj).sub(&y.scale(di));
                                want.push((f.sub(&e), false));
                            }
                        }
                    }
                }
            }
            // facts on the way back or out that relate leaves with known quantities
            for s in backs.iter().chain(exits.iter().map(|x| &x.0)) {
                for (f, set) in s.facts.forms.iter() {
                    if want.len() > 160 {
                        break;
                    }
                    if st.facts.forms.get(f) == Some(set) {
                        continue;
                    }
                    let ats = f.atoms();
                    if ats.len() <= 6 && ats.iter().any(|a| by_atom.contains_key(a)) && ats.iter().all(|a| by_atom.contains_key(a) || known_before(*a, id)) {
                        let e = f.subst_many(&entry);
                        want.push((f.sub(&e), false));
                        if let Some(k) = e.constant() {
                            let _ = k;
                        } else {
                            want.push((f.clone(), false));
                        }
                    }
                }
            }
            let mut tchanged = false;
            for (f, keep) in want {
                if f.constant().is_some() || useless.contains(&f) || tm.iter().any(|t| t.form == f) {
                    continue;
                }
                let e = f.subst_many(&entry);
                let (lo, hi) = st.facts.range(&e);
                if lo > hi {
                    continue;
                }
                if self.trace_on && round > 6 {
                    eprintln!("   new {} in [{}, {}]", f.show(), lo, hi);
                }
                tm.push(Tmpl { form: f, lo, hi, keep });
                tchanged = true;
            }
            let wide: HashMap<AtomId, bool> = leaves.iter().map(|l| (l.atom, l.wide)).collect();
            for t in tm.iter_mut() {
                for (b, y) in backs.iter().zip(ys.iter()) {
                    let m = sub_of(y);
                    let v = t.form.subst_many(&m);
                    let (mut lo, mut hi) = b.facts.range(&v);
                    if lo > hi {
                        continue;
                    }
                    // counters of 64 bits moved by small constant steps do not overflow
                    let diff = v.sub(&t.form);
                    if let (Some(d), Some(a)) = (diff.constant(), t.form.atoms().iter().find(|a| by_atom.contains_key(a))) {
                        if t.form.atoms().iter().filter(|a| by_atom.contains_key(a)).count() == 1 && *wide.get(a).unwrap_or(&false) {
                            let coef = t.form.t.iter().find(|x| x.0 == *a).map(|x| matches!(x.1, Term::Lin(1) | Term::Lin(-1))).unwrap_or(false);
                            if coef && d.abs() <= 65536 {
                                if d > 0 && hi > t.hi && t.hi >= LEN_MAX && round > 3 {
                                    hi = t.hi;
                                }
                                if d < 0 && lo < t.lo && t.lo <= -LEN_MAX && round > 3 {
                                    lo = t.lo;
                                }
                            }
                        }
                    }
                    if self.trace_on && round > 6 && (lo < t.lo || hi > t.hi) {
                        eprintln!("   moved {} in [{}, {}]: [{}, {}] by {}", t.form.show(), t.lo, t.hi, lo, hi, diff.show());
                    }
                    if lo < t.lo {
                        tchanged = true;
                        t.lo = if round <= 2 {
                            lo
                        } else if t.lo > 0 && lo >= 0 {
                            0
                        } else if t.lo > -LEN_MAX * 2 && round <= 6 && is_wide_step(&diff, lo, t.lo) {
                            -LEN_MAX * 4
                        } else {
                            -INF
                        };
                    }
                    if hi > t.hi {
                        tchanged = true;
                        t.hi = if round <= 2 {
                            hi
                        } else if t.hi < 0 && hi <= 0 {
                            0
                        } else if t.hi < LEN_MAX * 2 && round <= 6 && is_wide_step(&diff, hi, t.hi) {
                            LEN_MAX * 4
                        } else {
                            INF
                        };
                    }
                }
            }
            tm.retain(|t| {
                let r = t.keep || t.lo > -INF || t.hi < INF || round < 3;
                if !r {
                    useless.insert(t.form.clone());
                }
                r
            });
            if self.trace_on {
                eprintln!(
                    "LOOP L{} {} {} round {}: {} backs, {} exits, {} leaves, struct {} templ {}",
                    id,
                    fname,
                    span,
                    round,
                    backs.len(),
                    exits.len(),
                    leaves.len(),
                    changed,
                    tchanged
                );
                if round > 8 {
                    for t in &tm {
                        eprintln!("   {} in [{}, {}]", t.form.show(), t.lo, t.hi);
                    }
                }
            }
            if round > 14 {
                self.end(EndKind::Unsup(format!("no loop invariant found in {} at {}", fname, span)), h);
                return vec![];
            }
            if changed || tchanged {
                head = nhead;
                continue;
            }
            // stable: this was the final run
            if crate::observe::on() {
                for (b, y) in backs.iter().zip(ys.iter()) {
                    let plain = b.taint.is_none() && !b.trace.iter().skip(h.trace.len()).any(|e| matches!(e, Event::Loop(_)));
                    if plain && leaves.iter().all(|l| y.get(&l.atom).map(|f| *f == Form::atom(l.atom)).unwrap_or(false)) && same_memory(&clean(h.clone()), b) {
                        self.stuck.push((fname.to_string(), span.to_string(), b.clone()));
                    }
                }
            }
            let measure = find_measure(&h, &backs, &ys.iter().map(|y| sub_of(y)).collect::<Vec<_>>(), &leaves, &tm);
            if crate::observe::on() && measure.is_none() && !backs.is_empty() && self.ends.len() == start.ends && crate::observe::exact(&st) && backs.iter().all(|b| b.taint.is_none()) {
                if let Some(s) = never_leaves(&st, &h, &exits, &leaves, &backs, &ys.iter().map(|y| sub_of(y)).collect::<Vec<_>>()) {
                    self.stuck.push((fname.to_string(), span.to_string(), s));
                }
            }
            let r = &mut self.recs[rec];
            r.backs = backs;
            r.exits = exits.iter().map(|x| x.0.clone()).collect();
            r.ys = ys.iter().map(|y| sub_of(y)).collect();
            r.leaves = leaves.clone();
            r.inv = tm.iter().filter(|t| t.lo > -INF || t.hi < INF).map(|t| (t.form.clone(), VSet::range(t.lo, t.hi))).collect();
            r.measure = measure;
            merge_exits(&mut exits);
            return exits;
        }
    }
}

/// a condition on what was there before the loop under which no iteration can leave it
fn never_leaves(pre: &State, head: &State, exits: &[(State, usize)], leaves: &[Leaf], backs: &[State], ys: &[HashMap<AtomId, Form>]) -> Option<State> {
    let entry: HashMap<AtomId, Form> = leaves.iter().map(|l| (l.atom, l.entry.clone())).collect();
    let mut s = pre.clone();
    for (e, _) in exits {
        let mut f = e.facts.clone();
        if s.facts.forms.iter().any(|(x, v)| !f.assume(x, v)) || s.facts.atoms.iter().any(|(a, v)| !f.assume(&Form::atom(*a), v)) {
            continue;
        }
        // what this exit asks of the loop's variables and of what stays
        let asked = e.facts.forms.iter().find_map(|(x, v)| {
            if head.facts.forms.get(x) == Some(v) {
                return None;
            }
            let mut moving = Form::k(0);
            for (a, t) in x.t.iter() {
                if leaves.iter().any(|l| l.atom == *a) {
                    moving = moving.add(&Form { c: 0, t: std::rc::Rc::new(vec![(*a, t.clone())]) });
                }
            }
            let still = x.sub(&moving);
            if still.constant().is_some() || !still.atoms().iter().all(|a| pre.facts.atoms.contains_key(a) || known_before(*a, 0)) {
                return None;
            }
            // what these can be, on entry and after any iteration
            let (mut lo, mut hi) = s.facts.range(&moving.subst_many(&entry));
            for (b, y) in backs.iter().zip(ys) {
                let (x, y) = b.facts.range(&moving.subst_many(y));
                lo = lo.min(x);
                hi = hi.max(y);
            }
            let small = 1 << 32;
            if lo < -small || hi > small {
                return None;
            }
            let mut g = s.facts.clone();
            if v.lo() > -INF / 2 && hi < INF / 2 && g.assume(&still, &VSet::range(-INF, v.lo() - hi - 1)) {
                return Some(g);
            }
            let mut g = s.facts.clone();
            if v.hi() < INF / 2 && lo > -INF / 2 && g.assume(&still, &VSet::range(v.hi() - lo + 1, INF)) {
                return Some(g);
            }
            None
        });
        s.facts = asked?;
    }
    Some(s)
}

fn clean_state(mut s: State, live: &dyn Fn(usize) -> bool) -> State {
    let u = s.top() as usize;
    let need = s.frames[u].locals.iter().enumerate().any(|(i, v)| !live(i) && !matches!(v, Val::Undef));
    if need {
        let mut fr = (*s.frames[u]).clone();
        for i in 0..fr.locals.len() {
            if !live(i) {
                fr.locals[i] = Val::Undef;
            }
        }
        s.frames[u] = Rc::new(fr);
    }
    s
}

fn is_wide_step(diff: &Form, _new: i128, _old: i128) -> bool {
    diff.constant().map(|d| d.abs() <= 65536).unwrap_or(false)
}

/// quantity that existed before the loop (not a leaf or element introduced by it or by a loop inside it)
fn known_before(a: AtomId, id: u32) -> bool {
    let n = atom_name(a);
    let b = n.as_bytes();
    let mut i = 0;
    while i < b.len() {
        if b[i] == b'L' && (i == 0 || !b[i - 1].is_ascii_alphanumeric()) {
            let mut j = i + 1;
            let mut v = 0u64;
            while j < b.len() && b[j].is_ascii_digit() {
                v = v.saturating_mul(10).saturating_add((b[j] - b'0') as u64);
                j += 1;
            }
            if j > i + 1 && b.get(j) == Some(&b'.') && v >= id as u64 {
                return false;
            }
            i = j;
        } else {
            i += 1;
        }
    }
    true
}

pub fn merge_plain(v: &mut Vec<State>) {
    let mut i = 0;
    while i < v.len() {
        let mut j = i + 1;
        while j < v.len() {
            if let Some(f) = merge_states(&v[i], &v[j]) {
                v[i].facts = f;
                v.remove(j);
                j = i + 1;
            } else {
                j += 1;
            }
        }
        i += 1;
    }
}
pub fn merge_exits(v: &mut Vec<(State, usize)>) {
    let mut i = 0;
    while i < v.len() {
        let mut j = i + 1;
        while j < v.len() {
            if v[i].1 == v[j].1 {
                if let Some(f) = merge_states(&v[i].0, &v[j].0) {
                    v[i].0.facts = f;
                    v.remove(j);
                    j = i + 1;
                    continue;
                }
            }
            j += 1;
        }
        i += 1;
    }
}

// ---------------------------------------------------------------- termination
fn slices_weight(v: &Val, depth: u32) -> Form {
    if depth == 0 {
        return Form::k(0);
    }
    match v {
        Val::Slice(s) => s.len.clone(),
        Val::Agg(a) => a.f.iter().fold(Form::k(0), |x, y| x.add(&slices_weight(y, depth - 1))),
        Val::Enum(a) => a.f.iter().fold(Form::k(0), |x, y| x.add(&slices_weight(y, depth - 1))),
        Val::Sym(k, t) => match expand(*k, *t) {
            Some(Val::Sym(..)) | None => Form::k(0),
            Some(e) => slices_weight(&e, depth - 1),
        },
        _ => Form::k(0),
    }
}
/// change of (number of elements + octets they hold) of a vector
pub fn vec_weight_delta(h: &VecV, b: &VecV) -> Option<Form> {
    let (kh, nh) = h.base.clone()?;
    let (kb, nb) = b.base.clone()?;
    if kh != kb {
        return None;
    }
    let d = nh.sub(&nb).constant()?;
    if !(0..=4).contains(&d) {
        return None;
    }
    let w = |x: &Val| slices_weight(x, 5).addk(1);
    let mut r = Form::k(0);
    for x in &b.items {
        r = r.add(&w(x));
    }
    for x in &h.items {
        r = r.sub(&w(x));
    }
    for i in 0..d {
        let e = sym_elem(kh, &nb.addk(i), h.elem);
        r = r.sub(&w(&e));
    }
    Some(r)
}
pub fn find_vecs(h: &State) -> Vec<(usize, usize)> {
    let mut r = vec![];
    for (fi, f) in h.frames.iter().enumerate() {
        for (li, v) in f.locals.iter().enumerate() {
            if let Val::Vec(_) = v {
                r.push((fi, li));
            }
        }
    }
    r
}

fn find_measure(h: &State, backs: &[State], ys: &[HashMap<AtomId, Form>], leaves: &[Leaf], tm: &[Tmpl]) -> Option<String> {
    if backs.is_empty() {
        return Some("no iteration repeats".into());
    }
    // (name, delta per back as range hi)
    let mut cands: Vec<(String, Vec<i128>)> = vec![];
    let mut forms: Vec<Form> = vec![];
    for l in leaves {
        let a = Form::atom(l.atom);
        forms.push(a.clone());
        forms.push(a.neg());
    }
    for t in tm {
        forms.push(t.form.clone());
        forms.push(t.form.neg());
    }
    for f in forms {
        let ds: Vec<i128> = backs
            .iter()
            .zip(ys.iter())
            .map(|(b, y)| {
                let d = f.subst_many(y).sub(&f);
                let (l, h) = b.facts.range(&d);
                if l > h {
                    -1
                } else {
                    h
                }
            })
            .collect();
        // bounded below wherever it is lowered
        let least = -(16 * LEN_MAX);
        let bounded = || h.facts.range(&f).0 > least || backs.iter().zip(ds.iter()).all(|(b, d)| *d >= 0 || b.facts.range(&f).0 > least);
        if ds.iter().any(|d| *d < 0) && bounded() {
            cands.push((f.show(), ds));
        }
    }
    for (fi, li) in find_vecs(h) {
        if let Val::Vec(hv) = &h.frames[fi].locals[li] {
            let ds: Option<Vec<i128>> = backs
                .iter()
                .map(|b| match &b.frames[fi].locals[li] {
                    Val::Vec(bv) => vec_weight_delta(hv, bv).map(|d| b.facts.range(&d).1),
                    _ => None,
                })
                .collect();
            if let Some(ds) = ds {
                if ds.iter().any(|d| *d < 0) {
                    cands.push((format!("elements of local {} plus the octets they hold", li), ds));
                }
            }
        }
    }
    // lexicographic
    let mut left: Vec<usize> = (0..backs.len()).collect();
    let mut names = vec![];
    while !left.is_empty() {
        let c = cands.iter().find(|(_, ds)| left.iter().all(|i| ds[*i] <= 0) && left.iter().any(|i| ds[*i] < 0));
        match c {
            Some((n, ds)) => {
                names.push(n.clone());
                left.retain(|i| ds[*i] >= 0);
            }
            None => return None,
        }
    }
    Some(names.join(", then "))
}
