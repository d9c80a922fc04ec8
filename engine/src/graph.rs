//! The call graph of instances, through the bodies of core and alloc as well.
//!
//! A node is an instance together with the concrete types behind its parameters of type `&dyn Trait`, as far
//! as they are known: a function that is handed different objects by different callers is looked at
//! separately for each of them.
use crate::val::{kind, norm_name};
use rustc_public::mir::alloc::GlobalAlloc;
use rustc_public::mir::mono::{Instance, InstanceKind};
use rustc_public::mir::visit::{Location, MirVisitor};
use rustc_public::mir::*;
use rustc_public::ty::*;
use rustc_public::CrateDef;
use std::collections::{BTreeSet, HashMap, HashSet};

#[derive(Clone, PartialEq, Eq, Hash)]
pub struct Key {
    pub inst: Instance,
    pub ctx: Vec<Option<Ty>>,
}
#[derive(Clone, Copy, PartialEq, Eq, Debug)]
pub enum How {
    Call,
    /// a method of an object whose type is known
    Object,
    /// a method of an object of unknown type, or a function pointer
    Any,
    /// a method of an object of a trait of this program that is made here
    Create,
    /// a function whose address is taken, or a method of an object that is made here to be handed to std
    Give,
    Drop,
}
#[derive(Clone)]
pub struct Edge {
    pub to: usize,
    pub site: String,
    pub how: How,
}
pub struct Node {
    pub key: Key,
    pub name: String,
    pub krate: String,
    pub local: bool,
    pub has_body: bool,
    pub edges: Vec<Edge>,
    pub facts: Vec<Fact>,
    pub span: String,
}
/// what a body does besides calling
#[derive(Clone, Debug)]
pub enum Fact {
    Static(String, String),
    ThreadLocal(String, String),
    Asm(String),
    PtrToInt(String),
}
#[derive(Default)]
pub struct Graph {
    pub nodes: Vec<Node>,
    index: HashMap<Key, usize>,
    work: Vec<usize>,
    /// calls of methods of objects of unknown type
    open: Vec<(usize, FnDef, GenericArgs, String)>,
    /// calls through function pointers
    ptrs: Vec<(usize, String, String)>,
    /// objects made, as (trait, type)
    vtables: Vec<(TraitDef, Ty)>,
    reified: Vec<(usize, String)>,
    pub generic: Vec<String>,
}

pub fn is_rasn(k: &str) -> bool {
    k == "rx509" || k == "decoder"
}

impl Graph {
    /// everything that can be reached from the functions of this crate
    pub fn build() -> Graph {
        let mut g = Graph::default();
        for it in rustc_public::all_local_items() {
            match Instance::try_from(it) {
                Ok(i) => {
                    g.node(Key { inst: i, ctx: vec![] });
                }
                Err(_) => g.generic.push(norm_name(&it.name().to_string())),
            }
        }
        let (mut oi, mut seen) = (0, HashSet::new());
        loop {
            while let Some(n) = g.work.pop() {
                g.scan(n);
            }
            // objects of unknown type: every type they are made of
            let mut new = vec![];
            for (n, d, ga, site) in &g.open {
                for (tr, t) in &g.vtables {
                    if d.associated_item().map(|a| assoc_trait(&a)) == Some(Some(tr.0)) && seen.insert((*n, *d, *t)) {
                        new.push((*n, *d, ga.clone(), *t, site.clone()));
                    }
                }
            }
            for (n, d, ga, t, site) in new {
                if let Some(i) = on_type(d, &ga, t) {
                    let to = g.node(Key { inst: i, ctx: vec![] });
                    g.edge(n, to, site, How::Any);
                }
            }
            while oi < g.ptrs.len() {
                oi += 1;
            }
            if g.work.is_empty() {
                break;
            }
        }
        let ptrs = std::mem::take(&mut g.ptrs);
        for (n, sig, site) in ptrs {
            for (to, s) in g.reified.clone() {
                if s == sig {
                    g.edge(n, to, site.clone(), How::Any);
                }
            }
        }
        g
    }
    fn node(&mut self, key: Key) -> usize {
        if let Some(n) = self.index.get(&key) {
            return *n;
        }
        let i = key.inst;
        let k = i.def.krate();
        let n = self.nodes.len();
        self.nodes.push(Node {
            name: norm_name(&i.name().to_string()),
            krate: k.name.to_string(),
            local: k.is_local,
            has_body: false,
            edges: vec![],
            facts: vec![],
            span: String::new(),
            key: key.clone(),
        });
        self.index.insert(key, n);
        self.work.push(n);
        n
    }
    fn edge(&mut self, from: usize, to: usize, site: String, how: How) {
        if !self.nodes[from].edges.iter().any(|e| e.to == to && e.how == how) {
            self.nodes[from].edges.push(Edge { to, site, how });
        }
    }
    fn scan(&mut self, n: usize) {
        let key = self.nodes[n].key.clone();
        if matches!(key.inst.kind, InstanceKind::Virtual { .. } | InstanceKind::LlvmIntrinsic) {
            return;
        }
        let body = match key.inst.body() {
            Some(b) => b,
            None => return,
        };
        self.nodes[n].has_body = true;
        self.nodes[n].span = site(&body.span);
        let dy = dyn_locals(&body, &key.ctx);
        let mut v = Scan { g: self, n, body: &body, dy: &dy, span: String::new() };
        for b in &body.blocks {
            v.visit_basic_block(b);
        }
    }
    /// the types of the objects that are made where a pointer to `from` becomes one to `to`
    fn unsize(&mut self, n: usize, from: Ty, to: Ty, span: &str) {
        if let Some((t, preds)) = unsized_pair(from, to) {
            self.object(n, t, &preds, span);
        }
    }
    fn object(&mut self, n: usize, t: Ty, preds: &[Binder<ExistentialPredicate>], span: &str) {
        for p in preds {
            if let ExistentialPredicate::Trait(tr) = &p.value {
                self.object_of(n, t, tr.def_id, &tr.generic_args, span);
            }
        }
        let d = Instance::resolve_drop_in_place(t);
        if !d.is_empty_shim() {
            let to = self.node(Key { inst: d, ctx: vec![] });
            self.edge(n, to, span.to_string(), How::Create);
        }
    }
    fn object_of(&mut self, n: usize, t: Ty, tr: TraitDef, ga: &GenericArgs, span: &str) {
        if !self.vtables.contains(&(tr, t)) {
            self.vtables.push((tr, t));
        }
        for a in tr.associated_items() {
            if let AssocKind::Fn { has_self: true, .. } = a.kind {
                let mut args = vec![GenericArgKind::Type(t)];
                args.extend(ga.0.iter().cloned());
                let d = FnDef(a.def_id.0);
                if d.generics_of().params.iter().any(|p| matches!(p.kind, GenericParamDefKind::Type { .. })) {
                    continue;
                }
                if let Some(i) = resolve(d, &GenericArgs(args)) {
                    let to = self.node(Key { inst: i, ctx: vec![] });
                    let how = if is_rasn(&tr.krate().name.to_string()) { How::Create } else { How::Give };
                    self.edge(n, to, span.to_string(), how);
                }
            }
        }
    }
    fn reify(&mut self, n: usize, i: Instance, span: &str) {
        let to = self.node(Key { inst: i, ctx: vec![] });
        self.edge(n, to, span.to_string(), How::Give);
        let s = sig_of(i);
        if !self.reified.iter().any(|(x, _)| *x == to) {
            self.reified.push((to, s));
        }
    }
    /// pointers inside a constant
    fn constant(&mut self, n: usize, a: &Allocation, span: &str, depth: usize) {
        if depth > 8 {
            return;
        }
        for (_, p) in &a.provenance.ptrs {
            match GlobalAlloc::from(p.0) {
                GlobalAlloc::Function(i) => self.reify(n, i, span),
                GlobalAlloc::VTable(t, Some(tr)) => self.object_of(n, t, tr.value.def_id, &tr.value.generic_args, span),
                GlobalAlloc::Static(d) => {
                    let f = Fact::Static(d.name().to_string(), span.to_string());
                    self.nodes[n].facts.push(f);
                }
                GlobalAlloc::Memory(m) => self.constant(n, &m, span, depth + 1),
                _ => {}
            }
        }
    }
}
fn resolve(d: FnDef, ga: &GenericArgs) -> Option<Instance> {
    std::panic::catch_unwind(std::panic::AssertUnwindSafe(|| Instance::resolve(d, ga).ok())).ok().flatten()
}
fn on_type(d: FnDef, ga: &GenericArgs, t: Ty) -> Option<Instance> {
    let mut g = ga.clone();
    g.0[0] = GenericArgKind::Type(t);
    resolve(d, &g)
}
fn assoc_trait(a: &AssocItem) -> Option<rustc_public::DefId> {
    a.def_id.0.parent()
}
fn sig_of(i: Instance) -> String {
    // what a caller through a pointer can see: the types of the arguments and of the result
    match i.fn_abi() {
        Ok(a) => format!("{:?}->{:?}", a.args.iter().map(|x| format!("{}", erase(x.ty))).collect::<Vec<_>>(), format!("{}", erase(a.ret.ty))),
        Err(_) => "?".into(),
    }
}
fn erase(t: Ty) -> String {
    let s = format!("{}", t);
    let mut o = String::new();
    let mut it = s.chars().peekable();
    while let Some(c) = it.next() {
        if c == '\'' {
            while it.peek().map_or(false, |x| x.is_alphanumeric() || *x == '_' || *x == '{' || *x == '}') {
                it.next();
            }
            if it.peek() == Some(&' ') {
                it.next();
            }
            continue;
        }
        o.push(c);
    }
    o
}
pub fn site(s: &Span) -> String {
    let l = s.get_lines();
    let f = s.get_filename().to_string();
    format!("{}:{}:{}", f, l.start_line, l.start_col)
}
fn as_dyn(t: Ty) -> Option<Vec<Binder<ExistentialPredicate>>> {
    match &*kind(t) {
        TyKind::RigidTy(RigidTy::Dynamic(p, _)) => Some(p.clone()),
        _ => None,
    }
}
/// the pointee, through references, raw pointers and boxes
fn pointee(t: Ty) -> Option<Ty> {
    match &*kind(t) {
        TyKind::RigidTy(RigidTy::Ref(_, t, _)) | TyKind::RigidTy(RigidTy::RawPtr(t, _)) => Some(*t),
        TyKind::RigidTy(RigidTy::Adt(d, ga)) if d.is_box() => ga.0.first().and_then(|a| a.ty().cloned()),
        _ => None,
    }
}
fn dyn_pointer(t: Ty) -> bool {
    pointee(t).map_or(false, |t| as_dyn(t).is_some())
}
fn unsized_pair(from: Ty, to: Ty) -> Option<(Ty, Vec<Binder<ExistentialPredicate>>)> {
    if from == to {
        return None;
    }
    if let Some(p) = as_dyn(to) {
        return if as_dyn(from).is_some() { None } else { Some((from, p)) };
    }
    if let (Some(a), Some(b)) = (pointee(from), pointee(to)) {
        return unsized_pair(a, b);
    }
    if let (TyKind::RigidTy(RigidTy::Adt(a, x)), TyKind::RigidTy(RigidTy::Adt(b, y))) = (&*kind(from), &*kind(to)) {
        if a == b {
            for (p, q) in x.0.iter().zip(y.0.iter()) {
                if let (Some(p), Some(q)) = (p.ty(), q.ty()) {
                    if let Some(r) = unsized_pair(*p, *q) {
                        return Some(r);
                    }
                }
            }
        }
    }
    None
}

/// what is known of the objects behind the locals: None is nothing
type DynSets = Vec<Option<BTreeSet<TyKey>>>;
#[derive(Clone, Copy, PartialEq, Eq)]
pub struct TyKey(pub Ty);
impl Ord for TyKey {
    fn cmp(&self, o: &Self) -> std::cmp::Ordering {
        format!("{:?}", self.0).cmp(&format!("{:?}", o.0))
    }
}
impl PartialOrd for TyKey {
    fn partial_cmp(&self, o: &Self) -> Option<std::cmp::Ordering> {
        Some(self.cmp(o))
    }
}
fn dyn_locals(b: &Body, ctx: &[Option<Ty>]) -> DynSets {
    let n = b.locals().len();
    let mut s: DynSets = vec![Some(BTreeSet::new()); n];
    let args = b.arg_locals().len();
    for l in 0..n {
        if !dyn_pointer(b.locals()[l].ty) {
            s[l] = None;
        }
    }
    for a in 0..args {
        if s[a + 1].is_some() {
            s[a + 1] = ctx.get(a).cloned().flatten().map(|t| [TyKey(t)].into_iter().collect());
        }
    }
    fn source(op: &Operand, b: &Body, s: &DynSets) -> Option<BTreeSet<TyKey>> {
        match op {
            Operand::Copy(p) | Operand::Move(p) => from_place(p, b, s),
            _ => None,
        }
    }
    // the pointer itself, or what is behind it
    fn from_place(p: &Place, _b: &Body, s: &DynSets) -> Option<BTreeSet<TyKey>> {
        if p.projection.is_empty() || p.projection == vec![ProjectionElem::Deref] {
            s[p.local].clone()
        } else {
            None
        }
    }
    loop {
        let old = s.clone();
        let mut put = |s: &mut DynSets, l: usize, v: Option<BTreeSet<TyKey>>| {
            if let Some(x) = &mut s[l] {
                match v {
                    Some(v) => x.extend(v),
                    None => s[l] = None,
                }
            }
        };
        for bb in &b.blocks {
            for st in &bb.statements {
                if let StatementKind::Assign(p, rv) = &st.kind {
                    if !p.projection.is_empty() {
                        continue;
                    }
                    let l = p.local;
                    if s[l].is_none() {
                        if let Rvalue::Ref(_, BorrowKind::Mut { .. }, q) | Rvalue::AddressOf(_, q) = rv {
                            if q.projection.is_empty() {
                                s[q.local] = None;
                            }
                        }
                        continue;
                    }
                    let v = match rv {
                        Rvalue::Use(op, ..) => source(op, b, &s),
                        Rvalue::CopyForDeref(q) => from_place(q, b, &s),
                        Rvalue::Ref(_, _, q) | Rvalue::AddressOf(_, q) => {
                            if q.projection == vec![ProjectionElem::Deref] {
                                s[q.local].clone()
                            } else {
                                None
                            }
                        }
                        Rvalue::Cast(CastKind::PointerCoercion(PointerCoercion::Unsize), op, to) => match op.ty(b.locals()) {
                            Ok(from) => match unsized_pair(from, *to) {
                                Some((t, _)) => Some([TyKey(t)].into_iter().collect()),
                                None => source(op, b, &s),
                            },
                            Err(_) => None,
                        },
                        Rvalue::Cast(_, op, _) => source(op, b, &s),
                        _ => None,
                    };
                    put(&mut s, l, v);
                }
            }
            if let TerminatorKind::Call { destination, .. } = &bb.terminator.kind {
                if destination.projection.is_empty() {
                    s[destination.local] = None;
                }
            }
        }
        if s == old {
            break;
        }
    }
    s
}

struct Scan<'a> {
    g: &'a mut Graph,
    n: usize,
    body: &'a Body,
    dy: &'a DynSets,
    span: String,
}
impl<'a> Scan<'a> {
    fn set(&self, op: &Operand) -> Option<BTreeSet<TyKey>> {
        match op {
            Operand::Copy(p) | Operand::Move(p) if p.projection.is_empty() => self.dy[p.local].clone().filter(|s| !s.is_empty()),
            _ => None,
        }
    }
    fn context(&self, args: &[Operand]) -> Vec<Option<Ty>> {
        let mut v: Vec<Option<Ty>> = args.iter().map(|a| self.set(a).filter(|s| s.len() == 1).map(|s| s.first().unwrap().0)).collect();
        while v.last() == Some(&None) {
            v.pop();
        }
        v
    }
    fn terminator(&mut self, t: &Terminator) {
        let span = self.span.clone();
        match &t.kind {
            TerminatorKind::Drop { place, .. } => {
                if let Ok(t) = place.ty(self.body.locals()) {
                    if as_dyn(t).is_none() {
                        let d = Instance::resolve_drop_in_place(t);
                        if !d.is_empty_shim() {
                            let to = self.g.node(Key { inst: d, ctx: vec![] });
                            self.g.edge(self.n, to, span, How::Drop);
                        }
                    }
                }
            }
            TerminatorKind::InlineAsm { .. } => self.g.nodes[self.n].facts.push(Fact::Asm(span)),
            TerminatorKind::Call { func, args, .. } => {
                let ft = match func.ty(self.body.locals()) {
                    Ok(t) => t,
                    Err(_) => return,
                };
                match &*kind(ft) {
                    TyKind::RigidTy(RigidTy::FnDef(d, ga)) => {
                        let i = match resolve(*d, ga) {
                            Some(i) => i,
                            None => return,
                        };
                        if let InstanceKind::Virtual { .. } = i.kind {
                            match args.first().and_then(|a| self.set(a)) {
                                Some(ts) => {
                                    let mut ctx = self.context(args);
                                    if !ctx.is_empty() {
                                        ctx[0] = None;
                                    }
                                    while ctx.last() == Some(&None) {
                                        ctx.pop();
                                    }
                                    for t in ts {
                                        if let Some(i) = on_type(*d, ga, t.0) {
                                            let to = self.g.node(Key { inst: i, ctx: ctx.clone() });
                                            self.g.edge(self.n, to, span.clone(), How::Object);
                                        }
                                    }
                                }
                                None => self.g.open.push((self.n, *d, ga.clone(), span)),
                            }
                        } else {
                            let to = self.g.node(Key { inst: i, ctx: self.context(args) });
                            self.g.edge(self.n, to, span, How::Call);
                        }
                    }
                    TyKind::RigidTy(RigidTy::FnPtr(s)) => {
                        let s = &s.value;
                        let t = format!("{:?}->{:?}", s.inputs().iter().map(|x| format!("{}", erase(*x))).collect::<Vec<_>>(), format!("{}", erase(s.output())));
                        self.g.ptrs.push((self.n, t, span));
                    }
                    _ => {}
                }
            }
            _ => {}
        }
    }
}
impl<'a> MirVisitor for Scan<'a> {
    fn visit_statement(&mut self, s: &Statement, l: Location) {
        self.span = site(&l.span());
        self.super_statement(s, l);
    }
    fn visit_terminator(&mut self, t: &Terminator, l: Location) {
        self.span = site(&l.span());
        self.terminator(t);
        self.super_terminator(t, l);
    }
    fn visit_rvalue(&mut self, rv: &Rvalue, l: Location) {
        let span = self.span.clone();
        match rv {
            Rvalue::Cast(CastKind::PointerCoercion(PointerCoercion::ReifyFnPointer(_)), op, _) => {
                if let Ok(t) = op.ty(self.body.locals()) {
                    if let TyKind::RigidTy(RigidTy::FnDef(d, ga)) = &*kind(t) {
                        if let Ok(i) = Instance::resolve_for_fn_ptr(*d, ga) {
                            self.g.reify(self.n, i, &span);
                        }
                    }
                }
            }
            Rvalue::Cast(CastKind::PointerCoercion(PointerCoercion::ClosureFnPointer(_)), op, _) => {
                if let Ok(t) = op.ty(self.body.locals()) {
                    if let TyKind::RigidTy(RigidTy::Closure(d, ga)) = &*kind(t) {
                        if let Ok(i) = Instance::resolve_closure(*d, ga, ClosureKind::FnOnce) {
                            self.g.reify(self.n, i, &span);
                        }
                    }
                }
            }
            Rvalue::Cast(CastKind::PointerCoercion(PointerCoercion::Unsize), op, to) => {
                if let Ok(t) = op.ty(self.body.locals()) {
                    self.g.unsize(self.n, t, *to, &span);
                }
            }
            Rvalue::Cast(CastKind::PointerExposeAddress, ..) => self.g.nodes[self.n].facts.push(Fact::PtrToInt(span)),
            Rvalue::ThreadLocalRef(d) => self.g.nodes[self.n].facts.push(Fact::ThreadLocal(d.name().to_string(), span)),
            _ => {}
        }
        self.super_rvalue(rv, l);
    }
    fn visit_const_operand(&mut self, c: &ConstOperand, l: Location) {
        if let ConstantKind::Allocated(a) = c.const_.kind() {
            let span = self.span.clone();
            self.g.constant(self.n, a, &span, 0);
        }
        let _ = l;
    }
}

impl Graph {
    /// the groups of nodes that can call each other
    pub fn sccs(&self) -> Vec<Vec<usize>> {
        let n = self.nodes.len();
        let (mut idx, mut low, mut on) = (vec![usize::MAX; n], vec![0; n], vec![false; n]);
        let (mut st, mut next, mut out) = (vec![], 0, vec![]);
        for r in 0..n {
            if idx[r] != usize::MAX {
                continue;
            }
            let mut call: Vec<(usize, usize)> = vec![(r, 0)];
            while let Some((v, i)) = call.pop() {
                if i == 0 {
                    idx[v] = next;
                    low[v] = next;
                    next += 1;
                    st.push(v);
                    on[v] = true;
                }
                let es: Vec<usize> = self.nodes[v].edges.iter().filter(|e| e.how != How::Create).map(|e| e.to).collect();
                if i > 0 {
                    low[v] = low[v].min(low[es[i - 1]]);
                }
                let mut j = i;
                let mut pushed = false;
                while j < es.len() {
                    let w = es[j];
                    if idx[w] == usize::MAX {
                        call.push((v, j + 1));
                        call.push((w, 0));
                        pushed = true;
                        break;
                    } else if on[w] {
                        low[v] = low[v].min(idx[w]);
                    }
                    j += 1;
                }
                if pushed {
                    continue;
                }
                if low[v] == idx[v] {
                    let mut c = vec![];
                    loop {
                        let w = st.pop().unwrap();
                        on[w] = false;
                        c.push(w);
                        if w == v {
                            break;
                        }
                    }
                    if c.len() > 1 || self.nodes[v].edges.iter().any(|e| e.to == v && e.how != How::Create) {
                        out.push(c);
                    }
                }
            }
        }
        out
    }
}

/// a type of this program occurs in the type
pub fn mentions(t: Ty, depth: usize) -> bool {
    let args = |g: &GenericArgs| g.0.iter().any(|a| a.ty().map_or(false, |t| mentions(*t, depth + 1)));
    if depth > 12 {
        return false;
    }
    match &*kind(t) {
        TyKind::RigidTy(r) => match r {
            RigidTy::Adt(d, g) => is_rasn(&d.krate().name.to_string()) || args(g),
            RigidTy::FnDef(d, g) => is_rasn(&d.krate().name.to_string()) || args(g),
            RigidTy::Closure(d, g) => is_rasn(&d.krate().name.to_string()) || args(g),
            RigidTy::Ref(_, t, _) | RigidTy::RawPtr(t, _) | RigidTy::Slice(t) | RigidTy::Array(t, _) => mentions(*t, depth + 1),
            RigidTy::Tuple(ts) => ts.iter().any(|t| mentions(*t, depth + 1)),
            RigidTy::Dynamic(p, _) => p.iter().any(|p| matches!(&p.value, ExistentialPredicate::Trait(t) if is_rasn(&t.def_id.krate().name.to_string()))),
            _ => false,
        },
        _ => false,
    }
}
impl Node {
    pub fn ours(&self) -> bool {
        is_rasn(&self.krate) || self.key.inst.args().0.iter().any(|a| a.ty().map_or(false, |t| mentions(*t, 0)))
    }
    /// name with the types it is made for
    pub fn show(&self) -> String {
        let mut s = self.name.clone();
        if !is_rasn(&self.krate) {
            let a: Vec<String> = self.key.inst.args().0.iter().filter_map(|a| a.ty().map(|t| format!("{}", t))).collect();
            if !a.is_empty() {
                s += &format!(" of {}", a.join(", "));
            }
        }
        let c: Vec<String> = self.key.ctx.iter().flatten().map(|t| format!("{}", t)).collect();
        if !c.is_empty() {
            s += &format!(" on {}", c.join(", "));
        }
        s
    }
}
