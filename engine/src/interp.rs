//! Abstract interpreter over monomorphic MIR.
use crate::form::*;
use crate::val::*;
use rustc_public::mir::alloc::GlobalAlloc;
use rustc_public::mir::mono::{Instance, InstanceKind};
use rustc_public::mir::*;
use rustc_public::ty::*;
use rustc_public::CrateDef;
use std::collections::{BTreeMap, BTreeSet, HashMap, HashSet, VecDeque};
use std::rc::Rc;

#[derive(Clone, Debug)]
pub enum Stop {
    Split(Form, Vec<VSet>),
    Panic(String),
    Unsup(String),
    Infeasible,
}
pub type R<T> = Result<T, Stop>;

pub fn unsup<T>(s: impl Into<String>) -> R<T> {
    Err(Stop::Unsup(s.into()))
}
pub fn split_bool<T>(f: &Form, s: &VSet) -> R<T> {
    Err(Stop::Split(f.clone(), vec![s.clone(), s.compl()]))
}

pub struct LoopInfo {
    pub header: usize,
    pub blocks: BTreeSet<usize>,
}
pub struct FnInfo {
    pub inst: Instance,
    pub name: String,
    pub local: bool,
    pub body: Body,
    pub loops: Vec<LoopInfo>,
    pub header_of: HashMap<usize, usize>,
    pub live_in: Vec<Vec<bool>>,
    pub addr: Vec<bool>,
    pub is_closure: bool,
}

#[derive(Clone, Debug, PartialEq)]
pub enum EndKind {
    Panic(String),
    Unsup(String),
    Exit(Val),
}
#[derive(Clone)]
pub struct End {
    pub kind: EndKind,
    pub func: String,
    pub span: String,
    pub chain: Vec<String>,
    pub state: State,
}

#[derive(Clone)]
pub struct LoopRec {
    pub func: String,
    pub span: String,
    pub pre: State,
    pub head: State,
    pub backs: Vec<State>,
    pub exits: Vec<State>,
    /// number of trace events at the head
    pub tlen: usize,
    /// (leaf name, value at head, invariants)
    pub leaves: Vec<crate::loops::Leaf>,
    /// per back state: leaf atom -> value after the iteration
    pub ys: Vec<HashMap<AtomId, Form>>,
    pub inv: Vec<(Form, VSet)>,
    pub measure: Option<String>,
}

/// memory that is asked for, or contents that are copied
#[derive(Clone)]
pub struct Alloc {
    pub what: String,
    pub size: Form,
    /// what is copied
    pub from: Option<SliceV>,
    pub func: String,
    pub span: String,
    pub state: State,
}

pub type Hook = Rc<dyn Fn(&mut En, &State, Instance, &[Val]) -> R<Option<Vec<(State, Val)>>>>;

pub struct En {
    pub infos: HashMap<Instance, Rc<FnInfo>>,
    pub names: HashMap<Instance, Rc<String>>,
    pub ends: Vec<End>,
    pub recs: Vec<LoopRec>,
    /// iterations that leave everything as it was: function, place, path
    pub stuck: Vec<(String, String, State)>,
    /// memory that is asked for
    pub allocs: Vec<Alloc>,
    pub stack: Vec<(Instance, String)>,
    pub hooks: HashMap<String, Hook>,
    pub dyn_hook: Option<Hook>,
    pub steps: u64,
    pub max_steps: u64,
    pub fns: BTreeSet<String>,
    pub calls: u64,
    pub asserts: u64,
    pub paths: u64,
    pub loop_seq: u32,
    pub cur: (String, String),
    pub unroll: u32,
    /// loops over sequences of at most this length are unrolled to the end
    pub bounded: i128,
    /// if not 0: every loop is unrolled this often, and what goes on after that is not looked at
    pub cut: u32,
    /// nor is a path with more events than this
    pub cut_trace: usize,
    pub trace_on: bool,
    pub opaque_std: BTreeSet<String>,
    pub foreign_events: bool,
    /// answers on the path being judged; facts only grow there, so they stay right
    pub memo: std::cell::RefCell<Option<Memo>>,
}
#[derive(Default, Clone)]
pub struct Memo {
    pub sets: HashMap<(Form, VSet), bool>,
    pub pos: HashMap<(KeyId, Form, Form), crate::model::Pos>,
}

pub enum RP {
    Pl(Pl),
    Slice(SliceV),
    Fat(Val),
}

#[derive(Debug)]
pub enum Exit {
    Return(Val),
    To(usize),
}

thread_local! {
    /// the number of iterations of every loop looked at by the analyses started from now on, if not 0
    pub static CUT: std::cell::Cell<u32> = const { std::cell::Cell::new(0) };
}

impl En {
    pub fn new() -> En {
        En {
            infos: HashMap::new(),
            names: HashMap::new(),
            ends: vec![],
            recs: vec![],
            stuck: vec![],
            allocs: vec![],
            stack: vec![],
            hooks: HashMap::new(),
            dyn_hook: None,
            steps: 0,
            max_steps: if crate::observe::on() && CUT.with(|c| c.get()) > 0 { 1_000_000 } else { 20_000_000 },
            fns: BTreeSet::new(),
            calls: 0,
            asserts: 0,
            paths: 0,
            loop_seq: 0,
            cur: (String::new(), String::new()),
            unroll: 12,
            bounded: 0,
            cut: CUT.with(|c| c.get()),
            cut_trace: usize::MAX,
            trace_on: std::env::var("RASN_TRACE").is_ok(),
            opaque_std: BTreeSet::new(),
            foreign_events: false,
            memo: Default::default(),
        }
    }
    pub fn name_of(&mut self, i: Instance) -> Rc<String> {
        if let Some(n) = self.names.get(&i) {
            return n.clone();
        }
        let n = Rc::new(norm_name(&i.def.name().to_string()));
        self.names.insert(i, n.clone());
        n
    }
    pub fn info(&mut self, i: Instance) -> Option<Rc<FnInfo>> {
        if let Some(x) = self.infos.get(&i) {
            return Some(x.clone());
        }
        let body = i.body()?;
        let name = norm_name(&i.def.name().to_string());
        let x = Rc::new(build_info(i, name, body));
        self.infos.insert(i, x.clone());
        Some(x)
    }

    // ------------------------------------------------------------ memory
    pub fn base_val(&self, st: &State, b: &Base) -> R<Val> {
        Ok(match b {
            Base::Local(u, l) => match st.frames.get(*u as usize).and_then(|f| f.locals.get(*l as usize)) {
                Some(v) => v.clone(),
                None => return unsup("dangling reference to a local"),
            },
            Base::Obj(k, t) => match st.heap.get(k) {
                Some(v) => v.clone(),
                None => sym(*k, *t),
            },
            Base::Elem(k, f, t) => sym_elem(*k, &st.facts.offset(*k, f, false), *t),
            Base::Const(v) => (**v).clone(),
        })
    }
    pub fn read_pl(&self, st: &State, p: &Pl) -> R<Val> {
        let mut v = self.base_val(st, &p.base)?;
        for e in p.path.iter() {
            v = self.project(st, v, e)?;
        }
        Ok(v)
    }
    pub fn project(&self, st: &State, v: Val, e: &PE) -> R<Val> {
        match (e, v) {
            (PE::F(i), Val::Agg(a)) => match a.f.get(*i as usize) {
                Some(x) => Ok(x.clone()),
                None => unsup(format!("field {} of {}", i, short_ty(a.ty))),
            },
            (PE::F(i), Val::Enum(a)) => match a.f.get(*i as usize) {
                Some(x) => Ok(x.clone()),
                None => unsup(format!("field {} of enum {}", i, short_ty(a.ty))),
            },
            (PE::F(i), Val::Sym(k, t)) => match expand(k, t) {
                Some(Val::Agg(a)) => Ok(a.f[*i as usize].clone()),
                _ => unsup(format!("field {} of symbolic {}", i, short_ty(t))),
            },
            (PE::F(0), v @ (Val::Ref(_) | Val::Slice(_) | Val::Dyn(..) | Val::SymDyn(..))) => Ok(v),
            (PE::V(i), Val::Enum(a)) => {
                if a.v == *i {
                    Ok(Val::Enum(a))
                } else {
                    Err(Stop::Infeasible)
                }
            }
            (PE::V(i), Val::Sym(k, t)) => Ok(Val::en(t, *i, sym_fields(k, t, *i))),
            (PE::I(f), Val::Agg(a)) => self.index_list(st, &a.f, f),
            (PE::I(f), Val::Sym(k, t)) => match elem_ty(t) {
                Some(e) => Ok(sym_elem(k, &st.facts.offset(k, f, false), e)),
                None => unsup("index of symbolic value"),
            },
            (PE::I(f), Val::Vec(v)) => match &v.base {
                None => self.index_list(st, &v.items, f),
                Some((k, n)) => {
                    let d = f.sub(n);
                    let r = st.facts.vset(&d);
                    if r.is_empty() {
                        return Err(Stop::Infeasible);
                    }
                    if r.hi() < 0 {
                        Ok(sym_elem(*k, f, v.elem))
                    } else if r.lo() >= 0 {
                        self.index_list(st, &v.items, &d)
                    } else {
                        split_bool(&d, &VSet::range(-INF, -1))
                    }
                }
            },
            (_, Val::Undef) => unsup("read of an undefined value"),
            (e, v) => unsup(format!("projection {:?} of {}", e, v.show_d(2))),
        }
    }
    pub fn index_list(&self, st: &State, l: &[Val], f: &Form) -> R<Val> {
        let r = st.facts.vset(f).inter(&VSet::range(0, l.len() as i128 - 1));
        if r.is_empty() {
            return Err(Stop::Infeasible);
        }
        if let Some(c) = r.single() {
            return Ok(l[c as usize].clone());
        }
        // table of constants
        let cs: Vec<Option<i128>> = l
            .iter()
            .map(|v| match v {
                Val::Int(f) => f.constant(),
                _ => None,
            })
            .collect();
        if cs.iter().all(|c| c.is_some()) {
            let last = cs[cs.len() - 1].unwrap();
            if let Some(t) = f.map_small(&|x| if x >= 0 && (x as usize) < cs.len() { cs[x as usize].unwrap() } else { last }) {
                return Ok(Val::Int(t));
            }
        }
        if r.size() <= 64 {
            return Err(Stop::Split(f.clone(), r.iter().map(VSet::one).collect()));
        }
        unsup("symbolic index into a list")
    }
    pub fn write_pl(&self, st: &mut State, p: &Pl, val: Val) -> R<()> {
        let facts = st.facts.clone();
        match &p.base {
            Base::Local(u, l) => {
                let fr = match st.frames.get_mut(*u as usize) {
                    Some(f) => f,
                    None => return unsup("dangling reference"),
                };
                let fr = Rc::make_mut(fr);
                let ty = fr.inst.body_local_ty(*l as usize);
                let slot = &mut fr.locals[*l as usize];
                write_path(slot, &p.path, val, &facts, ty)
            }
            Base::Obj(k, t) => {
                let mut v = match st.heap.get(k) {
                    Some(v) => v.clone(),
                    None => sym(*k, *t),
                };
                write_path(&mut v, &p.path, val, &facts, Some(*t))?;
                st.heap_set(*k, v);
                Ok(())
            }
            Base::Elem(..) => unsup("write into a symbolic region"),
            Base::Const(_) => unsup("write into a constant"),
        }
    }

    pub fn slice_elem_pl(&self, st: &State, s: &SliceV, i: &Form) -> R<Pl> {
        let idx = s.start.add(i);
        Ok(match &s.base {
            SBase::Sym(k, e) => Pl::new(Base::Elem(*k, idx, *e)),
            SBase::Obj(p, _) => p.push(PE::I(idx)),
            SBase::Bytes(b) => {
                let l: Vec<Val> = b.iter().map(|x| Val::int(*x as i128)).collect();
                Pl::new(Base::Const(Rc::new(self.index_list(st, &l, &idx)?)))
            }
            SBase::Vals(v) => Pl::new(Base::Const(Rc::new(self.index_list(st, v, &idx)?))),
            SBase::Text(_) => return unsup("index into formatted text"),
        })
    }
    pub fn slice_elem(&self, st: &State, s: &SliceV, i: &Form) -> R<Val> {
        let p = self.slice_elem_pl(st, s, i)?;
        self.read_pl(st, &p)
    }

    pub fn place(&self, st: &State, info: &FnInfo, p: &Place) -> R<RP> {
        let uid = st.top();
        let mut cur = RP::Pl(Pl::local(uid, p.local));
        let mut ty = info.body.locals()[p.local].ty;
        for e in &p.projection {
            cur = match e {
                ProjectionElem::Deref => {
                    let v = match cur {
                        RP::Pl(pl) => self.read_pl(st, &pl)?,
                        RP::Slice(_) => return unsup("deref of unsized place"),
                        RP::Fat(_) => return unsup("deref of dyn place"),
                    };
                    self.deref(v)?
                }
                ProjectionElem::Field(i, _) => match cur {
                    RP::Pl(pl) => {
                        if pointee(ty).is_some() {
                            RP::Pl(pl)
                        } else {
                            RP::Pl(pl.push(PE::F(*i as u32)))
                        }
                    }
                    _ => return unsup("field of unsized place"),
                },
                ProjectionElem::Downcast(v) => match cur {
                    RP::Pl(pl) => RP::Pl(pl.push(PE::V(vidx(v) as u32))),
                    _ => return unsup("downcast of unsized place"),
                },
                ProjectionElem::Index(l) => {
                    let i = match &st.frames[uid as usize].locals[*l] {
                        Val::Int(f) => f.clone(),
                        _ => return unsup("index value"),
                    };
                    match cur {
                        RP::Pl(pl) => RP::Pl(pl.push(PE::I(i))),
                        RP::Slice(s) => RP::Pl(self.slice_elem_pl(st, &s, &i)?),
                        _ => return unsup("index of dyn"),
                    }
                }
                ProjectionElem::ConstantIndex { offset, from_end, .. } => match cur {
                    RP::Pl(pl) => {
                        let n = array_len(ty).unwrap_or(0) as i128;
                        let i = if *from_end { n - *offset as i128 } else { *offset as i128 };
                        RP::Pl(pl.push(PE::I(Form::k(i))))
                    }
                    RP::Slice(s) => {
                        let i = if *from_end { s.len.addk(-(*offset as i128)) } else { Form::k(*offset as i128) };
                        RP::Pl(self.slice_elem_pl(st, &s, &i)?)
                    }
                    _ => return unsup("index of dyn"),
                },
                ProjectionElem::Subslice { from, to, from_end } => match cur {
                    RP::Slice(s) => {
                        let (f, t) = (*from as i128, *to as i128);
                        RP::Slice(SliceV {
                            base: s.base.clone(),
                            start: s.start.addk(f),
                            len: if *from_end { s.len.addk(-f - t) } else { Form::k(t - f) },
                        })
                    }
                    RP::Pl(pl) => {
                        let n = array_len(ty).unwrap_or(0) as i128;
                        let (f, t) = (*from as i128, *to as i128);
                        RP::Slice(SliceV {
                            base: SBase::Obj(pl, elem_ty(ty).unwrap()),
                            start: Form::k(f),
                            len: Form::k(if *from_end { n - f - t } else { t - f }),
                        })
                    }
                    _ => return unsup("subslice"),
                },
                ProjectionElem::OpaqueCast(_) => cur,
            };
            ty = match e.ty(ty) {
                Ok(t) => t,
                Err(_) => return unsup("projection type"),
            };
        }
        Ok(cur)
    }
    pub fn deref(&self, v: Val) -> R<RP> {
        Ok(match v {
            Val::Ref(p) => RP::Pl(p),
            Val::Slice(s) => RP::Slice((*s).clone()),
            Val::Dyn(p, t) => RP::Fat(Val::Dyn(p, t)),
            Val::SymDyn(k, t) => RP::Fat(Val::SymDyn(k, t)),
            Val::Sym(k, t) => match sym(k, t) {
                Val::Sym(..) => return unsup(format!("deref of symbolic {}", short_ty(t))),
                v => self.deref(v)?,
            },
            v => return unsup(format!("deref of {}", v.show_d(2))),
        })
    }
    pub fn read_place(&self, st: &State, info: &FnInfo, p: &Place) -> R<Val> {
        match self.place(st, info, p)? {
            RP::Pl(pl) => self.read_pl(st, &pl),
            RP::Slice(_) => unsup("read of unsized place"),
            RP::Fat(_) => unsup("read of dyn place"),
        }
    }
    /// value behind a reference
    pub fn load(&self, st: &State, r: &Val) -> R<Val> {
        match self.deref(r.clone())? {
            RP::Pl(p) => self.read_pl(st, &p),
            RP::Slice(s) => Ok(Val::Slice(Rc::new(s))),
            RP::Fat(v) => Ok(v),
        }
    }
    pub fn store(&self, st: &mut State, r: &Val, v: Val) -> R<()> {
        match self.deref(r.clone())? {
            RP::Pl(p) => self.write_pl(st, &p, v),
            _ => unsup("store through fat pointer"),
        }
    }

    pub fn operand(&self, st: &State, info: &FnInfo, o: &Operand) -> R<Val> {
        match o {
            Operand::Copy(p) | Operand::Move(p) => {
                let v = self.read_place(st, info, p)?;
                Ok(v)
            }
            Operand::Constant(c) => const_val(&c.const_),
            Operand::RuntimeChecks(r) => Ok(Val::bool(matches!(r, RuntimeChecks::OverflowChecks))),
        }
    }
    pub fn op_ty(&self, info: &FnInfo, o: &Operand) -> R<Ty> {
        o.ty(info.body.locals()).map_err(|_| Stop::Unsup("operand type".into()))
    }

    // ------------------------------------------------------------ rvalues
    pub fn rvalue(&mut self, st: &State, info: &FnInfo, r: &Rvalue, dty: Ty) -> R<Val> {
        match r {
            Rvalue::Use(o, _) => self.operand(st, info, o),
            Rvalue::CopyForDeref(p) => self.read_place(st, info, p),
            Rvalue::Ref(_, _, p) | Rvalue::AddressOf(_, p) | Rvalue::Reborrow(_, _, p) => self.ref_of(st, info, p, dty),
            Rvalue::Len(p) => match self.place(st, info, p)? {
                RP::Slice(s) => Ok(Val::Int(s.len)),
                RP::Pl(_) => {
                    let t = p.ty(info.body.locals()).unwrap();
                    match array_len(t) {
                        Some(n) => Ok(Val::int(n as i128)),
                        None => unsup("len"),
                    }
                }
                _ => unsup("len"),
            },
            Rvalue::UnaryOp(op, o) => {
                let v = self.operand(st, info, o)?;
                let ty = self.op_ty(info, o)?;
                match (op, v) {
                    (UnOp::Not, Val::Bool(f, s)) => Ok(Val::Bool(f, s.compl())),
                    (UnOp::Not, Val::Int(f)) => {
                        let (lo, hi) = int_range(ty).unwrap();
                        Ok(Val::Int(if lo < 0 { f.neg().addk(-1) } else { f.neg().addk(hi) }))
                    }
                    (UnOp::Neg, Val::Int(f)) => self.wrap(st, f.neg(), ty).map(Val::Int),
                    (UnOp::PtrMetadata, Val::Slice(s)) => Ok(Val::Int(s.len.clone())),
                    (UnOp::PtrMetadata, Val::Ref(_)) => {
                        let p = pointee(ty);
                        match p.and_then(array_len) {
                            Some(n) => Ok(Val::int(n as i128)),
                            None => Ok(Val::unit()),
                        }
                    }
                    (o, v) => unsup(format!("unary {:?} of {}", o, v.show_d(2))),
                }
            }
            Rvalue::BinaryOp(op, a, b) => {
                let (va, vb) = (self.operand(st, info, a)?, self.operand(st, info, b)?);
                let ta = self.op_ty(info, a)?;
                self.binop(st, *op, va, vb, ta, dty)
            }
            Rvalue::CheckedBinaryOp(op, a, b) => {
                let (va, vb) = (self.operand(st, info, a)?, self.operand(st, info, b)?);
                let ta = self.op_ty(info, a)?;
                let (fa, fb) = (self.as_int(st, &va)?, self.as_int(st, &vb)?);
                let (lo, hi) = int_range(ta).unwrap();
                let exact = match op {
                    BinOp::Add | BinOp::AddUnchecked => fa.add(&fb),
                    BinOp::Sub | BinOp::SubUnchecked => fa.sub(&fb),
                    BinOp::Mul | BinOp::MulUnchecked => self.mul(st, &fa, &fb)?,
                    _ => return unsup("checked op"),
                };
                let rng = VSet::range(lo, hi);
                let ov = if st.facts.entails(&exact, &rng) { Val::bool(false) } else { Val::Bool(exact.clone(), rng.compl()) };
                Ok(Val::agg(dty, vec![Val::Int(exact), ov]))
            }
            Rvalue::Cast(k, o, t) => {
                let v = self.operand(st, info, o)?;
                let from = self.op_ty(info, o)?;
                self.cast(st, k, v, from, *t)
            }
            Rvalue::Discriminant(p) => {
                let v = match self.place(st, info, p)? {
                    RP::Pl(pl) => self.read_pl(st, &pl)?,
                    _ => return unsup("discriminant"),
                };
                if let Val::Undef = v {
                    // assignments of values without size may have been left out
                    if let Some(z) = p.ty(info.body.locals()).ok().and_then(zst) {
                        return self.discriminant(&z);
                    }
                }
                self.discriminant(&v)
            }
            Rvalue::Repeat(o, n) => {
                let v = self.operand(st, info, o)?;
                let n = n.eval_target_usize().map_err(|_| Stop::Unsup("repeat".into()))?;
                if n > 65536 {
                    return unsup("large array");
                }
                Ok(Val::agg(dty, vec![v; n as usize]))
            }
            Rvalue::Aggregate(k, ops) => {
                let mut f = vec![];
                for o in ops {
                    f.push(self.operand(st, info, o)?);
                }
                match k {
                    AggregateKind::Adt(d, v, _, _, active) => match d.kind() {
                        AdtKind::Enum => Ok(Val::en(dty, vidx(v) as u32, f)),
                        AdtKind::Struct => {
                            if pointee(dty).is_some() && !f.is_empty() {
                                return Ok(f.into_iter().next().unwrap());
                            }
                            Ok(Val::agg(dty, f))
                        }
                        AdtKind::Union => {
                            let _ = active;
                            Ok(f.into_iter().next().unwrap())
                        }
                    },
                    AggregateKind::RawPtr(..) => {
                        // (data, metadata)
                        match (&f[0], &f[1]) {
                            (Val::Slice(s), Val::Int(n)) => Ok(Val::slice(s.base.clone(), s.start.clone(), n.clone())),
                            (Val::Ref(p), Val::Int(n)) => self.slice_from_raw(p, n),
                            (v, Val::Agg(_)) => Ok(v.clone()),
                            _ => unsup("raw pointer"),
                        }
                    }
                    _ => Ok(Val::agg(dty, f)),
                }
            }
            Rvalue::ThreadLocalRef(_) => unsup("thread local"),
        }
    }
    /// slice of n elements starting at the element p points to
    pub fn slice_from_raw(&self, p: &Pl, n: &Form) -> R<Val> {
        if let Base::Elem(k, f, e) = &p.base {
            if p.path.is_empty() {
                return Ok(Val::slice(SBase::Sym(*k, *e), f.clone(), n.clone()));
            }
        }
        if let Some(PE::I(f)) = p.path.last() {
            let mut pp = (*p.path).clone();
            pp.pop();
            return Ok(Val::slice(
                SBase::Obj(Pl { base: p.base.clone(), path: Rc::new(pp) }, Ty::unsigned_ty(UintTy::U8)),
                f.clone(),
                n.clone(),
            ));
        }
        if n.constant() == Some(0) {
            return Ok(Val::slice(SBase::Bytes(Rc::new(vec![])), Form::k(0), Form::k(0)));
        }
        unsup("slice from raw parts")
    }
    pub fn ref_of(&self, st: &State, info: &FnInfo, p: &Place, _dty: Ty) -> R<Val> {
        // &*x is x
        match self.place(st, info, p)? {
            RP::Pl(pl) => Ok(Val::Ref(pl)),
            RP::Slice(s) => Ok(Val::Slice(Rc::new(s))),
            RP::Fat(v) => Ok(v),
        }
    }
    pub fn discriminant(&self, v: &Val) -> R<Val> {
        match v {
            Val::Enum(e) => Ok(Val::int(discr_of_variant(e.ty, e.v))),
            Val::Sym(k, t) if is_enum(*t) => {
                let f = sym_discr(*k, *t);
                let n = num_variants(*t);
                let vals: Vec<i128> = (0..n).map(|i| discr_of_variant(*t, i)).collect();
                if vals.iter().enumerate().all(|(i, x)| *x == i as i128) {
                    return Ok(Val::Int(f));
                }
                match f.map_small(&|x| vals[(x.max(0) as usize).min(vals.len() - 1)]) {
                    Some(f) => Ok(Val::Int(f)),
                    None => unsup("discriminant map"),
                }
            }
            Val::Undef => unsup("discriminant of an undefined value"),
            Val::Agg(_) => Ok(Val::int(0)),
            v => unsup(format!("discriminant of {}", v.show_d(2))),
        }
    }
    /// known variant of an enum value; splits if undecided
    pub fn variant(&self, st: &State, v: &Val) -> R<u32> {
        match v {
            Val::Enum(e) => Ok(e.v),
            Val::Sym(k, t) if is_enum(*t) => {
                let f = sym_discr(*k, *t);
                let s = st.facts.vset(&f);
                if s.is_empty() {
                    return Err(Stop::Infeasible);
                }
                match s.single() {
                    Some(v) => Ok(v as u32),
                    None => Err(Stop::Split(f, s.iter().map(VSet::one).collect())),
                }
            }
            v => unsup(format!("variant of {}", v.show_d(2))),
        }
    }
    pub fn enum_fields(&self, st: &State, v: &Val) -> R<(u32, Vec<Val>)> {
        let i = self.variant(st, v)?;
        Ok((
            i,
            match v {
                Val::Enum(e) => e.f.clone(),
                Val::Sym(k, t) => sym_fields(*k, *t, i),
                _ => vec![],
            },
        ))
    }

    pub fn as_int(&self, st: &State, v: &Val) -> R<Form> {
        match v {
            Val::Int(f) => Ok(f.clone()),
            Val::Bool(f, s) => self.bool_int(st, f, s),
            Val::Undef => unsup("use of an undefined value"),
            v => unsup(format!("integer expected, got {}", v.show_d(2))),
        }
    }
    pub fn bool_int(&self, st: &State, f: &Form, s: &VSet) -> R<Form> {
        match self.decide(st, f, s) {
            Some(true) => return Ok(Form::k(1)),
            Some(false) => return Ok(Form::k(0)),
            None => {}
        }
        match f.map_small(&|x| s.contains(x) as i128) {
            Some(g) => Ok(g),
            None => split_bool(f, s),
        }
    }
    pub fn decide(&self, st: &State, f: &Form, s: &VSet) -> Option<bool> {
        let k = match &*self.memo.borrow() {
            Some(m) => {
                let k = (f.clone(), s.clone());
                if let Some(b) = m.sets.get(&k) {
                    return Some(*b);
                }
                Some(k)
            }
            None => None,
        };
        let v = st.facts.vset(f);
        let i = v.inter(s);
        let r = if i == v {
            Some(true)
        } else if i.is_empty() || !f.hits(&i) {
            Some(false)
        } else if !f.hits(&v.inter(&s.compl())) {
            Some(true)
        } else {
            None
        };
        if let (Some(k), Some(b)) = (k, r) {
            if let Some(m) = &mut *self.memo.borrow_mut() {
                m.sets.insert(k, b);
            }
        }
        r
    }
    /// decided truth value; splits if undecided
    pub fn truth(&self, st: &State, v: &Val) -> R<bool> {
        match v {
            Val::Bool(f, s) => match self.decide(st, f, s) {
                Some(b) => Ok(b),
                None => split_bool(f, s),
            },
            v => unsup(format!("boolean expected, got {}", v.show_d(2))),
        }
    }
    /// reduce a form into the range of an integer type
    pub fn wrap(&self, st: &State, f: Form, t: Ty) -> R<Form> {
        let (lo, hi) = match int_range(t) {
            Some(x) => x,
            None => return unsup("wrap"),
        };
        let m = hi - lo + 1;
        let r = st.facts.vset(&f);
        if r.is_empty() {
            return Err(Stop::Infeasible);
        }
        let (rl, rh) = (r.lo(), r.hi());
        if rl >= lo && rh <= hi {
            return Ok(f);
        }
        if let Some(g) = f.map_small(&|x| (x - lo).rem_euclid(m) + lo) {
            return Ok(g);
        }
        if rl <= -INF || rh >= INF {
            return unsup("wrap of an unbounded value");
        }
        let q0 = (rl - lo).div_euclid(m);
        let q1 = (rh - lo).div_euclid(m);
        if q0 == q1 {
            return Ok(f.addk(-q0 * m));
        }
        if q1 - q0 < 4 {
            return Err(Stop::Split(f, (q0..=q1).map(|q| VSet::range(lo + q * m, hi + q * m)).collect()));
        }
        // f - m * floor((f - lo)/m)
        let d = div_form(&f.addk(-lo), m, &|x| st.facts.range(x));
        Ok(f.comb(1, &d, -m))
    }
    pub fn mul(&self, st: &State, a: &Form, b: &Form) -> R<Form> {
        if let Some(k) = st.facts.const_of(a) {
            return Ok(b.scale(k));
        }
        if let Some(k) = st.facts.const_of(b) {
            return Ok(a.scale(k));
        }
        let (sa, sb) = (st.facts.vset(a), st.facts.vset(b));
        let (x, s) = if sa.size() <= sb.size() { (a, sa) } else { (b, sb) };
        if s.size() <= 32 {
            return Err(Stop::Split(x.clone(), s.iter().map(VSet::one).collect()));
        }
        unsup("product of two unknowns")
    }
    pub fn shl_form(&self, st: &State, a: &Form, b: &Form, t: Ty) -> R<Form> {
        let (bits, _) = int_bits(t).unwrap();
        let k = self.small_const(st, b, 128)?;
        let k = k.rem_euclid(bits as i128);
        self.wrap(st, a.scale(1i128 << k), t)
    }
    pub fn shr_form(&self, st: &State, a: &Form, b: &Form, t: Ty) -> R<Form> {
        let (bits, _) = int_bits(t).unwrap();
        let k = self.small_const(st, b, 128)?.rem_euclid(bits as i128);
        Ok(div_form(a, 1i128 << k, &|x| st.facts.range(x)))
    }
    pub fn small_const(&self, st: &State, f: &Form, max: i128) -> R<i128> {
        let s = st.facts.vset(f);
        if s.is_empty() {
            return Err(Stop::Infeasible);
        }
        if let Some(k) = s.single() {
            return Ok(k);
        }
        if s.size() <= max {
            return Err(Stop::Split(f.clone(), s.iter().map(VSet::one).collect()));
        }
        unsup(format!("value expected to be one of few: {}", f.show()))
    }
    fn low_bits_zero(f: &Form) -> i128 {
        // largest power of two dividing every term and the constant
        let (_, k, d) = f.norm();
        let g = gcd(k, d);
        if g == 0 {
            return INF;
        }
        g & g.wrapping_neg()
    }
    fn bit_form(&self, st: &State, op: BinOp, a: &Form, b: &Form, t: Ty) -> R<Form> {
        let (bits, signed) = int_bits(t).unwrap();
        let (ra, rb) = (st.facts.const_of(a), st.facts.const_of(b));
        let f2 = |x: i128, y: i128| -> i128 {
            match op {
                BinOp::BitAnd => x & y,
                BinOp::BitOr => x | y,
                _ => x ^ y,
            }
        };
        if let (Some(x), Some(y)) = (ra, rb) {
            return Ok(Form::k(f2(x, y)));
        }
        let (v, c) = match (ra, rb) {
            (Some(x), None) => (b, Some(x)),
            (None, Some(y)) => (a, Some(y)),
            _ => (a, None),
        };
        if let Some(c) = c {
            match op {
                BinOp::BitAnd if c == 0 => return Ok(Form::k(0)),
                BinOp::BitOr | BinOp::BitXor if c == 0 => return Ok(v.clone()),
                BinOp::BitAnd if c == -1 || (!signed && c == (1i128 << bits.min(100)) - 1) => return Ok(v.clone()),
                _ => {}
            }
            let (lo, hi) = v.inherent();
            if hi - lo <= 4096 || v.t.len() == 1 {
                if let Some(g) = v.map_small(&|x| f2(x, c)) {
                    return Ok(g);
                }
            }
            let (vl, vh) = st.facts.range(v);
            let and = |c: i128| -> Form {
                // run by run of the mask
                let rng = |x: &Form| st.facts.range(x);
                let (mut c, mut sum) = (c, Form::k(0));
                while c != 0 {
                    let low = c & c.wrapping_neg();
                    let run = c & !(c + low); // bits [p, q)
                    let top = run + low;
                    let rem = v.sub(&div_form(v, top, &rng).scale(top));
                    sum = sum.add(&if low == 1 { rem } else { div_form(&rem, low, &rng).scale(low) });
                    c &= !run;
                }
                sum
            };
            if op == BinOp::BitAnd && c > 0 && (c / (c & c.wrapping_neg()) + 1) & (c / (c & c.wrapping_neg())) == 0 {
                return Ok(and(c));
            }
            if op == BinOp::BitOr && c > 0 {
                let z = Self::low_bits_zero(v);
                if c < z {
                    return Ok(v.addk(c));
                }
                let low = c & c.wrapping_neg();
                if vl >= 0 && vh < low {
                    return Ok(v.addk(c));
                }
            }
            let s = st.facts.vset(v);
            if s.size() <= 32 {
                return Err(Stop::Split(v.clone(), s.iter().map(VSet::one).collect()));
            }
            if let Some(g) = v.map_small(&|x| f2(x, c)) {
                return Ok(g);
            }
            if c > 0 && vl >= 0 && c < 1 << 100 {
                return Ok(match op {
                    BinOp::BitAnd => and(c),
                    BinOp::BitOr => v.addk(c).sub(&and(c)),
                    _ => v.addk(c).sub(&and(c).scale(2)),
                });
            }
            return unsup(format!("{:?} with {}", op, c));
        }
        if a == b {
            return Ok(match op {
                BinOp::BitXor => Form::k(0),
                _ => a.clone(),
            });
        }
        // single common atom
        if let (Some(x), Some(y)) = (a.single(), b.single()) {
            if x == y {
                let (lo, hi) = atom_range(x);
                if hi - lo <= SMALL {
                    return Ok(Form::table(x, (lo..=hi).map(|v| f2(a.at(v), b.at(v))).collect()));
                }
            }
        }
        // disjoint bits
        if op != BinOp::BitAnd {
            for (x, y) in [(a, b), (b, a)] {
                let z = Self::low_bits_zero(x);
                let (lo, hi) = st.facts.range(y);
                if lo >= 0 && hi < z {
                    return Ok(x.add(y));
                }
            }
        }
        let (sa, sb) = (st.facts.vset(a), st.facts.vset(b));
        let (x, s) = if sa.size() <= sb.size() { (a, sa) } else { (b, sb) };
        if s.size() <= 16 {
            return Err(Stop::Split(x.clone(), s.iter().map(VSet::one).collect()));
        }
        unsup(format!("{:?} of {} and {}", op, a.show(), b.show()))
    }
    pub fn div_rem(&self, st: &State, a: &Form, b: &Form, rem: bool) -> R<Form> {
        let d = self.small_const(st, b, 32)?;
        if d == 0 {
            return Err(Stop::Panic("division by zero".into()));
        }
        let (lo, hi) = st.facts.range(a);
        let q = if d > 0 && lo >= 0 {
            div_form(a, d, &|x| st.facts.range(x))
        } else if d < 0 && lo >= 0 {
            div_form(a, -d, &|x| st.facts.range(x)).neg()
        } else if hi <= 0 {
            let q = div_form(&a.neg(), d.abs(), &|x| st.facts.range(x));
            if d > 0 {
                q.neg()
            } else {
                q
            }
        } else {
            return Err(Stop::Split(a.clone(), vec![VSet::range(-INF, -1), VSet::range(0, INF)]));
        };
        Ok(if rem { a.comb(1, &q, -d) } else { q })
    }
    pub fn cmp_set(op: BinOp) -> VSet {
        match op {
            BinOp::Eq => VSet::one(0),
            BinOp::Ne => VSet::one(0).compl(),
            BinOp::Lt => VSet::range(-INF, -1),
            BinOp::Le => VSet::range(-INF, 0),
            BinOp::Gt => VSet::range(1, INF),
            _ => VSet::range(0, INF),
        }
    }
    pub fn binop(&self, st: &State, op: BinOp, a: Val, b: Val, ta: Ty, dty: Ty) -> R<Val> {
        use BinOp::*;
        match op {
            Eq | Lt | Le | Ne | Ge | Gt => {
                match (&a, &b) {
                    (Val::Bool(f, s), Val::Bool(g, t)) => {
                        if matches!(op, Eq | Ne) {
                            if let Some(x) = self.decide(st, f, s) {
                                return Ok(if x == (op == Eq) { b.clone() } else { Val::Bool(g.clone(), t.compl()) });
                            }
                            if let Some(x) = self.decide(st, g, t) {
                                return Ok(if x == (op == Eq) { a.clone() } else { Val::Bool(f.clone(), s.compl()) });
                            }
                        }
                        return split_bool(f, s);
                    }
                    (Val::Ref(p), Val::Ref(q)) => {
                        if p == q {
                            return Ok(Val::bool(matches!(op, Eq | Le | Ge)));
                        }
                        return unsup("pointer comparison");
                    }
                    _ => {}
                }
                let (fa, fb) = (self.as_int(st, &a)?, self.as_int(st, &b)?);
                let d = fa.sub(&fb);
                let s = Self::cmp_set(op);
                Ok(self.mk_bool(st, d, s))
            }
            Cmp => {
                let (fa, fb) = (self.as_int(st, &a)?, self.as_int(st, &b)?);
                let d = fa.sub(&fb);
                let r = st.facts.vset(&d);
                if r.is_empty() {
                    return Err(Stop::Infeasible);
                }
                let i = if r.hi() < 0 {
                    0
                } else if r.lo() > 0 {
                    2
                } else if r.single() == Some(0) {
                    1
                } else {
                    return Err(Stop::Split(d, vec![VSet::range(-INF, -1), VSet::one(0), VSet::range(1, INF)]));
                };
                Ok(Val::en(dty, i, vec![]))
            }
            BitAnd | BitOr | BitXor => {
                if let (Val::Bool(f, s), Val::Bool(g, t)) = (&a, &b) {
                    if f == g {
                        let r = match op {
                            BitAnd => s.inter(t),
                            BitOr => s.union(t),
                            _ => s.union(t).inter(&s.inter(t).compl()),
                        };
                        return Ok(Val::Bool(f.clone(), r));
                    }
                    if let Some(x) = self.decide(st, f, s) {
                        return Ok(match (op, x) {
                            (BitAnd, true) | (BitOr, false) | (BitXor, false) => b.clone(),
                            (BitAnd, false) => Val::bool(false),
                            (BitOr, true) => Val::bool(true),
                            _ => Val::Bool(g.clone(), t.compl()),
                        });
                    }
                    return split_bool(f, s);
                }
                let (fa, fb) = (self.as_int(st, &a)?, self.as_int(st, &b)?);
                self.bit_form(st, op, &fa, &fb, ta).map(Val::Int)
            }
            Add | AddUnchecked => {
                let (fa, fb) = (self.as_int(st, &a)?, self.as_int(st, &b)?);
                self.wrap(st, fa.add(&fb), ta).map(Val::Int)
            }
            Sub | SubUnchecked => {
                let (fa, fb) = (self.as_int(st, &a)?, self.as_int(st, &b)?);
                self.wrap(st, fa.sub(&fb), ta).map(Val::Int)
            }
            Mul | MulUnchecked => {
                let (fa, fb) = (self.as_int(st, &a)?, self.as_int(st, &b)?);
                let m = self.mul(st, &fa, &fb)?;
                self.wrap(st, m, ta).map(Val::Int)
            }
            Div | Rem => {
                let (fa, fb) = (self.as_int(st, &a)?, self.as_int(st, &b)?);
                self.div_rem(st, &fa, &fb, op == Rem).map(Val::Int)
            }
            Shl | ShlUnchecked => {
                let (fa, fb) = (self.as_int(st, &a)?, self.as_int(st, &b)?);
                self.shl_form(st, &fa, &fb, ta).map(Val::Int)
            }
            Shr | ShrUnchecked => {
                let (fa, fb) = (self.as_int(st, &a)?, self.as_int(st, &b)?);
                self.shr_form(st, &fa, &fb, ta).map(Val::Int)
            }
            // a place further on in the octets of a slice
            Offset => {
                let n = self.as_int(st, &b)?;
                match &a {
                    Val::Ref(p) => match &p.base {
                        Base::Elem(k, f, e) if p.path.is_empty() => Ok(Val::Ref(Pl::new(Base::Elem(*k, f.add(&n), *e)))),
                        _ => unsup("pointer offset"),
                    },
                    _ => unsup("pointer offset"),
                }
            }
        }
    }
    /// boolean "d in s", decided if the facts allow it
    pub fn mk_bool(&self, st: &State, d: Form, s: VSet) -> Val {
        match self.decide(st, &d, &s) {
            Some(b) => Val::bool(b),
            None => Val::Bool(d, s),
        }
    }
    pub fn cast(&mut self, st: &State, k: &CastKind, v: Val, from: Ty, to: Ty) -> R<Val> {
        match k {
            CastKind::IntToInt => {
                let f = self.as_int(st, &v)?;
                self.wrap(st, f, to).map(Val::Int)
            }
            CastKind::PointerCoercion(p) => match p {
                PointerCoercion::Unsize => self.unsize(st, v, from, to),
                PointerCoercion::ReifyFnPointer(_) | PointerCoercion::ClosureFnPointer(_) => Ok(match v {
                    Val::Agg(a) => Val::Fn(a.ty),
                    v => v,
                }),
                _ => Ok(v),
            },
            CastKind::Transmute | CastKind::BoxDerefTransmute | CastKind::Subtype => match &v {
                Val::Int(f) if int_range(to).is_some() => self.wrap(st, f.clone(), to).map(Val::Int),
                Val::Bool(f, s) if int_range(to).is_some() => self.bool_int(st, f, s).map(Val::Int),
                Val::Int(_) => {
                    // e.g. a nonzero wrapper
                    Ok(v)
                }
                Val::Agg(a) if a.f.len() == 1 && int_range(to).is_some() => Ok(a.f[0].clone()),
                Val::Agg(a) if elem_ty(a.ty).is_some() && int_range(to).is_some() => {
                    // little-endian bytes to integer
                    let mut f = Form::k(0);
                    for (i, x) in a.f.iter().enumerate() {
                        let b = self.as_int(st, x)?;
                        f = f.comb(1, &b, 1i128 << (8 * i.min(12)));
                    }
                    self.wrap(st, f, to).map(Val::Int)
                }
                _ => Ok(v),
            },
            CastKind::PtrToPtr | CastKind::FnPtrToPtr => {
                // thin pointer from a fat one
                if let (Val::Slice(s), Some(p)) = (&v, pointee(to)) {
                    if !is_unsized_seq(p) {
                        let s = s.clone();
                        if array_len(p).is_none() {
                            return Ok(Val::Ref(self.slice_elem_pl_raw(&s)));
                        }
                    }
                }
                Ok(v)
            }
            k => unsup(format!("cast {:?}", k)),
        }
    }
    fn slice_elem_pl_raw(&self, s: &SliceV) -> Pl {
        match &s.base {
            SBase::Sym(k, e) => Pl::new(Base::Elem(*k, s.start.clone(), *e)),
            SBase::Obj(p, _) => p.push(PE::I(s.start.clone())),
            _ => Pl::new(Base::Const(Rc::new(Val::Slice(Rc::new(s.clone()))))),
        }
    }
    pub fn unsize(&self, st: &State, v: Val, from: Ty, to: Ty) -> R<Val> {
        let (pf, pt) = match (pointee(from), pointee(to)) {
            (Some(a), Some(b)) => (a, b),
            _ => return unsup("unsize of non-pointer"),
        };
        if let Some(n) = array_len(pf) {
            if is_unsized_seq(pt) {
                let e = elem_ty(pf).unwrap();
                return match v {
                    Val::Ref(p) => {
                        // constant arrays become constant slices
                        if let Base::Const(c) = &p.base {
                            if p.path.is_empty() {
                                if let Val::Agg(a) = &**c {
                                    let bytes: Option<Vec<u8>> = if e == Ty::unsigned_ty(UintTy::U8) {
                                        a.f.iter()
                                            .map(|x| match x {
                                                Val::Int(f) => f.constant().map(|c| c as u8),
                                                _ => None,
                                            })
                                            .collect()
                                    } else {
                                        None
                                    };
                                    let base = match bytes {
                                        Some(b) => SBase::Bytes(Rc::new(b)),
                                        None => SBase::Vals(Rc::new(a.f.clone())),
                                    };
                                    return Ok(Val::slice(base, Form::k(0), Form::k(n as i128)));
                                }
                            }
                        }
                        if let Base::Obj(k, t) = &p.base {
                            // symbolic array behind a pointer: same region as a slice
                            if p.path.is_empty() && st.heap.get(k).is_none() && elem_ty(*t).is_some() {
                                return Ok(Val::slice(SBase::Sym(*k, e), Form::k(0), Form::k(n as i128)));
                            }
                        }
                        Ok(Val::slice(SBase::Obj(p, e), Form::k(0), Form::k(n as i128)))
                    }
                    v => unsup(format!("unsize {}", v.show_d(2))),
                };
            }
        }
        if is_dyn(pt) {
            return Ok(match v {
                Val::Dyn(..) | Val::SymDyn(..) => v,
                v => Val::Dyn(Rc::new(v), pf),
            });
        }
        unsup("unsize")
    }

    // ------------------------------------------------------------ execution
    pub fn end(&mut self, kind: EndKind, st: State) {
        let chain = self.stack.iter().map(|(i, s)| format!("{} ({})", norm_name(&i.def.name().to_string()), s)).collect();
        if self.trace_on {
            eprintln!("END {:?} at {} {}", kind, self.cur.0, self.cur.1);
        }
        self.ends.push(End { kind, func: self.cur.0.clone(), span: self.cur.1.clone(), chain, state: st });
    }
    pub fn run(&mut self, st: State, inst: Instance, args: Vec<Val>) -> Vec<(State, Val)> {
        if !self.stack.is_empty() || !crate::observe::on() {
            return self.run_inner(st, inst, args);
        }
        let (ends, recs) = (self.ends.len(), self.recs.len());
        let outs = self.run_inner(st.clone(), inst, args.clone());
        let n = self.name_of(inst);
        crate::observe::note(self, &n, &st, &args, ends, recs, &outs);
        outs
    }
    pub fn run_inner(&mut self, st: State, inst: Instance, args: Vec<Val>) -> Vec<(State, Val)> {
        match self.call_inst(&st, inst, args.clone()) {
            Ok(v) => v,
            Err(Stop::Split(f, sets)) => {
                // only possible for natively modelled functions
                let mut out = vec![];
                for s in sets {
                    let mut s2 = st.clone();
                    if s2.facts.assume(&f, &s) {
                        out.extend(self.run_inner(s2, inst, args.clone()));
                    }
                }
                out
            }
            Err(Stop::Panic(m)) => {
                self.end(EndKind::Panic(m), st);
                vec![]
            }
            Err(Stop::Unsup(m)) => {
                self.end(EndKind::Unsup(m), st);
                vec![]
            }
            Err(Stop::Infeasible) => vec![],
        }
    }
    /// execute the MIR body of an instance
    pub fn exec(&mut self, mut st: State, info: &Rc<FnInfo>, args: Vec<Val>) -> Vec<(State, Val)> {
        if self.stack.len() > 120 || self.stack.iter().filter(|x| x.0 == info.inst).count() >= 4 {
            self.end(EndKind::Unsup(format!("recursion through {}", info.name)), st);
            return vec![];
        }
        if self.steps > self.max_steps {
            self.end(EndKind::Unsup("step budget exhausted".into()), st);
            return vec![];
        }
        self.fns.insert(info.name.clone());
        let n = info.body.locals().len();
        let mut locals = vec![Val::Undef; n];
        for (i, a) in args.into_iter().enumerate() {
            locals[i + 1] = a;
        }
        st.frames.push(Rc::new(Frame { inst: info.inst, locals }));
        let saved = self.cur.clone();
        self.stack.push((info.inst, saved.1.clone()));
        let outs = self.explore(st, info, 0, None);
        self.stack.pop();
        self.cur = saved;
        let mut res = vec![];
        for (mut s, e) in outs {
            match e {
                Exit::Return(v) => {
                    s.frames.pop();
                    res.push((s, v));
                }
                Exit::To(_) => unreachable!(),
            }
        }
        merge_returns(&mut res);
        res
    }
    pub fn explore(&mut self, st: State, info: &Rc<FnInfo>, start: usize, region: Option<usize>) -> Vec<(State, Exit)> {
        let mut out = vec![];
        let mut work: Vec<(State, usize, usize)> = vec![(st, start, 0)];
        let mut first = true;
        while let Some((st, bb, idx)) = work.pop() {
            let (idx, redo) = if idx == REDO { (0, true) } else { (idx, false) };
            if idx == 0 && !first && !redo {
                // region boundaries and inner loops
                if let Some(r) = region {
                    let l = &info.loops[r];
                    if bb == l.header || !l.blocks.contains(&bb) {
                        out.push((st, Exit::To(bb)));
                        continue;
                    }
                }
                if let Some(&l) = info.header_of.get(&bb) {
                    for (s, b) in self.handle_loop(st, info, l) {
                        // exits of the inner loop may leave the region too
                        if let Some(r) = region {
                            let lr = &info.loops[r];
                            if b == lr.header || !lr.blocks.contains(&b) {
                                out.push((s, Exit::To(b)));
                                continue;
                            }
                        }
                        work.push((s, b, 0));
                    }
                    continue;
                }
            } else if first && region.is_none() && !redo {
                if let Some(&l) = info.header_of.get(&bb) {
                    first = false;
                    for (s, b) in self.handle_loop(st, info, l) {
                        work.push((s, b, 0));
                    }
                    continue;
                }
            }
            first = false;
            self.block(st, info, bb, idx, &mut work, &mut out);
        }
        out
    }
    fn span_of(&self, sp: rustc_public::ty::Span) -> String {
        span_str(sp)
    }
    fn block(
        &mut self,
        mut st: State,
        info: &Rc<FnInfo>,
        bb: usize,
        idx: usize,
        work: &mut Vec<(State, usize, usize)>,
        out: &mut Vec<(State, Exit)>,
    ) {
        let block = &info.body.blocks[bb];
        let mut i = idx;
        while i < block.statements.len() {
            self.steps += 1;
            let s = &block.statements[i];
            let r = self.statement(&mut st, info, s);
            match r {
                Ok(()) => i += 1,
                Err(Stop::Split(f, sets)) => {
                    self.do_split(st, f, sets, bb, i, work);
                    return;
                }
                Err(Stop::Infeasible) => return,
                Err(Stop::Panic(m)) => {
                    self.cur = (info.name.clone(), self.span_of(s.source_info.span));
                    self.end(EndKind::Panic(m), st);
                    return;
                }
                Err(Stop::Unsup(m)) => {
                    self.cur = (info.name.clone(), self.span_of(s.source_info.span));
                    self.end(EndKind::Unsup(m), st);
                    return;
                }
            }
        }
        self.steps += 1;
        if self.steps > self.max_steps {
            self.cur = (info.name.clone(), self.span_of(block.terminator.source_info.span));
            self.end(EndKind::Unsup("step budget exhausted".into()), st);
            return;
        }
        let t = &block.terminator;
        let n = block.statements.len();
        let r = self.terminator(&mut st, info, t, work, out);
        match r {
            Ok(()) => {}
            Err(Stop::Split(f, sets)) => self.do_split(st, f, sets, bb, n, work),
            Err(Stop::Infeasible) => {}
            Err(Stop::Panic(m)) => {
                self.cur = (info.name.clone(), self.span_of(t.source_info.span));
                self.end(EndKind::Panic(m), st);
            }
            Err(Stop::Unsup(m)) => {
                self.cur = (info.name.clone(), self.span_of(t.source_info.span));
                self.end(EndKind::Unsup(m), st);
            }
        }
    }
    fn do_split(&mut self, st: State, f: Form, sets: Vec<VSet>, bb: usize, i: usize, work: &mut Vec<(State, usize, usize)>) {
        let cur = st.facts.vset(&f);
        let mut any = false;
        let mut next = vec![];
        for s in sets {
            let mut s2 = st.clone();
            if !s2.facts.assume(&f, &s) {
                any = true;
                continue;
            }
            if s2.facts.vset(&f) != cur {
                any = true;
            }
            next.push((s2, bb, i.max(1).min(i))); // same position
        }
        // all that is left is the case it was before
        if next.len() == 1 && next[0].0.facts == st.facts {
            any = false;
        }
        if !any {
            self.end(EndKind::Unsup(format!("case distinction without progress on {}", f.show())), st);
            return;
        }
        self.paths += next.len() as u64;
        for (s, b, j) in next.into_iter().rev() {
            // position 0 of a loop header must not re-enter the loop handler: mark with usize offset
            work.push((s, b, if j == 0 { REDO } else { j }));
        }
    }
    pub fn statement(&mut self, st: &mut State, info: &Rc<FnInfo>, s: &Statement) -> R<()> {
        match &s.kind {
            StatementKind::Assign(p, r) => {
                let dty = p.ty(info.body.locals()).map_err(|_| Stop::Unsup("place type".into()))?;
                let v = self.rvalue(st, info, r, dty)?;
                self.assign(st, info, p, v)
            }
            StatementKind::SetDiscriminant { place, variant_index } => {
                let ty = place.ty(info.body.locals()).unwrap();
                let cur = self.read_place(st, info, place).unwrap_or(Val::Undef);
                let vi = vidx(variant_index) as u32;
                let f = match cur {
                    Val::Enum(e) if e.v == vi => e.f.clone(),
                    _ => vec![Val::Undef; variant_fields(ty, vi).len()],
                };
                self.assign(st, info, place, Val::en(ty, vi, f))
            }
            StatementKind::StorageDead(l) | StatementKind::StorageLive(l) => {
                let u = st.top() as usize;
                if !matches!(st.frames[u].locals[*l], Val::Undef) {
                    Rc::make_mut(&mut st.frames[u]).locals[*l] = Val::Undef;
                }
                Ok(())
            }
            StatementKind::Intrinsic(NonDivergingIntrinsic::Assume(o)) => {
                let v = self.operand(st, info, o)?;
                if let Val::Bool(f, s) = v {
                    if !st.facts.assume(&f, &s) {
                        return Err(Stop::Infeasible);
                    }
                }
                Ok(())
            }
            StatementKind::Intrinsic(_) => unsup("copy_nonoverlapping"),
            _ => Ok(()),
        }
    }
    pub fn assign(&mut self, st: &mut State, info: &FnInfo, p: &Place, v: Val) -> R<()> {
        if p.projection.is_empty() {
            let u = st.top() as usize;
            Rc::make_mut(&mut st.frames[u]).locals[p.local] = v;
            return Ok(());
        }
        match self.place(st, info, p)? {
            RP::Pl(pl) => self.write_pl(st, &pl, v),
            _ => unsup("assignment to unsized place"),
        }
    }
    fn terminator(
        &mut self,
        st: &mut State,
        info: &Rc<FnInfo>,
        t: &Terminator,
        work: &mut Vec<(State, usize, usize)>,
        out: &mut Vec<(State, Exit)>,
    ) -> R<()> {
        match &t.kind {
            TerminatorKind::Goto { target } => {
                work.push((std::mem::take(st), *target, 0));
                Ok(())
            }
            TerminatorKind::SwitchInt { discr, targets } => {
                let v = self.operand(st, info, discr)?;
                let ty = self.op_ty(info, discr)?;
                match &v {
                    Val::Bool(f, s) => {
                        for (val, b) in targets.branches() {
                            let set = if val == 0 { s.compl() } else { s.clone() };
                            let mut s2 = st.clone();
                            if s2.facts.assume(f, &set) {
                                work.push((s2, b, 0));
                            }
                        }
                        // otherwise
                        let seen: Vec<u128> = targets.branches().map(|x| x.0).collect();
                        for b in [0u128, 1] {
                            if !seen.contains(&b) {
                                let set = if b == 0 { s.compl() } else { s.clone() };
                                let mut s2 = st.clone();
                                if s2.facts.assume(f, &set) {
                                    work.push((s2, targets.otherwise(), 0));
                                }
                            }
                        }
                        Ok(())
                    }
                    Val::Int(f) => {
                        let (lo, hi) = int_range(ty).unwrap();
                        let m = hi - lo + 1;
                        let mut rest = VSet::full();
                        let mut by: BTreeMap<usize, VSet> = BTreeMap::new();
                        for (val, b) in targets.branches() {
                            let mut x = val as i128;
                            if x > hi {
                                x -= m;
                            }
                            rest = rest.inter(&VSet::one(x).compl());
                            let e = by.entry(b).or_insert(VSet::empty());
                            *e = e.union(&VSet::one(x));
                        }
                        let e = by.entry(targets.otherwise()).or_insert(VSet::empty());
                        *e = e.union(&rest);
                        for (b, set) in by {
                            let mut s2 = st.clone();
                            if s2.facts.assume(f, &set) {
                                work.push((s2, b, 0));
                            }
                        }
                        Ok(())
                    }
                    v => unsup(format!("switch on {}", v.show_d(2))),
                }
            }
            TerminatorKind::Return => {
                let u = st.top() as usize;
                let v = st.frames[u].locals[0].clone();
                let v = if matches!(v, Val::Undef) { zst(info.body.ret_local().ty).unwrap_or(Val::Undef) } else { v };
                out.push((std::mem::take(st), Exit::Return(v)));
                Ok(())
            }
            TerminatorKind::Unreachable => Ok(()),
            TerminatorKind::Resume | TerminatorKind::Abort => Ok(()),
            TerminatorKind::Drop { target, .. } => {
                work.push((std::mem::take(st), *target, 0));
                Ok(())
            }
            TerminatorKind::Assert { cond, expected, msg, target, .. } => {
                self.asserts += 1;
                let v = self.operand(st, info, cond)?;
                let (f, s) = match v {
                    Val::Bool(f, s) => (f, if *expected { s } else { s.compl() }),
                    v => return unsup(format!("assert on {}", v.show_d(2))),
                };
                let mut bad = st.clone();
                if bad.facts.assume(&f, &s.compl()) {
                    self.cur = (info.name.clone(), self.span_of(t.source_info.span));
                    self.end(EndKind::Panic(assert_name(msg)), bad);
                }
                if st.facts.assume(&f, &s) {
                    work.push((std::mem::take(st), *target, 0));
                }
                Ok(())
            }
            TerminatorKind::Call { func, args, destination, target, .. } => {
                let fty = match func {
                    Operand::Constant(c) => c.const_.ty(),
                    o => match self.operand(st, info, o)? {
                        Val::Fn(t) => t,
                        v => return unsup(format!("call of {}", v.show_d(2))),
                    },
                };
                let mut a = vec![];
                for x in args {
                    a.push(self.operand(st, info, x)?);
                }
                self.calls += 1;
                self.cur = (info.name.clone(), self.span_of(t.source_info.span));
                let outs = self.call_ty(st, fty, a, target.is_none())?;
                self.cur = (info.name.clone(), self.span_of(t.source_info.span));
                if let Some(tg) = target {
                    for (mut s, v) in outs {
                        match self.assign(&mut s, info, destination, v) {
                            Ok(()) => work.push((s, *tg, 0)),
                            Err(Stop::Infeasible) => {}
                            Err(Stop::Panic(m)) => self.end(EndKind::Panic(m), s),
                            Err(Stop::Unsup(m)) => self.end(EndKind::Unsup(m), s),
                            Err(Stop::Split(f, _)) => self.end(EndKind::Unsup(format!("split on {} in result", f.show())), s),
                        }
                    }
                }
                Ok(())
            }
            TerminatorKind::InlineAsm { .. } => unsup("inline assembly"),
        }
    }
    pub fn call_ty(&mut self, st: &State, fty: Ty, args: Vec<Val>, diverges: bool) -> R<Vec<(State, Val)>> {
        match &*kind(fty) {
            TyKind::RigidTy(RigidTy::FnDef(d, ga)) => {
                let inst = match Instance::resolve(*d, ga) {
                    Ok(i) => i,
                    Err(_) => return unsup(format!("unresolved call to {}", d.name())),
                };
                if let InstanceKind::Virtual { .. } = inst.kind {
                    return self.call_virtual(st, *d, ga, inst, args);
                }
                if diverges && !inst.def.krate().is_local {
                    let n = self.name_of(inst);
                    if n.contains("process::exit") {
                        let mut a = args;
                        self.end(EndKind::Exit(a.remove(0)), st.clone());
                        return Ok(vec![]);
                    }
                    let msg = panic_message(self, st, &n, &args);
                    return Err(Stop::Panic(msg));
                }
                self.call_inst(st, inst, args)
            }
            TyKind::RigidTy(RigidTy::Closure(d, ga)) => {
                let inst = Instance::resolve_closure(*d, ga, ClosureKind::FnOnce).map_err(|_| Stop::Unsup("closure".into()))?;
                self.call_inst(st, inst, args)
            }
            _ => unsup("call of unknown function"),
        }
    }
    fn call_virtual(&mut self, st: &State, d: FnDef, ga: &GenericArgs, inst: Instance, mut args: Vec<Val>) -> R<Vec<(State, Val)>> {
        match args[0].clone() {
            Val::Dyn(p, t) => {
                let mut g = ga.clone();
                g.0[0] = GenericArgKind::Type(t);
                let i = Instance::resolve(d, &g).map_err(|_| Stop::Unsup("dyn method".into()))?;
                args[0] = (*p).clone();
                if let Some(h) = self.dyn_hook.clone() {
                    if let Some(r) = h(self, st, i, &args)? {
                        return Ok(r);
                    }
                }
                if let InstanceKind::Virtual { .. } = i.kind {
                    return self.call_virtual(st, d, &g, i, args);
                }
                self.call_inst(st, i, args)
            }
            Val::SymDyn(..) => {
                if let Some(h) = self.dyn_hook.clone() {
                    if let Some(r) = h(self, st, inst, &args)? {
                        return Ok(r);
                    }
                }
                let name = norm_name(&d.name().to_string());
                let mut s = st.clone();
                let ret = d.fn_sig().skip_binder().output();
                let snap: Vec<Val> = args.iter().map(|a| self.snapshot(st, a)).collect();
                s.emit(Event::Call(name.clone(), Rc::new(snap)));
                let v = match zst(ret) {
                    Some(v) => v,
                    None => {
                        let k = key(&format!("ret.{}.{}", name.rsplit("::").next().unwrap(), s.trace.len()));
                        sym(k, ret)
                    }
                };
                Ok(vec![(s, v)])
            }
            v => unsup(format!("virtual call on {}", v.show_d(2))),
        }
    }
    /// resolve references to locals so that the value stays meaningful later
    pub fn snapshot(&self, st: &State, v: &Val) -> Val {
        match v {
            Val::Ref(p) => match &p.base {
                Base::Local(..) => match self.read_pl(st, p) {
                    Ok(x) => Val::Ref(Pl::new(Base::Const(Rc::new(self.snapshot(st, &x))))),
                    Err(_) => v.clone(),
                },
                _ => v.clone(),
            },
            Val::Dyn(p, t) => Val::Dyn(Rc::new(self.snapshot(st, p)), *t),
            Val::Agg(a) => Val::agg(a.ty, a.f.iter().map(|x| self.snapshot(st, x)).collect()),
            Val::Enum(a) => Val::en(a.ty, a.v, a.f.iter().map(|x| self.snapshot(st, x)).collect()),
            v => v.clone(),
        }
    }
    pub fn call_inst(&mut self, st: &State, inst: Instance, args: Vec<Val>) -> R<Vec<(State, Val)>> {
        let name = self.name_of(inst);
        if let Some(h) = self.hooks.get(&**name).cloned() {
            if let Some(r) = h(self, st, inst, &args)? {
                return Ok(r);
            }
        }
        if let InstanceKind::Intrinsic | InstanceKind::LlvmIntrinsic = inst.kind {
            let iname = inst.intrinsic_name().map(|s| s.to_string()).unwrap_or_default();
            return match crate::natives::intrinsic(self, st, &iname, inst, &args)? {
                Some(r) => Ok(r),
                None => match self.info(inst) {
                    Some(info) => self.enter(st, &info, args),
                    None => unsup(format!("intrinsic {}", iname)),
                },
            };
        }
        if !inst.def.krate().is_local {
            if let Some(r) = crate::natives::native(self, st, &name, inst, &args)? {
                return Ok(r);
            }
        }
        match self.info(inst) {
            Some(info) => self.enter(st, &info, args),
            None => unsup(format!("no body for {}", name)),
        }
    }
    fn enter(&mut self, st: &State, info: &Rc<FnInfo>, args: Vec<Val>) -> R<Vec<(State, Val)>> {
        let mut a = args;
        let n = info.body.arg_locals().len();
        if info.is_closure && info.body.spread_arg().is_none() && a.len() == 2 {
            let tup = a.pop().unwrap();
            match tup {
                Val::Agg(t) if matches!(&*kind(t.ty), TyKind::RigidTy(RigidTy::Tuple(_))) && a.len() + t.f.len() == n => a.extend(t.f.iter().cloned()),
                v => a.push(v),
            }
        }
        if a.len() != n {
            if a.len() == 2 {
                if let Val::Agg(t) = a[1].clone() {
                    a.pop();
                    a.extend(t.f.iter().cloned());
                }
            }
            if a.len() != n {
                return unsup(format!("argument count of {}", info.name));
            }
        }
        Ok(self.exec(st.clone(), info, a))
    }
}

pub const REDO: usize = usize::MAX;

pub fn span_str(sp: rustc_public::ty::Span) -> String {
    let l = sp.get_lines();
    let f = sp.get_filename();
    let f = f.rsplit("/repo/").next().unwrap_or(&f).to_string();
    let f = match f.find("/library/") {
        Some(i) => f[i + 1..].to_string(),
        None => f,
    };
    format!("{}:{}", f, l.start_line)
}

fn panic_message(en: &En, st: &State, n: &str, args: &[Val]) -> String {
    let mut m = n.rsplit("::").next().unwrap_or(n).to_string();
    for a in args {
        match a {
            Val::Slice(_) => m.push_str(&format!(" {}", a.show())),
            Val::Fmt(p) => m.push_str(&format!(" {}", show_pieces(p))),
            Val::Ref(_) => {
                if let Ok(v) = en.load(st, a) {
                    m.push_str(&format!(" {}", v.show_d(2)))
                }
            }
            _ => {}
        }
    }
    m
}
fn assert_name(m: &AssertMessage) -> String {
    match m {
        AssertMessage::BoundsCheck { .. } => "index out of bounds".into(),
        AssertMessage::Overflow(op, ..) => format!("arithmetic overflow ({:?})", op),
        AssertMessage::OverflowNeg(_) => "arithmetic overflow (Neg)".into(),
        AssertMessage::DivisionByZero(_) | AssertMessage::RemainderByZero(_) => "division by zero".into(),
        m => format!("assertion {:?}", m).chars().take(60).collect(),
    }
}

trait LocalTy {
    fn body_local_ty(&self, l: usize) -> Option<Ty>;
}
thread_local! {
    static LTYS: std::cell::RefCell<HashMap<Instance, Rc<Vec<Ty>>>> = std::cell::RefCell::new(HashMap::new());
}
pub fn local_ty(i: Instance, l: usize) -> Option<Ty> {
    i.body_local_ty(l)
}
impl LocalTy for Instance {
    fn body_local_ty(&self, l: usize) -> Option<Ty> {
        LTYS.with(|m| m.borrow().get(self).and_then(|v| v.get(l).cloned()))
    }
}

fn write_path(slot: &mut Val, path: &[PE], val: Val, facts: &Facts, ty: Option<Ty>) -> R<()> {
    if path.is_empty() {
        *slot = val;
        return Ok(());
    }
    // make the slot's structure explicit
    if let Val::Sym(k, t) = slot {
        let (k, t) = (*k, *t);
        match &path[0] {
            PE::V(v) => *slot = Val::en(t, *v, sym_fields(k, t, *v)),
            _ => match expand(k, t) {
                Some(x) => *slot = x,
                None => return unsup(format!("write into symbolic {}", short_ty(t))),
            },
        }
    }
    if matches!(slot, Val::Undef) {
        let t = match ty {
            Some(t) => t,
            None => return unsup("write into an undefined value"),
        };
        match (&path[0], &*kind(t)) {
            (PE::V(v), _) => *slot = Val::en(t, *v, vec![Val::Undef; variant_fields(t, *v).len()]),
            (_, TyKind::RigidTy(RigidTy::Tuple(ts))) => *slot = Val::agg(t, vec![Val::Undef; ts.len()]),
            (_, TyKind::RigidTy(RigidTy::Adt(d, _))) if d.kind() == AdtKind::Struct => {
                *slot = Val::agg(t, vec![Val::Undef; variant_fields(t, 0).len()])
            }
            (_, TyKind::RigidTy(RigidTy::Array(..))) => *slot = Val::agg(t, vec![Val::Undef; array_len(t).unwrap_or(0) as usize]),
            (PE::F(_), TyKind::RigidTy(RigidTy::Adt(d, _))) if d.kind() == AdtKind::Union => {
                *slot = Val::agg(t, vec![Val::Undef; variant_fields(t, 0).len()])
            }
            _ => return unsup("write into an undefined value"),
        }
    }
    let fty = |i: u32| -> Option<Ty> {
        let t = ty?;
        match &*kind(t) {
            TyKind::RigidTy(RigidTy::Tuple(ts)) => ts.get(i as usize).cloned(),
            TyKind::RigidTy(RigidTy::Adt(d, _)) if d.kind() != AdtKind::Enum => variant_fields(t, 0).get(i as usize).cloned(),
            _ => None,
        }
    };
    match (&path[0], slot) {
        (PE::F(i), Val::Agg(a)) => {
            let a = Rc::make_mut(a);
            match a.f.get_mut(*i as usize) {
                Some(s) => write_path(s, &path[1..], val, facts, fty(*i)),
                None => unsup("write to missing field"),
            }
        }
        (PE::V(v), Val::Enum(e)) => {
            if e.v != *v {
                return Err(Stop::Infeasible);
            }
            let e = Rc::make_mut(e);
            match path.get(1) {
                Some(PE::F(i)) => {
                    let ft = variant_fields(e.ty, *v).get(*i as usize).cloned();
                    write_path(&mut e.f[*i as usize], &path[2..], val, facts, ft)
                }
                _ => unsup("write to enum"),
            }
        }
        (PE::I(f), Val::Agg(a)) => {
            let n = a.f.len() as i128;
            let s = facts.vset(f).inter(&VSet::range(0, n - 1));
            if s.is_empty() {
                return Err(Stop::Infeasible);
            }
            match s.single() {
                Some(c) => {
                    let et = ty.and_then(elem_ty);
                    write_path(&mut Rc::make_mut(a).f[c as usize], &path[1..], val, facts, et)
                }
                None if s.size() <= 64 => Err(Stop::Split(f.clone(), s.iter().map(VSet::one).collect())),
                None => unsup("write at symbolic index"),
            }
        }
        (PE::I(f), Val::Vec(v)) => {
            let v = Rc::make_mut(v);
            let d = match &v.base {
                None => f.clone(),
                Some((_, n)) => f.sub(n),
            };
            let s = facts.vset(&d);
            if s.is_empty() {
                return Err(Stop::Infeasible);
            }
            let et = Some(v.elem);
            match s.single() {
                Some(c) if c >= 0 && (c as usize) < v.items.len() => write_path(&mut v.items[c as usize], &path[1..], val, facts, et),
                _ if s.lo() >= 0 && s.size() <= 64 => Err(Stop::Split(d, s.iter().map(VSet::one).collect())),
                _ => unsup("write into unknown elements of a vector"),
            }
        }
        (e, s) => unsup(format!("write {:?} into {}", e, s.show_d(2))),
    }
}

fn uninhabited(t: Ty) -> bool {
    match &*kind(t) {
        TyKind::RigidTy(RigidTy::Never) => true,
        TyKind::RigidTy(RigidTy::Adt(d, _)) => d.kind() == AdtKind::Enum && d.num_variants() == 0,
        _ => false,
    }
}
pub fn zst(t: Ty) -> Option<Val> {
    match &*kind(t) {
        TyKind::RigidTy(r) => match r {
            RigidTy::FnDef(..) => Some(Val::Fn(t)),
            RigidTy::Tuple(ts) => {
                let f: Option<Vec<Val>> = ts.iter().map(|x| zst(*x)).collect();
                f.map(|f| Val::agg(t, f))
            }
            RigidTy::Closure(_, ga) => {
                // captured types are a tuple in the last argument
                let up = ga.0.last().and_then(|x| x.ty().cloned())?;
                match zst(up) {
                    Some(Val::Agg(a)) => Some(Val::agg(t, a.f.clone())),
                    _ => None,
                }
            }
            RigidTy::Adt(d, _) if d.kind() == AdtKind::Struct => {
                if pointee(t).is_some() || is_vec(t) {
                    return None;
                }
                let f: Option<Vec<Val>> = variant_fields(t, 0).iter().map(|x| zst(*x)).collect();
                f.map(|f| Val::agg(t, f))
            }
            RigidTy::Adt(d, _) if d.kind() == AdtKind::Enum => {
                // the one variant that can exist
                let mut live = (0..d.num_variants() as u32).filter(|v| !variant_fields(t, *v).iter().any(|f| uninhabited(*f)));
                let v = live.next()?;
                if live.next().is_some() {
                    return None;
                }
                let f: Option<Vec<Val>> = variant_fields(t, v).iter().map(|x| zst(*x)).collect();
                f.map(|f| Val::en(t, v, f))
            }
            RigidTy::Array(_, _) if array_len(t) == Some(0) => Some(Val::agg(t, vec![])),
            _ => None,
        },
        _ => None,
    }
}

pub fn const_val(c: &MirConst) -> R<Val> {
    match c.kind() {
        ConstantKind::Allocated(a) => decode(a, 0, c.ty()),
        ConstantKind::ZeroSized => match zst(c.ty()) {
            Some(v) => Ok(v),
            None => unsup(format!("zero-sized constant of {}", c.ty())),
        },
        ConstantKind::Ty(t) => match t.kind() {
            TyConstKind::Value(ty, a) => decode(a, 0, *ty),
            TyConstKind::ZSTValue(ty) => zst(*ty).ok_or(Stop::Unsup("zst".into())),
            _ => unsup("type constant"),
        },
        k => unsup(format!("constant {:?}", k)),
    }
}
fn read_bytes(a: &Allocation, off: usize, n: usize) -> R<u128> {
    let mut x: u128 = 0;
    for i in 0..n {
        let b = match a.bytes.get(off + i) {
            Some(Some(b)) => *b,
            Some(None) => 0,
            None => return unsup("constant out of range"),
        };
        x |= (b as u128) << (8 * i);
    }
    Ok(x)
}
pub fn decode(a: &Allocation, off: usize, t: Ty) -> R<Val> {
    if let Some((bits, signed)) = int_bits(t) {
        let n = (bits / 8) as usize;
        let x = read_bytes(a, off, n)?;
        let v = if signed && bits < 128 {
            let sh = 128 - bits;
            ((x << sh) as i128) >> sh
        } else {
            x as i128
        };
        return Ok(Val::int(v));
    }
    match rigid(t) {
        RigidTy::Bool => Ok(Val::bool(read_bytes(a, off, 1)? != 0)),
        RigidTy::Ref(..) | RigidTy::RawPtr(..) => decode_ptr(a, off, t),
        RigidTy::FnPtr(_) => {
            for (o, p) in &a.provenance.ptrs {
                if *o as usize == off {
                    if let GlobalAlloc::Function(i) = GlobalAlloc::from(p.0) {
                        return Ok(Val::Fn(i.ty()));
                    }
                }
            }
            unsup("function pointer constant")
        }
        RigidTy::Tuple(ts) => {
            if ts.is_empty() {
                return Ok(Val::unit());
            }
            let offs = field_offsets(t)?;
            let mut f = vec![];
            for (i, x) in ts.iter().enumerate() {
                f.push(decode(a, off + offs[i], *x)?);
            }
            Ok(Val::agg(t, f))
        }
        RigidTy::Array(e, _) => {
            let n = array_len(t).unwrap_or(0) as usize;
            let sz = size_of(e)?;
            let mut f = vec![];
            for i in 0..n {
                f.push(decode(a, off + i * sz, e)?);
            }
            Ok(Val::agg(t, f))
        }
        RigidTy::Adt(d, _) => {
            if pointee(t).is_some() {
                return decode_ptr(a, off, t);
            }
            if is_vec(t) {
                return Ok(Val::Vec(Rc::new(VecV { elem: generic_ty(t, 0).unwrap(), base: None, items: vec![] })));
            }
            if is_string(t) {
                return Ok(Val::Str(Rc::new(vec![])));
            }
            if adt_name(t) == "std::fmt::Arguments" {
                return unsup("constant format arguments");
            }
            match d.kind() {
                AdtKind::Struct => {
                    let tys = variant_fields(t, 0);
                    let offs = field_offsets(t)?;
                    let mut f = vec![];
                    for (i, x) in tys.iter().enumerate() {
                        f.push(decode(a, off + offs[i], *x)?);
                    }
                    Ok(Val::agg(t, f))
                }
                AdtKind::Enum => {
                    let sh = t.layout().map_err(|_| Stop::Unsup("layout".into()))?.shape();
                    use rustc_public::abi::*;
                    let (v, offs) = match &sh.variants {
                        VariantsShape::Single { index } => {
                            let offs = field_offsets(t)?;
                            (vidx(index) as u32, offs)
                        }
                        VariantsShape::Multiple { tag, tag_encoding, variants, .. } => {
                            let tag_off = field_offsets(t)?[0];
                            let n = scalar_size(tag);
                            let raw = read_bytes(a, off + tag_off, n)?;
                            let has_prov = a.provenance.ptrs.iter().any(|(o, _)| *o as usize == off + tag_off);
                            let v = match tag_encoding {
                                TagEncoding::Direct => {
                                    let nv = num_variants(t);
                                    let mask = if n >= 16 { u128::MAX } else { (1u128 << (8 * n)) - 1 };
                                    match (0..nv).find(|v| (discr_of_variant(t, *v) as u128) & mask == raw) {
                                        Some(v) => v,
                                        None => return unsup("enum tag"),
                                    }
                                }
                                TagEncoding::Niche { untagged_variant, niche_variants, niche_start } => {
                                    let (s, e) = (vidx(niche_variants.start()) as u128, vidx(niche_variants.end()) as u128);
                                    let mask = if n >= 16 { u128::MAX } else { (1u128 << (8 * n)) - 1 };
                                    let rel = raw.wrapping_sub(*niche_start) & mask;
                                    if !has_prov && rel <= e - s {
                                        (s + rel) as u32
                                    } else {
                                        vidx(untagged_variant) as u32
                                    }
                                }
                            };
                            let offs = variants[v as usize].offsets.iter().map(|o| o.bytes()).collect();
                            (v, offs)
                        }
                        VariantsShape::Empty => return unsup("empty enum"),
                    };
                    let tys = variant_fields(t, v);
                    let mut f = vec![];
                    for (i, x) in tys.iter().enumerate() {
                        f.push(decode(a, off + offs[i], *x)?);
                    }
                    Ok(Val::en(t, v, f))
                }
                AdtKind::Union => unsup("union constant"),
            }
        }
        RigidTy::FnDef(..) | RigidTy::Closure(..) => zst(t).ok_or(Stop::Unsup("zst".into())),
        _ => unsup(format!("constant of type {}", t)),
    }
}
fn scalar_size(s: &rustc_public::abi::Scalar) -> usize {
    use rustc_public::abi::*;
    let p = match s {
        Scalar::Initialized { value, .. } => value,
        Scalar::Union { value } => value,
    };
    match p {
        Primitive::Int { length, .. } => length.bits() / 8,
        Primitive::Float { length } => length.bits() / 8,
        Primitive::Pointer(_) => 8,
    }
}
pub fn size_of(t: Ty) -> R<usize> {
    t.layout().map(|l| l.shape().size.bytes()).map_err(|_| Stop::Unsup("layout".into()))
}
fn field_offsets(t: Ty) -> R<Vec<usize>> {
    let sh = t.layout().map_err(|_| Stop::Unsup("layout".into()))?.shape();
    match sh.fields {
        rustc_public::abi::FieldsShape::Arbitrary { offsets } => Ok(offsets.iter().map(|o| o.bytes()).collect()),
        rustc_public::abi::FieldsShape::Primitive => Ok(vec![0]),
        _ => Ok(vec![]),
    }
}
fn decode_ptr(a: &Allocation, off: usize, t: Ty) -> R<Val> {
    let p = pointee(t).unwrap();
    let prov = a.provenance.ptrs.iter().find(|(o, _)| *o as usize == off).map(|x| x.1 .0);
    let addr = read_bytes(a, off, 8)? as usize;
    if is_unsized_seq(p) {
        let n = read_bytes(a, off + 8, 8)? as usize;
        let e = elem_ty(p).unwrap();
        if n == 0 {
            return Ok(Val::slice(
                if int_bits(e) == Some((8, false)) { SBase::Bytes(Rc::new(vec![])) } else { SBase::Vals(Rc::new(vec![])) },
                Form::k(0),
                Form::k(0),
            ));
        }
        let mem = match prov.map(GlobalAlloc::from) {
            Some(GlobalAlloc::Memory(m)) => m,
            Some(GlobalAlloc::Static(s)) => s.eval_initializer().map_err(|_| Stop::Unsup("static".into()))?,
            _ => return unsup("slice constant"),
        };
        if int_bits(e) == Some((8, false)) {
            let mut b = vec![];
            for i in 0..n {
                b.push(read_bytes(&mem, addr + i, 1)? as u8);
            }
            return Ok(Val::slice(SBase::Bytes(Rc::new(b)), Form::k(0), Form::k(n as i128)));
        }
        let sz = size_of(e)?;
        let mut v = vec![];
        for i in 0..n {
            v.push(decode(&mem, addr + i * sz, e)?);
        }
        return Ok(Val::slice(SBase::Vals(Rc::new(v)), Form::k(0), Form::k(n as i128)));
    }
    if is_dyn(p) {
        let vt = a.provenance.ptrs.iter().find(|(o, _)| *o as usize == off + 8).map(|x| x.1 .0);
        if let Some(GlobalAlloc::VTable(ty, _)) = vt.map(GlobalAlloc::from) {
            let v = match prov.map(GlobalAlloc::from) {
                Some(GlobalAlloc::Memory(m)) => decode(&m, addr, ty)?,
                _ => zst(ty).ok_or(Stop::Unsup("dyn constant".into()))?,
            };
            return Ok(Val::Dyn(Rc::new(Val::Ref(Pl::new(Base::Const(Rc::new(v))))), ty));
        }
        return unsup("dyn constant");
    }
    match prov.map(GlobalAlloc::from) {
        Some(GlobalAlloc::Memory(m)) => Ok(Val::Ref(Pl::new(Base::Const(Rc::new(decode(&m, addr, p)?))))),
        Some(GlobalAlloc::Static(s)) => {
            let m = s.eval_initializer().map_err(|_| Stop::Unsup("static".into()))?;
            Ok(Val::Ref(Pl::new(Base::Const(Rc::new(decode(&m, addr, p)?)))))
        }
        None => match zst(p) {
            Some(v) => Ok(Val::Ref(Pl::new(Base::Const(Rc::new(v))))),
            None => unsup("dangling pointer constant"),
        },
        _ => unsup("pointer constant"),
    }
}

// ---------------------------------------------------------------- control flow
fn build_info(inst: Instance, name: String, body: Body) -> FnInfo {
    let n = body.blocks.len();
    let succ: Vec<Vec<usize>> = body
        .blocks
        .iter()
        .map(|b| match &b.terminator.kind {
            TerminatorKind::Goto { target } => vec![*target],
            TerminatorKind::SwitchInt { targets, .. } => targets.all_targets(),
            TerminatorKind::Drop { target, .. } => vec![*target],
            TerminatorKind::Call { target, .. } => target.iter().cloned().collect(),
            TerminatorKind::Assert { target, .. } => vec![*target],
            _ => vec![],
        })
        .collect();
    // reachable, reverse postorder
    let mut order = vec![];
    let mut state = vec![0u8; n];
    let mut stack = vec![(0usize, 0usize)];
    state[0] = 1;
    while let Some((b, i)) = stack.pop() {
        if i < succ[b].len() {
            stack.push((b, i + 1));
            let s = succ[b][i];
            if state[s] == 0 {
                state[s] = 1;
                stack.push((s, 0));
            }
        } else {
            order.push(b);
        }
    }
    order.reverse();
    let mut rpo = vec![usize::MAX; n];
    for (i, b) in order.iter().enumerate() {
        rpo[*b] = i;
    }
    let mut preds: Vec<Vec<usize>> = vec![vec![]; n];
    for b in &order {
        for s in &succ[*b] {
            preds[*s].push(*b);
        }
    }
    // dominators
    let mut idom = vec![usize::MAX; n];
    idom[0] = 0;
    let mut changed = true;
    while changed {
        changed = false;
        for b in order.iter().skip(1) {
            let mut new = usize::MAX;
            for p in &preds[*b] {
                if idom[*p] == usize::MAX {
                    continue;
                }
                new = if new == usize::MAX {
                    *p
                } else {
                    let (mut x, mut y) = (*p, new);
                    while x != y {
                        while rpo[x] > rpo[y] {
                            x = idom[x];
                        }
                        while rpo[y] > rpo[x] {
                            y = idom[y];
                        }
                    }
                    x
                };
            }
            if new != idom[*b] {
                idom[*b] = new;
                changed = true;
            }
        }
    }
    let dom = |a: usize, mut b: usize| -> bool {
        loop {
            if a == b {
                return true;
            }
            if b == 0 || idom[b] == usize::MAX {
                return false;
            }
            b = idom[b];
        }
    };
    let mut loops: BTreeMap<usize, BTreeSet<usize>> = BTreeMap::new();
    for b in &order {
        for s in &succ[*b] {
            if dom(*s, *b) {
                let set = loops.entry(*s).or_default();
                set.insert(*s);
                let mut w = vec![*b];
                while let Some(x) = w.pop() {
                    if set.insert(x) {
                        w.extend(preds[x].iter().cloned());
                    }
                }
            }
        }
    }
    let loops: Vec<LoopInfo> = loops.into_iter().map(|(header, blocks)| LoopInfo { header, blocks }).collect();
    let header_of = loops.iter().enumerate().map(|(i, l)| (l.header, i)).collect();
    // address-taken locals and liveness
    let nl = body.locals().len();
    let mut addr = vec![false; nl];
    let mut uses: Vec<HashSet<usize>> = vec![HashSet::new(); n];
    let mut defs: Vec<HashSet<usize>> = vec![HashSet::new(); n];
    for (bi, b) in body.blocks.iter().enumerate() {
        let (u, d) = (&mut uses[bi], &mut defs[bi]);
        let mut use_place = |p: &Place, u: &mut HashSet<usize>, d: &HashSet<usize>| {
            if !d.contains(&p.local) {
                u.insert(p.local);
            }
            for e in &p.projection {
                if let ProjectionElem::Index(l) = e {
                    if !d.contains(l) {
                        u.insert(*l);
                    }
                }
            }
        };
        let mut use_op = |o: &Operand, u: &mut HashSet<usize>, d: &HashSet<usize>| match o {
            Operand::Copy(p) | Operand::Move(p) => use_place(p, u, d),
            _ => {}
        };
        for s in &b.statements {
            match &s.kind {
                StatementKind::Assign(p, r) => {
                    match r {
                        Rvalue::Use(o, _) | Rvalue::Cast(_, o, _) | Rvalue::UnaryOp(_, o) | Rvalue::Repeat(o, _) => use_op(o, u, d),
                        Rvalue::BinaryOp(_, x, y) | Rvalue::CheckedBinaryOp(_, x, y) => {
                            use_op(x, u, d);
                            use_op(y, u, d);
                        }
                        Rvalue::Aggregate(_, os) => {
                            for o in os {
                                use_op(o, u, d)
                            }
                        }
                        Rvalue::Ref(_, _, p) | Rvalue::AddressOf(_, p) | Rvalue::Reborrow(_, _, p) => {
                            use_op(&Operand::Copy(p.clone()), u, d);
                            if !p.projection.contains(&ProjectionElem::Deref) {
                                addr[p.local] = true;
                            }
                        }
                        Rvalue::CopyForDeref(p) | Rvalue::Discriminant(p) | Rvalue::Len(p) => use_op(&Operand::Copy(p.clone()), u, d),
                        Rvalue::ThreadLocalRef(_) => {}
                    }
                    if p.projection.is_empty() {
                        d.insert(p.local);
                    } else {
                        use_op(&Operand::Copy(p.clone()), u, d);
                    }
                }
                StatementKind::SetDiscriminant { place, .. } => use_op(&Operand::Copy(place.clone()), u, d),
                StatementKind::StorageDead(l) | StatementKind::StorageLive(l) => {
                    d.insert(*l);
                }
                StatementKind::Intrinsic(NonDivergingIntrinsic::Assume(o)) => use_op(o, u, d),
                _ => {}
            }
        }
        match &b.terminator.kind {
            TerminatorKind::SwitchInt { discr, .. } => use_op(discr, u, d),
            TerminatorKind::Return => {
                u.insert(0);
            }
            TerminatorKind::Call { func, args, destination, .. } => {
                use_op(func, u, d);
                for a in args {
                    use_op(a, u, d);
                }
                if !destination.projection.is_empty() {
                    use_op(&Operand::Copy(destination.clone()), u, d);
                } else {
                    d.insert(destination.local);
                }
            }
            TerminatorKind::Assert { cond, .. } => use_op(cond, u, d),
            _ => {}
        }
    }
    let mut live_in = vec![vec![false; nl]; n];
    let mut changed = true;
    while changed {
        changed = false;
        for b in order.iter().rev() {
            for l in 0..nl {
                if live_in[*b][l] {
                    continue;
                }
                let lv = uses[*b].contains(&l) || (!defs[*b].contains(&l) && succ[*b].iter().any(|s| live_in[*s][l]));
                if lv {
                    live_in[*b][l] = true;
                    changed = true;
                }
            }
        }
    }
    LTYS.with(|m| m.borrow_mut().insert(inst, Rc::new(body.locals().iter().map(|l| l.ty).collect())));
    let is_closure = matches!(inst.ty().kind(), TyKind::RigidTy(RigidTy::Closure(..)));
    FnInfo { inst, local: inst.def.krate().is_local, name, body, loops, header_of, live_in, addr, is_closure }
}

/// merge results that differ only in one fact
pub fn merge_returns(res: &mut Vec<(State, Val)>) {
    if res.len() < 2 {
        return;
    }
    // only results with the same value and heap can be merged
    let mut groups: HashMap<u64, Vec<usize>> = HashMap::new();
    for (i, (s, v)) in res.iter().enumerate() {
        use std::hash::{Hash, Hasher};
        let mut h = std::collections::hash_map::DefaultHasher::new();
        v.hash(&mut h);
        for (k, x) in s.heap.iter() {
            k.hash(&mut h);
            x.hash(&mut h);
        }
        let k = h.finish();
        groups.entry(k).or_default().push(i);
    }
    let mut dead = vec![false; res.len()];
    for g in groups.into_values() {
        if g.len() > 12 {
            merge_large(res, &g, &mut dead);
            continue;
        }
        for a in 0..g.len() {
            let i = g[a];
            if dead[i] {
                continue;
            }
            let mut b = a + 1;
            while b < g.len() {
                let j = g[b];
                b += 1;
                if dead[j] || res[i].1 != res[j].1 {
                    continue;
                }
                if let Some(f) = merge_states(&res[i].0, &res[j].0) {
                    res[i].0.facts = f;
                    dead[j] = true;
                    b = a + 1;
                }
            }
        }
    }
    let mut it = dead.into_iter();
    res.retain(|_| !it.next().unwrap());
}
/// the same for many results: pairs that differ in one fact are found by hashing
fn merge_large(res: &mut [(State, Val)], g: &[usize], dead: &mut [bool]) {
    use std::collections::hash_map::DefaultHasher;
    use std::hash::{Hash, Hasher};
    fn h<T: Hash>(x: &T) -> u64 {
        let mut d = DefaultHasher::new();
        x.hash(&mut d);
        d.finish()
    }
    let sig = |f: &Facts| -> (u64, Vec<(u64, u64)>) {
        let mut all = 0u64;
        let mut es = vec![];
        for (k, s) in f.atoms.iter() {
            let e = h(&(0u8, k, &s.0));
            all ^= e;
            es.push((h(&(0u8, k)), e));
        }
        for (k, s) in f.forms.iter() {
            let e = h(&(1u8, k, &s.0));
            all ^= e;
            es.push((h(&(1u8, k)), e));
        }
        (all, es)
    };
    let mut map: HashMap<(u64, u64), usize> = HashMap::new();
    let mut queue: VecDeque<usize> = g.iter().cloned().collect();
    while let Some(i) = queue.pop_front() {
        if dead[i] {
            continue;
        }
        let (all, es) = sig(&res[i].0.facts);
        let mut keys = vec![(0u64, all)];
        for (k, e) in es {
            keys.push((k, all ^ e));
            keys.push((0, all ^ e));
        }
        let mut merged = false;
        for k in &keys {
            if let Some(&j) = map.get(k) {
                if j != i && !dead[j] && res[i].1 == res[j].1 {
                    if let Some(f) = merge_states(&res[j].0, &res[i].0) {
                        res[j].0.facts = f;
                        dead[i] = true;
                        queue.push_back(j);
                        merged = true;
                        break;
                    }
                }
            }
        }
        if !merged {
            for k in keys {
                map.insert(k, i);
            }
        }
    }
}
pub fn merge_states(a: &State, b: &State) -> Option<Facts> {
    if a.frames.len() != b.frames.len() || a.trace != b.trace || a.taint != b.taint {
        return None;
    }
    let f = merge_facts(&a.facts, &b.facts)?;
    if a.heap != b.heap {
        return None;
    }
    for (x, y) in a.frames.iter().zip(b.frames.iter()) {
        if !Rc::ptr_eq(x, y) && x != y {
            return None;
        }
    }
    Some(f)
}
/// union of two fact sets, if it can be expressed exactly
pub fn merge_facts(a: &Facts, b: &Facts) -> Option<Facts> {
    if a == b {
        return Some(a.clone());
    }
    // facts of a are weaker than those of b (or the other way round)
    let weaker = |x: &Facts, y: &Facts| -> bool {
        x.atoms.iter().all(|(k, s)| y.atoms.get(k) == Some(s) || y.atom_set(*k).subset(s))
            && x.forms.iter().all(|(f, s)| y.forms.get(f) == Some(s) || y.vset(f).subset(s))
    };
    if weaker(a, b) {
        return Some(a.clone());
    }
    if weaker(b, a) {
        return Some(b.clone());
    }
    let mut diff_a: Vec<AtomId> = vec![];
    for k in a.atoms.keys().chain(b.atoms.keys()) {
        if a.atoms.get(k) != b.atoms.get(k) && !diff_a.contains(k) {
            diff_a.push(*k);
        }
    }
    let mut diff_f: Vec<Form> = vec![];
    for k in a.forms.keys().chain(b.forms.keys()) {
        if a.forms.get(k) != b.forms.get(k) && !diff_f.contains(k) {
            diff_f.push(k.clone());
        }
    }
    if diff_a.len() == 1 && diff_f.is_empty() {
        let k = diff_a[0];
        let mut r = a.clone();
        let u = a.atom_set(k).union(&b.atom_set(k));
        let (lo, hi) = atom_range(k);
        if u == VSet::range(lo, hi) {
            Rc::make_mut(&mut r.atoms).remove(&k);
        } else {
            Rc::make_mut(&mut r.atoms).insert(k, u);
        }
        return Some(r);
    }
    if diff_f.len() == 1 && diff_a.is_empty() {
        let k = &diff_f[0];
        let mut r = a.clone();
        let u = a.vset(k).union(&b.vset(k));
        Rc::make_mut(&mut r.forms).remove(k);
        let full = r.vset(k);
        if !full.subset(&u) {
            Rc::make_mut(&mut r.forms).insert(k.clone(), u);
        }
        return Some(r);
    }
    None
}
