//! Walking the elements of a content on a path: which element lies where, is it valid, of which type.
use crate::form::*;
use crate::interp::*;
use crate::model::*;
use crate::natives::*;
use crate::spec::*;
use crate::val::*;
use rustc_public::ty::*;

pub type Props = &'static [&'static str];

/// expected part of an error
#[derive(Clone, Debug)]
pub enum Exp {
    /// the type of the element
    TypeOf(Pos),
    TypeName(&'static str),
    Is(Val),
    /// class, form and number of an identifier octet
    Id(Form),
}
#[derive(Clone, Debug)]
pub enum PK {
    Malformed(Pos),
    Missing,
    Wrong(&'static str, Pos),
    Trailing(Pos),
    Named(&'static str, Vec<Exp>),
    /// accepting and rejecting are both fine
    Any,
    /// the code's own bookkeeping contradicts the specification
    Internal(String),
}
#[derive(Clone, Debug)]
pub struct Prob {
    pub kind: PK,
    pub props: Props,
    pub place: String,
}
pub enum SE {
    P(Prob),
    S(Stop),
}
impl From<Stop> for SE {
    fn from(s: Stop) -> SE {
        SE::S(s)
    }
}
pub type SR<T> = Result<T, SE>;

#[derive(Clone, Debug)]
pub struct Cur {
    pub r: KeyId,
    pub o: Form,
    pub end: Form,
}
impl Cur {
    pub fn of(s: &SliceV) -> R<Cur> {
        match &s.base {
            SBase::Sym(k, _) => Ok(Cur { r: *k, o: s.start.clone(), end: s.start.add(&s.len) }),
            _ => unsup("content is no symbolic region"),
        }
    }
    pub fn inside(p: &Pos) -> Cur {
        Cur { r: p.region(), o: Form::k(0), end: p.len() }
    }
}

pub fn ids_of(ty: &str) -> VSet {
    thread_local!(static IDS: std::cell::RefCell<std::collections::HashMap<String, VSet>> = Default::default());
    if let Some(v) = IDS.with(|i| i.borrow().get(ty).cloned()) {
        return v;
    }
    let v = ids_of_(ty);
    IDS.with(|i| i.borrow_mut().insert(ty.to_string(), v.clone()));
    v
}
fn ids_of_(ty: &str) -> VSet {
    VSet::from_vals((0..256).filter(|b| id_type(*b) == Some(ty)).collect())
}

pub struct W<'a> {
    pub en: &'a mut En,
    pub st: &'a State,
    pub sect: Props,
    /// the section before
    pub prev: Props,
    pub place: String,
    pub visited: Vec<&'static str>,
    /// loops entered on the path, not yet used
    pub loops: Vec<usize>,
    /// extra comparisons the caller may ask for one at a time
    pub sel: usize,
    pub more: usize,
}

impl<'a> W<'a> {
    pub fn new(en: &'a mut En, st: &'a State, from: usize, sel: usize) -> W<'a> {
        let loops = st.trace.iter().skip(from).filter_map(|e| if let Event::Loop(i) = e { Some(*i) } else { None }).collect();
        W { en, st, sect: &[], prev: &[], place: String::new(), visited: vec![], loops, sel, more: 0 }
    }
    pub fn enter(&mut self, sect: Props, place: &str) {
        if self.sect != sect {
            self.prev = self.sect;
        }
        self.sect = sect;
        self.place = place.to_string();
        for s in sect {
            if !self.visited.contains(s) {
                self.visited.push(s);
            }
        }
    }
    pub fn fail<T>(&self, kind: PK) -> SR<T> {
        Err(SE::P(Prob { kind, props: self.sect, place: self.place.clone() }))
    }
    pub fn is(&self, f: &Form, s: VSet) -> R<bool> {
        truth(self.en, self.st, f, s)
    }
    pub fn at_end(&self, c: &Cur) -> R<bool> {
        Ok(!self.is(&c.end.sub(&c.o), VSet::range(1, INF))?)
    }
    pub fn pos(&self, c: &Cur) -> Pos {
        let k = (c.r, c.o.clone(), c.end.clone());
        if let Some(m) = &*self.en.memo.borrow() {
            if let Some(p) = m.pos.get(&k) {
                return p.clone();
            }
        }
        let p = Pos::new(&self.st.facts, c.r, &c.o, &c.end);
        if let Some(m) = &mut *self.en.memo.borrow_mut() {
            m.pos.insert(k, p.clone());
        }
        p
    }
    /// the identifier octet may have been read under another name of its offset
    fn know(&self, p: &Pos) -> R<()> {
        match p.known_id(&self.st.facts) {
            Some(s) => axiom(self.en, self.st, &p.id(), &s),
            None => Ok(()),
        }
    }
    /// the valid element at the cursor
    pub fn el(&mut self, c: &Cur) -> SR<Pos> {
        if self.at_end(c)? {
            return self.fail(PK::Missing);
        }
        let p = self.pos(c);
        self.know(&p)?;
        if !self.is(&p.id(), supported())? {
            axiom(self.en, self.st, &p.valid(), &VSet::one(0))?;
        }
        if !self.is(&p.valid(), VSet::one(1))? {
            return self.fail(PK::Malformed(p));
        }
        axiom(self.en, self.st, &p.id(), &supported())?;
        axiom(self.en, self.st, &p.rem().sub(&p.hdr()).sub(&p.len()), &VSet::range(0, INF))?;
        Ok(p)
    }
    pub fn expect(&mut self, c: &mut Cur, ty: &'static str) -> SR<Pos> {
        let p = self.el(c)?;
        if !self.is(&p.id(), ids_of(ty))? {
            return self.fail(PK::Wrong(ty, p));
        }
        c.o = p.next();
        Ok(p)
    }
    pub fn any(&mut self, c: &mut Cur) -> SR<Pos> {
        let p = self.el(c)?;
        c.o = p.next();
        Ok(p)
    }
    /// the element at the cursor if its identifier octet is one of those
    pub fn optional(&mut self, c: &mut Cur, ids: VSet) -> SR<Option<Pos>> {
        if self.at_end(c)? {
            return Ok(None);
        }
        let p = self.pos(c);
        self.know(&p)?;
        if !self.is(&p.id(), ids)? {
            return Ok(None);
        }
        let p = self.el(c)?;
        c.o = p.next();
        Ok(Some(p))
    }
    pub fn tagged(&mut self, c: &mut Cur, tag: i128) -> SR<Option<Pos>> {
        self.optional(c, VSet::from_vals(vec![0x80 + tag, 0xA0 + tag]))
    }
    pub fn finish(&mut self, c: &Cur) -> SR<()> {
        if !self.at_end(c)? {
            let p = self.pos(c);
            return self.fail(PK::Trailing(p));
        }
        Ok(())
    }
    /// the arcs of the object identifier at p are exactly these
    pub fn oid_is(&self, p: &Pos, arcs: &[i128]) -> R<bool> {
        let (k, n) = p.oid();
        if !self.is(&n, VSet::one(arcs.len() as i128))? {
            return Ok(false);
        }
        for (i, a) in arcs.iter().enumerate() {
            let e = Form::elem(k, &Form::k(i as i128), 0, 0xFFFF_FFFF);
            if !self.is(&e, VSet::one(*a))? {
                return Ok(false);
            }
        }
        Ok(true)
    }

    /// walk the elements of a list, through the loops of the code
    pub fn list(
        &mut self,
        c: &mut Cur,
        acc: &mut Vec<Val>,
        acc_of: &AccOf,
        stop: Option<&Form>,
        item: &mut dyn FnMut(&mut W, Pos, &mut Vec<Val>) -> SR<()>,
    ) -> SR<()> {
        self.series(c, acc, acc_of, stop, &mut |w, c, acc| {
            let p = w.el(c)?;
            c.o = p.next();
            item(w, p, acc)
        })
    }
    /// walk the items of a series, through the loops of the code
    pub fn series(
        &mut self,
        c: &mut Cur,
        acc: &mut Vec<Val>,
        acc_of: &AccOf,
        stop: Option<&Form>,
        item: &mut dyn FnMut(&mut W, &mut Cur, &mut Vec<Val>) -> SR<()>,
    ) -> SR<()> {
        let mut steps = 0;
        loop {
            if let Some((i, l)) = self.find_loop(c) {
                let rec = self.en.recs[i].clone();
                let path = acc_path(&rec.head, acc_of)?;
                if let Some(path) = path {
                    let pre = acc_at(&rec.pre, &path)?;
                    let head = acc_at(&rec.head, &path)?;
                    if pre.len() != acc.len() {
                        return self.fail(PK::Internal("result before the loop has another shape".into()));
                    }
                    for (a, b) in pre.iter().zip(acc.iter()) {
                        if !same(self.en, self.st, a, b)? {
                            return self.fail(PK::Internal(format!("result before the loop is {} instead of {}", a.show(), b.show())));
                        }
                    }
                    *acc = head;
                } else if !acc.is_empty() {
                    return Err(SE::S(Stop::Unsup("no result variable in the loop".into())));
                }
                c.o = l.off.clone();
                self.loops.retain(|x| *x != i);
                steps = 0;
            }
            if let Some(y) = stop {
                if steps > 0 && self.st.facts.eq0(&c.o.sub(y)) {
                    return Ok(());
                }
            }
            if self.at_end(c)? {
                if stop.is_some() {
                    return self.fail(PK::Internal("the loop goes on at the end of the list, or not at the end of an element".into()));
                }
                return Ok(());
            }
            if steps >= 3 {
                return Err(SE::S(Stop::Unsup("elements of a list beyond the loops of the code".into())));
            }
            steps += 1;
            item(self, c, acc)?;
        }
    }
    pub fn find_loop(&self, c: &Cur) -> Option<(usize, Cursor)> {
        for i in &self.loops {
            let rec = &self.en.recs[*i];
            if let Some(l) = cursor_of(rec) {
                let entry = l.entry(rec);
                if l.r == c.r && (entry == c.o || self.st.facts.eq0(&entry.sub(&c.o))) {
                    let d = l.end.sub(&c.end);
                    if d.constant() == Some(0) || rec.head.facts.eq0(&d) || self.st.facts.eq0(&d) {
                        return Some((*i, l));
                    }
                }
            }
        }
        None
    }
}

/// where a loop over elements stands: the offset in its region, made of a variable of the loop
#[derive(Clone, Debug)]
pub struct Cursor {
    pub r: KeyId,
    pub leaf: AtomId,
    pub off: Form,
    pub end: Form,
}
impl Cursor {
    pub fn entry(&self, rec: &LoopRec) -> Form {
        match rec.leaves.iter().find(|l| l.atom == self.leaf) {
            Some(l) => self.off.subst(self.leaf, &l.entry),
            None => self.off.clone(),
        }
    }
    /// the offset after an iteration
    pub fn after(&self, y: &std::collections::HashMap<AtomId, Form>) -> Form {
        match y.get(&self.leaf) {
            Some(y) => self.off.subst(self.leaf, y),
            None => self.off.clone(),
        }
    }
    pub fn cur(&self) -> Cur {
        Cur { r: self.r, o: self.off.clone(), end: self.end.clone() }
    }
}
/// the cursor of a loop over elements: a slice that gets shorter, or a position beside a slice
pub fn cursor_of(rec: &LoopRec) -> Option<Cursor> {
    let leaf_of = |f: &Form| f.single().filter(|a| *f == Form::atom(*a) && rec.leaves.iter().any(|l| l.atom == *a));
    let octets = |s: &SliceV| match &s.base {
        SBase::Sym(k, t) if int_range(*t) == Some((0, 255)) => Some(*k),
        _ => None,
    };
    let mut found: Option<Cursor> = None;
    let mut second: Option<Cursor> = None;
    each_value(&rec.head, &mut |v| match v {
        Val::Slice(s) => {
            if let (Some(k), Some(a)) = (octets(s), leaf_of(&s.start)) {
                if found.is_none() {
                    found = Some(Cursor { r: k, leaf: a, off: s.start.clone(), end: s.start.add(&s.len) });
                }
            }
        }
        Val::Agg(a) if second.is_none() => {
            let ss: Vec<&SliceV> = a.f.iter().filter_map(|x| if let Val::Slice(s) = x { Some(&**s) } else { None }).collect();
            let is: Vec<AtomId> = a.f.iter().filter_map(|x| if let Val::Int(f) = x { leaf_of(f) } else { None }).collect();
            if let (&[s], &[i]) = (&ss[..], &is[..]) {
                if let Some(k) = octets(s) {
                    if !s.start.atoms().iter().any(|a| rec.leaves.iter().any(|l| l.atom == *a)) {
                        let off = s.start.add(&Form::atom(i));
                        second = Some(Cursor { r: k, leaf: i, off, end: s.start.add(&s.len) });
                    }
                }
            }
        }
        _ => {}
    });
    found.or(second)
}

// ------------------------------------------------------------- result variables
/// which values are the accumulated result: a predicate on values, giving their parts
pub type AccOf<'a> = dyn Fn(&Val) -> Option<Vec<Val>> + 'a;
#[derive(Clone, Debug, PartialEq)]
pub enum AccPath {
    Local(usize, usize, Vec<usize>),
    Heap(KeyId, Vec<usize>),
}
fn sub_paths(v: &Val, p: &AccOf, cur: &mut Vec<usize>, out: &mut Vec<Vec<usize>>) {
    if p(v).is_some() {
        out.push(cur.clone());
        return;
    }
    let fs = match v {
        Val::Agg(a) => &a.f,
        Val::Enum(e) => &e.f,
        _ => return,
    };
    for (i, x) in fs.iter().enumerate() {
        cur.push(i);
        sub_paths(x, p, cur, out);
        cur.pop();
    }
}
pub fn acc_path(st: &State, p: &AccOf) -> R<Option<AccPath>> {
    let mut found = vec![];
    for (i, fr) in st.frames.iter().enumerate() {
        for (j, v) in fr.locals.iter().enumerate() {
            let mut out = vec![];
            sub_paths(v, p, &mut vec![], &mut out);
            for o in out {
                found.push(AccPath::Local(i, j, o));
            }
        }
    }
    for (k, v) in st.heap.iter() {
        let mut out = vec![];
        sub_paths(v, p, &mut vec![], &mut out);
        for o in out {
            found.push(AccPath::Heap(*k, o));
        }
    }
    // the one that varies in the loop is the last
    match found.len() {
        0 => Ok(None),
        1 => Ok(found.pop()),
        _ => unsup("several result variables"),
    }
}
pub fn acc_at_with(st: &State, path: &AccPath, p: &AccOf) -> R<Vec<Val>> {
    let (mut v, sub) = match path {
        AccPath::Local(i, j, s) => (
            st.frames.get(*i).and_then(|f| f.locals.get(*j)).cloned().ok_or(Stop::Unsup("no such variable".into()))?,
            s,
        ),
        AccPath::Heap(k, s) => (st.heap.get(k).cloned().ok_or(Stop::Unsup("no such object".into()))?, s),
    };
    for i in sub {
        v = match &v {
            Val::Agg(a) => a.f.get(*i).cloned(),
            Val::Enum(e) => e.f.get(*i).cloned(),
            _ => None,
        }
        .ok_or(Stop::Unsup("no such field".into()))?;
    }
    p(&v).ok_or(Stop::Unsup("result variable has another shape".into()))
}
fn acc_at(st: &State, path: &AccPath) -> R<Vec<Val>> {
    acc_at_with(st, path, &|v| {
        Some(match v {
            Val::Agg(a) => a.f.clone(),
            v => vec![v.clone()],
        })
    })
}
/// a vector whose element type has this name
pub fn acc_vec<'b>(elem: &'b str) -> impl Fn(&Val) -> Option<Vec<Val>> + 'b {
    move |v| match v {
        Val::Vec(x) if adt_name(x.elem).rsplit("::").next() == Some(elem) => Some(vec![v.clone()]),
        _ => None,
    }
}
/// a struct of this name, by its fields
pub fn acc_struct<'b>(name: &'b str) -> impl Fn(&Val) -> Option<Vec<Val>> + 'b {
    move |v| match v {
        Val::Agg(a) if adt_name(a.ty).rsplit("::").next() == Some(name) => Some(a.f.clone()),
        _ => None,
    }
}

// ------------------------------------------------------------- errors
pub fn type_is(en: &En, st: &State, v: &Val, p: &Pos) -> R<bool> {
    let v = loaded(en, st, v)?;
    let t = match &v {
        Val::Enum(e) => e.ty,
        Val::Sym(k, t) => {
            if key_name(*k) == format!("tid!{}", p.key) {
                return Ok(true);
            }
            *t
        }
        _ => return unsup("type identifier"),
    };
    let i = en.variant(st, &v)?;
    truth(en, st, &p.id(), ids_of(&variant_name(t, i)))
}
pub fn type_named(en: &En, st: &State, v: &Val, name: &str) -> R<bool> {
    let v = loaded(en, st, v)?;
    let i = en.variant(st, &v)?;
    let t = match &v {
        Val::Enum(e) => e.ty,
        Val::Sym(_, t) => *t,
        _ => return unsup("type identifier"),
    };
    Ok(variant_name(t, i) == name)
}
/// class, form and tag number denoted by an identifier octet
pub fn identifier_is(en: &En, st: &State, v: &Val, id: &Form) -> R<bool> {
    let v = loaded(en, st, v)?;
    for (n, x) in struct_fields(&v)? {
        match &x {
            Val::Int(f) => {
                let other = match id.single().map(atom_kind) {
                    Some(AtomKind::Elem(r, o)) => st.facts.alias(r, &o).map(|g| Form::elem(r, &g, 0, 255)),
                    _ => None,
                };
                let number = |id: &Form| table(id, &|b| b & 0x1f).sub(f);
                if other.map(|o| st.facts.eq0(&number(&o))).unwrap_or(false) {
                    continue;
                }
                if !zero(en, st, &number(id))? {
                    return Ok(false);
                }
            }
            x => {
                let i = en.variant(st, x)?;
                let t = match x {
                    Val::Enum(e) => e.ty,
                    Val::Sym(_, t) => *t,
                    _ => return unsup("identifier"),
                };
                let name = variant_name(t, i);
                let set = match name.as_str() {
                    "Universal" => VSet::range(0, 63),
                    "Application" => VSet::range(64, 127),
                    "ContextSpecific" => VSet::range(128, 191),
                    "Private" => VSet::range(192, 255),
                    "Primitive" => VSet::from_vals((0..256).filter(|b| b & 0x20 == 0).collect()),
                    "Constructed" => VSet::from_vals((0..256).filter(|b| b & 0x20 != 0).collect()),
                    _ => return unsup(format!("field {} of an identifier", n)),
                };
                if !truth(en, st, id, set)? {
                    return Ok(false);
                }
            }
        }
    }
    Ok(true)
}
/// is `e` the error of the malformed element at p
pub fn malformed_error(en: &En, st: &State, e: &Val, p: &Pos) -> R<bool> {
    if is_error_of(e, p) {
        return Ok(true);
    }
    if let Ok(Val::Sym(..)) = unwrap_error(e) {
        return Ok(false);
    }
    let (n, f) = error_name(en, st, e)?;
    if n == "UnsupportedId" && f.len() == 1 {
        if truth(en, st, &p.id(), supported())? {
            return Ok(false);
        }
        return identifier_is(en, st, &f[0], &p.id());
    }
    Ok(false)
}
/// check the error `e` the code returns against the problem the specification found
pub fn check_error(en: &En, st: &State, pr: &Prob, e: &Val) -> R<Verdict> {
    let with = |more: &[&str]| -> Vec<String> {
        let mut v: Vec<String> = pr.props.iter().map(|s| s.to_string()).collect();
        v.extend(more.iter().map(|s| s.to_string()));
        v
    };
    let shown = unwrap_error(e)?.show();
    // another malformed element, reported with its own error
    if let Val::Sym(k, _) = unwrap_error(e)? {
        let n = key_name(k);
        if let Some(x) = n.strip_prefix("err!") {
            if st.facts.entails(&Form::named(&format!("v!{}", x), 0, 1), &VSet::one(0)) && !matches!(pr.kind, PK::Malformed(_)) {
                return match &pr.kind {
                    PK::Trailing(p) if p.key == x => holds(),
                    PK::Trailing(_) | PK::Any => holds(),
                    _ => Ok(Verdict::Broken(with(&["C16"]), format!("{}: fails with {} instead of {}", pr.place, shown, describe(pr)))),
                };
            }
        }
    }
    let ok = match &pr.kind {
        PK::Any => true,
        PK::Internal(_) => true,
        PK::Malformed(p) => {
            return if malformed_error(en, st, e, p)? {
                holds()
            } else {
                Ok(Verdict::Broken(with(&["C17", "C38"]), format!("{}: fails with {} although the malformed element comes first ({})", pr.place, shown, describe(pr))))
            }
        }
        PK::Missing => {
            if let Val::Sym(..) = unwrap_error(e)? {
                false
            } else {
                error_name(en, st, e)?.0 == "EndOfStream"
            }
        }
        PK::Wrong(want, p) => {
            if let Val::Sym(..) = unwrap_error(e)? {
                false
            } else {
                let (n, f) = error_name(en, st, e)?;
                let ok = n == "UnexpectedType" && f.len() == 2 && type_named(en, st, &f[0], want)? && type_is(en, st, &f[1], p)?;
                if !ok {
                    return Ok(Verdict::Broken(
                        vec!["C16".into(), "C38".into()],
                        format!("{}: fails with {} instead of {}", pr.place, shown, describe(pr)),
                    ));
                }
                true
            }
        }
        PK::Trailing(p) => {
            if let Val::Sym(..) = unwrap_error(e)? {
                is_error_of(e, p)
            } else {
                let (n, f) = error_name(en, st, e)?;
                let ok = n == "ExpectedEnd" && f.len() == 1 && type_is(en, st, &f[0], p)? || malformed_error(en, st, e, p)?;
                if !ok {
                    return Ok(Verdict::Broken(with(&["C18", "C38"]), format!("{}: fails with {} instead of {}", pr.place, shown, describe(pr))));
                }
                true
            }
        }
        PK::Named(want, exp) => {
            if let Val::Sym(..) = unwrap_error(e)? {
                false
            } else {
                let (n, f) = error_name(en, st, e)?;
                let mut ok = n == *want && f.len() == exp.len();
                if ok {
                    for (x, y) in f.iter().zip(exp.iter()) {
                        ok = ok
                            && match y {
                                Exp::TypeOf(p) => type_is(en, st, x, p)?,
                                Exp::TypeName(n) => type_named(en, st, x, n)?,
                                Exp::Is(v) => same(en, st, x, v)?,
                                Exp::Id(f) => identifier_is(en, st, x, f)?,
                            };
                    }
                }
                if !ok {
                    return Ok(Verdict::Broken(with(&["C38"]), format!("{}: fails with {} instead of {}", pr.place, shown, describe(pr))));
                }
                true
            }
        }
    };
    if ok {
        holds()
    } else {
        Ok(Verdict::Broken(with(&[]), format!("{}: fails with {} instead of {}", pr.place, shown, describe(pr))))
    }
}
pub fn describe(p: &Prob) -> String {
    match &p.kind {
        PK::Malformed(p) => format!("the malformed element {}", p.key),
        PK::Missing => "a missing element".to_string(),
        PK::Wrong(w, p) => format!("element {} that is no {}", p.key, w),
        PK::Trailing(p) => format!("trailing data at {}", p.key),
        PK::Named(n, _) => format!("the error {}", n),
        PK::Any => "any".to_string(),
        PK::Internal(s) => s.clone(),
    }
}
/// properties broken if the input is accepted in spite of the problem
pub fn accept_props(p: &Prob) -> Vec<String> {
    let mut v: Vec<String> = p.props.iter().map(|s| s.to_string()).collect();
    match &p.kind {
        PK::Malformed(_) => v.push("C17".into()),
        PK::Trailing(_) => v.push("C18".into()),
        PK::Wrong(..) => v.push("C16".into()),
        _ => {}
    }
    v
}
pub fn ty_of(v: &Val) -> Option<Ty> {
    match v {
        Val::Agg(a) => Some(a.ty),
        Val::Enum(e) => Some(e.ty),
        Val::Sym(_, t) => Some(*t),
        _ => None,
    }
}
