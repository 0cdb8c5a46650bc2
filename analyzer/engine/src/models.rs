//! Models of library functions.
use crate::mach::*;
use crate::value::*;
use ir::{Callee, Ty};
use std::collections::BTreeMap;
use std::rc::Rc;

/// Head of the type and name of the method of a path.
pub fn head(path: &str) -> (String, String) {
    let method = path.rsplit("::").next().unwrap_or(path).to_string();
    let strip = |s: &str| -> String {
        let s = s.trim_start_matches('&').trim_start_matches("mut ").trim_start_matches("'a ").trim();
        let s = s.trim_start_matches('(');
        let s = s.split('<').next().unwrap_or(s);
        s.rsplit("::").next().unwrap_or(s).trim_end_matches(')').to_string()
    };
    if let Some(r) = path.strip_prefix('<') {
        // <T as Trait>::m or <T>::m
        let mut depth = 0;
        let mut end = r.len();
        for (i, ch) in r.char_indices() {
            match ch {
                '<' => depth += 1,
                '>' if depth == 0 => { end = i; break }
                '>' => if !r[..i].ends_with('-') { depth -= 1 },
                _ => {}
            }
        }
        let inner = &r[..end];
        let t = match inner.find(" as ") {
            Some(i) => &inner[..i],
            None => inner,
        };
        return (strip(t), method);
    }
    if let Some(i) = path.find("<impl ") {
        let r = &path[i + 6..];
        let r = match r.find(" for ") { Some(j) => &r[j + 5..], None => r };
        return (strip(r.trim_end_matches(&format!("::{}", method)).trim_end_matches('>')), method);
    }
    let l: Vec<&str> = path.split("::").collect();
    if l.len() >= 2 { (strip(l[l.len() - 2]), method) } else { (String::new(), method) }
}

fn add(c: Option<Cnt>) -> Cnt {
    match c { None => Cnt::One, _ => Cnt::Must }
}
pub fn is_o(v: &V) -> bool {
    let mut b = false;
    v.walk(&mut |x| if let V::Sym(Sym::Ptr(Id::O(_), _) | Sym::Prom(Id::O(_)) | Sym::Can(Id::O(_)) | Sym::Weak(Id::O(_)) | Sym::Art(Id::O(_), _) | Sym::Dyn(Id::O(_), _)) = x { b = true });
    b
}
/// Forgets where an id comes from.
pub fn strip(v: &V) -> V {
    match v {
        V::Sym(Sym::Ptr(i, true)) => V::Sym(Sym::Ptr(*i, false)),
        V::Adt(p, n, f, t) => V::Adt(p.clone(), *n, f.iter().map(strip).collect(), *t && false),
        V::Tuple(f) => V::Tuple(f.iter().map(strip).collect()),
        V::RefVal(b) => V::RefVal(Box::new(strip(b))),
        v => v.clone(),
    }
}
pub fn dirty_id(v: &V) -> V {
    match v {
        V::Sym(Sym::Ptr(i, _)) => V::Sym(Sym::Ptr(*i, true)),
        V::Adt(p, n, f, t) => V::Adt(p.clone(), *n, f.iter().map(dirty_id).collect(), *t),
        V::Tuple(f) => V::Tuple(f.iter().map(dirty_id).collect()),
        V::RefVal(b) => V::RefVal(Box::new(dirty_id(b))),
        v => v.clone(),
    }
}

impl M {
    // ---- collections ----
    pub fn coll_at(&mut self, v: &V) -> R<Option<Coll>> {
        let x = self.deref(v)?;
        Ok(match x {
            V::Coll(c) => Some((*c).clone()),
            V::Box(_, b) => match *b { V::Coll(c) => Some((*c).clone()), _ => None },
            _ => None,
        })
    }
    pub fn put(&mut self, v: &V, n: V) -> R<()> {
        match self.place_of(v)? {
            Some(p) => self.write(&p, n),
            None => {
                self.imprecise("change of a value that has no place");
                Ok(())
            }
        }
    }
    /// Decides all conditional elements.
    pub fn settle(&mut self, c: &mut Coll) -> R<()> {
        let l: Vec<(V, u16)> = c.elems.iter().filter_map(|(k, n)| if let Cnt::Fact(f) = n { Some((k.clone(), *f)) } else { None }).collect();
        for (k, f) in l {
            self.settle1(c, &k, f)?;
        }
        Ok(())
    }
    fn settle1(&mut self, c: &mut Coll, k: &V, f: u16) -> R<bool> {
        let b = self.fact(f)?;
        if b { c.elems.insert(k.clone(), if is_o(k) { Cnt::Must } else { Cnt::One }); } else { c.elems.remove(k); }
        Ok(b)
    }
    /// (is empty, tainted)
    pub fn is_empty(&mut self, c: &mut Coll) -> R<(bool, bool)> {
        if c.elems.values().any(|n| matches!(n, Cnt::One | Cnt::Must)) { return Ok((false, c.taint)) }
        loop {
            let f = c.elems.iter().find_map(|(k, n)| if let Cnt::Fact(f) = n { Some((k.clone(), *f)) } else { None });
            let Some((k, f)) = f else { break };
            if self.settle1(c, &k, f)? { return Ok((false, c.taint)) }
        }
        let may: Vec<V> = c.elems.keys().cloned().collect();
        if may.is_empty() { return Ok((true, c.taint)) }
        // empty, or which one is certainly in
        let i = self.choose(may.len() + 1);
        if i == 0 {
            c.elems.clear();
            Ok((true, c.taint))
        } else {
            let n = c.elems.get_mut(&may[i - 1]).unwrap();
            *n = if *n == Cnt::May01 && !is_o(&may[i - 1]) { Cnt::One } else { Cnt::Must };
            Ok((false, c.taint))
        }
    }
    /// Identifies the element for a key (reference or value).
    pub fn elem(&mut self, c: &Coll, v: &V) -> R<V> {
        let x = self.deref(v)?;
        if let Some((id, _)) = self.id_of(&x)? {
            for k in c.elems.keys() {
                let k = k.clone();
                if let Some((i, _)) = self.id_of(&k)? { if i == id { return Ok(k) } }
            }
        }
        Ok(strip(&x))
    }
    fn key_taint(&mut self, v: &V) -> R<bool> {
        Ok(matches!(self.id_of(v)?, Some((_, true))))
    }
    /// Inserts; returns whether it was new, if that is known.
    pub fn coll_insert(&mut self, c: &mut Coll, v: &V) -> R<V> {
        let e = self.elem(c, v)?;
        let old = c.elems.get(&e).copied();
        if !c.set {
            let old = match old {
                Some(Cnt::Fact(f)) => { self.settle1(c, &e, f)?; c.elems.get(&e).copied() }
                o => o,
            };
            let n = if is_o(&e) { Cnt::May } else { add(old) };
            c.elems.insert(e, n);
            return Ok(V::unit());
        }
        let t = self.key_taint(v)? || c.taint;
        if is_o(&e) {
            let new = match old { None => V::Bool(true, true), Some(_) => V::Bool(self.flip(), true) };
            c.elems.insert(e, Cnt::Must);
            return Ok(new);
        }
        let was = match old {
            None => false,
            Some(Cnt::One | Cnt::Must) => true,
            Some(Cnt::Fact(f)) => self.settle1(c, &e, f)?,
            Some(_) => self.flip(),
        };
        c.elems.insert(e, Cnt::One);
        Ok(V::Bool(!was, t))
    }
    pub fn coll_contains(&mut self, c: &mut Coll, v: &V) -> R<V> {
        let e = self.elem(c, v)?;
        let t = self.key_taint(v)? || c.taint;
        let old = c.elems.get(&e).copied();
        if is_o(&e) {
            // (that very one, or only others of its class)
            let any = match old { None => false, Some(Cnt::Fact(f)) => self.settle1(c, &e, f)?, Some(_) => true };
            let b = any && self.flip();
            if b { c.elems.insert(e, Cnt::Must); }
            return Ok(V::Bool(b, true));
        }
        Ok(V::Bool(match old {
            None => false,
            Some(Cnt::One | Cnt::Must) => true,
            Some(Cnt::Fact(f)) => self.settle1(c, &e, f)?,
            Some(_) => {
                let b = self.flip();
                if b { c.elems.insert(e, Cnt::One); } else { c.elems.remove(&e); }
                b
            }
        }, t))
    }
    pub fn coll_remove(&mut self, c: &mut Coll, v: &V) -> R<V> {
        let e = self.elem(c, v)?;
        let t = self.key_taint(v)? || c.taint;
        let mut old = c.elems.get(&e).copied();
        if let Some(Cnt::Fact(f)) = old {
            self.settle1(c, &e, f)?;
            old = c.elems.get(&e).copied();
        }
        if is_o(&e) {
            return Ok(match old {
                None => V::Bool(false, true),
                Some(n) => {
                    if self.flip() {
                        let _ = n;
                        c.elems.insert(e, Cnt::May);
                        V::Bool(true, true)
                    } else { V::Bool(false, true) }
                }
            });
        }
        let was = match old { None => false, Some(Cnt::One | Cnt::Must) => true, _ => self.flip() };
        c.elems.remove(&e);
        Ok(V::Bool(was, t))
    }
    /// Takes one element out, any.
    pub fn take_any(&mut self, items: &mut BTreeMap<V, Cnt>, taint: bool) -> R<Option<V>> {
        let l: Vec<(V, u16)> = items.iter().filter_map(|(k, n)| if let Cnt::Fact(f) = n { Some((k.clone(), *f)) } else { None }).collect();
        for (k, f) in l {
            let b = self.fact(f)?;
            if b { items.insert(k.clone(), if is_o(&k) { Cnt::Must } else { Cnt::One }); } else { items.remove(&k); }
        }
        if items.is_empty() { return Ok(None) }
        let l: Vec<(V, Cnt)> = items.iter().map(|(a, b)| (a.clone(), *b)).collect();
        let sure = l.iter().any(|x| matches!(x.1, Cnt::One | Cnt::Must));
        let i = self.choose(l.len() + if sure { 0 } else { 1 });
        if i == l.len() {
            items.clear();
            return Ok(None);
        }
        let (k, n) = l[i].clone();
        match n {
            Cnt::One | Cnt::May01 if !is_o(&k) => { items.remove(&k); }
            _ => { items.insert(k.clone(), Cnt::May); }
        }
        Ok(Some(if taint { dirty_id(&k) } else { k }))
    }
    pub fn mk_coll(&mut self, set: bool, ety: u32) -> V {
        let mut c = coll(set);
        c.ety = ety;
        V::Coll(Rc::new(c))
    }
    pub fn mk_map(&mut self, kty: u32, vty: u32) -> V {
        V::Map(Rc::new(MapV { role: None, slots: [Slot::Abs, Slot::Abs], oth: [None, None, None], dirty: false, kty, vty }))
    }
    /// An iterator over the items.
    pub fn mk_iter(&mut self, items: BTreeMap<V, Cnt>, taint: bool, whole: Option<Role>) -> V {
        V::Iter(Rc::new(IterV { items, taint, whole, seq: None }))
    }

    // ---- maps ----
    pub fn map_at(&mut self, v: &V) -> R<Option<(Place, MapV)>> {
        match self.place_of(v)? {
            Some(p) => Ok(match self.read(&p)? { V::Map(m) => Some((p, (*m).clone())), _ => None }),
            None => Ok(match self.deref(v)? {
                V::Map(m) => Some((Place { root: Root::G(u32::MAX), path: vec![] }, (*m).clone())),
                _ => None,
            }),
        }
    }
    /// Whether there is an entry: (present, tainted). Decided slots are written back.
    pub fn map_has(&mut self, p: &Place, m: &MapV, id: Id) -> R<(bool, bool)> {
        Ok(match id {
            Id::W(w) => match &m.slots[w as usize] {
                Slot::Abs => (false, false),
                Slot::Val(_) => (true, false),
                Slot::Lazy(e) => {
                    let f = crate::cachep::role_fact(m.role.unwrap(), w) + crate::facts::NK * *e as u16;
                    (self.fact(f)?, false)
                }
            },
            Id::O(c) => match &m.oth[c as usize] {
                None => (false, true),
                Some((Cnt::One | Cnt::Must, _)) if m.role.is_none() && false => (true, true),
                Some(_) => (self.flip(), true),
            },
        }).map(|x| { let _ = p; x })
    }
    pub fn map_set(&mut self, p: &Place, id: Id, v: Option<V>) -> R<()> {
        let V::Map(m) = self.read(p)? else { return Ok(()) };
        let mut m = (*m).clone();
        match (id, v) {
            (Id::W(w), Some(v)) => m.slots[w as usize] = Slot::Val(Box::new(v)),
            (Id::W(w), None) => m.slots[w as usize] = Slot::Abs,
            (Id::O(c), Some(v)) => {
                if let (V::Coll(cc), true) = (&v, m.role.is_some()) {
                    if cc.elems.keys().any(|k| !is_o(k)) { m.dirty = true }
                }
                let o = &mut m.oth[c as usize];
                let n = match o {
                    None => (Cnt::Must, Box::new(v)),
                    Some((_, x)) if **x == v => (Cnt::Must, Box::new(v)),
                    Some((_, x)) => {
                        if m.role.is_some() { (Cnt::Must, x.clone()) } else { (Cnt::Must, Box::new(V::Unk)) }
                    }
                };
                *o = Some(n);
            }
            (Id::O(c), None) => {
                if let Some((n, _)) = &mut m.oth[c as usize] { *n = Cnt::May }
            }
        }
        self.write(p, V::Map(Rc::new(m)))
    }
    /// The ids that have an entry (others: possibly).
    pub fn map_ids(&mut self, p: &Place, m: &MapV) -> R<Vec<(Id, Cnt)>> {
        let mut r = vec![];
        for w in 0..2u8 {
            if self.map_has(p, m, Id::W(w))?.0 { r.push((Id::W(w), Cnt::One)) }
        }
        for c in 0..3u8 {
            if m.oth[c as usize].is_some() { r.push((Id::O(c), Cnt::May)) }
        }
        Ok(r)
    }
    pub fn opt(&mut self, o: Option<V>, t: bool) -> V {
        match o { Some(v) => V::some(v, t), None => V::none(t) }
    }
}

fn panic_fn(path: &str, head: &str, m: &str) -> bool {
    path.contains("panicking::") || path.contains("begin_panic") || head == "panicking"
        || matches!(m, "unwrap_failed" | "expect_failed" | "panic_fmt" | "panic_display" | "panic_explicit" | "assert_failed" | "panic_str" | "panic_any" | "unreachable_display" | "resume_unwind")
}

pub const WIDE: &str = "metadata of a wide pointer";

/// A pointer that consists of an address and metadata. There may be several vtables of one type, so that the
/// metadata of two such pointers to one value may differ.
pub fn wide(m: &M, ty: u32) -> bool {
    match m.p.ty(ty) {
        Ty::Ref(_, t) => wide(m, t),
        Ty::Ptr(_, t) => matches!(m.p.ty(t), Ty::Dyn(..)),
        Ty::Adt(ref p, ref l) if p.ends_with("NonNull") => l.first().map(|t| matches!(m.p.ty(*t), Ty::Dyn(..))).unwrap_or(false),
        _ => false,
    }
}

fn ty_arg(c: &Callee, i: usize) -> u32 {
    c.args.get(i).copied().unwrap_or(u32::MAX)
}

/// What collection type a type is: (map, set, vec)
fn coll_kind(m: &M, ty: u32) -> Option<(&'static str, Vec<u32>)> {
    match m.p.ty(ty) {
        Ty::Adt(p, a) => {
            let h = p.rsplit("::").next().unwrap_or("").to_string();
            match h.as_str() {
                "HashMap" | "BTreeMap" => Some(("map", a)),
                "HashSet" | "BTreeSet" => Some(("set", a)),
                "Vec" | "VecDeque" | "BinaryHeap" | "LinkedList" => Some(("vec", a)),
                _ => None,
            }
        }
        _ => None,
    }
}

pub fn text_of(m: &mut M, v: &V) -> R<V> {
    let x = m.deref(v)?;
    Ok(match x {
        V::Str(s) => V::Text(vec![Piece::Lit(s)]),
        V::Text(_) => x,
        V::Bytes(b) if std::str::from_utf8(&b).is_ok() => V::Text(vec![Piece::Lit(std::str::from_utf8(&b).unwrap().into())]),
        V::Box(_, b) => return text_of(m, &b),
        x => V::Text(vec![Piece::Hole(Box::new(x), "Display".into(), vec![])]),
    })
}

/// Pieces of a formatting template.
pub fn template(bytes: &[u8], args: &[V]) -> Option<Vec<Piece>> {
    let mut r = vec![];
    let mut i = 0;
    let mut next = 0usize;
    let mut lit = String::new();
    while i < bytes.len() {
        let b = bytes[i];
        i += 1;
        if b == 0 { break }
        if b < 0x80 || b == 0x80 {
            let n = if b < 0x80 { b as usize } else {
                let n = *bytes.get(i)? as usize | (*bytes.get(i + 1)? as usize) << 8;
                i += 2;
                n
            };
            lit.push_str(std::str::from_utf8(bytes.get(i..i + n)?).ok()?);
            i += n;
        } else {
            if b & 0xC0 != 0xC0 { return None }
            let mut flags = 0u32;
            if b & 1 != 0 {
                flags = u32::from_le_bytes([*bytes.get(i)?, *bytes.get(i + 1)?, *bytes.get(i + 2)?, *bytes.get(i + 3)?]);
                i += 4;
            }
            if b & 2 != 0 { i += 2 }
            if b & 4 != 0 { i += 2 }
            if b & 8 != 0 {
                next = *bytes.get(i)? as usize | (*bytes.get(i + 1)? as usize) << 8;
                i += 2;
            }
            if !lit.is_empty() { r.push(Piece::Lit(std::mem::take(&mut lit).as_str().into())) }
            match args.get(next)? {
                // (a precision cuts texts off)
                V::FmtArg(v, k) if b & 4 != 0 => r.push(Piece::Hole(Box::new(v.as_ref().clone()), format!("{}.", k).as_str().into(), vec![])),
                V::FmtArg(v, k) => match &**v {
                    V::Str(s) if &**k == "Display" => r.push(Piece::Lit(s.clone())),
                    V::Text(l) if &**k == "Display" => r.extend(l.iter().cloned()),
                    v => {
                        let alt = flags & (1 << 23) != 0;
                        r.push(Piece::Hole(Box::new(v.clone()), if alt { format!("{}#", k).as_str().into() } else { k.clone() }, vec![]))
                    }
                },
                _ => return None,
            }
            next += 1;
        }
    }
    if !lit.is_empty() { r.push(Piece::Lit(lit.as_str().into())) }
    Some(r)
}

pub fn model(m: &mut M, c: &Callee, a: &[V]) -> R<Option<Res>> {
    let (h, name) = head(&c.rpath);
    let path = c.rpath.as_str();
    let ret = |v: V| Ok(Some(Res::Ret(v)));
    if panic_fn(path, &h, &name) {
        let mut what = format!("{}", name);
        for x in a {
            if let V::Str(s) = m.deref(x)? { what = s.to_string() }
            if let V::Text(p) = x { what = show(&V::Text(p.clone())) }
        }
        return Ok(Some(Res::Panic(false, what.as_str().into())));
    }
    if let Some(r) = text_model(m, c, &h, &name, a)? { return Ok(Some(r)) }
    match (h.as_str(), name.as_str()) {
        // ---- collections ----
        (_, "new" | "with_capacity" | "default" | "with_hasher" | "with_capacity_and_hasher") => {
            match h.as_str() {
                "HashMap" | "BTreeMap" => { let v = m.mk_map(ty_arg(c, 0), ty_arg(c, 1)); return ret(v) }
                "HashSet" | "BTreeSet" => { let v = m.mk_coll(true, ty_arg(c, 0)); return ret(v) }
                "Vec" | "VecDeque" | "BinaryHeap" | "LinkedList" => { let v = m.mk_coll(false, ty_arg(c, 0)); return ret(v) }
                "String" => return ret(V::Text(vec![])),
                "PhantomData" => return ret(V::Adt("std::marker::PhantomData".into(), 0, vec![], false)),
                "Box" | "Rc" | "Arc" | "Cell" | "RefCell" => {
                    let k = match h.as_str() { "Box" => BoxK::Box, "Rc" => BoxK::Rc, "Arc" => BoxK::Arc, _ => BoxK::Cell };
                    return ret(V::Box(k, Box::new(a.first().cloned().unwrap_or(V::Any))));
                }
                "Arguments" => {
                    let bytes = m.deref(&a[0])?;
                    let args = match a.get(1) { Some(x) => m.deref(x)?, None => V::Arr(vec![]) };
                    if let (V::Bytes(b), V::Arr(l)) = (&bytes, &args) {
                        if let Some(t) = template(b, l) { return ret(V::Text(t)) }
                    }
                    m.imprecise("format template");
                    return ret(V::Unk);
                }
                "RandomState" => return ret(V::unit()),
                "bool" => return ret(V::b(false)),
                "usize" | "u64" | "u32" | "i32" | "u8" | "i64" | "isize" => return ret(V::Int(0, false)),
                "Option" => return ret(V::none(false)),
                "()" | "" => return ret(V::unit()),
                _ => {}
            }
        }
        _ => {}
    }
    let is_coll = matches!(h.as_str(), "HashSet" | "BTreeSet" | "Vec" | "VecDeque" | "BinaryHeap" | "LinkedList") || h.starts_with('[') || (h == "slice" && !path.contains("Iter"));
    let is_map = matches!(h.as_str(), "HashMap" | "BTreeMap");
    if is_map {
        if let Some(r) = map_model(m, c, &name, a)? { return Ok(Some(r)) }
    }
    if is_coll {
        if let Some(r) = coll_model(m, c, &h, &name, a)? { return Ok(Some(r)) }
    }
    match (h.as_str(), name.as_str()) {
        ("Entry" | "OccupiedEntry" | "VacantEntry", _) => {
            if let Some(r) = entry_model(m, c, &h, &name, a)? { return Ok(Some(r)) }
        }
        // ---- iterators ----
        (_, "next" | "next_back") if a.len() == 1 => {
            let x = m.deref(&a[0])?;
            match x {
                V::Iter(i) => {
                    let mut i = (*i).clone();
                    let t = i.taint;
                    let r = match &mut i.seq {
                        Some(l) => if l.is_empty() { None } else if name == "next" { Some(l.remove(0)) } else { l.pop() },
                        None => m.take_any(&mut i.items, t)?,
                    };
                    if let Some(l) = &i.seq { i.items = bag(l) }
                    i.whole = None;
                    // others of which nothing is remembered
                    m.put(&a[0], V::Iter(Rc::new(i)))?;
                    let v = m.opt(r, t);
                    return ret(v);
                }
                V::Adt(p, 0, f, t) if p.ends_with("Range") && f.len() == 2 => {
                    // a counter
                    if let (V::Int(x, _), V::Int(y, _)) = (&f[0], &f[1]) {
                        if x < y {
                            m.put(&a[0], V::Adt(p, 0, vec![V::Int(x + 1, false), f[1].clone()], t))?;
                            return ret(V::some(V::Int(*x, false), false));
                        }
                        return ret(V::none(false));
                    }
                    let b = m.flip();
                    return ret(if b { V::some(V::Any, false) } else { V::none(false) });
                }
                V::Any => {
                    let b = m.flip();
                    return ret(if b { V::some(V::Any, false) } else { V::none(false) });
                }
                _ => {}
            }
        }
        (_, "into_iter" | "by_ref") if a.len() == 1 => {
            let x = m.deref(&a[0])?;
            if let V::Iter(_) = x { return ret(x) }
            if let V::Coll(_) = x { return coll_model(m, c, &h, "into_iter", a) }
            if let V::Map(_) = x { return map_model(m, c, "into_iter", a) }
            if let V::Arr(l) = &x {
                return ret(V::Iter(Rc::new(IterV { items: bag(l), taint: false, whole: None, seq: Some(l.clone()) })));
            }
            if let V::Adt(p, ..) = &x { if p.contains("Range") { return ret(x) } }
        }
        (_, "size_hint") => return ret(V::Tuple(vec![V::Any, V::Any])),
        (_, "len" | "count") if a.len() == 1 => {
            let x = m.deref(&a[0])?;
            match &x {
                V::Iter(i) => if let Some(r) = i.whole { return ret(V::Sym(Sym::Len(r as u8))) },
                V::Arr(l) => return ret(V::Int(l.len() as i128, false)),
                V::Str(s) => return ret(V::Int(s.len() as i128, false)),
                _ => {}
            }
            return ret(V::Any);
        }
        (_, "from_iter" | "collect") => {
            // collect::<B> / B::from_iter
            let ty = c.args.iter().copied().find(|t| coll_kind(m, *t).is_some());
            let rty = if name == "from_iter" { head_ty(m, c) } else { ty };
            if let (Some(k), Some(n)) = (rty.or(ty), next_of(m, c)) {
                let acc = match coll_kind(m, k) {
                    Some(("map", t)) => m.mk_map(t[0], t[1]),
                    Some(("set", t)) => m.mk_coll(true, t[0]),
                    Some((_, t)) => m.mk_coll(false, t[0]),
                    None => return Ok(None),
                };
                let it = into_iter(m, &a[0])?;
                return collect(m, n, it, acc, None);
            }
            // from an iterator value directly
            if h == "Vec" || h == "VecDeque" || h == "HashSet" || h == "BTreeSet" {
                let it = into_iter(m, &a[0])?;
                if let V::Iter(_) = it {
                    let mut acc = coll(h.ends_with("Set"));
                    acc.ety = ty_arg(c, 0);
                    drain_into(m, it, &mut acc)?;
                    return ret(V::Coll(Rc::new(acc)));
                }
            }
        }
        (_, "from") if matches!(h.as_str(), "Vec" | "VecDeque" | "HashSet" | "BTreeSet") => {
            let it = into_iter(m, &a[0])?;
            let mut acc = coll(h.ends_with("Set"));
            acc.ety = ty_arg(c, 0);
            drain_into(m, it, &mut acc)?;
            return ret(V::Coll(Rc::new(acc)));
        }
        // vec![..]
        ("Box", "new_uninit") => return ret(V::Box(BoxK::Box, Box::new(V::Undef))),
        (_, "box_assume_init_into_vec_unsafe" | "into_vec") => {
            let mut x = m.deref(&a[0])?;
            let l = loop {
                x = match x {
                    V::Arr(l) => break Some(l),
                    V::Box(_, b) => *b,
                    V::Tuple(mut l) | V::Adt(_, _, mut l, _) if !l.is_empty() => l.pop().unwrap(),
                    _ => break None,
                };
            };
            if let Some(l) = l {
                let mut acc = coll(false);
                acc.ety = ty_arg(c, 0);
                for v in &l { m.coll_insert(&mut acc, v)?; }
                return ret(V::Coll(Rc::new(acc)));
            }
        }
        // ---- options ----
        ("Option", "take") => {
            let x = m.deref(&a[0])?;
            m.put(&a[0], V::none(x.taint()))?;
            return ret(x);
        }
        ("Option", "replace") => {
            let x = m.deref(&a[0])?;
            m.put(&a[0], V::some(a[1].clone(), false))?;
            return ret(x);
        }
        ("Option", "insert") => {
            m.put(&a[0], V::some(a[1].clone(), false))?;
            if let Some(p) = m.place_of(&a[0])? { return ret(V::Ref(p.step(Step::F(0)))) }
        }
        ("Option", "get_or_insert_with") => {
            if let Some(p) = m.place_of(&a[0])? {
                let x = m.read(&p)?;
                if let V::Adt(_, 1, ..) = x { return ret(V::Ref(p.step(Step::F(0)))) }
                let i = m.push_nat(Nat::GetOrInsertWith { opt: p }, vec![a[1].clone()]);
                return call_closure(m, i, 0, vec![]);
            }
        }
        ("mem", "replace") => {
            let x = m.deref(&a[0])?;
            m.put(&a[0], a[1].clone())?;
            return ret(x);
        }
        ("mem", "take") => {
            let x = m.deref(&a[0])?;
            let n = match &x {
                V::Coll(cc) => { let v = m.mk_coll(cc.set, cc.ety); if cc.role.is_some() { clear_role(m, &v, cc) } else { v } }
                V::Map(mm) => { let mut n = (**mm).clone(); n.slots = [Slot::Abs, Slot::Abs]; n.oth = [None, None, None]; V::Map(Rc::new(n)) }
                V::Adt(p, ..) if p.ends_with("Option") => V::none(false),
                V::Text(_) => V::Text(vec![]),
                V::Bool(..) => V::b(false),
                V::Int(..) | V::Lin(..) => V::Int(0, false),
                _ => V::Unk,
            };
            m.put(&a[0], n)?;
            let x = match x { V::Coll(cc) if cc.role.is_some() => { let mut c2 = (*cc).clone(); c2.role = None; m.settle(&mut c2)?; V::Coll(Rc::new(c2)) } x => x };
            return ret(x);
        }
        ("mem", "swap") => {
            let x = m.deref(&a[0])?;
            let y = m.deref(&a[1])?;
            m.put(&a[0], y)?;
            m.put(&a[1], x)?;
            return ret(V::unit());
        }
        ("mem", "drop" | "forget") | (_, "drop_in_place") => return ret(V::unit()),
        // ---- containers ----
        ("Box" | "Rc" | "Arc" | "Vec" | "String" | "Pin", "deref" | "deref_mut" | "as_ref" | "as_mut" | "borrow" | "borrow_mut" | "as_ptr" | "as_str" | "as_slice" | "as_mut_slice" | "leak") => {
            if let Some(p) = m.place_of(&a[0])? {
                return Ok(Some(Res::Ret(match m.read(&p)? {
                    V::Box(..) => V::Ref(p.step(Step::B)),
                    V::Unk => V::Unk,
                    _ => V::Ref(p),
                })));
            }
            let x = m.deref(&a[0])?;
            return ret(match x { V::Box(_, b) => V::RefVal(b), x => V::RefVal(Box::new(x)) });
        }
        ("Rc" | "Arc", "downgrade") => {
            let x = m.deref(&a[0])?;
            if let V::Box(_, b) = x { return ret(V::Box(BoxK::Weak, b)) }
            return ret(V::Box(BoxK::Weak, Box::new(x)));
        }
        ("Weak", "upgrade") => {
            let x = m.deref(&a[0])?;
            if let V::Box(_, b) = x {
                let k = if path.contains("sync") { BoxK::Arc } else { BoxK::Rc };
                let yes = m.flip();
                return ret(if yes { V::some(V::Box(k, b), false) } else { V::none(false) });
            }
        }
        ("Rc" | "Arc", "ptr_eq") | ("ptr", "eq" | "addr_eq") => {
            let x = m.deref(&a[0])?;
            let y = m.deref(&a[1])?;
            if name == "eq" && c.args.first().map(|t| matches!(m.p.ty(*t), Ty::Dyn(..))).unwrap_or(false) {
                if let Some(v) = m.wide_eq(&x, &y) { return ret(V::Bool(v, false)) }
            }
            return ret(match m.same(&x, &y) { Some((b, t)) => V::Bool(b, t), None => V::Any });
        }
        ("Any" | "Box" | "Rc" | "Arc" | "dyn std", "downcast" | "downcast_ref" | "downcast_mut" | "is") => return downcast(m, c, &name, a),
        (_, "downcast" | "downcast_ref" | "downcast_mut") if path.contains("Any") => return downcast(m, c, &name, a),
        (_, "as_any") => {}
        // ---- clones and conversions ----
        (_, "clone" | "to_owned" | "cloned" | "copied") if a.len() == 1 && !matches!(m.deref(&a[0])?, V::Sym(_)) || (name == "clone" && c.resolved) => {
            let x = m.deref(&a[0])?;
            let x = match x { V::Coll(cc) => { let mut c2 = (*cc).clone(); if c2.role.is_some() { m.settle(&mut c2)?; c2.role = None; } V::Coll(Rc::new(c2)) } x => x };
            if h == "PhantomData" { return ret(V::Adt("std::marker::PhantomData".into(), 0, vec![], false)) }
            return ret(x);
        }
        (_, "into_any") => return Ok(Some(Res::Diverge)),
        (_, "cast" | "cast_const" | "cast_mut" | "addr" | "expose_provenance" | "with_exposed_provenance" | "without_provenance" | "from_ref") if path.contains("ptr") && a.len() == 1 => return ret(a[0].clone()),
        (_, "must_use" | "black_box" | "identity") => return ret(a[0].clone()),
        (_, "abort" | "exit") if path.contains("process") => return Ok(Some(Res::Diverge)),
        (_, "unreachable_unchecked") => return Ok(Some(Res::Diverge)),
        // ---- comparison ----
        (_, "eq" | "ne") if a.len() == 2 => {
            let x = m.deref(&a[0])?;
            let y = m.deref(&a[1])?;
            if wide(m, ty_arg(c, 0)) {
                if let Some(v) = m.wide_eq(&x, &y) { return ret(V::Bool(v == (name == "eq"), false)) }
            }
            let r = match m.same(&x, &y) {
                Some((b, t)) => V::Bool(b == (name == "eq"), t),
                None => V::Any,
            };
            return ret(r);
        }
        (_, "min" | "max" | "integer_min" | "integer_max") if a.len() == 2 => {
            let x = m.deref(&a[0])?;
            let y = m.deref(&a[1])?;
            let lo = name.ends_with("min");
            match (&x, &y) {
                (V::Int(i, _), V::Int(j, _)) => return ret(if (i <= j) == lo { x } else { y }),
                (V::Lin(..), V::Int(0, _)) => return ret(if lo { y } else { x }),
                (V::Int(0, _), V::Lin(..)) => return ret(if lo { x } else { y }),
                (V::Lin(..) | V::Int(..) | V::Any, V::Lin(..) | V::Int(..) | V::Any) => return ret(V::Any),
                _ => {}
            }
        }
        (_, "cmp" | "partial_cmp" | "total_cmp" | "lt" | "le" | "gt" | "ge") if a.len() == 2 => {
            let x = m.deref(&a[0])?;
            let y = m.deref(&a[1])?;
            let o = m.compare(&x, &y);
            let Some((o, t)) = o else { return ret(V::Any) };
            let ord = V::Adt("std::cmp::Ordering".into(), o, vec![], t);
            return ret(match &*name {
                "partial_cmp" => V::some(ord, t),
                "lt" => V::Bool(o == 0, t),
                "le" => V::Bool(o < 2, t),
                "gt" => V::Bool(o == 2, t),
                "ge" => V::Bool(o > 0, t),
                _ => ord,
            });
        }
        (_, "max" | "min") => return ret(V::Any),
        // ---- text ----
        ("Argument", n) if n.starts_with("new_") => {
            let k = match n { "new_display" => "Display", "new_debug" => "Debug", "new_pointer" => "Pointer", n => n };
            // (not interpreted)
            if let (V::Adt(..), "Display" | "Debug") = (m.deref(&a[0])?, k) {
                let ty = ty_arg(c, 0);
                let h = |t: u32| match m.p.ty(t) { Ty::Adt(p, _) => Some(p), _ => None };
                if let Some(p) = h(ty) {
                    let own = m.p.find_fns(|f| f.name == "fmt" && f.impl_self.and_then(|x| h(x)).as_deref() == Some(&*p) && matches!(&f.impl_trait, Some((t, _)) if t.ends_with(k)));
                    if !own.is_empty() && !p.starts_with("std::") { m.imprecise("formatted by a function of the crate") }
                }
            }
            let x = m.deref(&a[0])?;
            let x = match x { V::Box(_, b) => *b, x => x };
            // (an address along with its metadata is shown as such)
            let x = if k == "Pointer" && wide(m, ty_arg(c, 0)) && matches!(x, V::Sym(Sym::Ptr(..))) { V::Sym(Sym::Named(WIDE.into(), vec![x])) } else { x };
            return ret(V::FmtArg(Box::new(x), k.into()));
        }
        ("Arguments", "from_str" | "new_const") => {
            let x = text_of(m, &a[0])?;
            return ret(x);
        }
        ("fmt", "format") | ("string", "format") => return ret(a[0].clone()),
        ("String", "from" | "clone") | ("str", "to_owned" | "to_string" | "into_string") | (_, "to_string") => {
            let x = text_of(m, &a[0])?;
            return ret(x);
        }
        ("Cow", "from" | "into_owned") => {
            let x = text_of(m, &a[0])?;
            return ret(x);
        }
        ("String" | "str" | "Vec", "as_bytes" | "into_bytes" | "as_mut_str" | "into_boxed_str" | "as_bytes_mut" | "trim_end_matches_none") if matches!(m.deref(&a[0])?, V::Text(_) | V::Str(_)) => {
            let x = text_of(m, &a[0])?;
            return ret(x);
        }
        (_, "add") if a.len() == 2 && matches!(m.deref(&a[0])?, V::Text(_)) => {
            if let (V::Text(mut l), V::Text(k)) = (text_of(m, &a[0])?, text_of(m, &a[1])?) {
                l.extend(k);
                return ret(V::Text(l));
            }
        }
        (_, "push_str" | "add_assign" | "write_str" | "write_fmt" | "extend_from_slice" | "write_all") if a.len() == 2 && matches!(m.deref(&a[0])?, V::Text(_)) => {
            let x = text_of(m, &a[0])?;
            let y = text_of(m, &a[1])?;
            if let (V::Text(mut l), V::Text(k)) = (x, y) {
                l.extend(k);
                m.put(&a[0], V::Text(l))?;
                return ret(if name.starts_with("write") { V::ok(V::unit()) } else { V::unit() });
            }
        }
        (_, "write_char") if matches!(m.deref(&a[0])?, V::Text(_)) => {
            if let (V::Text(mut l), V::Int(i, _)) = (text_of(m, &a[0])?, m.deref(&a[1])?) {
                l.push(Piece::Lit(char::from_u32(i as u32).unwrap_or('?').to_string().as_str().into()));
                m.put(&a[0], V::Text(l))?;
                return ret(V::ok(V::unit()));
            }
        }
        ("String", "push") => {
            let x = text_of(m, &a[0])?;
            let y = m.deref(&a[1])?;
            if let V::Text(mut l) = x {
                match y {
                    V::Int(i, _) => l.push(Piece::Lit(char::from_u32(i as u32).unwrap_or('?').to_string().as_str().into())),
                    v => l.push(Piece::Hole(Box::new(v), "Display".into(), vec![])),
                }
                m.put(&a[0], V::Text(l))?;
                return ret(V::unit());
            }
        }
        ("str", "replace") => {
            let x = text_of(m, &a[0])?;
            let f = m.deref(&a[1])?;
            let f = match f { V::Int(i, _) => V::Str(char::from_u32(i as u32).unwrap_or('?').to_string().as_str().into()), f => f };
            let t = m.deref(&a[2])?;
            if let (V::Text(l), V::Str(f), V::Str(t)) = (x, f, t) {
                let l = l.into_iter().map(|p| match p {
                    Piece::Lit(s) => Piece::Lit(s.replace(&*f, &t).as_str().into()),
                    Piece::Hole(v, k, mut e) => {
                        e.push((f.clone(), t.clone()));
                        Piece::Hole(v, k, e)
                    }
                }).collect();
                return ret(V::Text(l));
            }
        }
        (_, "size_of" | "size_of_val" | "align_of" | "align_of_val" | "needs_drop") if path.contains("mem::") || path.contains("intrinsics::") => return ret(V::Any),
        (_, "type_name" | "type_name_of_val") => return ret(V::Sym(Sym::Named(format!("type name of {}", m.p.show_ty(ty_arg(c, 0))).as_str().into(), vec![]))),
        ("TypeName", "from") => return ret(a[0].clone()),
        ("TypeName", "as_str" | "as_str_mn") => {
            let x = m.deref(&a[0])?;
            return ret(V::Sym(Sym::Named("short type name".into(), vec![x])));
        }
        ("DefaultHasher" | "BuildHasher", _) => return ret(V::Any),
        ("PhantomData", _) => return ret(V::Adt("std::marker::PhantomData".into(), 0, vec![], false)),
        ("usize" | "u32" | "u64" | "i32" | "isize" | "u8", "saturating_add" | "wrapping_add") => {
            let x = m.deref(&a[0])?;
            let y = m.deref(&a[1])?;
            return ret(match (x, y) { (V::Sym(n), V::Int(j, _)) => V::Sym(Sym::Named(format!("{} + {}", name, j).as_str().into(), vec![V::Sym(n)])), (V::Lin(n, i), V::Int(j, _)) => V::Lin(n, i + j), (V::Int(i, t), V::Int(j, _)) if i + j < 64 => V::Int(i + j, t), _ => V::Any });
        }
        (_, "to_ne_bytes" | "to_le_bytes" | "to_be_bytes" | "from_ne_bytes" | "from_le_bytes" | "from_be_bytes") if path.contains("num::") => {
            let x = m.deref(&a[0])?;
            return ret(match x { V::Any | V::Unk => V::Any, x => x });
        }
        (_, "abs_diff" | "wrapping_sub") if matches!((m.deref(&a[0])?, m.deref(&a[1])?), (V::Sym(Sym::Ptr(..)), V::Sym(Sym::Ptr(..)))) => {
            let (x, y) = (m.deref(&a[0])?, m.deref(&a[1])?);
            return ret(match m.same(&x, &y) { Some((true, t)) => V::Int(0, t), Some((false, t)) => V::Pos(t), None => V::Any });
        }
        (_, "checked_add" | "checked_sub" | "saturating_sub" | "wrapping_sub" | "abs" | "pow") => return ret(V::Any),
        (_, "clamp" | "rem_euclid" | "div_euclid" | "wrapping_rem" | "wrapping_div" | "wrapping_mul" | "saturating_mul" | "is_power_of_two" | "count_ones") if matches!(m.deref(&a[0])?, V::Lin(..) | V::Int(..) | V::Any) => return ret(V::Any),
        (_, "reserve" | "shrink_to_fit" | "sort" | "sort_unstable" | "reverse") => return ret(V::unit()),
        _ => {}
    }
    // fluent std operations on values we know
    if name == "is_empty" && a.len() == 1 {
        let x = m.deref(&a[0])?;
        match x {
            V::Coll(_) => return coll_model(m, c, &h, &name, a),
            V::Map(_) => return map_model(m, c, &name, a),
            V::Text(_) | V::Str(_) => return ret(V::Any),
            _ => {}
        }
    }
    Ok(None)
}

/// Questions about texts and their decomposition.
fn text_model(m: &mut M, c: &Callee, h: &str, name: &str, a: &[V]) -> R<Option<Res>> {
    let ret = |v: V| Ok(Some(Res::Ret(v)));
    if name == "panicking" && c.rpath.contains("thread") {
        let b = m.said(&[V::named("panicking")], true);
        return ret(V::b(b));
    }
    if a.is_empty() { return Ok(None) }
    const PARTS: [&str; 9] = ["lines", "chars", "bytes", "char_indices", "split", "split_whitespace", "split_terminator", "split_inclusive", "rsplit"];
    let is_str = matches!(h, "str" | "String") || matches!(c.args.first().map(|t| m.p.ty(*t)), Some(Ty::Prim(ref p)) if p == "str");
    if is_str && (PARTS.contains(&name) || matches!(name, "contains" | "starts_with" | "ends_with" | "is_empty" | "len" | "truncate" | "index" | "get")) {
        let V::Text(l) = text_of(m, &a[0])? else { return Ok(None) };
        // texts that are made of parts that could be anything
        let mut open = false;
        for p in &l {
            match p {
                Piece::Lit(_) => {}
                Piece::Hole(v, k, r) if r.is_empty() && matches!(&**k, "Display" | "Debug" | "Debug#") && matches!(**v, V::Sym(_) | V::Ref(_) | V::RefVal(_)) => open = true,
                _ => return Ok(None),
            }
        }
        if !open { return Ok(None) }
        let x = V::Text(l);
        if PARTS.contains(&name) { return ret(V::Sym(Sym::Named("parts of".into(), vec![x]))) }
        match name {
            "contains" | "starts_with" | "ends_with" if a.len() > 1 => {
                let pat = match m.deref(&a[1])? { V::Int(i, _) => char::from_u32(i as u32).map(|c| c.to_string()), V::Str(s) => Some(s.to_string()), _ => None };
                let Some(pat) = pat else { return Ok(None) };
                let mild = !pat.is_empty() && pat.chars().all(|c| !c.is_control() && !matches!(c, '"' | '\\'));
                let b = m.said(&[x, V::Str(name.into()), V::Str(pat.as_str().into())], mild);
                return ret(V::b(b));
            }
            "is_empty" => {
                let b = m.said(&[x, V::Str(name.into())], true);
                if b { m.imprecise("an empty text") }
                return ret(V::b(b));
            }
            "truncate" => {
                m.put(&a[0], V::Text(vec![Piece::Hole(Box::new(V::Sym(Sym::Named("part of".into(), vec![x]))), "Display".into(), vec![])]))?;
                return ret(V::unit());
            }
            "index" | "get" => {
                if let Some(V::Adt(p, _, l, _)) = a.get(1) {
                    if p.ends_with("RangeTo") && l.len() == 1 && matches!(l[0], V::Int(..) | V::Any) {
                        let t = V::Text(vec![Piece::Hole(Box::new(V::Sym(Sym::Named("part of".into(), vec![x]))), "Display".into(), vec![])]);
                        if name == "index" { return ret(t) }
                        let b = m.flip();
                        return ret(if b { V::some(t, false) } else { V::none(false) });
                    }
                }
                return Ok(None);
            }
            _ => return Ok(None),
        }
    }
    // the first few parts of a text
    if let V::Sym(Sym::Named(n, l)) = m.deref(&a[0])? {
        match (&*n, name) {
            ("parts of", "take" | "step_by" | "skip") => return ret(V::Sym(Sym::Named("some parts of".into(), l))),
            ("some parts of", "take" | "step_by" | "skip" | "by_ref" | "into_iter" | "rev" | "iter" | "as_slice" | "deref" | "as_ref") => return ret(V::Sym(Sym::Named(n, l))),
            ("parts of" | "some parts of", "count") => return ret(V::Any),
            ("some parts of", "collect" | "join" | "concat" | "from_iter") => {
                let string = name != "collect" || c.args.iter().any(|t| matches!(m.p.ty(*t), Ty::Adt(ref p, _) if p.ends_with("string::String")));
                if !string { return ret(V::Sym(Sym::Named(n, l))) }
                return ret(V::Text(vec![Piece::Hole(Box::new(V::Sym(Sym::Named("part of".into(), l))), "Display".into(), vec![])]));
            }
            _ => {}
        }
    }
    Ok(None)
}

fn clear_role(_m: &mut M, _v: &V, cc: &Coll) -> V {
    let mut n = cc.clone();
    n.elems.clear();
    V::Coll(Rc::new(n))
}

/// Type the trait method is implemented for.
fn head_ty(m: &M, c: &Callee) -> Option<u32> {
    c.args.first().copied().filter(|t| coll_kind(m, *t).is_some())
}

/// The function that yields the items of the iterator given to a library function.
fn next_of(m: &mut M, c: &Callee) -> Option<u32> {
    // the last iterator type argument is the one that is consumed, the first is the collection
    c.aux.iter().rev().find(|x| x.name == "next" && !matches!(m.p.ty(x.ty), Ty::Adt(ref p, _) if p.ends_with("HashSet") || p.ends_with("Vec") || p.ends_with("HashMap"))).map(|x| m.p.mk_callee(&x.callee))
}

pub fn into_iter(m: &mut M, v: &V) -> R<V> {
    let byref = matches!(v, V::Ref(_) | V::RefVal(_));
    let x = m.deref(v)?;
    Ok(match x {
        V::Coll(cc) => {
            let mut cc = (*cc).clone();
            m.settle(&mut cc)?;
            if byref { if let Some(p) = m.place_of(v)? { m.write(&p, V::Coll(Rc::new(cc.clone())))? } }
            let items = cc.elems.iter().map(|(k, n)| (if byref { V::RefVal(Box::new(k.clone())) } else { k.clone() }, *n)).collect();
            m.mk_iter(items, cc.taint, cc.role)
        }
        V::Arr(l) => {
            let l: Vec<V> = l.into_iter().map(|x| if byref { V::RefVal(Box::new(x)) } else { x }).collect();
            V::Iter(Rc::new(IterV { items: bag(&l), taint: false, whole: None, seq: Some(l) }))
        }
        V::Adt(ref p, i, ref f, t) if p.ends_with("option::Option") => {
            let mut items = BTreeMap::new();
            if i == 1 { items.insert(f[0].clone(), Cnt::One); }
            m.mk_iter(items, t, None)
        }
        x => if byref && matches!(x, V::Iter(_) | V::Adt(..)) { v.clone() } else { x },
    })
}

fn bag(l: &[V]) -> BTreeMap<V, Cnt> {
    let mut items = BTreeMap::new();
    for v in l {
        let n = add(items.get(v).copied());
        items.insert(v.clone(), n);
    }
    items
}

/// Adds what an iterator over known items yields.
fn drain_into(m: &mut M, it: V, acc: &mut Coll) -> R<()> {
    let it = m.deref(&it)?;
    if let V::Iter(i) = it {
        for (k, n) in &i.items {
            let k = m.deref(k)?;
            let k = strip(&k);
            let n = match n {
                Cnt::Fact(f) => if m.fact(*f)? { if is_o(&k) { Cnt::Must } else { Cnt::One } } else { continue },
                n => *n,
            };
            let old = acc.elems.get(&k).copied();
            let new = match (old, n) {
                (None, n) => n,
                (Some(Cnt::One), _) if acc.set && !is_o(&k) => Cnt::One,
                (_, Cnt::One) if acc.set && !is_o(&k) => Cnt::One,
                (Some(Cnt::One | Cnt::Must), _) | (_, Cnt::One | Cnt::Must) => Cnt::Must,
                _ => Cnt::May,
            };
            acc.elems.insert(k, new);
        }
    } else {
        m.imprecise("collecting from an unknown iterator");
    }
    Ok(())
}

fn collect(m: &mut M, next: u32, it: V, acc: V, into: Option<Place>) -> R<Option<Res>> {
    let i = m.push_nat(Nat::Collect { next, into, ity: 0 }, vec![it, acc]);
    let c = m.p.callee(next);
    let arg = match &m.st.frames[i as usize].locals[0] { r @ V::Ref(_) => r.clone(), _ => V::Ref(Place { root: Root::L(i, 0), path: vec![] }) };
    drive(m, &c, vec![arg]).map(Some)
}

pub enum NatRes {
    Done(V),
    Call(Res),
}

/// Calls a function on behalf of the native frame on top.
fn drive(m: &mut M, c: &Callee, args: Vec<V>) -> R<Res> {
    let r = m.call(c, args)?;
    start(m, NatRes::Call(r))
}
/// Passes a result to the native frame on top, and so on.
pub fn nat_drive(m: &mut M, mut v: V) -> R<Res> {
    for _ in 0..300 {
        let f = m.st.frames.last().unwrap().clone();
        let FK::Nat(k) = &f.kind else { return Ok(Res::Ret(v)) };
        match nat_return(m, k.clone(), v)? {
            NatRes::Done(x) => {
                m.st.frames.pop();
                return Ok(Res::Ret(x));
            }
            NatRes::Call(Res::Ret(y)) => v = y,
            NatRes::Call(r) => return Ok(r),
        }
    }
    m.imprecise("library loop does not end");
    Err(Stop::Dead)
}
fn start(m: &mut M, r: NatRes) -> R<Res> {
    match r {
        NatRes::Done(x) => {
            m.st.frames.pop();
            Ok(Res::Ret(x))
        }
        NatRes::Call(Res::Ret(v)) => nat_drive(m, v),
        NatRes::Call(r) => Ok(r),
    }
}
pub fn call_closure(m: &mut M, frame: u32, local: u32, args: Vec<V>) -> R<Option<Res>> {
    let f = match &m.st.frames[frame as usize].locals[local as usize] { r @ (V::Ref(_) | V::FnItem(_)) => r.clone(), _ => V::Ref(Place { root: Root::L(frame, local), path: vec![] }) };
    let r = m.call_value(&f, args)?;
    start(m, NatRes::Call(r)).map(Some)
}

/// A function called by a library function has returned.
pub fn nat_return(m: &mut M, n: Nat, v: V) -> R<NatRes> {
    let i = m.top();
    match n {
        Nat::Return => Ok(NatRes::Done(m.frame().locals[0].clone())),
        Nat::Some => Ok(NatRes::Done(V::some(v, false))),
        Nat::World(k) => {
            let w = m.w.clone();
            Ok(match w.nat_return(m, k, v)? { Res::Ret(v) => NatRes::Done(v), r => NatRes::Call(r) })
        }
        Nat::OrInsertWith { map, key } => {
            let Some((id, _)) = m.id_of(&key)? else { return Ok(NatRes::Done(V::Unk)) };
            m.map_set(&map, id, Some(v))?;
            Ok(NatRes::Done(V::Ref(map.step(Step::MV(id)))))
        }
        Nat::Replace { place, key } => {
            let _ = key;
            m.write(&place, v)?;
            Ok(NatRes::Done(m.frame().locals[0].clone()))
        }
        Nat::GetOrInsertWith { opt } => {
            m.write(&opt, V::some(v, false))?;
            Ok(NatRes::Done(V::Ref(opt.step(Step::F(0)))))
        }
        Nat::Collect { next, into, .. } => {
            match v {
                V::Adt(_, 0, _, _) => {
                    let acc = m.frame().locals[1].clone();
                    if let Some(p) = into {
                        m.write(&p, acc)?;
                        return Ok(NatRes::Done(V::unit()));
                    }
                    return Ok(NatRes::Done(acc));
                }
                V::Adt(_, _, f, _) => {
                    let acc = m.frame().locals[1].clone();
                    match acc {
                        V::Coll(cc) => {
                            let mut cc = (*cc).clone();
                            let x = if is_ref_elem(m, cc.ety) { f[0].clone() } else { m.deref(&f[0])? };
                            m.coll_insert(&mut cc, &x)?;
                            m.frame().locals.set(1, V::Coll(Rc::new(cc)));
                        }
                        V::Map(_) => {
                            let p = Place { root: Root::L(i, 1), path: vec![] };
                            if let V::Tuple(kv) = &f[0] {
                                if let Some((id, _)) = m.id_of(&kv[0])? { m.map_set(&p, id, Some(kv[1].clone()))?; }
                            }
                        }
                        _ => {}
                    }
                    m.frame().ctl = None;
                }
                _ => m.imprecise("item of an iterator"),
            }
            let c = m.p.callee(next);
            let arg = match &m.st.frames[i as usize].locals[0] { r @ V::Ref(_) => r.clone(), _ => V::Ref(Place { root: Root::L(i, 0), path: vec![] }) };
            Ok(NatRes::Call(m.call(&c, vec![arg])?))
        }
        Nat::ForEach { next } => {
            let _ = next;
            Ok(NatRes::Done(V::unit()))
        }
        Nat::Retain { coll: p, map } => {
            // locals: closure, remaining items, current item
            let cur = m.frame().locals[2].clone();
            if cur != V::Undef {
                let keep = match v {
                    V::Bool(b, _) => Some(b),
                    V::Any => Some(m.flip()),
                    _ => {
                        m.imprecise("retain");
                        None
                    }
                };
                if keep == Some(false) {
                    if map {
                        if let Some((id, _)) = m.id_of(&cur)? { m.map_set(&p, id, None)? }
                    } else if let V::Coll(cc) = m.read(&p)? {
                        let mut cc = (*cc).clone();
                        if is_o(&cur) {
                            match cc.elems.get(&cur) {
                                Some(Cnt::One) | None => { cc.elems.remove(&cur); }
                                _ => { cc.elems.insert(cur.clone(), Cnt::May); }
                            }
                        } else { cc.elems.remove(&cur); }
                        m.write(&p, V::Coll(Rc::new(cc)))?;
                    }
                } else if keep == Some(true) && is_o(&cur) {
                    // at least this one stays
                }
            }
            retain_step(m, i, p, map)
        }
    }
}

fn is_ref_elem(m: &M, t: u32) -> bool {
    matches!(m.p.ty(t), Ty::Ref(..))
}

fn retain_step(m: &mut M, i: u32, p: Place, map: bool) -> R<NatRes> {
    let V::Iter(it) = m.frame().locals[1].clone() else { return Ok(NatRes::Done(V::unit())) };
    let mut it = (*it).clone();
    match m.take_any(&mut it.items, false)? {
        None => Ok(NatRes::Done(V::unit())),
        Some(k) => {
            m.frame().locals.set(1, V::Iter(Rc::new(it)));
            m.frame().locals.set(2, k.clone());
            let args = if map {
                let Some((id, _)) = m.id_of(&k)? else { return Ok(NatRes::Done(V::Unk)) };
                vec![V::RefVal(Box::new(k)), V::Ref(p.step(Step::MV(id)))]
            } else { vec![V::RefVal(Box::new(k))] };
            let f = match &m.st.frames[i as usize].locals[0] { r @ (V::Ref(_) | V::FnItem(_)) => r.clone(), _ => V::Ref(Place { root: Root::L(i, 0), path: vec![] }) };
            Ok(NatRes::Call(m.call_value(&f, args)?))
        }
    }
}

fn coll_model(m: &mut M, c: &Callee, h: &str, name: &str, a: &[V]) -> R<Option<Res>> {
    let ret = |v: V| Ok(Some(Res::Ret(v)));
    let Some(me) = a.first() else { return Ok(None) };
    let x = m.deref(me)?;
    if let V::Arr(l) = &x {
        match name {
 "len" => return ret(V::Int(l.len() as i128, false)),
            "is_empty" => return ret(V::b(l.is_empty())),
            "concat" | "join" => {
                let sep = match a.get(1) { Some(x) => text_of(m, x)?, None => V::Text(vec![]) };
                let mut t = vec![];
                for (i, x) in l.iter().enumerate() {
                    if let (true, V::Text(s)) = (i > 0, &sep) { t.extend(s.iter().cloned()) }
                    if let V::Text(x) = text_of(m, x)? { t.extend(x) }
                }
                return ret(V::Text(t));
            }
            "iter" | "into_iter" | "iter_mut" => { let v = into_iter(m, me)?; return ret(v) }
            _ => return Ok(None),
        }
    }
    let Some(mut cc) = m.coll_at(me)? else { return Ok(None) };
    let is_slice_fn = h.starts_with('[') || h == "slice";
    let _ = is_slice_fn;
    match name {
        "insert" | "push" | "push_back" | "push_front" | "replace" => {
            let v = if name == "insert" && a.len() == 3 { &a[2] } else { &a[1] };
            let v = if is_ref_elem(m, cc.ety) { v.clone() } else { m.deref(v)? };
            let r = m.coll_insert(&mut cc, &v)?;
            m.put(me, V::Coll(Rc::new(cc)))?;
            ret(r)
        }
        "contains" => {
            let mut r = m.coll_contains(&mut cc, &a[1])?;
            if let Some(p) = m.place_of(me)? {
                // another builder's relation to a witness is also one of the witness
                if let (V::Bool(true, t), Some(Step::MV(Id::O(cl))), Some((Id::W(w), _))) = (&r, p.path.last(), m.id_of(&a[1])?) {
                    let up = Place { root: p.root.clone(), path: p.path[..p.path.len() - 1].to_vec() };
                    if let V::Map(mm) = m.read(&up)? {
                        if let (Some(ro @ (Role::Dept | Role::Depy)), false, 0) = (mm.role, mm.dirty, m.epoch()) {
                            let f = if ro == Role::Dept { crate::facts::dco(w, *cl) } else { crate::facts::dto(w, *cl) };
                            if !m.fact(f)? { r = V::Bool(false, *t) }
                        }
                    }
                }
                m.write(&p, V::Coll(Rc::new(cc)))?
            }
            ret(r)
        }
        "remove" | "take" if cc.set => {
            let r = m.coll_remove(&mut cc, &a[1])?;
            m.put(me, V::Coll(Rc::new(cc)))?;
            if name == "take" {
                let e = m.deref(&a[1])?;
                return ret(match r { V::Bool(true, t) => V::some(e, t), r => V::none(r.taint()) });
            }
            ret(r)
        }
        "get" if cc.set => {
            let r = m.coll_contains(&mut cc, &a[1])?;
            if let Some(p) = m.place_of(me)? { m.write(&p, V::Coll(Rc::new(cc)))? }
            let e = m.deref(&a[1])?;
            ret(match r { V::Bool(true, t) => V::some(V::RefVal(Box::new(e)), t), r => V::none(r.taint()) })
        }
        "pop" | "pop_front" | "pop_back" | "pop_first" | "pop_last" => {
            let t = cc.taint;
            let r = m.take_any(&mut cc.elems, t)?;
            m.put(me, V::Coll(Rc::new(cc)))?;
            let v = m.opt(r, t);
            ret(v)
        }
        "swap_remove" | "remove" => {
            let t = cc.taint;
            let r = m.take_any(&mut cc.elems, t)?;
            m.put(me, V::Coll(Rc::new(cc)))?;
            match r { Some(v) => ret(v), None => Err(Stop::Dead) }
        }
        "first" | "last" | "front" | "back" | "get" | "peek" => {
            let (e, t) = m.is_empty(&mut cc)?;
            if let Some(p) = m.place_of(me)? { m.write(&p, V::Coll(Rc::new(cc.clone())))? }
            if e { return ret(V::none(t)) }
            let l: Vec<V> = cc.elems.keys().cloned().collect();
            let i = m.choose(l.len());
            ret(V::some(V::RefVal(Box::new(l[i].clone())), t))
        }
        "is_empty" => {
            let (e, t) = m.is_empty(&mut cc)?;
            if let Some(p) = m.place_of(me)? { m.write(&p, V::Coll(Rc::new(cc)))? }
            ret(V::Bool(e, t))
        }
        "len" => {
            if let Some(r) = cc.role { return ret(V::Sym(Sym::Len(r as u8))) }
            let (e, t) = m.is_empty(&mut cc)?;
            if let Some(p) = m.place_of(me)? { m.write(&p, V::Coll(Rc::new(cc)))? }
            ret(if e { V::Int(0, t) } else { V::Pos(t) })
        }
        "clear" => {
            cc.elems.clear();
            m.put(me, V::Coll(Rc::new(cc)))?;
            ret(V::unit())
        }
        "iter" | "into_iter" | "iter_mut" => {
            let v = into_iter(m, me)?;
            ret(v)
        }
        "drain" | "split_off" => {
            m.settle(&mut cc)?;
            let items = cc.elems.clone();
            let t = cc.taint;
            cc.elems.clear();
            if name == "split_off" {
                let mut n = cc.clone();
                n.elems = items;
                n.role = None;
                m.put(me, V::Coll(Rc::new(cc)))?;
                return ret(V::Coll(Rc::new(n)));
            }
            m.put(me, V::Coll(Rc::new(cc)))?;
            let v = m.mk_iter(items, t, None);
            ret(v)
        }
        "clone" | "to_vec" | "to_owned" => {
            m.settle(&mut cc)?;
            if let Some(p) = m.place_of(me)? { m.write(&p, V::Coll(Rc::new(cc.clone())))? }
            cc.role = None;
            ret(V::Coll(Rc::new(cc)))
        }
        "append" => {
            let Some(mut o) = m.coll_at(&a[1])? else { return Ok(None) };
            m.settle(&mut o)?;
            let it = m.mk_iter(o.elems.clone(), false, None);
            m.settle(&mut cc)?;
            drain_into(m, it, &mut cc)?;
            o.elems.clear();
            m.put(&a[1], V::Coll(Rc::new(o)))?;
            m.put(me, V::Coll(Rc::new(cc)))?;
            ret(V::unit())
        }
        "extend" | "extend_from_slice" => {
            m.settle(&mut cc)?;
            let it = into_iter(m, &a[1])?;
            if let V::Iter(_) = it {
                drain_into(m, it, &mut cc)?;
                m.put(me, V::Coll(Rc::new(cc)))?;
                return ret(V::unit());
            }
            if let (Some(n), Some(p)) = (next_of(m, c), m.place_of(me)?) {
                return collect(m, n, it, V::Coll(Rc::new(cc)), Some(p));
            }
            Ok(None)
        }
        "retain" => {
            m.settle(&mut cc)?;
            let items = cc.elems.clone();
            m.put(me, V::Coll(Rc::new(cc)))?;
            let Some(p) = m.place_of(me)? else { return Ok(None) };
            let it = m.mk_iter(items, false, None);
            let i = m.push_nat(Nat::Retain { coll: p.clone(), map: false }, vec![a[1].clone(), it, V::Undef]);
            let r = retain_step(m, i, p, false)?;
            resume_nat(m, r)
        }
        "union" | "intersection" | "difference" | "symmetric_difference" => {
            let Some(mut o) = m.coll_at(&a[1])? else { return Ok(None) };
            m.settle(&mut o)?;
            m.settle(&mut cc)?;
            let mut items = BTreeMap::new();
            let all: std::collections::BTreeSet<V> = cc.elems.keys().chain(o.elems.keys()).cloned().collect();
            for k in all {
                let x = cc.elems.get(&k).copied();
                let y = o.elems.get(&k).copied();
                let sure = |n: Option<Cnt>| matches!(n, Some(Cnt::One | Cnt::Must));
                let wit = !is_o(&k);
                let r = match name {
                    "union" => if sure(x) || sure(y) { Some(if wit { Cnt::One } else { Cnt::Must }) } else { Some(Cnt::May) },
                    "intersection" => match (x, y) { (None, _) | (_, None) => None, _ => Some(if wit && sure(x) && sure(y) { Cnt::One } else if wit { Cnt::May01 } else { Cnt::May }) },
                    "difference" => match (x, y) { (None, _) => None, (Some(_), None) => x, _ => if wit && sure(y) { None } else { Some(if wit { Cnt::May01 } else { Cnt::May }) } },
                    _ => match (x, y) { (Some(n), None) | (None, Some(n)) => Some(n), _ => if wit && sure(x) && sure(y) { None } else { Some(if wit { Cnt::May01 } else { Cnt::May }) } },
                };
                if let Some(n) = r { items.insert(V::RefVal(Box::new(k)), n); }
            }
            let v = m.mk_iter(items, cc.taint || o.taint, None);
            ret(v)
        }
        "is_disjoint" | "is_subset" | "is_superset" | "eq" | "ne" => ret(V::Any),
        "capacity" => ret(V::Any),
        "reserve" | "shrink_to_fit" | "sort" | "sort_unstable" | "dedup" | "reverse" | "shrink_to" => ret(V::unit()),
        "deref" | "deref_mut" | "as_slice" | "as_ref" | "as_mut" | "borrow" | "as_mut_slice" => ret(me.clone()),
        "into_boxed_slice" => ret(V::Box(BoxK::Box, Box::new(V::Coll(Rc::new(cc))))),
        _ => Ok(None),
    }
}

fn resume_nat(m: &mut M, r: NatRes) -> R<Option<Res>> {
    start(m, r).map(Some)
}

fn map_model(m: &mut M, c: &Callee, name: &str, a: &[V]) -> R<Option<Res>> {
    let ret = |v: V| Ok(Some(Res::Ret(v)));
    let Some(me) = a.first() else { return Ok(None) };
    let Some((p, mm)) = m.map_at(me)? else {
        // owned
        if name == "into_iter" || name == "into_keys" || name == "into_values" || name == "clone" {
            if let V::Map(_) = me {
                return Ok(None);
            }
        }
        return Ok(None);
    };
    let owned = p.root == Root::G(u32::MAX);
    let owned_ok = owned && matches!(name, "into_iter" | "into_keys" | "into_values" | "len" | "is_empty");
    if owned && !owned_ok && !matches!(name, "clone") {
        // a map without place: only reading makes sense
        if !matches!(name, "contains_key" | "get" | "keys" | "values" | "iter") { return Ok(None) }
    }
    let key = |m: &mut M| -> R<Option<(Id, bool)>> {
        match a.get(1) { Some(k) => m.id_of(k), None => Ok(None) }
    };
    match name {
        "contains_key" => {
            let Some((id, t)) = key(m)? else { return Ok(None) };
            let (b, u) = m.map_has(&p, &mm, id)?;
            ret(V::Bool(b, t || u))
        }
        "get" | "get_mut" | "index" | "index_mut" | "get_key_value" => {
            let Some((id, t)) = key(m)? else { return Ok(None) };
            let (b, u) = m.map_has(&p, &mm, id)?;
            if b {
                // materialise
                let w = if owned { V::Ref(p.step(Step::MV(id))) } else { V::Ref(p.step(Step::MV(id))) };
                if let (Id::W(_), false) = (id, owned) {
                    let v = m.read(&p.step(Step::MV(id)))?;
                    m.map_set(&p, id, Some(v))?;
                }
                let w = if owned { let V::Map(_) = m.deref(me)? else { return Ok(None) }; V::Unk } else { w };
                if name.starts_with("index") { return ret(w) }
                if name == "get_key_value" {
                    let k = m.wrap(mm.kty, V::Sym(Sym::Ptr(id, false)));
                    return ret(V::some(V::Tuple(vec![V::RefVal(Box::new(k)), w]), t || u));
                }
                ret(V::some(w, t || u))
            } else {
                if let (Id::W(_), false) = (id, owned) { m.map_set(&p, id, None)?; }
                if name.starts_with("index") {
                    if t || u { m.stats.suppressed += 1; return Err(Stop::Dead) }
                    return Ok(Some(Res::Panic(false, "indexing a map with a key that is not in it".into())));
                }
                ret(V::none(t || u))
            }
        }
        "insert" => {
            let Some((id, t)) = key(m)? else { return Ok(None) };
            let (b, u) = m.map_has(&p, &mm, id)?;
            let old = if b { let v = m.read(&p.step(Step::MV(id)))?; V::some(v, t || u) } else { V::none(t || u) };
            m.map_set(&p, id, Some(a[2].clone()))?;
            ret(old)
        }
        "remove" | "remove_entry" => {
            let Some((id, t)) = key(m)? else { return Ok(None) };
            let (b, u) = m.map_has(&p, &mm, id)?;
            let old = if b {
                let v = m.read(&p.step(Step::MV(id)))?;
                let v = match v { V::Coll(cc) if cc.role.is_some() => { let mut c2 = (*cc).clone(); c2.role = None; V::Coll(Rc::new(c2)) } v => v };
                if name == "remove_entry" {
                    let k = m.wrap(mm.kty, V::Sym(Sym::Ptr(id, false)));
                    V::some(V::Tuple(vec![k, v]), t || u)
                } else { V::some(v, t || u) }
            } else { V::none(t || u) };
            m.map_set(&p, id, None)?;
            ret(old)
        }
        "clear" => {
            let mut n = mm.clone();
            n.slots = [Slot::Abs, Slot::Abs];
            n.oth = [None, None, None];
            n.dirty = false;
            m.write(&p, V::Map(Rc::new(n)))?;
            ret(V::unit())
        }
        "len" => {
            if let (Some(r), true) = (mm.role, mm.oth.iter().any(|o| o.is_some())) { return ret(V::Sym(Sym::Len(r as u8))) }
            let l = m.map_ids(&p, &mm)?;
            ret(if l.is_empty() { V::Int(0, false) } else if l.iter().any(|x| x.1 == Cnt::One) { V::Pos(false) } else { V::Any })
        }
        "is_empty" => {
            let l = m.map_ids(&p, &mm)?;
            ret(if l.is_empty() { V::b(true) } else if l.iter().any(|x| x.1 == Cnt::One) { V::b(false) } else { V::Any })
        }
        "keys" | "values" | "values_mut" | "iter" | "iter_mut" | "into_iter" | "into_keys" | "into_values" | "drain" => {
            let own = matches!(name, "into_keys" | "into_values" | "drain") || (name == "into_iter" && !matches!(me, V::Ref(_) | V::RefVal(_)));
            let mut items = BTreeMap::new();
            for (id, n) in m.map_ids(&p, &mm)? {
                let k = m.wrap(mm.kty, V::Sym(Sym::Ptr(id, false)));
                let k = if own { k } else { V::RefVal(Box::new(k)) };
                let v = if name.contains("keys") { V::unit() } else if own || owned {
                    let mv = V::Map(Rc::new(mm.clone()));
                    m.read_in_pub(mv, Step::MV(id))?
                } else {
                    if let Id::W(_) = id {
                        let v = m.read(&p.step(Step::MV(id)))?;
                        m.map_set(&p, id, Some(v))?;
                    }
                    V::Ref(p.step(Step::MV(id)))
                };
                let it = if name.contains("keys") { k } else if name.contains("values") { v } else { V::Tuple(vec![k, v]) };
                items.insert(it, n);
            }
            if name == "drain" {
                let mut n = mm.clone();
                n.slots = [Slot::Abs, Slot::Abs];
                n.oth = [None, None, None];
                m.write(&p, V::Map(Rc::new(n)))?;
            }
            let w = if mm.oth.iter().any(|o| o.is_some()) { mm.role } else { None };
            let v = m.mk_iter(items, false, w);
            ret(v)
        }
        "entry" => {
            let Some((id, t)) = key(m)? else { return Ok(None) };
            let (b, u) = m.map_has(&p, &mm, id)?;
            let e = V::Entry(p.clone(), Box::new(a[1].clone()));
            let bt = c.rpath.contains("btree") || c.rpath.contains("BTreeMap");
            if b {
                if let Id::W(_) = id {
                    let v = m.read(&p.step(Step::MV(id)))?;
                    m.map_set(&p, id, Some(v))?;
                }
            }
            let (path, occ): (&str, u32) = if bt { ("std::collections::btree_map::Entry", if b { 1 } else { 0 }) } else { ("std::collections::hash_map::Entry", if b { 0 } else { 1 }) };
            ret(V::Adt(path.into(), occ, vec![e, V::b(b)], t || u))
        }
        "extend" => {
            let it = into_iter(m, &a[1])?;
            if let V::Iter(i) = &it {
                for (kv, n) in &i.items {
                    if let V::Tuple(l) = kv {
                        if let Some((id, _)) = m.id_of(&l[0])? {
                            if matches!(n, Cnt::May | Cnt::May01) && !m.flip() { continue }
                            let v = l[1].clone();
                            m.map_set(&p, id, Some(v))?;
                        }
                    }
                }
                return ret(V::unit());
            }
            if let Some(n) = next_of(m, c) {
                return collect(m, n, it, V::Map(Rc::new(mm)), Some(p));
            }
            Ok(None)
        }
        "retain" => {
            let mut items = BTreeMap::new();
            for (id, n) in m.map_ids(&p, &mm)? {
                if let Id::W(_) = id {
                    let v = m.read(&p.step(Step::MV(id)))?;
                    m.map_set(&p, id, Some(v))?;
                }
                let k = m.wrap(mm.kty, V::Sym(Sym::Ptr(id, false)));
                items.insert(k, n);
            }
            let it = m.mk_iter(items, false, None);
            let i = m.push_nat(Nat::Retain { coll: p.clone(), map: true }, vec![a[1].clone(), it, V::Undef]);
            let r = retain_step(m, i, p, true)?;
            resume_nat(m, r)
        }
        "clone" => {
            let v = m.deref(me)?;
            if let V::Map(mm) = v {
                let mut n = (*mm).clone();
                let pl = p.clone();
                for w in 0..2u8 {
                    let has = m.map_has(&pl, &mm, Id::W(w))?.0;
                    n.slots[w as usize] = if has { Slot::Val(Box::new(m.read(&pl.step(Step::MV(Id::W(w))))?)) } else { Slot::Abs };
                }
                n.role = None;
                for o in n.oth.iter_mut() { if let Some((_, v)) = o { **v = V::Any } }
                return ret(V::Map(Rc::new(n)));
            }
            Ok(None)
        }
        "reserve" | "shrink_to_fit" => ret(V::unit()),
        "capacity" | "hasher" => ret(V::Any),
        _ => Ok(None),
    }
}

fn entry_model(m: &mut M, c: &Callee, h: &str, name: &str, a: &[V]) -> R<Option<Res>> {
    let ret = |v: V| Ok(Some(Res::Ret(v)));
    let e = m.deref(&a[0])?;
    let (ent, _has) = match &e {
        V::Adt(_, _, f, _) if !f.is_empty() => (f[0].clone(), f.get(1).cloned()),
        V::Entry(..) => (e.clone(), None),
        _ => return Ok(None),
    };
    let V::Entry(p, k) = ent else { return Ok(None) };
    let Some((id, kt)) = m.id_of(&k)? else { return Ok(None) };
    let occupied = match (&e, h) {
        (_, "OccupiedEntry") => true,
        (_, "VacantEntry") => false,
        (V::Adt(_, _, f, _), _) => matches!(f.get(1), Some(V::Bool(true, _))),
        _ => return Ok(None),
    };
    let t = kt || matches!(id, Id::O(_));
    let val = V::Ref(p.step(Step::MV(id)));
    match name {
        "or_insert_with" | "or_insert_with_key" => {
            if occupied { return ret(val) }
            let i = m.push_nat(Nat::OrInsertWith { map: p, key: *k.clone() }, vec![a[1].clone()]);
            call_closure(m, i, 0, if name == "or_insert_with_key" { vec![V::RefVal(k)] } else { vec![] })
        }
        "or_insert" | "or_default" => {
            if occupied { return ret(val) }
            let v = if name == "or_insert" { a[1].clone() } else {
                let V::Map(mm) = m.read(&p)? else { return Ok(None) };
                match coll_kind(m, mm.vty) {
                    Some(("map", t)) => m.mk_map(t[0], t[1]),
                    Some(("set", t)) => m.mk_coll(true, t[0]),
                    Some((_, t)) => m.mk_coll(false, t[0]),
                    None => match m.p.ty(mm.vty) { Ty::Prim(s) if s == "bool" => V::b(false), Ty::Prim(_) => V::Int(0, false), Ty::Tuple(_) => V::unit(), _ => return Ok(None) },
                }
            };
            m.map_set(&p, id, Some(v))?;
            ret(val)
        }
        "and_modify" => {
            if !occupied { return ret(e) }
            let i = m.push_nat(Nat::Return, vec![e, a[1].clone()]);
            call_closure(m, i, 1, vec![val])
        }
        "insert" if h == "VacantEntry" => {
            m.map_set(&p, id, Some(a[1].clone()))?;
            ret(val)
        }
        "insert" => {
            let old = m.read(&p.step(Step::MV(id)))?;
            m.map_set(&p, id, Some(a[1].clone()))?;
            ret(old)
        }
        "insert_entry" => {
            m.map_set(&p, id, Some(a[1].clone()))?;
            ret(V::Entry(p, k))
        }
        "get" | "get_mut" | "into_mut" => ret(val),
        "remove" | "remove_entry" => {
            let old = m.read(&p.step(Step::MV(id)))?;
            m.map_set(&p, id, None)?;
            ret(if name == "remove" { old } else { V::Tuple(vec![*k, old]) })
        }
        "key" => ret(V::RefVal(k)),
        "into_key" => ret(*k),
        _ => {
            let _ = (c, t);
            Ok(None)
        }
    }
}

fn downcast(m: &mut M, c: &Callee, name: &str, a: &[V]) -> R<Option<Res>> {
    // the last type argument is the wanted type (allocators left aside)
    let want = c.args.iter().copied().find(|t| !matches!(m.p.ty(*t), Ty::Adt(ref p, _) if p.ends_with("::Global")) && !matches!(m.p.ty(*t), Ty::Dyn(..))).unwrap_or(u32::MAX);
    let x = m.deref(&a[0])?;
    let (boxed, inner, k) = match &x {
        V::Box(k, b) => (true, (**b).clone(), *k),
        v => (false, v.clone(), BoxK::Box),
    };
    let (have, val) = match &inner {
        V::Dyn(t, v) => (*t, (**v).clone()),
        V::Sym(_) => (u32::MAX, inner.clone()),
        V::Any => {
            let b = m.flip();
            return Ok(Some(Res::Ret(match (name, b) { ("is", b) => V::b(b), ("downcast", true) => V::ok(V::Any), ("downcast", false) => V::err(V::Any), (_, true) => V::some(V::Any, false), _ => V::none(false) })));
        }
        _ => return Ok(None),
    };
    let w = m.w.clone();
    let ok = match w.downcast(m, have, want, &val) { Some(b) => b, None => m.flip() };
    Ok(Some(Res::Ret(match name {
        "is" => V::b(ok),
        "downcast" => if ok { V::ok(V::Box(k, Box::new(val))) } else { V::err(x) },
        _ => if !ok { V::none(false) } else {
            let r = match m.place_of(&a[0])? {
                Some(p) => {
                    let p = if boxed { p.step(Step::B) } else { p };
                    V::Ref(if matches!(inner, V::Dyn(..)) { p.step(Step::A) } else { p })
                }
                None => V::RefVal(Box::new(val)),
            };
            V::some(r, false)
        },
    })))
}
