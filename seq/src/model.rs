//! Field life cycle: reference model of lazy, optional and always-valued fields
use crate::*;

#[derive(Clone, Copy, PartialEq, Eq, Debug, Hash)]
pub enum Kind {
    Lazy,
    Opt,
    Val,
}

/// Operations
#[derive(Clone, Copy, PartialEq, Eq, Debug, Hash)]
pub enum K {
    Get,
    Rd,
    Mut,
    MutNone,
    Set,
    Clear,
    Has,
    /// store through writer guard
    WSet,
    /// clear through writer guard
    WClear,
    WSetClear,
    WClearSet,
    // of the object
    Fork,
    Swap,
    Eq,
    EqSelf,
    Debug,
    /// serialize, go on with what deserialization of the result makes
    Serde,
}

#[derive(Clone, Copy, Debug, PartialEq, Eq, Hash)]
pub struct Op(pub K, pub usize);

#[derive(Clone, Debug)]
pub struct Field {
    pub name:     &'static str,
    pub kind:     Kind,
    pub tracked:  bool,
    pub fallible: bool,
    pub deps:     &'static [usize],
    /// Value of the field in a new object
    pub init:     Option<u64>,
    /// Name of the field when serialized, is it serialized, is it deserialized
    pub key:      &'static str,
    pub ser:      bool,
    pub de:       bool,
}

/// Which fields get a value by the object builder; None: new() or default()
#[derive(Clone, Copy, PartialEq, Eq, Debug)]
pub enum Ctor {
    New,
    Default,
    /// The bits are the fields given values
    Builder(u32),
    /// Two new objects
    Two,
}

#[derive(Clone, Debug)]
pub struct Spec {
    pub name:   &'static str,
    pub src:    &'static str,
    pub fields: &'static [Field],
    pub ops:    &'static [Op],
    pub ctors:  &'static [Ctor],
    pub tags:   &'static [&'static str],
}

#[derive(Clone, PartialEq, Eq, Debug)]
pub enum Obs {
    Unit,
    B(bool),
    V(u64),
    O(Option<u64>),
    O2(Option<u64>, Option<u64>),
    Err(u64),
    Panic(u64),
}

pub trait Object: Sized + 'static {
    const SPEC: Spec;
    fn make(ctor: Ctor) -> Self;
    fn step(&mut self, op: Op, w: u64) -> Obs;
    fn fork(&self) -> Self {
        unimplemented!()
    }
    fn equal(&self, _other: &Self) -> bool {
        unimplemented!()
    }
    fn debug(&self) -> String {
        unimplemented!()
    }
    /// Serialized form and the outcome of deserialization
    fn serde(&self) -> Result<(String, Self), String> {
        unimplemented!()
    }
}

/// How values look like when they are serialized
fn json_id(v: &serde_json::Value) -> Result<Option<u64>, String> {
    match v {
        serde_json::Value::Null => Ok(None),
        serde_json::Value::String(s) => Ok(Some(<String as Id>::id(s))),
        v => v.as_u64().map(Some).ok_or_else(|| format!("unexpected {v}")),
    }
}

/// All orders of a few elements
fn orders(v: &[usize]) -> Vec<Vec<usize>> {
    if v.is_empty() {
        return vec![vec![]];
    }
    let mut r = vec![];
    for i in 0..v.len() {
        let mut rest = v.to_vec();
        let x = rest.remove(i);
        for mut o in orders(&rest) {
            o.insert(0, x);
            r.push(o);
        }
    }
    r
}

/// What the serialized object consists of, given the builder runs
fn serialized(spec: &Spec, st: &State, log: &[Built]) -> Result<State, String> {
    let unset: Vec<usize> = (0..spec.fields.len())
        .filter(|i| spec.fields[*i].kind == Kind::Lazy && spec.fields[*i].ser && !spec.fields[*i].key.is_empty() && st.0[*i].is_none())
        .collect();
    let mut msg = String::new();
    for o in orders(&unset) {
        let mut s = st.clone();
        let mut m = Model {
            spec,
            log: log.to_vec().into_iter(),
        };
        let r = o.iter().try_for_each(|f| match m.init(&mut s, *f) {
            Ok(_) => Ok(()),
            Err(Stop::Bad(m)) => Err(m),
            Err(Stop::Fail(_)) => Err("a builder failed".to_string()),
        });
        match r {
            Ok(()) => match m.log.next() {
                None => return Ok(s),
                Some(b) => msg = format!("the builder of '{}' ran, it should not", spec.fields[b.field].name),
            },
            Err(m) => msg = m,
        }
    }
    Err(msg)
}

fn check_json(spec: &Spec, s: &State, json: &str) -> Result<(), String> {
    let v: serde_json::Value = serde_json::from_str(json).map_err(|e| format!("not JSON: {e}"))?;
    let m = v.as_object().ok_or("not an object")?;
    let mut n = 0;
    for (f, want) in spec.fields.iter().zip(&s.0) {
        if f.ser && !f.key.is_empty() {
            n += 1;
            let got = m.get(f.key).ok_or_else(|| format!("field '{}' is missing", f.key)).and_then(json_id)?;
            if got != *want {
                return Err(format!("field '{}' is {got:?}, should be {want:?}", f.key));
            }
        }
    }
    if m.keys().filter(|k| *k != "marker").count() != n {
        return Err(format!("there are {} fields, should be {n}", m.len()));
    }
    Ok(())
}

pub fn given(f: usize) -> u64 {
    500 + f as u64
}

#[derive(Clone, PartialEq, Eq, Hash, Debug)]
struct State(Vec<Option<u64>>);

struct Fail(Obs);

struct Model<'a> {
    spec: &'a Spec,
    log:  std::vec::IntoIter<Built>,
}

enum Stop {
    Fail(Obs),
    Bad(String),
}

impl Model<'_> {
    /// Reads a lazy field
    fn init(&mut self, st: &mut State, f: usize) -> Result<u64, Stop> {
        let fld = &self.spec.fields[f];
        if let Some(v) = st.0[f] {
            return Ok(v);
        }
        let mut deps = vec![];
        for d in fld.deps {
            if self.spec.fields[*d].kind == Kind::Lazy {
                deps.push(self.init(st, *d)?);
            }
            else {
                deps.push(st.0[*d].unwrap_or(u64::MAX));
            }
        }
        match self.log.next() {
            None => Err(Stop::Bad(format!("the builder of '{}' should have run", fld.name))),
            Some(b) if b.field != f => Err(Stop::Bad(format!(
                "the builder of '{}' ran, should be that of '{}'",
                self.spec.fields[b.field].name, fld.name
            ))),
            Some(b) if b.deps != deps => Err(Stop::Bad(format!(
                "the builder of '{}' saw {:?} in the fields it reads, they are {:?}",
                fld.name, b.deps, deps
            ))),
            Some(b) => match b.out {
                Outcome::Value(v) => {
                    st.0[f] = Some(v);
                    Ok(v)
                }
                Outcome::Err(e) => Err(Stop::Fail(Obs::Err(e))),
                Outcome::Panic(e) => Err(Stop::Fail(Obs::Panic(e))),
            },
        }
    }

    fn step(&mut self, st: &mut State, Op(k, f): Op, w: u64) -> Result<Obs, String> {
        match self.step_(st, k, f, w) {
            Ok(o) | Err(Stop::Fail(o)) => Ok(o),
            Err(Stop::Bad(m)) => Err(m),
        }
    }

    fn step_(&mut self, st: &mut State, k: K, f: usize, w: u64) -> Result<Obs, Stop> {
        let kind = self.spec.fields.get(f).map_or(Kind::Val, |f| f.kind);
        Ok(match (kind, k) {
            (_, K::Fork | K::Swap | K::Eq | K::EqSelf | K::Debug | K::Serde) => unreachable!(),
            (Kind::Lazy, K::Get | K::Rd) => Obs::V(self.init(st, f)?),
            (Kind::Lazy, K::Mut) => {
                let old = self.init(st, f)?;
                st.0[f] = Some(w);
                Obs::V(old)
            }
            (Kind::Val, K::Get | K::Rd) => Obs::V(st.0[f].unwrap()),
            (Kind::Val, K::Mut | K::Set | K::WSet) => Obs::V(st.0[f].replace(w).unwrap()),
            (Kind::Opt, K::Get | K::Rd) => Obs::O(st.0[f]),
            (_, K::Mut | K::Set | K::WSet) => Obs::O(st.0[f].replace(w)),
            (_, K::Has) => Obs::B(st.0[f].is_some()),
            (_, K::MutNone | K::Clear | K::WClear) => Obs::O(st.0[f].take()),
            (_, K::WSetClear) => {
                let old = st.0[f].take();
                Obs::O2(old, Some(w))
            }
            (_, K::WClearSet) => {
                let old = st.0[f].replace(w);
                Obs::O2(old, None)
            }
        })
    }
}

/// Values that should be alive
fn expected_live(spec: &Spec, sts: &[&State]) -> Vec<(u64, i32)> {
    let mut r: Vec<(u64, i32)> = vec![];
    for st in sts {
        for (f, v) in spec.fields.iter().zip(&st.0) {
            if let (true, Some(v)) = (f.tracked, v) {
                match r.iter_mut().find(|x| x.0 == *v) {
                    Some(x) => x.1 += 1,
                    None => r.push((*v, 1)),
                }
            }
        }
    }
    r
}

/// Are values which live too long or too short the subject of the property that is checked?
pub static LIVE: std::sync::atomic::AtomicBool = std::sync::atomic::AtomicBool::new(true);

pub fn live_diff(mut want: Vec<(u64, i32)>) -> Option<String> {
    if !LIVE.load(std::sync::atomic::Ordering::Relaxed) {
        return None;
    }
    let mut have = ctx(|c| c.live.clone());
    want.sort_unstable();
    have.sort_unstable();
    if want == have {
        return None;
    }
    let mut s = String::new();
    for (id, n) in &have {
        let m = want.iter().find(|x| x.0 == *id).map_or(0, |x| x.1);
        if m != *n {
            let _ = write!(s, "value {id}: {n} instances alive, expected {m}; ");
        }
    }
    for (id, m) in &want {
        if !have.iter().any(|x| x.0 == *id) {
            let _ = write!(s, "value {id}: none alive, expected {m}; ");
        }
    }
    Some(s)
}

fn canon(sts: &[&State]) -> u64 {
    let mut names: Vec<u64> = vec![];
    let mut r: Vec<u8> = vec![];
    for st in sts {
        for v in &st.0 {
            match v {
                None => r.push(255),
                Some(v) => {
                    let i = names.iter().position(|n| n == v).unwrap_or_else(|| {
                        names.push(*v);
                        names.len() - 1
                    });
                    r.push(i as u8);
                }
            }
        }
        r.push(254);
    }
    hash(&r)
}

fn run<T: Object>(spec: &Spec, o: &Opts, depth: usize, seen: &mut dyn FnMut(u64), want: bool) -> RunOut {
    let mut out = RunOut::default();
    let ops: Vec<Op> = ops_of(spec, o);
    let mut tr = String::new();
    let r = run_::<T>(spec, o, depth, seen, want, &ops, &mut out, &mut tr);
    if let Err((class, msg)) = r {
        let relevant = o.classes.contains(&class) && (!o.need_fail || ctx(|c| c.fails > 0))
            && (!o.need_fork || out.forked);
        if relevant {
            out.viol = Some(Viol {
                class,
                msg: format!("{}: {}", spec.name, msg),
                trace: tr.clone(),
            });
        }
        else {
            out.abandoned = true;
        }
    }
    out.trace = tr;
    out
}

fn ops_of(spec: &Spec, o: &Opts) -> Vec<Op> {
    spec.ops.iter().copied().filter(|p| (o.op)(p.0)).collect()
}

#[allow(clippy::too_many_arguments)]
fn run_<T: Object>(
    spec: &Spec,
    o: &Opts,
    depth: usize,
    seen: &mut dyn FnMut(u64),
    want: bool,
    ops: &[Op],
    out: &mut RunOut,
    tr: &mut String,
) -> Result<(), (Class, String)> {
    let ctor = spec.ctors[choose(spec.ctors.len())];
    tick();
    if want {
        let _ = writeln!(tr, "construct: {ctor:?}");
    }
    let crash = |p: Result<u64, String>| match p {
        Ok(b) => (Class::Builder, format!("panic of a builder (run {b}) that shouldn't have run")),
        Err(m) => (Class::Crash, format!("unexpected panic: {m}")),
    };
    let mut obj = guarded(|| T::make(ctor)).map_err(crash)?;
    let mut st = State(
        spec.fields
            .iter()
            .enumerate()
            .map(|(i, f)| match ctor {
                Ctor::Builder(m) if m & (1 << i) != 0 => Some(given(i)),
                _ => f.init,
            })
            .collect(),
    );
    let mut other: Option<(T, State)> = None;
    if ctor == Ctor::Two {
        other = Some((guarded(|| T::make(ctor)).map_err(crash)?, st.clone()));
    }
    let unexpected = |spec: &Spec| {
        ctx(|c| {
            c.log.first().map(|b| {
                (
                    Class::Builder,
                    format!("the builder of '{}' ran, it should not", spec.fields[b.field].name),
                )
            })
        })
    };
    if let Some(v) = unexpected(spec) {
        return Err(v);
    }
    for i in 0..depth {
        // what does the object look like?
        {
            let mut sts = vec![&st];
            if let Some((_, s)) = &other {
                sts.push(s);
            }
            seen(canon(&sts));
            if let Some(m) = ctx(|c| c.broken.take()) {
                return Err((Class::Live, m));
            }
            if let Some(m) = live_diff(expected_live(spec, &sts)) {
                return Err((Class::Live, m));
            }
        }
        let op = ops[choose(ops.len())];
        let w = 10 * (i as u64 + 1);
        if o.need_fork && !out.forked && i + 1 == depth {
            // too late for anything of interest
            out.forked = matches!(op.0, K::Fork | K::Eq | K::EqSelf | K::Debug | K::Serde);
            if !out.forked {
                return Ok(());
            }
        }
        tick();
        out.steps += 1;
        match op.0 {
            K::Fork => {
                out.forked = true;
                let c = guarded(|| obj.fork()).map_err(crash)?;
                other = Some((std::mem::replace(&mut obj, c), st.clone()));
                if want {
                    let _ = writeln!(tr, "clone (and go on with the clone)");
                }
                if let Some(v) = unexpected(spec) {
                    return Err(v);
                }
            }
            K::Serde => {
                out.forked = true;
                let r = guarded(|| obj.serde()).map_err(crash)?;
                let log = ctx(|c| std::mem::take(&mut c.log));
                if want {
                    let _ = writeln!(
                        tr,
                        "serialize -> {}{} (and go on with what is deserialized from it)",
                        match &r {
                            Ok((j, _)) => j,
                            Err(e) => e,
                        },
                        if log.is_empty() { String::new() } else { format!(" builder runs: {log:?}") }
                    );
                }
                let (json, n) = r.map_err(|e| (Class::Result, format!("serde fails: {e}")))?;
                let s = serialized(spec, &st, &log).map_err(|m| (Class::Builder, format!("serialization: {m}")))?;
                check_json(spec, &s, &json).map_err(|m| (Class::Result, format!("serialization yields {json}: {m}")))?;
                let new = State(
                    spec.fields
                        .iter()
                        .zip(&s.0)
                        .map(|(f, v)| {
                            if f.key.is_empty() || !f.de {
                                f.init
                            }
                            else if f.ser {
                                *v
                            }
                            else {
                                // not there to be deserialized
                                f.init
                            }
                        })
                        .collect(),
                );
                other = Some((std::mem::replace(&mut obj, n), std::mem::replace(&mut st, new)));
            }
            K::Swap => {
                if let Some((x, s)) = &mut other {
                    std::mem::swap(x, &mut obj);
                    std::mem::swap(s, &mut st);
                }
                if want {
                    let _ = writeln!(tr, "go on with the other object");
                }
            }
            K::Eq | K::EqSelf => {
                out.forked = true;
                let (expect, got) = match &other {
                    Some((x, s)) if op.0 == K::Eq => (*s == st, guarded(|| obj.equal(x)).map_err(crash)?),
                    _ => (true, guarded(|| obj.equal(&obj)).map_err(crash)?),
                };
                if want {
                    let _ = writeln!(tr, "{:?} -> {got}", op.0);
                }
                if let Some(v) = unexpected(spec) {
                    return Err(v);
                }
                if expect != got {
                    return Err((Class::Result, format!("{:?} yields {got}, expected {expect}", op.0)));
                }
            }
            K::Debug => {
                out.forked = true;
                let s = guarded(|| obj.debug()).map_err(crash)?;
                if want {
                    let _ = writeln!(tr, "debug -> {s}");
                }
                if let Some(v) = unexpected(spec) {
                    return Err(v);
                }
            }
            _ => {
                let got = match guarded(|| obj.step(op, w)) {
                    Ok(g) => g,
                    Err(Ok(b)) => Obs::Panic(b),
                    Err(Err(m)) => {
                        return Err((
                            Class::Crash,
                            format!("{:?} of '{}': unexpected panic: {m}", op.0, spec.fields[op.1].name),
                        ))
                    }
                };
                let log = ctx(|c| std::mem::take(&mut c.log));
                if want {
                    let _ = writeln!(
                        tr,
                        "{:?} '{}' (value {w}) -> {got:?}{}",
                        op.0,
                        spec.fields[op.1].name,
                        if log.is_empty() {
                            String::new()
                        }
                        else {
                            format!("  builder runs: {log:?}")
                        }
                    );
                }
                let before = st.clone();
                let mut m = Model {
                    spec,
                    log: log.into_iter(),
                };
                let exp = m.step(&mut st, op, w).map_err(|m| {
                    (Class::Builder, format!("{:?} of '{}': {m}", op.0, spec.fields[op.1].name))
                })?;
                if let Some(b) = m.log.next() {
                    return Err((
                        Class::Builder,
                        format!(
                            "{:?} of '{}': the builder of '{}' ran, it should not",
                            op.0, spec.fields[op.1].name, spec.fields[b.field].name
                        ),
                    ));
                }
                if exp != got {
                    let displaced = before.0[op.1].is_some()
                        && matches!(
                            op.0,
                            K::Set | K::Clear | K::WSet | K::WClear | K::WSetClear | K::WClearSet
                        );
                    return Err((
                        if displaced { Class::Displaced } else { Class::Result },
                        format!(
                            "{:?} of '{}' yields {got:?}, expected {exp:?}",
                            op.0, spec.fields[op.1].name
                        ),
                    ));
                }
            }
        }
    }
    {
        let mut sts = vec![&st];
        if let Some((_, s)) = &other {
            sts.push(s);
        }
        seen(canon(&sts));
        if let Some(m) = live_diff(expected_live(spec, &sts)) {
            return Err((Class::Live, m));
        }
    }
    guarded(|| drop(obj)).map_err(crash)?;
    if let Some((_, s)) = &other {
        if let Some(m) = live_diff(expected_live(spec, &[s])) {
            return Err((Class::Live, format!("after the object is dropped: {m}")));
        }
    }
    guarded(|| drop(other)).map_err(crash)?;
    if let Some(m) = ctx(|c| c.broken.take()) {
        return Err((Class::Live, m));
    }
    if let Some(m) = live_diff(vec![]) {
        return Err((Class::Live, format!("after all objects are dropped: {m}")));
    }
    if let Some(v) = unexpected(spec) {
        return Err(v);
    }
    Ok(())
}

pub fn subject<T: Object>() -> Subject {
    Subject {
        name:  T::SPEC.name.to_string(),
        src:   T::SPEC.src,
        tags:  T::SPEC.tags.to_vec(),
        run:   Box::new(|o, d, seen, want| run::<T>(&T::SPEC, o, d, seen, want)),
        fan:   Box::new(|o| (T::SPEC.ctors.len() as u64, ops_of(&T::SPEC, o).len() as u64)),
        depth: None,
    }
}
