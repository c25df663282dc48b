//! Object builders: every sequence of builder calls, builds included, against a reference model
use crate::model::live_diff;
use crate::*;
use fieldx::error::FieldXError;

#[derive(Clone, Copy, Debug, PartialEq, Eq)]
pub enum Post {
    No,
    Plain,
    Fallible,
}

/// How a missing value is to be reported
#[derive(Clone, Copy, Debug, PartialEq, Eq)]
pub enum Rep {
    Std,
    Into,
    Variant,
}

#[derive(Clone, Debug)]
pub struct BField {
    pub name:     &'static str,
    pub lazy:     bool,
    pub tracked:  bool,
    pub settable: bool,
    pub required: bool,
    /// What the field has when not given a value
    pub init:     Option<u64>,
}

#[derive(Clone, Debug)]
pub struct BSpec {
    pub name:   &'static str,
    pub src:    &'static str,
    pub fields: &'static [BField],
    pub tags:   &'static [&'static str],
    pub post:   Post,
    pub rep:    Rep,
    pub rc:     bool,
}

/// User's error
#[derive(Debug)]
pub enum BE {
    From(FieldXError),
    Unset(String),
    User(u64),
}

impl From<FieldXError> for BE {
    fn from(e: FieldXError) -> BE {
        BE::From(e)
    }
}

#[derive(Debug, PartialEq, Clone)]
pub enum BErr {
    Missing(Rep, String),
    User(u64),
    Other(String),
}


impl From<FieldXError> for BErr {
    fn from(e: FieldXError) -> BErr {
        match e {
            FieldXError::UninitializedField(n) => BErr::Missing(Rep::Std, n),
            e => BErr::Other(e.to_string()),
        }
    }
}

impl From<BE> for BErr {
    fn from(e: BE) -> BErr {
        match e {
            BE::From(FieldXError::UninitializedField(n)) => BErr::Missing(Rep::Into, n),
            BE::From(e) => BErr::Other(e.to_string()),
            BE::Unset(n) => BErr::Missing(Rep::Variant, n),
            BE::User(n) => BErr::User(n),
        }
    }
}

pub trait BuildObj: Sized + 'static {
    const SPEC: BSpec;
    type B;
    fn builder() -> Self::B;
    fn set(b: Self::B, f: usize, v: u64) -> Self::B;
    fn build(b: &mut Self::B) -> Result<Self, BErr>;
    /// Content; a lazy field counts if it is set
    fn view(&self) -> Vec<Option<u64>>;
    /// Address of the object, by itself and by its reference to self
    fn addr(&self) -> (usize, usize) {
        (0, 0)
    }
}

/// What post_build saw
#[derive(Clone, Debug)]
pub struct PostRun {
    pub view: Vec<Option<u64>>,
    pub addr: usize,
    pub out:  PostOut,
}

#[derive(Clone, Copy, Debug, PartialEq)]
pub enum PostOut {
    Same,
    Changed(u64),
    Err(u64),
    Panic,
}

thread_local! {
    static POST: RefCell<Vec<PostRun>> = const { RefCell::new(vec![]) };
}

/// Called by post_build of the structs under test
pub fn post(view: Vec<Option<u64>>, addr: usize, fallible: bool) -> PostOut {
    let id = POST.with(|p| p.borrow().len() as u64) + 900;
    let out = match choose(if fallible { 3 } else { 2 }) {
        0 => PostOut::Same,
        1 => PostOut::Changed(id),
        _ => PostOut::Err(id),
    };
    POST.with(|p| p.borrow_mut().push(PostRun { view, addr, out }));
    out
}

#[derive(Clone, Copy)]
enum Step {
    Set(usize),
    Build,
    End,
}

fn steps(spec: &BSpec) -> Vec<Step> {
    let mut r = vec![Step::End, Step::Build];
    r.extend((0..spec.fields.len()).filter(|i| spec.fields[*i].settable).map(Step::Set));
    r
}

fn live(spec: &BSpec, sts: &[&Vec<Option<u64>>]) -> Vec<(u64, i32)> {
    let mut r: Vec<(u64, i32)> = vec![];
    for st in sts {
        for (f, v) in spec.fields.iter().zip(st.iter()) {
            if let (true, Some(v)) = (f.tracked, v) {
                match r.iter_mut().find(|x| x.0 == *v) {
                    Some(x) => x.1 += 1,
                    None => r.push((*v, 1)),
                }
            }
        }
    }
    r
}

fn state_hash(spec: &BSpec, st: &[Option<u64>], built: usize) -> u64 {
    let s: Vec<bool> = st.iter().map(|v| v.is_some()).collect();
    hash(&(spec.name, s, built))
}

type Bad = (Class, String);

fn run_<T: BuildObj>(
    spec: &BSpec,
    depth: usize,
    seen: &mut dyn FnMut(u64),
    want: bool,
    out: &mut RunOut,
    tr: &mut String,
) -> Result<(), Bad> {
    let crash = |p: Result<u64, String>| match p {
        Ok(b) => (Class::Builder, format!("the lazy builder ran (run {b})")),
        Err(m) => (Class::Crash, format!("unexpected panic: {m}")),
    };
    let n = spec.fields.len();
    let all = steps(spec);
    let mut given: Vec<Option<u64>> = vec![None; n];
    let mut b = Some(T::builder());
    let mut objs: Vec<(T, Vec<Option<u64>>)> = vec![];
    let check_live = |given: &Vec<Option<u64>>, objs: &[(T, Vec<Option<u64>>)]| {
        if let Some(m) = ctx(|c| c.broken.take()) {
            return Err((Class::Live, m));
        }
        let mut sts: Vec<&Vec<Option<u64>>> = objs.iter().map(|o| &o.1).collect();
        sts.push(given);
        match live_diff(live(spec, &sts)) {
            Some(m) => Err((Class::Live, m)),
            None => Ok(()),
        }
    };
    for i in 0..depth {
        seen(state_hash(spec, &given, objs.len()));
        check_live(&given, &objs)?;
        tick();
        let last = i + 1 == depth;
        // what isn't followed by a build shows nothing new
        let step = if last { Step::Build } else { all[choose(all.len())] };
        out.steps += 1;
        match step {
            Step::End => {
                if want {
                    let _ = writeln!(tr, "the builder is dropped");
                }
                break;
            }
            Step::Set(f) => {
                let v = 10 * (i as u64 + 1) + f as u64;
                if want {
                    let _ = writeln!(tr, "builder method of '{}', value {v}", spec.fields[f].name);
                }
                let taken = b.take().unwrap();
                b = Some(guarded(|| T::set(taken, f, v)).map_err(crash)?);
                given[f] = Some(v);
            }
            Step::Build => {
                POST.with(|p| p.borrow_mut().clear());
                let r = guarded(|| T::build(b.as_mut().unwrap())).map_err(crash)?;
                let posts = POST.with(|p| std::mem::take(&mut *p.borrow_mut()));
                if want {
                    let _ = writeln!(
                        tr,
                        "build() -> {}{}",
                        match &r {
                            Ok(o) => format!("{:?}", o.view()),
                            Err(e) => format!("{e:?}"),
                        },
                        if posts.is_empty() { String::new() } else { format!("; post_build: {posts:?}") }
                    );
                }
                if let Some(m) = ctx(|c| c.log.first().map(|l| l.field)) {
                    return Err((Class::Builder, format!("the lazy builder of '{}' ran on build()", spec.fields[m].name)));
                }
                let missing: Vec<usize> = (0..n).filter(|i| spec.fields[*i].required && given[*i].is_none()).collect();
                if !missing.is_empty() {
                    if !posts.is_empty() {
                        return Err((Class::Other, "post_build was called while a required value is missing".into()));
                    }
                    match r {
                        Ok(o) => {
                            return Err((
                                Class::Result,
                                format!("build() succeeds with {:?} while '{}' is required and missing", o.view(), spec.fields[missing[0]].name),
                            ))
                        }
                        Err(BErr::Missing(rep, name)) => {
                            if rep != spec.rep {
                                return Err((Class::Other, format!("a missing value is reported by {rep:?}, should be by {:?}", spec.rep)));
                            }
                            if !missing.iter().any(|m| spec.fields[*m].name == name) {
                                return Err((Class::Result, format!("build() reports '{name}' to be missing, it is not")));
                            }
                        }
                        Err(e) => return Err((Class::Other, format!("build() fails with {e:?}, should report a missing value"))),
                    }
                    continue;
                }
                // the values leave the builder
                let mut exp: Vec<Option<u64>> = vec![];
                for (f, g) in spec.fields.iter().zip(given.iter_mut()) {
                    exp.push(g.take().or(f.init));
                }
                let mut addr = 0;
                if spec.post == Post::No {
                    if !posts.is_empty() {
                        return Err((Class::Other, "post_build was called without being asked for".into()));
                    }
                }
                else {
                    if posts.len() != 1 {
                        return Err((Class::Other, format!("post_build was called {} times by a successful build()", posts.len())));
                    }
                    let p = &posts[0];
                    // lazy fields are only known to be set or not at this point
                    let norm = |v: &Vec<Option<u64>>| -> Vec<Option<u64>> {
                        v.iter()
                            .zip(spec.fields)
                            .map(|(v, f)| if f.lazy { v.map(|_| 1) } else { *v })
                            .collect()
                    };
                    if norm(&p.view) != norm(&exp) {
                        return Err((Class::Other, format!("post_build sees {:?}, the object has {exp:?}", p.view)));
                    }
                    addr = p.addr;
                    match p.out {
                        PostOut::Changed(v) => exp[n - 1] = Some(v),
                        PostOut::Err(e) => {
                            match r {
                                Err(x) if x == BErr::User(e) => (),
                                Ok(_) => return Err((Class::Other, "build() succeeds though post_build failed".into())),
                                Err(x) => return Err((Class::Other, format!("build() fails with {x:?}, post_build returned {e}"))),
                            }
                            continue;
                        }
                        _ => (),
                    }
                }
                match r {
                    Err(e) => return Err((Class::Result, format!("build() fails with {e:?}, nothing is missing"))),
                    Ok(o) => {
                        let v = guarded(|| o.view()).map_err(crash)?;
                        if let Some(m) = ctx(|c| c.log.first().map(|l| l.field)) {
                            return Err((Class::Builder, format!("the lazy builder of '{}' ran though the field is set", spec.fields[m].name)));
                        }
                        if v != exp {
                            let class = if v[n - 1] != exp[n - 1] && spec.post != Post::No { Class::Other } else { Class::Result };
                            return Err((class, format!("the object has {v:?}, should have {exp:?}")));
                        }
                        let (a, m) = o.addr();
                        if a != m {
                            return Err((Class::Other, "the reference to itself leads elsewhere".into()));
                        }
                        if addr != 0 && a != addr {
                            return Err((Class::Other, "post_build saw a weak reference to something else than what is delivered".into()));
                        }
                        objs.push((o, exp));
                    }
                }
            }
        }
    }
    seen(state_hash(spec, &given, objs.len()));
    check_live(&given, &objs)?;
    // the builder goes first or last
    if choose(2) == 0 {
        drop(b.take());
        for g in &mut given {
            *g = None;
        }
    }
    while !objs.is_empty() {
        check_live(&given, &objs)?;
        let o = objs.remove(0);
        guarded(|| drop(o)).map_err(crash)?;
    }
    check_live(&given, &objs)?;
    drop(b);
    match live_diff(vec![]) {
        Some(m) => Err((Class::Live, format!("after everything was dropped: {m}"))),
        None => Ok(()),
    }
}

fn run<T: BuildObj>(spec: &BSpec, o: &Opts, depth: usize, seen: &mut dyn FnMut(u64), want: bool) -> RunOut {
    let mut out = RunOut::default();
    let mut tr = String::new();
    if let Err((class, msg)) = run_::<T>(spec, depth, seen, want, &mut out, &mut tr) {
        if o.classes.contains(&class) {
            out.viol = Some(Viol {
                class,
                msg: format!("{}: {}", spec.name, msg),
                trace: tr.clone(),
            });
        }
        else {
            out.abandoned = true;
        }
    }
    out.trace = tr;
    out
}

pub fn subject<T: BuildObj>() -> Subject {
    Subject {
        name:  T::SPEC.name.to_string(),
        src:   T::SPEC.src,
        tags:  T::SPEC.tags.to_vec(),
        run:   Box::new(|o, d, seen, want| run::<T>(&T::SPEC, o, d, seen, want)),
        fan:   Box::new(|_| (2, steps(&T::SPEC).len() as u64 + (T::SPEC.post != Post::No) as u64)),
        depth: None,
    }
}
