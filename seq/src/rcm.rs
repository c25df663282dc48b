//! Reference counted objects: every sequence of taking and dropping references
use crate::model::live_diff;
use crate::*;

#[derive(Clone, Debug)]
pub struct RSpec {
    pub name:  &'static str,
    pub src:   &'static str,
    pub tags:  &'static [&'static str],
    pub ctors: &'static [&'static str],
    pub lazy:  bool,
    pub clear: bool,
}

pub trait RcObj: Sized + 'static {
    const SPEC: RSpec;
    type H: Clone;
    type W: Clone;
    fn make(ctor: usize) -> Self::H;
    fn addr(h: &Self::H) -> usize;
    fn strong(h: &Self::H) -> usize;
    fn myself(h: &Self::H) -> Option<Self::H>;
    fn weak(h: &Self::H) -> Self::W;
    fn up(w: &Self::W) -> Option<Self::H>;
    fn lazy(_: &Self::H) -> u64 {
        unreachable!()
    }
    fn clear(_: &Self::H) {
        unreachable!()
    }
}

/// Reports of code inside of the structs under test
#[derive(Clone, Debug)]
pub enum Inside {
    /// Lazy builder: own address, that of its reference to itself, that of its weak reference
    Build(usize, usize, usize),
    /// post_build: address of the weak reference to itself
    Post(usize),
}

thread_local! {
    static LOG: RefCell<Vec<Inside>> = const { RefCell::new(vec![]) };
}

pub fn inside(i: Inside) {
    let _ = LOG.try_with(|l| l.borrow_mut().push(i));
}

/// Id of the value that lives with an object
pub const BODY: u64 = 49;
pub const LAZY: u64 = 50;

#[derive(Clone, Copy, Debug, PartialEq)]
enum Step {
    Clone,
    Drop,
    Myself,
    Downgrade,
    Upgrade,
    DropWeak,
    Lazy,
    Clear,
}

struct One<T: RcObj> {
    addr:   usize,
    strong: Vec<T::H>,
    weak:   Vec<T::W>,
    set:    bool,
}

type Bad = (Class, String);

fn bad<T>(m: String) -> Result<T, Bad> {
    Err((Class::Other, m))
}

fn run_<T: RcObj>(spec: &RSpec, depth: usize, seen: &mut dyn FnMut(u64), want: bool, out: &mut RunOut, tr: &mut String) -> Result<(), Bad> {
    LOG.with(|l| l.borrow_mut().clear());
    let crash = |p: Result<u64, String>| (Class::Crash, format!("unexpected panic: {}", p.err().unwrap_or_default()));
    let take = || LOG.with(|l| std::mem::take(&mut *l.borrow_mut()));
    let mut objs: Vec<One<T>> = vec![];
    let first = choose(spec.ctors.len());
    for i in 0..2 {
        let c = (first + i) % spec.ctors.len();
        let h = guarded(|| T::make(c)).map_err(crash)?;
        let addr = T::addr(&h);
        if want {
            let _ = writeln!(tr, "object {i} by {}", spec.ctors[c]);
        }
        let log = take();
        for l in &log {
            match l {
                Inside::Post(a) if *a != addr => return bad(format!("{}: post_build saw a weak reference to something else", spec.ctors[c])),
                Inside::Build(..) => return bad("a lazy builder ran during construction".into()),
                _ => (),
            }
        }
        objs.push(One {
            addr,
            strong: vec![h],
            weak: vec![],
            set: false,
        });
    }
    if objs[0].addr == objs[1].addr {
        return bad("two objects are the same".into());
    }
    for d in 0..=depth {
        // consistency
        let mut live = vec![];
        for (i, o) in objs.iter().enumerate() {
            if !o.strong.is_empty() {
                for h in &o.strong {
                    if T::addr(h) != o.addr {
                        return bad(format!("a reference to object {i} leads elsewhere"));
                    }
                }
                let n = T::strong(&o.strong[0]);
                if n != o.strong.len() {
                    return bad(format!("object {i} has {n} strong references, {} are held", o.strong.len()));
                }
            }
        }
        let alive = objs.iter().filter(|o| !o.strong.is_empty()).count() as i32;
        if alive > 0 {
            live.push((BODY, alive));
        }
        let set = objs.iter().filter(|o| o.set && !o.strong.is_empty()).count() as i32;
        if set > 0 {
            live.push((LAZY, set));
        }
        if let Some(m) = live_diff(live) {
            return Err((Class::Live, m));
        }
        seen(hash(
            &objs.iter().map(|o| (o.strong.len(), o.weak.len(), o.set)).collect::<Vec<_>>(),
        ));
        if d == depth {
            break;
        }
        let mut steps: Vec<(usize, Step)> = vec![];
        for (i, o) in objs.iter().enumerate() {
            if !o.strong.is_empty() {
                if o.strong.len() < 3 {
                    steps.extend([(i, Step::Clone), (i, Step::Myself)]);
                }
                steps.push((i, Step::Drop));
                if o.weak.len() < 2 {
                    steps.push((i, Step::Downgrade));
                }
                if spec.lazy {
                    steps.push((i, Step::Lazy));
                }
                if spec.clear && o.set {
                    steps.push((i, Step::Clear));
                }
            }
            if !o.weak.is_empty() {
                steps.extend([(i, Step::Upgrade), (i, Step::DropWeak)]);
            }
        }
        if steps.is_empty() {
            break;
        }
        let (i, s) = steps[choose(steps.len())];
        tick();
        out.steps += 1;
        if want {
            let _ = writeln!(tr, "object {i}: {s:?}");
        }
        let o = &mut objs[i];
        match s {
            Step::Clone => {
                let h = o.strong[0].clone();
                o.strong.push(h);
            }
            Step::Drop => {
                let h = o.strong.remove(0);
                guarded(|| drop(h)).map_err(crash)?;
                if o.strong.is_empty() {
                    o.set = false;
                }
            }
            Step::Myself => match guarded(|| T::myself(&o.strong[0])).map_err(crash)? {
                None => return bad(format!("object {i} doesn't find itself")),
                Some(h) => o.strong.push(h),
            },
            Step::Downgrade => {
                let w = guarded(|| T::weak(&o.strong[0])).map_err(crash)?;
                o.weak.push(w);
            }
            Step::Upgrade => {
                let h = T::up(o.weak.last().unwrap());
                match (h, o.strong.is_empty()) {
                    (None, true) => (),
                    (Some(h), false) => {
                        if T::addr(&h) != o.addr {
                            return bad(format!("the weak reference of object {i} leads elsewhere"));
                        }
                        if o.strong.len() < 3 {
                            o.strong.push(h);
                        }
                    }
                    (None, false) => return bad(format!("the weak reference of object {i} yields nothing")),
                    (Some(_), true) => return bad(format!("the weak reference of object {i} yields an object after the last reference is gone")),
                }
            }
            Step::DropWeak => {
                o.weak.remove(0);
            }
            Step::Lazy => {
                let v = guarded(|| T::lazy(&o.strong[0])).map_err(crash)?;
                if v != LAZY {
                    return Err((Class::Result, format!("the lazy field has {v}")));
                }
            }
            Step::Clear => {
                guarded(|| T::clear(&o.strong[0])).map_err(crash)?;
                o.set = false;
            }
        }
        let mut builds = 0;
        for l in take() {
            match l {
                Inside::Build(me, strong, weak) => {
                    builds += 1;
                    if me != o.addr || strong != o.addr || weak != o.addr {
                        return bad(format!("in the lazy builder, object {i} knows itself under another address"));
                    }
                }
                Inside::Post(_) => return bad("post_build after construction".into()),
            }
        }
        if builds != (s == Step::Lazy && !o.set) as i32 {
            return Err((Class::Builder, format!("{builds} runs of the lazy builder")));
        }
        if s == Step::Lazy {
            o.set = true;
        }
    }
    for mut o in objs {
        while let Some(h) = o.strong.pop() {
            guarded(|| drop(h)).map_err(crash)?;
        }
        for w in &o.weak {
            if T::up(w).is_some() {
                return bad("a weak reference keeps an object alive".into());
            }
        }
    }
    if let Some(m) = ctx(|c| c.broken.take()) {
        return Err((Class::Live, m));
    }
    match live_diff(vec![]) {
        Some(m) => Err((Class::Live, format!("after the last reference is gone: {m}"))),
        None => Ok(()),
    }
}

fn run<T: RcObj>(spec: &RSpec, o: &Opts, depth: usize, seen: &mut dyn FnMut(u64), want: bool) -> RunOut {
    let mut out = RunOut::default();
    let mut tr = String::new();
    if let Err((class, msg)) = run_::<T>(spec, depth, seen, want, &mut out, &mut tr) {
        if o.classes.contains(&class) {
            out.viol = Some(Viol {
                class,
                msg: format!("{}: {}", spec.name, msg),
                trace: tr.clone(),
            });
        }
        else {
            out.abandoned = true;
        }
    }
    out.trace = tr;
    out
}

pub fn subject<T: RcObj>() -> Subject {
    Subject {
        name:  T::SPEC.name.to_string(),
        src:   T::SPEC.src,
        tags:  T::SPEC.tags.to_vec(),
        run:   Box::new(|o, d, seen, want| run::<T>(&T::SPEC, o, d, seen, want)),
        fan:   Box::new(|_| {
            let c = T::SPEC.ctors.len() as u64;
            (c, 7 + 2 * T::SPEC.lazy as u64)
        }),
        depth: None,
    }
}
