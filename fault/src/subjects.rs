// written by gen.py
use crate::*;
use fieldx::fxstruct;
#[allow(unused_imports)]
use serde::{Deserialize, Serialize};
#[allow(unused_imports)]
use std::{rc::Rc, sync::Arc};

fn now<F: std::future::Future>(f: F) -> F::Output {
    let mut f = Box::pin(f);
    match f.as_mut().poll(&mut std::task::Context::from_waker(std::task::Waker::noop())) {
        std::task::Poll::Ready(v) => v,
        _ => hung(),
    }
}

pub mod m0 {
    use super::*;
    #[fxstruct(builder(into))]
    #[derive(Clone, Debug, PartialEq)]
    pub struct S { #[fieldx(lazy, get, get_mut, set, clearer, predicate)] f: W }
    impl S {
    fn build_f(&self) -> W { built() }
    }
    pub struct Two(S, S);
    impl Subject for Two {
        #[allow(unused_mut, unused_variables)]
        fn step(&mut self, op: Op, n: u32) -> Out {
            let Two(s, o) = self;
            match op {
                Get => { let v = s.f(); fault(); Old(Some(v.id())) }
                Mut => { let g = s.f_mut(); fault(); let w = W::new(n, 0); *g = w; fault(); Unit }
                Set => { keep(s.set_f(W::new(n, 0))) }
                Clear => { keep(s.clear_f()) }
                Has => { B(s.has_f()) }
                Clone => { let c = s.clone(); *o = c; Unit }
                Eq => { B(*s == *o) }
                Debug => { let mut t = String::new(); let r = std::fmt::Write::write_fmt(&mut t, format_args!("{:?}", s)); B(r.is_ok()) }
                New => { let c: S = S::new(); *o = c; Unit }
                Build => { let c: S = S::builder().f(Raw(n)).build().unwrap(); *o = c; Unit }
                Bare => { match S::builder().build() { Ok(c) => { let c: S = c; *o = c; B(true) } Err(_) => B(false) } }
                Swap => { std::mem::swap(s, o); Unit }
                _ => unreachable!(),
            }
        }
    }
    pub fn case() -> Case {
        Case { name: "0", text: r#"#[fxstruct(builder(into))] struct S { #[fieldx(lazy, get, get_mut, set, clearer, predicate)] f: W }"#, kind: Kind::Lazy, given: false, required: false, empty_ok: true, ops: vec![Get, Mut, Set, Clear, Has, Clone, Eq, Debug, New, Build, Bare, Swap], make: || Box::new(Two(S::new(), S::new())) }
    }
}
pub mod m1 {
    use super::*;
    #[fxstruct(builder(into))]
    #[derive(Clone, Debug, PartialEq)]
    pub struct S { #[fieldx(lazy, get(clone), set(into), clearer, predicate)] f: W }
    impl S {
    fn build_f(&self) -> W { built() }
    }
    pub struct Two(S, S);
    impl Subject for Two {
        #[allow(unused_mut, unused_variables)]
        fn step(&mut self, op: Op, n: u32) -> Out {
            let Two(s, o) = self;
            match op {
                Get => { let v = s.f(); keep(Some(v)) }
                Set => { keep(s.set_f(Raw(n))) }
                Clear => { keep(s.clear_f()) }
                Has => { B(s.has_f()) }
                Clone => { let c = s.clone(); *o = c; Unit }
                Eq => { B(*s == *o) }
                Debug => { let mut t = String::new(); let r = std::fmt::Write::write_fmt(&mut t, format_args!("{:?}", s)); B(r.is_ok()) }
                New => { let c: S = S::new(); *o = c; Unit }
                Build => { let c: S = S::builder().f(Raw(n)).build().unwrap(); *o = c; Unit }
                Bare => { match S::builder().build() { Ok(c) => { let c: S = c; *o = c; B(true) } Err(_) => B(false) } }
                Swap => { std::mem::swap(s, o); Unit }
                _ => unreachable!(),
            }
        }
    }
    pub fn case() -> Case {
        Case { name: "1", text: r#"#[fxstruct(builder(into))] struct S { #[fieldx(lazy, get(clone), set(into), clearer, predicate)] f: W }"#, kind: Kind::Lazy, given: false, required: false, empty_ok: true, ops: vec![Get, Set, Clear, Has, Clone, Eq, Debug, New, Build, Bare, Swap], make: || Box::new(Two(S::new(), S::new())) }
    }
}
pub mod m2 {
    use super::*;
    #[fxstruct(builder(into))]
    #[derive(Clone, Debug, PartialEq)]
    pub struct S { #[fieldx(optional, get, get_mut, set, clearer, predicate)] f: W }
    impl S {
    }
    pub struct Two(S, S);
    impl Subject for Two {
        #[allow(unused_mut, unused_variables)]
        fn step(&mut self, op: Op, n: u32) -> Out {
            let Two(s, o) = self;
            match op {
                Get => { let v = s.f(); id(v.as_ref()) }
                Mut => { let g = s.f_mut(); fault(); let w = Some(W::new(n, 0)); *g = w; fault(); Unit }
                Set => { keep(s.set_f(W::new(n, 0))) }
                Clear => { keep(s.clear_f()) }
                Has => { B(s.has_f()) }
                Clone => { let c = s.clone(); *o = c; Unit }
                Eq => { B(*s == *o) }
                Debug => { let mut t = String::new(); let r = std::fmt::Write::write_fmt(&mut t, format_args!("{:?}", s)); B(r.is_ok()) }
                New => { let c: S = S::new(); *o = c; Unit }
                Build => { let c: S = S::builder().f(Raw(n)).build().unwrap(); *o = c; Unit }
                Bare => { match S::builder().build() { Ok(c) => { let c: S = c; *o = c; B(true) } Err(_) => B(false) } }
                Swap => { std::mem::swap(s, o); Unit }
                _ => unreachable!(),
            }
        }
    }
    pub fn case() -> Case {
        Case { name: "2", text: r#"#[fxstruct(builder(into))] struct S { #[fieldx(optional, get, get_mut, set, clearer, predicate)] f: W }"#, kind: Kind::Opt, given: false, required: false, empty_ok: true, ops: vec![Get, Mut, Set, Clear, Has, Clone, Eq, Debug, New, Build, Bare, Swap], make: || Box::new(Two(S::new(), S::new())) }
    }
}
pub mod m3 {
    use super::*;
    #[fxstruct(builder(into))]
    #[derive(Clone, Debug, PartialEq)]
    pub struct S { #[fieldx(optional, get(clone), set(into), clearer, predicate)] f: W }
    impl S {
    }
    pub struct Two(S, S);
    impl Subject for Two {
        #[allow(unused_mut, unused_variables)]
        fn step(&mut self, op: Op, n: u32) -> Out {
            let Two(s, o) = self;
            match op {
                Get => { let v = s.f(); keep(v) }
                Set => { keep(s.set_f(Raw(n))) }
                Clear => { keep(s.clear_f()) }
                Has => { B(s.has_f()) }
                Clone => { let c = s.clone(); *o = c; Unit }
                Eq => { B(*s == *o) }
                Debug => { let mut t = String::new(); let r = std::fmt::Write::write_fmt(&mut t, format_args!("{:?}", s)); B(r.is_ok()) }
                New => { let c: S = S::new(); *o = c; Unit }
                Build => { let c: S = S::builder().f(Raw(n)).build().unwrap(); *o = c; Unit }
                Bare => { match S::builder().build() { Ok(c) => { let c: S = c; *o = c; B(true) } Err(_) => B(false) } }
                Swap => { std::mem::swap(s, o); Unit }
                _ => unreachable!(),
            }
        }
    }
    pub fn case() -> Case {
        Case { name: "3", text: r#"#[fxstruct(builder(into))] struct S { #[fieldx(optional, get(clone), set(into), clearer, predicate)] f: W }"#, kind: Kind::Opt, given: false, required: false, empty_ok: true, ops: vec![Get, Set, Clear, Has, Clone, Eq, Debug, New, Build, Bare, Swap], make: || Box::new(Two(S::new(), S::new())) }
    }
}
pub mod m4 {
    use super::*;
    #[fxstruct(builder(into))]
    #[derive(Clone, Debug, PartialEq)]
    pub struct S { #[fieldx(get, get_mut, set)] f: W }
    impl S {
    }
    pub struct Two(S, S);
    impl Subject for Two {
        #[allow(unused_mut, unused_variables)]
        fn step(&mut self, op: Op, n: u32) -> Out {
            let Two(s, o) = self;
            match op {
                Get => { let v = s.f(); fault(); Old(Some(v.id())) }
                Mut => { let g = s.f_mut(); fault(); let w = W::new(n, 0); *g = w; fault(); Unit }
                Set => { keep(Some(s.set_f(W::new(n, 0)))) }
                Clone => { let c = s.clone(); *o = c; Unit }
                Eq => { B(*s == *o) }
                Debug => { let mut t = String::new(); let r = std::fmt::Write::write_fmt(&mut t, format_args!("{:?}", s)); B(r.is_ok()) }
                New => { let c: S = S::new(); *o = c; Unit }
                Build => { let c: S = S::builder().f(Raw(n)).build().unwrap(); *o = c; Unit }
                Bare => { match S::builder().build() { Ok(c) => { let c: S = c; *o = c; B(true) } Err(_) => B(false) } }
                Swap => { std::mem::swap(s, o); Unit }
                _ => unreachable!(),
            }
        }
    }
    pub fn case() -> Case {
        Case { name: "4", text: r#"#[fxstruct(builder(into))] struct S { #[fieldx(get, get_mut, set)] f: W }"#, kind: Kind::Val, given: false, required: true, empty_ok: false, ops: vec![Get, Mut, Set, Clone, Eq, Debug, New, Build, Bare, Swap], make: || Box::new(Two(S::new(), S::new())) }
    }
}
pub mod m5 {
    use super::*;
    #[fxstruct(builder(into))]
    #[derive(Clone, Debug, PartialEq)]
    pub struct S { #[fieldx(get(clone), set(into))] f: W }
    impl S {
    }
    pub struct Two(S, S);
    impl Subject for Two {
        #[allow(unused_mut, unused_variables)]
        fn step(&mut self, op: Op, n: u32) -> Out {
            let Two(s, o) = self;
            match op {
                Get => { let v = s.f(); keep(Some(v)) }
                Set => { keep(Some(s.set_f(Raw(n)))) }
                Clone => { let c = s.clone(); *o = c; Unit }
                Eq => { B(*s == *o) }
                Debug => { let mut t = String::new(); let r = std::fmt::Write::write_fmt(&mut t, format_args!("{:?}", s)); B(r.is_ok()) }
                New => { let c: S = S::new(); *o = c; Unit }
                Build => { let c: S = S::builder().f(Raw(n)).build().unwrap(); *o = c; Unit }
                Bare => { match S::builder().build() { Ok(c) => { let c: S = c; *o = c; B(true) } Err(_) => B(false) } }
                Swap => { std::mem::swap(s, o); Unit }
                _ => unreachable!(),
            }
        }
    }
    pub fn case() -> Case {
        Case { name: "5", text: r#"#[fxstruct(builder(into))] struct S { #[fieldx(get(clone), set(into))] f: W }"#, kind: Kind::Val, given: false, required: true, empty_ok: false, ops: vec![Get, Set, Clone, Eq, Debug, New, Build, Bare, Swap], make: || Box::new(Two(S::new(), S::new())) }
    }
}
pub mod m6 {
    use super::*;
    #[fxstruct(builder(into))]
    #[derive(Clone, Debug, PartialEq)]
    pub struct S { #[fieldx(inner_mut, get, get_mut, set)] f: W }
    impl S {
    }
    pub struct Two(S, S);
    impl Subject for Two {
        #[allow(unused_mut, unused_variables)]
        fn step(&mut self, op: Op, n: u32) -> Out {
            let Two(s, o) = self;
            match op {
                Get => { let v = s.f(); fault(); Old(Some(v.id())) }
                Mut => { let mut g = s.f_mut(); fault(); let w = W::new(n, 0); *g = w; fault(); Unit }
                Set => { keep(Some(s.set_f(W::new(n, 0)))) }
                Clone => { let c = s.clone(); *o = c; Unit }
                Eq => { B(*s == *o) }
                Debug => { let mut t = String::new(); let r = std::fmt::Write::write_fmt(&mut t, format_args!("{:?}", s)); B(r.is_ok()) }
                New => { let c: S = S::new(); *o = c; Unit }
                Build => { let c: S = S::builder().f(Raw(n)).build().unwrap(); *o = c; Unit }
                Bare => { match S::builder().build() { Ok(c) => { let c: S = c; *o = c; B(true) } Err(_) => B(false) } }
                Swap => { std::mem::swap(s, o); Unit }
                _ => unreachable!(),
            }
        }
    }
    pub fn case() -> Case {
        Case { name: "6", text: r#"#[fxstruct(builder(into))] struct S { #[fieldx(inner_mut, get, get_mut, set)] f: W }"#, kind: Kind::Val, given: false, required: true, empty_ok: false, ops: vec![Get, Mut, Set, Clone, Eq, Debug, New, Build, Bare, Swap], make: || Box::new(Two(S::new(), S::new())) }
    }
}
pub mod m7 {
    use super::*;
    #[fxstruct(builder(into))]
    #[derive(Clone, Debug, PartialEq)]
    pub struct S { #[fieldx(inner_mut, get(clone), set(into))] f: W }
    impl S {
    }
    pub struct Two(S, S);
    impl Subject for Two {
        #[allow(unused_mut, unused_variables)]
        fn step(&mut self, op: Op, n: u32) -> Out {
            let Two(s, o) = self;
            match op {
                Get => { let v = s.f(); keep(Some(v)) }
                Set => { keep(Some(s.set_f(Raw(n)))) }
                Clone => { let c = s.clone(); *o = c; Unit }
                Eq => { B(*s == *o) }
                Debug => { let mut t = String::new(); let r = std::fmt::Write::write_fmt(&mut t, format_args!("{:?}", s)); B(r.is_ok()) }
                New => { let c: S = S::new(); *o = c; Unit }
                Build => { let c: S = S::builder().f(Raw(n)).build().unwrap(); *o = c; Unit }
                Bare => { match S::builder().build() { Ok(c) => { let c: S = c; *o = c; B(true) } Err(_) => B(false) } }
                Swap => { std::mem::swap(s, o); Unit }
                _ => unreachable!(),
            }
        }
    }
    pub fn case() -> Case {
        Case { name: "7", text: r#"#[fxstruct(builder(into))] struct S { #[fieldx(inner_mut, get(clone), set(into))] f: W }"#, kind: Kind::Val, given: false, required: true, empty_ok: false, ops: vec![Get, Set, Clone, Eq, Debug, New, Build, Bare, Swap], make: || Box::new(Two(S::new(), S::new())) }
    }
}
pub mod m8 {
    use super::*;
    #[fxstruct(builder(into))]
    #[derive(Clone, Debug, PartialEq)]
    pub struct S { #[fieldx(optional, inner_mut, get, get_mut, set, clearer, predicate)] f: W }
    impl S {
    }
    pub struct Two(S, S);
    impl Subject for Two {
        #[allow(unused_mut, unused_variables)]
        fn step(&mut self, op: Op, n: u32) -> Out {
            let Two(s, o) = self;
            match op {
                Get => { let v = s.f(); id((*v).as_ref()) }
                Mut => { let mut g = s.f_mut(); fault(); let w = Some(W::new(n, 0)); *g = w; fault(); Unit }
                Set => { keep(s.set_f(W::new(n, 0))) }
                Clear => { keep(s.clear_f()) }
                Has => { B(s.has_f()) }
                Clone => { let c = s.clone(); *o = c; Unit }
                Eq => { B(*s == *o) }
                Debug => { let mut t = String::new(); let r = std::fmt::Write::write_fmt(&mut t, format_args!("{:?}", s)); B(r.is_ok()) }
                New => { let c: S = S::new(); *o = c; Unit }
                Build => { let c: S = S::builder().f(Raw(n)).build().unwrap(); *o = c; Unit }
                Bare => { match S::builder().build() { Ok(c) => { let c: S = c; *o = c; B(true) } Err(_) => B(false) } }
                Swap => { std::mem::swap(s, o); Unit }
                _ => unreachable!(),
            }
        }
    }
    pub fn case() -> Case {
        Case { name: "8", text: r#"#[fxstruct(builder(into))] struct S { #[fieldx(optional, inner_mut, get, get_mut, set, clearer, predicate)] f: W }"#, kind: Kind::Opt, given: false, required: false, empty_ok: true, ops: vec![Get, Mut, Set, Clear, Has, Clone, Eq, Debug, New, Build, Bare, Swap], make: || Box::new(Two(S::new(), S::new())) }
    }
}
pub mod m9 {
    use super::*;
    #[fxstruct(builder(into))]
    #[derive(Clone, Debug, PartialEq)]
    pub struct S { #[fieldx(lazy, get, get_mut, set, clearer, predicate, default(five()))] f: W }
    impl S {
    fn build_f(&self) -> W { built() }
    }
    pub struct Two(S, S);
    impl Subject for Two {
        #[allow(unused_mut, unused_variables)]
        fn step(&mut self, op: Op, n: u32) -> Out {
            let Two(s, o) = self;
            match op {
                Get => { let v = s.f(); fault(); Old(Some(v.id())) }
                Mut => { let g = s.f_mut(); fault(); let w = W::new(n, 0); *g = w; fault(); Unit }
                Set => { keep(s.set_f(W::new(n, 0))) }
                Clear => { keep(s.clear_f()) }
                Has => { B(s.has_f()) }
                Clone => { let c = s.clone(); *o = c; Unit }
                Eq => { B(*s == *o) }
                Debug => { let mut t = String::new(); let r = std::fmt::Write::write_fmt(&mut t, format_args!("{:?}", s)); B(r.is_ok()) }
                New => { let c: S = S::new(); *o = c; Unit }
                Build => { let c: S = S::builder().f(Raw(n)).build().unwrap(); *o = c; Unit }
                Bare => { match S::builder().build() { Ok(c) => { let c: S = c; *o = c; B(true) } Err(_) => B(false) } }
                Swap => { std::mem::swap(s, o); Unit }
                _ => unreachable!(),
            }
        }
    }
    pub fn case() -> Case {
        Case { name: "9", text: r#"#[fxstruct(builder(into))] struct S { #[fieldx(lazy, get, get_mut, set, clearer, predicate, default(five()))] f: W }"#, kind: Kind::Lazy, given: true, required: false, empty_ok: true, ops: vec![Get, Mut, Set, Clear, Has, Clone, Eq, Debug, New, Build, Bare, Swap], make: || Box::new(Two(S::new(), S::new())) }
    }
}
pub mod m10 {
    use super::*;
    #[fxstruct(builder(into))]
    #[derive(Clone, Debug, PartialEq)]
    pub struct S { #[fieldx(lazy, get(clone), set(into), clearer, predicate, default(five()))] f: W }
    impl S {
    fn build_f(&self) -> W { built() }
    }
    pub struct Two(S, S);
    impl Subject for Two {
        #[allow(unused_mut, unused_variables)]
        fn step(&mut self, op: Op, n: u32) -> Out {
            let Two(s, o) = self;
            match op {
                Get => { let v = s.f(); keep(Some(v)) }
                Set => { keep(s.set_f(Raw(n))) }
                Clear => { keep(s.clear_f()) }
                Has => { B(s.has_f()) }
                Clone => { let c = s.clone(); *o = c; Unit }
                Eq => { B(*s == *o) }
                Debug => { let mut t = String::new(); let r = std::fmt::Write::write_fmt(&mut t, format_args!("{:?}", s)); B(r.is_ok()) }
                New => { let c: S = S::new(); *o = c; Unit }
                Build => { let c: S = S::builder().f(Raw(n)).build().unwrap(); *o = c; Unit }
                Bare => { match S::builder().build() { Ok(c) => { let c: S = c; *o = c; B(true) } Err(_) => B(false) } }
                Swap => { std::mem::swap(s, o); Unit }
                _ => unreachable!(),
            }
        }
    }
    pub fn case() -> Case {
        Case { name: "10", text: r#"#[fxstruct(builder(into))] struct S { #[fieldx(lazy, get(clone), set(into), clearer, predicate, default(five()))] f: W }"#, kind: Kind::Lazy, given: true, required: false, empty_ok: true, ops: vec![Get, Set, Clear, Has, Clone, Eq, Debug, New, Build, Bare, Swap], make: || Box::new(Two(S::new(), S::new())) }
    }
}
pub mod m11 {
    use super::*;
    #[fxstruct(builder(into))]
    #[derive(Clone, Debug, PartialEq)]
    pub struct S { #[fieldx(optional, get, get_mut, set, clearer, predicate, default(five()))] f: W }
    impl S {
    }
    pub struct Two(S, S);
    impl Subject for Two {
        #[allow(unused_mut, unused_variables)]
        fn step(&mut self, op: Op, n: u32) -> Out {
            let Two(s, o) = self;
            match op {
                Get => { let v = s.f(); id(v.as_ref()) }
                Mut => { let g = s.f_mut(); fault(); let w = Some(W::new(n, 0)); *g = w; fault(); Unit }
                Set => { keep(s.set_f(W::new(n, 0))) }
                Clear => { keep(s.clear_f()) }
                Has => { B(s.has_f()) }
                Clone => { let c = s.clone(); *o = c; Unit }
                Eq => { B(*s == *o) }
                Debug => { let mut t = String::new(); let r = std::fmt::Write::write_fmt(&mut t, format_args!("{:?}", s)); B(r.is_ok()) }
                New => { let c: S = S::new(); *o = c; Unit }
                Build => { let c: S = S::builder().f(Raw(n)).build().unwrap(); *o = c; Unit }
                Bare => { match S::builder().build() { Ok(c) => { let c: S = c; *o = c; B(true) } Err(_) => B(false) } }
                Swap => { std::mem::swap(s, o); Unit }
                _ => unreachable!(),
            }
        }
    }
    pub fn case() -> Case {
        Case { name: "11", text: r#"#[fxstruct(builder(into))] struct S { #[fieldx(optional, get, get_mut, set, clearer, predicate, default(five()))] f: W }"#, kind: Kind::Opt, given: true, required: false, empty_ok: true, ops: vec![Get, Mut, Set, Clear, Has, Clone, Eq, Debug, New, Build, Bare, Swap], make: || Box::new(Two(S::new(), S::new())) }
    }
}
pub mod m12 {
    use super::*;
    #[fxstruct(builder(into))]
    #[derive(Clone, Debug, PartialEq)]
    pub struct S { #[fieldx(optional, get(clone), set(into), clearer, predicate, default(five()))] f: W }
    impl S {
    }
    pub struct Two(S, S);
    impl Subject for Two {
        #[allow(unused_mut, unused_variables)]
        fn step(&mut self, op: Op, n: u32) -> Out {
            let Two(s, o) = self;
            match op {
                Get => { let v = s.f(); keep(v) }
                Set => { keep(s.set_f(Raw(n))) }
                Clear => { keep(s.clear_f()) }
                Has => { B(s.has_f()) }
                Clone => { let c = s.clone(); *o = c; Unit }
                Eq => { B(*s == *o) }
                Debug => { let mut t = String::new(); let r = std::fmt::Write::write_fmt(&mut t, format_args!("{:?}", s)); B(r.is_ok()) }
                New => { let c: S = S::new(); *o = c; Unit }
                Build => { let c: S = S::builder().f(Raw(n)).build().unwrap(); *o = c; Unit }
                Bare => { match S::builder().build() { Ok(c) => { let c: S = c; *o = c; B(true) } Err(_) => B(false) } }
                Swap => { std::mem::swap(s, o); Unit }
                _ => unreachable!(),
            }
        }
    }
    pub fn case() -> Case {
        Case { name: "12", text: r#"#[fxstruct(builder(into))] struct S { #[fieldx(optional, get(clone), set(into), clearer, predicate, default(five()))] f: W }"#, kind: Kind::Opt, given: true, required: false, empty_ok: true, ops: vec![Get, Set, Clear, Has, Clone, Eq, Debug, New, Build, Bare, Swap], make: || Box::new(Two(S::new(), S::new())) }
    }
}
pub mod m13 {
    use super::*;
    #[fxstruct(builder(into))]
    #[derive(Clone, Debug, PartialEq)]
    pub struct S { #[fieldx(get, get_mut, set, default(five()))] f: W }
    impl S {
    }
    pub struct Two(S, S);
    impl Subject for Two {
        #[allow(unused_mut, unused_variables)]
        fn step(&mut self, op: Op, n: u32) -> Out {
            let Two(s, o) = self;
            match op {
                Get => { let v = s.f(); fault(); Old(Some(v.id())) }
                Mut => { let g = s.f_mut(); fault(); let w = W::new(n, 0); *g = w; fault(); Unit }
                Set => { keep(Some(s.set_f(W::new(n, 0)))) }
                Clone => { let c = s.clone(); *o = c; Unit }
                Eq => { B(*s == *o) }
                Debug => { let mut t = String::new(); let r = std::fmt::Write::write_fmt(&mut t, format_args!("{:?}", s)); B(r.is_ok()) }
                New => { let c: S = S::new(); *o = c; Unit }
                Build => { let c: S = S::builder().f(Raw(n)).build().unwrap(); *o = c; Unit }
                Bare => { match S::builder().build() { Ok(c) => { let c: S = c; *o = c; B(true) } Err(_) => B(false) } }
                Swap => { std::mem::swap(s, o); Unit }
                _ => unreachable!(),
            }
        }
    }
    pub fn case() -> Case {
        Case { name: "13", text: r#"#[fxstruct(builder(into))] struct S { #[fieldx(get, get_mut, set, default(five()))] f: W }"#, kind: Kind::Val, given: true, required: false, empty_ok: false, ops: vec![Get, Mut, Set, Clone, Eq, Debug, New, Build, Bare, Swap], make: || Box::new(Two(S::new(), S::new())) }
    }
}
pub mod m14 {
    use super::*;
    #[fxstruct(builder(into))]
    #[derive(Clone, Debug, PartialEq)]
    pub struct S { #[fieldx(get(clone), set(into), default(five()))] f: W }
    impl S {
    }
    pub struct Two(S, S);
    impl Subject for Two {
        #[allow(unused_mut, unused_variables)]
        fn step(&mut self, op: Op, n: u32) -> Out {
            let Two(s, o) = self;
            match op {
                Get => { let v = s.f(); keep(Some(v)) }
                Set => { keep(Some(s.set_f(Raw(n)))) }
                Clone => { let c = s.clone(); *o = c; Unit }
                Eq => { B(*s == *o) }
                Debug => { let mut t = String::new(); let r = std::fmt::Write::write_fmt(&mut t, format_args!("{:?}", s)); B(r.is_ok()) }
                New => { let c: S = S::new(); *o = c; Unit }
                Build => { let c: S = S::builder().f(Raw(n)).build().unwrap(); *o = c; Unit }
                Bare => { match S::builder().build() { Ok(c) => { let c: S = c; *o = c; B(true) } Err(_) => B(false) } }
                Swap => { std::mem::swap(s, o); Unit }
                _ => unreachable!(),
            }
        }
    }
    pub fn case() -> Case {
        Case { name: "14", text: r#"#[fxstruct(builder(into))] struct S { #[fieldx(get(clone), set(into), default(five()))] f: W }"#, kind: Kind::Val, given: true, required: false, empty_ok: false, ops: vec![Get, Set, Clone, Eq, Debug, New, Build, Bare, Swap], make: || Box::new(Two(S::new(), S::new())) }
    }
}
pub mod m15 {
    use super::*;
    #[fxstruct(builder(into))]
    #[derive(Clone, Debug, PartialEq)]
    pub struct S { #[fieldx(inner_mut, get, get_mut, set, default(five()))] f: W }
    impl S {
    }
    pub struct Two(S, S);
    impl Subject for Two {
        #[allow(unused_mut, unused_variables)]
        fn step(&mut self, op: Op, n: u32) -> Out {
            let Two(s, o) = self;
            match op {
                Get => { let v = s.f(); fault(); Old(Some(v.id())) }
                Mut => { let mut g = s.f_mut(); fault(); let w = W::new(n, 0); *g = w; fault(); Unit }
                Set => { keep(Some(s.set_f(W::new(n, 0)))) }
                Clone => { let c = s.clone(); *o = c; Unit }
                Eq => { B(*s == *o) }
                Debug => { let mut t = String::new(); let r = std::fmt::Write::write_fmt(&mut t, format_args!("{:?}", s)); B(r.is_ok()) }
                New => { let c: S = S::new(); *o = c; Unit }
                Build => { let c: S = S::builder().f(Raw(n)).build().unwrap(); *o = c; Unit }
                Bare => { match S::builder().build() { Ok(c) => { let c: S = c; *o = c; B(true) } Err(_) => B(false) } }
                Swap => { std::mem::swap(s, o); Unit }
                _ => unreachable!(),
            }
        }
    }
    pub fn case() -> Case {
        Case { name: "15", text: r#"#[fxstruct(builder(into))] struct S { #[fieldx(inner_mut, get, get_mut, set, default(five()))] f: W }"#, kind: Kind::Val, given: true, required: false, empty_ok: false, ops: vec![Get, Mut, Set, Clone, Eq, Debug, New, Build, Bare, Swap], make: || Box::new(Two(S::new(), S::new())) }
    }
}
pub mod m16 {
    use super::*;
    #[fxstruct(builder(into))]
    #[derive(Clone, Debug, PartialEq)]
    pub struct S { #[fieldx(inner_mut, get(clone), set(into), default(five()))] f: W }
    impl S {
    }
    pub struct Two(S, S);
    impl Subject for Two {
        #[allow(unused_mut, unused_variables)]
        fn step(&mut self, op: Op, n: u32) -> Out {
            let Two(s, o) = self;
            match op {
                Get => { let v = s.f(); keep(Some(v)) }
                Set => { keep(Some(s.set_f(Raw(n)))) }
                Clone => { let c = s.clone(); *o = c; Unit }
                Eq => { B(*s == *o) }
                Debug => { let mut t = String::new(); let r = std::fmt::Write::write_fmt(&mut t, format_args!("{:?}", s)); B(r.is_ok()) }
                New => { let c: S = S::new(); *o = c; Unit }
                Build => { let c: S = S::builder().f(Raw(n)).build().unwrap(); *o = c; Unit }
                Bare => { match S::builder().build() { Ok(c) => { let c: S = c; *o = c; B(true) } Err(_) => B(false) } }
                Swap => { std::mem::swap(s, o); Unit }
                _ => unreachable!(),
            }
        }
    }
    pub fn case() -> Case {
        Case { name: "16", text: r#"#[fxstruct(builder(into))] struct S { #[fieldx(inner_mut, get(clone), set(into), default(five()))] f: W }"#, kind: Kind::Val, given: true, required: false, empty_ok: false, ops: vec![Get, Set, Clone, Eq, Debug, New, Build, Bare, Swap], make: || Box::new(Two(S::new(), S::new())) }
    }
}
pub mod m17 {
    use super::*;
    #[fxstruct(builder(into))]
    #[derive(Clone, Debug, PartialEq)]
    pub struct S { #[fieldx(optional, inner_mut, get, get_mut, set, clearer, predicate, default(five()))] f: W }
    impl S {
    }
    pub struct Two(S, S);
    impl Subject for Two {
        #[allow(unused_mut, unused_variables)]
        fn step(&mut self, op: Op, n: u32) -> Out {
            let Two(s, o) = self;
            match op {
                Get => { let v = s.f(); id((*v).as_ref()) }
                Mut => { let mut g = s.f_mut(); fault(); let w = Some(W::new(n, 0)); *g = w; fault(); Unit }
                Set => { keep(s.set_f(W::new(n, 0))) }
                Clear => { keep(s.clear_f()) }
                Has => { B(s.has_f()) }
                Clone => { let c = s.clone(); *o = c; Unit }
                Eq => { B(*s == *o) }
                Debug => { let mut t = String::new(); let r = std::fmt::Write::write_fmt(&mut t, format_args!("{:?}", s)); B(r.is_ok()) }
                New => { let c: S = S::new(); *o = c; Unit }
                Build => { let c: S = S::builder().f(Raw(n)).build().unwrap(); *o = c; Unit }
                Bare => { match S::builder().build() { Ok(c) => { let c: S = c; *o = c; B(true) } Err(_) => B(false) } }
                Swap => { std::mem::swap(s, o); Unit }
                _ => unreachable!(),
            }
        }
    }
    pub fn case() -> Case {
        Case { name: "17", text: r#"#[fxstruct(builder(into))] struct S { #[fieldx(optional, inner_mut, get, get_mut, set, clearer, predicate, default(five()))] f: W }"#, kind: Kind::Opt, given: true, required: false, empty_ok: true, ops: vec![Get, Mut, Set, Clear, Has, Clone, Eq, Debug, New, Build, Bare, Swap], make: || Box::new(Two(S::new(), S::new())) }
    }
}
pub mod m18 {
    use super::*;
    #[fxstruct(builder(post_build))]
    #[derive(Clone, Debug, PartialEq)]
    pub struct S { #[fieldx(lazy, get, get_mut, set, clearer, predicate)] f: W }
    impl S {
    fn build_f(&self) -> W { built() }
    fn post_build(self) -> Self { fault(); self }
    }
    pub struct Two(S, S);
    impl Subject for Two {
        #[allow(unused_mut, unused_variables)]
        fn step(&mut self, op: Op, n: u32) -> Out {
            let Two(s, o) = self;
            match op {
                Get => { let v = s.f(); fault(); Old(Some(v.id())) }
                Mut => { let g = s.f_mut(); fault(); let w = W::new(n, 0); *g = w; fault(); Unit }
                Set => { keep(s.set_f(W::new(n, 0))) }
                Clear => { keep(s.clear_f()) }
                Has => { B(s.has_f()) }
                Clone => { let c = s.clone(); *o = c; Unit }
                Eq => { B(*s == *o) }
                Debug => { let mut t = String::new(); let r = std::fmt::Write::write_fmt(&mut t, format_args!("{:?}", s)); B(r.is_ok()) }
                New => { let c: S = S::new(); *o = c; Unit }
                Build => { let c: S = S::builder().f(W::new(n, 0)).build().unwrap(); *o = c; Unit }
                Bare => { match S::builder().build() { Ok(c) => { let c: S = c; *o = c; B(true) } Err(_) => B(false) } }
                Swap => { std::mem::swap(s, o); Unit }
                _ => unreachable!(),
            }
        }
    }
    pub fn case() -> Case {
        Case { name: "18", text: r#"#[fxstruct(builder(post_build))] struct S { #[fieldx(lazy, get, get_mut, set, clearer, predicate)] f: W }"#, kind: Kind::Lazy, given: false, required: false, empty_ok: true, ops: vec![Get, Mut, Set, Clear, Has, Clone, Eq, Debug, New, Build, Bare, Swap], make: || Box::new(Two(S::new(), S::new())) }
    }
}
pub mod m19 {
    use super::*;
    #[fxstruct(builder(post_build))]
    #[derive(Clone, Debug, PartialEq)]
    pub struct S { #[fieldx(lazy, get(clone), set(into), clearer, predicate)] f: W }
    impl S {
    fn build_f(&self) -> W { built() }
    fn post_build(self) -> Self { fault(); self }
    }
    pub struct Two(S, S);
    impl Subject for Two {
        #[allow(unused_mut, unused_variables)]
        fn step(&mut self, op: Op, n: u32) -> Out {
            let Two(s, o) = self;
            match op {
                Get => { let v = s.f(); keep(Some(v)) }
                Set => { keep(s.set_f(Raw(n))) }
                Clear => { keep(s.clear_f()) }
                Has => { B(s.has_f()) }
                Clone => { let c = s.clone(); *o = c; Unit }
                Eq => { B(*s == *o) }
                Debug => { let mut t = String::new(); let r = std::fmt::Write::write_fmt(&mut t, format_args!("{:?}", s)); B(r.is_ok()) }
                New => { let c: S = S::new(); *o = c; Unit }
                Build => { let c: S = S::builder().f(W::new(n, 0)).build().unwrap(); *o = c; Unit }
                Bare => { match S::builder().build() { Ok(c) => { let c: S = c; *o = c; B(true) } Err(_) => B(false) } }
                Swap => { std::mem::swap(s, o); Unit }
                _ => unreachable!(),
            }
        }
    }
    pub fn case() -> Case {
        Case { name: "19", text: r#"#[fxstruct(builder(post_build))] struct S { #[fieldx(lazy, get(clone), set(into), clearer, predicate)] f: W }"#, kind: Kind::Lazy, given: false, required: false, empty_ok: true, ops: vec![Get, Set, Clear, Has, Clone, Eq, Debug, New, Build, Bare, Swap], make: || Box::new(Two(S::new(), S::new())) }
    }
}
pub mod m20 {
    use super::*;
    #[fxstruct(builder(post_build))]
    #[derive(Clone, Debug, PartialEq)]
    pub struct S { #[fieldx(optional, get, get_mut, set, clearer, predicate)] f: W }
    impl S {
    fn post_build(self) -> Self { fault(); self }
    }
    pub struct Two(S, S);
    impl Subject for Two {
        #[allow(unused_mut, unused_variables)]
        fn step(&mut self, op: Op, n: u32) -> Out {
            let Two(s, o) = self;
            match op {
                Get => { let v = s.f(); id(v.as_ref()) }
                Mut => { let g = s.f_mut(); fault(); let w = Some(W::new(n, 0)); *g = w; fault(); Unit }
                Set => { keep(s.set_f(W::new(n, 0))) }
                Clear => { keep(s.clear_f()) }
                Has => { B(s.has_f()) }
                Clone => { let c = s.clone(); *o = c; Unit }
                Eq => { B(*s == *o) }
                Debug => { let mut t = String::new(); let r = std::fmt::Write::write_fmt(&mut t, format_args!("{:?}", s)); B(r.is_ok()) }
                New => { let c: S = S::new(); *o = c; Unit }
                Build => { let c: S = S::builder().f(W::new(n, 0)).build().unwrap(); *o = c; Unit }
                Bare => { match S::builder().build() { Ok(c) => { let c: S = c; *o = c; B(true) } Err(_) => B(false) } }
                Swap => { std::mem::swap(s, o); Unit }
                _ => unreachable!(),
            }
        }
    }
    pub fn case() -> Case {
        Case { name: "20", text: r#"#[fxstruct(builder(post_build))] struct S { #[fieldx(optional, get, get_mut, set, clearer, predicate)] f: W }"#, kind: Kind::Opt, given: false, required: false, empty_ok: true, ops: vec![Get, Mut, Set, Clear, Has, Clone, Eq, Debug, New, Build, Bare, Swap], make: || Box::new(Two(S::new(), S::new())) }
    }
}
pub mod m21 {
    use super::*;
    #[fxstruct(builder(post_build))]
    #[derive(Clone, Debug, PartialEq)]
    pub struct S { #[fieldx(optional, get(clone), set(into), clearer, predicate)] f: W }
    impl S {
    fn post_build(self) -> Self { fault(); self }
    }
    pub struct Two(S, S);
    impl Subject for Two {
        #[allow(unused_mut, unused_variables)]
        fn step(&mut self, op: Op, n: u32) -> Out {
            let Two(s, o) = self;
            match op {
                Get => { let v = s.f(); keep(v) }
                Set => { keep(s.set_f(Raw(n))) }
                Clear => { keep(s.clear_f()) }
                Has => { B(s.has_f()) }
                Clone => { let c = s.clone(); *o = c; Unit }
                Eq => { B(*s == *o) }
                Debug => { let mut t = String::new(); let r = std::fmt::Write::write_fmt(&mut t, format_args!("{:?}", s)); B(r.is_ok()) }
                New => { let c: S = S::new(); *o = c; Unit }
                Build => { let c: S = S::builder().f(W::new(n, 0)).build().unwrap(); *o = c; Unit }
                Bare => { match S::builder().build() { Ok(c) => { let c: S = c; *o = c; B(true) } Err(_) => B(false) } }
                Swap => { std::mem::swap(s, o); Unit }
                _ => unreachable!(),
            }
        }
    }
    pub fn case() -> Case {
        Case { name: "21", text: r#"#[fxstruct(builder(post_build))] struct S { #[fieldx(optional, get(clone), set(into), clearer, predicate)] f: W }"#, kind: Kind::Opt, given: false, required: false, empty_ok: true, ops: vec![Get, Set, Clear, Has, Clone, Eq, Debug, New, Build, Bare, Swap], make: || Box::new(Two(S::new(), S::new())) }
    }
}
pub mod m22 {
    use super::*;
    #[fxstruct(builder(post_build))]
    #[derive(Clone, Debug, PartialEq)]
    pub struct S { #[fieldx(get, get_mut, set)] f: W }
    impl S {
    fn post_build(self) -> Self { fault(); self }
    }
    pub struct Two(S, S);
    impl Subject for Two {
        #[allow(unused_mut, unused_variables)]
        fn step(&mut self, op: Op, n: u32) -> Out {
            let Two(s, o) = self;
            match op {
                Get => { let v = s.f(); fault(); Old(Some(v.id())) }
                Mut => { let g = s.f_mut(); fault(); let w = W::new(n, 0); *g = w; fault(); Unit }
                Set => { keep(Some(s.set_f(W::new(n, 0)))) }
                Clone => { let c = s.clone(); *o = c; Unit }
                Eq => { B(*s == *o) }
                Debug => { let mut t = String::new(); let r = std::fmt::Write::write_fmt(&mut t, format_args!("{:?}", s)); B(r.is_ok()) }
                New => { let c: S = S::new(); *o = c; Unit }
                Build => { let c: S = S::builder().f(W::new(n, 0)).build().unwrap(); *o = c; Unit }
                Bare => { match S::builder().build() { Ok(c) => { let c: S = c; *o = c; B(true) } Err(_) => B(false) } }
                Swap => { std::mem::swap(s, o); Unit }
                _ => unreachable!(),
            }
        }
    }
    pub fn case() -> Case {
        Case { name: "22", text: r#"#[fxstruct(builder(post_build))] struct S { #[fieldx(get, get_mut, set)] f: W }"#, kind: Kind::Val, given: false, required: true, empty_ok: false, ops: vec![Get, Mut, Set, Clone, Eq, Debug, New, Build, Bare, Swap], make: || Box::new(Two(S::new(), S::new())) }
    }
}
pub mod m23 {
    use super::*;
    #[fxstruct(builder(post_build))]
    #[derive(Clone, Debug, PartialEq)]
    pub struct S { #[fieldx(get(clone), set(into))] f: W }
    impl S {
    fn post_build(self) -> Self { fault(); self }
    }
    pub struct Two(S, S);
    impl Subject for Two {
        #[allow(unused_mut, unused_variables)]
        fn step(&mut self, op: Op, n: u32) -> Out {
            let Two(s, o) = self;
            match op {
                Get => { let v = s.f(); keep(Some(v)) }
                Set => { keep(Some(s.set_f(Raw(n)))) }
                Clone => { let c = s.clone(); *o = c; Unit }
                Eq => { B(*s == *o) }
                Debug => { let mut t = String::new(); let r = std::fmt::Write::write_fmt(&mut t, format_args!("{:?}", s)); B(r.is_ok()) }
                New => { let c: S = S::new(); *o = c; Unit }
                Build => { let c: S = S::builder().f(W::new(n, 0)).build().unwrap(); *o = c; Unit }
                Bare => { match S::builder().build() { Ok(c) => { let c: S = c; *o = c; B(true) } Err(_) => B(false) } }
                Swap => { std::mem::swap(s, o); Unit }
                _ => unreachable!(),
            }
        }
    }
    pub fn case() -> Case {
        Case { name: "23", text: r#"#[fxstruct(builder(post_build))] struct S { #[fieldx(get(clone), set(into))] f: W }"#, kind: Kind::Val, given: false, required: true, empty_ok: false, ops: vec![Get, Set, Clone, Eq, Debug, New, Build, Bare, Swap], make: || Box::new(Two(S::new(), S::new())) }
    }
}
pub mod m24 {
    use super::*;
    #[fxstruct(builder(post_build))]
    #[derive(Clone, Debug, PartialEq)]
    pub struct S { #[fieldx(inner_mut, get, get_mut, set)] f: W }
    impl S {
    fn post_build(self) -> Self { fault(); self }
    }
    pub struct Two(S, S);
    impl Subject for Two {
        #[allow(unused_mut, unused_variables)]
        fn step(&mut self, op: Op, n: u32) -> Out {
            let Two(s, o) = self;
            match op {
                Get => { let v = s.f(); fault(); Old(Some(v.id())) }
                Mut => { let mut g = s.f_mut(); fault(); let w = W::new(n, 0); *g = w; fault(); Unit }
                Set => { keep(Some(s.set_f(W::new(n, 0)))) }
                Clone => { let c = s.clone(); *o = c; Unit }
                Eq => { B(*s == *o) }
                Debug => { let mut t = String::new(); let r = std::fmt::Write::write_fmt(&mut t, format_args!("{:?}", s)); B(r.is_ok()) }
                New => { let c: S = S::new(); *o = c; Unit }
                Build => { let c: S = S::builder().f(W::new(n, 0)).build().unwrap(); *o = c; Unit }
                Bare => { match S::builder().build() { Ok(c) => { let c: S = c; *o = c; B(true) } Err(_) => B(false) } }
                Swap => { std::mem::swap(s, o); Unit }
                _ => unreachable!(),
            }
        }
    }
    pub fn case() -> Case {
        Case { name: "24", text: r#"#[fxstruct(builder(post_build))] struct S { #[fieldx(inner_mut, get, get_mut, set)] f: W }"#, kind: Kind::Val, given: false, required: true, empty_ok: false, ops: vec![Get, Mut, Set, Clone, Eq, Debug, New, Build, Bare, Swap], make: || Box::new(Two(S::new(), S::new())) }
    }
}
pub mod m25 {
    use super::*;
    #[fxstruct(builder(post_build))]
    #[derive(Clone, Debug, PartialEq)]
    pub struct S { #[fieldx(inner_mut, get(clone), set(into))] f: W }
    impl S {
    fn post_build(self) -> Self { fault(); self }
    }
    pub struct Two(S, S);
    impl Subject for Two {
        #[allow(unused_mut, unused_variables)]
        fn step(&mut self, op: Op, n: u32) -> Out {
            let Two(s, o) = self;
            match op {
                Get => { let v = s.f(); keep(Some(v)) }
                Set => { keep(Some(s.set_f(Raw(n)))) }
                Clone => { let c = s.clone(); *o = c; Unit }
                Eq => { B(*s == *o) }
                Debug => { let mut t = String::new(); let r = std::fmt::Write::write_fmt(&mut t, format_args!("{:?}", s)); B(r.is_ok()) }
                New => { let c: S = S::new(); *o = c; Unit }
                Build => { let c: S = S::builder().f(W::new(n, 0)).build().unwrap(); *o = c; Unit }
                Bare => { match S::builder().build() { Ok(c) => { let c: S = c; *o = c; B(true) } Err(_) => B(false) } }
                Swap => { std::mem::swap(s, o); Unit }
                _ => unreachable!(),
            }
        }
    }
    pub fn case() -> Case {
        Case { name: "25", text: r#"#[fxstruct(builder(post_build))] struct S { #[fieldx(inner_mut, get(clone), set(into))] f: W }"#, kind: Kind::Val, given: false, required: true, empty_ok: false, ops: vec![Get, Set, Clone, Eq, Debug, New, Build, Bare, Swap], make: || Box::new(Two(S::new(), S::new())) }
    }
}
pub mod m26 {
    use super::*;
    #[fxstruct(builder(post_build))]
    #[derive(Clone, Debug, PartialEq)]
    pub struct S { #[fieldx(optional, inner_mut, get, get_mut, set, clearer, predicate)] f: W }
    impl S {
    fn post_build(self) -> Self { fault(); self }
    }
    pub struct Two(S, S);
    impl Subject for Two {
        #[allow(unused_mut, unused_variables)]
        fn step(&mut self, op: Op, n: u32) -> Out {
            let Two(s, o) = self;
            match op {
                Get => { let v = s.f(); id((*v).as_ref()) }
                Mut => { let mut g = s.f_mut(); fault(); let w = Some(W::new(n, 0)); *g = w; fault(); Unit }
                Set => { keep(s.set_f(W::new(n, 0))) }
                Clear => { keep(s.clear_f()) }
                Has => { B(s.has_f()) }
                Clone => { let c = s.clone(); *o = c; Unit }
                Eq => { B(*s == *o) }
                Debug => { let mut t = String::new(); let r = std::fmt::Write::write_fmt(&mut t, format_args!("{:?}", s)); B(r.is_ok()) }
                New => { let c: S = S::new(); *o = c; Unit }
                Build => { let c: S = S::builder().f(W::new(n, 0)).build().unwrap(); *o = c; Unit }
                Bare => { match S::builder().build() { Ok(c) => { let c: S = c; *o = c; B(true) } Err(_) => B(false) } }
                Swap => { std::mem::swap(s, o); Unit }
                _ => unreachable!(),
            }
        }
    }
    pub fn case() -> Case {
        Case { name: "26", text: r#"#[fxstruct(builder(post_build))] struct S { #[fieldx(optional, inner_mut, get, get_mut, set, clearer, predicate)] f: W }"#, kind: Kind::Opt, given: false, required: false, empty_ok: true, ops: vec![Get, Mut, Set, Clear, Has, Clone, Eq, Debug, New, Build, Bare, Swap], make: || Box::new(Two(S::new(), S::new())) }
    }
}
pub mod m27 {
    use super::*;
    #[fxstruct(builder(post_build))]
    #[derive(Clone, Debug, PartialEq)]
    pub struct S { #[fieldx(lazy, get, get_mut, set, clearer, predicate, default(five()))] f: W }
    impl S {
    fn build_f(&self) -> W { built() }
    fn post_build(self) -> Self { fault(); self }
    }
    pub struct Two(S, S);
    impl Subject for Two {
        #[allow(unused_mut, unused_variables)]
        fn step(&mut self, op: Op, n: u32) -> Out {
            let Two(s, o) = self;
            match op {
                Get => { let v = s.f(); fault(); Old(Some(v.id())) }
                Mut => { let g = s.f_mut(); fault(); let w = W::new(n, 0); *g = w; fault(); Unit }
                Set => { keep(s.set_f(W::new(n, 0))) }
                Clear => { keep(s.clear_f()) }
                Has => { B(s.has_f()) }
                Clone => { let c = s.clone(); *o = c; Unit }
                Eq => { B(*s == *o) }
                Debug => { let mut t = String::new(); let r = std::fmt::Write::write_fmt(&mut t, format_args!("{:?}", s)); B(r.is_ok()) }
                New => { let c: S = S::new(); *o = c; Unit }
                Build => { let c: S = S::builder().f(W::new(n, 0)).build().unwrap(); *o = c; Unit }
                Bare => { match S::builder().build() { Ok(c) => { let c: S = c; *o = c; B(true) } Err(_) => B(false) } }
                Swap => { std::mem::swap(s, o); Unit }
                _ => unreachable!(),
            }
        }
    }
    pub fn case() -> Case {
        Case { name: "27", text: r#"#[fxstruct(builder(post_build))] struct S { #[fieldx(lazy, get, get_mut, set, clearer, predicate, default(five()))] f: W }"#, kind: Kind::Lazy, given: true, required: false, empty_ok: true, ops: vec![Get, Mut, Set, Clear, Has, Clone, Eq, Debug, New, Build, Bare, Swap], make: || Box::new(Two(S::new(), S::new())) }
    }
}
pub mod m28 {
    use super::*;
    #[fxstruct(builder(post_build))]
    #[derive(Clone, Debug, PartialEq)]
    pub struct S { #[fieldx(lazy, get(clone), set(into), clearer, predicate, default(five()))] f: W }
    impl S {
    fn build_f(&self) -> W { built() }
    fn post_build(self) -> Self { fault(); self }
    }
    pub struct Two(S, S);
    impl Subject for Two {
        #[allow(unused_mut, unused_variables)]
        fn step(&mut self, op: Op, n: u32) -> Out {
            let Two(s, o) = self;
            match op {
                Get => { let v = s.f(); keep(Some(v)) }
                Set => { keep(s.set_f(Raw(n))) }
                Clear => { keep(s.clear_f()) }
                Has => { B(s.has_f()) }
                Clone => { let c = s.clone(); *o = c; Unit }
                Eq => { B(*s == *o) }
                Debug => { let mut t = String::new(); let r = std::fmt::Write::write_fmt(&mut t, format_args!("{:?}", s)); B(r.is_ok()) }
                New => { let c: S = S::new(); *o = c; Unit }
                Build => { let c: S = S::builder().f(W::new(n, 0)).build().unwrap(); *o = c; Unit }
                Bare => { match S::builder().build() { Ok(c) => { let c: S = c; *o = c; B(true) } Err(_) => B(false) } }
                Swap => { std::mem::swap(s, o); Unit }
                _ => unreachable!(),
            }
        }
    }
    pub fn case() -> Case {
        Case { name: "28", text: r#"#[fxstruct(builder(post_build))] struct S { #[fieldx(lazy, get(clone), set(into), clearer, predicate, default(five()))] f: W }"#, kind: Kind::Lazy, given: true, required: false, empty_ok: true, ops: vec![Get, Set, Clear, Has, Clone, Eq, Debug, New, Build, Bare, Swap], make: || Box::new(Two(S::new(), S::new())) }
    }
}
pub mod m29 {
    use super::*;
    #[fxstruct(builder(post_build))]
    #[derive(Clone, Debug, PartialEq)]
    pub struct S { #[fieldx(optional, get, get_mut, set, clearer, predicate, default(five()))] f: W }
    impl S {
    fn post_build(self) -> Self { fault(); self }
    }
    pub struct Two(S, S);
    impl Subject for Two {
        #[allow(unused_mut, unused_variables)]
        fn step(&mut self, op: Op, n: u32) -> Out {
            let Two(s, o) = self;
            match op {
                Get => { let v = s.f(); id(v.as_ref()) }
                Mut => { let g = s.f_mut(); fault(); let w = Some(W::new(n, 0)); *g = w; fault(); Unit }
                Set => { keep(s.set_f(W::new(n, 0))) }
                Clear => { keep(s.clear_f()) }
                Has => { B(s.has_f()) }
                Clone => { let c = s.clone(); *o = c; Unit }
                Eq => { B(*s == *o) }
                Debug => { let mut t = String::new(); let r = std::fmt::Write::write_fmt(&mut t, format_args!("{:?}", s)); B(r.is_ok()) }
                New => { let c: S = S::new(); *o = c; Unit }
                Build => { let c: S = S::builder().f(W::new(n, 0)).build().unwrap(); *o = c; Unit }
                Bare => { match S::builder().build() { Ok(c) => { let c: S = c; *o = c; B(true) } Err(_) => B(false) } }
                Swap => { std::mem::swap(s, o); Unit }
                _ => unreachable!(),
            }
        }
    }
    pub fn case() -> Case {
        Case { name: "29", text: r#"#[fxstruct(builder(post_build))] struct S { #[fieldx(optional, get, get_mut, set, clearer, predicate, default(five()))] f: W }"#, kind: Kind::Opt, given: true, required: false, empty_ok: true, ops: vec![Get, Mut, Set, Clear, Has, Clone, Eq, Debug, New, Build, Bare, Swap], make: || Box::new(Two(S::new(), S::new())) }
    }
}
pub mod m30 {
    use super::*;
    #[fxstruct(builder(post_build))]
    #[derive(Clone, Debug, PartialEq)]
    pub struct S { #[fieldx(optional, get(clone), set(into), clearer, predicate, default(five()))] f: W }
    impl S {
    fn post_build(self) -> Self { fault(); self }
    }
    pub struct Two(S, S);
    impl Subject for Two {
        #[allow(unused_mut, unused_variables)]
        fn step(&mut self, op: Op, n: u32) -> Out {
            let Two(s, o) = self;
            match op {
                Get => { let v = s.f(); keep(v) }
                Set => { keep(s.set_f(Raw(n))) }
                Clear => { keep(s.clear_f()) }
                Has => { B(s.has_f()) }
                Clone => { let c = s.clone(); *o = c; Unit }
                Eq => { B(*s == *o) }
                Debug => { let mut t = String::new(); let r = std::fmt::Write::write_fmt(&mut t, format_args!("{:?}", s)); B(r.is_ok()) }
                New => { let c: S = S::new(); *o = c; Unit }
                Build => { let c: S = S::builder().f(W::new(n, 0)).build().unwrap(); *o = c; Unit }
                Bare => { match S::builder().build() { Ok(c) => { let c: S = c; *o = c; B(true) } Err(_) => B(false) } }
                Swap => { std::mem::swap(s, o); Unit }
                _ => unreachable!(),
            }
        }
    }
    pub fn case() -> Case {
        Case { name: "30", text: r#"#[fxstruct(builder(post_build))] struct S { #[fieldx(optional, get(clone), set(into), clearer, predicate, default(five()))] f: W }"#, kind: Kind::Opt, given: true, required: false, empty_ok: true, ops: vec![Get, Set, Clear, Has, Clone, Eq, Debug, New, Build, Bare, Swap], make: || Box::new(Two(S::new(), S::new())) }
    }
}
pub mod m31 {
    use super::*;
    #[fxstruct(builder(post_build))]
    #[derive(Clone, Debug, PartialEq)]
    pub struct S { #[fieldx(get, get_mut, set, default(five()))] f: W }
    impl S {
    fn post_build(self) -> Self { fault(); self }
    }
    pub struct Two(S, S);
    impl Subject for Two {
        #[allow(unused_mut, unused_variables)]
        fn step(&mut self, op: Op, n: u32) -> Out {
            let Two(s, o) = self;
            match op {
                Get => { let v = s.f(); fault(); Old(Some(v.id())) }
                Mut => { let g = s.f_mut(); fault(); let w = W::new(n, 0); *g = w; fault(); Unit }
                Set => { keep(Some(s.set_f(W::new(n, 0)))) }
                Clone => { let c = s.clone(); *o = c; Unit }
                Eq => { B(*s == *o) }
                Debug => { let mut t = String::new(); let r = std::fmt::Write::write_fmt(&mut t, format_args!("{:?}", s)); B(r.is_ok()) }
                New => { let c: S = S::new(); *o = c; Unit }
                Build => { let c: S = S::builder().f(W::new(n, 0)).build().unwrap(); *o = c; Unit }
                Bare => { match S::builder().build() { Ok(c) => { let c: S = c; *o = c; B(true) } Err(_) => B(false) } }
                Swap => { std::mem::swap(s, o); Unit }
                _ => unreachable!(),
            }
        }
    }
    pub fn case() -> Case {
        Case { name: "31", text: r#"#[fxstruct(builder(post_build))] struct S { #[fieldx(get, get_mut, set, default(five()))] f: W }"#, kind: Kind::Val, given: true, required: false, empty_ok: false, ops: vec![Get, Mut, Set, Clone, Eq, Debug, New, Build, Bare, Swap], make: || Box::new(Two(S::new(), S::new())) }
    }
}
pub mod m32 {
    use super::*;
    #[fxstruct(builder(post_build))]
    #[derive(Clone, Debug, PartialEq)]
    pub struct S { #[fieldx(get(clone), set(into), default(five()))] f: W }
    impl S {
    fn post_build(self) -> Self { fault(); self }
    }
    pub struct Two(S, S);
    impl Subject for Two {
        #[allow(unused_mut, unused_variables)]
        fn step(&mut self, op: Op, n: u32) -> Out {
            let Two(s, o) = self;
            match op {
                Get => { let v = s.f(); keep(Some(v)) }
                Set => { keep(Some(s.set_f(Raw(n)))) }
                Clone => { let c = s.clone(); *o = c; Unit }
                Eq => { B(*s == *o) }
                Debug => { let mut t = String::new(); let r = std::fmt::Write::write_fmt(&mut t, format_args!("{:?}", s)); B(r.is_ok()) }
                New => { let c: S = S::new(); *o = c; Unit }
                Build => { let c: S = S::builder().f(W::new(n, 0)).build().unwrap(); *o = c; Unit }
                Bare => { match S::builder().build() { Ok(c) => { let c: S = c; *o = c; B(true) } Err(_) => B(false) } }
                Swap => { std::mem::swap(s, o); Unit }
                _ => unreachable!(),
            }
        }
    }
    pub fn case() -> Case {
        Case { name: "32", text: r#"#[fxstruct(builder(post_build))] struct S { #[fieldx(get(clone), set(into), default(five()))] f: W }"#, kind: Kind::Val, given: true, required: false, empty_ok: false, ops: vec![Get, Set, Clone, Eq, Debug, New, Build, Bare, Swap], make: || Box::new(Two(S::new(), S::new())) }
    }
}
pub mod m33 {
    use super::*;
    #[fxstruct(builder(post_build))]
    #[derive(Clone, Debug, PartialEq)]
    pub struct S { #[fieldx(inner_mut, get, get_mut, set, default(five()))] f: W }
    impl S {
    fn post_build(self) -> Self { fault(); self }
    }
    pub struct Two(S, S);
    impl Subject for Two {
        #[allow(unused_mut, unused_variables)]
        fn step(&mut self, op: Op, n: u32) -> Out {
            let Two(s, o) = self;
            match op {
                Get => { let v = s.f(); fault(); Old(Some(v.id())) }
                Mut => { let mut g = s.f_mut(); fault(); let w = W::new(n, 0); *g = w; fault(); Unit }
                Set => { keep(Some(s.set_f(W::new(n, 0)))) }
                Clone => { let c = s.clone(); *o = c; Unit }
                Eq => { B(*s == *o) }
                Debug => { let mut t = String::new(); let r = std::fmt::Write::write_fmt(&mut t, format_args!("{:?}", s)); B(r.is_ok()) }
                New => { let c: S = S::new(); *o = c; Unit }
                Build => { let c: S = S::builder().f(W::new(n, 0)).build().unwrap(); *o = c; Unit }
                Bare => { match S::builder().build() { Ok(c) => { let c: S = c; *o = c; B(true) } Err(_) => B(false) } }
                Swap => { std::mem::swap(s, o); Unit }
                _ => unreachable!(),
            }
        }
    }
    pub fn case() -> Case {
        Case { name: "33", text: r#"#[fxstruct(builder(post_build))] struct S { #[fieldx(inner_mut, get, get_mut, set, default(five()))] f: W }"#, kind: Kind::Val, given: true, required: false, empty_ok: false, ops: vec![Get, Mut, Set, Clone, Eq, Debug, New, Build, Bare, Swap], make: || Box::new(Two(S::new(), S::new())) }
    }
}
pub mod m34 {
    use super::*;
    #[fxstruct(builder(post_build))]
    #[derive(Clone, Debug, PartialEq)]
    pub struct S { #[fieldx(inner_mut, get(clone), set(into), default(five()))] f: W }
    impl S {
    fn post_build(self) -> Self { fault(); self }
    }
    pub struct Two(S, S);
    impl Subject for Two {
        #[allow(unused_mut, unused_variables)]
        fn step(&mut self, op: Op, n: u32) -> Out {
            let Two(s, o) = self;
            match op {
                Get => { let v = s.f(); keep(Some(v)) }
                Set => { keep(Some(s.set_f(Raw(n)))) }
                Clone => { let c = s.clone(); *o = c; Unit }
                Eq => { B(*s == *o) }
                Debug => { let mut t = String::new(); let r = std::fmt::Write::write_fmt(&mut t, format_args!("{:?}", s)); B(r.is_ok()) }
                New => { let c: S = S::new(); *o = c; Unit }
                Build => { let c: S = S::builder().f(W::new(n, 0)).build().unwrap(); *o = c; Unit }
                Bare => { match S::builder().build() { Ok(c) => { let c: S = c; *o = c; B(true) } Err(_) => B(false) } }
                Swap => { std::mem::swap(s, o); Unit }
                _ => unreachable!(),
            }
        }
    }
    pub fn case() -> Case {
        Case { name: "34", text: r#"#[fxstruct(builder(post_build))] struct S { #[fieldx(inner_mut, get(clone), set(into), default(five()))] f: W }"#, kind: Kind::Val, given: true, required: false, empty_ok: false, ops: vec![Get, Set, Clone, Eq, Debug, New, Build, Bare, Swap], make: || Box::new(Two(S::new(), S::new())) }
    }
}
pub mod m35 {
    use super::*;
    #[fxstruct(builder(post_build))]
    #[derive(Clone, Debug, PartialEq)]
    pub struct S { #[fieldx(optional, inner_mut, get, get_mut, set, clearer, predicate, default(five()))] f: W }
    impl S {
    fn post_build(self) -> Self { fault(); self }
    }
    pub struct Two(S, S);
    impl Subject for Two {
        #[allow(unused_mut, unused_variables)]
        fn step(&mut self, op: Op, n: u32) -> Out {
            let Two(s, o) = self;
            match op {
                Get => { let v = s.f(); id((*v).as_ref()) }
                Mut => { let mut g = s.f_mut(); fault(); let w = Some(W::new(n, 0)); *g = w; fault(); Unit }
                Set => { keep(s.set_f(W::new(n, 0))) }
                Clear => { keep(s.clear_f()) }
                Has => { B(s.has_f()) }
                Clone => { let c = s.clone(); *o = c; Unit }
                Eq => { B(*s == *o) }
                Debug => { let mut t = String::new(); let r = std::fmt::Write::write_fmt(&mut t, format_args!("{:?}", s)); B(r.is_ok()) }
                New => { let c: S = S::new(); *o = c; Unit }
                Build => { let c: S = S::builder().f(W::new(n, 0)).build().unwrap(); *o = c; Unit }
                Bare => { match S::builder().build() { Ok(c) => { let c: S = c; *o = c; B(true) } Err(_) => B(false) } }
                Swap => { std::mem::swap(s, o); Unit }
                _ => unreachable!(),
            }
        }
    }
    pub fn case() -> Case {
        Case { name: "35", text: r#"#[fxstruct(builder(post_build))] struct S { #[fieldx(optional, inner_mut, get, get_mut, set, clearer, predicate, default(five()))] f: W }"#, kind: Kind::Opt, given: true, required: false, empty_ok: true, ops: vec![Get, Mut, Set, Clear, Has, Clone, Eq, Debug, New, Build, Bare, Swap], make: || Box::new(Two(S::new(), S::new())) }
    }
}
pub mod m36 {
    use super::*;
    #[fxstruct(rc, builder(post_build, into))]
    #[derive(Debug)]
    pub struct S { #[fieldx(inner_mut, get, get_mut, set)] f: W }
    impl S {
    fn post_build(self) -> Self { fault(); self }
    }
    pub struct Two(Rc<S>, Rc<S>);
    impl Subject for Two {
        #[allow(unused_mut, unused_variables)]
        fn step(&mut self, op: Op, n: u32) -> Out {
            let Two(s, o) = self;
            match op {
                Get => { let v = s.f(); fault(); Old(Some(v.id())) }
                Mut => { let mut g = s.f_mut(); fault(); let w = W::new(n, 0); *g = w; fault(); Unit }
                Set => { keep(Some(s.set_f(W::new(n, 0)))) }
                Debug => { let mut t = String::new(); let r = std::fmt::Write::write_fmt(&mut t, format_args!("{:?}", s)); B(r.is_ok()) }
                New => { let c: Rc<S> = S::new(); *o = c; Unit }
                Build => { let c: Rc<S> = S::builder().f(Raw(n)).build().unwrap(); *o = c; Unit }
                Bare => { match S::builder().build() { Ok(c) => { let c: Rc<S> = c; *o = c; B(true) } Err(_) => B(false) } }
                Swap => { std::mem::swap(s, o); Unit }
                _ => unreachable!(),
            }
        }
    }
    pub fn case() -> Case {
        Case { name: "36", text: r#"#[fxstruct(rc, builder(post_build, into))] struct S { #[fieldx(inner_mut, get, get_mut, set)] f: W }"#, kind: Kind::Val, given: false, required: true, empty_ok: false, ops: vec![Get, Mut, Set, Debug, New, Build, Bare, Swap], make: || Box::new(Two(S::new(), S::new())) }
    }
}
pub mod m37 {
    use super::*;
    #[fxstruct(rc, builder(post_build, into))]
    #[derive(Debug)]
    pub struct S { #[fieldx(inner_mut, get(clone), set(into))] f: W }
    impl S {
    fn post_build(self) -> Self { fault(); self }
    }
    pub struct Two(Rc<S>, Rc<S>);
    impl Subject for Two {
        #[allow(unused_mut, unused_variables)]
        fn step(&mut self, op: Op, n: u32) -> Out {
            let Two(s, o) = self;
            match op {
                Get => { let v = s.f(); keep(Some(v)) }
                Set => { keep(Some(s.set_f(Raw(n)))) }
                Debug => { let mut t = String::new(); let r = std::fmt::Write::write_fmt(&mut t, format_args!("{:?}", s)); B(r.is_ok()) }
                New => { let c: Rc<S> = S::new(); *o = c; Unit }
                Build => { let c: Rc<S> = S::builder().f(Raw(n)).build().unwrap(); *o = c; Unit }
                Bare => { match S::builder().build() { Ok(c) => { let c: Rc<S> = c; *o = c; B(true) } Err(_) => B(false) } }
                Swap => { std::mem::swap(s, o); Unit }
                _ => unreachable!(),
            }
        }
    }
    pub fn case() -> Case {
        Case { name: "37", text: r#"#[fxstruct(rc, builder(post_build, into))] struct S { #[fieldx(inner_mut, get(clone), set(into))] f: W }"#, kind: Kind::Val, given: false, required: true, empty_ok: false, ops: vec![Get, Set, Debug, New, Build, Bare, Swap], make: || Box::new(Two(S::new(), S::new())) }
    }
}
pub mod m38 {
    use super::*;
    #[fxstruct(rc, builder(post_build, into))]
    #[derive(Debug)]
    pub struct S { #[fieldx(optional, inner_mut, get, get_mut, set, clearer, predicate)] f: W }
    impl S {
    fn post_build(self) -> Self { fault(); self }
    }
    pub struct Two(Rc<S>, Rc<S>);
    impl Subject for Two {
        #[allow(unused_mut, unused_variables)]
        fn step(&mut self, op: Op, n: u32) -> Out {
            let Two(s, o) = self;
            match op {
                Get => { let v = s.f(); id((*v).as_ref()) }
                Mut => { let mut g = s.f_mut(); fault(); let w = Some(W::new(n, 0)); *g = w; fault(); Unit }
                Set => { keep(s.set_f(W::new(n, 0))) }
                Clear => { keep(s.clear_f()) }
                Has => { B(s.has_f()) }
                Debug => { let mut t = String::new(); let r = std::fmt::Write::write_fmt(&mut t, format_args!("{:?}", s)); B(r.is_ok()) }
                New => { let c: Rc<S> = S::new(); *o = c; Unit }
                Build => { let c: Rc<S> = S::builder().f(Raw(n)).build().unwrap(); *o = c; Unit }
                Bare => { match S::builder().build() { Ok(c) => { let c: Rc<S> = c; *o = c; B(true) } Err(_) => B(false) } }
                Swap => { std::mem::swap(s, o); Unit }
                _ => unreachable!(),
            }
        }
    }
    pub fn case() -> Case {
        Case { name: "38", text: r#"#[fxstruct(rc, builder(post_build, into))] struct S { #[fieldx(optional, inner_mut, get, get_mut, set, clearer, predicate)] f: W }"#, kind: Kind::Opt, given: false, required: false, empty_ok: true, ops: vec![Get, Mut, Set, Clear, Has, Debug, New, Build, Bare, Swap], make: || Box::new(Two(S::new(), S::new())) }
    }
}
pub mod m39 {
    use super::*;
    #[fxstruct(rc, builder(post_build, into))]
    #[derive(Debug)]
    pub struct S { #[fieldx(inner_mut, get, get_mut, set, default(five()))] f: W }
    impl S {
    fn post_build(self) -> Self { fault(); self }
    }
    pub struct Two(Rc<S>, Rc<S>);
    impl Subject for Two {
        #[allow(unused_mut, unused_variables)]
        fn step(&mut self, op: Op, n: u32) -> Out {
            let Two(s, o) = self;
            match op {
                Get => { let v = s.f(); fault(); Old(Some(v.id())) }
                Mut => { let mut g = s.f_mut(); fault(); let w = W::new(n, 0); *g = w; fault(); Unit }
                Set => { keep(Some(s.set_f(W::new(n, 0)))) }
                Debug => { let mut t = String::new(); let r = std::fmt::Write::write_fmt(&mut t, format_args!("{:?}", s)); B(r.is_ok()) }
                New => { let c: Rc<S> = S::new(); *o = c; Unit }
                Build => { let c: Rc<S> = S::builder().f(Raw(n)).build().unwrap(); *o = c; Unit }
                Bare => { match S::builder().build() { Ok(c) => { let c: Rc<S> = c; *o = c; B(true) } Err(_) => B(false) } }
                Swap => { std::mem::swap(s, o); Unit }
                _ => unreachable!(),
            }
        }
    }
    pub fn case() -> Case {
        Case { name: "39", text: r#"#[fxstruct(rc, builder(post_build, into))] struct S { #[fieldx(inner_mut, get, get_mut, set, default(five()))] f: W }"#, kind: Kind::Val, given: true, required: false, empty_ok: false, ops: vec![Get, Mut, Set, Debug, New, Build, Bare, Swap], make: || Box::new(Two(S::new(), S::new())) }
    }
}
pub mod m40 {
    use super::*;
    #[fxstruct(rc, builder(post_build, into))]
    #[derive(Debug)]
    pub struct S { #[fieldx(inner_mut, get(clone), set(into), default(five()))] f: W }
    impl S {
    fn post_build(self) -> Self { fault(); self }
    }
    pub struct Two(Rc<S>, Rc<S>);
    impl Subject for Two {
        #[allow(unused_mut, unused_variables)]
        fn step(&mut self, op: Op, n: u32) -> Out {
            let Two(s, o) = self;
            match op {
                Get => { let v = s.f(); keep(Some(v)) }
                Set => { keep(Some(s.set_f(Raw(n)))) }
                Debug => { let mut t = String::new(); let r = std::fmt::Write::write_fmt(&mut t, format_args!("{:?}", s)); B(r.is_ok()) }
                New => { let c: Rc<S> = S::new(); *o = c; Unit }
                Build => { let c: Rc<S> = S::builder().f(Raw(n)).build().unwrap(); *o = c; Unit }
                Bare => { match S::builder().build() { Ok(c) => { let c: Rc<S> = c; *o = c; B(true) } Err(_) => B(false) } }
                Swap => { std::mem::swap(s, o); Unit }
                _ => unreachable!(),
            }
        }
    }
    pub fn case() -> Case {
        Case { name: "40", text: r#"#[fxstruct(rc, builder(post_build, into))] struct S { #[fieldx(inner_mut, get(clone), set(into), default(five()))] f: W }"#, kind: Kind::Val, given: true, required: false, empty_ok: false, ops: vec![Get, Set, Debug, New, Build, Bare, Swap], make: || Box::new(Two(S::new(), S::new())) }
    }
}
pub mod m41 {
    use super::*;
    #[fxstruct(rc, builder(post_build, into))]
    #[derive(Debug)]
    pub struct S { #[fieldx(optional, inner_mut, get, get_mut, set, clearer, predicate, default(five()))] f: W }
    impl S {
    fn post_build(self) -> Self { fault(); self }
    }
    pub struct Two(Rc<S>, Rc<S>);
    impl Subject for Two {
        #[allow(unused_mut, unused_variables)]
        fn step(&mut self, op: Op, n: u32) -> Out {
            let Two(s, o) = self;
            match op {
                Get => { let v = s.f(); id((*v).as_ref()) }
                Mut => { let mut g = s.f_mut(); fault(); let w = Some(W::new(n, 0)); *g = w; fault(); Unit }
                Set => { keep(s.set_f(W::new(n, 0))) }
                Clear => { keep(s.clear_f()) }
                Has => { B(s.has_f()) }
                Debug => { let mut t = String::new(); let r = std::fmt::Write::write_fmt(&mut t, format_args!("{:?}", s)); B(r.is_ok()) }
                New => { let c: Rc<S> = S::new(); *o = c; Unit }
                Build => { let c: Rc<S> = S::builder().f(Raw(n)).build().unwrap(); *o = c; Unit }
                Bare => { match S::builder().build() { Ok(c) => { let c: Rc<S> = c; *o = c; B(true) } Err(_) => B(false) } }
                Swap => { std::mem::swap(s, o); Unit }
                _ => unreachable!(),
            }
        }
    }
    pub fn case() -> Case {
        Case { name: "41", text: r#"#[fxstruct(rc, builder(post_build, into))] struct S { #[fieldx(optional, inner_mut, get, get_mut, set, clearer, predicate, default(five()))] f: W }"#, kind: Kind::Opt, given: true, required: false, empty_ok: true, ops: vec![Get, Mut, Set, Clear, Has, Debug, New, Build, Bare, Swap], make: || Box::new(Two(S::new(), S::new())) }
    }
}
pub mod m42 {
    use super::*;
    #[fxstruct(builder(post_build))]
    #[derive(Clone, Debug, PartialEq)]
    pub struct S { #[fieldx(lazy, fallible(error(Sorry)), get, get_mut, set, clearer, predicate)] f: W }
    impl S {
    fn build_f(&self) -> Result<W, Sorry> { Ok(built()) }
    fn post_build(self) -> Self { fault(); self }
    }
    pub struct Two(S, S);
    impl Subject for Two {
        #[allow(unused_mut, unused_variables)]
        fn step(&mut self, op: Op, n: u32) -> Out {
            let Two(s, o) = self;
            match op {
                Get => { let v = s.f().unwrap(); fault(); Old(Some(v.id())) }
                Mut => { let g = s.f_mut().unwrap(); fault(); let w = W::new(n, 0); *g = w; fault(); Unit }
                Set => { keep(s.set_f(W::new(n, 0))) }
                Clear => { keep(s.clear_f()) }
                Has => { B(s.has_f()) }
                Clone => { let c = s.clone(); *o = c; Unit }
                Eq => { B(*s == *o) }
                Debug => { let mut t = String::new(); let r = std::fmt::Write::write_fmt(&mut t, format_args!("{:?}", s)); B(r.is_ok()) }
                New => { let c: S = S::new(); *o = c; Unit }
                Build => { let c: S = S::builder().f(W::new(n, 0)).build().unwrap(); *o = c; Unit }
                Bare => { match S::builder().build() { Ok(c) => { let c: S = c; *o = c; B(true) } Err(_) => B(false) } }
                Swap => { std::mem::swap(s, o); Unit }
                _ => unreachable!(),
            }
        }
    }
    pub fn case() -> Case {
        Case { name: "42", text: r#"#[fxstruct(builder(post_build))] struct S { #[fieldx(lazy, fallible(error(Sorry)), get, get_mut, set, clearer, predicate)] f: W }"#, kind: Kind::Lazy, given: false, required: false, empty_ok: true, ops: vec![Get, Mut, Set, Clear, Has, Clone, Eq, Debug, New, Build, Bare, Swap], make: || Box::new(Two(S::new(), S::new())) }
    }
}
pub mod m43 {
    use super::*;
    #[fxstruct(builder(into))]
    #[derive(Clone, Debug, PartialEq)]
    pub struct S { #[fieldx(lazy, get(clone), set(into), clearer, predicate)] f: W, #[fieldx(get, builder(off), default(W::new(7, 0)))] g: W }
    impl S {
    fn build_f(&self) -> W { built() }
    }
    pub struct Two(S, S);
    impl Subject for Two {
        #[allow(unused_mut, unused_variables)]
        fn step(&mut self, op: Op, n: u32) -> Out {
            let Two(s, o) = self;
            match op {
                Get => { let v = s.f(); keep(Some(v)) }
                Set => { keep(s.set_f(Raw(n))) }
                Clear => { keep(s.clear_f()) }
                Has => { B(s.has_f()) }
                Clone => { let c = s.clone(); *o = c; Unit }
                Eq => { B(*s == *o) }
                Debug => { let mut t = String::new(); let r = std::fmt::Write::write_fmt(&mut t, format_args!("{:?}", s)); B(r.is_ok()) }
                New => { let c: S = S::new(); *o = c; Unit }
                Build => { let c: S = S::builder().f(Raw(n)).build().unwrap(); *o = c; Unit }
                Bare => { match S::builder().build() { Ok(c) => { let c: S = c; *o = c; B(true) } Err(_) => B(false) } }
                Swap => { std::mem::swap(s, o); Unit }
                Other => { V(s.g().id()) }
                _ => unreachable!(),
            }
        }
    }
    pub fn case() -> Case {
        Case { name: "43", text: r#"#[fxstruct(builder(into))] struct S { #[fieldx(lazy, get(clone), set(into), clearer, predicate)] f: W }"#, kind: Kind::Lazy, given: false, required: false, empty_ok: true, ops: vec![Get, Set, Clear, Has, Clone, Eq, Debug, New, Build, Bare, Swap, Other], make: || Box::new(Two(S::new(), S::new())) }
    }
}
pub mod m44 {
    use super::*;
    #[fxstruct(builder(into))]
    #[derive(Clone, Debug, PartialEq)]
    pub struct S { #[fieldx(optional, get(clone), set(into), clearer, predicate)] f: W, #[fieldx(get, builder(off), default(W::new(7, 0)))] g: W }
    impl S {
    }
    pub struct Two(S, S);
    impl Subject for Two {
        #[allow(unused_mut, unused_variables)]
        fn step(&mut self, op: Op, n: u32) -> Out {
            let Two(s, o) = self;
            match op {
                Get => { let v = s.f(); keep(v) }
                Set => { keep(s.set_f(Raw(n))) }
                Clear => { keep(s.clear_f()) }
                Has => { B(s.has_f()) }
                Clone => { let c = s.clone(); *o = c; Unit }
                Eq => { B(*s == *o) }
                Debug => { let mut t = String::new(); let r = std::fmt::Write::write_fmt(&mut t, format_args!("{:?}", s)); B(r.is_ok()) }
                New => { let c: S = S::new(); *o = c; Unit }
                Build => { let c: S = S::builder().f(Raw(n)).build().unwrap(); *o = c; Unit }
                Bare => { match S::builder().build() { Ok(c) => { let c: S = c; *o = c; B(true) } Err(_) => B(false) } }
                Swap => { std::mem::swap(s, o); Unit }
                Other => { V(s.g().id()) }
                _ => unreachable!(),
            }
        }
    }
    pub fn case() -> Case {
        Case { name: "44", text: r#"#[fxstruct(builder(into))] struct S { #[fieldx(optional, get(clone), set(into), clearer, predicate)] f: W }"#, kind: Kind::Opt, given: false, required: false, empty_ok: true, ops: vec![Get, Set, Clear, Has, Clone, Eq, Debug, New, Build, Bare, Swap, Other], make: || Box::new(Two(S::new(), S::new())) }
    }
}
pub mod m45 {
    use super::*;
    #[fxstruct(builder(into))]
    #[derive(Clone, Debug, PartialEq)]
    pub struct S { #[fieldx(get(clone), set(into))] f: W, #[fieldx(get, builder(off), default(W::new(7, 0)))] g: W }
    impl S {
    }
    pub struct Two(S, S);
    impl Subject for Two {
        #[allow(unused_mut, unused_variables)]
        fn step(&mut self, op: Op, n: u32) -> Out {
            let Two(s, o) = self;
            match op {
                Get => { let v = s.f(); keep(Some(v)) }
                Set => { keep(Some(s.set_f(Raw(n)))) }
                Clone => { let c = s.clone(); *o = c; Unit }
                Eq => { B(*s == *o) }
                Debug => { let mut t = String::new(); let r = std::fmt::Write::write_fmt(&mut t, format_args!("{:?}", s)); B(r.is_ok()) }
                New => { let c: S = S::new(); *o = c; Unit }
                Build => { let c: S = S::builder().f(Raw(n)).build().unwrap(); *o = c; Unit }
                Bare => { match S::builder().build() { Ok(c) => { let c: S = c; *o = c; B(true) } Err(_) => B(false) } }
                Swap => { std::mem::swap(s, o); Unit }
                Other => { V(s.g().id()) }
                _ => unreachable!(),
            }
        }
    }
    pub fn case() -> Case {
        Case { name: "45", text: r#"#[fxstruct(builder(into))] struct S { #[fieldx(get(clone), set(into))] f: W }"#, kind: Kind::Val, given: false, required: true, empty_ok: false, ops: vec![Get, Set, Clone, Eq, Debug, New, Build, Bare, Swap, Other], make: || Box::new(Two(S::new(), S::new())) }
    }
}
pub mod m46 {
    use super::*;
    #[fxstruct(serde, builder(into))]
    #[derive(Clone, Debug, PartialEq)]
    pub struct S { #[fieldx(lazy, get(clone), set(into), clearer, predicate)] f: W }
    impl S {
    fn build_f(&self) -> W { built() }
    }
    pub struct Two(S, S);
    impl Subject for Two {
        #[allow(unused_mut, unused_variables)]
        fn step(&mut self, op: Op, n: u32) -> Out {
            let Two(s, o) = self;
            match op {
                Get => { let v = s.f(); keep(Some(v)) }
                Set => { keep(s.set_f(Raw(n))) }
                Clear => { keep(s.clear_f()) }
                Has => { B(s.has_f()) }
                Clone => { let c = s.clone(); *o = c; Unit }
                Eq => { B(*s == *o) }
                Debug => { let mut t = String::new(); let r = std::fmt::Write::write_fmt(&mut t, format_args!("{:?}", s)); B(r.is_ok()) }
                New => { let c: S = S::new(); *o = c; Unit }
                Build => { let c: S = S::builder().f(Raw(n)).build().unwrap(); *o = c; Unit }
                Bare => { match S::builder().build() { Ok(c) => { let c: S = c; *o = c; B(true) } Err(_) => B(false) } }
                Swap => { std::mem::swap(s, o); Unit }
                Ser => { drops(false); let t = serde_json::to_string(&*s).unwrap(); drops(true); shown(&t) }
                De => { drops(false); let c: S = serde_json::from_str(&format!("{{\"f\":{n}}}")).unwrap(); drops(true); *o = c; Unit }
                _ => unreachable!(),
            }
        }
    }
    pub fn case() -> Case {
        Case { name: "46", text: r#"#[fxstruct(serde, builder(into))] struct S { #[fieldx(lazy, get(clone), set(into), clearer, predicate)] f: W }"#, kind: Kind::Lazy, given: false, required: false, empty_ok: true, ops: vec![Get, Set, Clear, Has, Clone, Eq, Debug, New, Build, Bare, Swap, Ser, De], make: || Box::new(Two(S::new(), S::new())) }
    }
}
pub mod m47 {
    use super::*;
    #[fxstruct(serde, builder(into))]
    #[derive(Clone, Debug, PartialEq)]
    pub struct S { #[fieldx(optional, get(clone), set(into), clearer, predicate)] f: W }
    impl S {
    }
    pub struct Two(S, S);
    impl Subject for Two {
        #[allow(unused_mut, unused_variables)]
        fn step(&mut self, op: Op, n: u32) -> Out {
            let Two(s, o) = self;
            match op {
                Get => { let v = s.f(); keep(v) }
                Set => { keep(s.set_f(Raw(n))) }
                Clear => { keep(s.clear_f()) }
                Has => { B(s.has_f()) }
                Clone => { let c = s.clone(); *o = c; Unit }
                Eq => { B(*s == *o) }
                Debug => { let mut t = String::new(); let r = std::fmt::Write::write_fmt(&mut t, format_args!("{:?}", s)); B(r.is_ok()) }
                New => { let c: S = S::new(); *o = c; Unit }
                Build => { let c: S = S::builder().f(Raw(n)).build().unwrap(); *o = c; Unit }
                Bare => { match S::builder().build() { Ok(c) => { let c: S = c; *o = c; B(true) } Err(_) => B(false) } }
                Swap => { std::mem::swap(s, o); Unit }
                Ser => { drops(false); let t = serde_json::to_string(&*s).unwrap(); drops(true); shown(&t) }
                De => { drops(false); let c: S = serde_json::from_str(&format!("{{\"f\":{n}}}")).unwrap(); drops(true); *o = c; Unit }
                _ => unreachable!(),
            }
        }
    }
    pub fn case() -> Case {
        Case { name: "47", text: r#"#[fxstruct(serde, builder(into))] struct S { #[fieldx(optional, get(clone), set(into), clearer, predicate)] f: W }"#, kind: Kind::Opt, given: false, required: false, empty_ok: true, ops: vec![Get, Set, Clear, Has, Clone, Eq, Debug, New, Build, Bare, Swap, Ser, De], make: || Box::new(Two(S::new(), S::new())) }
    }
}
pub mod m48 {
    use super::*;
    #[fxstruct(serde, builder(into))]
    #[derive(Clone, Debug, PartialEq)]
    pub struct S { #[fieldx(get(clone), set(into))] f: W }
    impl S {
    }
    pub struct Two(S, S);
    impl Subject for Two {
        #[allow(unused_mut, unused_variables)]
        fn step(&mut self, op: Op, n: u32) -> Out {
            let Two(s, o) = self;
            match op {
                Get => { let v = s.f(); keep(Some(v)) }
                Set => { keep(Some(s.set_f(Raw(n)))) }
                Clone => { let c = s.clone(); *o = c; Unit }
                Eq => { B(*s == *o) }
                Debug => { let mut t = String::new(); let r = std::fmt::Write::write_fmt(&mut t, format_args!("{:?}", s)); B(r.is_ok()) }
                New => { let c: S = S::new(); *o = c; Unit }
                Build => { let c: S = S::builder().f(Raw(n)).build().unwrap(); *o = c; Unit }
                Bare => { match S::builder().build() { Ok(c) => { let c: S = c; *o = c; B(true) } Err(_) => B(false) } }
                Swap => { std::mem::swap(s, o); Unit }
                Ser => { drops(false); let t = serde_json::to_string(&*s).unwrap(); drops(true); shown(&t) }
                De => { drops(false); let c: S = serde_json::from_str(&format!("{{\"f\":{n}}}")).unwrap(); drops(true); *o = c; Unit }
                _ => unreachable!(),
            }
        }
    }
    pub fn case() -> Case {
        Case { name: "48", text: r#"#[fxstruct(serde, builder(into))] struct S { #[fieldx(get(clone), set(into))] f: W }"#, kind: Kind::Val, given: false, required: true, empty_ok: false, ops: vec![Get, Set, Clone, Eq, Debug, New, Build, Bare, Swap, Ser, De], make: || Box::new(Two(S::new(), S::new())) }
    }
}
pub mod m49 {
    use super::*;
    #[fxstruct(serde, builder(into))]
    #[derive(Clone, Debug, PartialEq)]
    pub struct S { #[fieldx(optional, inner_mut, get(clone), set(into), clearer, predicate)] f: W }
    impl S {
    }
    pub struct Two(S, S);
    impl Subject for Two {
        #[allow(unused_mut, unused_variables)]
        fn step(&mut self, op: Op, n: u32) -> Out {
            let Two(s, o) = self;
            match op {
                Get => { let v = s.f(); keep(v) }
                Set => { keep(s.set_f(Raw(n))) }
                Clear => { keep(s.clear_f()) }
                Has => { B(s.has_f()) }
                Clone => { let c = s.clone(); *o = c; Unit }
                Eq => { B(*s == *o) }
                Debug => { let mut t = String::new(); let r = std::fmt::Write::write_fmt(&mut t, format_args!("{:?}", s)); B(r.is_ok()) }
                New => { let c: S = S::new(); *o = c; Unit }
                Build => { let c: S = S::builder().f(Raw(n)).build().unwrap(); *o = c; Unit }
                Bare => { match S::builder().build() { Ok(c) => { let c: S = c; *o = c; B(true) } Err(_) => B(false) } }
                Swap => { std::mem::swap(s, o); Unit }
                Ser => { drops(false); let t = serde_json::to_string(&*s).unwrap(); drops(true); shown(&t) }
                De => { drops(false); let c: S = serde_json::from_str(&format!("{{\"f\":{n}}}")).unwrap(); drops(true); *o = c; Unit }
                _ => unreachable!(),
            }
        }
    }
    pub fn case() -> Case {
        Case { name: "49", text: r#"#[fxstruct(serde, builder(into))] struct S { #[fieldx(optional, inner_mut, get(clone), set(into), clearer, predicate)] f: W }"#, kind: Kind::Opt, given: false, required: false, empty_ok: true, ops: vec![Get, Set, Clear, Has, Clone, Eq, Debug, New, Build, Bare, Swap, Ser, De], make: || Box::new(Two(S::new(), S::new())) }
    }
}
pub mod m50 {
    use super::*;
    #[fxstruct(serde, builder(into))]
    #[derive(Clone, Debug, PartialEq)]
    pub struct S { #[fieldx(inner_mut, get(clone), set(into))] f: W }
    impl S {
    }
    pub struct Two(S, S);
    impl Subject for Two {
        #[allow(unused_mut, unused_variables)]
        fn step(&mut self, op: Op, n: u32) -> Out {
            let Two(s, o) = self;
            match op {
                Get => { let v = s.f(); keep(Some(v)) }
                Set => { keep(Some(s.set_f(Raw(n)))) }
                Clone => { let c = s.clone(); *o = c; Unit }
                Eq => { B(*s == *o) }
                Debug => { let mut t = String::new(); let r = std::fmt::Write::write_fmt(&mut t, format_args!("{:?}", s)); B(r.is_ok()) }
                New => { let c: S = S::new(); *o = c; Unit }
                Build => { let c: S = S::builder().f(Raw(n)).build().unwrap(); *o = c; Unit }
                Bare => { match S::builder().build() { Ok(c) => { let c: S = c; *o = c; B(true) } Err(_) => B(false) } }
                Swap => { std::mem::swap(s, o); Unit }
                Ser => { drops(false); let t = serde_json::to_string(&*s).unwrap(); drops(true); shown(&t) }
                De => { drops(false); let c: S = serde_json::from_str(&format!("{{\"f\":{n}}}")).unwrap(); drops(true); *o = c; Unit }
                _ => unreachable!(),
            }
        }
    }
    pub fn case() -> Case {
        Case { name: "50", text: r#"#[fxstruct(serde, builder(into))] struct S { #[fieldx(inner_mut, get(clone), set(into))] f: W }"#, kind: Kind::Val, given: false, required: true, empty_ok: false, ops: vec![Get, Set, Clone, Eq, Debug, New, Build, Bare, Swap, Ser, De], make: || Box::new(Two(S::new(), S::new())) }
    }
}
pub mod m51 {
    use super::*;
    #[fxstruct(builder(post_build))]
    #[derive(Clone, Debug, PartialEq)]
    pub struct S { #[fieldx(lazy, fallible(error(Sorry)), get, get_mut, set, clearer, predicate, default(five()))] f: W }
    impl S {
    fn build_f(&self) -> Result<W, Sorry> { Ok(built()) }
    fn post_build(self) -> Self { fault(); self }
    }
    pub struct Two(S, S);
    impl Subject for Two {
        #[allow(unused_mut, unused_variables)]
        fn step(&mut self, op: Op, n: u32) -> Out {
            let Two(s, o) = self;
            match op {
                Get => { let v = s.f().unwrap(); fault(); Old(Some(v.id())) }
                Mut => { let g = s.f_mut().unwrap(); fault(); let w = W::new(n, 0); *g = w; fault(); Unit }
                Set => { keep(s.set_f(W::new(n, 0))) }
                Clear => { keep(s.clear_f()) }
                Has => { B(s.has_f()) }
                Clone => { let c = s.clone(); *o = c; Unit }
                Eq => { B(*s == *o) }
                Debug => { let mut t = String::new(); let r = std::fmt::Write::write_fmt(&mut t, format_args!("{:?}", s)); B(r.is_ok()) }
                New => { let c: S = S::new(); *o = c; Unit }
                Build => { let c: S = S::builder().f(W::new(n, 0)).build().unwrap(); *o = c; Unit }
                Bare => { match S::builder().build() { Ok(c) => { let c: S = c; *o = c; B(true) } Err(_) => B(false) } }
                Swap => { std::mem::swap(s, o); Unit }
                _ => unreachable!(),
            }
        }
    }
    pub fn case() -> Case {
        Case { name: "51", text: r#"#[fxstruct(builder(post_build))] struct S { #[fieldx(lazy, fallible(error(Sorry)), get, get_mut, set, clearer, predicate, default(five()))] f: W }"#, kind: Kind::Lazy, given: true, required: false, empty_ok: true, ops: vec![Get, Mut, Set, Clear, Has, Clone, Eq, Debug, New, Build, Bare, Swap], make: || Box::new(Two(S::new(), S::new())) }
    }
}
pub mod m52 {
    use super::*;
    #[fxstruct(builder(into))]
    #[derive(Clone, Debug, PartialEq)]
    pub struct S { #[fieldx(lazy, get(clone), set(into), clearer, predicate, default(five()))] f: W, #[fieldx(get, builder(off), default(W::new(7, 0)))] g: W }
    impl S {
    fn build_f(&self) -> W { built() }
    }
    pub struct Two(S, S);
    impl Subject for Two {
        #[allow(unused_mut, unused_variables)]
        fn step(&mut self, op: Op, n: u32) -> Out {
            let Two(s, o) = self;
            match op {
                Get => { let v = s.f(); keep(Some(v)) }
                Set => { keep(s.set_f(Raw(n))) }
                Clear => { keep(s.clear_f()) }
                Has => { B(s.has_f()) }
                Clone => { let c = s.clone(); *o = c; Unit }
                Eq => { B(*s == *o) }
                Debug => { let mut t = String::new(); let r = std::fmt::Write::write_fmt(&mut t, format_args!("{:?}", s)); B(r.is_ok()) }
                New => { let c: S = S::new(); *o = c; Unit }
                Build => { let c: S = S::builder().f(Raw(n)).build().unwrap(); *o = c; Unit }
                Bare => { match S::builder().build() { Ok(c) => { let c: S = c; *o = c; B(true) } Err(_) => B(false) } }
                Swap => { std::mem::swap(s, o); Unit }
                Other => { V(s.g().id()) }
                _ => unreachable!(),
            }
        }
    }
    pub fn case() -> Case {
        Case { name: "52", text: r#"#[fxstruct(builder(into))] struct S { #[fieldx(lazy, get(clone), set(into), clearer, predicate, default(five()))] f: W }"#, kind: Kind::Lazy, given: true, required: false, empty_ok: true, ops: vec![Get, Set, Clear, Has, Clone, Eq, Debug, New, Build, Bare, Swap, Other], make: || Box::new(Two(S::new(), S::new())) }
    }
}
pub mod m53 {
    use super::*;
    #[fxstruct(builder(into))]
    #[derive(Clone, Debug, PartialEq)]
    pub struct S { #[fieldx(optional, get(clone), set(into), clearer, predicate, default(five()))] f: W, #[fieldx(get, builder(off), default(W::new(7, 0)))] g: W }
    impl S {
    }
    pub struct Two(S, S);
    impl Subject for Two {
        #[allow(unused_mut, unused_variables)]
        fn step(&mut self, op: Op, n: u32) -> Out {
            let Two(s, o) = self;
            match op {
                Get => { let v = s.f(); keep(v) }
                Set => { keep(s.set_f(Raw(n))) }
                Clear => { keep(s.clear_f()) }
                Has => { B(s.has_f()) }
                Clone => { let c = s.clone(); *o = c; Unit }
                Eq => { B(*s == *o) }
                Debug => { let mut t = String::new(); let r = std::fmt::Write::write_fmt(&mut t, format_args!("{:?}", s)); B(r.is_ok()) }
                New => { let c: S = S::new(); *o = c; Unit }
                Build => { let c: S = S::builder().f(Raw(n)).build().unwrap(); *o = c; Unit }
                Bare => { match S::builder().build() { Ok(c) => { let c: S = c; *o = c; B(true) } Err(_) => B(false) } }
                Swap => { std::mem::swap(s, o); Unit }
                Other => { V(s.g().id()) }
                _ => unreachable!(),
            }
        }
    }
    pub fn case() -> Case {
        Case { name: "53", text: r#"#[fxstruct(builder(into))] struct S { #[fieldx(optional, get(clone), set(into), clearer, predicate, default(five()))] f: W }"#, kind: Kind::Opt, given: true, required: false, empty_ok: true, ops: vec![Get, Set, Clear, Has, Clone, Eq, Debug, New, Build, Bare, Swap, Other], make: || Box::new(Two(S::new(), S::new())) }
    }
}
pub mod m54 {
    use super::*;
    #[fxstruct(builder(into))]
    #[derive(Clone, Debug, PartialEq)]
    pub struct S { #[fieldx(get(clone), set(into), default(five()))] f: W, #[fieldx(get, builder(off), default(W::new(7, 0)))] g: W }
    impl S {
    }
    pub struct Two(S, S);
    impl Subject for Two {
        #[allow(unused_mut, unused_variables)]
        fn step(&mut self, op: Op, n: u32) -> Out {
            let Two(s, o) = self;
            match op {
                Get => { let v = s.f(); keep(Some(v)) }
                Set => { keep(Some(s.set_f(Raw(n)))) }
                Clone => { let c = s.clone(); *o = c; Unit }
                Eq => { B(*s == *o) }
                Debug => { let mut t = String::new(); let r = std::fmt::Write::write_fmt(&mut t, format_args!("{:?}", s)); B(r.is_ok()) }
                New => { let c: S = S::new(); *o = c; Unit }
                Build => { let c: S = S::builder().f(Raw(n)).build().unwrap(); *o = c; Unit }
                Bare => { match S::builder().build() { Ok(c) => { let c: S = c; *o = c; B(true) } Err(_) => B(false) } }
                Swap => { std::mem::swap(s, o); Unit }
                Other => { V(s.g().id()) }
                _ => unreachable!(),
            }
        }
    }
    pub fn case() -> Case {
        Case { name: "54", text: r#"#[fxstruct(builder(into))] struct S { #[fieldx(get(clone), set(into), default(five()))] f: W }"#, kind: Kind::Val, given: true, required: false, empty_ok: false, ops: vec![Get, Set, Clone, Eq, Debug, New, Build, Bare, Swap, Other], make: || Box::new(Two(S::new(), S::new())) }
    }
}
pub mod m55 {
    use super::*;
    #[fxstruct(serde, builder(into))]
    #[derive(Clone, Debug, PartialEq)]
    pub struct S { #[fieldx(lazy, get(clone), set(into), clearer, predicate, default(five()))] f: W }
    impl S {
    fn build_f(&self) -> W { built() }
    }
    pub struct Two(S, S);
    impl Subject for Two {
        #[allow(unused_mut, unused_variables)]
        fn step(&mut self, op: Op, n: u32) -> Out {
            let Two(s, o) = self;
            match op {
                Get => { let v = s.f(); keep(Some(v)) }
                Set => { keep(s.set_f(Raw(n))) }
                Clear => { keep(s.clear_f()) }
                Has => { B(s.has_f()) }
                Clone => { let c = s.clone(); *o = c; Unit }
                Eq => { B(*s == *o) }
                Debug => { let mut t = String::new(); let r = std::fmt::Write::write_fmt(&mut t, format_args!("{:?}", s)); B(r.is_ok()) }
                New => { let c: S = S::new(); *o = c; Unit }
                Build => { let c: S = S::builder().f(Raw(n)).build().unwrap(); *o = c; Unit }
                Bare => { match S::builder().build() { Ok(c) => { let c: S = c; *o = c; B(true) } Err(_) => B(false) } }
                Swap => { std::mem::swap(s, o); Unit }
                Ser => { drops(false); let t = serde_json::to_string(&*s).unwrap(); drops(true); shown(&t) }
                De => { drops(false); let c: S = serde_json::from_str(&format!("{{\"f\":{n}}}")).unwrap(); drops(true); *o = c; Unit }
                _ => unreachable!(),
            }
        }
    }
    pub fn case() -> Case {
        Case { name: "55", text: r#"#[fxstruct(serde, builder(into))] struct S { #[fieldx(lazy, get(clone), set(into), clearer, predicate, default(five()))] f: W }"#, kind: Kind::Lazy, given: true, required: false, empty_ok: true, ops: vec![Get, Set, Clear, Has, Clone, Eq, Debug, New, Build, Bare, Swap, Ser, De], make: || Box::new(Two(S::new(), S::new())) }
    }
}
pub mod m56 {
    use super::*;
    #[fxstruct(serde, builder(into))]
    #[derive(Clone, Debug, PartialEq)]
    pub struct S { #[fieldx(optional, get(clone), set(into), clearer, predicate, default(five()))] f: W }
    impl S {
    }
    pub struct Two(S, S);
    impl Subject for Two {
        #[allow(unused_mut, unused_variables)]
        fn step(&mut self, op: Op, n: u32) -> Out {
            let Two(s, o) = self;
            match op {
                Get => { let v = s.f(); keep(v) }
                Set => { keep(s.set_f(Raw(n))) }
                Clear => { keep(s.clear_f()) }
                Has => { B(s.has_f()) }
                Clone => { let c = s.clone(); *o = c; Unit }
                Eq => { B(*s == *o) }
                Debug => { let mut t = String::new(); let r = std::fmt::Write::write_fmt(&mut t, format_args!("{:?}", s)); B(r.is_ok()) }
                New => { let c: S = S::new(); *o = c; Unit }
                Build => { let c: S = S::builder().f(Raw(n)).build().unwrap(); *o = c; Unit }
                Bare => { match S::builder().build() { Ok(c) => { let c: S = c; *o = c; B(true) } Err(_) => B(false) } }
                Swap => { std::mem::swap(s, o); Unit }
                Ser => { drops(false); let t = serde_json::to_string(&*s).unwrap(); drops(true); shown(&t) }
                De => { drops(false); let c: S = serde_json::from_str(&format!("{{\"f\":{n}}}")).unwrap(); drops(true); *o = c; Unit }
                _ => unreachable!(),
            }
        }
    }
    pub fn case() -> Case {
        Case { name: "56", text: r#"#[fxstruct(serde, builder(into))] struct S { #[fieldx(optional, get(clone), set(into), clearer, predicate, default(five()))] f: W }"#, kind: Kind::Opt, given: true, required: false, empty_ok: true, ops: vec![Get, Set, Clear, Has, Clone, Eq, Debug, New, Build, Bare, Swap, Ser, De], make: || Box::new(Two(S::new(), S::new())) }
    }
}
pub mod m57 {
    use super::*;
    #[fxstruct(serde, builder(into))]
    #[derive(Clone, Debug, PartialEq)]
    pub struct S { #[fieldx(get(clone), set(into), default(five()))] f: W }
    impl S {
    }
    pub struct Two(S, S);
    impl Subject for Two {
        #[allow(unused_mut, unused_variables)]
        fn step(&mut self, op: Op, n: u32) -> Out {
            let Two(s, o) = self;
            match op {
                Get => { let v = s.f(); keep(Some(v)) }
                Set => { keep(Some(s.set_f(Raw(n)))) }
                Clone => { let c = s.clone(); *o = c; Unit }
                Eq => { B(*s == *o) }
                Debug => { let mut t = String::new(); let r = std::fmt::Write::write_fmt(&mut t, format_args!("{:?}", s)); B(r.is_ok()) }
                New => { let c: S = S::new(); *o = c; Unit }
                Build => { let c: S = S::builder().f(Raw(n)).build().unwrap(); *o = c; Unit }
                Bare => { match S::builder().build() { Ok(c) => { let c: S = c; *o = c; B(true) } Err(_) => B(false) } }
                Swap => { std::mem::swap(s, o); Unit }
                Ser => { drops(false); let t = serde_json::to_string(&*s).unwrap(); drops(true); shown(&t) }
                De => { drops(false); let c: S = serde_json::from_str(&format!("{{\"f\":{n}}}")).unwrap(); drops(true); *o = c; Unit }
                _ => unreachable!(),
            }
        }
    }
    pub fn case() -> Case {
        Case { name: "57", text: r#"#[fxstruct(serde, builder(into))] struct S { #[fieldx(get(clone), set(into), default(five()))] f: W }"#, kind: Kind::Val, given: true, required: false, empty_ok: false, ops: vec![Get, Set, Clone, Eq, Debug, New, Build, Bare, Swap, Ser, De], make: || Box::new(Two(S::new(), S::new())) }
    }
}
pub mod m58 {
    use super::*;
    #[fxstruct(serde, builder(into))]
    #[derive(Clone, Debug, PartialEq)]
    pub struct S { #[fieldx(optional, inner_mut, get(clone), set(into), clearer, predicate, default(five()))] f: W }
    impl S {
    }
    pub struct Two(S, S);
    impl Subject for Two {
        #[allow(unused_mut, unused_variables)]
        fn step(&mut self, op: Op, n: u32) -> Out {
            let Two(s, o) = self;
            match op {
                Get => { let v = s.f(); keep(v) }
                Set => { keep(s.set_f(Raw(n))) }
                Clear => { keep(s.clear_f()) }
                Has => { B(s.has_f()) }
                Clone => { let c = s.clone(); *o = c; Unit }
                Eq => { B(*s == *o) }
                Debug => { let mut t = String::new(); let r = std::fmt::Write::write_fmt(&mut t, format_args!("{:?}", s)); B(r.is_ok()) }
                New => { let c: S = S::new(); *o = c; Unit }
                Build => { let c: S = S::builder().f(Raw(n)).build().unwrap(); *o = c; Unit }
                Bare => { match S::builder().build() { Ok(c) => { let c: S = c; *o = c; B(true) } Err(_) => B(false) } }
                Swap => { std::mem::swap(s, o); Unit }
                Ser => { drops(false); let t = serde_json::to_string(&*s).unwrap(); drops(true); shown(&t) }
                De => { drops(false); let c: S = serde_json::from_str(&format!("{{\"f\":{n}}}")).unwrap(); drops(true); *o = c; Unit }
                _ => unreachable!(),
            }
        }
    }
    pub fn case() -> Case {
        Case { name: "58", text: r#"#[fxstruct(serde, builder(into))] struct S { #[fieldx(optional, inner_mut, get(clone), set(into), clearer, predicate, default(five()))] f: W }"#, kind: Kind::Opt, given: true, required: false, empty_ok: true, ops: vec![Get, Set, Clear, Has, Clone, Eq, Debug, New, Build, Bare, Swap, Ser, De], make: || Box::new(Two(S::new(), S::new())) }
    }
}
pub mod m59 {
    use super::*;
    #[fxstruct(serde, builder(into))]
    #[derive(Clone, Debug, PartialEq)]
    pub struct S { #[fieldx(inner_mut, get(clone), set(into), default(five()))] f: W }
    impl S {
    }
    pub struct Two(S, S);
    impl Subject for Two {
        #[allow(unused_mut, unused_variables)]
        fn step(&mut self, op: Op, n: u32) -> Out {
            let Two(s, o) = self;
            match op {
                Get => { let v = s.f(); keep(Some(v)) }
                Set => { keep(Some(s.set_f(Raw(n)))) }
                Clone => { let c = s.clone(); *o = c; Unit }
                Eq => { B(*s == *o) }
                Debug => { let mut t = String::new(); let r = std::fmt::Write::write_fmt(&mut t, format_args!("{:?}", s)); B(r.is_ok()) }
                New => { let c: S = S::new(); *o = c; Unit }
                Build => { let c: S = S::builder().f(Raw(n)).build().unwrap(); *o = c; Unit }
                Bare => { match S::builder().build() { Ok(c) => { let c: S = c; *o = c; B(true) } Err(_) => B(false) } }
                Swap => { std::mem::swap(s, o); Unit }
                Ser => { drops(false); let t = serde_json::to_string(&*s).unwrap(); drops(true); shown(&t) }
                De => { drops(false); let c: S = serde_json::from_str(&format!("{{\"f\":{n}}}")).unwrap(); drops(true); *o = c; Unit }
                _ => unreachable!(),
            }
        }
    }
    pub fn case() -> Case {
        Case { name: "59", text: r#"#[fxstruct(serde, builder(into))] struct S { #[fieldx(inner_mut, get(clone), set(into), default(five()))] f: W }"#, kind: Kind::Val, given: true, required: false, empty_ok: false, ops: vec![Get, Set, Clone, Eq, Debug, New, Build, Bare, Swap, Ser, De], make: || Box::new(Two(S::new(), S::new())) }
    }
}
pub mod m60 {
    use super::*;
    #[fxstruct(sync, builder(into))]
    #[derive(Clone, Debug, PartialEq)]
    pub struct S { #[fieldx(lazy, get, get_mut, set, clearer, predicate, reader, writer)] f: W }
    impl S {
    fn build_f(&self) -> W { built() }
    }
    pub struct Two(S, S);
    impl Subject for Two {
        #[allow(unused_mut, unused_variables)]
        fn step(&mut self, op: Op, n: u32) -> Out {
            let Two(s, o) = self;
            match op {
                Get => { let v = s.f(); fault(); Old(Some(v.id())) }
                Mut => { let mut g = s.f_mut(); fault(); let w = W::new(n, 0); *g = w; fault(); Unit }
                Set => { keep(s.set_f(W::new(n, 0))) }
                Clear => { keep(s.clear_f()) }
                Has => { B(s.has_f()) }
                Reader => { let g = s.read_f(); fault(); let v = g.id(); fault(); V(v) }
                Writer => { let mut g = s.write_f(); fault(); let x = g.store(W::new(n, 0)); fault(); let y = g.clear(); fault(); let z = g.store(W::new(n, 1)); fault(); drop(g); keep3([x, y, z]) }
                Clone => { let c = s.clone(); *o = c; Unit }
                Eq => { B(*s == *o) }
                Debug => { let mut t = String::new(); let r = std::fmt::Write::write_fmt(&mut t, format_args!("{:?}", s)); B(r.is_ok()) }
                New => { let c: S = S::new(); *o = c; Unit }
                Build => { let c: S = S::builder().f(Raw(n)).build().unwrap(); *o = c; Unit }
                Bare => { match S::builder().build() { Ok(c) => { let c: S = c; *o = c; B(true) } Err(_) => B(false) } }
                Swap => { std::mem::swap(s, o); Unit }
                _ => unreachable!(),
            }
        }
    }
    pub fn case() -> Case {
        Case { name: "60", text: r#"#[fxstruct(sync, builder(into))] struct S { #[fieldx(lazy, get, get_mut, set, clearer, predicate, reader, writer)] f: W }"#, kind: Kind::Lazy, given: false, required: false, empty_ok: true, ops: vec![Get, Mut, Set, Clear, Has, Reader, Writer, Clone, Eq, Debug, New, Build, Bare, Swap], make: || Box::new(Two(S::new(), S::new())) }
    }
}
pub mod m61 {
    use super::*;
    #[fxstruct(sync, builder(into))]
    #[derive(Clone, Debug, PartialEq)]
    pub struct S { #[fieldx(lazy, get(clone), set(into), clearer, predicate, reader, writer)] f: W }
    impl S {
    fn build_f(&self) -> W { built() }
    }
    pub struct Two(S, S);
    impl Subject for Two {
        #[allow(unused_mut, unused_variables)]
        fn step(&mut self, op: Op, n: u32) -> Out {
            let Two(s, o) = self;
            match op {
                Get => { let v = s.f(); keep(Some(v)) }
                Set => { keep(s.set_f(Raw(n))) }
                Clear => { keep(s.clear_f()) }
                Has => { B(s.has_f()) }
                Reader => { let g = s.read_f(); fault(); let v = g.id(); fault(); V(v) }
                Writer => { let mut g = s.write_f(); fault(); let x = g.store(W::new(n, 0)); fault(); let y = g.clear(); fault(); let z = g.store(W::new(n, 1)); fault(); drop(g); keep3([x, y, z]) }
                Clone => { let c = s.clone(); *o = c; Unit }
                Eq => { B(*s == *o) }
                Debug => { let mut t = String::new(); let r = std::fmt::Write::write_fmt(&mut t, format_args!("{:?}", s)); B(r.is_ok()) }
                New => { let c: S = S::new(); *o = c; Unit }
                Build => { let c: S = S::builder().f(Raw(n)).build().unwrap(); *o = c; Unit }
                Bare => { match S::builder().build() { Ok(c) => { let c: S = c; *o = c; B(true) } Err(_) => B(false) } }
                Swap => { std::mem::swap(s, o); Unit }
                _ => unreachable!(),
            }
        }
    }
    pub fn case() -> Case {
        Case { name: "61", text: r#"#[fxstruct(sync, builder(into))] struct S { #[fieldx(lazy, get(clone), set(into), clearer, predicate, reader, writer)] f: W }"#, kind: Kind::Lazy, given: false, required: false, empty_ok: true, ops: vec![Get, Set, Clear, Has, Reader, Writer, Clone, Eq, Debug, New, Build, Bare, Swap], make: || Box::new(Two(S::new(), S::new())) }
    }
}
pub mod m62 {
    use super::*;
    #[fxstruct(sync, builder(into))]
    #[derive(Clone, Debug, PartialEq)]
    pub struct S { #[fieldx(lock, optional, get, get_mut, set, clearer, predicate, reader, writer)] f: W }
    impl S {
    }
    pub struct Two(S, S);
    impl Subject for Two {
        #[allow(unused_mut, unused_variables)]
        fn step(&mut self, op: Op, n: u32) -> Out {
            let Two(s, o) = self;
            match op {
                Get => { let v = s.f(); id((*v).as_ref()) }
                Mut => { let mut g = s.f_mut(); fault(); let w = Some(W::new(n, 0)); *g = w; fault(); Unit }
                Set => { keep(s.set_f(W::new(n, 0))) }
                Clear => { keep(s.clear_f()) }
                Has => { B(s.has_f()) }
                Reader => { let g = s.read_f(); fault(); let v = (*g).as_ref().map_or(0, |w| w.id()); fault(); V(v) }
                Writer => { let mut g = s.write_f(); fault(); let x = (*g).replace(W::new(n, 0)); fault(); let y = (*g).take(); fault(); let z = (*g).replace(W::new(n, 1)); fault(); drop(g); keep3([x, y, z]) }
                Clone => { let c = s.clone(); *o = c; Unit }
                Eq => { B(*s == *o) }
                Debug => { let mut t = String::new(); let r = std::fmt::Write::write_fmt(&mut t, format_args!("{:?}", s)); B(r.is_ok()) }
                New => { let c: S = S::new(); *o = c; Unit }
                Build => { let c: S = S::builder().f(Raw(n)).build().unwrap(); *o = c; Unit }
                Bare => { match S::builder().build() { Ok(c) => { let c: S = c; *o = c; B(true) } Err(_) => B(false) } }
                Swap => { std::mem::swap(s, o); Unit }
                _ => unreachable!(),
            }
        }
    }
    pub fn case() -> Case {
        Case { name: "62", text: r#"#[fxstruct(sync, builder(into))] struct S { #[fieldx(lock, optional, get, get_mut, set, clearer, predicate, reader, writer)] f: W }"#, kind: Kind::Opt, given: false, required: false, empty_ok: true, ops: vec![Get, Mut, Set, Clear, Has, Reader, Writer, Clone, Eq, Debug, New, Build, Bare, Swap], make: || Box::new(Two(S::new(), S::new())) }
    }
}
pub mod m63 {
    use super::*;
    #[fxstruct(sync, builder(into))]
    #[derive(Clone, Debug, PartialEq)]
    pub struct S { #[fieldx(lock, optional, get(clone), set(into), clearer, predicate, reader, writer)] f: W }
    impl S {
    }
    pub struct Two(S, S);
    impl Subject for Two {
        #[allow(unused_mut, unused_variables)]
        fn step(&mut self, op: Op, n: u32) -> Out {
            let Two(s, o) = self;
            match op {
                Get => { let v = s.f(); keep(v) }
                Set => { keep(s.set_f(Raw(n))) }
                Clear => { keep(s.clear_f()) }
                Has => { B(s.has_f()) }
                Reader => { let g = s.read_f(); fault(); let v = (*g).as_ref().map_or(0, |w| w.id()); fault(); V(v) }
                Writer => { let mut g = s.write_f(); fault(); let x = (*g).replace(W::new(n, 0)); fault(); let y = (*g).take(); fault(); let z = (*g).replace(W::new(n, 1)); fault(); drop(g); keep3([x, y, z]) }
                Clone => { let c = s.clone(); *o = c; Unit }
                Eq => { B(*s == *o) }
                Debug => { let mut t = String::new(); let r = std::fmt::Write::write_fmt(&mut t, format_args!("{:?}", s)); B(r.is_ok()) }
                New => { let c: S = S::new(); *o = c; Unit }
                Build => { let c: S = S::builder().f(Raw(n)).build().unwrap(); *o = c; Unit }
                Bare => { match S::builder().build() { Ok(c) => { let c: S = c; *o = c; B(true) } Err(_) => B(false) } }
                Swap => { std::mem::swap(s, o); Unit }
                _ => unreachable!(),
            }
        }
    }
    pub fn case() -> Case {
        Case { name: "63", text: r#"#[fxstruct(sync, builder(into))] struct S { #[fieldx(lock, optional, get(clone), set(into), clearer, predicate, reader, writer)] f: W }"#, kind: Kind::Opt, given: false, required: false, empty_ok: true, ops: vec![Get, Set, Clear, Has, Reader, Writer, Clone, Eq, Debug, New, Build, Bare, Swap], make: || Box::new(Two(S::new(), S::new())) }
    }
}
pub mod m64 {
    use super::*;
    #[fxstruct(sync, builder(into))]
    #[derive(Clone, Debug, PartialEq)]
    pub struct S { #[fieldx(lock, get, get_mut, set, reader, writer)] f: W }
    impl S {
    }
    pub struct Two(S, S);
    impl Subject for Two {
        #[allow(unused_mut, unused_variables)]
        fn step(&mut self, op: Op, n: u32) -> Out {
            let Two(s, o) = self;
            match op {
                Get => { let v = s.f(); fault(); Old(Some(v.id())) }
                Mut => { let mut g = s.f_mut(); fault(); let w = W::new(n, 0); *g = w; fault(); Unit }
                Set => { keep(Some(s.set_f(W::new(n, 0)))) }
                Reader => { let g = s.read_f(); fault(); let v = g.id(); fault(); V(v) }
                Writer => { let mut g = s.write_f(); fault(); *g = W::new(n, 0); fault(); *g = W::new(n, 1); fault(); drop(g); Unit }
                Clone => { let c = s.clone(); *o = c; Unit }
                Eq => { B(*s == *o) }
                Debug => { let mut t = String::new(); let r = std::fmt::Write::write_fmt(&mut t, format_args!("{:?}", s)); B(r.is_ok()) }
                New => { let c: S = S::new(); *o = c; Unit }
                Build => { let c: S = S::builder().f(Raw(n)).build().unwrap(); *o = c; Unit }
                Bare => { match S::builder().build() { Ok(c) => { let c: S = c; *o = c; B(true) } Err(_) => B(false) } }
                Swap => { std::mem::swap(s, o); Unit }
                _ => unreachable!(),
            }
        }
    }
    pub fn case() -> Case {
        Case { name: "64", text: r#"#[fxstruct(sync, builder(into))] struct S { #[fieldx(lock, get, get_mut, set, reader, writer)] f: W }"#, kind: Kind::Val, given: false, required: true, empty_ok: false, ops: vec![Get, Mut, Set, Reader, Writer, Clone, Eq, Debug, New, Build, Bare, Swap], make: || Box::new(Two(S::new(), S::new())) }
    }
}
pub mod m65 {
    use super::*;
    #[fxstruct(sync, builder(into))]
    #[derive(Clone, Debug, PartialEq)]
    pub struct S { #[fieldx(lock, get(clone), set(into), reader, writer)] f: W }
    impl S {
    }
    pub struct Two(S, S);
    impl Subject for Two {
        #[allow(unused_mut, unused_variables)]
        fn step(&mut self, op: Op, n: u32) -> Out {
            let Two(s, o) = self;
            match op {
                Get => { let v = s.f(); keep(Some(v)) }
                Set => { keep(Some(s.set_f(Raw(n)))) }
                Reader => { let g = s.read_f(); fault(); let v = g.id(); fault(); V(v) }
                Writer => { let mut g = s.write_f(); fault(); *g = W::new(n, 0); fault(); *g = W::new(n, 1); fault(); drop(g); Unit }
                Clone => { let c = s.clone(); *o = c; Unit }
                Eq => { B(*s == *o) }
                Debug => { let mut t = String::new(); let r = std::fmt::Write::write_fmt(&mut t, format_args!("{:?}", s)); B(r.is_ok()) }
                New => { let c: S = S::new(); *o = c; Unit }
                Build => { let c: S = S::builder().f(Raw(n)).build().unwrap(); *o = c; Unit }
                Bare => { match S::builder().build() { Ok(c) => { let c: S = c; *o = c; B(true) } Err(_) => B(false) } }
                Swap => { std::mem::swap(s, o); Unit }
                _ => unreachable!(),
            }
        }
    }
    pub fn case() -> Case {
        Case { name: "65", text: r#"#[fxstruct(sync, builder(into))] struct S { #[fieldx(lock, get(clone), set(into), reader, writer)] f: W }"#, kind: Kind::Val, given: false, required: true, empty_ok: false, ops: vec![Get, Set, Reader, Writer, Clone, Eq, Debug, New, Build, Bare, Swap], make: || Box::new(Two(S::new(), S::new())) }
    }
}
pub mod m66 {
    use super::*;
    #[fxstruct(sync, builder(into))]
    #[derive(Clone, Debug, PartialEq)]
    pub struct S { #[fieldx(lazy, get, get_mut, set, clearer, predicate, reader, writer, default(five()))] f: W }
    impl S {
    fn build_f(&self) -> W { built() }
    }
    pub struct Two(S, S);
    impl Subject for Two {
        #[allow(unused_mut, unused_variables)]
        fn step(&mut self, op: Op, n: u32) -> Out {
            let Two(s, o) = self;
            match op {
                Get => { let v = s.f(); fault(); Old(Some(v.id())) }
                Mut => { let mut g = s.f_mut(); fault(); let w = W::new(n, 0); *g = w; fault(); Unit }
                Set => { keep(s.set_f(W::new(n, 0))) }
                Clear => { keep(s.clear_f()) }
                Has => { B(s.has_f()) }
                Reader => { let g = s.read_f(); fault(); let v = g.id(); fault(); V(v) }
                Writer => { let mut g = s.write_f(); fault(); let x = g.store(W::new(n, 0)); fault(); let y = g.clear(); fault(); let z = g.store(W::new(n, 1)); fault(); drop(g); keep3([x, y, z]) }
                Clone => { let c = s.clone(); *o = c; Unit }
                Eq => { B(*s == *o) }
                Debug => { let mut t = String::new(); let r = std::fmt::Write::write_fmt(&mut t, format_args!("{:?}", s)); B(r.is_ok()) }
                New => { let c: S = S::new(); *o = c; Unit }
                Build => { let c: S = S::builder().f(Raw(n)).build().unwrap(); *o = c; Unit }
                Bare => { match S::builder().build() { Ok(c) => { let c: S = c; *o = c; B(true) } Err(_) => B(false) } }
                Swap => { std::mem::swap(s, o); Unit }
                _ => unreachable!(),
            }
        }
    }
    pub fn case() -> Case {
        Case { name: "66", text: r#"#[fxstruct(sync, builder(into))] struct S { #[fieldx(lazy, get, get_mut, set, clearer, predicate, reader, writer, default(five()))] f: W }"#, kind: Kind::Lazy, given: true, required: false, empty_ok: true, ops: vec![Get, Mut, Set, Clear, Has, Reader, Writer, Clone, Eq, Debug, New, Build, Bare, Swap], make: || Box::new(Two(S::new(), S::new())) }
    }
}
pub mod m67 {
    use super::*;
    #[fxstruct(sync, builder(into))]
    #[derive(Clone, Debug, PartialEq)]
    pub struct S { #[fieldx(lazy, get(clone), set(into), clearer, predicate, reader, writer, default(five()))] f: W }
    impl S {
    fn build_f(&self) -> W { built() }
    }
    pub struct Two(S, S);
    impl Subject for Two {
        #[allow(unused_mut, unused_variables)]
        fn step(&mut self, op: Op, n: u32) -> Out {
            let Two(s, o) = self;
            match op {
                Get => { let v = s.f(); keep(Some(v)) }
                Set => { keep(s.set_f(Raw(n))) }
                Clear => { keep(s.clear_f()) }
                Has => { B(s.has_f()) }
                Reader => { let g = s.read_f(); fault(); let v = g.id(); fault(); V(v) }
                Writer => { let mut g = s.write_f(); fault(); let x = g.store(W::new(n, 0)); fault(); let y = g.clear(); fault(); let z = g.store(W::new(n, 1)); fault(); drop(g); keep3([x, y, z]) }
                Clone => { let c = s.clone(); *o = c; Unit }
                Eq => { B(*s == *o) }
                Debug => { let mut t = String::new(); let r = std::fmt::Write::write_fmt(&mut t, format_args!("{:?}", s)); B(r.is_ok()) }
                New => { let c: S = S::new(); *o = c; Unit }
                Build => { let c: S = S::builder().f(Raw(n)).build().unwrap(); *o = c; Unit }
                Bare => { match S::builder().build() { Ok(c) => { let c: S = c; *o = c; B(true) } Err(_) => B(false) } }
                Swap => { std::mem::swap(s, o); Unit }
                _ => unreachable!(),
            }
        }
    }
    pub fn case() -> Case {
        Case { name: "67", text: r#"#[fxstruct(sync, builder(into))] struct S { #[fieldx(lazy, get(clone), set(into), clearer, predicate, reader, writer, default(five()))] f: W }"#, kind: Kind::Lazy, given: true, required: false, empty_ok: true, ops: vec![Get, Set, Clear, Has, Reader, Writer, Clone, Eq, Debug, New, Build, Bare, Swap], make: || Box::new(Two(S::new(), S::new())) }
    }
}
pub mod m68 {
    use super::*;
    #[fxstruct(sync, builder(into))]
    #[derive(Clone, Debug, PartialEq)]
    pub struct S { #[fieldx(lock, optional, get, get_mut, set, clearer, predicate, reader, writer, default(five()))] f: W }
    impl S {
    }
    pub struct Two(S, S);
    impl Subject for Two {
        #[allow(unused_mut, unused_variables)]
        fn step(&mut self, op: Op, n: u32) -> Out {
            let Two(s, o) = self;
            match op {
                Get => { let v = s.f(); id((*v).as_ref()) }
                Mut => { let mut g = s.f_mut(); fault(); let w = Some(W::new(n, 0)); *g = w; fault(); Unit }
                Set => { keep(s.set_f(W::new(n, 0))) }
                Clear => { keep(s.clear_f()) }
                Has => { B(s.has_f()) }
                Reader => { let g = s.read_f(); fault(); let v = (*g).as_ref().map_or(0, |w| w.id()); fault(); V(v) }
                Writer => { let mut g = s.write_f(); fault(); let x = (*g).replace(W::new(n, 0)); fault(); let y = (*g).take(); fault(); let z = (*g).replace(W::new(n, 1)); fault(); drop(g); keep3([x, y, z]) }
                Clone => { let c = s.clone(); *o = c; Unit }
                Eq => { B(*s == *o) }
                Debug => { let mut t = String::new(); let r = std::fmt::Write::write_fmt(&mut t, format_args!("{:?}", s)); B(r.is_ok()) }
                New => { let c: S = S::new(); *o = c; Unit }
                Build => { let c: S = S::builder().f(Raw(n)).build().unwrap(); *o = c; Unit }
                Bare => { match S::builder().build() { Ok(c) => { let c: S = c; *o = c; B(true) } Err(_) => B(false) } }
                Swap => { std::mem::swap(s, o); Unit }
                _ => unreachable!(),
            }
        }
    }
    pub fn case() -> Case {
        Case { name: "68", text: r#"#[fxstruct(sync, builder(into))] struct S { #[fieldx(lock, optional, get, get_mut, set, clearer, predicate, reader, writer, default(five()))] f: W }"#, kind: Kind::Opt, given: true, required: false, empty_ok: true, ops: vec![Get, Mut, Set, Clear, Has, Reader, Writer, Clone, Eq, Debug, New, Build, Bare, Swap], make: || Box::new(Two(S::new(), S::new())) }
    }
}
pub mod m69 {
    use super::*;
    #[fxstruct(sync, builder(into))]
    #[derive(Clone, Debug, PartialEq)]
    pub struct S { #[fieldx(lock, optional, get(clone), set(into), clearer, predicate, reader, writer, default(five()))] f: W }
    impl S {
    }
    pub struct Two(S, S);
    impl Subject for Two {
        #[allow(unused_mut, unused_variables)]
        fn step(&mut self, op: Op, n: u32) -> Out {
            let Two(s, o) = self;
            match op {
                Get => { let v = s.f(); keep(v) }
                Set => { keep(s.set_f(Raw(n))) }
                Clear => { keep(s.clear_f()) }
                Has => { B(s.has_f()) }
                Reader => { let g = s.read_f(); fault(); let v = (*g).as_ref().map_or(0, |w| w.id()); fault(); V(v) }
                Writer => { let mut g = s.write_f(); fault(); let x = (*g).replace(W::new(n, 0)); fault(); let y = (*g).take(); fault(); let z = (*g).replace(W::new(n, 1)); fault(); drop(g); keep3([x, y, z]) }
                Clone => { let c = s.clone(); *o = c; Unit }
                Eq => { B(*s == *o) }
                Debug => { let mut t = String::new(); let r = std::fmt::Write::write_fmt(&mut t, format_args!("{:?}", s)); B(r.is_ok()) }
                New => { let c: S = S::new(); *o = c; Unit }
                Build => { let c: S = S::builder().f(Raw(n)).build().unwrap(); *o = c; Unit }
                Bare => { match S::builder().build() { Ok(c) => { let c: S = c; *o = c; B(true) } Err(_) => B(false) } }
                Swap => { std::mem::swap(s, o); Unit }
                _ => unreachable!(),
            }
        }
    }
    pub fn case() -> Case {
        Case { name: "69", text: r#"#[fxstruct(sync, builder(into))] struct S { #[fieldx(lock, optional, get(clone), set(into), clearer, predicate, reader, writer, default(five()))] f: W }"#, kind: Kind::Opt, given: true, required: false, empty_ok: true, ops: vec![Get, Set, Clear, Has, Reader, Writer, Clone, Eq, Debug, New, Build, Bare, Swap], make: || Box::new(Two(S::new(), S::new())) }
    }
}
pub mod m70 {
    use super::*;
    #[fxstruct(sync, builder(into))]
    #[derive(Clone, Debug, PartialEq)]
    pub struct S { #[fieldx(lock, get, get_mut, set, reader, writer, default(five()))] f: W }
    impl S {
    }
    pub struct Two(S, S);
    impl Subject for Two {
        #[allow(unused_mut, unused_variables)]
        fn step(&mut self, op: Op, n: u32) -> Out {
            let Two(s, o) = self;
            match op {
                Get => { let v = s.f(); fault(); Old(Some(v.id())) }
                Mut => { let mut g = s.f_mut(); fault(); let w = W::new(n, 0); *g = w; fault(); Unit }
                Set => { keep(Some(s.set_f(W::new(n, 0)))) }
                Reader => { let g = s.read_f(); fault(); let v = g.id(); fault(); V(v) }
                Writer => { let mut g = s.write_f(); fault(); *g = W::new(n, 0); fault(); *g = W::new(n, 1); fault(); drop(g); Unit }
                Clone => { let c = s.clone(); *o = c; Unit }
                Eq => { B(*s == *o) }
                Debug => { let mut t = String::new(); let r = std::fmt::Write::write_fmt(&mut t, format_args!("{:?}", s)); B(r.is_ok()) }
                New => { let c: S = S::new(); *o = c; Unit }
                Build => { let c: S = S::builder().f(Raw(n)).build().unwrap(); *o = c; Unit }
                Bare => { match S::builder().build() { Ok(c) => { let c: S = c; *o = c; B(true) } Err(_) => B(false) } }
                Swap => { std::mem::swap(s, o); Unit }
                _ => unreachable!(),
            }
        }
    }
    pub fn case() -> Case {
        Case { name: "70", text: r#"#[fxstruct(sync, builder(into))] struct S { #[fieldx(lock, get, get_mut, set, reader, writer, default(five()))] f: W }"#, kind: Kind::Val, given: true, required: false, empty_ok: false, ops: vec![Get, Mut, Set, Reader, Writer, Clone, Eq, Debug, New, Build, Bare, Swap], make: || Box::new(Two(S::new(), S::new())) }
    }
}
pub mod m71 {
    use super::*;
    #[fxstruct(sync, builder(into))]
    #[derive(Clone, Debug, PartialEq)]
    pub struct S { #[fieldx(lock, get(clone), set(into), reader, writer, default(five()))] f: W }
    impl S {
    }
    pub struct Two(S, S);
    impl Subject for Two {
        #[allow(unused_mut, unused_variables)]
        fn step(&mut self, op: Op, n: u32) -> Out {
            let Two(s, o) = self;
            match op {
                Get => { let v = s.f(); keep(Some(v)) }
                Set => { keep(Some(s.set_f(Raw(n)))) }
                Reader => { let g = s.read_f(); fault(); let v = g.id(); fault(); V(v) }
                Writer => { let mut g = s.write_f(); fault(); *g = W::new(n, 0); fault(); *g = W::new(n, 1); fault(); drop(g); Unit }
                Clone => { let c = s.clone(); *o = c; Unit }
                Eq => { B(*s == *o) }
                Debug => { let mut t = String::new(); let r = std::fmt::Write::write_fmt(&mut t, format_args!("{:?}", s)); B(r.is_ok()) }
                New => { let c: S = S::new(); *o = c; Unit }
                Build => { let c: S = S::builder().f(Raw(n)).build().unwrap(); *o = c; Unit }
                Bare => { match S::builder().build() { Ok(c) => { let c: S = c; *o = c; B(true) } Err(_) => B(false) } }
                Swap => { std::mem::swap(s, o); Unit }
                _ => unreachable!(),
            }
        }
    }
    pub fn case() -> Case {
        Case { name: "71", text: r#"#[fxstruct(sync, builder(into))] struct S { #[fieldx(lock, get(clone), set(into), reader, writer, default(five()))] f: W }"#, kind: Kind::Val, given: true, required: false, empty_ok: false, ops: vec![Get, Set, Reader, Writer, Clone, Eq, Debug, New, Build, Bare, Swap], make: || Box::new(Two(S::new(), S::new())) }
    }
}
pub mod m72 {
    use super::*;
    #[fxstruct(sync, builder(post_build))]
    #[derive(Clone, Debug, PartialEq)]
    pub struct S { #[fieldx(lazy, get, get_mut, set, clearer, predicate, reader, writer)] f: W }
    impl S {
    fn build_f(&self) -> W { built() }
    fn post_build(self) -> Self { fault(); self }
    }
    pub struct Two(S, S);
    impl Subject for Two {
        #[allow(unused_mut, unused_variables)]
        fn step(&mut self, op: Op, n: u32) -> Out {
            let Two(s, o) = self;
            match op {
                Get => { let v = s.f(); fault(); Old(Some(v.id())) }
                Mut => { let mut g = s.f_mut(); fault(); let w = W::new(n, 0); *g = w; fault(); Unit }
                Set => { keep(s.set_f(W::new(n, 0))) }
                Clear => { keep(s.clear_f()) }
                Has => { B(s.has_f()) }
                Reader => { let g = s.read_f(); fault(); let v = g.id(); fault(); V(v) }
                Writer => { let mut g = s.write_f(); fault(); let x = g.store(W::new(n, 0)); fault(); let y = g.clear(); fault(); let z = g.store(W::new(n, 1)); fault(); drop(g); keep3([x, y, z]) }
                Clone => { let c = s.clone(); *o = c; Unit }
                Eq => { B(*s == *o) }
                Debug => { let mut t = String::new(); let r = std::fmt::Write::write_fmt(&mut t, format_args!("{:?}", s)); B(r.is_ok()) }
                New => { let c: S = S::new(); *o = c; Unit }
                Build => { let c: S = S::builder().f(W::new(n, 0)).build().unwrap(); *o = c; Unit }
                Bare => { match S::builder().build() { Ok(c) => { let c: S = c; *o = c; B(true) } Err(_) => B(false) } }
                Swap => { std::mem::swap(s, o); Unit }
                _ => unreachable!(),
            }
        }
    }
    pub fn case() -> Case {
        Case { name: "72", text: r#"#[fxstruct(sync, builder(post_build))] struct S { #[fieldx(lazy, get, get_mut, set, clearer, predicate, reader, writer)] f: W }"#, kind: Kind::Lazy, given: false, required: false, empty_ok: true, ops: vec![Get, Mut, Set, Clear, Has, Reader, Writer, Clone, Eq, Debug, New, Build, Bare, Swap], make: || Box::new(Two(S::new(), S::new())) }
    }
}
pub mod m73 {
    use super::*;
    #[fxstruct(sync, builder(post_build))]
    #[derive(Clone, Debug, PartialEq)]
    pub struct S { #[fieldx(lazy, get(clone), set(into), clearer, predicate, reader, writer)] f: W }
    impl S {
    fn build_f(&self) -> W { built() }
    fn post_build(self) -> Self { fault(); self }
    }
    pub struct Two(S, S);
    impl Subject for Two {
        #[allow(unused_mut, unused_variables)]
        fn step(&mut self, op: Op, n: u32) -> Out {
            let Two(s, o) = self;
            match op {
                Get => { let v = s.f(); keep(Some(v)) }
                Set => { keep(s.set_f(Raw(n))) }
                Clear => { keep(s.clear_f()) }
                Has => { B(s.has_f()) }
                Reader => { let g = s.read_f(); fault(); let v = g.id(); fault(); V(v) }
                Writer => { let mut g = s.write_f(); fault(); let x = g.store(W::new(n, 0)); fault(); let y = g.clear(); fault(); let z = g.store(W::new(n, 1)); fault(); drop(g); keep3([x, y, z]) }
                Clone => { let c = s.clone(); *o = c; Unit }
                Eq => { B(*s == *o) }
                Debug => { let mut t = String::new(); let r = std::fmt::Write::write_fmt(&mut t, format_args!("{:?}", s)); B(r.is_ok()) }
                New => { let c: S = S::new(); *o = c; Unit }
                Build => { let c: S = S::builder().f(W::new(n, 0)).build().unwrap(); *o = c; Unit }
                Bare => { match S::builder().build() { Ok(c) => { let c: S = c; *o = c; B(true) } Err(_) => B(false) } }
                Swap => { std::mem::swap(s, o); Unit }
                _ => unreachable!(),
            }
        }
    }
    pub fn case() -> Case {
        Case { name: "73", text: r#"#[fxstruct(sync, builder(post_build))] struct S { #[fieldx(lazy, get(clone), set(into), clearer, predicate, reader, writer)] f: W }"#, kind: Kind::Lazy, given: false, required: false, empty_ok: true, ops: vec![Get, Set, Clear, Has, Reader, Writer, Clone, Eq, Debug, New, Build, Bare, Swap], make: || Box::new(Two(S::new(), S::new())) }
    }
}
pub mod m74 {
    use super::*;
    #[fxstruct(sync, builder(post_build))]
    #[derive(Clone, Debug, PartialEq)]
    pub struct S { #[fieldx(lock, optional, get, get_mut, set, clearer, predicate, reader, writer)] f: W }
    impl S {
    fn post_build(self) -> Self { fault(); self }
    }
    pub struct Two(S, S);
    impl Subject for Two {
        #[allow(unused_mut, unused_variables)]
        fn step(&mut self, op: Op, n: u32) -> Out {
            let Two(s, o) = self;
            match op {
                Get => { let v = s.f(); id((*v).as_ref()) }
                Mut => { let mut g = s.f_mut(); fault(); let w = Some(W::new(n, 0)); *g = w; fault(); Unit }
                Set => { keep(s.set_f(W::new(n, 0))) }
                Clear => { keep(s.clear_f()) }
                Has => { B(s.has_f()) }
                Reader => { let g = s.read_f(); fault(); let v = (*g).as_ref().map_or(0, |w| w.id()); fault(); V(v) }
                Writer => { let mut g = s.write_f(); fault(); let x = (*g).replace(W::new(n, 0)); fault(); let y = (*g).take(); fault(); let z = (*g).replace(W::new(n, 1)); fault(); drop(g); keep3([x, y, z]) }
                Clone => { let c = s.clone(); *o = c; Unit }
                Eq => { B(*s == *o) }
                Debug => { let mut t = String::new(); let r = std::fmt::Write::write_fmt(&mut t, format_args!("{:?}", s)); B(r.is_ok()) }
                New => { let c: S = S::new(); *o = c; Unit }
                Build => { let c: S = S::builder().f(W::new(n, 0)).build().unwrap(); *o = c; Unit }
                Bare => { match S::builder().build() { Ok(c) => { let c: S = c; *o = c; B(true) } Err(_) => B(false) } }
                Swap => { std::mem::swap(s, o); Unit }
                _ => unreachable!(),
            }
        }
    }
    pub fn case() -> Case {
        Case { name: "74", text: r#"#[fxstruct(sync, builder(post_build))] struct S { #[fieldx(lock, optional, get, get_mut, set, clearer, predicate, reader, writer)] f: W }"#, kind: Kind::Opt, given: false, required: false, empty_ok: true, ops: vec![Get, Mut, Set, Clear, Has, Reader, Writer, Clone, Eq, Debug, New, Build, Bare, Swap], make: || Box::new(Two(S::new(), S::new())) }
    }
}
pub mod m75 {
    use super::*;
    #[fxstruct(sync, builder(post_build))]
    #[derive(Clone, Debug, PartialEq)]
    pub struct S { #[fieldx(lock, optional, get(clone), set(into), clearer, predicate, reader, writer)] f: W }
    impl S {
    fn post_build(self) -> Self { fault(); self }
    }
    pub struct Two(S, S);
    impl Subject for Two {
        #[allow(unused_mut, unused_variables)]
        fn step(&mut self, op: Op, n: u32) -> Out {
            let Two(s, o) = self;
            match op {
                Get => { let v = s.f(); keep(v) }
                Set => { keep(s.set_f(Raw(n))) }
                Clear => { keep(s.clear_f()) }
                Has => { B(s.has_f()) }
                Reader => { let g = s.read_f(); fault(); let v = (*g).as_ref().map_or(0, |w| w.id()); fault(); V(v) }
                Writer => { let mut g = s.write_f(); fault(); let x = (*g).replace(W::new(n, 0)); fault(); let y = (*g).take(); fault(); let z = (*g).replace(W::new(n, 1)); fault(); drop(g); keep3([x, y, z]) }
                Clone => { let c = s.clone(); *o = c; Unit }
                Eq => { B(*s == *o) }
                Debug => { let mut t = String::new(); let r = std::fmt::Write::write_fmt(&mut t, format_args!("{:?}", s)); B(r.is_ok()) }
                New => { let c: S = S::new(); *o = c; Unit }
                Build => { let c: S = S::builder().f(W::new(n, 0)).build().unwrap(); *o = c; Unit }
                Bare => { match S::builder().build() { Ok(c) => { let c: S = c; *o = c; B(true) } Err(_) => B(false) } }
                Swap => { std::mem::swap(s, o); Unit }
                _ => unreachable!(),
            }
        }
    }
    pub fn case() -> Case {
        Case { name: "75", text: r#"#[fxstruct(sync, builder(post_build))] struct S { #[fieldx(lock, optional, get(clone), set(into), clearer, predicate, reader, writer)] f: W }"#, kind: Kind::Opt, given: false, required: false, empty_ok: true, ops: vec![Get, Set, Clear, Has, Reader, Writer, Clone, Eq, Debug, New, Build, Bare, Swap], make: || Box::new(Two(S::new(), S::new())) }
    }
}
pub mod m76 {
    use super::*;
    #[fxstruct(sync, builder(post_build))]
    #[derive(Clone, Debug, PartialEq)]
    pub struct S { #[fieldx(lock, get, get_mut, set, reader, writer)] f: W }
    impl S {
    fn post_build(self) -> Self { fault(); self }
    }
    pub struct Two(S, S);
    impl Subject for Two {
        #[allow(unused_mut, unused_variables)]
        fn step(&mut self, op: Op, n: u32) -> Out {
            let Two(s, o) = self;
            match op {
                Get => { let v = s.f(); fault(); Old(Some(v.id())) }
                Mut => { let mut g = s.f_mut(); fault(); let w = W::new(n, 0); *g = w; fault(); Unit }
                Set => { keep(Some(s.set_f(W::new(n, 0)))) }
                Reader => { let g = s.read_f(); fault(); let v = g.id(); fault(); V(v) }
                Writer => { let mut g = s.write_f(); fault(); *g = W::new(n, 0); fault(); *g = W::new(n, 1); fault(); drop(g); Unit }
                Clone => { let c = s.clone(); *o = c; Unit }
                Eq => { B(*s == *o) }
                Debug => { let mut t = String::new(); let r = std::fmt::Write::write_fmt(&mut t, format_args!("{:?}", s)); B(r.is_ok()) }
                New => { let c: S = S::new(); *o = c; Unit }
                Build => { let c: S = S::builder().f(W::new(n, 0)).build().unwrap(); *o = c; Unit }
                Bare => { match S::builder().build() { Ok(c) => { let c: S = c; *o = c; B(true) } Err(_) => B(false) } }
                Swap => { std::mem::swap(s, o); Unit }
                _ => unreachable!(),
            }
        }
    }
    pub fn case() -> Case {
        Case { name: "76", text: r#"#[fxstruct(sync, builder(post_build))] struct S { #[fieldx(lock, get, get_mut, set, reader, writer)] f: W }"#, kind: Kind::Val, given: false, required: true, empty_ok: false, ops: vec![Get, Mut, Set, Reader, Writer, Clone, Eq, Debug, New, Build, Bare, Swap], make: || Box::new(Two(S::new(), S::new())) }
    }
}
pub mod m77 {
    use super::*;
    #[fxstruct(sync, builder(post_build))]
    #[derive(Clone, Debug, PartialEq)]
    pub struct S { #[fieldx(lock, get(clone), set(into), reader, writer)] f: W }
    impl S {
    fn post_build(self) -> Self { fault(); self }
    }
    pub struct Two(S, S);
    impl Subject for Two {
        #[allow(unused_mut, unused_variables)]
        fn step(&mut self, op: Op, n: u32) -> Out {
            let Two(s, o) = self;
            match op {
                Get => { let v = s.f(); keep(Some(v)) }
                Set => { keep(Some(s.set_f(Raw(n)))) }
                Reader => { let g = s.read_f(); fault(); let v = g.id(); fault(); V(v) }
                Writer => { let mut g = s.write_f(); fault(); *g = W::new(n, 0); fault(); *g = W::new(n, 1); fault(); drop(g); Unit }
                Clone => { let c = s.clone(); *o = c; Unit }
                Eq => { B(*s == *o) }
                Debug => { let mut t = String::new(); let r = std::fmt::Write::write_fmt(&mut t, format_args!("{:?}", s)); B(r.is_ok()) }
                New => { let c: S = S::new(); *o = c; Unit }
                Build => { let c: S = S::builder().f(W::new(n, 0)).build().unwrap(); *o = c; Unit }
                Bare => { match S::builder().build() { Ok(c) => { let c: S = c; *o = c; B(true) } Err(_) => B(false) } }
                Swap => { std::mem::swap(s, o); Unit }
                _ => unreachable!(),
            }
        }
    }
    pub fn case() -> Case {
        Case { name: "77", text: r#"#[fxstruct(sync, builder(post_build))] struct S { #[fieldx(lock, get(clone), set(into), reader, writer)] f: W }"#, kind: Kind::Val, given: false, required: true, empty_ok: false, ops: vec![Get, Set, Reader, Writer, Clone, Eq, Debug, New, Build, Bare, Swap], make: || Box::new(Two(S::new(), S::new())) }
    }
}
pub mod m78 {
    use super::*;
    #[fxstruct(sync, builder(post_build))]
    #[derive(Clone, Debug, PartialEq)]
    pub struct S { #[fieldx(lazy, get, get_mut, set, clearer, predicate, reader, writer, default(five()))] f: W }
    impl S {
    fn build_f(&self) -> W { built() }
    fn post_build(self) -> Self { fault(); self }
    }
    pub struct Two(S, S);
    impl Subject for Two {
        #[allow(unused_mut, unused_variables)]
        fn step(&mut self, op: Op, n: u32) -> Out {
            let Two(s, o) = self;
            match op {
                Get => { let v = s.f(); fault(); Old(Some(v.id())) }
                Mut => { let mut g = s.f_mut(); fault(); let w = W::new(n, 0); *g = w; fault(); Unit }
                Set => { keep(s.set_f(W::new(n, 0))) }
                Clear => { keep(s.clear_f()) }
                Has => { B(s.has_f()) }
                Reader => { let g = s.read_f(); fault(); let v = g.id(); fault(); V(v) }
                Writer => { let mut g = s.write_f(); fault(); let x = g.store(W::new(n, 0)); fault(); let y = g.clear(); fault(); let z = g.store(W::new(n, 1)); fault(); drop(g); keep3([x, y, z]) }
                Clone => { let c = s.clone(); *o = c; Unit }
                Eq => { B(*s == *o) }
                Debug => { let mut t = String::new(); let r = std::fmt::Write::write_fmt(&mut t, format_args!("{:?}", s)); B(r.is_ok()) }
                New => { let c: S = S::new(); *o = c; Unit }
                Build => { let c: S = S::builder().f(W::new(n, 0)).build().unwrap(); *o = c; Unit }
                Bare => { match S::builder().build() { Ok(c) => { let c: S = c; *o = c; B(true) } Err(_) => B(false) } }
                Swap => { std::mem::swap(s, o); Unit }
                _ => unreachable!(),
            }
        }
    }
    pub fn case() -> Case {
        Case { name: "78", text: r#"#[fxstruct(sync, builder(post_build))] struct S { #[fieldx(lazy, get, get_mut, set, clearer, predicate, reader, writer, default(five()))] f: W }"#, kind: Kind::Lazy, given: true, required: false, empty_ok: true, ops: vec![Get, Mut, Set, Clear, Has, Reader, Writer, Clone, Eq, Debug, New, Build, Bare, Swap], make: || Box::new(Two(S::new(), S::new())) }
    }
}
pub mod m79 {
    use super::*;
    #[fxstruct(sync, builder(post_build))]
    #[derive(Clone, Debug, PartialEq)]
    pub struct S { #[fieldx(lazy, get(clone), set(into), clearer, predicate, reader, writer, default(five()))] f: W }
    impl S {
    fn build_f(&self) -> W { built() }
    fn post_build(self) -> Self { fault(); self }
    }
    pub struct Two(S, S);
    impl Subject for Two {
        #[allow(unused_mut, unused_variables)]
        fn step(&mut self, op: Op, n: u32) -> Out {
            let Two(s, o) = self;
            match op {
                Get => { let v = s.f(); keep(Some(v)) }
                Set => { keep(s.set_f(Raw(n))) }
                Clear => { keep(s.clear_f()) }
                Has => { B(s.has_f()) }
                Reader => { let g = s.read_f(); fault(); let v = g.id(); fault(); V(v) }
                Writer => { let mut g = s.write_f(); fault(); let x = g.store(W::new(n, 0)); fault(); let y = g.clear(); fault(); let z = g.store(W::new(n, 1)); fault(); drop(g); keep3([x, y, z]) }
                Clone => { let c = s.clone(); *o = c; Unit }
                Eq => { B(*s == *o) }
                Debug => { let mut t = String::new(); let r = std::fmt::Write::write_fmt(&mut t, format_args!("{:?}", s)); B(r.is_ok()) }
                New => { let c: S = S::new(); *o = c; Unit }
                Build => { let c: S = S::builder().f(W::new(n, 0)).build().unwrap(); *o = c; Unit }
                Bare => { match S::builder().build() { Ok(c) => { let c: S = c; *o = c; B(true) } Err(_) => B(false) } }
                Swap => { std::mem::swap(s, o); Unit }
                _ => unreachable!(),
            }
        }
    }
    pub fn case() -> Case {
        Case { name: "79", text: r#"#[fxstruct(sync, builder(post_build))] struct S { #[fieldx(lazy, get(clone), set(into), clearer, predicate, reader, writer, default(five()))] f: W }"#, kind: Kind::Lazy, given: true, required: false, empty_ok: true, ops: vec![Get, Set, Clear, Has, Reader, Writer, Clone, Eq, Debug, New, Build, Bare, Swap], make: || Box::new(Two(S::new(), S::new())) }
    }
}
pub mod m80 {
    use super::*;
    #[fxstruct(sync, builder(post_build))]
    #[derive(Clone, Debug, PartialEq)]
    pub struct S { #[fieldx(lock, optional, get, get_mut, set, clearer, predicate, reader, writer, default(five()))] f: W }
    impl S {
    fn post_build(self) -> Self { fault(); self }
    }
    pub struct Two(S, S);
    impl Subject for Two {
        #[allow(unused_mut, unused_variables)]
        fn step(&mut self, op: Op, n: u32) -> Out {
            let Two(s, o) = self;
            match op {
                Get => { let v = s.f(); id((*v).as_ref()) }
                Mut => { let mut g = s.f_mut(); fault(); let w = Some(W::new(n, 0)); *g = w; fault(); Unit }
                Set => { keep(s.set_f(W::new(n, 0))) }
                Clear => { keep(s.clear_f()) }
                Has => { B(s.has_f()) }
                Reader => { let g = s.read_f(); fault(); let v = (*g).as_ref().map_or(0, |w| w.id()); fault(); V(v) }
                Writer => { let mut g = s.write_f(); fault(); let x = (*g).replace(W::new(n, 0)); fault(); let y = (*g).take(); fault(); let z = (*g).replace(W::new(n, 1)); fault(); drop(g); keep3([x, y, z]) }
                Clone => { let c = s.clone(); *o = c; Unit }
                Eq => { B(*s == *o) }
                Debug => { let mut t = String::new(); let r = std::fmt::Write::write_fmt(&mut t, format_args!("{:?}", s)); B(r.is_ok()) }
                New => { let c: S = S::new(); *o = c; Unit }
                Build => { let c: S = S::builder().f(W::new(n, 0)).build().unwrap(); *o = c; Unit }
                Bare => { match S::builder().build() { Ok(c) => { let c: S = c; *o = c; B(true) } Err(_) => B(false) } }
                Swap => { std::mem::swap(s, o); Unit }
                _ => unreachable!(),
            }
        }
    }
    pub fn case() -> Case {
        Case { name: "80", text: r#"#[fxstruct(sync, builder(post_build))] struct S { #[fieldx(lock, optional, get, get_mut, set, clearer, predicate, reader, writer, default(five()))] f: W }"#, kind: Kind::Opt, given: true, required: false, empty_ok: true, ops: vec![Get, Mut, Set, Clear, Has, Reader, Writer, Clone, Eq, Debug, New, Build, Bare, Swap], make: || Box::new(Two(S::new(), S::new())) }
    }
}
pub mod m81 {
    use super::*;
    #[fxstruct(sync, builder(post_build))]
    #[derive(Clone, Debug, PartialEq)]
    pub struct S { #[fieldx(lock, optional, get(clone), set(into), clearer, predicate, reader, writer, default(five()))] f: W }
    impl S {
    fn post_build(self) -> Self { fault(); self }
    }
    pub struct Two(S, S);
    impl Subject for Two {
        #[allow(unused_mut, unused_variables)]
        fn step(&mut self, op: Op, n: u32) -> Out {
            let Two(s, o) = self;
            match op {
                Get => { let v = s.f(); keep(v) }
                Set => { keep(s.set_f(Raw(n))) }
                Clear => { keep(s.clear_f()) }
                Has => { B(s.has_f()) }
                Reader => { let g = s.read_f(); fault(); let v = (*g).as_ref().map_or(0, |w| w.id()); fault(); V(v) }
                Writer => { let mut g = s.write_f(); fault(); let x = (*g).replace(W::new(n, 0)); fault(); let y = (*g).take(); fault(); let z = (*g).replace(W::new(n, 1)); fault(); drop(g); keep3([x, y, z]) }
                Clone => { let c = s.clone(); *o = c; Unit }
                Eq => { B(*s == *o) }
                Debug => { let mut t = String::new(); let r = std::fmt::Write::write_fmt(&mut t, format_args!("{:?}", s)); B(r.is_ok()) }
                New => { let c: S = S::new(); *o = c; Unit }
                Build => { let c: S = S::builder().f(W::new(n, 0)).build().unwrap(); *o = c; Unit }
                Bare => { match S::builder().build() { Ok(c) => { let c: S = c; *o = c; B(true) } Err(_) => B(false) } }
                Swap => { std::mem::swap(s, o); Unit }
                _ => unreachable!(),
            }
        }
    }
    pub fn case() -> Case {
        Case { name: "81", text: r#"#[fxstruct(sync, builder(post_build))] struct S { #[fieldx(lock, optional, get(clone), set(into), clearer, predicate, reader, writer, default(five()))] f: W }"#, kind: Kind::Opt, given: true, required: false, empty_ok: true, ops: vec![Get, Set, Clear, Has, Reader, Writer, Clone, Eq, Debug, New, Build, Bare, Swap], make: || Box::new(Two(S::new(), S::new())) }
    }
}
pub mod m82 {
    use super::*;
    #[fxstruct(sync, builder(post_build))]
    #[derive(Clone, Debug, PartialEq)]
    pub struct S { #[fieldx(lock, get, get_mut, set, reader, writer, default(five()))] f: W }
    impl S {
    fn post_build(self) -> Self { fault(); self }
    }
    pub struct Two(S, S);
    impl Subject for Two {
        #[allow(unused_mut, unused_variables)]
        fn step(&mut self, op: Op, n: u32) -> Out {
            let Two(s, o) = self;
            match op {
                Get => { let v = s.f(); fault(); Old(Some(v.id())) }
                Mut => { let mut g = s.f_mut(); fault(); let w = W::new(n, 0); *g = w; fault(); Unit }
                Set => { keep(Some(s.set_f(W::new(n, 0)))) }
                Reader => { let g = s.read_f(); fault(); let v = g.id(); fault(); V(v) }
                Writer => { let mut g = s.write_f(); fault(); *g = W::new(n, 0); fault(); *g = W::new(n, 1); fault(); drop(g); Unit }
                Clone => { let c = s.clone(); *o = c; Unit }
                Eq => { B(*s == *o) }
                Debug => { let mut t = String::new(); let r = std::fmt::Write::write_fmt(&mut t, format_args!("{:?}", s)); B(r.is_ok()) }
                New => { let c: S = S::new(); *o = c; Unit }
                Build => { let c: S = S::builder().f(W::new(n, 0)).build().unwrap(); *o = c; Unit }
                Bare => { match S::builder().build() { Ok(c) => { let c: S = c; *o = c; B(true) } Err(_) => B(false) } }
                Swap => { std::mem::swap(s, o); Unit }
                _ => unreachable!(),
            }
        }
    }
    pub fn case() -> Case {
        Case { name: "82", text: r#"#[fxstruct(sync, builder(post_build))] struct S { #[fieldx(lock, get, get_mut, set, reader, writer, default(five()))] f: W }"#, kind: Kind::Val, given: true, required: false, empty_ok: false, ops: vec![Get, Mut, Set, Reader, Writer, Clone, Eq, Debug, New, Build, Bare, Swap], make: || Box::new(Two(S::new(), S::new())) }
    }
}
pub mod m83 {
    use super::*;
    #[fxstruct(sync, builder(post_build))]
    #[derive(Clone, Debug, PartialEq)]
    pub struct S { #[fieldx(lock, get(clone), set(into), reader, writer, default(five()))] f: W }
    impl S {
    fn post_build(self) -> Self { fault(); self }
    }
    pub struct Two(S, S);
    impl Subject for Two {
        #[allow(unused_mut, unused_variables)]
        fn step(&mut self, op: Op, n: u32) -> Out {
            let Two(s, o) = self;
            match op {
                Get => { let v = s.f(); keep(Some(v)) }
                Set => { keep(Some(s.set_f(Raw(n)))) }
                Reader => { let g = s.read_f(); fault(); let v = g.id(); fault(); V(v) }
                Writer => { let mut g = s.write_f(); fault(); *g = W::new(n, 0); fault(); *g = W::new(n, 1); fault(); drop(g); Unit }
                Clone => { let c = s.clone(); *o = c; Unit }
                Eq => { B(*s == *o) }
                Debug => { let mut t = String::new(); let r = std::fmt::Write::write_fmt(&mut t, format_args!("{:?}", s)); B(r.is_ok()) }
                New => { let c: S = S::new(); *o = c; Unit }
                Build => { let c: S = S::builder().f(W::new(n, 0)).build().unwrap(); *o = c; Unit }
                Bare => { match S::builder().build() { Ok(c) => { let c: S = c; *o = c; B(true) } Err(_) => B(false) } }
                Swap => { std::mem::swap(s, o); Unit }
                _ => unreachable!(),
            }
        }
    }
    pub fn case() -> Case {
        Case { name: "83", text: r#"#[fxstruct(sync, builder(post_build))] struct S { #[fieldx(lock, get(clone), set(into), reader, writer, default(five()))] f: W }"#, kind: Kind::Val, given: true, required: false, empty_ok: false, ops: vec![Get, Set, Reader, Writer, Clone, Eq, Debug, New, Build, Bare, Swap], make: || Box::new(Two(S::new(), S::new())) }
    }
}
pub mod m84 {
    use super::*;
    #[fxstruct(sync, rc, builder(post_build, into))]
    #[derive(Debug)]
    pub struct S { #[fieldx(lazy, get, get_mut, set, clearer, predicate, reader, writer)] f: W }
    impl S {
    fn build_f(&self) -> W { built() }
    fn post_build(self) -> Self { fault(); self }
    }
    pub struct Two(Arc<S>, Arc<S>);
    impl Subject for Two {
        #[allow(unused_mut, unused_variables)]
        fn step(&mut self, op: Op, n: u32) -> Out {
            let Two(s, o) = self;
            match op {
                Get => { let v = s.f(); fault(); Old(Some(v.id())) }
                Mut => { let mut g = s.f_mut(); fault(); let w = W::new(n, 0); *g = w; fault(); Unit }
                Set => { keep(s.set_f(W::new(n, 0))) }
                Clear => { keep(s.clear_f()) }
                Has => { B(s.has_f()) }
                Reader => { let g = s.read_f(); fault(); let v = g.id(); fault(); V(v) }
                Writer => { let mut g = s.write_f(); fault(); let x = g.store(W::new(n, 0)); fault(); let y = g.clear(); fault(); let z = g.store(W::new(n, 1)); fault(); drop(g); keep3([x, y, z]) }
                Debug => { let mut t = String::new(); let r = std::fmt::Write::write_fmt(&mut t, format_args!("{:?}", s)); B(r.is_ok()) }
                New => { let c: Arc<S> = S::new(); *o = c; Unit }
                Build => { let c: Arc<S> = S::builder().f(Raw(n)).build().unwrap(); *o = c; Unit }
                Bare => { match S::builder().build() { Ok(c) => { let c: Arc<S> = c; *o = c; B(true) } Err(_) => B(false) } }
                Swap => { std::mem::swap(s, o); Unit }
                _ => unreachable!(),
            }
        }
    }
    pub fn case() -> Case {
        Case { name: "84", text: r#"#[fxstruct(sync, rc, builder(post_build, into))] struct S { #[fieldx(lazy, get, get_mut, set, clearer, predicate, reader, writer)] f: W }"#, kind: Kind::Lazy, given: false, required: false, empty_ok: true, ops: vec![Get, Mut, Set, Clear, Has, Reader, Writer, Debug, New, Build, Bare, Swap], make: || Box::new(Two(S::new(), S::new())) }
    }
}
pub mod m85 {
    use super::*;
    #[fxstruct(sync, rc, builder(post_build, into))]
    #[derive(Debug)]
    pub struct S { #[fieldx(lazy, get(clone), set(into), clearer, predicate, reader, writer)] f: W }
    impl S {
    fn build_f(&self) -> W { built() }
    fn post_build(self) -> Self { fault(); self }
    }
    pub struct Two(Arc<S>, Arc<S>);
    impl Subject for Two {
        #[allow(unused_mut, unused_variables)]
        fn step(&mut self, op: Op, n: u32) -> Out {
            let Two(s, o) = self;
            match op {
                Get => { let v = s.f(); keep(Some(v)) }
                Set => { keep(s.set_f(Raw(n))) }
                Clear => { keep(s.clear_f()) }
                Has => { B(s.has_f()) }
                Reader => { let g = s.read_f(); fault(); let v = g.id(); fault(); V(v) }
                Writer => { let mut g = s.write_f(); fault(); let x = g.store(W::new(n, 0)); fault(); let y = g.clear(); fault(); let z = g.store(W::new(n, 1)); fault(); drop(g); keep3([x, y, z]) }
                Debug => { let mut t = String::new(); let r = std::fmt::Write::write_fmt(&mut t, format_args!("{:?}", s)); B(r.is_ok()) }
                New => { let c: Arc<S> = S::new(); *o = c; Unit }
                Build => { let c: Arc<S> = S::builder().f(Raw(n)).build().unwrap(); *o = c; Unit }
                Bare => { match S::builder().build() { Ok(c) => { let c: Arc<S> = c; *o = c; B(true) } Err(_) => B(false) } }
                Swap => { std::mem::swap(s, o); Unit }
                _ => unreachable!(),
            }
        }
    }
    pub fn case() -> Case {
        Case { name: "85", text: r#"#[fxstruct(sync, rc, builder(post_build, into))] struct S { #[fieldx(lazy, get(clone), set(into), clearer, predicate, reader, writer)] f: W }"#, kind: Kind::Lazy, given: false, required: false, empty_ok: true, ops: vec![Get, Set, Clear, Has, Reader, Writer, Debug, New, Build, Bare, Swap], make: || Box::new(Two(S::new(), S::new())) }
    }
}
pub mod m86 {
    use super::*;
    #[fxstruct(sync, rc, builder(post_build, into))]
    #[derive(Debug)]
    pub struct S { #[fieldx(lock, optional, get, get_mut, set, clearer, predicate, reader, writer)] f: W }
    impl S {
    fn post_build(self) -> Self { fault(); self }
    }
    pub struct Two(Arc<S>, Arc<S>);
    impl Subject for Two {
        #[allow(unused_mut, unused_variables)]
        fn step(&mut self, op: Op, n: u32) -> Out {
            let Two(s, o) = self;
            match op {
                Get => { let v = s.f(); id((*v).as_ref()) }
                Mut => { let mut g = s.f_mut(); fault(); let w = Some(W::new(n, 0)); *g = w; fault(); Unit }
                Set => { keep(s.set_f(W::new(n, 0))) }
                Clear => { keep(s.clear_f()) }
                Has => { B(s.has_f()) }
                Reader => { let g = s.read_f(); fault(); let v = (*g).as_ref().map_or(0, |w| w.id()); fault(); V(v) }
                Writer => { let mut g = s.write_f(); fault(); let x = (*g).replace(W::new(n, 0)); fault(); let y = (*g).take(); fault(); let z = (*g).replace(W::new(n, 1)); fault(); drop(g); keep3([x, y, z]) }
                Debug => { let mut t = String::new(); let r = std::fmt::Write::write_fmt(&mut t, format_args!("{:?}", s)); B(r.is_ok()) }
                New => { let c: Arc<S> = S::new(); *o = c; Unit }
                Build => { let c: Arc<S> = S::builder().f(Raw(n)).build().unwrap(); *o = c; Unit }
                Bare => { match S::builder().build() { Ok(c) => { let c: Arc<S> = c; *o = c; B(true) } Err(_) => B(false) } }
                Swap => { std::mem::swap(s, o); Unit }
                _ => unreachable!(),
            }
        }
    }
    pub fn case() -> Case {
        Case { name: "86", text: r#"#[fxstruct(sync, rc, builder(post_build, into))] struct S { #[fieldx(lock, optional, get, get_mut, set, clearer, predicate, reader, writer)] f: W }"#, kind: Kind::Opt, given: false, required: false, empty_ok: true, ops: vec![Get, Mut, Set, Clear, Has, Reader, Writer, Debug, New, Build, Bare, Swap], make: || Box::new(Two(S::new(), S::new())) }
    }
}
pub mod m87 {
    use super::*;
    #[fxstruct(sync, rc, builder(post_build, into))]
    #[derive(Debug)]
    pub struct S { #[fieldx(lock, optional, get(clone), set(into), clearer, predicate, reader, writer)] f: W }
    impl S {
    fn post_build(self) -> Self { fault(); self }
    }
    pub struct Two(Arc<S>, Arc<S>);
    impl Subject for Two {
        #[allow(unused_mut, unused_variables)]
        fn step(&mut self, op: Op, n: u32) -> Out {
            let Two(s, o) = self;
            match op {
                Get => { let v = s.f(); keep(v) }
                Set => { keep(s.set_f(Raw(n))) }
                Clear => { keep(s.clear_f()) }
                Has => { B(s.has_f()) }
                Reader => { let g = s.read_f(); fault(); let v = (*g).as_ref().map_or(0, |w| w.id()); fault(); V(v) }
                Writer => { let mut g = s.write_f(); fault(); let x = (*g).replace(W::new(n, 0)); fault(); let y = (*g).take(); fault(); let z = (*g).replace(W::new(n, 1)); fault(); drop(g); keep3([x, y, z]) }
                Debug => { let mut t = String::new(); let r = std::fmt::Write::write_fmt(&mut t, format_args!("{:?}", s)); B(r.is_ok()) }
                New => { let c: Arc<S> = S::new(); *o = c; Unit }
                Build => { let c: Arc<S> = S::builder().f(Raw(n)).build().unwrap(); *o = c; Unit }
                Bare => { match S::builder().build() { Ok(c) => { let c: Arc<S> = c; *o = c; B(true) } Err(_) => B(false) } }
                Swap => { std::mem::swap(s, o); Unit }
                _ => unreachable!(),
            }
        }
    }
    pub fn case() -> Case {
        Case { name: "87", text: r#"#[fxstruct(sync, rc, builder(post_build, into))] struct S { #[fieldx(lock, optional, get(clone), set(into), clearer, predicate, reader, writer)] f: W }"#, kind: Kind::Opt, given: false, required: false, empty_ok: true, ops: vec![Get, Set, Clear, Has, Reader, Writer, Debug, New, Build, Bare, Swap], make: || Box::new(Two(S::new(), S::new())) }
    }
}
pub mod m88 {
    use super::*;
    #[fxstruct(sync, rc, builder(post_build, into))]
    #[derive(Debug)]
    pub struct S { #[fieldx(lock, get, get_mut, set, reader, writer)] f: W }
    impl S {
    fn post_build(self) -> Self { fault(); self }
    }
    pub struct Two(Arc<S>, Arc<S>);
    impl Subject for Two {
        #[allow(unused_mut, unused_variables)]
        fn step(&mut self, op: Op, n: u32) -> Out {
            let Two(s, o) = self;
            match op {
                Get => { let v = s.f(); fault(); Old(Some(v.id())) }
                Mut => { let mut g = s.f_mut(); fault(); let w = W::new(n, 0); *g = w; fault(); Unit }
                Set => { keep(Some(s.set_f(W::new(n, 0)))) }
                Reader => { let g = s.read_f(); fault(); let v = g.id(); fault(); V(v) }
                Writer => { let mut g = s.write_f(); fault(); *g = W::new(n, 0); fault(); *g = W::new(n, 1); fault(); drop(g); Unit }
                Debug => { let mut t = String::new(); let r = std::fmt::Write::write_fmt(&mut t, format_args!("{:?}", s)); B(r.is_ok()) }
                New => { let c: Arc<S> = S::new(); *o = c; Unit }
                Build => { let c: Arc<S> = S::builder().f(Raw(n)).build().unwrap(); *o = c; Unit }
                Bare => { match S::builder().build() { Ok(c) => { let c: Arc<S> = c; *o = c; B(true) } Err(_) => B(false) } }
                Swap => { std::mem::swap(s, o); Unit }
                _ => unreachable!(),
            }
        }
    }
    pub fn case() -> Case {
        Case { name: "88", text: r#"#[fxstruct(sync, rc, builder(post_build, into))] struct S { #[fieldx(lock, get, get_mut, set, reader, writer)] f: W }"#, kind: Kind::Val, given: false, required: true, empty_ok: false, ops: vec![Get, Mut, Set, Reader, Writer, Debug, New, Build, Bare, Swap], make: || Box::new(Two(S::new(), S::new())) }
    }
}
pub mod m89 {
    use super::*;
    #[fxstruct(sync, rc, builder(post_build, into))]
    #[derive(Debug)]
    pub struct S { #[fieldx(lock, get(clone), set(into), reader, writer)] f: W }
    impl S {
    fn post_build(self) -> Self { fault(); self }
    }
    pub struct Two(Arc<S>, Arc<S>);
    impl Subject for Two {
        #[allow(unused_mut, unused_variables)]
        fn step(&mut self, op: Op, n: u32) -> Out {
            let Two(s, o) = self;
            match op {
                Get => { let v = s.f(); keep(Some(v)) }
                Set => { keep(Some(s.set_f(Raw(n)))) }
                Reader => { let g = s.read_f(); fault(); let v = g.id(); fault(); V(v) }
                Writer => { let mut g = s.write_f(); fault(); *g = W::new(n, 0); fault(); *g = W::new(n, 1); fault(); drop(g); Unit }
                Debug => { let mut t = String::new(); let r = std::fmt::Write::write_fmt(&mut t, format_args!("{:?}", s)); B(r.is_ok()) }
                New => { let c: Arc<S> = S::new(); *o = c; Unit }
                Build => { let c: Arc<S> = S::builder().f(Raw(n)).build().unwrap(); *o = c; Unit }
                Bare => { match S::builder().build() { Ok(c) => { let c: Arc<S> = c; *o = c; B(true) } Err(_) => B(false) } }
                Swap => { std::mem::swap(s, o); Unit }
                _ => unreachable!(),
            }
        }
    }
    pub fn case() -> Case {
        Case { name: "89", text: r#"#[fxstruct(sync, rc, builder(post_build, into))] struct S { #[fieldx(lock, get(clone), set(into), reader, writer)] f: W }"#, kind: Kind::Val, given: false, required: true, empty_ok: false, ops: vec![Get, Set, Reader, Writer, Debug, New, Build, Bare, Swap], make: || Box::new(Two(S::new(), S::new())) }
    }
}
pub mod m90 {
    use super::*;
    #[fxstruct(sync, rc, builder(post_build, into))]
    #[derive(Debug)]
    pub struct S { #[fieldx(lazy, get, get_mut, set, clearer, predicate, reader, writer, default(five()))] f: W }
    impl S {
    fn build_f(&self) -> W { built() }
    fn post_build(self) -> Self { fault(); self }
    }
    pub struct Two(Arc<S>, Arc<S>);
    impl Subject for Two {
        #[allow(unused_mut, unused_variables)]
        fn step(&mut self, op: Op, n: u32) -> Out {
            let Two(s, o) = self;
            match op {
                Get => { let v = s.f(); fault(); Old(Some(v.id())) }
                Mut => { let mut g = s.f_mut(); fault(); let w = W::new(n, 0); *g = w; fault(); Unit }
                Set => { keep(s.set_f(W::new(n, 0))) }
                Clear => { keep(s.clear_f()) }
                Has => { B(s.has_f()) }
                Reader => { let g = s.read_f(); fault(); let v = g.id(); fault(); V(v) }
                Writer => { let mut g = s.write_f(); fault(); let x = g.store(W::new(n, 0)); fault(); let y = g.clear(); fault(); let z = g.store(W::new(n, 1)); fault(); drop(g); keep3([x, y, z]) }
                Debug => { let mut t = String::new(); let r = std::fmt::Write::write_fmt(&mut t, format_args!("{:?}", s)); B(r.is_ok()) }
                New => { let c: Arc<S> = S::new(); *o = c; Unit }
                Build => { let c: Arc<S> = S::builder().f(Raw(n)).build().unwrap(); *o = c; Unit }
                Bare => { match S::builder().build() { Ok(c) => { let c: Arc<S> = c; *o = c; B(true) } Err(_) => B(false) } }
                Swap => { std::mem::swap(s, o); Unit }
                _ => unreachable!(),
            }
        }
    }
    pub fn case() -> Case {
        Case { name: "90", text: r#"#[fxstruct(sync, rc, builder(post_build, into))] struct S { #[fieldx(lazy, get, get_mut, set, clearer, predicate, reader, writer, default(five()))] f: W }"#, kind: Kind::Lazy, given: true, required: false, empty_ok: true, ops: vec![Get, Mut, Set, Clear, Has, Reader, Writer, Debug, New, Build, Bare, Swap], make: || Box::new(Two(S::new(), S::new())) }
    }
}
pub mod m91 {
    use super::*;
    #[fxstruct(sync, rc, builder(post_build, into))]
    #[derive(Debug)]
    pub struct S { #[fieldx(lazy, get(clone), set(into), clearer, predicate, reader, writer, default(five()))] f: W }
    impl S {
    fn build_f(&self) -> W { built() }
    fn post_build(self) -> Self { fault(); self }
    }
    pub struct Two(Arc<S>, Arc<S>);
    impl Subject for Two {
        #[allow(unused_mut, unused_variables)]
        fn step(&mut self, op: Op, n: u32) -> Out {
            let Two(s, o) = self;
            match op {
                Get => { let v = s.f(); keep(Some(v)) }
                Set => { keep(s.set_f(Raw(n))) }
                Clear => { keep(s.clear_f()) }
                Has => { B(s.has_f()) }
                Reader => { let g = s.read_f(); fault(); let v = g.id(); fault(); V(v) }
                Writer => { let mut g = s.write_f(); fault(); let x = g.store(W::new(n, 0)); fault(); let y = g.clear(); fault(); let z = g.store(W::new(n, 1)); fault(); drop(g); keep3([x, y, z]) }
                Debug => { let mut t = String::new(); let r = std::fmt::Write::write_fmt(&mut t, format_args!("{:?}", s)); B(r.is_ok()) }
                New => { let c: Arc<S> = S::new(); *o = c; Unit }
                Build => { let c: Arc<S> = S::builder().f(Raw(n)).build().unwrap(); *o = c; Unit }
                Bare => { match S::builder().build() { Ok(c) => { let c: Arc<S> = c; *o = c; B(true) } Err(_) => B(false) } }
                Swap => { std::mem::swap(s, o); Unit }
                _ => unreachable!(),
            }
        }
    }
    pub fn case() -> Case {
        Case { name: "91", text: r#"#[fxstruct(sync, rc, builder(post_build, into))] struct S { #[fieldx(lazy, get(clone), set(into), clearer, predicate, reader, writer, default(five()))] f: W }"#, kind: Kind::Lazy, given: true, required: false, empty_ok: true, ops: vec![Get, Set, Clear, Has, Reader, Writer, Debug, New, Build, Bare, Swap], make: || Box::new(Two(S::new(), S::new())) }
    }
}
pub mod m92 {
    use super::*;
    #[fxstruct(sync, rc, builder(post_build, into))]
    #[derive(Debug)]
    pub struct S { #[fieldx(lock, optional, get, get_mut, set, clearer, predicate, reader, writer, default(five()))] f: W }
    impl S {
    fn post_build(self) -> Self { fault(); self }
    }
    pub struct Two(Arc<S>, Arc<S>);
    impl Subject for Two {
        #[allow(unused_mut, unused_variables)]
        fn step(&mut self, op: Op, n: u32) -> Out {
            let Two(s, o) = self;
            match op {
                Get => { let v = s.f(); id((*v).as_ref()) }
                Mut => { let mut g = s.f_mut(); fault(); let w = Some(W::new(n, 0)); *g = w; fault(); Unit }
                Set => { keep(s.set_f(W::new(n, 0))) }
                Clear => { keep(s.clear_f()) }
                Has => { B(s.has_f()) }
                Reader => { let g = s.read_f(); fault(); let v = (*g).as_ref().map_or(0, |w| w.id()); fault(); V(v) }
                Writer => { let mut g = s.write_f(); fault(); let x = (*g).replace(W::new(n, 0)); fault(); let y = (*g).take(); fault(); let z = (*g).replace(W::new(n, 1)); fault(); drop(g); keep3([x, y, z]) }
                Debug => { let mut t = String::new(); let r = std::fmt::Write::write_fmt(&mut t, format_args!("{:?}", s)); B(r.is_ok()) }
                New => { let c: Arc<S> = S::new(); *o = c; Unit }
                Build => { let c: Arc<S> = S::builder().f(Raw(n)).build().unwrap(); *o = c; Unit }
                Bare => { match S::builder().build() { Ok(c) => { let c: Arc<S> = c; *o = c; B(true) } Err(_) => B(false) } }
                Swap => { std::mem::swap(s, o); Unit }
                _ => unreachable!(),
            }
        }
    }
    pub fn case() -> Case {
        Case { name: "92", text: r#"#[fxstruct(sync, rc, builder(post_build, into))] struct S { #[fieldx(lock, optional, get, get_mut, set, clearer, predicate, reader, writer, default(five()))] f: W }"#, kind: Kind::Opt, given: true, required: false, empty_ok: true, ops: vec![Get, Mut, Set, Clear, Has, Reader, Writer, Debug, New, Build, Bare, Swap], make: || Box::new(Two(S::new(), S::new())) }
    }
}
pub mod m93 {
    use super::*;
    #[fxstruct(sync, rc, builder(post_build, into))]
    #[derive(Debug)]
    pub struct S { #[fieldx(lock, optional, get(clone), set(into), clearer, predicate, reader, writer, default(five()))] f: W }
    impl S {
    fn post_build(self) -> Self { fault(); self }
    }
    pub struct Two(Arc<S>, Arc<S>);
    impl Subject for Two {
        #[allow(unused_mut, unused_variables)]
        fn step(&mut self, op: Op, n: u32) -> Out {
            let Two(s, o) = self;
            match op {
                Get => { let v = s.f(); keep(v) }
                Set => { keep(s.set_f(Raw(n))) }
                Clear => { keep(s.clear_f()) }
                Has => { B(s.has_f()) }
                Reader => { let g = s.read_f(); fault(); let v = (*g).as_ref().map_or(0, |w| w.id()); fault(); V(v) }
                Writer => { let mut g = s.write_f(); fault(); let x = (*g).replace(W::new(n, 0)); fault(); let y = (*g).take(); fault(); let z = (*g).replace(W::new(n, 1)); fault(); drop(g); keep3([x, y, z]) }
                Debug => { let mut t = String::new(); let r = std::fmt::Write::write_fmt(&mut t, format_args!("{:?}", s)); B(r.is_ok()) }
                New => { let c: Arc<S> = S::new(); *o = c; Unit }
                Build => { let c: Arc<S> = S::builder().f(Raw(n)).build().unwrap(); *o = c; Unit }
                Bare => { match S::builder().build() { Ok(c) => { let c: Arc<S> = c; *o = c; B(true) } Err(_) => B(false) } }
                Swap => { std::mem::swap(s, o); Unit }
                _ => unreachable!(),
            }
        }
    }
    pub fn case() -> Case {
        Case { name: "93", text: r#"#[fxstruct(sync, rc, builder(post_build, into))] struct S { #[fieldx(lock, optional, get(clone), set(into), clearer, predicate, reader, writer, default(five()))] f: W }"#, kind: Kind::Opt, given: true, required: false, empty_ok: true, ops: vec![Get, Set, Clear, Has, Reader, Writer, Debug, New, Build, Bare, Swap], make: || Box::new(Two(S::new(), S::new())) }
    }
}
pub mod m94 {
    use super::*;
    #[fxstruct(sync, rc, builder(post_build, into))]
    #[derive(Debug)]
    pub struct S { #[fieldx(lock, get, get_mut, set, reader, writer, default(five()))] f: W }
    impl S {
    fn post_build(self) -> Self { fault(); self }
    }
    pub struct Two(Arc<S>, Arc<S>);
    impl Subject for Two {
        #[allow(unused_mut, unused_variables)]
        fn step(&mut self, op: Op, n: u32) -> Out {
            let Two(s, o) = self;
            match op {
                Get => { let v = s.f(); fault(); Old(Some(v.id())) }
                Mut => { let mut g = s.f_mut(); fault(); let w = W::new(n, 0); *g = w; fault(); Unit }
                Set => { keep(Some(s.set_f(W::new(n, 0)))) }
                Reader => { let g = s.read_f(); fault(); let v = g.id(); fault(); V(v) }
                Writer => { let mut g = s.write_f(); fault(); *g = W::new(n, 0); fault(); *g = W::new(n, 1); fault(); drop(g); Unit }
                Debug => { let mut t = String::new(); let r = std::fmt::Write::write_fmt(&mut t, format_args!("{:?}", s)); B(r.is_ok()) }
                New => { let c: Arc<S> = S::new(); *o = c; Unit }
                Build => { let c: Arc<S> = S::builder().f(Raw(n)).build().unwrap(); *o = c; Unit }
                Bare => { match S::builder().build() { Ok(c) => { let c: Arc<S> = c; *o = c; B(true) } Err(_) => B(false) } }
                Swap => { std::mem::swap(s, o); Unit }
                _ => unreachable!(),
            }
        }
    }
    pub fn case() -> Case {
        Case { name: "94", text: r#"#[fxstruct(sync, rc, builder(post_build, into))] struct S { #[fieldx(lock, get, get_mut, set, reader, writer, default(five()))] f: W }"#, kind: Kind::Val, given: true, required: false, empty_ok: false, ops: vec![Get, Mut, Set, Reader, Writer, Debug, New, Build, Bare, Swap], make: || Box::new(Two(S::new(), S::new())) }
    }
}
pub mod m95 {
    use super::*;
    #[fxstruct(sync, rc, builder(post_build, into))]
    #[derive(Debug)]
    pub struct S { #[fieldx(lock, get(clone), set(into), reader, writer, default(five()))] f: W }
    impl S {
    fn post_build(self) -> Self { fault(); self }
    }
    pub struct Two(Arc<S>, Arc<S>);
    impl Subject for Two {
        #[allow(unused_mut, unused_variables)]
        fn step(&mut self, op: Op, n: u32) -> Out {
            let Two(s, o) = self;
            match op {
                Get => { let v = s.f(); keep(Some(v)) }
                Set => { keep(Some(s.set_f(Raw(n)))) }
                Reader => { let g = s.read_f(); fault(); let v = g.id(); fault(); V(v) }
                Writer => { let mut g = s.write_f(); fault(); *g = W::new(n, 0); fault(); *g = W::new(n, 1); fault(); drop(g); Unit }
                Debug => { let mut t = String::new(); let r = std::fmt::Write::write_fmt(&mut t, format_args!("{:?}", s)); B(r.is_ok()) }
                New => { let c: Arc<S> = S::new(); *o = c; Unit }
                Build => { let c: Arc<S> = S::builder().f(Raw(n)).build().unwrap(); *o = c; Unit }
                Bare => { match S::builder().build() { Ok(c) => { let c: Arc<S> = c; *o = c; B(true) } Err(_) => B(false) } }
                Swap => { std::mem::swap(s, o); Unit }
                _ => unreachable!(),
            }
        }
    }
    pub fn case() -> Case {
        Case { name: "95", text: r#"#[fxstruct(sync, rc, builder(post_build, into))] struct S { #[fieldx(lock, get(clone), set(into), reader, writer, default(five()))] f: W }"#, kind: Kind::Val, given: true, required: false, empty_ok: false, ops: vec![Get, Set, Reader, Writer, Debug, New, Build, Bare, Swap], make: || Box::new(Two(S::new(), S::new())) }
    }
}
pub mod m96 {
    use super::*;
    #[fxstruct(sync, builder(post_build))]
    #[derive(Clone, Debug, PartialEq)]
    pub struct S { #[fieldx(lazy, fallible(error(Sorry)), get, get_mut, set, clearer, predicate, reader, writer)] f: W }
    impl S {
    fn build_f(&self) -> Result<W, Sorry> { Ok(built()) }
    fn post_build(self) -> Self { fault(); self }
    }
    pub struct Two(S, S);
    impl Subject for Two {
        #[allow(unused_mut, unused_variables)]
        fn step(&mut self, op: Op, n: u32) -> Out {
            let Two(s, o) = self;
            match op {
                Get => { let v = s.f().unwrap(); fault(); Old(Some(v.id())) }
                Mut => { let mut g = s.f_mut().unwrap(); fault(); let w = W::new(n, 0); *g = w; fault(); Unit }
                Set => { keep(s.set_f(W::new(n, 0))) }
                Clear => { keep(s.clear_f()) }
                Has => { B(s.has_f()) }
                Reader => { let g = s.read_f().unwrap(); fault(); let v = g.id(); fault(); V(v) }
                Writer => { let mut g = s.write_f(); fault(); let x = g.store(W::new(n, 0)); fault(); let y = g.clear(); fault(); let z = g.store(W::new(n, 1)); fault(); drop(g); keep3([x, y, z]) }
                Clone => { let c = s.clone(); *o = c; Unit }
                Eq => { B(*s == *o) }
                Debug => { let mut t = String::new(); let r = std::fmt::Write::write_fmt(&mut t, format_args!("{:?}", s)); B(r.is_ok()) }
                New => { let c: S = S::new(); *o = c; Unit }
                Build => { let c: S = S::builder().f(W::new(n, 0)).build().unwrap(); *o = c; Unit }
                Bare => { match S::builder().build() { Ok(c) => { let c: S = c; *o = c; B(true) } Err(_) => B(false) } }
                Swap => { std::mem::swap(s, o); Unit }
                _ => unreachable!(),
            }
        }
    }
    pub fn case() -> Case {
        Case { name: "96", text: r#"#[fxstruct(sync, builder(post_build))] struct S { #[fieldx(lazy, fallible(error(Sorry)), get, get_mut, set, clearer, predicate, reader, writer)] f: W }"#, kind: Kind::Lazy, given: false, required: false, empty_ok: true, ops: vec![Get, Mut, Set, Clear, Has, Reader, Writer, Clone, Eq, Debug, New, Build, Bare, Swap], make: || Box::new(Two(S::new(), S::new())) }
    }
}
pub mod m97 {
    use super::*;
    #[fxstruct(sync, rc, builder(post_build))]
    #[derive(Debug)]
    pub struct S { #[fieldx(lazy, fallible(error(Sorry)), get(clone), set(into), clearer, predicate, reader, writer)] f: W }
    impl S {
    fn build_f(&self) -> Result<W, Sorry> { Ok(built()) }
    fn post_build(self) -> Self { fault(); self }
    }
    pub struct Two(Arc<S>, Arc<S>);
    impl Subject for Two {
        #[allow(unused_mut, unused_variables)]
        fn step(&mut self, op: Op, n: u32) -> Out {
            let Two(s, o) = self;
            match op {
                Get => { let v = s.f().unwrap(); keep(Some(v)) }
                Set => { keep(s.set_f(Raw(n))) }
                Clear => { keep(s.clear_f()) }
                Has => { B(s.has_f()) }
                Reader => { let g = s.read_f().unwrap(); fault(); let v = g.id(); fault(); V(v) }
                Writer => { let mut g = s.write_f(); fault(); let x = g.store(W::new(n, 0)); fault(); let y = g.clear(); fault(); let z = g.store(W::new(n, 1)); fault(); drop(g); keep3([x, y, z]) }
                Debug => { let mut t = String::new(); let r = std::fmt::Write::write_fmt(&mut t, format_args!("{:?}", s)); B(r.is_ok()) }
                New => { let c: Arc<S> = S::new(); *o = c; Unit }
                Build => { let c: Arc<S> = S::builder().f(W::new(n, 0)).build().unwrap(); *o = c; Unit }
                Bare => { match S::builder().build() { Ok(c) => { let c: Arc<S> = c; *o = c; B(true) } Err(_) => B(false) } }
                Swap => { std::mem::swap(s, o); Unit }
                _ => unreachable!(),
            }
        }
    }
    pub fn case() -> Case {
        Case { name: "97", text: r#"#[fxstruct(sync, rc, builder(post_build))] struct S { #[fieldx(lazy, fallible(error(Sorry)), get(clone), set(into), clearer, predicate, reader, writer)] f: W }"#, kind: Kind::Lazy, given: false, required: false, empty_ok: true, ops: vec![Get, Set, Clear, Has, Reader, Writer, Debug, New, Build, Bare, Swap], make: || Box::new(Two(S::new(), S::new())) }
    }
}
pub mod m98 {
    use super::*;
    #[fxstruct(sync, builder(into))]
    #[derive(Clone, Debug, PartialEq)]
    pub struct S { #[fieldx(lazy, get(clone), set(into), clearer, predicate, reader, writer)] f: W, #[fieldx(get, builder(off), default(W::new(7, 0)))] g: W }
    impl S {
    fn build_f(&self) -> W { built() }
    }
    pub struct Two(S, S);
    impl Subject for Two {
        #[allow(unused_mut, unused_variables)]
        fn step(&mut self, op: Op, n: u32) -> Out {
            let Two(s, o) = self;
            match op {
                Get => { let v = s.f(); keep(Some(v)) }
                Set => { keep(s.set_f(Raw(n))) }
                Clear => { keep(s.clear_f()) }
                Has => { B(s.has_f()) }
                Reader => { let g = s.read_f(); fault(); let v = g.id(); fault(); V(v) }
                Writer => { let mut g = s.write_f(); fault(); let x = g.store(W::new(n, 0)); fault(); let y = g.clear(); fault(); let z = g.store(W::new(n, 1)); fault(); drop(g); keep3([x, y, z]) }
                Clone => { let c = s.clone(); *o = c; Unit }
                Eq => { B(*s == *o) }
                Debug => { let mut t = String::new(); let r = std::fmt::Write::write_fmt(&mut t, format_args!("{:?}", s)); B(r.is_ok()) }
                New => { let c: S = S::new(); *o = c; Unit }
                Build => { let c: S = S::builder().f(Raw(n)).build().unwrap(); *o = c; Unit }
                Bare => { match S::builder().build() { Ok(c) => { let c: S = c; *o = c; B(true) } Err(_) => B(false) } }
                Swap => { std::mem::swap(s, o); Unit }
                Other => { V(s.g().id()) }
                _ => unreachable!(),
            }
        }
    }
    pub fn case() -> Case {
        Case { name: "98", text: r#"#[fxstruct(sync, builder(into))] struct S { #[fieldx(lazy, get(clone), set(into), clearer, predicate, reader, writer)] f: W }"#, kind: Kind::Lazy, given: false, required: false, empty_ok: true, ops: vec![Get, Set, Clear, Has, Reader, Writer, Clone, Eq, Debug, New, Build, Bare, Swap, Other], make: || Box::new(Two(S::new(), S::new())) }
    }
}
pub mod m99 {
    use super::*;
    #[fxstruct(sync, builder(into))]
    #[derive(Clone, Debug, PartialEq)]
    pub struct S { #[fieldx(lock, optional, get(clone), set(into), clearer, predicate, reader, writer)] f: W, #[fieldx(get, builder(off), default(W::new(7, 0)))] g: W }
    impl S {
    }
    pub struct Two(S, S);
    impl Subject for Two {
        #[allow(unused_mut, unused_variables)]
        fn step(&mut self, op: Op, n: u32) -> Out {
            let Two(s, o) = self;
            match op {
                Get => { let v = s.f(); keep(v) }
                Set => { keep(s.set_f(Raw(n))) }
                Clear => { keep(s.clear_f()) }
                Has => { B(s.has_f()) }
                Reader => { let g = s.read_f(); fault(); let v = (*g).as_ref().map_or(0, |w| w.id()); fault(); V(v) }
                Writer => { let mut g = s.write_f(); fault(); let x = (*g).replace(W::new(n, 0)); fault(); let y = (*g).take(); fault(); let z = (*g).replace(W::new(n, 1)); fault(); drop(g); keep3([x, y, z]) }
                Clone => { let c = s.clone(); *o = c; Unit }
                Eq => { B(*s == *o) }
                Debug => { let mut t = String::new(); let r = std::fmt::Write::write_fmt(&mut t, format_args!("{:?}", s)); B(r.is_ok()) }
                New => { let c: S = S::new(); *o = c; Unit }
                Build => { let c: S = S::builder().f(Raw(n)).build().unwrap(); *o = c; Unit }
                Bare => { match S::builder().build() { Ok(c) => { let c: S = c; *o = c; B(true) } Err(_) => B(false) } }
                Swap => { std::mem::swap(s, o); Unit }
                Other => { V(s.g().id()) }
                _ => unreachable!(),
            }
        }
    }
    pub fn case() -> Case {
        Case { name: "99", text: r#"#[fxstruct(sync, builder(into))] struct S { #[fieldx(lock, optional, get(clone), set(into), clearer, predicate, reader, writer)] f: W }"#, kind: Kind::Opt, given: false, required: false, empty_ok: true, ops: vec![Get, Set, Clear, Has, Reader, Writer, Clone, Eq, Debug, New, Build, Bare, Swap, Other], make: || Box::new(Two(S::new(), S::new())) }
    }
}
pub mod m100 {
    use super::*;
    #[fxstruct(sync, builder(into))]
    #[derive(Clone, Debug, PartialEq)]
    pub struct S { #[fieldx(lock, get(clone), set(into), reader, writer)] f: W, #[fieldx(get, builder(off), default(W::new(7, 0)))] g: W }
    impl S {
    }
    pub struct Two(S, S);
    impl Subject for Two {
        #[allow(unused_mut, unused_variables)]
        fn step(&mut self, op: Op, n: u32) -> Out {
            let Two(s, o) = self;
            match op {
                Get => { let v = s.f(); keep(Some(v)) }
                Set => { keep(Some(s.set_f(Raw(n)))) }
                Reader => { let g = s.read_f(); fault(); let v = g.id(); fault(); V(v) }
                Writer => { let mut g = s.write_f(); fault(); *g = W::new(n, 0); fault(); *g = W::new(n, 1); fault(); drop(g); Unit }
                Clone => { let c = s.clone(); *o = c; Unit }
                Eq => { B(*s == *o) }
                Debug => { let mut t = String::new(); let r = std::fmt::Write::write_fmt(&mut t, format_args!("{:?}", s)); B(r.is_ok()) }
                New => { let c: S = S::new(); *o = c; Unit }
                Build => { let c: S = S::builder().f(Raw(n)).build().unwrap(); *o = c; Unit }
                Bare => { match S::builder().build() { Ok(c) => { let c: S = c; *o = c; B(true) } Err(_) => B(false) } }
                Swap => { std::mem::swap(s, o); Unit }
                Other => { V(s.g().id()) }
                _ => unreachable!(),
            }
        }
    }
    pub fn case() -> Case {
        Case { name: "100", text: r#"#[fxstruct(sync, builder(into))] struct S { #[fieldx(lock, get(clone), set(into), reader, writer)] f: W }"#, kind: Kind::Val, given: false, required: true, empty_ok: false, ops: vec![Get, Set, Reader, Writer, Clone, Eq, Debug, New, Build, Bare, Swap, Other], make: || Box::new(Two(S::new(), S::new())) }
    }
}
pub mod m101 {
    use super::*;
    #[fxstruct(sync, serde, builder(into))]
    #[derive(Clone, Debug, PartialEq)]
    pub struct S { #[fieldx(lazy, get(clone), set(into), clearer, predicate)] f: W }
    impl S {
    fn build_f(&self) -> W { built() }
    }
    pub struct Two(S, S);
    impl Subject for Two {
        #[allow(unused_mut, unused_variables)]
        fn step(&mut self, op: Op, n: u32) -> Out {
            let Two(s, o) = self;
            match op {
                Get => { let v = s.f(); keep(Some(v)) }
                Set => { keep(s.set_f(Raw(n))) }
                Clear => { keep(s.clear_f()) }
                Has => { B(s.has_f()) }
                Clone => { let c = s.clone(); *o = c; Unit }
                Eq => { B(*s == *o) }
                Debug => { let mut t = String::new(); let r = std::fmt::Write::write_fmt(&mut t, format_args!("{:?}", s)); B(r.is_ok()) }
                New => { let c: S = S::new(); *o = c; Unit }
                Build => { let c: S = S::builder().f(Raw(n)).build().unwrap(); *o = c; Unit }
                Bare => { match S::builder().build() { Ok(c) => { let c: S = c; *o = c; B(true) } Err(_) => B(false) } }
                Swap => { std::mem::swap(s, o); Unit }
                Ser => { drops(false); let t = serde_json::to_string(&*s).unwrap(); drops(true); shown(&t) }
                De => { drops(false); let c: S = serde_json::from_str(&format!("{{\"f\":{n}}}")).unwrap(); drops(true); *o = c; Unit }
                _ => unreachable!(),
            }
        }
    }
    pub fn case() -> Case {
        Case { name: "101", text: r#"#[fxstruct(sync, serde, builder(into))] struct S { #[fieldx(lazy, get(clone), set(into), clearer, predicate)] f: W }"#, kind: Kind::Lazy, given: false, required: false, empty_ok: true, ops: vec![Get, Set, Clear, Has, Clone, Eq, Debug, New, Build, Bare, Swap, Ser, De], make: || Box::new(Two(S::new(), S::new())) }
    }
}
pub mod m102 {
    use super::*;
    #[fxstruct(sync, serde, builder(into))]
    #[derive(Clone, Debug, PartialEq)]
    pub struct S { #[fieldx(lock, optional, get(clone), set(into), clearer, predicate)] f: W }
    impl S {
    }
    pub struct Two(S, S);
    impl Subject for Two {
        #[allow(unused_mut, unused_variables)]
        fn step(&mut self, op: Op, n: u32) -> Out {
            let Two(s, o) = self;
            match op {
                Get => { let v = s.f(); keep(v) }
                Set => { keep(s.set_f(Raw(n))) }
                Clear => { keep(s.clear_f()) }
                Has => { B(s.has_f()) }
                Clone => { let c = s.clone(); *o = c; Unit }
                Eq => { B(*s == *o) }
                Debug => { let mut t = String::new(); let r = std::fmt::Write::write_fmt(&mut t, format_args!("{:?}", s)); B(r.is_ok()) }
                New => { let c: S = S::new(); *o = c; Unit }
                Build => { let c: S = S::builder().f(Raw(n)).build().unwrap(); *o = c; Unit }
                Bare => { match S::builder().build() { Ok(c) => { let c: S = c; *o = c; B(true) } Err(_) => B(false) } }
                Swap => { std::mem::swap(s, o); Unit }
                Ser => { drops(false); let t = serde_json::to_string(&*s).unwrap(); drops(true); shown(&t) }
                De => { drops(false); let c: S = serde_json::from_str(&format!("{{\"f\":{n}}}")).unwrap(); drops(true); *o = c; Unit }
                _ => unreachable!(),
            }
        }
    }
    pub fn case() -> Case {
        Case { name: "102", text: r#"#[fxstruct(sync, serde, builder(into))] struct S { #[fieldx(lock, optional, get(clone), set(into), clearer, predicate)] f: W }"#, kind: Kind::Opt, given: false, required: false, empty_ok: true, ops: vec![Get, Set, Clear, Has, Clone, Eq, Debug, New, Build, Bare, Swap, Ser, De], make: || Box::new(Two(S::new(), S::new())) }
    }
}
pub mod m103 {
    use super::*;
    #[fxstruct(sync, serde, builder(into))]
    #[derive(Clone, Debug, PartialEq)]
    pub struct S { #[fieldx(lock, get(clone), set(into))] f: W }
    impl S {
    }
    pub struct Two(S, S);
    impl Subject for Two {
        #[allow(unused_mut, unused_variables)]
        fn step(&mut self, op: Op, n: u32) -> Out {
            let Two(s, o) = self;
            match op {
                Get => { let v = s.f(); keep(Some(v)) }
                Set => { keep(Some(s.set_f(Raw(n)))) }
                Clone => { let c = s.clone(); *o = c; Unit }
                Eq => { B(*s == *o) }
                Debug => { let mut t = String::new(); let r = std::fmt::Write::write_fmt(&mut t, format_args!("{:?}", s)); B(r.is_ok()) }
                New => { let c: S = S::new(); *o = c; Unit }
                Build => { let c: S = S::builder().f(Raw(n)).build().unwrap(); *o = c; Unit }
                Bare => { match S::builder().build() { Ok(c) => { let c: S = c; *o = c; B(true) } Err(_) => B(false) } }
                Swap => { std::mem::swap(s, o); Unit }
                Ser => { drops(false); let t = serde_json::to_string(&*s).unwrap(); drops(true); shown(&t) }
                De => { drops(false); let c: S = serde_json::from_str(&format!("{{\"f\":{n}}}")).unwrap(); drops(true); *o = c; Unit }
                _ => unreachable!(),
            }
        }
    }
    pub fn case() -> Case {
        Case { name: "103", text: r#"#[fxstruct(sync, serde, builder(into))] struct S { #[fieldx(lock, get(clone), set(into))] f: W }"#, kind: Kind::Val, given: false, required: true, empty_ok: false, ops: vec![Get, Set, Clone, Eq, Debug, New, Build, Bare, Swap, Ser, De], make: || Box::new(Two(S::new(), S::new())) }
    }
}
pub mod m104 {
    use super::*;
    #[fxstruct(sync, builder(post_build))]
    #[derive(Clone, Debug, PartialEq)]
    pub struct S { #[fieldx(lazy, fallible(error(Sorry)), get, get_mut, set, clearer, predicate, reader, writer, default(five()))] f: W }
    impl S {
    fn build_f(&self) -> Result<W, Sorry> { Ok(built()) }
    fn post_build(self) -> Self { fault(); self }
    }
    pub struct Two(S, S);
    impl Subject for Two {
        #[allow(unused_mut, unused_variables)]
        fn step(&mut self, op: Op, n: u32) -> Out {
            let Two(s, o) = self;
            match op {
                Get => { let v = s.f().unwrap(); fault(); Old(Some(v.id())) }
                Mut => { let mut g = s.f_mut().unwrap(); fault(); let w = W::new(n, 0); *g = w; fault(); Unit }
                Set => { keep(s.set_f(W::new(n, 0))) }
                Clear => { keep(s.clear_f()) }
                Has => { B(s.has_f()) }
                Reader => { let g = s.read_f().unwrap(); fault(); let v = g.id(); fault(); V(v) }
                Writer => { let mut g = s.write_f(); fault(); let x = g.store(W::new(n, 0)); fault(); let y = g.clear(); fault(); let z = g.store(W::new(n, 1)); fault(); drop(g); keep3([x, y, z]) }
                Clone => { let c = s.clone(); *o = c; Unit }
                Eq => { B(*s == *o) }
                Debug => { let mut t = String::new(); let r = std::fmt::Write::write_fmt(&mut t, format_args!("{:?}", s)); B(r.is_ok()) }
                New => { let c: S = S::new(); *o = c; Unit }
                Build => { let c: S = S::builder().f(W::new(n, 0)).build().unwrap(); *o = c; Unit }
                Bare => { match S::builder().build() { Ok(c) => { let c: S = c; *o = c; B(true) } Err(_) => B(false) } }
                Swap => { std::mem::swap(s, o); Unit }
                _ => unreachable!(),
            }
        }
    }
    pub fn case() -> Case {
        Case { name: "104", text: r#"#[fxstruct(sync, builder(post_build))] struct S { #[fieldx(lazy, fallible(error(Sorry)), get, get_mut, set, clearer, predicate, reader, writer, default(five()))] f: W }"#, kind: Kind::Lazy, given: true, required: false, empty_ok: true, ops: vec![Get, Mut, Set, Clear, Has, Reader, Writer, Clone, Eq, Debug, New, Build, Bare, Swap], make: || Box::new(Two(S::new(), S::new())) }
    }
}
pub mod m105 {
    use super::*;
    #[fxstruct(sync, rc, builder(post_build))]
    #[derive(Debug)]
    pub struct S { #[fieldx(lazy, fallible(error(Sorry)), get(clone), set(into), clearer, predicate, reader, writer, default(five()))] f: W }
    impl S {
    fn build_f(&self) -> Result<W, Sorry> { Ok(built()) }
    fn post_build(self) -> Self { fault(); self }
    }
    pub struct Two(Arc<S>, Arc<S>);
    impl Subject for Two {
        #[allow(unused_mut, unused_variables)]
        fn step(&mut self, op: Op, n: u32) -> Out {
            let Two(s, o) = self;
            match op {
                Get => { let v = s.f().unwrap(); keep(Some(v)) }
                Set => { keep(s.set_f(Raw(n))) }
                Clear => { keep(s.clear_f()) }
                Has => { B(s.has_f()) }
                Reader => { let g = s.read_f().unwrap(); fault(); let v = g.id(); fault(); V(v) }
                Writer => { let mut g = s.write_f(); fault(); let x = g.store(W::new(n, 0)); fault(); let y = g.clear(); fault(); let z = g.store(W::new(n, 1)); fault(); drop(g); keep3([x, y, z]) }
                Debug => { let mut t = String::new(); let r = std::fmt::Write::write_fmt(&mut t, format_args!("{:?}", s)); B(r.is_ok()) }
                New => { let c: Arc<S> = S::new(); *o = c; Unit }
                Build => { let c: Arc<S> = S::builder().f(W::new(n, 0)).build().unwrap(); *o = c; Unit }
                Bare => { match S::builder().build() { Ok(c) => { let c: Arc<S> = c; *o = c; B(true) } Err(_) => B(false) } }
                Swap => { std::mem::swap(s, o); Unit }
                _ => unreachable!(),
            }
        }
    }
    pub fn case() -> Case {
        Case { name: "105", text: r#"#[fxstruct(sync, rc, builder(post_build))] struct S { #[fieldx(lazy, fallible(error(Sorry)), get(clone), set(into), clearer, predicate, reader, writer, default(five()))] f: W }"#, kind: Kind::Lazy, given: true, required: false, empty_ok: true, ops: vec![Get, Set, Clear, Has, Reader, Writer, Debug, New, Build, Bare, Swap], make: || Box::new(Two(S::new(), S::new())) }
    }
}
pub mod m106 {
    use super::*;
    #[fxstruct(sync, builder(into))]
    #[derive(Clone, Debug, PartialEq)]
    pub struct S { #[fieldx(lazy, get(clone), set(into), clearer, predicate, reader, writer, default(five()))] f: W, #[fieldx(get, builder(off), default(W::new(7, 0)))] g: W }
    impl S {
    fn build_f(&self) -> W { built() }
    }
    pub struct Two(S, S);
    impl Subject for Two {
        #[allow(unused_mut, unused_variables)]
        fn step(&mut self, op: Op, n: u32) -> Out {
            let Two(s, o) = self;
            match op {
                Get => { let v = s.f(); keep(Some(v)) }
                Set => { keep(s.set_f(Raw(n))) }
                Clear => { keep(s.clear_f()) }
                Has => { B(s.has_f()) }
                Reader => { let g = s.read_f(); fault(); let v = g.id(); fault(); V(v) }
                Writer => { let mut g = s.write_f(); fault(); let x = g.store(W::new(n, 0)); fault(); let y = g.clear(); fault(); let z = g.store(W::new(n, 1)); fault(); drop(g); keep3([x, y, z]) }
                Clone => { let c = s.clone(); *o = c; Unit }
                Eq => { B(*s == *o) }
                Debug => { let mut t = String::new(); let r = std::fmt::Write::write_fmt(&mut t, format_args!("{:?}", s)); B(r.is_ok()) }
                New => { let c: S = S::new(); *o = c; Unit }
                Build => { let c: S = S::builder().f(Raw(n)).build().unwrap(); *o = c; Unit }
                Bare => { match S::builder().build() { Ok(c) => { let c: S = c; *o = c; B(true) } Err(_) => B(false) } }
                Swap => { std::mem::swap(s, o); Unit }
                Other => { V(s.g().id()) }
                _ => unreachable!(),
            }
        }
    }
    pub fn case() -> Case {
        Case { name: "106", text: r#"#[fxstruct(sync, builder(into))] struct S { #[fieldx(lazy, get(clone), set(into), clearer, predicate, reader, writer, default(five()))] f: W }"#, kind: Kind::Lazy, given: true, required: false, empty_ok: true, ops: vec![Get, Set, Clear, Has, Reader, Writer, Clone, Eq, Debug, New, Build, Bare, Swap, Other], make: || Box::new(Two(S::new(), S::new())) }
    }
}
pub mod m107 {
    use super::*;
    #[fxstruct(sync, builder(into))]
    #[derive(Clone, Debug, PartialEq)]
    pub struct S { #[fieldx(lock, optional, get(clone), set(into), clearer, predicate, reader, writer, default(five()))] f: W, #[fieldx(get, builder(off), default(W::new(7, 0)))] g: W }
    impl S {
    }
    pub struct Two(S, S);
    impl Subject for Two {
        #[allow(unused_mut, unused_variables)]
        fn step(&mut self, op: Op, n: u32) -> Out {
            let Two(s, o) = self;
            match op {
                Get => { let v = s.f(); keep(v) }
                Set => { keep(s.set_f(Raw(n))) }
                Clear => { keep(s.clear_f()) }
                Has => { B(s.has_f()) }
                Reader => { let g = s.read_f(); fault(); let v = (*g).as_ref().map_or(0, |w| w.id()); fault(); V(v) }
                Writer => { let mut g = s.write_f(); fault(); let x = (*g).replace(W::new(n, 0)); fault(); let y = (*g).take(); fault(); let z = (*g).replace(W::new(n, 1)); fault(); drop(g); keep3([x, y, z]) }
                Clone => { let c = s.clone(); *o = c; Unit }
                Eq => { B(*s == *o) }
                Debug => { let mut t = String::new(); let r = std::fmt::Write::write_fmt(&mut t, format_args!("{:?}", s)); B(r.is_ok()) }
                New => { let c: S = S::new(); *o = c; Unit }
                Build => { let c: S = S::builder().f(Raw(n)).build().unwrap(); *o = c; Unit }
                Bare => { match S::builder().build() { Ok(c) => { let c: S = c; *o = c; B(true) } Err(_) => B(false) } }
                Swap => { std::mem::swap(s, o); Unit }
                Other => { V(s.g().id()) }
                _ => unreachable!(),
            }
        }
    }
    pub fn case() -> Case {
        Case { name: "107", text: r#"#[fxstruct(sync, builder(into))] struct S { #[fieldx(lock, optional, get(clone), set(into), clearer, predicate, reader, writer, default(five()))] f: W }"#, kind: Kind::Opt, given: true, required: false, empty_ok: true, ops: vec![Get, Set, Clear, Has, Reader, Writer, Clone, Eq, Debug, New, Build, Bare, Swap, Other], make: || Box::new(Two(S::new(), S::new())) }
    }
}
pub mod m108 {
    use super::*;
    #[fxstruct(sync, builder(into))]
    #[derive(Clone, Debug, PartialEq)]
    pub struct S { #[fieldx(lock, get(clone), set(into), reader, writer, default(five()))] f: W, #[fieldx(get, builder(off), default(W::new(7, 0)))] g: W }
    impl S {
    }
    pub struct Two(S, S);
    impl Subject for Two {
        #[allow(unused_mut, unused_variables)]
        fn step(&mut self, op: Op, n: u32) -> Out {
            let Two(s, o) = self;
            match op {
                Get => { let v = s.f(); keep(Some(v)) }
                Set => { keep(Some(s.set_f(Raw(n)))) }
                Reader => { let g = s.read_f(); fault(); let v = g.id(); fault(); V(v) }
                Writer => { let mut g = s.write_f(); fault(); *g = W::new(n, 0); fault(); *g = W::new(n, 1); fault(); drop(g); Unit }
                Clone => { let c = s.clone(); *o = c; Unit }
                Eq => { B(*s == *o) }
                Debug => { let mut t = String::new(); let r = std::fmt::Write::write_fmt(&mut t, format_args!("{:?}", s)); B(r.is_ok()) }
                New => { let c: S = S::new(); *o = c; Unit }
                Build => { let c: S = S::builder().f(Raw(n)).build().unwrap(); *o = c; Unit }
                Bare => { match S::builder().build() { Ok(c) => { let c: S = c; *o = c; B(true) } Err(_) => B(false) } }
                Swap => { std::mem::swap(s, o); Unit }
                Other => { V(s.g().id()) }
                _ => unreachable!(),
            }
        }
    }
    pub fn case() -> Case {
        Case { name: "108", text: r#"#[fxstruct(sync, builder(into))] struct S { #[fieldx(lock, get(clone), set(into), reader, writer, default(five()))] f: W }"#, kind: Kind::Val, given: true, required: false, empty_ok: false, ops: vec![Get, Set, Reader, Writer, Clone, Eq, Debug, New, Build, Bare, Swap, Other], make: || Box::new(Two(S::new(), S::new())) }
    }
}
pub mod m109 {
    use super::*;
    #[fxstruct(sync, serde, builder(into))]
    #[derive(Clone, Debug, PartialEq)]
    pub struct S { #[fieldx(lazy, get(clone), set(into), clearer, predicate, default(five()))] f: W }
    impl S {
    fn build_f(&self) -> W { built() }
    }
    pub struct Two(S, S);
    impl Subject for Two {
        #[allow(unused_mut, unused_variables)]
        fn step(&mut self, op: Op, n: u32) -> Out {
            let Two(s, o) = self;
            match op {
                Get => { let v = s.f(); keep(Some(v)) }
                Set => { keep(s.set_f(Raw(n))) }
                Clear => { keep(s.clear_f()) }
                Has => { B(s.has_f()) }
                Clone => { let c = s.clone(); *o = c; Unit }
                Eq => { B(*s == *o) }
                Debug => { let mut t = String::new(); let r = std::fmt::Write::write_fmt(&mut t, format_args!("{:?}", s)); B(r.is_ok()) }
                New => { let c: S = S::new(); *o = c; Unit }
                Build => { let c: S = S::builder().f(Raw(n)).build().unwrap(); *o = c; Unit }
                Bare => { match S::builder().build() { Ok(c) => { let c: S = c; *o = c; B(true) } Err(_) => B(false) } }
                Swap => { std::mem::swap(s, o); Unit }
                Ser => { drops(false); let t = serde_json::to_string(&*s).unwrap(); drops(true); shown(&t) }
                De => { drops(false); let c: S = serde_json::from_str(&format!("{{\"f\":{n}}}")).unwrap(); drops(true); *o = c; Unit }
                _ => unreachable!(),
            }
        }
    }
    pub fn case() -> Case {
        Case { name: "109", text: r#"#[fxstruct(sync, serde, builder(into))] struct S { #[fieldx(lazy, get(clone), set(into), clearer, predicate, default(five()))] f: W }"#, kind: Kind::Lazy, given: true, required: false, empty_ok: true, ops: vec![Get, Set, Clear, Has, Clone, Eq, Debug, New, Build, Bare, Swap, Ser, De], make: || Box::new(Two(S::new(), S::new())) }
    }
}
pub mod m110 {
    use super::*;
    #[fxstruct(sync, serde, builder(into))]
    #[derive(Clone, Debug, PartialEq)]
    pub struct S { #[fieldx(lock, optional, get(clone), set(into), clearer, predicate, default(five()))] f: W }
    impl S {
    }
    pub struct Two(S, S);
    impl Subject for Two {
        #[allow(unused_mut, unused_variables)]
        fn step(&mut self, op: Op, n: u32) -> Out {
            let Two(s, o) = self;
            match op {
                Get => { let v = s.f(); keep(v) }
                Set => { keep(s.set_f(Raw(n))) }
                Clear => { keep(s.clear_f()) }
                Has => { B(s.has_f()) }
                Clone => { let c = s.clone(); *o = c; Unit }
                Eq => { B(*s == *o) }
                Debug => { let mut t = String::new(); let r = std::fmt::Write::write_fmt(&mut t, format_args!("{:?}", s)); B(r.is_ok()) }
                New => { let c: S = S::new(); *o = c; Unit }
                Build => { let c: S = S::builder().f(Raw(n)).build().unwrap(); *o = c; Unit }
                Bare => { match S::builder().build() { Ok(c) => { let c: S = c; *o = c; B(true) } Err(_) => B(false) } }
                Swap => { std::mem::swap(s, o); Unit }
                Ser => { drops(false); let t = serde_json::to_string(&*s).unwrap(); drops(true); shown(&t) }
                De => { drops(false); let c: S = serde_json::from_str(&format!("{{\"f\":{n}}}")).unwrap(); drops(true); *o = c; Unit }
                _ => unreachable!(),
            }
        }
    }
    pub fn case() -> Case {
        Case { name: "110", text: r#"#[fxstruct(sync, serde, builder(into))] struct S { #[fieldx(lock, optional, get(clone), set(into), clearer, predicate, default(five()))] f: W }"#, kind: Kind::Opt, given: true, required: false, empty_ok: true, ops: vec![Get, Set, Clear, Has, Clone, Eq, Debug, New, Build, Bare, Swap, Ser, De], make: || Box::new(Two(S::new(), S::new())) }
    }
}
pub mod m111 {
    use super::*;
    #[fxstruct(sync, serde, builder(into))]
    #[derive(Clone, Debug, PartialEq)]
    pub struct S { #[fieldx(lock, get(clone), set(into), default(five()))] f: W }
    impl S {
    }
    pub struct Two(S, S);
    impl Subject for Two {
        #[allow(unused_mut, unused_variables)]
        fn step(&mut self, op: Op, n: u32) -> Out {
            let Two(s, o) = self;
            match op {
                Get => { let v = s.f(); keep(Some(v)) }
                Set => { keep(Some(s.set_f(Raw(n)))) }
                Clone => { let c = s.clone(); *o = c; Unit }
                Eq => { B(*s == *o) }
                Debug => { let mut t = String::new(); let r = std::fmt::Write::write_fmt(&mut t, format_args!("{:?}", s)); B(r.is_ok()) }
                New => { let c: S = S::new(); *o = c; Unit }
                Build => { let c: S = S::builder().f(Raw(n)).build().unwrap(); *o = c; Unit }
                Bare => { match S::builder().build() { Ok(c) => { let c: S = c; *o = c; B(true) } Err(_) => B(false) } }
                Swap => { std::mem::swap(s, o); Unit }
                Ser => { drops(false); let t = serde_json::to_string(&*s).unwrap(); drops(true); shown(&t) }
                De => { drops(false); let c: S = serde_json::from_str(&format!("{{\"f\":{n}}}")).unwrap(); drops(true); *o = c; Unit }
                _ => unreachable!(),
            }
        }
    }
    pub fn case() -> Case {
        Case { name: "111", text: r#"#[fxstruct(sync, serde, builder(into))] struct S { #[fieldx(lock, get(clone), set(into), default(five()))] f: W }"#, kind: Kind::Val, given: true, required: false, empty_ok: false, ops: vec![Get, Set, Clone, Eq, Debug, New, Build, Bare, Swap, Ser, De], make: || Box::new(Two(S::new(), S::new())) }
    }
}
pub mod m112 {
    use super::*;
    #[fxstruct(r#async, builder(into))]
    #[derive(Debug)]
    pub struct S { #[fieldx(lazy, get, get_mut, set, clearer, predicate, reader, writer)] f: W }
    impl S {
    async fn build_f(&self) -> W { built() }
    }
    pub struct Two(S, S);
    impl Subject for Two {
        #[allow(unused_mut, unused_variables)]
        fn step(&mut self, op: Op, n: u32) -> Out {
            let Two(s, o) = self;
            now(async move { match op {
                Get => { let v = s.f().await; fault(); Old(Some(v.id())) }
                Mut => { let mut g = s.f_mut().await; fault(); let w = W::new(n, 0); *g = w; fault(); Unit }
                Set => { keep(s.set_f(W::new(n, 0)).await) }
                Clear => { keep(s.clear_f().await) }
                Has => { B(s.has_f()) }
                Reader => { let g = s.read_f().await; fault(); let v = g.id(); fault(); V(v) }
                Writer => { let mut g = s.write_f().await; fault(); let x = g.store(W::new(n, 0)); fault(); let y = g.clear(); fault(); let z = g.store(W::new(n, 1)); fault(); drop(g); keep3([x, y, z]) }
                Debug => { let mut t = String::new(); let r = std::fmt::Write::write_fmt(&mut t, format_args!("{:?}", s)); B(r.is_ok()) }
                New => { let c: S = S::new(); *o = c; Unit }
                Build => { let c: S = S::builder().f(Raw(n)).build().unwrap(); *o = c; Unit }
                Bare => { match S::builder().build() { Ok(c) => { let c: S = c; *o = c; B(true) } Err(_) => B(false) } }
                Swap => { std::mem::swap(s, o); Unit }
                _ => unreachable!(),
            } })
        }
    }
    pub fn case() -> Case {
        Case { name: "112", text: r#"#[fxstruct(r#async, builder(into))] struct S { #[fieldx(lazy, get, get_mut, set, clearer, predicate, reader, writer)] f: W }"#, kind: Kind::Lazy, given: false, required: false, empty_ok: true, ops: vec![Get, Mut, Set, Clear, Has, Reader, Writer, Debug, New, Build, Bare, Swap], make: || Box::new(Two(S::new(), S::new())) }
    }
}
pub mod m113 {
    use super::*;
    #[fxstruct(r#async, builder(into))]
    #[derive(Debug)]
    pub struct S { #[fieldx(lazy, get(clone), set(into), clearer, predicate, reader, writer)] f: W }
    impl S {
    async fn build_f(&self) -> W { built() }
    }
    pub struct Two(S, S);
    impl Subject for Two {
        #[allow(unused_mut, unused_variables)]
        fn step(&mut self, op: Op, n: u32) -> Out {
            let Two(s, o) = self;
            now(async move { match op {
                Get => { let v = s.f().await; keep(Some(v)) }
                Set => { keep(s.set_f(Raw(n)).await) }
                Clear => { keep(s.clear_f().await) }
                Has => { B(s.has_f()) }
                Reader => { let g = s.read_f().await; fault(); let v = g.id(); fault(); V(v) }
                Writer => { let mut g = s.write_f().await; fault(); let x = g.store(W::new(n, 0)); fault(); let y = g.clear(); fault(); let z = g.store(W::new(n, 1)); fault(); drop(g); keep3([x, y, z]) }
                Debug => { let mut t = String::new(); let r = std::fmt::Write::write_fmt(&mut t, format_args!("{:?}", s)); B(r.is_ok()) }
                New => { let c: S = S::new(); *o = c; Unit }
                Build => { let c: S = S::builder().f(Raw(n)).build().unwrap(); *o = c; Unit }
                Bare => { match S::builder().build() { Ok(c) => { let c: S = c; *o = c; B(true) } Err(_) => B(false) } }
                Swap => { std::mem::swap(s, o); Unit }
                _ => unreachable!(),
            } })
        }
    }
    pub fn case() -> Case {
        Case { name: "113", text: r#"#[fxstruct(r#async, builder(into))] struct S { #[fieldx(lazy, get(clone), set(into), clearer, predicate, reader, writer)] f: W }"#, kind: Kind::Lazy, given: false, required: false, empty_ok: true, ops: vec![Get, Set, Clear, Has, Reader, Writer, Debug, New, Build, Bare, Swap], make: || Box::new(Two(S::new(), S::new())) }
    }
}
pub mod m114 {
    use super::*;
    #[fxstruct(r#async, builder(into))]
    #[derive(Clone, Debug, PartialEq)]
    pub struct S { #[fieldx(lock, optional, get, get_mut, set, clearer, predicate, reader, writer)] f: W }
    impl S {
    }
    pub struct Two(S, S);
    impl Subject for Two {
        #[allow(unused_mut, unused_variables)]
        fn step(&mut self, op: Op, n: u32) -> Out {
            let Two(s, o) = self;
            now(async move { match op {
                Get => { let v = s.f().await; id((*v).as_ref()) }
                Mut => { let mut g = s.f_mut().await; fault(); let w = Some(W::new(n, 0)); *g = w; fault(); Unit }
                Set => { keep(s.set_f(W::new(n, 0)).await) }
                Clear => { keep(s.clear_f().await) }
                Has => { B(s.has_f().await) }
                Reader => { let g = s.read_f().await; fault(); let v = (*g).as_ref().map_or(0, |w| w.id()); fault(); V(v) }
                Writer => { let mut g = s.write_f().await; fault(); let x = (*g).replace(W::new(n, 0)); fault(); let y = (*g).take(); fault(); let z = (*g).replace(W::new(n, 1)); fault(); drop(g); keep3([x, y, z]) }
                Clone => { let c = s.clone(); *o = c; Unit }
                Eq => { B(*s == *o) }
                Debug => { let mut t = String::new(); let r = std::fmt::Write::write_fmt(&mut t, format_args!("{:?}", s)); B(r.is_ok()) }
                New => { let c: S = S::new(); *o = c; Unit }
                Build => { let c: S = S::builder().f(Raw(n)).build().unwrap(); *o = c; Unit }
                Bare => { match S::builder().build() { Ok(c) => { let c: S = c; *o = c; B(true) } Err(_) => B(false) } }
                Swap => { std::mem::swap(s, o); Unit }
                _ => unreachable!(),
            } })
        }
    }
    pub fn case() -> Case {
        Case { name: "114", text: r#"#[fxstruct(r#async, builder(into))] struct S { #[fieldx(lock, optional, get, get_mut, set, clearer, predicate, reader, writer)] f: W }"#, kind: Kind::Opt, given: false, required: false, empty_ok: true, ops: vec![Get, Mut, Set, Clear, Has, Reader, Writer, Clone, Eq, Debug, New, Build, Bare, Swap], make: || Box::new(Two(S::new(), S::new())) }
    }
}
pub mod m115 {
    use super::*;
    #[fxstruct(r#async, builder(into))]
    #[derive(Clone, Debug, PartialEq)]
    pub struct S { #[fieldx(lock, optional, get(clone), set(into), clearer, predicate, reader, writer)] f: W }
    impl S {
    }
    pub struct Two(S, S);
    impl Subject for Two {
        #[allow(unused_mut, unused_variables)]
        fn step(&mut self, op: Op, n: u32) -> Out {
            let Two(s, o) = self;
            now(async move { match op {
                Get => { let v = s.f().await; keep(v) }
                Set => { keep(s.set_f(Raw(n)).await) }
                Clear => { keep(s.clear_f().await) }
                Has => { B(s.has_f().await) }
                Reader => { let g = s.read_f().await; fault(); let v = (*g).as_ref().map_or(0, |w| w.id()); fault(); V(v) }
                Writer => { let mut g = s.write_f().await; fault(); let x = (*g).replace(W::new(n, 0)); fault(); let y = (*g).take(); fault(); let z = (*g).replace(W::new(n, 1)); fault(); drop(g); keep3([x, y, z]) }
                Clone => { let c = s.clone(); *o = c; Unit }
                Eq => { B(*s == *o) }
                Debug => { let mut t = String::new(); let r = std::fmt::Write::write_fmt(&mut t, format_args!("{:?}", s)); B(r.is_ok()) }
                New => { let c: S = S::new(); *o = c; Unit }
                Build => { let c: S = S::builder().f(Raw(n)).build().unwrap(); *o = c; Unit }
                Bare => { match S::builder().build() { Ok(c) => { let c: S = c; *o = c; B(true) } Err(_) => B(false) } }
                Swap => { std::mem::swap(s, o); Unit }
                _ => unreachable!(),
            } })
        }
    }
    pub fn case() -> Case {
        Case { name: "115", text: r#"#[fxstruct(r#async, builder(into))] struct S { #[fieldx(lock, optional, get(clone), set(into), clearer, predicate, reader, writer)] f: W }"#, kind: Kind::Opt, given: false, required: false, empty_ok: true, ops: vec![Get, Set, Clear, Has, Reader, Writer, Clone, Eq, Debug, New, Build, Bare, Swap], make: || Box::new(Two(S::new(), S::new())) }
    }
}
pub mod m116 {
    use super::*;
    #[fxstruct(r#async, builder(into))]
    #[derive(Clone, Debug, PartialEq)]
    pub struct S { #[fieldx(lock, get, get_mut, set, reader, writer)] f: W }
    impl S {
    }
    pub struct Two(S, S);
    impl Subject for Two {
        #[allow(unused_mut, unused_variables)]
        fn step(&mut self, op: Op, n: u32) -> Out {
            let Two(s, o) = self;
            now(async move { match op {
                Get => { let v = s.f().await; fault(); Old(Some(v.id())) }
                Mut => { let mut g = s.f_mut().await; fault(); let w = W::new(n, 0); *g = w; fault(); Unit }
                Set => { keep(Some(s.set_f(W::new(n, 0)).await)) }
                Reader => { let g = s.read_f().await; fault(); let v = g.id(); fault(); V(v) }
                Writer => { let mut g = s.write_f().await; fault(); *g = W::new(n, 0); fault(); *g = W::new(n, 1); fault(); drop(g); Unit }
                Clone => { let c = s.clone(); *o = c; Unit }
                Eq => { B(*s == *o) }
                Debug => { let mut t = String::new(); let r = std::fmt::Write::write_fmt(&mut t, format_args!("{:?}", s)); B(r.is_ok()) }
                New => { let c: S = S::new(); *o = c; Unit }
                Build => { let c: S = S::builder().f(Raw(n)).build().unwrap(); *o = c; Unit }
                Bare => { match S::builder().build() { Ok(c) => { let c: S = c; *o = c; B(true) } Err(_) => B(false) } }
                Swap => { std::mem::swap(s, o); Unit }
                _ => unreachable!(),
            } })
        }
    }
    pub fn case() -> Case {
        Case { name: "116", text: r#"#[fxstruct(r#async, builder(into))] struct S { #[fieldx(lock, get, get_mut, set, reader, writer)] f: W }"#, kind: Kind::Val, given: false, required: true, empty_ok: false, ops: vec![Get, Mut, Set, Reader, Writer, Clone, Eq, Debug, New, Build, Bare, Swap], make: || Box::new(Two(S::new(), S::new())) }
    }
}
pub mod m117 {
    use super::*;
    #[fxstruct(r#async, builder(into))]
    #[derive(Clone, Debug, PartialEq)]
    pub struct S { #[fieldx(lock, get(clone), set(into), reader, writer)] f: W }
    impl S {
    }
    pub struct Two(S, S);
    impl Subject for Two {
        #[allow(unused_mut, unused_variables)]
        fn step(&mut self, op: Op, n: u32) -> Out {
            let Two(s, o) = self;
            now(async move { match op {
                Get => { let v = s.f().await; keep(Some(v)) }
                Set => { keep(Some(s.set_f(Raw(n)).await)) }
                Reader => { let g = s.read_f().await; fault(); let v = g.id(); fault(); V(v) }
                Writer => { let mut g = s.write_f().await; fault(); *g = W::new(n, 0); fault(); *g = W::new(n, 1); fault(); drop(g); Unit }
                Clone => { let c = s.clone(); *o = c; Unit }
                Eq => { B(*s == *o) }
                Debug => { let mut t = String::new(); let r = std::fmt::Write::write_fmt(&mut t, format_args!("{:?}", s)); B(r.is_ok()) }
                New => { let c: S = S::new(); *o = c; Unit }
                Build => { let c: S = S::builder().f(Raw(n)).build().unwrap(); *o = c; Unit }
                Bare => { match S::builder().build() { Ok(c) => { let c: S = c; *o = c; B(true) } Err(_) => B(false) } }
                Swap => { std::mem::swap(s, o); Unit }
                _ => unreachable!(),
            } })
        }
    }
    pub fn case() -> Case {
        Case { name: "117", text: r#"#[fxstruct(r#async, builder(into))] struct S { #[fieldx(lock, get(clone), set(into), reader, writer)] f: W }"#, kind: Kind::Val, given: false, required: true, empty_ok: false, ops: vec![Get, Set, Reader, Writer, Clone, Eq, Debug, New, Build, Bare, Swap], make: || Box::new(Two(S::new(), S::new())) }
    }
}
pub mod m118 {
    use super::*;
    #[fxstruct(r#async, builder(into))]
    #[derive(Debug)]
    pub struct S { #[fieldx(lazy, get, get_mut, set, clearer, predicate, reader, writer, default(five()))] f: W }
    impl S {
    async fn build_f(&self) -> W { built() }
    }
    pub struct Two(S, S);
    impl Subject for Two {
        #[allow(unused_mut, unused_variables)]
        fn step(&mut self, op: Op, n: u32) -> Out {
            let Two(s, o) = self;
            now(async move { match op {
                Get => { let v = s.f().await; fault(); Old(Some(v.id())) }
                Mut => { let mut g = s.f_mut().await; fault(); let w = W::new(n, 0); *g = w; fault(); Unit }
                Set => { keep(s.set_f(W::new(n, 0)).await) }
                Clear => { keep(s.clear_f().await) }
                Has => { B(s.has_f()) }
                Reader => { let g = s.read_f().await; fault(); let v = g.id(); fault(); V(v) }
                Writer => { let mut g = s.write_f().await; fault(); let x = g.store(W::new(n, 0)); fault(); let y = g.clear(); fault(); let z = g.store(W::new(n, 1)); fault(); drop(g); keep3([x, y, z]) }
                Debug => { let mut t = String::new(); let r = std::fmt::Write::write_fmt(&mut t, format_args!("{:?}", s)); B(r.is_ok()) }
                New => { let c: S = S::new(); *o = c; Unit }
                Build => { let c: S = S::builder().f(Raw(n)).build().unwrap(); *o = c; Unit }
                Bare => { match S::builder().build() { Ok(c) => { let c: S = c; *o = c; B(true) } Err(_) => B(false) } }
                Swap => { std::mem::swap(s, o); Unit }
                _ => unreachable!(),
            } })
        }
    }
    pub fn case() -> Case {
        Case { name: "118", text: r#"#[fxstruct(r#async, builder(into))] struct S { #[fieldx(lazy, get, get_mut, set, clearer, predicate, reader, writer, default(five()))] f: W }"#, kind: Kind::Lazy, given: true, required: false, empty_ok: true, ops: vec![Get, Mut, Set, Clear, Has, Reader, Writer, Debug, New, Build, Bare, Swap], make: || Box::new(Two(S::new(), S::new())) }
    }
}
pub mod m119 {
    use super::*;
    #[fxstruct(r#async, builder(into))]
    #[derive(Debug)]
    pub struct S { #[fieldx(lazy, get(clone), set(into), clearer, predicate, reader, writer, default(five()))] f: W }
    impl S {
    async fn build_f(&self) -> W { built() }
    }
    pub struct Two(S, S);
    impl Subject for Two {
        #[allow(unused_mut, unused_variables)]
        fn step(&mut self, op: Op, n: u32) -> Out {
            let Two(s, o) = self;
            now(async move { match op {
                Get => { let v = s.f().await; keep(Some(v)) }
                Set => { keep(s.set_f(Raw(n)).await) }
                Clear => { keep(s.clear_f().await) }
                Has => { B(s.has_f()) }
                Reader => { let g = s.read_f().await; fault(); let v = g.id(); fault(); V(v) }
                Writer => { let mut g = s.write_f().await; fault(); let x = g.store(W::new(n, 0)); fault(); let y = g.clear(); fault(); let z = g.store(W::new(n, 1)); fault(); drop(g); keep3([x, y, z]) }
                Debug => { let mut t = String::new(); let r = std::fmt::Write::write_fmt(&mut t, format_args!("{:?}", s)); B(r.is_ok()) }
                New => { let c: S = S::new(); *o = c; Unit }
                Build => { let c: S = S::builder().f(Raw(n)).build().unwrap(); *o = c; Unit }
                Bare => { match S::builder().build() { Ok(c) => { let c: S = c; *o = c; B(true) } Err(_) => B(false) } }
                Swap => { std::mem::swap(s, o); Unit }
                _ => unreachable!(),
            } })
        }
    }
    pub fn case() -> Case {
        Case { name: "119", text: r#"#[fxstruct(r#async, builder(into))] struct S { #[fieldx(lazy, get(clone), set(into), clearer, predicate, reader, writer, default(five()))] f: W }"#, kind: Kind::Lazy, given: true, required: false, empty_ok: true, ops: vec![Get, Set, Clear, Has, Reader, Writer, Debug, New, Build, Bare, Swap], make: || Box::new(Two(S::new(), S::new())) }
    }
}
pub mod m120 {
    use super::*;
    #[fxstruct(r#async, builder(into))]
    #[derive(Clone, Debug, PartialEq)]
    pub struct S { #[fieldx(lock, optional, get, get_mut, set, clearer, predicate, reader, writer, default(five()))] f: W }
    impl S {
    }
    pub struct Two(S, S);
    impl Subject for Two {
        #[allow(unused_mut, unused_variables)]
        fn step(&mut self, op: Op, n: u32) -> Out {
            let Two(s, o) = self;
            now(async move { match op {
                Get => { let v = s.f().await; id((*v).as_ref()) }
                Mut => { let mut g = s.f_mut().await; fault(); let w = Some(W::new(n, 0)); *g = w; fault(); Unit }
                Set => { keep(s.set_f(W::new(n, 0)).await) }
                Clear => { keep(s.clear_f().await) }
                Has => { B(s.has_f().await) }
                Reader => { let g = s.read_f().await; fault(); let v = (*g).as_ref().map_or(0, |w| w.id()); fault(); V(v) }
                Writer => { let mut g = s.write_f().await; fault(); let x = (*g).replace(W::new(n, 0)); fault(); let y = (*g).take(); fault(); let z = (*g).replace(W::new(n, 1)); fault(); drop(g); keep3([x, y, z]) }
                Clone => { let c = s.clone(); *o = c; Unit }
                Eq => { B(*s == *o) }
                Debug => { let mut t = String::new(); let r = std::fmt::Write::write_fmt(&mut t, format_args!("{:?}", s)); B(r.is_ok()) }
                New => { let c: S = S::new(); *o = c; Unit }
                Build => { let c: S = S::builder().f(Raw(n)).build().unwrap(); *o = c; Unit }
                Bare => { match S::builder().build() { Ok(c) => { let c: S = c; *o = c; B(true) } Err(_) => B(false) } }
                Swap => { std::mem::swap(s, o); Unit }
                _ => unreachable!(),
            } })
        }
    }
    pub fn case() -> Case {
        Case { name: "120", text: r#"#[fxstruct(r#async, builder(into))] struct S { #[fieldx(lock, optional, get, get_mut, set, clearer, predicate, reader, writer, default(five()))] f: W }"#, kind: Kind::Opt, given: true, required: false, empty_ok: true, ops: vec![Get, Mut, Set, Clear, Has, Reader, Writer, Clone, Eq, Debug, New, Build, Bare, Swap], make: || Box::new(Two(S::new(), S::new())) }
    }
}
pub mod m121 {
    use super::*;
    #[fxstruct(r#async, builder(into))]
    #[derive(Clone, Debug, PartialEq)]
    pub struct S { #[fieldx(lock, optional, get(clone), set(into), clearer, predicate, reader, writer, default(five()))] f: W }
    impl S {
    }
    pub struct Two(S, S);
    impl Subject for Two {
        #[allow(unused_mut, unused_variables)]
        fn step(&mut self, op: Op, n: u32) -> Out {
            let Two(s, o) = self;
            now(async move { match op {
                Get => { let v = s.f().await; keep(v) }
                Set => { keep(s.set_f(Raw(n)).await) }
                Clear => { keep(s.clear_f().await) }
                Has => { B(s.has_f().await) }
                Reader => { let g = s.read_f().await; fault(); let v = (*g).as_ref().map_or(0, |w| w.id()); fault(); V(v) }
                Writer => { let mut g = s.write_f().await; fault(); let x = (*g).replace(W::new(n, 0)); fault(); let y = (*g).take(); fault(); let z = (*g).replace(W::new(n, 1)); fault(); drop(g); keep3([x, y, z]) }
                Clone => { let c = s.clone(); *o = c; Unit }
                Eq => { B(*s == *o) }
                Debug => { let mut t = String::new(); let r = std::fmt::Write::write_fmt(&mut t, format_args!("{:?}", s)); B(r.is_ok()) }
                New => { let c: S = S::new(); *o = c; Unit }
                Build => { let c: S = S::builder().f(Raw(n)).build().unwrap(); *o = c; Unit }
                Bare => { match S::builder().build() { Ok(c) => { let c: S = c; *o = c; B(true) } Err(_) => B(false) } }
                Swap => { std::mem::swap(s, o); Unit }
                _ => unreachable!(),
            } })
        }
    }
    pub fn case() -> Case {
        Case { name: "121", text: r#"#[fxstruct(r#async, builder(into))] struct S { #[fieldx(lock, optional, get(clone), set(into), clearer, predicate, reader, writer, default(five()))] f: W }"#, kind: Kind::Opt, given: true, required: false, empty_ok: true, ops: vec![Get, Set, Clear, Has, Reader, Writer, Clone, Eq, Debug, New, Build, Bare, Swap], make: || Box::new(Two(S::new(), S::new())) }
    }
}
pub mod m122 {
    use super::*;
    #[fxstruct(r#async, builder(into))]
    #[derive(Clone, Debug, PartialEq)]
    pub struct S { #[fieldx(lock, get, get_mut, set, reader, writer, default(five()))] f: W }
    impl S {
    }
    pub struct Two(S, S);
    impl Subject for Two {
        #[allow(unused_mut, unused_variables)]
        fn step(&mut self, op: Op, n: u32) -> Out {
            let Two(s, o) = self;
            now(async move { match op {
                Get => { let v = s.f().await; fault(); Old(Some(v.id())) }
                Mut => { let mut g = s.f_mut().await; fault(); let w = W::new(n, 0); *g = w; fault(); Unit }
                Set => { keep(Some(s.set_f(W::new(n, 0)).await)) }
                Reader => { let g = s.read_f().await; fault(); let v = g.id(); fault(); V(v) }
                Writer => { let mut g = s.write_f().await; fault(); *g = W::new(n, 0); fault(); *g = W::new(n, 1); fault(); drop(g); Unit }
                Clone => { let c = s.clone(); *o = c; Unit }
                Eq => { B(*s == *o) }
                Debug => { let mut t = String::new(); let r = std::fmt::Write::write_fmt(&mut t, format_args!("{:?}", s)); B(r.is_ok()) }
                New => { let c: S = S::new(); *o = c; Unit }
                Build => { let c: S = S::builder().f(Raw(n)).build().unwrap(); *o = c; Unit }
                Bare => { match S::builder().build() { Ok(c) => { let c: S = c; *o = c; B(true) } Err(_) => B(false) } }
                Swap => { std::mem::swap(s, o); Unit }
                _ => unreachable!(),
            } })
        }
    }
    pub fn case() -> Case {
        Case { name: "122", text: r#"#[fxstruct(r#async, builder(into))] struct S { #[fieldx(lock, get, get_mut, set, reader, writer, default(five()))] f: W }"#, kind: Kind::Val, given: true, required: false, empty_ok: false, ops: vec![Get, Mut, Set, Reader, Writer, Clone, Eq, Debug, New, Build, Bare, Swap], make: || Box::new(Two(S::new(), S::new())) }
    }
}
pub mod m123 {
    use super::*;
    #[fxstruct(r#async, builder(into))]
    #[derive(Clone, Debug, PartialEq)]
    pub struct S { #[fieldx(lock, get(clone), set(into), reader, writer, default(five()))] f: W }
    impl S {
    }
    pub struct Two(S, S);
    impl Subject for Two {
        #[allow(unused_mut, unused_variables)]
        fn step(&mut self, op: Op, n: u32) -> Out {
            let Two(s, o) = self;
            now(async move { match op {
                Get => { let v = s.f().await; keep(Some(v)) }
                Set => { keep(Some(s.set_f(Raw(n)).await)) }
                Reader => { let g = s.read_f().await; fault(); let v = g.id(); fault(); V(v) }
                Writer => { let mut g = s.write_f().await; fault(); *g = W::new(n, 0); fault(); *g = W::new(n, 1); fault(); drop(g); Unit }
                Clone => { let c = s.clone(); *o = c; Unit }
                Eq => { B(*s == *o) }
                Debug => { let mut t = String::new(); let r = std::fmt::Write::write_fmt(&mut t, format_args!("{:?}", s)); B(r.is_ok()) }
                New => { let c: S = S::new(); *o = c; Unit }
                Build => { let c: S = S::builder().f(Raw(n)).build().unwrap(); *o = c; Unit }
                Bare => { match S::builder().build() { Ok(c) => { let c: S = c; *o = c; B(true) } Err(_) => B(false) } }
                Swap => { std::mem::swap(s, o); Unit }
                _ => unreachable!(),
            } })
        }
    }
    pub fn case() -> Case {
        Case { name: "123", text: r#"#[fxstruct(r#async, builder(into))] struct S { #[fieldx(lock, get(clone), set(into), reader, writer, default(five()))] f: W }"#, kind: Kind::Val, given: true, required: false, empty_ok: false, ops: vec![Get, Set, Reader, Writer, Clone, Eq, Debug, New, Build, Bare, Swap], make: || Box::new(Two(S::new(), S::new())) }
    }
}
pub mod m124 {
    use super::*;
    #[fxstruct(r#async, builder(post_build))]
    #[derive(Debug)]
    pub struct S { #[fieldx(lazy, get, get_mut, set, clearer, predicate, reader, writer)] f: W }
    impl S {
    async fn build_f(&self) -> W { built() }
    fn post_build(self) -> Self { fault(); self }
    }
    pub struct Two(S, S);
    impl Subject for Two {
        #[allow(unused_mut, unused_variables)]
        fn step(&mut self, op: Op, n: u32) -> Out {
            let Two(s, o) = self;
            now(async move { match op {
                Get => { let v = s.f().await; fault(); Old(Some(v.id())) }
                Mut => { let mut g = s.f_mut().await; fault(); let w = W::new(n, 0); *g = w; fault(); Unit }
                Set => { keep(s.set_f(W::new(n, 0)).await) }
                Clear => { keep(s.clear_f().await) }
                Has => { B(s.has_f()) }
                Reader => { let g = s.read_f().await; fault(); let v = g.id(); fault(); V(v) }
                Writer => { let mut g = s.write_f().await; fault(); let x = g.store(W::new(n, 0)); fault(); let y = g.clear(); fault(); let z = g.store(W::new(n, 1)); fault(); drop(g); keep3([x, y, z]) }
                Debug => { let mut t = String::new(); let r = std::fmt::Write::write_fmt(&mut t, format_args!("{:?}", s)); B(r.is_ok()) }
                New => { let c: S = S::new(); *o = c; Unit }
                Build => { let c: S = S::builder().f(W::new(n, 0)).build().unwrap(); *o = c; Unit }
                Bare => { match S::builder().build() { Ok(c) => { let c: S = c; *o = c; B(true) } Err(_) => B(false) } }
                Swap => { std::mem::swap(s, o); Unit }
                _ => unreachable!(),
            } })
        }
    }
    pub fn case() -> Case {
        Case { name: "124", text: r#"#[fxstruct(r#async, builder(post_build))] struct S { #[fieldx(lazy, get, get_mut, set, clearer, predicate, reader, writer)] f: W }"#, kind: Kind::Lazy, given: false, required: false, empty_ok: true, ops: vec![Get, Mut, Set, Clear, Has, Reader, Writer, Debug, New, Build, Bare, Swap], make: || Box::new(Two(S::new(), S::new())) }
    }
}
pub mod m125 {
    use super::*;
    #[fxstruct(r#async, builder(post_build))]
    #[derive(Debug)]
    pub struct S { #[fieldx(lazy, get(clone), set(into), clearer, predicate, reader, writer)] f: W }
    impl S {
    async fn build_f(&self) -> W { built() }
    fn post_build(self) -> Self { fault(); self }
    }
    pub struct Two(S, S);
    impl Subject for Two {
        #[allow(unused_mut, unused_variables)]
        fn step(&mut self, op: Op, n: u32) -> Out {
            let Two(s, o) = self;
            now(async move { match op {
                Get => { let v = s.f().await; keep(Some(v)) }
                Set => { keep(s.set_f(Raw(n)).await) }
                Clear => { keep(s.clear_f().await) }
                Has => { B(s.has_f()) }
                Reader => { let g = s.read_f().await; fault(); let v = g.id(); fault(); V(v) }
                Writer => { let mut g = s.write_f().await; fault(); let x = g.store(W::new(n, 0)); fault(); let y = g.clear(); fault(); let z = g.store(W::new(n, 1)); fault(); drop(g); keep3([x, y, z]) }
                Debug => { let mut t = String::new(); let r = std::fmt::Write::write_fmt(&mut t, format_args!("{:?}", s)); B(r.is_ok()) }
                New => { let c: S = S::new(); *o = c; Unit }
                Build => { let c: S = S::builder().f(W::new(n, 0)).build().unwrap(); *o = c; Unit }
                Bare => { match S::builder().build() { Ok(c) => { let c: S = c; *o = c; B(true) } Err(_) => B(false) } }
                Swap => { std::mem::swap(s, o); Unit }
                _ => unreachable!(),
            } })
        }
    }
    pub fn case() -> Case {
        Case { name: "125", text: r#"#[fxstruct(r#async, builder(post_build))] struct S { #[fieldx(lazy, get(clone), set(into), clearer, predicate, reader, writer)] f: W }"#, kind: Kind::Lazy, given: false, required: false, empty_ok: true, ops: vec![Get, Set, Clear, Has, Reader, Writer, Debug, New, Build, Bare, Swap], make: || Box::new(Two(S::new(), S::new())) }
    }
}
pub mod m126 {
    use super::*;
    #[fxstruct(r#async, builder(post_build))]
    #[derive(Clone, Debug, PartialEq)]
    pub struct S { #[fieldx(lock, optional, get, get_mut, set, clearer, predicate, reader, writer)] f: W }
    impl S {
    fn post_build(self) -> Self { fault(); self }
    }
    pub struct Two(S, S);
    impl Subject for Two {
        #[allow(unused_mut, unused_variables)]
        fn step(&mut self, op: Op, n: u32) -> Out {
            let Two(s, o) = self;
            now(async move { match op {
                Get => { let v = s.f().await; id((*v).as_ref()) }
                Mut => { let mut g = s.f_mut().await; fault(); let w = Some(W::new(n, 0)); *g = w; fault(); Unit }
                Set => { keep(s.set_f(W::new(n, 0)).await) }
                Clear => { keep(s.clear_f().await) }
                Has => { B(s.has_f().await) }
                Reader => { let g = s.read_f().await; fault(); let v = (*g).as_ref().map_or(0, |w| w.id()); fault(); V(v) }
                Writer => { let mut g = s.write_f().await; fault(); let x = (*g).replace(W::new(n, 0)); fault(); let y = (*g).take(); fault(); let z = (*g).replace(W::new(n, 1)); fault(); drop(g); keep3([x, y, z]) }
                Clone => { let c = s.clone(); *o = c; Unit }
                Eq => { B(*s == *o) }
                Debug => { let mut t = String::new(); let r = std::fmt::Write::write_fmt(&mut t, format_args!("{:?}", s)); B(r.is_ok()) }
                New => { let c: S = S::new(); *o = c; Unit }
                Build => { let c: S = S::builder().f(W::new(n, 0)).build().unwrap(); *o = c; Unit }
                Bare => { match S::builder().build() { Ok(c) => { let c: S = c; *o = c; B(true) } Err(_) => B(false) } }
                Swap => { std::mem::swap(s, o); Unit }
                _ => unreachable!(),
            } })
        }
    }
    pub fn case() -> Case {
        Case { name: "126", text: r#"#[fxstruct(r#async, builder(post_build))] struct S { #[fieldx(lock, optional, get, get_mut, set, clearer, predicate, reader, writer)] f: W }"#, kind: Kind::Opt, given: false, required: false, empty_ok: true, ops: vec![Get, Mut, Set, Clear, Has, Reader, Writer, Clone, Eq, Debug, New, Build, Bare, Swap], make: || Box::new(Two(S::new(), S::new())) }
    }
}
pub mod m127 {
    use super::*;
    #[fxstruct(r#async, builder(post_build))]
    #[derive(Clone, Debug, PartialEq)]
    pub struct S { #[fieldx(lock, optional, get(clone), set(into), clearer, predicate, reader, writer)] f: W }
    impl S {
    fn post_build(self) -> Self { fault(); self }
    }
    pub struct Two(S, S);
    impl Subject for Two {
        #[allow(unused_mut, unused_variables)]
        fn step(&mut self, op: Op, n: u32) -> Out {
            let Two(s, o) = self;
            now(async move { match op {
                Get => { let v = s.f().await; keep(v) }
                Set => { keep(s.set_f(Raw(n)).await) }
                Clear => { keep(s.clear_f().await) }
                Has => { B(s.has_f().await) }
                Reader => { let g = s.read_f().await; fault(); let v = (*g).as_ref().map_or(0, |w| w.id()); fault(); V(v) }
                Writer => { let mut g = s.write_f().await; fault(); let x = (*g).replace(W::new(n, 0)); fault(); let y = (*g).take(); fault(); let z = (*g).replace(W::new(n, 1)); fault(); drop(g); keep3([x, y, z]) }
                Clone => { let c = s.clone(); *o = c; Unit }
                Eq => { B(*s == *o) }
                Debug => { let mut t = String::new(); let r = std::fmt::Write::write_fmt(&mut t, format_args!("{:?}", s)); B(r.is_ok()) }
                New => { let c: S = S::new(); *o = c; Unit }
                Build => { let c: S = S::builder().f(W::new(n, 0)).build().unwrap(); *o = c; Unit }
                Bare => { match S::builder().build() { Ok(c) => { let c: S = c; *o = c; B(true) } Err(_) => B(false) } }
                Swap => { std::mem::swap(s, o); Unit }
                _ => unreachable!(),
            } })
        }
    }
    pub fn case() -> Case {
        Case { name: "127", text: r#"#[fxstruct(r#async, builder(post_build))] struct S { #[fieldx(lock, optional, get(clone), set(into), clearer, predicate, reader, writer)] f: W }"#, kind: Kind::Opt, given: false, required: false, empty_ok: true, ops: vec![Get, Set, Clear, Has, Reader, Writer, Clone, Eq, Debug, New, Build, Bare, Swap], make: || Box::new(Two(S::new(), S::new())) }
    }
}
pub mod m128 {
    use super::*;
    #[fxstruct(r#async, builder(post_build))]
    #[derive(Clone, Debug, PartialEq)]
    pub struct S { #[fieldx(lock, get, get_mut, set, reader, writer)] f: W }
    impl S {
    fn post_build(self) -> Self { fault(); self }
    }
    pub struct Two(S, S);
    impl Subject for Two {
        #[allow(unused_mut, unused_variables)]
        fn step(&mut self, op: Op, n: u32) -> Out {
            let Two(s, o) = self;
            now(async move { match op {
                Get => { let v = s.f().await; fault(); Old(Some(v.id())) }
                Mut => { let mut g = s.f_mut().await; fault(); let w = W::new(n, 0); *g = w; fault(); Unit }
                Set => { keep(Some(s.set_f(W::new(n, 0)).await)) }
                Reader => { let g = s.read_f().await; fault(); let v = g.id(); fault(); V(v) }
                Writer => { let mut g = s.write_f().await; fault(); *g = W::new(n, 0); fault(); *g = W::new(n, 1); fault(); drop(g); Unit }
                Clone => { let c = s.clone(); *o = c; Unit }
                Eq => { B(*s == *o) }
                Debug => { let mut t = String::new(); let r = std::fmt::Write::write_fmt(&mut t, format_args!("{:?}", s)); B(r.is_ok()) }
                New => { let c: S = S::new(); *o = c; Unit }
                Build => { let c: S = S::builder().f(W::new(n, 0)).build().unwrap(); *o = c; Unit }
                Bare => { match S::builder().build() { Ok(c) => { let c: S = c; *o = c; B(true) } Err(_) => B(false) } }
                Swap => { std::mem::swap(s, o); Unit }
                _ => unreachable!(),
            } })
        }
    }
    pub fn case() -> Case {
        Case { name: "128", text: r#"#[fxstruct(r#async, builder(post_build))] struct S { #[fieldx(lock, get, get_mut, set, reader, writer)] f: W }"#, kind: Kind::Val, given: false, required: true, empty_ok: false, ops: vec![Get, Mut, Set, Reader, Writer, Clone, Eq, Debug, New, Build, Bare, Swap], make: || Box::new(Two(S::new(), S::new())) }
    }
}
pub mod m129 {
    use super::*;
    #[fxstruct(r#async, builder(post_build))]
    #[derive(Clone, Debug, PartialEq)]
    pub struct S { #[fieldx(lock, get(clone), set(into), reader, writer)] f: W }
    impl S {
    fn post_build(self) -> Self { fault(); self }
    }
    pub struct Two(S, S);
    impl Subject for Two {
        #[allow(unused_mut, unused_variables)]
        fn step(&mut self, op: Op, n: u32) -> Out {
            let Two(s, o) = self;
            now(async move { match op {
                Get => { let v = s.f().await; keep(Some(v)) }
                Set => { keep(Some(s.set_f(Raw(n)).await)) }
                Reader => { let g = s.read_f().await; fault(); let v = g.id(); fault(); V(v) }
                Writer => { let mut g = s.write_f().await; fault(); *g = W::new(n, 0); fault(); *g = W::new(n, 1); fault(); drop(g); Unit }
                Clone => { let c = s.clone(); *o = c; Unit }
                Eq => { B(*s == *o) }
                Debug => { let mut t = String::new(); let r = std::fmt::Write::write_fmt(&mut t, format_args!("{:?}", s)); B(r.is_ok()) }
                New => { let c: S = S::new(); *o = c; Unit }
                Build => { let c: S = S::builder().f(W::new(n, 0)).build().unwrap(); *o = c; Unit }
                Bare => { match S::builder().build() { Ok(c) => { let c: S = c; *o = c; B(true) } Err(_) => B(false) } }
                Swap => { std::mem::swap(s, o); Unit }
                _ => unreachable!(),
            } })
        }
    }
    pub fn case() -> Case {
        Case { name: "129", text: r#"#[fxstruct(r#async, builder(post_build))] struct S { #[fieldx(lock, get(clone), set(into), reader, writer)] f: W }"#, kind: Kind::Val, given: false, required: true, empty_ok: false, ops: vec![Get, Set, Reader, Writer, Clone, Eq, Debug, New, Build, Bare, Swap], make: || Box::new(Two(S::new(), S::new())) }
    }
}
pub mod m130 {
    use super::*;
    #[fxstruct(r#async, builder(post_build))]
    #[derive(Debug)]
    pub struct S { #[fieldx(lazy, get, get_mut, set, clearer, predicate, reader, writer, default(five()))] f: W }
    impl S {
    async fn build_f(&self) -> W { built() }
    fn post_build(self) -> Self { fault(); self }
    }
    pub struct Two(S, S);
    impl Subject for Two {
        #[allow(unused_mut, unused_variables)]
        fn step(&mut self, op: Op, n: u32) -> Out {
            let Two(s, o) = self;
            now(async move { match op {
                Get => { let v = s.f().await; fault(); Old(Some(v.id())) }
                Mut => { let mut g = s.f_mut().await; fault(); let w = W::new(n, 0); *g = w; fault(); Unit }
                Set => { keep(s.set_f(W::new(n, 0)).await) }
                Clear => { keep(s.clear_f().await) }
                Has => { B(s.has_f()) }
                Reader => { let g = s.read_f().await; fault(); let v = g.id(); fault(); V(v) }
                Writer => { let mut g = s.write_f().await; fault(); let x = g.store(W::new(n, 0)); fault(); let y = g.clear(); fault(); let z = g.store(W::new(n, 1)); fault(); drop(g); keep3([x, y, z]) }
                Debug => { let mut t = String::new(); let r = std::fmt::Write::write_fmt(&mut t, format_args!("{:?}", s)); B(r.is_ok()) }
                New => { let c: S = S::new(); *o = c; Unit }
                Build => { let c: S = S::builder().f(W::new(n, 0)).build().unwrap(); *o = c; Unit }
                Bare => { match S::builder().build() { Ok(c) => { let c: S = c; *o = c; B(true) } Err(_) => B(false) } }
                Swap => { std::mem::swap(s, o); Unit }
                _ => unreachable!(),
            } })
        }
    }
    pub fn case() -> Case {
        Case { name: "130", text: r#"#[fxstruct(r#async, builder(post_build))] struct S { #[fieldx(lazy, get, get_mut, set, clearer, predicate, reader, writer, default(five()))] f: W }"#, kind: Kind::Lazy, given: true, required: false, empty_ok: true, ops: vec![Get, Mut, Set, Clear, Has, Reader, Writer, Debug, New, Build, Bare, Swap], make: || Box::new(Two(S::new(), S::new())) }
    }
}
pub mod m131 {
    use super::*;
    #[fxstruct(r#async, builder(post_build))]
    #[derive(Debug)]
    pub struct S { #[fieldx(lazy, get(clone), set(into), clearer, predicate, reader, writer, default(five()))] f: W }
    impl S {
    async fn build_f(&self) -> W { built() }
    fn post_build(self) -> Self { fault(); self }
    }
    pub struct Two(S, S);
    impl Subject for Two {
        #[allow(unused_mut, unused_variables)]
        fn step(&mut self, op: Op, n: u32) -> Out {
            let Two(s, o) = self;
            now(async move { match op {
                Get => { let v = s.f().await; keep(Some(v)) }
                Set => { keep(s.set_f(Raw(n)).await) }
                Clear => { keep(s.clear_f().await) }
                Has => { B(s.has_f()) }
                Reader => { let g = s.read_f().await; fault(); let v = g.id(); fault(); V(v) }
                Writer => { let mut g = s.write_f().await; fault(); let x = g.store(W::new(n, 0)); fault(); let y = g.clear(); fault(); let z = g.store(W::new(n, 1)); fault(); drop(g); keep3([x, y, z]) }
                Debug => { let mut t = String::new(); let r = std::fmt::Write::write_fmt(&mut t, format_args!("{:?}", s)); B(r.is_ok()) }
                New => { let c: S = S::new(); *o = c; Unit }
                Build => { let c: S = S::builder().f(W::new(n, 0)).build().unwrap(); *o = c; Unit }
                Bare => { match S::builder().build() { Ok(c) => { let c: S = c; *o = c; B(true) } Err(_) => B(false) } }
                Swap => { std::mem::swap(s, o); Unit }
                _ => unreachable!(),
            } })
        }
    }
    pub fn case() -> Case {
        Case { name: "131", text: r#"#[fxstruct(r#async, builder(post_build))] struct S { #[fieldx(lazy, get(clone), set(into), clearer, predicate, reader, writer, default(five()))] f: W }"#, kind: Kind::Lazy, given: true, required: false, empty_ok: true, ops: vec![Get, Set, Clear, Has, Reader, Writer, Debug, New, Build, Bare, Swap], make: || Box::new(Two(S::new(), S::new())) }
    }
}
pub mod m132 {
    use super::*;
    #[fxstruct(r#async, builder(post_build))]
    #[derive(Clone, Debug, PartialEq)]
    pub struct S { #[fieldx(lock, optional, get, get_mut, set, clearer, predicate, reader, writer, default(five()))] f: W }
    impl S {
    fn post_build(self) -> Self { fault(); self }
    }
    pub struct Two(S, S);
    impl Subject for Two {
        #[allow(unused_mut, unused_variables)]
        fn step(&mut self, op: Op, n: u32) -> Out {
            let Two(s, o) = self;
            now(async move { match op {
                Get => { let v = s.f().await; id((*v).as_ref()) }
                Mut => { let mut g = s.f_mut().await; fault(); let w = Some(W::new(n, 0)); *g = w; fault(); Unit }
                Set => { keep(s.set_f(W::new(n, 0)).await) }
                Clear => { keep(s.clear_f().await) }
                Has => { B(s.has_f().await) }
                Reader => { let g = s.read_f().await; fault(); let v = (*g).as_ref().map_or(0, |w| w.id()); fault(); V(v) }
                Writer => { let mut g = s.write_f().await; fault(); let x = (*g).replace(W::new(n, 0)); fault(); let y = (*g).take(); fault(); let z = (*g).replace(W::new(n, 1)); fault(); drop(g); keep3([x, y, z]) }
                Clone => { let c = s.clone(); *o = c; Unit }
                Eq => { B(*s == *o) }
                Debug => { let mut t = String::new(); let r = std::fmt::Write::write_fmt(&mut t, format_args!("{:?}", s)); B(r.is_ok()) }
                New => { let c: S = S::new(); *o = c; Unit }
                Build => { let c: S = S::builder().f(W::new(n, 0)).build().unwrap(); *o = c; Unit }
                Bare => { match S::builder().build() { Ok(c) => { let c: S = c; *o = c; B(true) } Err(_) => B(false) } }
                Swap => { std::mem::swap(s, o); Unit }
                _ => unreachable!(),
            } })
        }
    }
    pub fn case() -> Case {
        Case { name: "132", text: r#"#[fxstruct(r#async, builder(post_build))] struct S { #[fieldx(lock, optional, get, get_mut, set, clearer, predicate, reader, writer, default(five()))] f: W }"#, kind: Kind::Opt, given: true, required: false, empty_ok: true, ops: vec![Get, Mut, Set, Clear, Has, Reader, Writer, Clone, Eq, Debug, New, Build, Bare, Swap], make: || Box::new(Two(S::new(), S::new())) }
    }
}
pub mod m133 {
    use super::*;
    #[fxstruct(r#async, builder(post_build))]
    #[derive(Clone, Debug, PartialEq)]
    pub struct S { #[fieldx(lock, optional, get(clone), set(into), clearer, predicate, reader, writer, default(five()))] f: W }
    impl S {
    fn post_build(self) -> Self { fault(); self }
    }
    pub struct Two(S, S);
    impl Subject for Two {
        #[allow(unused_mut, unused_variables)]
        fn step(&mut self, op: Op, n: u32) -> Out {
            let Two(s, o) = self;
            now(async move { match op {
                Get => { let v = s.f().await; keep(v) }
                Set => { keep(s.set_f(Raw(n)).await) }
                Clear => { keep(s.clear_f().await) }
                Has => { B(s.has_f().await) }
                Reader => { let g = s.read_f().await; fault(); let v = (*g).as_ref().map_or(0, |w| w.id()); fault(); V(v) }
                Writer => { let mut g = s.write_f().await; fault(); let x = (*g).replace(W::new(n, 0)); fault(); let y = (*g).take(); fault(); let z = (*g).replace(W::new(n, 1)); fault(); drop(g); keep3([x, y, z]) }
                Clone => { let c = s.clone(); *o = c; Unit }
                Eq => { B(*s == *o) }
                Debug => { let mut t = String::new(); let r = std::fmt::Write::write_fmt(&mut t, format_args!("{:?}", s)); B(r.is_ok()) }
                New => { let c: S = S::new(); *o = c; Unit }
                Build => { let c: S = S::builder().f(W::new(n, 0)).build().unwrap(); *o = c; Unit }
                Bare => { match S::builder().build() { Ok(c) => { let c: S = c; *o = c; B(true) } Err(_) => B(false) } }
                Swap => { std::mem::swap(s, o); Unit }
                _ => unreachable!(),
            } })
        }
    }
    pub fn case() -> Case {
        Case { name: "133", text: r#"#[fxstruct(r#async, builder(post_build))] struct S { #[fieldx(lock, optional, get(clone), set(into), clearer, predicate, reader, writer, default(five()))] f: W }"#, kind: Kind::Opt, given: true, required: false, empty_ok: true, ops: vec![Get, Set, Clear, Has, Reader, Writer, Clone, Eq, Debug, New, Build, Bare, Swap], make: || Box::new(Two(S::new(), S::new())) }
    }
}
pub mod m134 {
    use super::*;
    #[fxstruct(r#async, builder(post_build))]
    #[derive(Clone, Debug, PartialEq)]
    pub struct S { #[fieldx(lock, get, get_mut, set, reader, writer, default(five()))] f: W }
    impl S {
    fn post_build(self) -> Self { fault(); self }
    }
    pub struct Two(S, S);
    impl Subject for Two {
        #[allow(unused_mut, unused_variables)]
        fn step(&mut self, op: Op, n: u32) -> Out {
            let Two(s, o) = self;
            now(async move { match op {
                Get => { let v = s.f().await; fault(); Old(Some(v.id())) }
                Mut => { let mut g = s.f_mut().await; fault(); let w = W::new(n, 0); *g = w; fault(); Unit }
                Set => { keep(Some(s.set_f(W::new(n, 0)).await)) }
                Reader => { let g = s.read_f().await; fault(); let v = g.id(); fault(); V(v) }
                Writer => { let mut g = s.write_f().await; fault(); *g = W::new(n, 0); fault(); *g = W::new(n, 1); fault(); drop(g); Unit }
                Clone => { let c = s.clone(); *o = c; Unit }
                Eq => { B(*s == *o) }
                Debug => { let mut t = String::new(); let r = std::fmt::Write::write_fmt(&mut t, format_args!("{:?}", s)); B(r.is_ok()) }
                New => { let c: S = S::new(); *o = c; Unit }
                Build => { let c: S = S::builder().f(W::new(n, 0)).build().unwrap(); *o = c; Unit }
                Bare => { match S::builder().build() { Ok(c) => { let c: S = c; *o = c; B(true) } Err(_) => B(false) } }
                Swap => { std::mem::swap(s, o); Unit }
                _ => unreachable!(),
            } })
        }
    }
    pub fn case() -> Case {
        Case { name: "134", text: r#"#[fxstruct(r#async, builder(post_build))] struct S { #[fieldx(lock, get, get_mut, set, reader, writer, default(five()))] f: W }"#, kind: Kind::Val, given: true, required: false, empty_ok: false, ops: vec![Get, Mut, Set, Reader, Writer, Clone, Eq, Debug, New, Build, Bare, Swap], make: || Box::new(Two(S::new(), S::new())) }
    }
}
pub mod m135 {
    use super::*;
    #[fxstruct(r#async, builder(post_build))]
    #[derive(Clone, Debug, PartialEq)]
    pub struct S { #[fieldx(lock, get(clone), set(into), reader, writer, default(five()))] f: W }
    impl S {
    fn post_build(self) -> Self { fault(); self }
    }
    pub struct Two(S, S);
    impl Subject for Two {
        #[allow(unused_mut, unused_variables)]
        fn step(&mut self, op: Op, n: u32) -> Out {
            let Two(s, o) = self;
            now(async move { match op {
                Get => { let v = s.f().await; keep(Some(v)) }
                Set => { keep(Some(s.set_f(Raw(n)).await)) }
                Reader => { let g = s.read_f().await; fault(); let v = g.id(); fault(); V(v) }
                Writer => { let mut g = s.write_f().await; fault(); *g = W::new(n, 0); fault(); *g = W::new(n, 1); fault(); drop(g); Unit }
                Clone => { let c = s.clone(); *o = c; Unit }
                Eq => { B(*s == *o) }
                Debug => { let mut t = String::new(); let r = std::fmt::Write::write_fmt(&mut t, format_args!("{:?}", s)); B(r.is_ok()) }
                New => { let c: S = S::new(); *o = c; Unit }
                Build => { let c: S = S::builder().f(W::new(n, 0)).build().unwrap(); *o = c; Unit }
                Bare => { match S::builder().build() { Ok(c) => { let c: S = c; *o = c; B(true) } Err(_) => B(false) } }
                Swap => { std::mem::swap(s, o); Unit }
                _ => unreachable!(),
            } })
        }
    }
    pub fn case() -> Case {
        Case { name: "135", text: r#"#[fxstruct(r#async, builder(post_build))] struct S { #[fieldx(lock, get(clone), set(into), reader, writer, default(five()))] f: W }"#, kind: Kind::Val, given: true, required: false, empty_ok: false, ops: vec![Get, Set, Reader, Writer, Clone, Eq, Debug, New, Build, Bare, Swap], make: || Box::new(Two(S::new(), S::new())) }
    }
}
pub mod m136 {
    use super::*;
    #[fxstruct(r#async, rc, builder(post_build, into))]
    #[derive(Debug)]
    pub struct S { #[fieldx(lazy, get, get_mut, set, clearer, predicate, reader, writer)] f: W }
    impl S {
    async fn build_f(&self) -> W { built() }
    fn post_build(self) -> Self { fault(); self }
    }
    pub struct Two(Arc<S>, Arc<S>);
    impl Subject for Two {
        #[allow(unused_mut, unused_variables)]
        fn step(&mut self, op: Op, n: u32) -> Out {
            let Two(s, o) = self;
            now(async move { match op {
                Get => { let v = s.f().await; fault(); Old(Some(v.id())) }
                Mut => { let mut g = s.f_mut().await; fault(); let w = W::new(n, 0); *g = w; fault(); Unit }
                Set => { keep(s.set_f(W::new(n, 0)).await) }
                Clear => { keep(s.clear_f().await) }
                Has => { B(s.has_f()) }
                Reader => { let g = s.read_f().await; fault(); let v = g.id(); fault(); V(v) }
                Writer => { let mut g = s.write_f().await; fault(); let x = g.store(W::new(n, 0)); fault(); let y = g.clear(); fault(); let z = g.store(W::new(n, 1)); fault(); drop(g); keep3([x, y, z]) }
                Debug => { let mut t = String::new(); let r = std::fmt::Write::write_fmt(&mut t, format_args!("{:?}", s)); B(r.is_ok()) }
                New => { let c: Arc<S> = S::new(); *o = c; Unit }
                Build => { let c: Arc<S> = S::builder().f(Raw(n)).build().unwrap(); *o = c; Unit }
                Bare => { match S::builder().build() { Ok(c) => { let c: Arc<S> = c; *o = c; B(true) } Err(_) => B(false) } }
                Swap => { std::mem::swap(s, o); Unit }
                _ => unreachable!(),
            } })
        }
    }
    pub fn case() -> Case {
        Case { name: "136", text: r#"#[fxstruct(r#async, rc, builder(post_build, into))] struct S { #[fieldx(lazy, get, get_mut, set, clearer, predicate, reader, writer)] f: W }"#, kind: Kind::Lazy, given: false, required: false, empty_ok: true, ops: vec![Get, Mut, Set, Clear, Has, Reader, Writer, Debug, New, Build, Bare, Swap], make: || Box::new(Two(S::new(), S::new())) }
    }
}
pub mod m137 {
    use super::*;
    #[fxstruct(r#async, rc, builder(post_build, into))]
    #[derive(Debug)]
    pub struct S { #[fieldx(lazy, get(clone), set(into), clearer, predicate, reader, writer)] f: W }
    impl S {
    async fn build_f(&self) -> W { built() }
    fn post_build(self) -> Self { fault(); self }
    }
    pub struct Two(Arc<S>, Arc<S>);
    impl Subject for Two {
        #[allow(unused_mut, unused_variables)]
        fn step(&mut self, op: Op, n: u32) -> Out {
            let Two(s, o) = self;
            now(async move { match op {
                Get => { let v = s.f().await; keep(Some(v)) }
                Set => { keep(s.set_f(Raw(n)).await) }
                Clear => { keep(s.clear_f().await) }
                Has => { B(s.has_f()) }
                Reader => { let g = s.read_f().await; fault(); let v = g.id(); fault(); V(v) }
                Writer => { let mut g = s.write_f().await; fault(); let x = g.store(W::new(n, 0)); fault(); let y = g.clear(); fault(); let z = g.store(W::new(n, 1)); fault(); drop(g); keep3([x, y, z]) }
                Debug => { let mut t = String::new(); let r = std::fmt::Write::write_fmt(&mut t, format_args!("{:?}", s)); B(r.is_ok()) }
                New => { let c: Arc<S> = S::new(); *o = c; Unit }
                Build => { let c: Arc<S> = S::builder().f(Raw(n)).build().unwrap(); *o = c; Unit }
                Bare => { match S::builder().build() { Ok(c) => { let c: Arc<S> = c; *o = c; B(true) } Err(_) => B(false) } }
                Swap => { std::mem::swap(s, o); Unit }
                _ => unreachable!(),
            } })
        }
    }
    pub fn case() -> Case {
        Case { name: "137", text: r#"#[fxstruct(r#async, rc, builder(post_build, into))] struct S { #[fieldx(lazy, get(clone), set(into), clearer, predicate, reader, writer)] f: W }"#, kind: Kind::Lazy, given: false, required: false, empty_ok: true, ops: vec![Get, Set, Clear, Has, Reader, Writer, Debug, New, Build, Bare, Swap], make: || Box::new(Two(S::new(), S::new())) }
    }
}
pub mod m138 {
    use super::*;
    #[fxstruct(r#async, rc, builder(post_build, into))]
    #[derive(Debug)]
    pub struct S { #[fieldx(lock, optional, get, get_mut, set, clearer, predicate, reader, writer)] f: W }
    impl S {
    fn post_build(self) -> Self { fault(); self }
    }
    pub struct Two(Arc<S>, Arc<S>);
    impl Subject for Two {
        #[allow(unused_mut, unused_variables)]
        fn step(&mut self, op: Op, n: u32) -> Out {
            let Two(s, o) = self;
            now(async move { match op {
                Get => { let v = s.f().await; id((*v).as_ref()) }
                Mut => { let mut g = s.f_mut().await; fault(); let w = Some(W::new(n, 0)); *g = w; fault(); Unit }
                Set => { keep(s.set_f(W::new(n, 0)).await) }
                Clear => { keep(s.clear_f().await) }
                Has => { B(s.has_f().await) }
                Reader => { let g = s.read_f().await; fault(); let v = (*g).as_ref().map_or(0, |w| w.id()); fault(); V(v) }
                Writer => { let mut g = s.write_f().await; fault(); let x = (*g).replace(W::new(n, 0)); fault(); let y = (*g).take(); fault(); let z = (*g).replace(W::new(n, 1)); fault(); drop(g); keep3([x, y, z]) }
                Debug => { let mut t = String::new(); let r = std::fmt::Write::write_fmt(&mut t, format_args!("{:?}", s)); B(r.is_ok()) }
                New => { let c: Arc<S> = S::new(); *o = c; Unit }
                Build => { let c: Arc<S> = S::builder().f(Raw(n)).build().unwrap(); *o = c; Unit }
                Bare => { match S::builder().build() { Ok(c) => { let c: Arc<S> = c; *o = c; B(true) } Err(_) => B(false) } }
                Swap => { std::mem::swap(s, o); Unit }
                _ => unreachable!(),
            } })
        }
    }
    pub fn case() -> Case {
        Case { name: "138", text: r#"#[fxstruct(r#async, rc, builder(post_build, into))] struct S { #[fieldx(lock, optional, get, get_mut, set, clearer, predicate, reader, writer)] f: W }"#, kind: Kind::Opt, given: false, required: false, empty_ok: true, ops: vec![Get, Mut, Set, Clear, Has, Reader, Writer, Debug, New, Build, Bare, Swap], make: || Box::new(Two(S::new(), S::new())) }
    }
}
pub mod m139 {
    use super::*;
    #[fxstruct(r#async, rc, builder(post_build, into))]
    #[derive(Debug)]
    pub struct S { #[fieldx(lock, optional, get(clone), set(into), clearer, predicate, reader, writer)] f: W }
    impl S {
    fn post_build(self) -> Self { fault(); self }
    }
    pub struct Two(Arc<S>, Arc<S>);
    impl Subject for Two {
        #[allow(unused_mut, unused_variables)]
        fn step(&mut self, op: Op, n: u32) -> Out {
            let Two(s, o) = self;
            now(async move { match op {
                Get => { let v = s.f().await; keep(v) }
                Set => { keep(s.set_f(Raw(n)).await) }
                Clear => { keep(s.clear_f().await) }
                Has => { B(s.has_f().await) }
                Reader => { let g = s.read_f().await; fault(); let v = (*g).as_ref().map_or(0, |w| w.id()); fault(); V(v) }
                Writer => { let mut g = s.write_f().await; fault(); let x = (*g).replace(W::new(n, 0)); fault(); let y = (*g).take(); fault(); let z = (*g).replace(W::new(n, 1)); fault(); drop(g); keep3([x, y, z]) }
                Debug => { let mut t = String::new(); let r = std::fmt::Write::write_fmt(&mut t, format_args!("{:?}", s)); B(r.is_ok()) }
                New => { let c: Arc<S> = S::new(); *o = c; Unit }
                Build => { let c: Arc<S> = S::builder().f(Raw(n)).build().unwrap(); *o = c; Unit }
                Bare => { match S::builder().build() { Ok(c) => { let c: Arc<S> = c; *o = c; B(true) } Err(_) => B(false) } }
                Swap => { std::mem::swap(s, o); Unit }
                _ => unreachable!(),
            } })
        }
    }
    pub fn case() -> Case {
        Case { name: "139", text: r#"#[fxstruct(r#async, rc, builder(post_build, into))] struct S { #[fieldx(lock, optional, get(clone), set(into), clearer, predicate, reader, writer)] f: W }"#, kind: Kind::Opt, given: false, required: false, empty_ok: true, ops: vec![Get, Set, Clear, Has, Reader, Writer, Debug, New, Build, Bare, Swap], make: || Box::new(Two(S::new(), S::new())) }
    }
}
pub mod m140 {
    use super::*;
    #[fxstruct(r#async, rc, builder(post_build, into))]
    #[derive(Debug)]
    pub struct S { #[fieldx(lock, get, get_mut, set, reader, writer)] f: W }
    impl S {
    fn post_build(self) -> Self { fault(); self }
    }
    pub struct Two(Arc<S>, Arc<S>);
    impl Subject for Two {
        #[allow(unused_mut, unused_variables)]
        fn step(&mut self, op: Op, n: u32) -> Out {
            let Two(s, o) = self;
            now(async move { match op {
                Get => { let v = s.f().await; fault(); Old(Some(v.id())) }
                Mut => { let mut g = s.f_mut().await; fault(); let w = W::new(n, 0); *g = w; fault(); Unit }
                Set => { keep(Some(s.set_f(W::new(n, 0)).await)) }
                Reader => { let g = s.read_f().await; fault(); let v = g.id(); fault(); V(v) }
                Writer => { let mut g = s.write_f().await; fault(); *g = W::new(n, 0); fault(); *g = W::new(n, 1); fault(); drop(g); Unit }
                Debug => { let mut t = String::new(); let r = std::fmt::Write::write_fmt(&mut t, format_args!("{:?}", s)); B(r.is_ok()) }
                New => { let c: Arc<S> = S::new(); *o = c; Unit }
                Build => { let c: Arc<S> = S::builder().f(Raw(n)).build().unwrap(); *o = c; Unit }
                Bare => { match S::builder().build() { Ok(c) => { let c: Arc<S> = c; *o = c; B(true) } Err(_) => B(false) } }
                Swap => { std::mem::swap(s, o); Unit }
                _ => unreachable!(),
            } })
        }
    }
    pub fn case() -> Case {
        Case { name: "140", text: r#"#[fxstruct(r#async, rc, builder(post_build, into))] struct S { #[fieldx(lock, get, get_mut, set, reader, writer)] f: W }"#, kind: Kind::Val, given: false, required: true, empty_ok: false, ops: vec![Get, Mut, Set, Reader, Writer, Debug, New, Build, Bare, Swap], make: || Box::new(Two(S::new(), S::new())) }
    }
}
pub mod m141 {
    use super::*;
    #[fxstruct(r#async, rc, builder(post_build, into))]
    #[derive(Debug)]
    pub struct S { #[fieldx(lock, get(clone), set(into), reader, writer)] f: W }
    impl S {
    fn post_build(self) -> Self { fault(); self }
    }
    pub struct Two(Arc<S>, Arc<S>);
    impl Subject for Two {
        #[allow(unused_mut, unused_variables)]
        fn step(&mut self, op: Op, n: u32) -> Out {
            let Two(s, o) = self;
            now(async move { match op {
                Get => { let v = s.f().await; keep(Some(v)) }
                Set => { keep(Some(s.set_f(Raw(n)).await)) }
                Reader => { let g = s.read_f().await; fault(); let v = g.id(); fault(); V(v) }
                Writer => { let mut g = s.write_f().await; fault(); *g = W::new(n, 0); fault(); *g = W::new(n, 1); fault(); drop(g); Unit }
                Debug => { let mut t = String::new(); let r = std::fmt::Write::write_fmt(&mut t, format_args!("{:?}", s)); B(r.is_ok()) }
                New => { let c: Arc<S> = S::new(); *o = c; Unit }
                Build => { let c: Arc<S> = S::builder().f(Raw(n)).build().unwrap(); *o = c; Unit }
                Bare => { match S::builder().build() { Ok(c) => { let c: Arc<S> = c; *o = c; B(true) } Err(_) => B(false) } }
                Swap => { std::mem::swap(s, o); Unit }
                _ => unreachable!(),
            } })
        }
    }
    pub fn case() -> Case {
        Case { name: "141", text: r#"#[fxstruct(r#async, rc, builder(post_build, into))] struct S { #[fieldx(lock, get(clone), set(into), reader, writer)] f: W }"#, kind: Kind::Val, given: false, required: true, empty_ok: false, ops: vec![Get, Set, Reader, Writer, Debug, New, Build, Bare, Swap], make: || Box::new(Two(S::new(), S::new())) }
    }
}
pub mod m142 {
    use super::*;
    #[fxstruct(r#async, rc, builder(post_build, into))]
    #[derive(Debug)]
    pub struct S { #[fieldx(lazy, get, get_mut, set, clearer, predicate, reader, writer, default(five()))] f: W }
    impl S {
    async fn build_f(&self) -> W { built() }
    fn post_build(self) -> Self { fault(); self }
    }
    pub struct Two(Arc<S>, Arc<S>);
    impl Subject for Two {
        #[allow(unused_mut, unused_variables)]
        fn step(&mut self, op: Op, n: u32) -> Out {
            let Two(s, o) = self;
            now(async move { match op {
                Get => { let v = s.f().await; fault(); Old(Some(v.id())) }
                Mut => { let mut g = s.f_mut().await; fault(); let w = W::new(n, 0); *g = w; fault(); Unit }
                Set => { keep(s.set_f(W::new(n, 0)).await) }
                Clear => { keep(s.clear_f().await) }
                Has => { B(s.has_f()) }
                Reader => { let g = s.read_f().await; fault(); let v = g.id(); fault(); V(v) }
                Writer => { let mut g = s.write_f().await; fault(); let x = g.store(W::new(n, 0)); fault(); let y = g.clear(); fault(); let z = g.store(W::new(n, 1)); fault(); drop(g); keep3([x, y, z]) }
                Debug => { let mut t = String::new(); let r = std::fmt::Write::write_fmt(&mut t, format_args!("{:?}", s)); B(r.is_ok()) }
                New => { let c: Arc<S> = S::new(); *o = c; Unit }
                Build => { let c: Arc<S> = S::builder().f(Raw(n)).build().unwrap(); *o = c; Unit }
                Bare => { match S::builder().build() { Ok(c) => { let c: Arc<S> = c; *o = c; B(true) } Err(_) => B(false) } }
                Swap => { std::mem::swap(s, o); Unit }
                _ => unreachable!(),
            } })
        }
    }
    pub fn case() -> Case {
        Case { name: "142", text: r#"#[fxstruct(r#async, rc, builder(post_build, into))] struct S { #[fieldx(lazy, get, get_mut, set, clearer, predicate, reader, writer, default(five()))] f: W }"#, kind: Kind::Lazy, given: true, required: false, empty_ok: true, ops: vec![Get, Mut, Set, Clear, Has, Reader, Writer, Debug, New, Build, Bare, Swap], make: || Box::new(Two(S::new(), S::new())) }
    }
}
pub mod m143 {
    use super::*;
    #[fxstruct(r#async, rc, builder(post_build, into))]
    #[derive(Debug)]
    pub struct S { #[fieldx(lazy, get(clone), set(into), clearer, predicate, reader, writer, default(five()))] f: W }
    impl S {
    async fn build_f(&self) -> W { built() }
    fn post_build(self) -> Self { fault(); self }
    }
    pub struct Two(Arc<S>, Arc<S>);
    impl Subject for Two {
        #[allow(unused_mut, unused_variables)]
        fn step(&mut self, op: Op, n: u32) -> Out {
            let Two(s, o) = self;
            now(async move { match op {
                Get => { let v = s.f().await; keep(Some(v)) }
                Set => { keep(s.set_f(Raw(n)).await) }
                Clear => { keep(s.clear_f().await) }
                Has => { B(s.has_f()) }
                Reader => { let g = s.read_f().await; fault(); let v = g.id(); fault(); V(v) }
                Writer => { let mut g = s.write_f().await; fault(); let x = g.store(W::new(n, 0)); fault(); let y = g.clear(); fault(); let z = g.store(W::new(n, 1)); fault(); drop(g); keep3([x, y, z]) }
                Debug => { let mut t = String::new(); let r = std::fmt::Write::write_fmt(&mut t, format_args!("{:?}", s)); B(r.is_ok()) }
                New => { let c: Arc<S> = S::new(); *o = c; Unit }
                Build => { let c: Arc<S> = S::builder().f(Raw(n)).build().unwrap(); *o = c; Unit }
                Bare => { match S::builder().build() { Ok(c) => { let c: Arc<S> = c; *o = c; B(true) } Err(_) => B(false) } }
                Swap => { std::mem::swap(s, o); Unit }
                _ => unreachable!(),
            } })
        }
    }
    pub fn case() -> Case {
        Case { name: "143", text: r#"#[fxstruct(r#async, rc, builder(post_build, into))] struct S { #[fieldx(lazy, get(clone), set(into), clearer, predicate, reader, writer, default(five()))] f: W }"#, kind: Kind::Lazy, given: true, required: false, empty_ok: true, ops: vec![Get, Set, Clear, Has, Reader, Writer, Debug, New, Build, Bare, Swap], make: || Box::new(Two(S::new(), S::new())) }
    }
}
pub mod m144 {
    use super::*;
    #[fxstruct(r#async, rc, builder(post_build, into))]
    #[derive(Debug)]
    pub struct S { #[fieldx(lock, optional, get, get_mut, set, clearer, predicate, reader, writer, default(five()))] f: W }
    impl S {
    fn post_build(self) -> Self { fault(); self }
    }
    pub struct Two(Arc<S>, Arc<S>);
    impl Subject for Two {
        #[allow(unused_mut, unused_variables)]
        fn step(&mut self, op: Op, n: u32) -> Out {
            let Two(s, o) = self;
            now(async move { match op {
                Get => { let v = s.f().await; id((*v).as_ref()) }
                Mut => { let mut g = s.f_mut().await; fault(); let w = Some(W::new(n, 0)); *g = w; fault(); Unit }
                Set => { keep(s.set_f(W::new(n, 0)).await) }
                Clear => { keep(s.clear_f().await) }
                Has => { B(s.has_f().await) }
                Reader => { let g = s.read_f().await; fault(); let v = (*g).as_ref().map_or(0, |w| w.id()); fault(); V(v) }
                Writer => { let mut g = s.write_f().await; fault(); let x = (*g).replace(W::new(n, 0)); fault(); let y = (*g).take(); fault(); let z = (*g).replace(W::new(n, 1)); fault(); drop(g); keep3([x, y, z]) }
                Debug => { let mut t = String::new(); let r = std::fmt::Write::write_fmt(&mut t, format_args!("{:?}", s)); B(r.is_ok()) }
                New => { let c: Arc<S> = S::new(); *o = c; Unit }
                Build => { let c: Arc<S> = S::builder().f(Raw(n)).build().unwrap(); *o = c; Unit }
                Bare => { match S::builder().build() { Ok(c) => { let c: Arc<S> = c; *o = c; B(true) } Err(_) => B(false) } }
                Swap => { std::mem::swap(s, o); Unit }
                _ => unreachable!(),
            } })
        }
    }
    pub fn case() -> Case {
        Case { name: "144", text: r#"#[fxstruct(r#async, rc, builder(post_build, into))] struct S { #[fieldx(lock, optional, get, get_mut, set, clearer, predicate, reader, writer, default(five()))] f: W }"#, kind: Kind::Opt, given: true, required: false, empty_ok: true, ops: vec![Get, Mut, Set, Clear, Has, Reader, Writer, Debug, New, Build, Bare, Swap], make: || Box::new(Two(S::new(), S::new())) }
    }
}
pub mod m145 {
    use super::*;
    #[fxstruct(r#async, rc, builder(post_build, into))]
    #[derive(Debug)]
    pub struct S { #[fieldx(lock, optional, get(clone), set(into), clearer, predicate, reader, writer, default(five()))] f: W }
    impl S {
    fn post_build(self) -> Self { fault(); self }
    }
    pub struct Two(Arc<S>, Arc<S>);
    impl Subject for Two {
        #[allow(unused_mut, unused_variables)]
        fn step(&mut self, op: Op, n: u32) -> Out {
            let Two(s, o) = self;
            now(async move { match op {
                Get => { let v = s.f().await; keep(v) }
                Set => { keep(s.set_f(Raw(n)).await) }
                Clear => { keep(s.clear_f().await) }
                Has => { B(s.has_f().await) }
                Reader => { let g = s.read_f().await; fault(); let v = (*g).as_ref().map_or(0, |w| w.id()); fault(); V(v) }
                Writer => { let mut g = s.write_f().await; fault(); let x = (*g).replace(W::new(n, 0)); fault(); let y = (*g).take(); fault(); let z = (*g).replace(W::new(n, 1)); fault(); drop(g); keep3([x, y, z]) }
                Debug => { let mut t = String::new(); let r = std::fmt::Write::write_fmt(&mut t, format_args!("{:?}", s)); B(r.is_ok()) }
                New => { let c: Arc<S> = S::new(); *o = c; Unit }
                Build => { let c: Arc<S> = S::builder().f(Raw(n)).build().unwrap(); *o = c; Unit }
                Bare => { match S::builder().build() { Ok(c) => { let c: Arc<S> = c; *o = c; B(true) } Err(_) => B(false) } }
                Swap => { std::mem::swap(s, o); Unit }
                _ => unreachable!(),
            } })
        }
    }
    pub fn case() -> Case {
        Case { name: "145", text: r#"#[fxstruct(r#async, rc, builder(post_build, into))] struct S { #[fieldx(lock, optional, get(clone), set(into), clearer, predicate, reader, writer, default(five()))] f: W }"#, kind: Kind::Opt, given: true, required: false, empty_ok: true, ops: vec![Get, Set, Clear, Has, Reader, Writer, Debug, New, Build, Bare, Swap], make: || Box::new(Two(S::new(), S::new())) }
    }
}
pub mod m146 {
    use super::*;
    #[fxstruct(r#async, rc, builder(post_build, into))]
    #[derive(Debug)]
    pub struct S { #[fieldx(lock, get, get_mut, set, reader, writer, default(five()))] f: W }
    impl S {
    fn post_build(self) -> Self { fault(); self }
    }
    pub struct Two(Arc<S>, Arc<S>);
    impl Subject for Two {
        #[allow(unused_mut, unused_variables)]
        fn step(&mut self, op: Op, n: u32) -> Out {
            let Two(s, o) = self;
            now(async move { match op {
                Get => { let v = s.f().await; fault(); Old(Some(v.id())) }
                Mut => { let mut g = s.f_mut().await; fault(); let w = W::new(n, 0); *g = w; fault(); Unit }
                Set => { keep(Some(s.set_f(W::new(n, 0)).await)) }
                Reader => { let g = s.read_f().await; fault(); let v = g.id(); fault(); V(v) }
                Writer => { let mut g = s.write_f().await; fault(); *g = W::new(n, 0); fault(); *g = W::new(n, 1); fault(); drop(g); Unit }
                Debug => { let mut t = String::new(); let r = std::fmt::Write::write_fmt(&mut t, format_args!("{:?}", s)); B(r.is_ok()) }
                New => { let c: Arc<S> = S::new(); *o = c; Unit }
                Build => { let c: Arc<S> = S::builder().f(Raw(n)).build().unwrap(); *o = c; Unit }
                Bare => { match S::builder().build() { Ok(c) => { let c: Arc<S> = c; *o = c; B(true) } Err(_) => B(false) } }
                Swap => { std::mem::swap(s, o); Unit }
                _ => unreachable!(),
            } })
        }
    }
    pub fn case() -> Case {
        Case { name: "146", text: r#"#[fxstruct(r#async, rc, builder(post_build, into))] struct S { #[fieldx(lock, get, get_mut, set, reader, writer, default(five()))] f: W }"#, kind: Kind::Val, given: true, required: false, empty_ok: false, ops: vec![Get, Mut, Set, Reader, Writer, Debug, New, Build, Bare, Swap], make: || Box::new(Two(S::new(), S::new())) }
    }
}
pub mod m147 {
    use super::*;
    #[fxstruct(r#async, rc, builder(post_build, into))]
    #[derive(Debug)]
    pub struct S { #[fieldx(lock, get(clone), set(into), reader, writer, default(five()))] f: W }
    impl S {
    fn post_build(self) -> Self { fault(); self }
    }
    pub struct Two(Arc<S>, Arc<S>);
    impl Subject for Two {
        #[allow(unused_mut, unused_variables)]
        fn step(&mut self, op: Op, n: u32) -> Out {
            let Two(s, o) = self;
            now(async move { match op {
                Get => { let v = s.f().await; keep(Some(v)) }
                Set => { keep(Some(s.set_f(Raw(n)).await)) }
                Reader => { let g = s.read_f().await; fault(); let v = g.id(); fault(); V(v) }
                Writer => { let mut g = s.write_f().await; fault(); *g = W::new(n, 0); fault(); *g = W::new(n, 1); fault(); drop(g); Unit }
                Debug => { let mut t = String::new(); let r = std::fmt::Write::write_fmt(&mut t, format_args!("{:?}", s)); B(r.is_ok()) }
                New => { let c: Arc<S> = S::new(); *o = c; Unit }
                Build => { let c: Arc<S> = S::builder().f(Raw(n)).build().unwrap(); *o = c; Unit }
                Bare => { match S::builder().build() { Ok(c) => { let c: Arc<S> = c; *o = c; B(true) } Err(_) => B(false) } }
                Swap => { std::mem::swap(s, o); Unit }
                _ => unreachable!(),
            } })
        }
    }
    pub fn case() -> Case {
        Case { name: "147", text: r#"#[fxstruct(r#async, rc, builder(post_build, into))] struct S { #[fieldx(lock, get(clone), set(into), reader, writer, default(five()))] f: W }"#, kind: Kind::Val, given: true, required: false, empty_ok: false, ops: vec![Get, Set, Reader, Writer, Debug, New, Build, Bare, Swap], make: || Box::new(Two(S::new(), S::new())) }
    }
}
pub mod m148 {
    use super::*;
    #[fxstruct(r#async, builder(post_build))]
    #[derive(Debug)]
    pub struct S { #[fieldx(lazy, fallible(error(Sorry)), get, get_mut, set, clearer, predicate, reader, writer)] f: W }
    impl S {
    async fn build_f(&self) -> Result<W, Sorry> { Ok(built()) }
    fn post_build(self) -> Self { fault(); self }
    }
    pub struct Two(S, S);
    impl Subject for Two {
        #[allow(unused_mut, unused_variables)]
        fn step(&mut self, op: Op, n: u32) -> Out {
            let Two(s, o) = self;
            now(async move { match op {
                Get => { let v = s.f().await.unwrap(); fault(); Old(Some(v.id())) }
                Mut => { let mut g = s.f_mut().await.unwrap(); fault(); let w = W::new(n, 0); *g = w; fault(); Unit }
                Set => { keep(s.set_f(W::new(n, 0)).await) }
                Clear => { keep(s.clear_f().await) }
                Has => { B(s.has_f()) }
                Reader => { let g = s.read_f().await.unwrap(); fault(); let v = g.id(); fault(); V(v) }
                Writer => { let mut g = s.write_f().await; fault(); let x = g.store(W::new(n, 0)); fault(); let y = g.clear(); fault(); let z = g.store(W::new(n, 1)); fault(); drop(g); keep3([x, y, z]) }
                Debug => { let mut t = String::new(); let r = std::fmt::Write::write_fmt(&mut t, format_args!("{:?}", s)); B(r.is_ok()) }
                New => { let c: S = S::new(); *o = c; Unit }
                Build => { let c: S = S::builder().f(W::new(n, 0)).build().unwrap(); *o = c; Unit }
                Bare => { match S::builder().build() { Ok(c) => { let c: S = c; *o = c; B(true) } Err(_) => B(false) } }
                Swap => { std::mem::swap(s, o); Unit }
                _ => unreachable!(),
            } })
        }
    }
    pub fn case() -> Case {
        Case { name: "148", text: r#"#[fxstruct(r#async, builder(post_build))] struct S { #[fieldx(lazy, fallible(error(Sorry)), get, get_mut, set, clearer, predicate, reader, writer)] f: W }"#, kind: Kind::Lazy, given: false, required: false, empty_ok: true, ops: vec![Get, Mut, Set, Clear, Has, Reader, Writer, Debug, New, Build, Bare, Swap], make: || Box::new(Two(S::new(), S::new())) }
    }
}
pub mod m149 {
    use super::*;
    #[fxstruct(r#async, rc, builder(post_build))]
    #[derive(Debug)]
    pub struct S { #[fieldx(lazy, fallible(error(Sorry)), get(clone), set(into), clearer, predicate, reader, writer)] f: W }
    impl S {
    async fn build_f(&self) -> Result<W, Sorry> { Ok(built()) }
    fn post_build(self) -> Self { fault(); self }
    }
    pub struct Two(Arc<S>, Arc<S>);
    impl Subject for Two {
        #[allow(unused_mut, unused_variables)]
        fn step(&mut self, op: Op, n: u32) -> Out {
            let Two(s, o) = self;
            now(async move { match op {
                Get => { let v = s.f().await.unwrap(); keep(Some(v)) }
                Set => { keep(s.set_f(Raw(n)).await) }
                Clear => { keep(s.clear_f().await) }
                Has => { B(s.has_f()) }
                Reader => { let g = s.read_f().await.unwrap(); fault(); let v = g.id(); fault(); V(v) }
                Writer => { let mut g = s.write_f().await; fault(); let x = g.store(W::new(n, 0)); fault(); let y = g.clear(); fault(); let z = g.store(W::new(n, 1)); fault(); drop(g); keep3([x, y, z]) }
                Debug => { let mut t = String::new(); let r = std::fmt::Write::write_fmt(&mut t, format_args!("{:?}", s)); B(r.is_ok()) }
                New => { let c: Arc<S> = S::new(); *o = c; Unit }
                Build => { let c: Arc<S> = S::builder().f(W::new(n, 0)).build().unwrap(); *o = c; Unit }
                Bare => { match S::builder().build() { Ok(c) => { let c: Arc<S> = c; *o = c; B(true) } Err(_) => B(false) } }
                Swap => { std::mem::swap(s, o); Unit }
                _ => unreachable!(),
            } })
        }
    }
    pub fn case() -> Case {
        Case { name: "149", text: r#"#[fxstruct(r#async, rc, builder(post_build))] struct S { #[fieldx(lazy, fallible(error(Sorry)), get(clone), set(into), clearer, predicate, reader, writer)] f: W }"#, kind: Kind::Lazy, given: false, required: false, empty_ok: true, ops: vec![Get, Set, Clear, Has, Reader, Writer, Debug, New, Build, Bare, Swap], make: || Box::new(Two(S::new(), S::new())) }
    }
}
pub mod m150 {
    use super::*;
    #[fxstruct(r#async, builder(into))]
    #[derive(Debug)]
    pub struct S { #[fieldx(lazy, get(clone), set(into), clearer, predicate, reader, writer)] f: W, #[fieldx(get, builder(off), default(W::new(7, 0)))] g: W }
    impl S {
    async fn build_f(&self) -> W { built() }
    }
    pub struct Two(S, S);
    impl Subject for Two {
        #[allow(unused_mut, unused_variables)]
        fn step(&mut self, op: Op, n: u32) -> Out {
            let Two(s, o) = self;
            now(async move { match op {
                Get => { let v = s.f().await; keep(Some(v)) }
                Set => { keep(s.set_f(Raw(n)).await) }
                Clear => { keep(s.clear_f().await) }
                Has => { B(s.has_f()) }
                Reader => { let g = s.read_f().await; fault(); let v = g.id(); fault(); V(v) }
                Writer => { let mut g = s.write_f().await; fault(); let x = g.store(W::new(n, 0)); fault(); let y = g.clear(); fault(); let z = g.store(W::new(n, 1)); fault(); drop(g); keep3([x, y, z]) }
                Debug => { let mut t = String::new(); let r = std::fmt::Write::write_fmt(&mut t, format_args!("{:?}", s)); B(r.is_ok()) }
                New => { let c: S = S::new(); *o = c; Unit }
                Build => { let c: S = S::builder().f(Raw(n)).build().unwrap(); *o = c; Unit }
                Bare => { match S::builder().build() { Ok(c) => { let c: S = c; *o = c; B(true) } Err(_) => B(false) } }
                Swap => { std::mem::swap(s, o); Unit }
                Other => { V(s.g().id()) }
                _ => unreachable!(),
            } })
        }
    }
    pub fn case() -> Case {
        Case { name: "150", text: r#"#[fxstruct(r#async, builder(into))] struct S { #[fieldx(lazy, get(clone), set(into), clearer, predicate, reader, writer)] f: W }"#, kind: Kind::Lazy, given: false, required: false, empty_ok: true, ops: vec![Get, Set, Clear, Has, Reader, Writer, Debug, New, Build, Bare, Swap, Other], make: || Box::new(Two(S::new(), S::new())) }
    }
}
pub mod m151 {
    use super::*;
    #[fxstruct(r#async, builder(into))]
    #[derive(Clone, Debug, PartialEq)]
    pub struct S { #[fieldx(lock, optional, get(clone), set(into), clearer, predicate, reader, writer)] f: W, #[fieldx(get, builder(off), default(W::new(7, 0)))] g: W }
    impl S {
    }
    pub struct Two(S, S);
    impl Subject for Two {
        #[allow(unused_mut, unused_variables)]
        fn step(&mut self, op: Op, n: u32) -> Out {
            let Two(s, o) = self;
            now(async move { match op {
                Get => { let v = s.f().await; keep(v) }
                Set => { keep(s.set_f(Raw(n)).await) }
                Clear => { keep(s.clear_f().await) }
                Has => { B(s.has_f().await) }
                Reader => { let g = s.read_f().await; fault(); let v = (*g).as_ref().map_or(0, |w| w.id()); fault(); V(v) }
                Writer => { let mut g = s.write_f().await; fault(); let x = (*g).replace(W::new(n, 0)); fault(); let y = (*g).take(); fault(); let z = (*g).replace(W::new(n, 1)); fault(); drop(g); keep3([x, y, z]) }
                Clone => { let c = s.clone(); *o = c; Unit }
                Eq => { B(*s == *o) }
                Debug => { let mut t = String::new(); let r = std::fmt::Write::write_fmt(&mut t, format_args!("{:?}", s)); B(r.is_ok()) }
                New => { let c: S = S::new(); *o = c; Unit }
                Build => { let c: S = S::builder().f(Raw(n)).build().unwrap(); *o = c; Unit }
                Bare => { match S::builder().build() { Ok(c) => { let c: S = c; *o = c; B(true) } Err(_) => B(false) } }
                Swap => { std::mem::swap(s, o); Unit }
                Other => { V(s.g().id()) }
                _ => unreachable!(),
            } })
        }
    }
    pub fn case() -> Case {
        Case { name: "151", text: r#"#[fxstruct(r#async, builder(into))] struct S { #[fieldx(lock, optional, get(clone), set(into), clearer, predicate, reader, writer)] f: W }"#, kind: Kind::Opt, given: false, required: false, empty_ok: true, ops: vec![Get, Set, Clear, Has, Reader, Writer, Clone, Eq, Debug, New, Build, Bare, Swap, Other], make: || Box::new(Two(S::new(), S::new())) }
    }
}
pub mod m152 {
    use super::*;
    #[fxstruct(r#async, builder(into))]
    #[derive(Clone, Debug, PartialEq)]
    pub struct S { #[fieldx(lock, get(clone), set(into), reader, writer)] f: W, #[fieldx(get, builder(off), default(W::new(7, 0)))] g: W }
    impl S {
    }
    pub struct Two(S, S);
    impl Subject for Two {
        #[allow(unused_mut, unused_variables)]
        fn step(&mut self, op: Op, n: u32) -> Out {
            let Two(s, o) = self;
            now(async move { match op {
                Get => { let v = s.f().await; keep(Some(v)) }
                Set => { keep(Some(s.set_f(Raw(n)).await)) }
                Reader => { let g = s.read_f().await; fault(); let v = g.id(); fault(); V(v) }
                Writer => { let mut g = s.write_f().await; fault(); *g = W::new(n, 0); fault(); *g = W::new(n, 1); fault(); drop(g); Unit }
                Clone => { let c = s.clone(); *o = c; Unit }
                Eq => { B(*s == *o) }
                Debug => { let mut t = String::new(); let r = std::fmt::Write::write_fmt(&mut t, format_args!("{:?}", s)); B(r.is_ok()) }
                New => { let c: S = S::new(); *o = c; Unit }
                Build => { let c: S = S::builder().f(Raw(n)).build().unwrap(); *o = c; Unit }
                Bare => { match S::builder().build() { Ok(c) => { let c: S = c; *o = c; B(true) } Err(_) => B(false) } }
                Swap => { std::mem::swap(s, o); Unit }
                Other => { V(s.g().id()) }
                _ => unreachable!(),
            } })
        }
    }
    pub fn case() -> Case {
        Case { name: "152", text: r#"#[fxstruct(r#async, builder(into))] struct S { #[fieldx(lock, get(clone), set(into), reader, writer)] f: W }"#, kind: Kind::Val, given: false, required: true, empty_ok: false, ops: vec![Get, Set, Reader, Writer, Clone, Eq, Debug, New, Build, Bare, Swap, Other], make: || Box::new(Two(S::new(), S::new())) }
    }
}
pub mod m153 {
    use super::*;
    #[fxstruct(r#async, serde, builder(into))]
    #[derive(Clone, Debug, PartialEq)]
    pub struct S { #[fieldx(lock, optional, get(clone), set(into), clearer, predicate)] f: W }
    impl S {
    }
    pub struct Two(S, S);
    impl Subject for Two {
        #[allow(unused_mut, unused_variables)]
        fn step(&mut self, op: Op, n: u32) -> Out {
            let Two(s, o) = self;
            now(async move { match op {
                Get => { let v = s.f().await; keep(v) }
                Set => { keep(s.set_f(Raw(n)).await) }
                Clear => { keep(s.clear_f().await) }
                Has => { B(s.has_f().await) }
                Clone => { let c = s.clone(); *o = c; Unit }
                Eq => { B(*s == *o) }
                Debug => { let mut t = String::new(); let r = std::fmt::Write::write_fmt(&mut t, format_args!("{:?}", s)); B(r.is_ok()) }
                New => { let c: S = S::new(); *o = c; Unit }
                Build => { let c: S = S::builder().f(Raw(n)).build().unwrap(); *o = c; Unit }
                Bare => { match S::builder().build() { Ok(c) => { let c: S = c; *o = c; B(true) } Err(_) => B(false) } }
                Swap => { std::mem::swap(s, o); Unit }
                Ser => { drops(false); let t = serde_json::to_string(&*s).unwrap(); drops(true); shown(&t) }
                De => { drops(false); let c: S = serde_json::from_str(&format!("{{\"f\":{n}}}")).unwrap(); drops(true); *o = c; Unit }
                _ => unreachable!(),
            } })
        }
    }
    pub fn case() -> Case {
        Case { name: "153", text: r#"#[fxstruct(r#async, serde, builder(into))] struct S { #[fieldx(lock, optional, get(clone), set(into), clearer, predicate)] f: W }"#, kind: Kind::Opt, given: false, required: false, empty_ok: true, ops: vec![Get, Set, Clear, Has, Clone, Eq, Debug, New, Build, Bare, Swap, Ser, De], make: || Box::new(Two(S::new(), S::new())) }
    }
}
pub mod m154 {
    use super::*;
    #[fxstruct(r#async, serde, builder(into))]
    #[derive(Clone, Debug, PartialEq)]
    pub struct S { #[fieldx(lock, get(clone), set(into))] f: W }
    impl S {
    }
    pub struct Two(S, S);
    impl Subject for Two {
        #[allow(unused_mut, unused_variables)]
        fn step(&mut self, op: Op, n: u32) -> Out {
            let Two(s, o) = self;
            now(async move { match op {
                Get => { let v = s.f().await; keep(Some(v)) }
                Set => { keep(Some(s.set_f(Raw(n)).await)) }
                Clone => { let c = s.clone(); *o = c; Unit }
                Eq => { B(*s == *o) }
                Debug => { let mut t = String::new(); let r = std::fmt::Write::write_fmt(&mut t, format_args!("{:?}", s)); B(r.is_ok()) }
                New => { let c: S = S::new(); *o = c; Unit }
                Build => { let c: S = S::builder().f(Raw(n)).build().unwrap(); *o = c; Unit }
                Bare => { match S::builder().build() { Ok(c) => { let c: S = c; *o = c; B(true) } Err(_) => B(false) } }
                Swap => { std::mem::swap(s, o); Unit }
                Ser => { drops(false); let t = serde_json::to_string(&*s).unwrap(); drops(true); shown(&t) }
                De => { drops(false); let c: S = serde_json::from_str(&format!("{{\"f\":{n}}}")).unwrap(); drops(true); *o = c; Unit }
                _ => unreachable!(),
            } })
        }
    }
    pub fn case() -> Case {
        Case { name: "154", text: r#"#[fxstruct(r#async, serde, builder(into))] struct S { #[fieldx(lock, get(clone), set(into))] f: W }"#, kind: Kind::Val, given: false, required: true, empty_ok: false, ops: vec![Get, Set, Clone, Eq, Debug, New, Build, Bare, Swap, Ser, De], make: || Box::new(Two(S::new(), S::new())) }
    }
}
pub mod m155 {
    use super::*;
    #[fxstruct(r#async, builder(post_build))]
    #[derive(Debug)]
    pub struct S { #[fieldx(lazy, fallible(error(Sorry)), get, get_mut, set, clearer, predicate, reader, writer, default(five()))] f: W }
    impl S {
    async fn build_f(&self) -> Result<W, Sorry> { Ok(built()) }
    fn post_build(self) -> Self { fault(); self }
    }
    pub struct Two(S, S);
    impl Subject for Two {
        #[allow(unused_mut, unused_variables)]
        fn step(&mut self, op: Op, n: u32) -> Out {
            let Two(s, o) = self;
            now(async move { match op {
                Get => { let v = s.f().await.unwrap(); fault(); Old(Some(v.id())) }
                Mut => { let mut g = s.f_mut().await.unwrap(); fault(); let w = W::new(n, 0); *g = w; fault(); Unit }
                Set => { keep(s.set_f(W::new(n, 0)).await) }
                Clear => { keep(s.clear_f().await) }
                Has => { B(s.has_f()) }
                Reader => { let g = s.read_f().await.unwrap(); fault(); let v = g.id(); fault(); V(v) }
                Writer => { let mut g = s.write_f().await; fault(); let x = g.store(W::new(n, 0)); fault(); let y = g.clear(); fault(); let z = g.store(W::new(n, 1)); fault(); drop(g); keep3([x, y, z]) }
                Debug => { let mut t = String::new(); let r = std::fmt::Write::write_fmt(&mut t, format_args!("{:?}", s)); B(r.is_ok()) }
                New => { let c: S = S::new(); *o = c; Unit }
                Build => { let c: S = S::builder().f(W::new(n, 0)).build().unwrap(); *o = c; Unit }
                Bare => { match S::builder().build() { Ok(c) => { let c: S = c; *o = c; B(true) } Err(_) => B(false) } }
                Swap => { std::mem::swap(s, o); Unit }
                _ => unreachable!(),
            } })
        }
    }
    pub fn case() -> Case {
        Case { name: "155", text: r#"#[fxstruct(r#async, builder(post_build))] struct S { #[fieldx(lazy, fallible(error(Sorry)), get, get_mut, set, clearer, predicate, reader, writer, default(five()))] f: W }"#, kind: Kind::Lazy, given: true, required: false, empty_ok: true, ops: vec![Get, Mut, Set, Clear, Has, Reader, Writer, Debug, New, Build, Bare, Swap], make: || Box::new(Two(S::new(), S::new())) }
    }
}
pub mod m156 {
    use super::*;
    #[fxstruct(r#async, rc, builder(post_build))]
    #[derive(Debug)]
    pub struct S { #[fieldx(lazy, fallible(error(Sorry)), get(clone), set(into), clearer, predicate, reader, writer, default(five()))] f: W }
    impl S {
    async fn build_f(&self) -> Result<W, Sorry> { Ok(built()) }
    fn post_build(self) -> Self { fault(); self }
    }
    pub struct Two(Arc<S>, Arc<S>);
    impl Subject for Two {
        #[allow(unused_mut, unused_variables)]
        fn step(&mut self, op: Op, n: u32) -> Out {
            let Two(s, o) = self;
            now(async move { match op {
                Get => { let v = s.f().await.unwrap(); keep(Some(v)) }
                Set => { keep(s.set_f(Raw(n)).await) }
                Clear => { keep(s.clear_f().await) }
                Has => { B(s.has_f()) }
                Reader => { let g = s.read_f().await.unwrap(); fault(); let v = g.id(); fault(); V(v) }
                Writer => { let mut g = s.write_f().await; fault(); let x = g.store(W::new(n, 0)); fault(); let y = g.clear(); fault(); let z = g.store(W::new(n, 1)); fault(); drop(g); keep3([x, y, z]) }
                Debug => { let mut t = String::new(); let r = std::fmt::Write::write_fmt(&mut t, format_args!("{:?}", s)); B(r.is_ok()) }
                New => { let c: Arc<S> = S::new(); *o = c; Unit }
                Build => { let c: Arc<S> = S::builder().f(W::new(n, 0)).build().unwrap(); *o = c; Unit }
                Bare => { match S::builder().build() { Ok(c) => { let c: Arc<S> = c; *o = c; B(true) } Err(_) => B(false) } }
                Swap => { std::mem::swap(s, o); Unit }
                _ => unreachable!(),
            } })
        }
    }
    pub fn case() -> Case {
        Case { name: "156", text: r#"#[fxstruct(r#async, rc, builder(post_build))] struct S { #[fieldx(lazy, fallible(error(Sorry)), get(clone), set(into), clearer, predicate, reader, writer, default(five()))] f: W }"#, kind: Kind::Lazy, given: true, required: false, empty_ok: true, ops: vec![Get, Set, Clear, Has, Reader, Writer, Debug, New, Build, Bare, Swap], make: || Box::new(Two(S::new(), S::new())) }
    }
}
pub mod m157 {
    use super::*;
    #[fxstruct(r#async, builder(into))]
    #[derive(Debug)]
    pub struct S { #[fieldx(lazy, get(clone), set(into), clearer, predicate, reader, writer, default(five()))] f: W, #[fieldx(get, builder(off), default(W::new(7, 0)))] g: W }
    impl S {
    async fn build_f(&self) -> W { built() }
    }
    pub struct Two(S, S);
    impl Subject for Two {
        #[allow(unused_mut, unused_variables)]
        fn step(&mut self, op: Op, n: u32) -> Out {
            let Two(s, o) = self;
            now(async move { match op {
                Get => { let v = s.f().await; keep(Some(v)) }
                Set => { keep(s.set_f(Raw(n)).await) }
                Clear => { keep(s.clear_f().await) }
                Has => { B(s.has_f()) }
                Reader => { let g = s.read_f().await; fault(); let v = g.id(); fault(); V(v) }
                Writer => { let mut g = s.write_f().await; fault(); let x = g.store(W::new(n, 0)); fault(); let y = g.clear(); fault(); let z = g.store(W::new(n, 1)); fault(); drop(g); keep3([x, y, z]) }
                Debug => { let mut t = String::new(); let r = std::fmt::Write::write_fmt(&mut t, format_args!("{:?}", s)); B(r.is_ok()) }
                New => { let c: S = S::new(); *o = c; Unit }
                Build => { let c: S = S::builder().f(Raw(n)).build().unwrap(); *o = c; Unit }
                Bare => { match S::builder().build() { Ok(c) => { let c: S = c; *o = c; B(true) } Err(_) => B(false) } }
                Swap => { std::mem::swap(s, o); Unit }
                Other => { V(s.g().id()) }
                _ => unreachable!(),
            } })
        }
    }
    pub fn case() -> Case {
        Case { name: "157", text: r#"#[fxstruct(r#async, builder(into))] struct S { #[fieldx(lazy, get(clone), set(into), clearer, predicate, reader, writer, default(five()))] f: W }"#, kind: Kind::Lazy, given: true, required: false, empty_ok: true, ops: vec![Get, Set, Clear, Has, Reader, Writer, Debug, New, Build, Bare, Swap, Other], make: || Box::new(Two(S::new(), S::new())) }
    }
}
pub mod m158 {
    use super::*;
    #[fxstruct(r#async, builder(into))]
    #[derive(Clone, Debug, PartialEq)]
    pub struct S { #[fieldx(lock, optional, get(clone), set(into), clearer, predicate, reader, writer, default(five()))] f: W, #[fieldx(get, builder(off), default(W::new(7, 0)))] g: W }
    impl S {
    }
    pub struct Two(S, S);
    impl Subject for Two {
        #[allow(unused_mut, unused_variables)]
        fn step(&mut self, op: Op, n: u32) -> Out {
            let Two(s, o) = self;
            now(async move { match op {
                Get => { let v = s.f().await; keep(v) }
                Set => { keep(s.set_f(Raw(n)).await) }
                Clear => { keep(s.clear_f().await) }
                Has => { B(s.has_f().await) }
                Reader => { let g = s.read_f().await; fault(); let v = (*g).as_ref().map_or(0, |w| w.id()); fault(); V(v) }
                Writer => { let mut g = s.write_f().await; fault(); let x = (*g).replace(W::new(n, 0)); fault(); let y = (*g).take(); fault(); let z = (*g).replace(W::new(n, 1)); fault(); drop(g); keep3([x, y, z]) }
                Clone => { let c = s.clone(); *o = c; Unit }
                Eq => { B(*s == *o) }
                Debug => { let mut t = String::new(); let r = std::fmt::Write::write_fmt(&mut t, format_args!("{:?}", s)); B(r.is_ok()) }
                New => { let c: S = S::new(); *o = c; Unit }
                Build => { let c: S = S::builder().f(Raw(n)).build().unwrap(); *o = c; Unit }
                Bare => { match S::builder().build() { Ok(c) => { let c: S = c; *o = c; B(true) } Err(_) => B(false) } }
                Swap => { std::mem::swap(s, o); Unit }
                Other => { V(s.g().id()) }
                _ => unreachable!(),
            } })
        }
    }
    pub fn case() -> Case {
        Case { name: "158", text: r#"#[fxstruct(r#async, builder(into))] struct S { #[fieldx(lock, optional, get(clone), set(into), clearer, predicate, reader, writer, default(five()))] f: W }"#, kind: Kind::Opt, given: true, required: false, empty_ok: true, ops: vec![Get, Set, Clear, Has, Reader, Writer, Clone, Eq, Debug, New, Build, Bare, Swap, Other], make: || Box::new(Two(S::new(), S::new())) }
    }
}
pub mod m159 {
    use super::*;
    #[fxstruct(r#async, builder(into))]
    #[derive(Clone, Debug, PartialEq)]
    pub struct S { #[fieldx(lock, get(clone), set(into), reader, writer, default(five()))] f: W, #[fieldx(get, builder(off), default(W::new(7, 0)))] g: W }
    impl S {
    }
    pub struct Two(S, S);
    impl Subject for Two {
        #[allow(unused_mut, unused_variables)]
        fn step(&mut self, op: Op, n: u32) -> Out {
            let Two(s, o) = self;
            now(async move { match op {
                Get => { let v = s.f().await; keep(Some(v)) }
                Set => { keep(Some(s.set_f(Raw(n)).await)) }
                Reader => { let g = s.read_f().await; fault(); let v = g.id(); fault(); V(v) }
                Writer => { let mut g = s.write_f().await; fault(); *g = W::new(n, 0); fault(); *g = W::new(n, 1); fault(); drop(g); Unit }
                Clone => { let c = s.clone(); *o = c; Unit }
                Eq => { B(*s == *o) }
                Debug => { let mut t = String::new(); let r = std::fmt::Write::write_fmt(&mut t, format_args!("{:?}", s)); B(r.is_ok()) }
                New => { let c: S = S::new(); *o = c; Unit }
                Build => { let c: S = S::builder().f(Raw(n)).build().unwrap(); *o = c; Unit }
                Bare => { match S::builder().build() { Ok(c) => { let c: S = c; *o = c; B(true) } Err(_) => B(false) } }
                Swap => { std::mem::swap(s, o); Unit }
                Other => { V(s.g().id()) }
                _ => unreachable!(),
            } })
        }
    }
    pub fn case() -> Case {
        Case { name: "159", text: r#"#[fxstruct(r#async, builder(into))] struct S { #[fieldx(lock, get(clone), set(into), reader, writer, default(five()))] f: W }"#, kind: Kind::Val, given: true, required: false, empty_ok: false, ops: vec![Get, Set, Reader, Writer, Clone, Eq, Debug, New, Build, Bare, Swap, Other], make: || Box::new(Two(S::new(), S::new())) }
    }
}
pub mod m160 {
    use super::*;
    #[fxstruct(r#async, serde, builder(into))]
    #[derive(Clone, Debug, PartialEq)]
    pub struct S { #[fieldx(lock, optional, get(clone), set(into), clearer, predicate, default(five()))] f: W }
    impl S {
    }
    pub struct Two(S, S);
    impl Subject for Two {
        #[allow(unused_mut, unused_variables)]
        fn step(&mut self, op: Op, n: u32) -> Out {
            let Two(s, o) = self;
            now(async move { match op {
                Get => { let v = s.f().await; keep(v) }
                Set => { keep(s.set_f(Raw(n)).await) }
                Clear => { keep(s.clear_f().await) }
                Has => { B(s.has_f().await) }
                Clone => { let c = s.clone(); *o = c; Unit }
                Eq => { B(*s == *o) }
                Debug => { let mut t = String::new(); let r = std::fmt::Write::write_fmt(&mut t, format_args!("{:?}", s)); B(r.is_ok()) }
                New => { let c: S = S::new(); *o = c; Unit }
                Build => { let c: S = S::builder().f(Raw(n)).build().unwrap(); *o = c; Unit }
                Bare => { match S::builder().build() { Ok(c) => { let c: S = c; *o = c; B(true) } Err(_) => B(false) } }
                Swap => { std::mem::swap(s, o); Unit }
                Ser => { drops(false); let t = serde_json::to_string(&*s).unwrap(); drops(true); shown(&t) }
                De => { drops(false); let c: S = serde_json::from_str(&format!("{{\"f\":{n}}}")).unwrap(); drops(true); *o = c; Unit }
                _ => unreachable!(),
            } })
        }
    }
    pub fn case() -> Case {
        Case { name: "160", text: r#"#[fxstruct(r#async, serde, builder(into))] struct S { #[fieldx(lock, optional, get(clone), set(into), clearer, predicate, default(five()))] f: W }"#, kind: Kind::Opt, given: true, required: false, empty_ok: true, ops: vec![Get, Set, Clear, Has, Clone, Eq, Debug, New, Build, Bare, Swap, Ser, De], make: || Box::new(Two(S::new(), S::new())) }
    }
}
pub mod m161 {
    use super::*;
    #[fxstruct(r#async, serde, builder(into))]
    #[derive(Clone, Debug, PartialEq)]
    pub struct S { #[fieldx(lock, get(clone), set(into), default(five()))] f: W }
    impl S {
    }
    pub struct Two(S, S);
    impl Subject for Two {
        #[allow(unused_mut, unused_variables)]
        fn step(&mut self, op: Op, n: u32) -> Out {
            let Two(s, o) = self;
            now(async move { match op {
                Get => { let v = s.f().await; keep(Some(v)) }
                Set => { keep(Some(s.set_f(Raw(n)).await)) }
                Clone => { let c = s.clone(); *o = c; Unit }
                Eq => { B(*s == *o) }
                Debug => { let mut t = String::new(); let r = std::fmt::Write::write_fmt(&mut t, format_args!("{:?}", s)); B(r.is_ok()) }
                New => { let c: S = S::new(); *o = c; Unit }
                Build => { let c: S = S::builder().f(Raw(n)).build().unwrap(); *o = c; Unit }
                Bare => { match S::builder().build() { Ok(c) => { let c: S = c; *o = c; B(true) } Err(_) => B(false) } }
                Swap => { std::mem::swap(s, o); Unit }
                Ser => { drops(false); let t = serde_json::to_string(&*s).unwrap(); drops(true); shown(&t) }
                De => { drops(false); let c: S = serde_json::from_str(&format!("{{\"f\":{n}}}")).unwrap(); drops(true); *o = c; Unit }
                _ => unreachable!(),
            } })
        }
    }
    pub fn case() -> Case {
        Case { name: "161", text: r#"#[fxstruct(r#async, serde, builder(into))] struct S { #[fieldx(lock, get(clone), set(into), default(five()))] f: W }"#, kind: Kind::Val, given: true, required: false, empty_ok: false, ops: vec![Get, Set, Clone, Eq, Debug, New, Build, Bare, Swap, Ser, De], make: || Box::new(Two(S::new(), S::new())) }
    }
}
pub fn all() -> Vec<Case> {
    vec![m0::case(), m1::case(), m2::case(), m3::case(), m4::case(), m5::case(), m6::case(), m7::case(), m8::case(), m9::case(), m10::case(), m11::case(), m12::case(), m13::case(), m14::case(), m15::case(), m16::case(), m17::case(), m18::case(), m19::case(), m20::case(), m21::case(), m22::case(), m23::case(), m24::case(), m25::case(), m26::case(), m27::case(), m28::case(), m29::case(), m30::case(), m31::case(), m32::case(), m33::case(), m34::case(), m35::case(), m36::case(), m37::case(), m38::case(), m39::case(), m40::case(), m41::case(), m42::case(), m43::case(), m44::case(), m45::case(), m46::case(), m47::case(), m48::case(), m49::case(), m50::case(), m51::case(), m52::case(), m53::case(), m54::case(), m55::case(), m56::case(), m57::case(), m58::case(), m59::case(), m60::case(), m61::case(), m62::case(), m63::case(), m64::case(), m65::case(), m66::case(), m67::case(), m68::case(), m69::case(), m70::case(), m71::case(), m72::case(), m73::case(), m74::case(), m75::case(), m76::case(), m77::case(), m78::case(), m79::case(), m80::case(), m81::case(), m82::case(), m83::case(), m84::case(), m85::case(), m86::case(), m87::case(), m88::case(), m89::case(), m90::case(), m91::case(), m92::case(), m93::case(), m94::case(), m95::case(), m96::case(), m97::case(), m98::case(), m99::case(), m100::case(), m101::case(), m102::case(), m103::case(), m104::case(), m105::case(), m106::case(), m107::case(), m108::case(), m109::case(), m110::case(), m111::case(), m112::case(), m113::case(), m114::case(), m115::case(), m116::case(), m117::case(), m118::case(), m119::case(), m120::case(), m121::case(), m122::case(), m123::case(), m124::case(), m125::case(), m126::case(), m127::case(), m128::case(), m129::case(), m130::case(), m131::case(), m132::case(), m133::case(), m134::case(), m135::case(), m136::case(), m137::case(), m138::case(), m139::case(), m140::case(), m141::case(), m142::case(), m143::case(), m144::case(), m145::case(), m146::case(), m147::case(), m148::case(), m149::case(), m150::case(), m151::case(), m152::case(), m153::case(), m154::case(), m155::case(), m156::case(), m157::case(), m158::case(), m159::case(), m160::case(), m161::case()]
}
