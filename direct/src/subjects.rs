use crate::*;
use fieldx::fxstruct;
use std::borrow::Borrow as _;

fn now<F: std::future::Future>(f: F) -> F::Output {
    let mut f = Box::pin(f);
    match f.as_mut().poll(&mut std::task::Context::from_waker(std::task::Waker::noop())) {
        std::task::Poll::Ready(v) => v,
        _ => panic!("pending"),
    }
}

/// What Debug shows
fn shown(t: &str) -> Out {
    let digits: Vec<u32> = t.split(|c: char| !c.is_ascii_digit()).filter_map(|d| d.parse().ok()).filter(|&d| d != 32 && d != 64).collect();
    if t.contains("None") { Old(None) } else { Old(digits.last().copied()) }
}

fn res(r: Result<u32, Fail>) -> Out {
    match r { Ok(v) => V(v), Err(e) => E(e.0) }
}

macro_rules! lazies {
    ($($m:ident, $name:literal, $kind:ident, ($($args:tt)*), ($($fargs:tt)*), ($($asy:tt)*), $ty:ty, $build:expr, $aw:ident, ($($more:ident)*), ($($derive:tt)*));* $(;)?) => {
        $(pub mod $m {
            use super::*;
            #[fxstruct($($args)*)]
            $($derive)*
            pub struct S { #[fieldx(lazy, get, get_mut, set, clearer, predicate, reader, writer, $($fargs)*)] f: u32 }
            impl S { $($asy)* fn build_f(&self) -> $ty { $build } }
            pub struct Two(pub S, pub S);
            $aw!{$kind}
            pub fn case() -> Case {
                #[allow(unused_mut)] let mut ops = vec![Get, GetMut, Set, Clear, Has, Reader, Writer, Read, TryRead, ReadMut, TryReadMut, Store, WClear, Multi, DClear, IsSet, Init, Debug, Swap];
                $(ops.push(Op::$more);)*
                Case { name: $name, kind: Kind::$kind, ops, make: || Box::new(Two(S::new(), S::new())) }
            }
        })*
    };
}

macro_rules! result {
    (Lazy, $e:expr) => { Ok::<_, Fail>($e) };
    (Fallible, $e:expr) => { $e };
}

macro_rules! sync_impl {
    ($kind:ident) => {
        impl Subject for Two {
            fn step(&mut self, op: Op) -> Out {
                let s = &mut self.0;
                match op {
                    Get => res(result!($kind, s.f()).map(|v| *v)),
                    Reader => res(result!($kind, s.read_f()).map(|v| *v)),
                    GetMut => res(result!($kind, s.f_mut()).map(|mut v| { let o = *v; *v += 1000; o })),
                    Set => Old(s.set_f(fresh())),
                    Clear => Old(s.clear_f()),
                    Has => B(s.has_f()),
                    Writer => Old(s.write_f().store(fresh())),
                    Read => V(*s.f.read(s)),
                    TryRead => match s.f.try_read(s) { Ok(v) => V(*v), Err(e) => fail!($kind, e) },
                    ReadMut => { let mut g = s.f.read_mut(s); let o = *g; *g += 1000; V(o) }
                    TryReadMut => match s.f.try_read_mut(s) { Ok(mut g) => { let o = *g; *g += 1000; V(o) } Err(e) => fail!($kind, e) },
                    Store => Old(s.f.write().store(fresh())),
                    WClear => Old(s.f.write().clear()),
                    Multi => {
                        let mut w = s.f.write();
                        let (a, b) = (fresh(), fresh());
                        let x = w.store(a);
                        let y = w.clear();
                        let z = w.store(b);
                        Olds([x, y, z])
                    }
                    DClear => Old(s.f.clear()),
                    IsSet => B(s.f.is_set()),
                    Init => { s.f.lazy_init(s); Unit }
                    Debug => shown(&format!("{:?}", s.f).replace(&format!("{}", std::any::type_name::<S>()), "")),
                    Swap => { std::mem::swap(&mut self.0, &mut self.1); Unit }
                    Clone => { self.1.f = s.f.clone(); Unit }
                    Eq => B(s.f == self.1.f),
                    EqSelf => B(s.f == s.f),
                    _ => unreachable!(),
                }
            }
            fn end(self: Box<Self>) -> [Option<u32>; 2] {
                let (a, b) = (self.0, self.1);
                [a.f.into_inner(), b.f.into_inner()]
            }
        }
    };
}

macro_rules! async_impl {
    ($kind:ident) => {
        impl Subject for Two {
            fn step(&mut self, op: Op) -> Out {
                let Two(s, other) = self;
                now(async move { match op {
                    Get => res(result!($kind, s.f().await).map(|v| *v)),
                    Reader => res(result!($kind, s.read_f().await).map(|v| *v)),
                    GetMut => res(result!($kind, s.f_mut().await).map(|mut v| { let o = *v; *v += 1000; o })),
                    Set => Old(s.set_f(fresh()).await),
                    Clear => Old(s.clear_f().await),
                    Has => B(s.has_f()),
                    Writer => Old(s.write_f().await.store(fresh())),
                    Read => V(*s.f.read(s).await),
                    TryRead => match s.f.try_read(s).await { Ok(v) => V(*v), Err(e) => fail!($kind, e) },
                    ReadMut => { let mut g = s.f.read_mut(s).await; let o = *g; *g += 1000; V(o) }
                    TryReadMut => match s.f.try_read_mut(s).await { Ok(mut g) => { let o = *g; *g += 1000; V(o) } Err(e) => fail!($kind, e) },
                    Store => Old(s.f.write().await.store(fresh())),
                    WClear => Old(s.f.write().await.clear()),
                    Multi => {
                        let mut w = s.f.write().await;
                        let (a, b) = (fresh(), fresh());
                        let x = w.store(a);
                        let y = w.clear();
                        let z = w.store(b);
                        Olds([x, y, z])
                    }
                    DClear => Old(s.f.clear().await),
                    IsSet => B(s.f.is_set()),
                    Init => { s.f.lazy_init(s).await; Unit }
                    Debug => shown(&format!("{:?}", s.f).replace(&format!("{}", std::any::type_name::<S>()), "")),
                    Swap => { std::mem::swap(s, other); Unit }
                    _ => unreachable!(),
                } })
            }
            fn end(self: Box<Self>) -> [Option<u32>; 2] {
                let (a, b) = (self.0, self.1);
                [a.f.into_inner(), b.f.into_inner()]
            }
        }
    };
}

macro_rules! fail {
    (Lazy, $e:expr) => { { let _: () = $e; Panic } };
    (Fallible, $e:expr) => { E($e.0) };
}

lazies! {
    sync_lazy, "sync_lazy", Lazy, (sync), (), (), u32, build(), sync_impl, (Clone Eq EqSelf), (#[derive(Clone)]);
    sync_fallible, "sync_fallible", Fallible, (sync), (fallible(error(Fail))), (), Result<u32, Fail>, try_build(), sync_impl, (Clone Eq EqSelf), (#[derive(Clone)]);
    async_lazy, "async_lazy", Lazy, (r#async), (), (async), u32, build(), async_impl, (), ();
    async_fallible, "async_fallible", Fallible, (r#async), (fallible(error(Fail))), (async), Result<u32, Fail>, try_build(), async_impl, (), ();
}

pub mod sync_lock {
    use super::*;
    #[fxstruct(sync)]
    pub struct S { #[fieldx(lock, get, get_mut, set, default(7))] f: u32 }
    pub struct Two(S, S);
    impl Subject for Two {
        fn step(&mut self, op: Op) -> Out {
            let s = &mut self.0;
            let with = |l: &parking_lot::RwLock<u32>| V(*l.read());
            match op {
                Get => V(*s.f()),
                GetMut => { let mut g = s.f_mut(); let o = *g; *g += 1000; V(o) }
                Set => Old(Some(s.set_f(fresh()))),
                Read => V(*s.f.read()),
                ReadMut => { let mut g = s.f.write(); let o = *g; *g += 1000; V(o) }
                Store => Old(Some(std::mem::replace(&mut *s.f.write(), fresh()))),
                StoreDrop => { let mut g = s.f.write(); let x = std::mem::replace(&mut *g, fresh()); let y = std::mem::replace(&mut *g, fresh()); Olds([Some(x), Some(y), None]) }
                AsRef => with(s.f.as_ref()),
                Borrow => with(s.f.borrow()),
                Give => { let o = std::mem::replace(&mut s.f, fieldx::sync::FXRwLockSync::from(fresh())); Old(Some(o.into_inner())) }
                Debug => shown(&format!("{:?}", s.f)),
                Clone => { self.1.f = s.f.clone(); Unit }
                Eq => B(s.f == self.1.f),
                EqSelf => B(s.f == s.f),
                Swap => { std::mem::swap(&mut self.0, &mut self.1); Unit }
                _ => unreachable!(),
            }
        }
        fn end(self: Box<Self>) -> [Option<u32>; 2] {
            let (a, b) = (self.0, self.1);
            [Some(a.f.into_inner()), Some(b.f.into_inner())]
        }
    }
    pub fn case() -> Case {
        Case { name: "sync_lock", kind: Kind::Locked, ops: vec![Get, GetMut, Set, Read, ReadMut, Store, StoreDrop, AsRef, Borrow, Give, Debug, Clone, Eq, EqSelf, Swap],
            make: || { let b = S::new(); b.set_f(8); Box::new(Two(S::new(), b)) } }
    }
}

pub mod async_lock {
    use super::*;
    #[fxstruct(r#async)]
    pub struct S { #[fieldx(lock, get, get_mut, set, default(7))] f: u32 }
    pub struct Two(S, S);
    impl Subject for Two {
        fn step(&mut self, op: Op) -> Out {
            let Two(s, other) = self;
            let with = |l: &tokio::sync::RwLock<u32>| V(*l.try_read().unwrap());
            now(async move { match op {
                Get => V(*s.f().await),
                GetMut => { let mut g = s.f_mut().await; let o = *g; *g += 1000; V(o) }
                Set => Old(Some(s.set_f(fresh()).await)),
                Read => V(*s.f.read().await),
                ReadMut => { let mut g = s.f.write().await; let o = *g; *g += 1000; V(o) }
                Store => Old(Some(std::mem::replace(&mut *s.f.write().await, fresh()))),
                StoreDrop => { let mut g = s.f.write().await; let x = std::mem::replace(&mut *g, fresh()); let y = std::mem::replace(&mut *g, fresh()); Olds([Some(x), Some(y), None]) }
                AsRef => with(s.f.as_ref()),
                Borrow => with(s.f.borrow()),
                Give => { let o = std::mem::replace(&mut s.f, fieldx::r#async::FXRwLockAsync::from(fresh())); Old(Some(o.into_inner())) }
                Debug => shown(&format!("{:?}", s.f)),
                Eq => B(s.f == other.f),
                EqSelf => B(s.f == s.f),
                Swap => { std::mem::swap(s, other); Unit }
                _ => unreachable!(),
            } })
        }
        fn end(self: Box<Self>) -> [Option<u32>; 2] {
            let (a, b) = (self.0, self.1);
            [Some(a.f.into_inner()), Some(b.f.into_inner())]
        }
    }
    pub fn case() -> Case {
        Case { name: "async_lock", kind: Kind::Locked, ops: vec![Get, GetMut, Set, Read, ReadMut, Store, StoreDrop, AsRef, Borrow, Give, Debug, Eq, EqSelf, Swap],
            make: || { let b = S::new(); now(b.set_f(8)); Box::new(Two(S::new(), b)) } }
    }
}

pub fn all() -> Vec<Case> {
    vec![sync_lazy::case(), sync_fallible::case(), async_lazy::case(), async_fallible::case(), sync_lock::case(), async_lock::case()]
}
