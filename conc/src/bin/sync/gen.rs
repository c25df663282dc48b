// Generated by gen.py
use conc::*;
use fieldx::fxstruct;
use std::sync::Arc;

#[allow(unused_macros)]
macro_rules! tri {
    ($e:expr) => {
        match $e {
            Ok(g) => g,
            Err(e) => return Ret::Err(e),
        }
    };
}

pub mod lazy_guard {
    use super::*;
    #[fxstruct(sync, builder, no_new)]
    #[derive(Clone, Debug, PartialEq)]
    pub struct S {
        #[fieldx(get, builder)]
        ctx: CtxRef,
        #[fieldx(lazy, get, get_mut, set, clearer, predicate, reader, writer)]
        x:   Val,
    }
    impl S {
        fn build_x(&self) -> Val {
            self.ctx.0.build(0).unwrap()
        }
    }
    pub struct W(pub Box<S>);
    #[allow(unused_variables, unused_mut)]
    fn run(s: &S, o: &S, op: Op, ctx: &Ctx) -> Ret {
            match op {
                Op::Get => { let g = s.x(); Ret::Val(g.id()) },
                Op::Hold => { let g = s.x(); hold(|| g.id()) },
                Op::Rd => { let g = s.read_x(); hold(|| g.id()) },
                Op::Mut(n) => { let mut g = s.x_mut(); let old = g.id(); g.split(n); Ret::Val(old) },
                Op::Meet => { let g = s.read_x(); ctx.meet(); Ret::Val(g.id()) },
                Op::Set(n) => Ret::Opt(s.set_x(<Val>::mk(ctx, n)).map(|v| v.id())),
                Op::Clear => Ret::Opt(s.clear_x().map(|v| v.id())),
                Op::Has => Ret::Bool(s.has_x()),
                Op::WSet(n) => { let mut g = s.write_x(); mcsched::yield_point(102); Ret::Opt(g.store(<Val>::mk(ctx, n)).map(|v| v.id())) },
                Op::WClear => { let mut g = s.write_x(); mcsched::yield_point(102); Ret::Opt(g.clear().map(|v| v.id())) },
                Op::WMany(n) => { let mut g = s.write_x(); let mut l = vec![]; for d in [0, 1000, 0, 2000] { let o = if l.len() == 2 { g.clear() } else { g.store(<Val>::mk(ctx, n + d)) }; l.push(o.map(|v| v.id())); mcsched::yield_point(102); } Ret::List(l) },
                Op::Clone => { let c = s.clone(); let h = c.has_x(); Ret::Copy(h, c.clear_x().map(|v| v.id())) },
                Op::EqSelf => { #[allow(clippy::eq_op)] Ret::Bool(s == s) },
                Op::Debug => { let _ = format!("{:?}", s); Ret::Unit },
                _ => Ret::Na,
            }
    }
    impl Subject for W {
        fn run(&self, field: usize, op: Op, ctx: &Ctx, cancel: Option<usize>) -> Option<Ret> {
            let _ = field; let s: &S = &self.0; let o = s;
            let _ = s.ctx();
            { let _ = cancel; Some(run(s, o, op, ctx)) }
        }
        fn region(&self, h: &mcsched::ExecHandle) {
            h.region_of::<S>(&self.0, 1);
        }
    }
    pub fn flavour() -> Flavour {
        #[allow(unused_mut)]
        let mut ops = LAZY_OPS.to_vec();
        ops.extend([Op::Clone, Op::EqSelf, Op::Debug]);
        Flavour {
            name: "sync/lazy_guard",
            kinds: vec![FieldKind::Lazy; 1],
            ops,
            copies: true,
            fallible: false,
            is_async: false,
            make: Arc::new(|ctx, init| {
                Arc::new(W({
                    let b = S::builder().ctx(CtxRef(ctx.clone(), 0));
                    #[allow(unused_mut)]
                    let mut b = match init[0] {
                        Some(v) => b.x(<Val>::mk(ctx, v)),
                        None => b,
                    };
                    Box::new(b.build().unwrap())
                }))
            }),
        }
    }
}

pub mod lazy_clone {
    use super::*;
    #[fxstruct(sync, builder, no_new)]
    
    pub struct S {
        #[fieldx(get, builder)]
        ctx: CtxRef,
        #[fieldx(lazy, get(clone), get_mut, set, clearer, predicate, reader, writer)]
        x:   Val,
    }
    impl S {
        fn build_x(&self) -> Val {
            self.ctx.0.build(0).unwrap()
        }
    }
    pub struct W(pub Box<S>);
    #[allow(unused_variables, unused_mut)]
    fn run(s: &S, o: &S, op: Op, ctx: &Ctx) -> Ret {
            match op {
                Op::Get => { let g = s.x(); Ret::Val(g.id()) },
                Op::Hold => { let g = s.x(); hold(|| g.id()) },
                Op::Rd => { let g = s.read_x(); hold(|| g.id()) },
                Op::Mut(n) => { let mut g = s.x_mut(); let old = g.id(); g.split(n); Ret::Val(old) },
                Op::Meet => { let g = s.read_x(); ctx.meet(); Ret::Val(g.id()) },
                Op::Set(n) => Ret::Opt(s.set_x(<Val>::mk(ctx, n)).map(|v| v.id())),
                Op::Clear => Ret::Opt(s.clear_x().map(|v| v.id())),
                Op::Has => Ret::Bool(s.has_x()),
                Op::WSet(n) => { let mut g = s.write_x(); mcsched::yield_point(102); Ret::Opt(g.store(<Val>::mk(ctx, n)).map(|v| v.id())) },
                Op::WClear => { let mut g = s.write_x(); mcsched::yield_point(102); Ret::Opt(g.clear().map(|v| v.id())) },
                Op::WMany(n) => { let mut g = s.write_x(); let mut l = vec![]; for d in [0, 1000, 0, 2000] { let o = if l.len() == 2 { g.clear() } else { g.store(<Val>::mk(ctx, n + d)) }; l.push(o.map(|v| v.id())); mcsched::yield_point(102); } Ret::List(l) },
                _ => Ret::Na,
            }
    }
    impl Subject for W {
        fn run(&self, field: usize, op: Op, ctx: &Ctx, cancel: Option<usize>) -> Option<Ret> {
            let _ = field; let s: &S = &self.0; let o = s;
            let _ = s.ctx();
            { let _ = cancel; Some(run(s, o, op, ctx)) }
        }
        fn region(&self, h: &mcsched::ExecHandle) {
            h.region_of::<S>(&self.0, 1);
        }
    }
    pub fn flavour() -> Flavour {
        #[allow(unused_mut)]
        let mut ops = LAZY_OPS.to_vec();
        
        Flavour {
            name: "sync/lazy_clone",
            kinds: vec![FieldKind::Lazy; 1],
            ops,
            copies: false,
            fallible: false,
            is_async: false,
            make: Arc::new(|ctx, init| {
                Arc::new(W({
                    let b = S::builder().ctx(CtxRef(ctx.clone(), 0));
                    #[allow(unused_mut)]
                    let mut b = match init[0] {
                        Some(v) => b.x(<Val>::mk(ctx, v)),
                        None => b,
                    };
                    Box::new(b.build().unwrap())
                }))
            }),
        }
    }
}

pub mod lazy_copy {
    use super::*;
    #[fxstruct(sync, builder, no_new)]
    #[derive(Clone, Debug, PartialEq)]
    pub struct S {
        #[fieldx(get, builder)]
        ctx: CtxRef,
        #[fieldx(lazy, get(copy), get_mut, set, clearer, predicate, reader, writer)]
        x:   u64,
    }
    impl S {
        fn build_x(&self) -> u64 {
            self.ctx.0.build(0).unwrap()
        }
    }
    pub struct W(pub Box<S>);
    #[allow(unused_variables, unused_mut)]
    fn run(s: &S, o: &S, op: Op, ctx: &Ctx) -> Ret {
            match op {
                Op::Get => { let g = s.x(); Ret::Val(g.id()) },
                Op::Hold => { let g = s.x(); hold(|| g.id()) },
                Op::Rd => { let g = s.read_x(); hold(|| g.id()) },
                Op::Mut(n) => { let mut g = s.x_mut(); let old = g.id(); g.split(n); Ret::Val(old) },
                Op::Meet => { let g = s.read_x(); ctx.meet(); Ret::Val(g.id()) },
                Op::Set(n) => Ret::Opt(s.set_x(<u64>::mk(ctx, n)).map(|v| v.id())),
                Op::Clear => Ret::Opt(s.clear_x().map(|v| v.id())),
                Op::Has => Ret::Bool(s.has_x()),
                Op::WSet(n) => { let mut g = s.write_x(); mcsched::yield_point(102); Ret::Opt(g.store(<u64>::mk(ctx, n)).map(|v| v.id())) },
                Op::WClear => { let mut g = s.write_x(); mcsched::yield_point(102); Ret::Opt(g.clear().map(|v| v.id())) },
                Op::WMany(n) => { let mut g = s.write_x(); let mut l = vec![]; for d in [0, 1000, 0, 2000] { let o = if l.len() == 2 { g.clear() } else { g.store(<u64>::mk(ctx, n + d)) }; l.push(o.map(|v| v.id())); mcsched::yield_point(102); } Ret::List(l) },
                Op::Clone => { let c = s.clone(); let h = c.has_x(); Ret::Copy(h, c.clear_x().map(|v| v.id())) },
                Op::EqSelf => { #[allow(clippy::eq_op)] Ret::Bool(s == s) },
                Op::Debug => { let _ = format!("{:?}", s); Ret::Unit },
                _ => Ret::Na,
            }
    }
    impl Subject for W {
        fn run(&self, field: usize, op: Op, ctx: &Ctx, cancel: Option<usize>) -> Option<Ret> {
            let _ = field; let s: &S = &self.0; let o = s;
            let _ = s.ctx();
            { let _ = cancel; Some(run(s, o, op, ctx)) }
        }
        fn region(&self, h: &mcsched::ExecHandle) {
            h.region_of::<S>(&self.0, 1);
        }
    }
    pub fn flavour() -> Flavour {
        #[allow(unused_mut)]
        let mut ops = LAZY_OPS.to_vec();
        ops.extend([Op::Clone, Op::EqSelf, Op::Debug]);
        Flavour {
            name: "sync/lazy_copy",
            kinds: vec![FieldKind::Lazy; 1],
            ops,
            copies: true,
            fallible: false,
            is_async: false,
            make: Arc::new(|ctx, init| {
                Arc::new(W({
                    let b = S::builder().ctx(CtxRef(ctx.clone(), 0));
                    #[allow(unused_mut)]
                    let mut b = match init[0] {
                        Some(v) => b.x(<u64>::mk(ctx, v)),
                        None => b,
                    };
                    Box::new(b.build().unwrap())
                }))
            }),
        }
    }
}

pub mod lazy_fallible {
    use super::*;
    #[fxstruct(sync, builder, no_new)]
    #[derive(Clone, Debug, PartialEq)]
    pub struct S {
        #[fieldx(get, builder)]
        ctx: CtxRef,
        #[fieldx(lazy, fallible(error(String)), get, get_mut, set, clearer, predicate, reader, writer)]
        x:   Val,
    }
    impl S {
        fn build_x(&self) -> Result<Val, String> {
            self.ctx.0.build(0)
        }
    }
    pub struct W(pub Box<S>);
    #[allow(unused_variables, unused_mut)]
    fn run(s: &S, o: &S, op: Op, ctx: &Ctx) -> Ret {
            match op {
                Op::Get => { let g = tri!(s.x()); Ret::Val(g.id()) },
                Op::Hold => { let g = tri!(s.x()); hold(|| g.id()) },
                Op::Rd => { let g = tri!(s.read_x()); hold(|| g.id()) },
                Op::Mut(n) => { let mut g = tri!(s.x_mut()); let old = g.id(); g.split(n); Ret::Val(old) },
                Op::Meet => { let g = tri!(s.read_x()); ctx.meet(); Ret::Val(g.id()) },
                Op::Set(n) => Ret::Opt(s.set_x(<Val>::mk(ctx, n)).map(|v| v.id())),
                Op::Clear => Ret::Opt(s.clear_x().map(|v| v.id())),
                Op::Has => Ret::Bool(s.has_x()),
                Op::WSet(n) => { let mut g = s.write_x(); mcsched::yield_point(102); Ret::Opt(g.store(<Val>::mk(ctx, n)).map(|v| v.id())) },
                Op::WClear => { let mut g = s.write_x(); mcsched::yield_point(102); Ret::Opt(g.clear().map(|v| v.id())) },
                Op::WMany(n) => { let mut g = s.write_x(); let mut l = vec![]; for d in [0, 1000, 0, 2000] { let o = if l.len() == 2 { g.clear() } else { g.store(<Val>::mk(ctx, n + d)) }; l.push(o.map(|v| v.id())); mcsched::yield_point(102); } Ret::List(l) },
                Op::Clone => { let c = s.clone(); let h = c.has_x(); Ret::Copy(h, c.clear_x().map(|v| v.id())) },
                Op::EqSelf => { #[allow(clippy::eq_op)] Ret::Bool(s == s) },
                Op::Debug => { let _ = format!("{:?}", s); Ret::Unit },
                _ => Ret::Na,
            }
    }
    impl Subject for W {
        fn run(&self, field: usize, op: Op, ctx: &Ctx, cancel: Option<usize>) -> Option<Ret> {
            let _ = field; let s: &S = &self.0; let o = s;
            let _ = s.ctx();
            { let _ = cancel; Some(run(s, o, op, ctx)) }
        }
        fn region(&self, h: &mcsched::ExecHandle) {
            h.region_of::<S>(&self.0, 1);
        }
    }
    pub fn flavour() -> Flavour {
        #[allow(unused_mut)]
        let mut ops = LAZY_OPS.to_vec();
        ops.extend([Op::Clone, Op::EqSelf, Op::Debug]);
        Flavour {
            name: "sync/lazy_fallible",
            kinds: vec![FieldKind::Lazy; 1],
            ops,
            copies: true,
            fallible: true,
            is_async: false,
            make: Arc::new(|ctx, init| {
                Arc::new(W({
                    let b = S::builder().ctx(CtxRef(ctx.clone(), 0));
                    #[allow(unused_mut)]
                    let mut b = match init[0] {
                        Some(v) => b.x(<Val>::mk(ctx, v)),
                        None => b,
                    };
                    Box::new(b.build().unwrap())
                }))
            }),
        }
    }
}

pub mod lazy_fallible_clone {
    use super::*;
    #[fxstruct(sync, builder, no_new)]
    
    pub struct S {
        #[fieldx(get, builder)]
        ctx: CtxRef,
        #[fieldx(lazy, fallible(error(String)), get(clone), get_mut, set, clearer, predicate, reader, writer)]
        x:   Val,
    }
    impl S {
        fn build_x(&self) -> Result<Val, String> {
            self.ctx.0.build(0)
        }
    }
    pub struct W(pub Box<S>);
    #[allow(unused_variables, unused_mut)]
    fn run(s: &S, o: &S, op: Op, ctx: &Ctx) -> Ret {
            match op {
                Op::Get => { let g = tri!(s.x()); Ret::Val(g.id()) },
                Op::Hold => { let g = tri!(s.x()); hold(|| g.id()) },
                Op::Rd => { let g = tri!(s.read_x()); hold(|| g.id()) },
                Op::Mut(n) => { let mut g = tri!(s.x_mut()); let old = g.id(); g.split(n); Ret::Val(old) },
                Op::Meet => { let g = tri!(s.read_x()); ctx.meet(); Ret::Val(g.id()) },
                Op::Set(n) => Ret::Opt(s.set_x(<Val>::mk(ctx, n)).map(|v| v.id())),
                Op::Clear => Ret::Opt(s.clear_x().map(|v| v.id())),
                Op::Has => Ret::Bool(s.has_x()),
                Op::WSet(n) => { let mut g = s.write_x(); mcsched::yield_point(102); Ret::Opt(g.store(<Val>::mk(ctx, n)).map(|v| v.id())) },
                Op::WClear => { let mut g = s.write_x(); mcsched::yield_point(102); Ret::Opt(g.clear().map(|v| v.id())) },
                Op::WMany(n) => { let mut g = s.write_x(); let mut l = vec![]; for d in [0, 1000, 0, 2000] { let o = if l.len() == 2 { g.clear() } else { g.store(<Val>::mk(ctx, n + d)) }; l.push(o.map(|v| v.id())); mcsched::yield_point(102); } Ret::List(l) },
                _ => Ret::Na,
            }
    }
    impl Subject for W {
        fn run(&self, field: usize, op: Op, ctx: &Ctx, cancel: Option<usize>) -> Option<Ret> {
            let _ = field; let s: &S = &self.0; let o = s;
            let _ = s.ctx();
            { let _ = cancel; Some(run(s, o, op, ctx)) }
        }
        fn region(&self, h: &mcsched::ExecHandle) {
            h.region_of::<S>(&self.0, 1);
        }
    }
    pub fn flavour() -> Flavour {
        #[allow(unused_mut)]
        let mut ops = LAZY_OPS.to_vec();
        
        Flavour {
            name: "sync/lazy_fallible_clone",
            kinds: vec![FieldKind::Lazy; 1],
            ops,
            copies: false,
            fallible: true,
            is_async: false,
            make: Arc::new(|ctx, init| {
                Arc::new(W({
                    let b = S::builder().ctx(CtxRef(ctx.clone(), 0));
                    #[allow(unused_mut)]
                    let mut b = match init[0] {
                        Some(v) => b.x(<Val>::mk(ctx, v)),
                        None => b,
                    };
                    Box::new(b.build().unwrap())
                }))
            }),
        }
    }
}

pub mod rc_lazy {
    use super::*;
    #[fxstruct(sync, builder, no_new, rc)]
    
    pub struct S {
        #[fieldx(get, builder)]
        ctx: CtxRef,
        #[fieldx(lazy, get, get_mut, set, clearer, predicate, reader, writer)]
        x:   Val,
    }
    impl S {
        fn build_x(&self) -> Val {
            self.ctx.0.build(0).unwrap()
        }
    }
    pub struct W(pub Arc<S>);
    #[allow(unused_variables, unused_mut)]
    fn run(s: &S, o: &S, op: Op, ctx: &Ctx) -> Ret {
            match op {
                Op::Get => { let g = s.x(); Ret::Val(g.id()) },
                Op::Hold => { let g = s.x(); hold(|| g.id()) },
                Op::Rd => { let g = s.read_x(); hold(|| g.id()) },
                Op::Mut(n) => { let mut g = s.x_mut(); let old = g.id(); g.split(n); Ret::Val(old) },
                Op::Meet => { let g = s.read_x(); ctx.meet(); Ret::Val(g.id()) },
                Op::Set(n) => Ret::Opt(s.set_x(<Val>::mk(ctx, n)).map(|v| v.id())),
                Op::Clear => Ret::Opt(s.clear_x().map(|v| v.id())),
                Op::Has => Ret::Bool(s.has_x()),
                Op::WSet(n) => { let mut g = s.write_x(); mcsched::yield_point(102); Ret::Opt(g.store(<Val>::mk(ctx, n)).map(|v| v.id())) },
                Op::WClear => { let mut g = s.write_x(); mcsched::yield_point(102); Ret::Opt(g.clear().map(|v| v.id())) },
                Op::WMany(n) => { let mut g = s.write_x(); let mut l = vec![]; for d in [0, 1000, 0, 2000] { let o = if l.len() == 2 { g.clear() } else { g.store(<Val>::mk(ctx, n + d)) }; l.push(o.map(|v| v.id())); mcsched::yield_point(102); } Ret::List(l) },
                _ => Ret::Na,
            }
    }
    impl Subject for W {
        fn run(&self, field: usize, op: Op, ctx: &Ctx, cancel: Option<usize>) -> Option<Ret> {
            let _ = field; let s: &S = &self.0; let o = s;
            let _ = s.ctx();
            { let _ = cancel; Some(run(s, o, op, ctx)) }
        }
        fn region(&self, h: &mcsched::ExecHandle) {
            h.region_of::<S>(&self.0, 1);
        }
    }
    pub fn flavour() -> Flavour {
        #[allow(unused_mut)]
        let mut ops = LAZY_OPS.to_vec();
        
        Flavour {
            name: "sync/rc_lazy",
            kinds: vec![FieldKind::Lazy; 1],
            ops,
            copies: false,
            fallible: false,
            is_async: false,
            make: Arc::new(|ctx, init| {
                Arc::new(W({
                    let b = S::builder().ctx(CtxRef(ctx.clone(), 0));
                    #[allow(unused_mut)]
                    let mut b = match init[0] {
                        Some(v) => b.x(<Val>::mk(ctx, v)),
                        None => b,
                    };
                    b.build().unwrap()
                }))
            }),
        }
    }
}

pub mod rc_fallible {
    use super::*;
    #[fxstruct(sync, builder, no_new, rc)]
    
    pub struct S {
        #[fieldx(get, builder)]
        ctx: CtxRef,
        #[fieldx(lazy, fallible(error(String)), get, get_mut, set, clearer, predicate, reader, writer)]
        x:   Val,
    }
    impl S {
        fn build_x(&self) -> Result<Val, String> {
            self.ctx.0.build(0)
        }
    }
    pub struct W(pub Arc<S>);
    #[allow(unused_variables, unused_mut)]
    fn run(s: &S, o: &S, op: Op, ctx: &Ctx) -> Ret {
            match op {
                Op::Get => { let g = tri!(s.x()); Ret::Val(g.id()) },
                Op::Hold => { let g = tri!(s.x()); hold(|| g.id()) },
                Op::Rd => { let g = tri!(s.read_x()); hold(|| g.id()) },
                Op::Mut(n) => { let mut g = tri!(s.x_mut()); let old = g.id(); g.split(n); Ret::Val(old) },
                Op::Meet => { let g = tri!(s.read_x()); ctx.meet(); Ret::Val(g.id()) },
                Op::Set(n) => Ret::Opt(s.set_x(<Val>::mk(ctx, n)).map(|v| v.id())),
                Op::Clear => Ret::Opt(s.clear_x().map(|v| v.id())),
                Op::Has => Ret::Bool(s.has_x()),
                Op::WSet(n) => { let mut g = s.write_x(); mcsched::yield_point(102); Ret::Opt(g.store(<Val>::mk(ctx, n)).map(|v| v.id())) },
                Op::WClear => { let mut g = s.write_x(); mcsched::yield_point(102); Ret::Opt(g.clear().map(|v| v.id())) },
                Op::WMany(n) => { let mut g = s.write_x(); let mut l = vec![]; for d in [0, 1000, 0, 2000] { let o = if l.len() == 2 { g.clear() } else { g.store(<Val>::mk(ctx, n + d)) }; l.push(o.map(|v| v.id())); mcsched::yield_point(102); } Ret::List(l) },
                _ => Ret::Na,
            }
    }
    impl Subject for W {
        fn run(&self, field: usize, op: Op, ctx: &Ctx, cancel: Option<usize>) -> Option<Ret> {
            let _ = field; let s: &S = &self.0; let o = s;
            let _ = s.ctx();
            { let _ = cancel; Some(run(s, o, op, ctx)) }
        }
        fn region(&self, h: &mcsched::ExecHandle) {
            h.region_of::<S>(&self.0, 1);
        }
    }
    pub fn flavour() -> Flavour {
        #[allow(unused_mut)]
        let mut ops = LAZY_OPS.to_vec();
        
        Flavour {
            name: "sync/rc_fallible",
            kinds: vec![FieldKind::Lazy; 1],
            ops,
            copies: false,
            fallible: true,
            is_async: false,
            make: Arc::new(|ctx, init| {
                Arc::new(W({
                    let b = S::builder().ctx(CtxRef(ctx.clone(), 0));
                    #[allow(unused_mut)]
                    let mut b = match init[0] {
                        Some(v) => b.x(<Val>::mk(ctx, v)),
                        None => b,
                    };
                    b.build().unwrap()
                }))
            }),
        }
    }
}

pub mod optional_guard {
    use super::*;
    #[fxstruct(sync, builder, no_new)]
    #[derive(Clone, Debug, PartialEq)]
    pub struct S {
        #[fieldx(get, builder)]
        ctx: CtxRef,
        #[fieldx(optional, get, get_mut, set, clearer, predicate, reader, writer)]
        x:   Val,
    }
    pub struct W(pub Box<S>);
    #[allow(unused_variables, unused_mut)]
    fn run(s: &S, o: &S, op: Op, ctx: &Ctx) -> Ret {
            match op {
                Op::Get => Ret::Opt(s.x().as_ref().map(|v| v.id())),
                Op::Hold => { let g = s.x(); hold_opt(|| g.as_ref().map(|v| v.id())) },
                Op::Rd => { let g = s.read_x(); hold_opt(|| g.as_ref().map(|v| v.id())) },
                Op::Mut(n) => { let mut g = s.x_mut(); let old = g.as_ref().map(|v| v.id()); match &mut *g { Some(v) => v.split(n), none => *none = Some(<Val>::mk(ctx, n)) } Ret::Opt(old) },
                Op::Meet => { let g = s.read_x(); ctx.meet(); Ret::Opt(g.as_ref().map(|v| v.id())) },
                Op::Set(n) => Ret::Opt(s.set_x(<Val>::mk(ctx, n)).map(|v| v.id())),
                Op::Clear => Ret::Opt(s.clear_x().map(|v| v.id())),
                Op::Has => Ret::Bool(s.has_x()),
                Op::WSet(n) => { let mut g = s.write_x(); mcsched::yield_point(102); Ret::Opt(g.replace(<Val>::mk(ctx, n)).map(|v| v.id())) },
                Op::WClear => { let mut g = s.write_x(); mcsched::yield_point(102); Ret::Opt(g.take().map(|v| v.id())) },
                Op::WMany(n) => { let mut g = s.write_x(); let mut l = vec![]; for d in [0, 1000, 0, 2000] { let o = if l.len() == 2 { g.take() } else { g.replace(<Val>::mk(ctx, n + d)) }; l.push(o.map(|v| v.id())); mcsched::yield_point(102); } Ret::List(l) },
                Op::Clone => { let c = s.clone(); let h = c.has_x(); Ret::Copy(h, c.clear_x().map(|v| v.id())) },
                Op::EqSelf => { #[allow(clippy::eq_op)] Ret::Bool(s == s) },
                Op::Debug => { let _ = format!("{:?}", s); Ret::Unit },
                _ => Ret::Na,
            }
    }
    impl Subject for W {
        fn run(&self, field: usize, op: Op, ctx: &Ctx, cancel: Option<usize>) -> Option<Ret> {
            let _ = field; let s: &S = &self.0; let o = s;
            let _ = s.ctx();
            { let _ = cancel; Some(run(s, o, op, ctx)) }
        }
        fn region(&self, h: &mcsched::ExecHandle) {
            h.region_of::<S>(&self.0, 1);
        }
    }
    pub fn flavour() -> Flavour {
        #[allow(unused_mut)]
        let mut ops = LAZY_OPS.to_vec();
        ops.extend([Op::Clone, Op::EqSelf, Op::Debug]);
        Flavour {
            name: "sync/optional_guard",
            kinds: vec![FieldKind::Optional; 1],
            ops,
            copies: true,
            fallible: false,
            is_async: false,
            make: Arc::new(|ctx, init| {
                Arc::new(W({
                    let b = S::builder().ctx(CtxRef(ctx.clone(), 0));
                    #[allow(unused_mut)]
                    let mut b = match init[0] {
                        Some(v) => b.x(<Val>::mk(ctx, v)),
                        None => b,
                    };
                    Box::new(b.build().unwrap())
                }))
            }),
        }
    }
}

pub mod optional_clone {
    use super::*;
    #[fxstruct(sync, builder, no_new)]
    
    pub struct S {
        #[fieldx(get, builder)]
        ctx: CtxRef,
        #[fieldx(get(clone), get_mut, set, clearer, predicate, reader, writer)]
        x:   Val,
    }
    pub struct W(pub Box<S>);
    #[allow(unused_variables, unused_mut)]
    fn run(s: &S, o: &S, op: Op, ctx: &Ctx) -> Ret {
            match op {
                Op::Get => Ret::Opt(s.x().as_ref().map(|v| v.id())),
                Op::Hold => { let g = s.x(); hold_opt(|| g.as_ref().map(|v| v.id())) },
                Op::Rd => { let g = s.read_x(); hold_opt(|| g.as_ref().map(|v| v.id())) },
                Op::Mut(n) => { let mut g = s.x_mut(); let old = g.as_ref().map(|v| v.id()); match &mut *g { Some(v) => v.split(n), none => *none = Some(<Val>::mk(ctx, n)) } Ret::Opt(old) },
                Op::Meet => { let g = s.read_x(); ctx.meet(); Ret::Opt(g.as_ref().map(|v| v.id())) },
                Op::Set(n) => Ret::Opt(s.set_x(<Val>::mk(ctx, n)).map(|v| v.id())),
                Op::Clear => Ret::Opt(s.clear_x().map(|v| v.id())),
                Op::Has => Ret::Bool(s.has_x()),
                Op::WSet(n) => { let mut g = s.write_x(); mcsched::yield_point(102); Ret::Opt(g.replace(<Val>::mk(ctx, n)).map(|v| v.id())) },
                Op::WClear => { let mut g = s.write_x(); mcsched::yield_point(102); Ret::Opt(g.take().map(|v| v.id())) },
                Op::WMany(n) => { let mut g = s.write_x(); let mut l = vec![]; for d in [0, 1000, 0, 2000] { let o = if l.len() == 2 { g.take() } else { g.replace(<Val>::mk(ctx, n + d)) }; l.push(o.map(|v| v.id())); mcsched::yield_point(102); } Ret::List(l) },
                _ => Ret::Na,
            }
    }
    impl Subject for W {
        fn run(&self, field: usize, op: Op, ctx: &Ctx, cancel: Option<usize>) -> Option<Ret> {
            let _ = field; let s: &S = &self.0; let o = s;
            let _ = s.ctx();
            { let _ = cancel; Some(run(s, o, op, ctx)) }
        }
        fn region(&self, h: &mcsched::ExecHandle) {
            h.region_of::<S>(&self.0, 1);
        }
    }
    pub fn flavour() -> Flavour {
        #[allow(unused_mut)]
        let mut ops = LAZY_OPS.to_vec();
        
        Flavour {
            name: "sync/optional_clone",
            kinds: vec![FieldKind::Optional; 1],
            ops,
            copies: false,
            fallible: false,
            is_async: false,
            make: Arc::new(|ctx, init| {
                Arc::new(W({
                    let b = S::builder().ctx(CtxRef(ctx.clone(), 0));
                    #[allow(unused_mut)]
                    let mut b = match init[0] {
                        Some(v) => b.x(<Val>::mk(ctx, v)),
                        None => b,
                    };
                    Box::new(b.build().unwrap())
                }))
            }),
        }
    }
}

pub mod optional_copy {
    use super::*;
    #[fxstruct(sync, builder, no_new)]
    #[derive(Clone, Debug, PartialEq)]
    pub struct S {
        #[fieldx(get, builder)]
        ctx: CtxRef,
        #[fieldx(get(copy), lock, get_mut, set, clearer, predicate, reader, writer)]
        x:   u64,
    }
    pub struct W(pub Box<S>);
    #[allow(unused_variables, unused_mut)]
    fn run(s: &S, o: &S, op: Op, ctx: &Ctx) -> Ret {
            match op {
                Op::Get => Ret::Opt(s.x().as_ref().map(|v| v.id())),
                Op::Hold => { let g = s.x(); hold_opt(|| g.as_ref().map(|v| v.id())) },
                Op::Rd => { let g = s.read_x(); hold_opt(|| g.as_ref().map(|v| v.id())) },
                Op::Mut(n) => { let mut g = s.x_mut(); let old = g.as_ref().map(|v| v.id()); match &mut *g { Some(v) => v.split(n), none => *none = Some(<u64>::mk(ctx, n)) } Ret::Opt(old) },
                Op::Meet => { let g = s.read_x(); ctx.meet(); Ret::Opt(g.as_ref().map(|v| v.id())) },
                Op::Set(n) => Ret::Opt(s.set_x(<u64>::mk(ctx, n)).map(|v| v.id())),
                Op::Clear => Ret::Opt(s.clear_x().map(|v| v.id())),
                Op::Has => Ret::Bool(s.has_x()),
                Op::WSet(n) => { let mut g = s.write_x(); mcsched::yield_point(102); Ret::Opt(g.replace(<u64>::mk(ctx, n)).map(|v| v.id())) },
                Op::WClear => { let mut g = s.write_x(); mcsched::yield_point(102); Ret::Opt(g.take().map(|v| v.id())) },
                Op::WMany(n) => { let mut g = s.write_x(); let mut l = vec![]; for d in [0, 1000, 0, 2000] { let o = if l.len() == 2 { g.take() } else { g.replace(<u64>::mk(ctx, n + d)) }; l.push(o.map(|v| v.id())); mcsched::yield_point(102); } Ret::List(l) },
                Op::Clone => { let c = s.clone(); let h = c.has_x(); Ret::Copy(h, c.clear_x().map(|v| v.id())) },
                Op::EqSelf => { #[allow(clippy::eq_op)] Ret::Bool(s == s) },
                Op::Debug => { let _ = format!("{:?}", s); Ret::Unit },
                _ => Ret::Na,
            }
    }
    impl Subject for W {
        fn run(&self, field: usize, op: Op, ctx: &Ctx, cancel: Option<usize>) -> Option<Ret> {
            let _ = field; let s: &S = &self.0; let o = s;
            let _ = s.ctx();
            { let _ = cancel; Some(run(s, o, op, ctx)) }
        }
        fn region(&self, h: &mcsched::ExecHandle) {
            h.region_of::<S>(&self.0, 1);
        }
    }
    pub fn flavour() -> Flavour {
        #[allow(unused_mut)]
        let mut ops = LAZY_OPS.to_vec();
        ops.extend([Op::Clone, Op::EqSelf, Op::Debug]);
        Flavour {
            name: "sync/optional_copy",
            kinds: vec![FieldKind::Optional; 1],
            ops,
            copies: true,
            fallible: false,
            is_async: false,
            make: Arc::new(|ctx, init| {
                Arc::new(W({
                    let b = S::builder().ctx(CtxRef(ctx.clone(), 0));
                    #[allow(unused_mut)]
                    let mut b = match init[0] {
                        Some(v) => b.x(<u64>::mk(ctx, v)),
                        None => b,
                    };
                    Box::new(b.build().unwrap())
                }))
            }),
        }
    }
}

pub mod lock_guard {
    use super::*;
    #[fxstruct(sync, builder, no_new)]
    #[derive(Clone, Debug, PartialEq)]
    pub struct S {
        #[fieldx(get, builder)]
        ctx: CtxRef,
        #[fieldx(lock, get, get_mut, set, reader, writer, builder(required))]
        x:   Val,
    }
    pub struct W(pub Box<S>);
    #[allow(unused_variables, unused_mut)]
    fn run(s: &S, o: &S, op: Op, ctx: &Ctx) -> Ret {
            match op {
                Op::Get => { let g = s.x(); Ret::Val(g.id()) },
                Op::Hold => { let g = s.x(); hold(|| g.id()) },
                Op::Rd => { let g = s.read_x(); hold(|| g.id()) },
                Op::Mut(n) => { let mut g = s.x_mut(); let old = g.id(); g.split(n); Ret::Val(old) },
                Op::Meet => { let g = s.read_x(); ctx.meet(); Ret::Val(g.id()) },
                Op::Set(n) => Ret::Opt(Some(s.set_x(<Val>::mk(ctx, n)).id())),
                Op::WSet(n) => { let mut g = s.write_x(); mcsched::yield_point(102); Ret::Opt(Some(std::mem::replace(&mut *g, <Val>::mk(ctx, n)).id())) },
                Op::WMany(n) => { let mut g = s.write_x(); let mut l = vec![]; for d in [0, 1000, 2000] { l.push(Some(std::mem::replace(&mut *g, <Val>::mk(ctx, n + d)).id())); mcsched::yield_point(102); } Ret::List(l) },
                Op::Clone => { let c = s.clone(); Ret::Copy(true, Some(c.set_x(<Val>::mk(ctx, 0)).id())) },
                Op::EqSelf => { #[allow(clippy::eq_op)] Ret::Bool(s == s) },
                Op::Debug => { let _ = format!("{:?}", s); Ret::Unit },
                _ => Ret::Na,
            }
    }
    impl Subject for W {
        fn run(&self, field: usize, op: Op, ctx: &Ctx, cancel: Option<usize>) -> Option<Ret> {
            let _ = field; let s: &S = &self.0; let o = s;
            let _ = s.ctx();
            { let _ = cancel; Some(run(s, o, op, ctx)) }
        }
        fn region(&self, h: &mcsched::ExecHandle) {
            h.region_of::<S>(&self.0, 1);
        }
    }
    pub fn flavour() -> Flavour {
        #[allow(unused_mut)]
        let mut ops = LOCK_OPS.to_vec();
        ops.extend([Op::Clone, Op::EqSelf, Op::Debug]);
        Flavour {
            name: "sync/lock_guard",
            kinds: vec![FieldKind::Locked; 1],
            ops,
            copies: true,
            fallible: false,
            is_async: false,
            make: Arc::new(|ctx, init| {
                Arc::new(W({
                    let b = S::builder().ctx(CtxRef(ctx.clone(), 0));
                    #[allow(unused_mut)]
                    let mut b = match init[0] {
                        Some(v) => b.x(<Val>::mk(ctx, v)),
                        None => b,
                    };
                    Box::new(b.build().unwrap())
                }))
            }),
        }
    }
}

pub mod lock_clone {
    use super::*;
    #[fxstruct(sync, builder, no_new)]
    
    pub struct S {
        #[fieldx(get, builder)]
        ctx: CtxRef,
        #[fieldx(get(clone), get_mut, set, reader, writer, builder(required))]
        x:   Val,
    }
    pub struct W(pub Box<S>);
    #[allow(unused_variables, unused_mut)]
    fn run(s: &S, o: &S, op: Op, ctx: &Ctx) -> Ret {
            match op {
                Op::Get => { let g = s.x(); Ret::Val(g.id()) },
                Op::Hold => { let g = s.x(); hold(|| g.id()) },
                Op::Rd => { let g = s.read_x(); hold(|| g.id()) },
                Op::Mut(n) => { let mut g = s.x_mut(); let old = g.id(); g.split(n); Ret::Val(old) },
                Op::Meet => { let g = s.read_x(); ctx.meet(); Ret::Val(g.id()) },
                Op::Set(n) => Ret::Opt(Some(s.set_x(<Val>::mk(ctx, n)).id())),
                Op::WSet(n) => { let mut g = s.write_x(); mcsched::yield_point(102); Ret::Opt(Some(std::mem::replace(&mut *g, <Val>::mk(ctx, n)).id())) },
                Op::WMany(n) => { let mut g = s.write_x(); let mut l = vec![]; for d in [0, 1000, 2000] { l.push(Some(std::mem::replace(&mut *g, <Val>::mk(ctx, n + d)).id())); mcsched::yield_point(102); } Ret::List(l) },
                _ => Ret::Na,
            }
    }
    impl Subject for W {
        fn run(&self, field: usize, op: Op, ctx: &Ctx, cancel: Option<usize>) -> Option<Ret> {
            let _ = field; let s: &S = &self.0; let o = s;
            let _ = s.ctx();
            { let _ = cancel; Some(run(s, o, op, ctx)) }
        }
        fn region(&self, h: &mcsched::ExecHandle) {
            h.region_of::<S>(&self.0, 1);
        }
    }
    pub fn flavour() -> Flavour {
        #[allow(unused_mut)]
        let mut ops = LOCK_OPS.to_vec();
        
        Flavour {
            name: "sync/lock_clone",
            kinds: vec![FieldKind::Locked; 1],
            ops,
            copies: false,
            fallible: false,
            is_async: false,
            make: Arc::new(|ctx, init| {
                Arc::new(W({
                    let b = S::builder().ctx(CtxRef(ctx.clone(), 0));
                    #[allow(unused_mut)]
                    let mut b = match init[0] {
                        Some(v) => b.x(<Val>::mk(ctx, v)),
                        None => b,
                    };
                    Box::new(b.build().unwrap())
                }))
            }),
        }
    }
}

pub mod lock_copy {
    use super::*;
    #[fxstruct(sync, builder, no_new)]
    #[derive(Clone, Debug, PartialEq)]
    pub struct S {
        #[fieldx(get, builder)]
        ctx: CtxRef,
        #[fieldx(get(copy), lock, get_mut, set, reader, writer)]
        x:   u64,
    }
    pub struct W(pub Box<S>);
    #[allow(unused_variables, unused_mut)]
    fn run(s: &S, o: &S, op: Op, ctx: &Ctx) -> Ret {
            match op {
                Op::Get => { let g = s.x(); Ret::Val(g.id()) },
                Op::Hold => { let g = s.x(); hold(|| g.id()) },
                Op::Rd => { let g = s.read_x(); hold(|| g.id()) },
                Op::Mut(n) => { let mut g = s.x_mut(); let old = g.id(); g.split(n); Ret::Val(old) },
                Op::Meet => { let g = s.read_x(); ctx.meet(); Ret::Val(g.id()) },
                Op::Set(n) => Ret::Opt(Some(s.set_x(<u64>::mk(ctx, n)).id())),
                Op::WSet(n) => { let mut g = s.write_x(); mcsched::yield_point(102); Ret::Opt(Some(std::mem::replace(&mut *g, <u64>::mk(ctx, n)).id())) },
                Op::WMany(n) => { let mut g = s.write_x(); let mut l = vec![]; for d in [0, 1000, 2000] { l.push(Some(std::mem::replace(&mut *g, <u64>::mk(ctx, n + d)).id())); mcsched::yield_point(102); } Ret::List(l) },
                Op::Clone => { let c = s.clone(); Ret::Copy(true, Some(c.set_x(<u64>::mk(ctx, 0)).id())) },
                Op::EqSelf => { #[allow(clippy::eq_op)] Ret::Bool(s == s) },
                Op::Debug => { let _ = format!("{:?}", s); Ret::Unit },
                _ => Ret::Na,
            }
    }
    impl Subject for W {
        fn run(&self, field: usize, op: Op, ctx: &Ctx, cancel: Option<usize>) -> Option<Ret> {
            let _ = field; let s: &S = &self.0; let o = s;
            let _ = s.ctx();
            { let _ = cancel; Some(run(s, o, op, ctx)) }
        }
        fn region(&self, h: &mcsched::ExecHandle) {
            h.region_of::<S>(&self.0, 1);
        }
    }
    pub fn flavour() -> Flavour {
        #[allow(unused_mut)]
        let mut ops = LOCK_OPS.to_vec();
        ops.extend([Op::Clone, Op::EqSelf, Op::Debug]);
        Flavour {
            name: "sync/lock_copy",
            kinds: vec![FieldKind::Locked; 1],
            ops,
            copies: true,
            fallible: false,
            is_async: false,
            make: Arc::new(|ctx, init| {
                Arc::new(W({
                    let b = S::builder().ctx(CtxRef(ctx.clone(), 0));
                    #[allow(unused_mut)]
                    let mut b = match init[0] {
                        Some(v) => b.x(<u64>::mk(ctx, v)),
                        None => b,
                    };
                    Box::new(b.build().unwrap())
                }))
            }),
        }
    }
}

pub mod pair_lazy {
    use super::*;
    #[fxstruct(sync, builder, no_new)]
    #[derive(Clone, Debug, PartialEq)]
    pub struct S {
        #[fieldx(get, builder)]
        ctx: CtxRef,
        #[fieldx(lazy, get, get_mut, set, clearer, predicate, reader, writer)]
        x:   Val,
    }
    impl S {
        fn build_x(&self) -> Val {
            self.ctx.0.build(self.ctx.1).unwrap()
        }
    }
    pub struct W(pub Box<(S, S)>);
    #[allow(unused_variables, unused_mut)]
    fn run(s: &S, o: &S, op: Op, ctx: &Ctx) -> Ret {
            match op {
                Op::Get => { let g = s.x(); Ret::Val(g.id()) },
                Op::Hold => { let g = s.x(); hold(|| g.id()) },
                Op::Rd => { let g = s.read_x(); hold(|| g.id()) },
                Op::Mut(n) => { let mut g = s.x_mut(); let old = g.id(); g.split(n); Ret::Val(old) },
                Op::Meet => { let g = s.read_x(); ctx.meet(); Ret::Val(g.id()) },
                Op::Set(n) => Ret::Opt(s.set_x(<Val>::mk(ctx, n)).map(|v| v.id())),
                Op::Clear => Ret::Opt(s.clear_x().map(|v| v.id())),
                Op::Has => Ret::Bool(s.has_x()),
                Op::WSet(n) => { let mut g = s.write_x(); mcsched::yield_point(102); Ret::Opt(g.store(<Val>::mk(ctx, n)).map(|v| v.id())) },
                Op::WClear => { let mut g = s.write_x(); mcsched::yield_point(102); Ret::Opt(g.clear().map(|v| v.id())) },
                Op::WMany(n) => { let mut g = s.write_x(); let mut l = vec![]; for d in [0, 1000, 0, 2000] { let o = if l.len() == 2 { g.clear() } else { g.store(<Val>::mk(ctx, n + d)) }; l.push(o.map(|v| v.id())); mcsched::yield_point(102); } Ret::List(l) },
                Op::Clone => { let c = s.clone(); let h = c.has_x(); Ret::Copy(h, c.clear_x().map(|v| v.id())) },
                Op::EqSelf => { #[allow(clippy::eq_op)] Ret::Bool(s == s) },
                Op::Debug => { let _ = format!("{:?}", s); Ret::Unit },
                Op::EqOther(rev) => Ret::Bool(if rev { o == s } else { s == o }),
                _ => Ret::Na,
            }
    }
    impl Subject for W {
        fn run(&self, field: usize, op: Op, ctx: &Ctx, cancel: Option<usize>) -> Option<Ret> {
            let (s, o): (&S, &S) = if field == 0 { (&self.0.0, &self.0.1) } else { (&self.0.1, &self.0.0) };
            let _ = s.ctx();
            { let _ = cancel; Some(run(s, o, op, ctx)) }
        }
        fn region(&self, h: &mcsched::ExecHandle) {
            h.region_of::<(S, S)>(&self.0, 1);
        }
    }
    pub fn flavour() -> Flavour {
        #[allow(unused_mut)]
        let mut ops = LAZY_OPS.to_vec();
        ops.extend([Op::Clone, Op::EqSelf, Op::Debug]); ops.extend([Op::EqOther(false), Op::EqOther(true)]);
        Flavour {
            name: "sync/pair_lazy",
            kinds: vec![FieldKind::Lazy; 2],
            ops,
            copies: true,
            fallible: false,
            is_async: false,
            make: Arc::new(|ctx, init| {
                Arc::new(W(Box::new(({
                    let b = S::builder().ctx(CtxRef(ctx.clone(), 0));
                    #[allow(unused_mut)]
                    let mut b = match init[0] {
                        Some(v) => b.x(<Val>::mk(ctx, v)),
                        None => b,
                    };
                    b.build().unwrap()
                }, {
                    let b = S::builder().ctx(CtxRef(ctx.clone(), 1));
                    #[allow(unused_mut)]
                    let mut b = match init[1] {
                        Some(v) => b.x(<Val>::mk(ctx, v)),
                        None => b,
                    };
                    b.build().unwrap()
                }))))
            }),
        }
    }
}

pub mod pair_optional {
    use super::*;
    #[fxstruct(sync, builder, no_new)]
    #[derive(Clone, Debug, PartialEq)]
    pub struct S {
        #[fieldx(get, builder)]
        ctx: CtxRef,
        #[fieldx(optional, get, get_mut, set, clearer, predicate, reader, writer)]
        x:   Val,
    }
    pub struct W(pub Box<(S, S)>);
    #[allow(unused_variables, unused_mut)]
    fn run(s: &S, o: &S, op: Op, ctx: &Ctx) -> Ret {
            match op {
                Op::Get => Ret::Opt(s.x().as_ref().map(|v| v.id())),
                Op::Hold => { let g = s.x(); hold_opt(|| g.as_ref().map(|v| v.id())) },
                Op::Rd => { let g = s.read_x(); hold_opt(|| g.as_ref().map(|v| v.id())) },
                Op::Mut(n) => { let mut g = s.x_mut(); let old = g.as_ref().map(|v| v.id()); match &mut *g { Some(v) => v.split(n), none => *none = Some(<Val>::mk(ctx, n)) } Ret::Opt(old) },
                Op::Meet => { let g = s.read_x(); ctx.meet(); Ret::Opt(g.as_ref().map(|v| v.id())) },
                Op::Set(n) => Ret::Opt(s.set_x(<Val>::mk(ctx, n)).map(|v| v.id())),
                Op::Clear => Ret::Opt(s.clear_x().map(|v| v.id())),
                Op::Has => Ret::Bool(s.has_x()),
                Op::WSet(n) => { let mut g = s.write_x(); mcsched::yield_point(102); Ret::Opt(g.replace(<Val>::mk(ctx, n)).map(|v| v.id())) },
                Op::WClear => { let mut g = s.write_x(); mcsched::yield_point(102); Ret::Opt(g.take().map(|v| v.id())) },
                Op::WMany(n) => { let mut g = s.write_x(); let mut l = vec![]; for d in [0, 1000, 0, 2000] { let o = if l.len() == 2 { g.take() } else { g.replace(<Val>::mk(ctx, n + d)) }; l.push(o.map(|v| v.id())); mcsched::yield_point(102); } Ret::List(l) },
                Op::Clone => { let c = s.clone(); let h = c.has_x(); Ret::Copy(h, c.clear_x().map(|v| v.id())) },
                Op::EqSelf => { #[allow(clippy::eq_op)] Ret::Bool(s == s) },
                Op::Debug => { let _ = format!("{:?}", s); Ret::Unit },
                Op::EqOther(rev) => Ret::Bool(if rev { o == s } else { s == o }),
                _ => Ret::Na,
            }
    }
    impl Subject for W {
        fn run(&self, field: usize, op: Op, ctx: &Ctx, cancel: Option<usize>) -> Option<Ret> {
            let (s, o): (&S, &S) = if field == 0 { (&self.0.0, &self.0.1) } else { (&self.0.1, &self.0.0) };
            let _ = s.ctx();
            { let _ = cancel; Some(run(s, o, op, ctx)) }
        }
        fn region(&self, h: &mcsched::ExecHandle) {
            h.region_of::<(S, S)>(&self.0, 1);
        }
    }
    pub fn flavour() -> Flavour {
        #[allow(unused_mut)]
        let mut ops = LAZY_OPS.to_vec();
        ops.extend([Op::Clone, Op::EqSelf, Op::Debug]); ops.extend([Op::EqOther(false), Op::EqOther(true)]);
        Flavour {
            name: "sync/pair_optional",
            kinds: vec![FieldKind::Optional; 2],
            ops,
            copies: true,
            fallible: false,
            is_async: false,
            make: Arc::new(|ctx, init| {
                Arc::new(W(Box::new(({
                    let b = S::builder().ctx(CtxRef(ctx.clone(), 0));
                    #[allow(unused_mut)]
                    let mut b = match init[0] {
                        Some(v) => b.x(<Val>::mk(ctx, v)),
                        None => b,
                    };
                    b.build().unwrap()
                }, {
                    let b = S::builder().ctx(CtxRef(ctx.clone(), 1));
                    #[allow(unused_mut)]
                    let mut b = match init[1] {
                        Some(v) => b.x(<Val>::mk(ctx, v)),
                        None => b,
                    };
                    b.build().unwrap()
                }))))
            }),
        }
    }
}

pub mod pair_lock {
    use super::*;
    #[fxstruct(sync, builder, no_new)]
    #[derive(Clone, Debug, PartialEq)]
    pub struct S {
        #[fieldx(get, builder)]
        ctx: CtxRef,
        #[fieldx(lock, get, get_mut, set, reader, writer, builder(required))]
        x:   Val,
    }
    pub struct W(pub Box<(S, S)>);
    #[allow(unused_variables, unused_mut)]
    fn run(s: &S, o: &S, op: Op, ctx: &Ctx) -> Ret {
            match op {
                Op::Get => { let g = s.x(); Ret::Val(g.id()) },
                Op::Hold => { let g = s.x(); hold(|| g.id()) },
                Op::Rd => { let g = s.read_x(); hold(|| g.id()) },
                Op::Mut(n) => { let mut g = s.x_mut(); let old = g.id(); g.split(n); Ret::Val(old) },
                Op::Meet => { let g = s.read_x(); ctx.meet(); Ret::Val(g.id()) },
                Op::Set(n) => Ret::Opt(Some(s.set_x(<Val>::mk(ctx, n)).id())),
                Op::WSet(n) => { let mut g = s.write_x(); mcsched::yield_point(102); Ret::Opt(Some(std::mem::replace(&mut *g, <Val>::mk(ctx, n)).id())) },
                Op::WMany(n) => { let mut g = s.write_x(); let mut l = vec![]; for d in [0, 1000, 2000] { l.push(Some(std::mem::replace(&mut *g, <Val>::mk(ctx, n + d)).id())); mcsched::yield_point(102); } Ret::List(l) },
                Op::Clone => { let c = s.clone(); Ret::Copy(true, Some(c.set_x(<Val>::mk(ctx, 0)).id())) },
                Op::EqSelf => { #[allow(clippy::eq_op)] Ret::Bool(s == s) },
                Op::Debug => { let _ = format!("{:?}", s); Ret::Unit },
                Op::EqOther(rev) => Ret::Bool(if rev { o == s } else { s == o }),
                _ => Ret::Na,
            }
    }
    impl Subject for W {
        fn run(&self, field: usize, op: Op, ctx: &Ctx, cancel: Option<usize>) -> Option<Ret> {
            let (s, o): (&S, &S) = if field == 0 { (&self.0.0, &self.0.1) } else { (&self.0.1, &self.0.0) };
            let _ = s.ctx();
            { let _ = cancel; Some(run(s, o, op, ctx)) }
        }
        fn region(&self, h: &mcsched::ExecHandle) {
            h.region_of::<(S, S)>(&self.0, 1);
        }
    }
    pub fn flavour() -> Flavour {
        #[allow(unused_mut)]
        let mut ops = LOCK_OPS.to_vec();
        ops.extend([Op::Clone, Op::EqSelf, Op::Debug]); ops.extend([Op::EqOther(false), Op::EqOther(true)]);
        Flavour {
            name: "sync/pair_lock",
            kinds: vec![FieldKind::Locked; 2],
            ops,
            copies: true,
            fallible: false,
            is_async: false,
            make: Arc::new(|ctx, init| {
                Arc::new(W(Box::new(({
                    let b = S::builder().ctx(CtxRef(ctx.clone(), 0));
                    #[allow(unused_mut)]
                    let mut b = match init[0] {
                        Some(v) => b.x(<Val>::mk(ctx, v)),
                        None => b,
                    };
                    b.build().unwrap()
                }, {
                    let b = S::builder().ctx(CtxRef(ctx.clone(), 1));
                    #[allow(unused_mut)]
                    let mut b = match init[1] {
                        Some(v) => b.x(<Val>::mk(ctx, v)),
                        None => b,
                    };
                    b.build().unwrap()
                }))))
            }),
        }
    }
}

pub mod deps {
    use super::*;
    #[fxstruct(sync, builder, no_new)]
    #[derive(Clone, Debug, PartialEq)]
    pub struct S {
        #[fieldx(get, builder)]
        ctx: CtxRef,
        #[fieldx(lazy, get, get_mut, set, clearer, predicate, reader, writer)]
        a: Val,
        #[fieldx(lazy, get, get_mut, set, clearer, predicate, reader, writer)]
        b: Val,
        #[fieldx(lazy, get, get_mut, set, clearer, predicate, reader, writer)]
        c: Val,
    }
    impl S {
        fn build_a(&self) -> Val { self.ctx.0.build_with(0, || { { let _b = self.b().id(); } { let _c = self.c().id(); } }).unwrap() }
        fn build_b(&self) -> Val { self.ctx.0.build_with(1, || { let _c = self.c().id(); }).unwrap() }
        fn build_c(&self) -> Val { self.ctx.0.build_with(2, || {  }).unwrap() }
        
    }
    pub struct W(pub Box<S>);
    #[allow(unused_variables, unused_mut)]
    fn run(s: &S, field: usize, op: Op, ctx: &Ctx) -> Ret {
            match field {
                0 => match op {
                    Op::Get => { let g = s.a(); Ret::Val(g.id()) },
                    Op::Hold => { let g = s.a(); hold(|| g.id()) },
                    Op::Rd => { let g = s.read_a(); hold(|| g.id()) },
                    Op::Mut(n) => { let mut g = s.a_mut(); let old = g.id(); g.split(n); Ret::Val(old) },
                    Op::Set(n) => Ret::Opt(s.set_a(<Val>::mk(ctx, n)).map(|v| v.id())),
                    Op::Clear => Ret::Opt(s.clear_a().map(|v| v.id())),
                    Op::Has => Ret::Bool(s.has_a()),
                    Op::WSet(n) => { let mut g = s.write_a(); mcsched::yield_point(102); Ret::Opt(g.store(<Val>::mk(ctx, n)).map(|v| v.id())) },
                    Op::WClear => { let mut g = s.write_a(); mcsched::yield_point(102); Ret::Opt(g.clear().map(|v| v.id())) },
                    Op::WMany(n) => { let mut g = s.write_a(); let mut l = vec![]; for d in [0, 1000, 0, 2000] { let o = if l.len() == 2 { g.clear() } else { g.store(<Val>::mk(ctx, n + d)) }; l.push(o.map(|v| v.id())); mcsched::yield_point(102); } Ret::List(l) },
                    Op::EqSelf => { #[allow(clippy::eq_op)] Ret::Bool(s == s) },
                    Op::Debug => { let _ = format!("{:?}", s); Ret::Unit },
                    _ => Ret::Na,
                },
                1 => match op {
                    Op::Get => { let g = s.b(); Ret::Val(g.id()) },
                    Op::Hold => { let g = s.b(); hold(|| g.id()) },
                    Op::Rd => { let g = s.read_b(); hold(|| g.id()) },
                    Op::Mut(n) => { let mut g = s.b_mut(); let old = g.id(); g.split(n); Ret::Val(old) },
                    Op::Set(n) => Ret::Opt(s.set_b(<Val>::mk(ctx, n)).map(|v| v.id())),
                    Op::Clear => Ret::Opt(s.clear_b().map(|v| v.id())),
                    Op::Has => Ret::Bool(s.has_b()),
                    Op::WSet(n) => { let mut g = s.write_b(); mcsched::yield_point(102); Ret::Opt(g.store(<Val>::mk(ctx, n)).map(|v| v.id())) },
                    Op::WClear => { let mut g = s.write_b(); mcsched::yield_point(102); Ret::Opt(g.clear().map(|v| v.id())) },
                    Op::WMany(n) => { let mut g = s.write_b(); let mut l = vec![]; for d in [0, 1000, 0, 2000] { let o = if l.len() == 2 { g.clear() } else { g.store(<Val>::mk(ctx, n + d)) }; l.push(o.map(|v| v.id())); mcsched::yield_point(102); } Ret::List(l) },
                    Op::EqSelf => { #[allow(clippy::eq_op)] Ret::Bool(s == s) },
                    Op::Debug => { let _ = format!("{:?}", s); Ret::Unit },
                    _ => Ret::Na,
                },
                2 => match op {
                    Op::Get => { let g = s.c(); Ret::Val(g.id()) },
                    Op::Hold => { let g = s.c(); hold(|| g.id()) },
                    Op::Rd => { let g = s.read_c(); hold(|| g.id()) },
                    Op::Mut(n) => { let mut g = s.c_mut(); let old = g.id(); g.split(n); Ret::Val(old) },
                    Op::Set(n) => Ret::Opt(s.set_c(<Val>::mk(ctx, n)).map(|v| v.id())),
                    Op::Clear => Ret::Opt(s.clear_c().map(|v| v.id())),
                    Op::Has => Ret::Bool(s.has_c()),
                    Op::WSet(n) => { let mut g = s.write_c(); mcsched::yield_point(102); Ret::Opt(g.store(<Val>::mk(ctx, n)).map(|v| v.id())) },
                    Op::WClear => { let mut g = s.write_c(); mcsched::yield_point(102); Ret::Opt(g.clear().map(|v| v.id())) },
                    Op::WMany(n) => { let mut g = s.write_c(); let mut l = vec![]; for d in [0, 1000, 0, 2000] { let o = if l.len() == 2 { g.clear() } else { g.store(<Val>::mk(ctx, n + d)) }; l.push(o.map(|v| v.id())); mcsched::yield_point(102); } Ret::List(l) },
                    Op::EqSelf => { #[allow(clippy::eq_op)] Ret::Bool(s == s) },
                    Op::Debug => { let _ = format!("{:?}", s); Ret::Unit },
                    _ => Ret::Na,
                },
                _ => Ret::Na,
            }
    }
    impl Subject for W {
        fn run(&self, field: usize, op: Op, ctx: &Ctx, cancel: Option<usize>) -> Option<Ret> {
            let s: &S = &self.0;
            let _ = s.ctx();
            { let _ = cancel; Some(run(s, field, op, ctx)) }
        }
        fn region(&self, h: &mcsched::ExecHandle) {
            h.region_of::<S>(&self.0, 1)
        }
    }
    pub fn flavour() -> Flavour {
        Flavour {
            name: "sync/deps",
            kinds: vec![FieldKind::Lazy; 3],
            ops: LAZY_OPS.to_vec(),
            copies: true,
            fallible: false,
            is_async: false,
            make: Arc::new(|ctx, init| {
                let mut b = S::builder().ctx(CtxRef(ctx.clone(), 0));
                if let Some(v) = init[0] { b = b.a(Val::mk(ctx, v)); }
                if let Some(v) = init[1] { b = b.b(Val::mk(ctx, v)); }
                if let Some(v) = init[2] { b = b.c(Val::mk(ctx, v)); }
                Arc::new(W(Box::new(b.build().unwrap())))
            }),
        }
    }
}

pub fn flavours() -> Vec<Flavour> {
    vec![
        lazy_guard::flavour(),
        lazy_clone::flavour(),
        lazy_copy::flavour(),
        lazy_fallible::flavour(),
        lazy_fallible_clone::flavour(),
        rc_lazy::flavour(),
        rc_fallible::flavour(),
        optional_guard::flavour(),
        optional_clone::flavour(),
        optional_copy::flavour(),
        lock_guard::flavour(),
        lock_clone::flavour(),
        lock_copy::flavour(),
    ]
}

pub fn pairs() -> Vec<Flavour> {
    vec![
        pair_lazy::flavour(),
        pair_optional::flavour(),
        pair_lock::flavour(),
    ]
}

pub fn deps_flavours() -> Vec<Flavour> {
    vec![
        deps::flavour(),
    ]
}
