// by gen.py
use crate::*;
use crate::Op::*;
use fieldx::fxstruct;
use serde::{Deserialize, Serialize};
#[allow(unused_imports)]
use std::rc::Rc;
pub mod m0 {
    use super::*;
    #[fxstruct(builder)]
    #[derive(Clone, Debug, PartialEq)]
    pub struct S { #[fieldx(inner_mut, get, get_mut, set)] f: W, #[fieldx(inner_mut, default(3), get, get_mut, set, builder(off))] g: u32 }
    struct Own(S);
    #[allow(unused_mut)]
    impl Subject for Own {
        fn shared(&self) -> Reading<'_> { let g = self.0.f(); Box::new(move || Some((*g).0)) }
        fn get(&self) -> Option<u32> { let g = self.0.f(); Some((*g).0) }
        fn excl(&self) -> Writing<'_> { let mut g = self.0.f_mut(); Box::new(move |x| { if let Some(x) = x { *g = W(x.unwrap()) } Some((*g).0) }) }
        fn set(&self, n: u32) -> Option<u32> { Some(self.0.set_f(W(n)).0) }
        fn other(&self, n: u32) -> Option<u32> { let a = *self.0.g(); *self.0.g_mut() = a + n; self.0.set_g(a); Some(*self.0.g()) }
        fn debug(&self) -> bool { !format!("{:?}", self.0).is_empty() }
        fn dup(&self) -> Option<u32> { let o = Own(self.0.clone()); let a = o.get(); o.set(77); a }
        fn eq(&self, n: Option<u32>) -> bool { let o = Own(S::new()); *o.0.f_mut() = W(n.unwrap()); self.0 == o.0 }
    }
    pub fn case() -> Case {
        Case { name: "0", text: r#"#[fxstruct(builder)] struct S { #[fieldx(inner_mut, get, get_mut, set)] f: W }"#, ops: vec![Excl, Set, Get, Once, Other, Debug, Shared, Dup, Eq], start: Some(0), new: || Box::new(Own(S::new())), build: || Box::new(Own(S::builder().f(W(9)).build().unwrap())) }
    }
}
pub mod m1 {
    use super::*;
    #[fxstruct(builder)]
    #[derive(Clone, Debug, PartialEq)]
    pub struct S { #[fieldx(inner_mut, get, get_mut, set(into))] f: W, #[fieldx(inner_mut, default(3), get, get_mut, set, builder(off))] g: u32 }
    struct Own(S);
    #[allow(unused_mut)]
    impl Subject for Own {
        fn shared(&self) -> Reading<'_> { let g = self.0.f(); Box::new(move || Some((*g).0)) }
        fn get(&self) -> Option<u32> { let g = self.0.f(); Some((*g).0) }
        fn excl(&self) -> Writing<'_> { let mut g = self.0.f_mut(); Box::new(move |x| { if let Some(x) = x { *g = W(x.unwrap()) } Some((*g).0) }) }
        fn set(&self, n: u32) -> Option<u32> { Some(self.0.set_f(Raw(n)).0) }
        fn other(&self, n: u32) -> Option<u32> { let a = *self.0.g(); *self.0.g_mut() = a + n; self.0.set_g(a); Some(*self.0.g()) }
        fn debug(&self) -> bool { !format!("{:?}", self.0).is_empty() }
        fn dup(&self) -> Option<u32> { let o = Own(self.0.clone()); let a = o.get(); o.set(77); a }
        fn eq(&self, n: Option<u32>) -> bool { let o = Own(S::new()); *o.0.f_mut() = W(n.unwrap()); self.0 == o.0 }
    }
    pub fn case() -> Case {
        Case { name: "1", text: r#"#[fxstruct(builder)] struct S { #[fieldx(inner_mut, get, get_mut, set(into))] f: W }"#, ops: vec![Excl, Set, Get, Once, Other, Debug, Shared, Dup, Eq], start: Some(0), new: || Box::new(Own(S::new())), build: || Box::new(Own(S::builder().f(W(9)).build().unwrap())) }
    }
}
pub mod m2 {
    use super::*;
    #[fxstruct(builder)]
    #[derive(Clone, Debug, PartialEq)]
    pub struct S { #[fieldx(inner_mut, get(clone), get_mut, set(into))] f: W, #[fieldx(inner_mut, default(3), get, get_mut, set, builder(off))] g: u32 }
    struct Own(S);
    #[allow(unused_mut)]
    impl Subject for Own {
        fn get(&self) -> Option<u32> { Some(self.0.f().0) }
        fn excl(&self) -> Writing<'_> { let mut g = self.0.f_mut(); Box::new(move |x| { if let Some(x) = x { *g = W(x.unwrap()) } Some((*g).0) }) }
        fn set(&self, n: u32) -> Option<u32> { Some(self.0.set_f(Raw(n)).0) }
        fn other(&self, n: u32) -> Option<u32> { let a = *self.0.g(); *self.0.g_mut() = a + n; self.0.set_g(a); Some(*self.0.g()) }
        fn debug(&self) -> bool { !format!("{:?}", self.0).is_empty() }
        fn dup(&self) -> Option<u32> { let o = Own(self.0.clone()); let a = o.get(); o.set(77); a }
        fn eq(&self, n: Option<u32>) -> bool { let o = Own(S::new()); *o.0.f_mut() = W(n.unwrap()); self.0 == o.0 }
    }
    pub fn case() -> Case {
        Case { name: "2", text: r#"#[fxstruct(builder)] struct S { #[fieldx(inner_mut, get(clone), get_mut, set(into))] f: W }"#, ops: vec![Excl, Set, Get, Once, Other, Debug, Dup, Eq], start: Some(0), new: || Box::new(Own(S::new())), build: || Box::new(Own(S::builder().f(W(9)).build().unwrap())) }
    }
}
pub mod m3 {
    use super::*;
    #[fxstruct(builder)]
    #[derive(Clone, Debug, PartialEq)]
    pub struct S { #[fieldx(inner_mut, get(copy), get_mut, set)] f: u32, #[fieldx(inner_mut, default(3), get, get_mut, set, builder(off))] g: u32 }
    struct Own(S);
    #[allow(unused_mut)]
    impl Subject for Own {
        fn get(&self) -> Option<u32> { Some(self.0.f()) }
        fn excl(&self) -> Writing<'_> { let mut g = self.0.f_mut(); Box::new(move |x| { if let Some(x) = x { *g = x.unwrap() } Some((*g)) }) }
        fn set(&self, n: u32) -> Option<u32> { Some(self.0.set_f(n)) }
        fn other(&self, n: u32) -> Option<u32> { let a = *self.0.g(); *self.0.g_mut() = a + n; self.0.set_g(a); Some(*self.0.g()) }
        fn debug(&self) -> bool { !format!("{:?}", self.0).is_empty() }
        fn dup(&self) -> Option<u32> { let o = Own(self.0.clone()); let a = o.get(); o.set(77); a }
        fn eq(&self, n: Option<u32>) -> bool { let o = Own(S::new()); *o.0.f_mut() = n.unwrap(); self.0 == o.0 }
    }
    pub fn case() -> Case {
        Case { name: "3", text: r#"#[fxstruct(builder)] struct S { #[fieldx(inner_mut, get(copy), get_mut, set)] f: u32 }"#, ops: vec![Excl, Set, Get, Once, Other, Debug, Dup, Eq], start: Some(0), new: || Box::new(Own(S::new())), build: || Box::new(Own(S::builder().f(9).build().unwrap())) }
    }
}
pub mod m4 {
    use super::*;
    #[fxstruct(builder)]
    #[derive(Clone, Debug, PartialEq)]
    pub struct S { #[fieldx(inner_mut, get(copy), get_mut, set(into))] f: u32, #[fieldx(inner_mut, default(3), get, get_mut, set, builder(off))] g: u32 }
    struct Own(S);
    #[allow(unused_mut)]
    impl Subject for Own {
        fn get(&self) -> Option<u32> { Some(self.0.f()) }
        fn excl(&self) -> Writing<'_> { let mut g = self.0.f_mut(); Box::new(move |x| { if let Some(x) = x { *g = x.unwrap() } Some((*g)) }) }
        fn set(&self, n: u32) -> Option<u32> { Some(self.0.set_f(Small(n as u8))) }
        fn other(&self, n: u32) -> Option<u32> { let a = *self.0.g(); *self.0.g_mut() = a + n; self.0.set_g(a); Some(*self.0.g()) }
        fn debug(&self) -> bool { !format!("{:?}", self.0).is_empty() }
        fn dup(&self) -> Option<u32> { let o = Own(self.0.clone()); let a = o.get(); o.set(77); a }
        fn eq(&self, n: Option<u32>) -> bool { let o = Own(S::new()); *o.0.f_mut() = n.unwrap(); self.0 == o.0 }
    }
    pub fn case() -> Case {
        Case { name: "4", text: r#"#[fxstruct(builder)] struct S { #[fieldx(inner_mut, get(copy), get_mut, set(into))] f: u32 }"#, ops: vec![Excl, Set, Get, Once, Other, Debug, Dup, Eq], start: Some(0), new: || Box::new(Own(S::new())), build: || Box::new(Own(S::builder().f(9).build().unwrap())) }
    }
}
pub mod m5 {
    use super::*;
    #[fxstruct(builder)]
    #[derive(Clone, Debug, PartialEq)]
    pub struct S { #[fieldx(inner_mut, default(fiveW()), get, get_mut, set)] f: W, #[fieldx(inner_mut, default(3), get, get_mut, set, builder(off))] g: u32 }
    struct Own(S);
    #[allow(unused_mut)]
    impl Subject for Own {
        fn shared(&self) -> Reading<'_> { let g = self.0.f(); Box::new(move || Some((*g).0)) }
        fn get(&self) -> Option<u32> { let g = self.0.f(); Some((*g).0) }
        fn excl(&self) -> Writing<'_> { let mut g = self.0.f_mut(); Box::new(move |x| { if let Some(x) = x { *g = W(x.unwrap()) } Some((*g).0) }) }
        fn set(&self, n: u32) -> Option<u32> { Some(self.0.set_f(W(n)).0) }
        fn other(&self, n: u32) -> Option<u32> { let a = *self.0.g(); *self.0.g_mut() = a + n; self.0.set_g(a); Some(*self.0.g()) }
        fn debug(&self) -> bool { !format!("{:?}", self.0).is_empty() }
        fn dup(&self) -> Option<u32> { let o = Own(self.0.clone()); let a = o.get(); o.set(77); a }
        fn eq(&self, n: Option<u32>) -> bool { let o = Own(S::new()); *o.0.f_mut() = W(n.unwrap()); self.0 == o.0 }
    }
    pub fn case() -> Case {
        Case { name: "5", text: r#"#[fxstruct(builder)] struct S { #[fieldx(inner_mut, default(fiveW()), get, get_mut, set)] f: W }"#, ops: vec![Excl, Set, Get, Once, Other, Debug, Shared, Dup, Eq], start: Some(5), new: || Box::new(Own(S::new())), build: || Box::new(Own(S::builder().f(W(9)).build().unwrap())) }
    }
}
pub mod m6 {
    use super::*;
    #[fxstruct(builder)]
    #[derive(Clone, Debug, PartialEq)]
    pub struct S { #[fieldx(inner_mut, default(fiveW()), get, get_mut, set(into))] f: W, #[fieldx(inner_mut, default(3), get, get_mut, set, builder(off))] g: u32 }
    struct Own(S);
    #[allow(unused_mut)]
    impl Subject for Own {
        fn shared(&self) -> Reading<'_> { let g = self.0.f(); Box::new(move || Some((*g).0)) }
        fn get(&self) -> Option<u32> { let g = self.0.f(); Some((*g).0) }
        fn excl(&self) -> Writing<'_> { let mut g = self.0.f_mut(); Box::new(move |x| { if let Some(x) = x { *g = W(x.unwrap()) } Some((*g).0) }) }
        fn set(&self, n: u32) -> Option<u32> { Some(self.0.set_f(Raw(n)).0) }
        fn other(&self, n: u32) -> Option<u32> { let a = *self.0.g(); *self.0.g_mut() = a + n; self.0.set_g(a); Some(*self.0.g()) }
        fn debug(&self) -> bool { !format!("{:?}", self.0).is_empty() }
        fn dup(&self) -> Option<u32> { let o = Own(self.0.clone()); let a = o.get(); o.set(77); a }
        fn eq(&self, n: Option<u32>) -> bool { let o = Own(S::new()); *o.0.f_mut() = W(n.unwrap()); self.0 == o.0 }
    }
    pub fn case() -> Case {
        Case { name: "6", text: r#"#[fxstruct(builder)] struct S { #[fieldx(inner_mut, default(fiveW()), get, get_mut, set(into))] f: W }"#, ops: vec![Excl, Set, Get, Once, Other, Debug, Shared, Dup, Eq], start: Some(5), new: || Box::new(Own(S::new())), build: || Box::new(Own(S::builder().f(W(9)).build().unwrap())) }
    }
}
pub mod m7 {
    use super::*;
    #[fxstruct(builder)]
    #[derive(Clone, Debug, PartialEq)]
    pub struct S { #[fieldx(inner_mut, default(fiveW()), get(clone), get_mut, set(into))] f: W, #[fieldx(inner_mut, default(3), get, get_mut, set, builder(off))] g: u32 }
    struct Own(S);
    #[allow(unused_mut)]
    impl Subject for Own {
        fn get(&self) -> Option<u32> { Some(self.0.f().0) }
        fn excl(&self) -> Writing<'_> { let mut g = self.0.f_mut(); Box::new(move |x| { if let Some(x) = x { *g = W(x.unwrap()) } Some((*g).0) }) }
        fn set(&self, n: u32) -> Option<u32> { Some(self.0.set_f(Raw(n)).0) }
        fn other(&self, n: u32) -> Option<u32> { let a = *self.0.g(); *self.0.g_mut() = a + n; self.0.set_g(a); Some(*self.0.g()) }
        fn debug(&self) -> bool { !format!("{:?}", self.0).is_empty() }
        fn dup(&self) -> Option<u32> { let o = Own(self.0.clone()); let a = o.get(); o.set(77); a }
        fn eq(&self, n: Option<u32>) -> bool { let o = Own(S::new()); *o.0.f_mut() = W(n.unwrap()); self.0 == o.0 }
    }
    pub fn case() -> Case {
        Case { name: "7", text: r#"#[fxstruct(builder)] struct S { #[fieldx(inner_mut, default(fiveW()), get(clone), get_mut, set(into))] f: W }"#, ops: vec![Excl, Set, Get, Once, Other, Debug, Dup, Eq], start: Some(5), new: || Box::new(Own(S::new())), build: || Box::new(Own(S::builder().f(W(9)).build().unwrap())) }
    }
}
pub mod m8 {
    use super::*;
    #[fxstruct(builder)]
    #[derive(Clone, Debug, PartialEq)]
    pub struct S { #[fieldx(inner_mut, default(fiveu32()), get(copy), get_mut, set)] f: u32, #[fieldx(inner_mut, default(3), get, get_mut, set, builder(off))] g: u32 }
    struct Own(S);
    #[allow(unused_mut)]
    impl Subject for Own {
        fn get(&self) -> Option<u32> { Some(self.0.f()) }
        fn excl(&self) -> Writing<'_> { let mut g = self.0.f_mut(); Box::new(move |x| { if let Some(x) = x { *g = x.unwrap() } Some((*g)) }) }
        fn set(&self, n: u32) -> Option<u32> { Some(self.0.set_f(n)) }
        fn other(&self, n: u32) -> Option<u32> { let a = *self.0.g(); *self.0.g_mut() = a + n; self.0.set_g(a); Some(*self.0.g()) }
        fn debug(&self) -> bool { !format!("{:?}", self.0).is_empty() }
        fn dup(&self) -> Option<u32> { let o = Own(self.0.clone()); let a = o.get(); o.set(77); a }
        fn eq(&self, n: Option<u32>) -> bool { let o = Own(S::new()); *o.0.f_mut() = n.unwrap(); self.0 == o.0 }
    }
    pub fn case() -> Case {
        Case { name: "8", text: r#"#[fxstruct(builder)] struct S { #[fieldx(inner_mut, default(fiveu32()), get(copy), get_mut, set)] f: u32 }"#, ops: vec![Excl, Set, Get, Once, Other, Debug, Dup, Eq], start: Some(5), new: || Box::new(Own(S::new())), build: || Box::new(Own(S::builder().f(9).build().unwrap())) }
    }
}
pub mod m9 {
    use super::*;
    #[fxstruct(builder)]
    #[derive(Clone, Debug, PartialEq)]
    pub struct S { #[fieldx(inner_mut, default(fiveu32()), get(copy), get_mut, set(into))] f: u32, #[fieldx(inner_mut, default(3), get, get_mut, set, builder(off))] g: u32 }
    struct Own(S);
    #[allow(unused_mut)]
    impl Subject for Own {
        fn get(&self) -> Option<u32> { Some(self.0.f()) }
        fn excl(&self) -> Writing<'_> { let mut g = self.0.f_mut(); Box::new(move |x| { if let Some(x) = x { *g = x.unwrap() } Some((*g)) }) }
        fn set(&self, n: u32) -> Option<u32> { Some(self.0.set_f(Small(n as u8))) }
        fn other(&self, n: u32) -> Option<u32> { let a = *self.0.g(); *self.0.g_mut() = a + n; self.0.set_g(a); Some(*self.0.g()) }
        fn debug(&self) -> bool { !format!("{:?}", self.0).is_empty() }
        fn dup(&self) -> Option<u32> { let o = Own(self.0.clone()); let a = o.get(); o.set(77); a }
        fn eq(&self, n: Option<u32>) -> bool { let o = Own(S::new()); *o.0.f_mut() = n.unwrap(); self.0 == o.0 }
    }
    pub fn case() -> Case {
        Case { name: "9", text: r#"#[fxstruct(builder)] struct S { #[fieldx(inner_mut, default(fiveu32()), get(copy), get_mut, set(into))] f: u32 }"#, ops: vec![Excl, Set, Get, Once, Other, Debug, Dup, Eq], start: Some(5), new: || Box::new(Own(S::new())), build: || Box::new(Own(S::builder().f(9).build().unwrap())) }
    }
}
pub mod m10 {
    use super::*;
    #[fxstruct(builder)]
    #[derive(Clone, Debug, PartialEq)]
    pub struct S { #[fieldx(inner_mut, optional, clearer, predicate, get, get_mut, set)] f: W, #[fieldx(inner_mut, default(3), get, get_mut, set, builder(off))] g: u32 }
    struct Own(S);
    #[allow(unused_mut)]
    impl Subject for Own {
        fn shared(&self) -> Reading<'_> { let g = self.0.f(); Box::new(move || (*g).as_ref().map(|x| x.0)) }
        fn get(&self) -> Option<u32> { let g = self.0.f(); (*g).as_ref().map(|x| x.0) }
        fn excl(&self) -> Writing<'_> { let mut g = self.0.f_mut(); Box::new(move |x| { if let Some(x) = x { *g = x.map(|x| W(x)) } (*g).as_ref().map(|x| x.0) }) }
        fn set(&self, n: u32) -> Option<u32> { self.0.set_f(W(n)).map(|x| x.0) }
        fn clear(&self) -> Option<u32> { self.0.clear_f().map(|x| x.0) }
        fn has(&self) -> bool { self.0.has_f() }
        fn other(&self, n: u32) -> Option<u32> { let a = *self.0.g(); *self.0.g_mut() = a + n; self.0.set_g(a); Some(*self.0.g()) }
        fn debug(&self) -> bool { !format!("{:?}", self.0).is_empty() }
        fn dup(&self) -> Option<u32> { let o = Own(self.0.clone()); let a = o.get(); o.set(77); a }
        fn eq(&self, n: Option<u32>) -> bool { let o = Own(S::new()); *o.0.f_mut() = n.map(|n| W(n)); self.0 == o.0 }
    }
    pub fn case() -> Case {
        Case { name: "10", text: r#"#[fxstruct(builder)] struct S { #[fieldx(inner_mut, optional, clearer, predicate, get, get_mut, set)] f: W }"#, ops: vec![Excl, Set, Get, Once, Other, Debug, Shared, Take, Clear, Has, Dup, Eq], start: None, new: || Box::new(Own(S::new())), build: || Box::new(Own(S::builder().f(W(9)).build().unwrap())) }
    }
}
pub mod m11 {
    use super::*;
    #[fxstruct(builder)]
    #[derive(Clone, Debug, PartialEq)]
    pub struct S { #[fieldx(inner_mut, optional, clearer, predicate, get, get_mut, set(into))] f: W, #[fieldx(inner_mut, default(3), get, get_mut, set, builder(off))] g: u32 }
    struct Own(S);
    #[allow(unused_mut)]
    impl Subject for Own {
        fn shared(&self) -> Reading<'_> { let g = self.0.f(); Box::new(move || (*g).as_ref().map(|x| x.0)) }
        fn get(&self) -> Option<u32> { let g = self.0.f(); (*g).as_ref().map(|x| x.0) }
        fn excl(&self) -> Writing<'_> { let mut g = self.0.f_mut(); Box::new(move |x| { if let Some(x) = x { *g = x.map(|x| W(x)) } (*g).as_ref().map(|x| x.0) }) }
        fn set(&self, n: u32) -> Option<u32> { self.0.set_f(Raw(n)).map(|x| x.0) }
        fn clear(&self) -> Option<u32> { self.0.clear_f().map(|x| x.0) }
        fn has(&self) -> bool { self.0.has_f() }
        fn other(&self, n: u32) -> Option<u32> { let a = *self.0.g(); *self.0.g_mut() = a + n; self.0.set_g(a); Some(*self.0.g()) }
        fn debug(&self) -> bool { !format!("{:?}", self.0).is_empty() }
        fn dup(&self) -> Option<u32> { let o = Own(self.0.clone()); let a = o.get(); o.set(77); a }
        fn eq(&self, n: Option<u32>) -> bool { let o = Own(S::new()); *o.0.f_mut() = n.map(|n| W(n)); self.0 == o.0 }
    }
    pub fn case() -> Case {
        Case { name: "11", text: r#"#[fxstruct(builder)] struct S { #[fieldx(inner_mut, optional, clearer, predicate, get, get_mut, set(into))] f: W }"#, ops: vec![Excl, Set, Get, Once, Other, Debug, Shared, Take, Clear, Has, Dup, Eq], start: None, new: || Box::new(Own(S::new())), build: || Box::new(Own(S::builder().f(W(9)).build().unwrap())) }
    }
}
pub mod m12 {
    use super::*;
    #[fxstruct(builder)]
    #[derive(Clone, Debug, PartialEq)]
    pub struct S { #[fieldx(inner_mut, optional, clearer, predicate, get(clone), get_mut, set(into))] f: W, #[fieldx(inner_mut, default(3), get, get_mut, set, builder(off))] g: u32 }
    struct Own(S);
    #[allow(unused_mut)]
    impl Subject for Own {
        fn get(&self) -> Option<u32> { self.0.f().map(|x| x.0) }
        fn excl(&self) -> Writing<'_> { let mut g = self.0.f_mut(); Box::new(move |x| { if let Some(x) = x { *g = x.map(|x| W(x)) } (*g).as_ref().map(|x| x.0) }) }
        fn set(&self, n: u32) -> Option<u32> { self.0.set_f(Raw(n)).map(|x| x.0) }
        fn clear(&self) -> Option<u32> { self.0.clear_f().map(|x| x.0) }
        fn has(&self) -> bool { self.0.has_f() }
        fn other(&self, n: u32) -> Option<u32> { let a = *self.0.g(); *self.0.g_mut() = a + n; self.0.set_g(a); Some(*self.0.g()) }
        fn debug(&self) -> bool { !format!("{:?}", self.0).is_empty() }
        fn dup(&self) -> Option<u32> { let o = Own(self.0.clone()); let a = o.get(); o.set(77); a }
        fn eq(&self, n: Option<u32>) -> bool { let o = Own(S::new()); *o.0.f_mut() = n.map(|n| W(n)); self.0 == o.0 }
    }
    pub fn case() -> Case {
        Case { name: "12", text: r#"#[fxstruct(builder)] struct S { #[fieldx(inner_mut, optional, clearer, predicate, get(clone), get_mut, set(into))] f: W }"#, ops: vec![Excl, Set, Get, Once, Other, Debug, Take, Clear, Has, Dup, Eq], start: None, new: || Box::new(Own(S::new())), build: || Box::new(Own(S::builder().f(W(9)).build().unwrap())) }
    }
}
pub mod m13 {
    use super::*;
    #[fxstruct(builder)]
    #[derive(Clone, Debug, PartialEq)]
    pub struct S { #[fieldx(inner_mut, optional, clearer, predicate, get(copy), get_mut, set)] f: u32, #[fieldx(inner_mut, default(3), get, get_mut, set, builder(off))] g: u32 }
    struct Own(S);
    #[allow(unused_mut)]
    impl Subject for Own {
        fn get(&self) -> Option<u32> { self.0.f().map(|x| x) }
        fn excl(&self) -> Writing<'_> { let mut g = self.0.f_mut(); Box::new(move |x| { if let Some(x) = x { *g = x.map(|x| x) } (*g).as_ref().map(|x| (*x)) }) }
        fn set(&self, n: u32) -> Option<u32> { self.0.set_f(n).map(|x| x) }
        fn clear(&self) -> Option<u32> { self.0.clear_f().map(|x| x) }
        fn has(&self) -> bool { self.0.has_f() }
        fn other(&self, n: u32) -> Option<u32> { let a = *self.0.g(); *self.0.g_mut() = a + n; self.0.set_g(a); Some(*self.0.g()) }
        fn debug(&self) -> bool { !format!("{:?}", self.0).is_empty() }
        fn dup(&self) -> Option<u32> { let o = Own(self.0.clone()); let a = o.get(); o.set(77); a }
        fn eq(&self, n: Option<u32>) -> bool { let o = Own(S::new()); *o.0.f_mut() = n.map(|n| n); self.0 == o.0 }
    }
    pub fn case() -> Case {
        Case { name: "13", text: r#"#[fxstruct(builder)] struct S { #[fieldx(inner_mut, optional, clearer, predicate, get(copy), get_mut, set)] f: u32 }"#, ops: vec![Excl, Set, Get, Once, Other, Debug, Take, Clear, Has, Dup, Eq], start: None, new: || Box::new(Own(S::new())), build: || Box::new(Own(S::builder().f(9).build().unwrap())) }
    }
}
pub mod m14 {
    use super::*;
    #[fxstruct(builder)]
    #[derive(Clone, Debug, PartialEq)]
    pub struct S { #[fieldx(inner_mut, optional, clearer, predicate, get(copy), get_mut, set(into))] f: u32, #[fieldx(inner_mut, default(3), get, get_mut, set, builder(off))] g: u32 }
    struct Own(S);
    #[allow(unused_mut)]
    impl Subject for Own {
        fn get(&self) -> Option<u32> { self.0.f().map(|x| x) }
        fn excl(&self) -> Writing<'_> { let mut g = self.0.f_mut(); Box::new(move |x| { if let Some(x) = x { *g = x.map(|x| x) } (*g).as_ref().map(|x| (*x)) }) }
        fn set(&self, n: u32) -> Option<u32> { self.0.set_f(Small(n as u8)).map(|x| x) }
        fn clear(&self) -> Option<u32> { self.0.clear_f().map(|x| x) }
        fn has(&self) -> bool { self.0.has_f() }
        fn other(&self, n: u32) -> Option<u32> { let a = *self.0.g(); *self.0.g_mut() = a + n; self.0.set_g(a); Some(*self.0.g()) }
        fn debug(&self) -> bool { !format!("{:?}", self.0).is_empty() }
        fn dup(&self) -> Option<u32> { let o = Own(self.0.clone()); let a = o.get(); o.set(77); a }
        fn eq(&self, n: Option<u32>) -> bool { let o = Own(S::new()); *o.0.f_mut() = n.map(|n| n); self.0 == o.0 }
    }
    pub fn case() -> Case {
        Case { name: "14", text: r#"#[fxstruct(builder)] struct S { #[fieldx(inner_mut, optional, clearer, predicate, get(copy), get_mut, set(into))] f: u32 }"#, ops: vec![Excl, Set, Get, Once, Other, Debug, Take, Clear, Has, Dup, Eq], start: None, new: || Box::new(Own(S::new())), build: || Box::new(Own(S::builder().f(9).build().unwrap())) }
    }
}
pub mod m15 {
    use super::*;
    #[fxstruct(builder)]
    #[derive(Clone, Debug, PartialEq)]
    pub struct S { #[fieldx(inner_mut, optional, clearer, predicate, default(fiveW()), get, get_mut, set)] f: W, #[fieldx(inner_mut, default(3), get, get_mut, set, builder(off))] g: u32 }
    struct Own(S);
    #[allow(unused_mut)]
    impl Subject for Own {
        fn shared(&self) -> Reading<'_> { let g = self.0.f(); Box::new(move || (*g).as_ref().map(|x| x.0)) }
        fn get(&self) -> Option<u32> { let g = self.0.f(); (*g).as_ref().map(|x| x.0) }
        fn excl(&self) -> Writing<'_> { let mut g = self.0.f_mut(); Box::new(move |x| { if let Some(x) = x { *g = x.map(|x| W(x)) } (*g).as_ref().map(|x| x.0) }) }
        fn set(&self, n: u32) -> Option<u32> { self.0.set_f(W(n)).map(|x| x.0) }
        fn clear(&self) -> Option<u32> { self.0.clear_f().map(|x| x.0) }
        fn has(&self) -> bool { self.0.has_f() }
        fn other(&self, n: u32) -> Option<u32> { let a = *self.0.g(); *self.0.g_mut() = a + n; self.0.set_g(a); Some(*self.0.g()) }
        fn debug(&self) -> bool { !format!("{:?}", self.0).is_empty() }
        fn dup(&self) -> Option<u32> { let o = Own(self.0.clone()); let a = o.get(); o.set(77); a }
        fn eq(&self, n: Option<u32>) -> bool { let o = Own(S::new()); *o.0.f_mut() = n.map(|n| W(n)); self.0 == o.0 }
    }
    pub fn case() -> Case {
        Case { name: "15", text: r#"#[fxstruct(builder)] struct S { #[fieldx(inner_mut, optional, clearer, predicate, default(fiveW()), get, get_mut, set)] f: W }"#, ops: vec![Excl, Set, Get, Once, Other, Debug, Shared, Take, Clear, Has, Dup, Eq], start: Some(5), new: || Box::new(Own(S::new())), build: || Box::new(Own(S::builder().f(W(9)).build().unwrap())) }
    }
}
pub mod m16 {
    use super::*;
    #[fxstruct(builder)]
    #[derive(Clone, Debug, PartialEq)]
    pub struct S { #[fieldx(inner_mut, optional, clearer, predicate, default(fiveW()), get, get_mut, set(into))] f: W, #[fieldx(inner_mut, default(3), get, get_mut, set, builder(off))] g: u32 }
    struct Own(S);
    #[allow(unused_mut)]
    impl Subject for Own {
        fn shared(&self) -> Reading<'_> { let g = self.0.f(); Box::new(move || (*g).as_ref().map(|x| x.0)) }
        fn get(&self) -> Option<u32> { let g = self.0.f(); (*g).as_ref().map(|x| x.0) }
        fn excl(&self) -> Writing<'_> { let mut g = self.0.f_mut(); Box::new(move |x| { if let Some(x) = x { *g = x.map(|x| W(x)) } (*g).as_ref().map(|x| x.0) }) }
        fn set(&self, n: u32) -> Option<u32> { self.0.set_f(Raw(n)).map(|x| x.0) }
        fn clear(&self) -> Option<u32> { self.0.clear_f().map(|x| x.0) }
        fn has(&self) -> bool { self.0.has_f() }
        fn other(&self, n: u32) -> Option<u32> { let a = *self.0.g(); *self.0.g_mut() = a + n; self.0.set_g(a); Some(*self.0.g()) }
        fn debug(&self) -> bool { !format!("{:?}", self.0).is_empty() }
        fn dup(&self) -> Option<u32> { let o = Own(self.0.clone()); let a = o.get(); o.set(77); a }
        fn eq(&self, n: Option<u32>) -> bool { let o = Own(S::new()); *o.0.f_mut() = n.map(|n| W(n)); self.0 == o.0 }
    }
    pub fn case() -> Case {
        Case { name: "16", text: r#"#[fxstruct(builder)] struct S { #[fieldx(inner_mut, optional, clearer, predicate, default(fiveW()), get, get_mut, set(into))] f: W }"#, ops: vec![Excl, Set, Get, Once, Other, Debug, Shared, Take, Clear, Has, Dup, Eq], start: Some(5), new: || Box::new(Own(S::new())), build: || Box::new(Own(S::builder().f(W(9)).build().unwrap())) }
    }
}
pub mod m17 {
    use super::*;
    #[fxstruct(builder)]
    #[derive(Clone, Debug, PartialEq)]
    pub struct S { #[fieldx(inner_mut, optional, clearer, predicate, default(fiveW()), get(clone), get_mut, set(into))] f: W, #[fieldx(inner_mut, default(3), get, get_mut, set, builder(off))] g: u32 }
    struct Own(S);
    #[allow(unused_mut)]
    impl Subject for Own {
        fn get(&self) -> Option<u32> { self.0.f().map(|x| x.0) }
        fn excl(&self) -> Writing<'_> { let mut g = self.0.f_mut(); Box::new(move |x| { if let Some(x) = x { *g = x.map(|x| W(x)) } (*g).as_ref().map(|x| x.0) }) }
        fn set(&self, n: u32) -> Option<u32> { self.0.set_f(Raw(n)).map(|x| x.0) }
        fn clear(&self) -> Option<u32> { self.0.clear_f().map(|x| x.0) }
        fn has(&self) -> bool { self.0.has_f() }
        fn other(&self, n: u32) -> Option<u32> { let a = *self.0.g(); *self.0.g_mut() = a + n; self.0.set_g(a); Some(*self.0.g()) }
        fn debug(&self) -> bool { !format!("{:?}", self.0).is_empty() }
        fn dup(&self) -> Option<u32> { let o = Own(self.0.clone()); let a = o.get(); o.set(77); a }
        fn eq(&self, n: Option<u32>) -> bool { let o = Own(S::new()); *o.0.f_mut() = n.map(|n| W(n)); self.0 == o.0 }
    }
    pub fn case() -> Case {
        Case { name: "17", text: r#"#[fxstruct(builder)] struct S { #[fieldx(inner_mut, optional, clearer, predicate, default(fiveW()), get(clone), get_mut, set(into))] f: W }"#, ops: vec![Excl, Set, Get, Once, Other, Debug, Take, Clear, Has, Dup, Eq], start: Some(5), new: || Box::new(Own(S::new())), build: || Box::new(Own(S::builder().f(W(9)).build().unwrap())) }
    }
}
pub mod m18 {
    use super::*;
    #[fxstruct(builder)]
    #[derive(Clone, Debug, PartialEq)]
    pub struct S { #[fieldx(inner_mut, optional, clearer, predicate, default(fiveu32()), get(copy), get_mut, set)] f: u32, #[fieldx(inner_mut, default(3), get, get_mut, set, builder(off))] g: u32 }
    struct Own(S);
    #[allow(unused_mut)]
    impl Subject for Own {
        fn get(&self) -> Option<u32> { self.0.f().map(|x| x) }
        fn excl(&self) -> Writing<'_> { let mut g = self.0.f_mut(); Box::new(move |x| { if let Some(x) = x { *g = x.map(|x| x) } (*g).as_ref().map(|x| (*x)) }) }
        fn set(&self, n: u32) -> Option<u32> { self.0.set_f(n).map(|x| x) }
        fn clear(&self) -> Option<u32> { self.0.clear_f().map(|x| x) }
        fn has(&self) -> bool { self.0.has_f() }
        fn other(&self, n: u32) -> Option<u32> { let a = *self.0.g(); *self.0.g_mut() = a + n; self.0.set_g(a); Some(*self.0.g()) }
        fn debug(&self) -> bool { !format!("{:?}", self.0).is_empty() }
        fn dup(&self) -> Option<u32> { let o = Own(self.0.clone()); let a = o.get(); o.set(77); a }
        fn eq(&self, n: Option<u32>) -> bool { let o = Own(S::new()); *o.0.f_mut() = n.map(|n| n); self.0 == o.0 }
    }
    pub fn case() -> Case {
        Case { name: "18", text: r#"#[fxstruct(builder)] struct S { #[fieldx(inner_mut, optional, clearer, predicate, default(fiveu32()), get(copy), get_mut, set)] f: u32 }"#, ops: vec![Excl, Set, Get, Once, Other, Debug, Take, Clear, Has, Dup, Eq], start: Some(5), new: || Box::new(Own(S::new())), build: || Box::new(Own(S::builder().f(9).build().unwrap())) }
    }
}
pub mod m19 {
    use super::*;
    #[fxstruct(builder)]
    #[derive(Clone, Debug, PartialEq)]
    pub struct S { #[fieldx(inner_mut, optional, clearer, predicate, default(fiveu32()), get(copy), get_mut, set(into))] f: u32, #[fieldx(inner_mut, default(3), get, get_mut, set, builder(off))] g: u32 }
    struct Own(S);
    #[allow(unused_mut)]
    impl Subject for Own {
        fn get(&self) -> Option<u32> { self.0.f().map(|x| x) }
        fn excl(&self) -> Writing<'_> { let mut g = self.0.f_mut(); Box::new(move |x| { if let Some(x) = x { *g = x.map(|x| x) } (*g).as_ref().map(|x| (*x)) }) }
        fn set(&self, n: u32) -> Option<u32> { self.0.set_f(Small(n as u8)).map(|x| x) }
        fn clear(&self) -> Option<u32> { self.0.clear_f().map(|x| x) }
        fn has(&self) -> bool { self.0.has_f() }
        fn other(&self, n: u32) -> Option<u32> { let a = *self.0.g(); *self.0.g_mut() = a + n; self.0.set_g(a); Some(*self.0.g()) }
        fn debug(&self) -> bool { !format!("{:?}", self.0).is_empty() }
        fn dup(&self) -> Option<u32> { let o = Own(self.0.clone()); let a = o.get(); o.set(77); a }
        fn eq(&self, n: Option<u32>) -> bool { let o = Own(S::new()); *o.0.f_mut() = n.map(|n| n); self.0 == o.0 }
    }
    pub fn case() -> Case {
        Case { name: "19", text: r#"#[fxstruct(builder)] struct S { #[fieldx(inner_mut, optional, clearer, predicate, default(fiveu32()), get(copy), get_mut, set(into))] f: u32 }"#, ops: vec![Excl, Set, Get, Once, Other, Debug, Take, Clear, Has, Dup, Eq], start: Some(5), new: || Box::new(Own(S::new())), build: || Box::new(Own(S::builder().f(9).build().unwrap())) }
    }
}
pub mod m20 {
    use super::*;
    #[fxstruct(rc, builder)]
    #[derive(Debug)]
    pub struct S { #[fieldx(inner_mut, get, get_mut, set)] f: W, #[fieldx(inner_mut, default(3), get, get_mut, set, builder(off))] g: u32 }
    struct Own(Rc<S>);
    #[allow(unused_mut)]
    impl Subject for Own {
        fn shared(&self) -> Reading<'_> { let g = self.0.f(); Box::new(move || Some((*g).0)) }
        fn get(&self) -> Option<u32> { let g = self.0.f(); Some((*g).0) }
        fn excl(&self) -> Writing<'_> { let mut g = self.0.f_mut(); Box::new(move |x| { if let Some(x) = x { *g = W(x.unwrap()) } Some((*g).0) }) }
        fn set(&self, n: u32) -> Option<u32> { Some(self.0.set_f(W(n)).0) }
        fn other(&self, n: u32) -> Option<u32> { let a = *self.0.g(); *self.0.g_mut() = a + n; self.0.set_g(a); Some(*self.0.g()) }
        fn debug(&self) -> bool { !format!("{:?}", self.0).is_empty() }
        fn dup(&self) -> Option<u32> { let o = Own(self.0.myself().unwrap()); o.get() }
    }
    pub fn case() -> Case {
        Case { name: "20", text: r#"#[fxstruct(rc, builder)] struct S { #[fieldx(inner_mut, get, get_mut, set)] f: W }"#, ops: vec![Excl, Set, Get, Once, Other, Debug, Shared, Dup], start: Some(0), new: || Box::new(Own(S::new())), build: || Box::new(Own(S::builder().f(W(9)).build().unwrap())) }
    }
}
pub mod m21 {
    use super::*;
    #[fxstruct(rc, builder)]
    #[derive(Debug)]
    pub struct S { #[fieldx(inner_mut, get, get_mut, set(into))] f: W, #[fieldx(inner_mut, default(3), get, get_mut, set, builder(off))] g: u32 }
    struct Own(Rc<S>);
    #[allow(unused_mut)]
    impl Subject for Own {
        fn shared(&self) -> Reading<'_> { let g = self.0.f(); Box::new(move || Some((*g).0)) }
        fn get(&self) -> Option<u32> { let g = self.0.f(); Some((*g).0) }
        fn excl(&self) -> Writing<'_> { let mut g = self.0.f_mut(); Box::new(move |x| { if let Some(x) = x { *g = W(x.unwrap()) } Some((*g).0) }) }
        fn set(&self, n: u32) -> Option<u32> { Some(self.0.set_f(Raw(n)).0) }
        fn other(&self, n: u32) -> Option<u32> { let a = *self.0.g(); *self.0.g_mut() = a + n; self.0.set_g(a); Some(*self.0.g()) }
        fn debug(&self) -> bool { !format!("{:?}", self.0).is_empty() }
        fn dup(&self) -> Option<u32> { let o = Own(self.0.myself().unwrap()); o.get() }
    }
    pub fn case() -> Case {
        Case { name: "21", text: r#"#[fxstruct(rc, builder)] struct S { #[fieldx(inner_mut, get, get_mut, set(into))] f: W }"#, ops: vec![Excl, Set, Get, Once, Other, Debug, Shared, Dup], start: Some(0), new: || Box::new(Own(S::new())), build: || Box::new(Own(S::builder().f(W(9)).build().unwrap())) }
    }
}
pub mod m22 {
    use super::*;
    #[fxstruct(rc, builder)]
    #[derive(Debug)]
    pub struct S { #[fieldx(inner_mut, get(clone), get_mut, set(into))] f: W, #[fieldx(inner_mut, default(3), get, get_mut, set, builder(off))] g: u32 }
    struct Own(Rc<S>);
    #[allow(unused_mut)]
    impl Subject for Own {
        fn get(&self) -> Option<u32> { Some(self.0.f().0) }
        fn excl(&self) -> Writing<'_> { let mut g = self.0.f_mut(); Box::new(move |x| { if let Some(x) = x { *g = W(x.unwrap()) } Some((*g).0) }) }
        fn set(&self, n: u32) -> Option<u32> { Some(self.0.set_f(Raw(n)).0) }
        fn other(&self, n: u32) -> Option<u32> { let a = *self.0.g(); *self.0.g_mut() = a + n; self.0.set_g(a); Some(*self.0.g()) }
        fn debug(&self) -> bool { !format!("{:?}", self.0).is_empty() }
        fn dup(&self) -> Option<u32> { let o = Own(self.0.myself().unwrap()); o.get() }
    }
    pub fn case() -> Case {
        Case { name: "22", text: r#"#[fxstruct(rc, builder)] struct S { #[fieldx(inner_mut, get(clone), get_mut, set(into))] f: W }"#, ops: vec![Excl, Set, Get, Once, Other, Debug, Dup], start: Some(0), new: || Box::new(Own(S::new())), build: || Box::new(Own(S::builder().f(W(9)).build().unwrap())) }
    }
}
pub mod m23 {
    use super::*;
    #[fxstruct(rc, builder)]
    #[derive(Debug)]
    pub struct S { #[fieldx(inner_mut, get(copy), get_mut, set)] f: u32, #[fieldx(inner_mut, default(3), get, get_mut, set, builder(off))] g: u32 }
    struct Own(Rc<S>);
    #[allow(unused_mut)]
    impl Subject for Own {
        fn get(&self) -> Option<u32> { Some(self.0.f()) }
        fn excl(&self) -> Writing<'_> { let mut g = self.0.f_mut(); Box::new(move |x| { if let Some(x) = x { *g = x.unwrap() } Some((*g)) }) }
        fn set(&self, n: u32) -> Option<u32> { Some(self.0.set_f(n)) }
        fn other(&self, n: u32) -> Option<u32> { let a = *self.0.g(); *self.0.g_mut() = a + n; self.0.set_g(a); Some(*self.0.g()) }
        fn debug(&self) -> bool { !format!("{:?}", self.0).is_empty() }
        fn dup(&self) -> Option<u32> { let o = Own(self.0.myself().unwrap()); o.get() }
    }
    pub fn case() -> Case {
        Case { name: "23", text: r#"#[fxstruct(rc, builder)] struct S { #[fieldx(inner_mut, get(copy), get_mut, set)] f: u32 }"#, ops: vec![Excl, Set, Get, Once, Other, Debug, Dup], start: Some(0), new: || Box::new(Own(S::new())), build: || Box::new(Own(S::builder().f(9).build().unwrap())) }
    }
}
pub mod m24 {
    use super::*;
    #[fxstruct(rc, builder)]
    #[derive(Debug)]
    pub struct S { #[fieldx(inner_mut, get(copy), get_mut, set(into))] f: u32, #[fieldx(inner_mut, default(3), get, get_mut, set, builder(off))] g: u32 }
    struct Own(Rc<S>);
    #[allow(unused_mut)]
    impl Subject for Own {
        fn get(&self) -> Option<u32> { Some(self.0.f()) }
        fn excl(&self) -> Writing<'_> { let mut g = self.0.f_mut(); Box::new(move |x| { if let Some(x) = x { *g = x.unwrap() } Some((*g)) }) }
        fn set(&self, n: u32) -> Option<u32> { Some(self.0.set_f(Small(n as u8))) }
        fn other(&self, n: u32) -> Option<u32> { let a = *self.0.g(); *self.0.g_mut() = a + n; self.0.set_g(a); Some(*self.0.g()) }
        fn debug(&self) -> bool { !format!("{:?}", self.0).is_empty() }
        fn dup(&self) -> Option<u32> { let o = Own(self.0.myself().unwrap()); o.get() }
    }
    pub fn case() -> Case {
        Case { name: "24", text: r#"#[fxstruct(rc, builder)] struct S { #[fieldx(inner_mut, get(copy), get_mut, set(into))] f: u32 }"#, ops: vec![Excl, Set, Get, Once, Other, Debug, Dup], start: Some(0), new: || Box::new(Own(S::new())), build: || Box::new(Own(S::builder().f(9).build().unwrap())) }
    }
}
pub mod m25 {
    use super::*;
    #[fxstruct(rc, builder)]
    #[derive(Debug)]
    pub struct S { #[fieldx(inner_mut, default(fiveW()), get, get_mut, set)] f: W, #[fieldx(inner_mut, default(3), get, get_mut, set, builder(off))] g: u32 }
    struct Own(Rc<S>);
    #[allow(unused_mut)]
    impl Subject for Own {
        fn shared(&self) -> Reading<'_> { let g = self.0.f(); Box::new(move || Some((*g).0)) }
        fn get(&self) -> Option<u32> { let g = self.0.f(); Some((*g).0) }
        fn excl(&self) -> Writing<'_> { let mut g = self.0.f_mut(); Box::new(move |x| { if let Some(x) = x { *g = W(x.unwrap()) } Some((*g).0) }) }
        fn set(&self, n: u32) -> Option<u32> { Some(self.0.set_f(W(n)).0) }
        fn other(&self, n: u32) -> Option<u32> { let a = *self.0.g(); *self.0.g_mut() = a + n; self.0.set_g(a); Some(*self.0.g()) }
        fn debug(&self) -> bool { !format!("{:?}", self.0).is_empty() }
        fn dup(&self) -> Option<u32> { let o = Own(self.0.myself().unwrap()); o.get() }
    }
    pub fn case() -> Case {
        Case { name: "25", text: r#"#[fxstruct(rc, builder)] struct S { #[fieldx(inner_mut, default(fiveW()), get, get_mut, set)] f: W }"#, ops: vec![Excl, Set, Get, Once, Other, Debug, Shared, Dup], start: Some(5), new: || Box::new(Own(S::new())), build: || Box::new(Own(S::builder().f(W(9)).build().unwrap())) }
    }
}
pub mod m26 {
    use super::*;
    #[fxstruct(rc, builder)]
    #[derive(Debug)]
    pub struct S { #[fieldx(inner_mut, default(fiveW()), get, get_mut, set(into))] f: W, #[fieldx(inner_mut, default(3), get, get_mut, set, builder(off))] g: u32 }
    struct Own(Rc<S>);
    #[allow(unused_mut)]
    impl Subject for Own {
        fn shared(&self) -> Reading<'_> { let g = self.0.f(); Box::new(move || Some((*g).0)) }
        fn get(&self) -> Option<u32> { let g = self.0.f(); Some((*g).0) }
        fn excl(&self) -> Writing<'_> { let mut g = self.0.f_mut(); Box::new(move |x| { if let Some(x) = x { *g = W(x.unwrap()) } Some((*g).0) }) }
        fn set(&self, n: u32) -> Option<u32> { Some(self.0.set_f(Raw(n)).0) }
        fn other(&self, n: u32) -> Option<u32> { let a = *self.0.g(); *self.0.g_mut() = a + n; self.0.set_g(a); Some(*self.0.g()) }
        fn debug(&self) -> bool { !format!("{:?}", self.0).is_empty() }
        fn dup(&self) -> Option<u32> { let o = Own(self.0.myself().unwrap()); o.get() }
    }
    pub fn case() -> Case {
        Case { name: "26", text: r#"#[fxstruct(rc, builder)] struct S { #[fieldx(inner_mut, default(fiveW()), get, get_mut, set(into))] f: W }"#, ops: vec![Excl, Set, Get, Once, Other, Debug, Shared, Dup], start: Some(5), new: || Box::new(Own(S::new())), build: || Box::new(Own(S::builder().f(W(9)).build().unwrap())) }
    }
}
pub mod m27 {
    use super::*;
    #[fxstruct(rc, builder)]
    #[derive(Debug)]
    pub struct S { #[fieldx(inner_mut, default(fiveW()), get(clone), get_mut, set(into))] f: W, #[fieldx(inner_mut, default(3), get, get_mut, set, builder(off))] g: u32 }
    struct Own(Rc<S>);
    #[allow(unused_mut)]
    impl Subject for Own {
        fn get(&self) -> Option<u32> { Some(self.0.f().0) }
        fn excl(&self) -> Writing<'_> { let mut g = self.0.f_mut(); Box::new(move |x| { if let Some(x) = x { *g = W(x.unwrap()) } Some((*g).0) }) }
        fn set(&self, n: u32) -> Option<u32> { Some(self.0.set_f(Raw(n)).0) }
        fn other(&self, n: u32) -> Option<u32> { let a = *self.0.g(); *self.0.g_mut() = a + n; self.0.set_g(a); Some(*self.0.g()) }
        fn debug(&self) -> bool { !format!("{:?}", self.0).is_empty() }
        fn dup(&self) -> Option<u32> { let o = Own(self.0.myself().unwrap()); o.get() }
    }
    pub fn case() -> Case {
        Case { name: "27", text: r#"#[fxstruct(rc, builder)] struct S { #[fieldx(inner_mut, default(fiveW()), get(clone), get_mut, set(into))] f: W }"#, ops: vec![Excl, Set, Get, Once, Other, Debug, Dup], start: Some(5), new: || Box::new(Own(S::new())), build: || Box::new(Own(S::builder().f(W(9)).build().unwrap())) }
    }
}
pub mod m28 {
    use super::*;
    #[fxstruct(rc, builder)]
    #[derive(Debug)]
    pub struct S { #[fieldx(inner_mut, default(fiveu32()), get(copy), get_mut, set)] f: u32, #[fieldx(inner_mut, default(3), get, get_mut, set, builder(off))] g: u32 }
    struct Own(Rc<S>);
    #[allow(unused_mut)]
    impl Subject for Own {
        fn get(&self) -> Option<u32> { Some(self.0.f()) }
        fn excl(&self) -> Writing<'_> { let mut g = self.0.f_mut(); Box::new(move |x| { if let Some(x) = x { *g = x.unwrap() } Some((*g)) }) }
        fn set(&self, n: u32) -> Option<u32> { Some(self.0.set_f(n)) }
        fn other(&self, n: u32) -> Option<u32> { let a = *self.0.g(); *self.0.g_mut() = a + n; self.0.set_g(a); Some(*self.0.g()) }
        fn debug(&self) -> bool { !format!("{:?}", self.0).is_empty() }
        fn dup(&self) -> Option<u32> { let o = Own(self.0.myself().unwrap()); o.get() }
    }
    pub fn case() -> Case {
        Case { name: "28", text: r#"#[fxstruct(rc, builder)] struct S { #[fieldx(inner_mut, default(fiveu32()), get(copy), get_mut, set)] f: u32 }"#, ops: vec![Excl, Set, Get, Once, Other, Debug, Dup], start: Some(5), new: || Box::new(Own(S::new())), build: || Box::new(Own(S::builder().f(9).build().unwrap())) }
    }
}
pub mod m29 {
    use super::*;
    #[fxstruct(rc, builder)]
    #[derive(Debug)]
    pub struct S { #[fieldx(inner_mut, default(fiveu32()), get(copy), get_mut, set(into))] f: u32, #[fieldx(inner_mut, default(3), get, get_mut, set, builder(off))] g: u32 }
    struct Own(Rc<S>);
    #[allow(unused_mut)]
    impl Subject for Own {
        fn get(&self) -> Option<u32> { Some(self.0.f()) }
        fn excl(&self) -> Writing<'_> { let mut g = self.0.f_mut(); Box::new(move |x| { if let Some(x) = x { *g = x.unwrap() } Some((*g)) }) }
        fn set(&self, n: u32) -> Option<u32> { Some(self.0.set_f(Small(n as u8))) }
        fn other(&self, n: u32) -> Option<u32> { let a = *self.0.g(); *self.0.g_mut() = a + n; self.0.set_g(a); Some(*self.0.g()) }
        fn debug(&self) -> bool { !format!("{:?}", self.0).is_empty() }
        fn dup(&self) -> Option<u32> { let o = Own(self.0.myself().unwrap()); o.get() }
    }
    pub fn case() -> Case {
        Case { name: "29", text: r#"#[fxstruct(rc, builder)] struct S { #[fieldx(inner_mut, default(fiveu32()), get(copy), get_mut, set(into))] f: u32 }"#, ops: vec![Excl, Set, Get, Once, Other, Debug, Dup], start: Some(5), new: || Box::new(Own(S::new())), build: || Box::new(Own(S::builder().f(9).build().unwrap())) }
    }
}
pub mod m30 {
    use super::*;
    #[fxstruct(rc, builder)]
    #[derive(Debug)]
    pub struct S { #[fieldx(inner_mut, optional, clearer, predicate, get, get_mut, set)] f: W, #[fieldx(inner_mut, default(3), get, get_mut, set, builder(off))] g: u32 }
    struct Own(Rc<S>);
    #[allow(unused_mut)]
    impl Subject for Own {
        fn shared(&self) -> Reading<'_> { let g = self.0.f(); Box::new(move || (*g).as_ref().map(|x| x.0)) }
        fn get(&self) -> Option<u32> { let g = self.0.f(); (*g).as_ref().map(|x| x.0) }
        fn excl(&self) -> Writing<'_> { let mut g = self.0.f_mut(); Box::new(move |x| { if let Some(x) = x { *g = x.map(|x| W(x)) } (*g).as_ref().map(|x| x.0) }) }
        fn set(&self, n: u32) -> Option<u32> { self.0.set_f(W(n)).map(|x| x.0) }
        fn clear(&self) -> Option<u32> { self.0.clear_f().map(|x| x.0) }
        fn has(&self) -> bool { self.0.has_f() }
        fn other(&self, n: u32) -> Option<u32> { let a = *self.0.g(); *self.0.g_mut() = a + n; self.0.set_g(a); Some(*self.0.g()) }
        fn debug(&self) -> bool { !format!("{:?}", self.0).is_empty() }
        fn dup(&self) -> Option<u32> { let o = Own(self.0.myself().unwrap()); o.get() }
    }
    pub fn case() -> Case {
        Case { name: "30", text: r#"#[fxstruct(rc, builder)] struct S { #[fieldx(inner_mut, optional, clearer, predicate, get, get_mut, set)] f: W }"#, ops: vec![Excl, Set, Get, Once, Other, Debug, Shared, Take, Clear, Has, Dup], start: None, new: || Box::new(Own(S::new())), build: || Box::new(Own(S::builder().f(W(9)).build().unwrap())) }
    }
}
pub mod m31 {
    use super::*;
    #[fxstruct(rc, builder)]
    #[derive(Debug)]
    pub struct S { #[fieldx(inner_mut, optional, clearer, predicate, get, get_mut, set(into))] f: W, #[fieldx(inner_mut, default(3), get, get_mut, set, builder(off))] g: u32 }
    struct Own(Rc<S>);
    #[allow(unused_mut)]
    impl Subject for Own {
        fn shared(&self) -> Reading<'_> { let g = self.0.f(); Box::new(move || (*g).as_ref().map(|x| x.0)) }
        fn get(&self) -> Option<u32> { let g = self.0.f(); (*g).as_ref().map(|x| x.0) }
        fn excl(&self) -> Writing<'_> { let mut g = self.0.f_mut(); Box::new(move |x| { if let Some(x) = x { *g = x.map(|x| W(x)) } (*g).as_ref().map(|x| x.0) }) }
        fn set(&self, n: u32) -> Option<u32> { self.0.set_f(Raw(n)).map(|x| x.0) }
        fn clear(&self) -> Option<u32> { self.0.clear_f().map(|x| x.0) }
        fn has(&self) -> bool { self.0.has_f() }
        fn other(&self, n: u32) -> Option<u32> { let a = *self.0.g(); *self.0.g_mut() = a + n; self.0.set_g(a); Some(*self.0.g()) }
        fn debug(&self) -> bool { !format!("{:?}", self.0).is_empty() }
        fn dup(&self) -> Option<u32> { let o = Own(self.0.myself().unwrap()); o.get() }
    }
    pub fn case() -> Case {
        Case { name: "31", text: r#"#[fxstruct(rc, builder)] struct S { #[fieldx(inner_mut, optional, clearer, predicate, get, get_mut, set(into))] f: W }"#, ops: vec![Excl, Set, Get, Once, Other, Debug, Shared, Take, Clear, Has, Dup], start: None, new: || Box::new(Own(S::new())), build: || Box::new(Own(S::builder().f(W(9)).build().unwrap())) }
    }
}
pub mod m32 {
    use super::*;
    #[fxstruct(rc, builder)]
    #[derive(Debug)]
    pub struct S { #[fieldx(inner_mut, optional, clearer, predicate, get(clone), get_mut, set(into))] f: W, #[fieldx(inner_mut, default(3), get, get_mut, set, builder(off))] g: u32 }
    struct Own(Rc<S>);
    #[allow(unused_mut)]
    impl Subject for Own {
        fn get(&self) -> Option<u32> { self.0.f().map(|x| x.0) }
        fn excl(&self) -> Writing<'_> { let mut g = self.0.f_mut(); Box::new(move |x| { if let Some(x) = x { *g = x.map(|x| W(x)) } (*g).as_ref().map(|x| x.0) }) }
        fn set(&self, n: u32) -> Option<u32> { self.0.set_f(Raw(n)).map(|x| x.0) }
        fn clear(&self) -> Option<u32> { self.0.clear_f().map(|x| x.0) }
        fn has(&self) -> bool { self.0.has_f() }
        fn other(&self, n: u32) -> Option<u32> { let a = *self.0.g(); *self.0.g_mut() = a + n; self.0.set_g(a); Some(*self.0.g()) }
        fn debug(&self) -> bool { !format!("{:?}", self.0).is_empty() }
        fn dup(&self) -> Option<u32> { let o = Own(self.0.myself().unwrap()); o.get() }
    }
    pub fn case() -> Case {
        Case { name: "32", text: r#"#[fxstruct(rc, builder)] struct S { #[fieldx(inner_mut, optional, clearer, predicate, get(clone), get_mut, set(into))] f: W }"#, ops: vec![Excl, Set, Get, Once, Other, Debug, Take, Clear, Has, Dup], start: None, new: || Box::new(Own(S::new())), build: || Box::new(Own(S::builder().f(W(9)).build().unwrap())) }
    }
}
pub mod m33 {
    use super::*;
    #[fxstruct(rc, builder)]
    #[derive(Debug)]
    pub struct S { #[fieldx(inner_mut, optional, clearer, predicate, get(copy), get_mut, set)] f: u32, #[fieldx(inner_mut, default(3), get, get_mut, set, builder(off))] g: u32 }
    struct Own(Rc<S>);
    #[allow(unused_mut)]
    impl Subject for Own {
        fn get(&self) -> Option<u32> { self.0.f().map(|x| x) }
        fn excl(&self) -> Writing<'_> { let mut g = self.0.f_mut(); Box::new(move |x| { if let Some(x) = x { *g = x.map(|x| x) } (*g).as_ref().map(|x| (*x)) }) }
        fn set(&self, n: u32) -> Option<u32> { self.0.set_f(n).map(|x| x) }
        fn clear(&self) -> Option<u32> { self.0.clear_f().map(|x| x) }
        fn has(&self) -> bool { self.0.has_f() }
        fn other(&self, n: u32) -> Option<u32> { let a = *self.0.g(); *self.0.g_mut() = a + n; self.0.set_g(a); Some(*self.0.g()) }
        fn debug(&self) -> bool { !format!("{:?}", self.0).is_empty() }
        fn dup(&self) -> Option<u32> { let o = Own(self.0.myself().unwrap()); o.get() }
    }
    pub fn case() -> Case {
        Case { name: "33", text: r#"#[fxstruct(rc, builder)] struct S { #[fieldx(inner_mut, optional, clearer, predicate, get(copy), get_mut, set)] f: u32 }"#, ops: vec![Excl, Set, Get, Once, Other, Debug, Take, Clear, Has, Dup], start: None, new: || Box::new(Own(S::new())), build: || Box::new(Own(S::builder().f(9).build().unwrap())) }
    }
}
pub mod m34 {
    use super::*;
    #[fxstruct(rc, builder)]
    #[derive(Debug)]
    pub struct S { #[fieldx(inner_mut, optional, clearer, predicate, get(copy), get_mut, set(into))] f: u32, #[fieldx(inner_mut, default(3), get, get_mut, set, builder(off))] g: u32 }
    struct Own(Rc<S>);
    #[allow(unused_mut)]
    impl Subject for Own {
        fn get(&self) -> Option<u32> { self.0.f().map(|x| x) }
        fn excl(&self) -> Writing<'_> { let mut g = self.0.f_mut(); Box::new(move |x| { if let Some(x) = x { *g = x.map(|x| x) } (*g).as_ref().map(|x| (*x)) }) }
        fn set(&self, n: u32) -> Option<u32> { self.0.set_f(Small(n as u8)).map(|x| x) }
        fn clear(&self) -> Option<u32> { self.0.clear_f().map(|x| x) }
        fn has(&self) -> bool { self.0.has_f() }
        fn other(&self, n: u32) -> Option<u32> { let a = *self.0.g(); *self.0.g_mut() = a + n; self.0.set_g(a); Some(*self.0.g()) }
        fn debug(&self) -> bool { !format!("{:?}", self.0).is_empty() }
        fn dup(&self) -> Option<u32> { let o = Own(self.0.myself().unwrap()); o.get() }
    }
    pub fn case() -> Case {
        Case { name: "34", text: r#"#[fxstruct(rc, builder)] struct S { #[fieldx(inner_mut, optional, clearer, predicate, get(copy), get_mut, set(into))] f: u32 }"#, ops: vec![Excl, Set, Get, Once, Other, Debug, Take, Clear, Has, Dup], start: None, new: || Box::new(Own(S::new())), build: || Box::new(Own(S::builder().f(9).build().unwrap())) }
    }
}
pub mod m35 {
    use super::*;
    #[fxstruct(rc, builder)]
    #[derive(Debug)]
    pub struct S { #[fieldx(inner_mut, optional, clearer, predicate, default(fiveW()), get, get_mut, set)] f: W, #[fieldx(inner_mut, default(3), get, get_mut, set, builder(off))] g: u32 }
    struct Own(Rc<S>);
    #[allow(unused_mut)]
    impl Subject for Own {
        fn shared(&self) -> Reading<'_> { let g = self.0.f(); Box::new(move || (*g).as_ref().map(|x| x.0)) }
        fn get(&self) -> Option<u32> { let g = self.0.f(); (*g).as_ref().map(|x| x.0) }
        fn excl(&self) -> Writing<'_> { let mut g = self.0.f_mut(); Box::new(move |x| { if let Some(x) = x { *g = x.map(|x| W(x)) } (*g).as_ref().map(|x| x.0) }) }
        fn set(&self, n: u32) -> Option<u32> { self.0.set_f(W(n)).map(|x| x.0) }
        fn clear(&self) -> Option<u32> { self.0.clear_f().map(|x| x.0) }
        fn has(&self) -> bool { self.0.has_f() }
        fn other(&self, n: u32) -> Option<u32> { let a = *self.0.g(); *self.0.g_mut() = a + n; self.0.set_g(a); Some(*self.0.g()) }
        fn debug(&self) -> bool { !format!("{:?}", self.0).is_empty() }
        fn dup(&self) -> Option<u32> { let o = Own(self.0.myself().unwrap()); o.get() }
    }
    pub fn case() -> Case {
        Case { name: "35", text: r#"#[fxstruct(rc, builder)] struct S { #[fieldx(inner_mut, optional, clearer, predicate, default(fiveW()), get, get_mut, set)] f: W }"#, ops: vec![Excl, Set, Get, Once, Other, Debug, Shared, Take, Clear, Has, Dup], start: Some(5), new: || Box::new(Own(S::new())), build: || Box::new(Own(S::builder().f(W(9)).build().unwrap())) }
    }
}
pub mod m36 {
    use super::*;
    #[fxstruct(rc, builder)]
    #[derive(Debug)]
    pub struct S { #[fieldx(inner_mut, optional, clearer, predicate, default(fiveW()), get, get_mut, set(into))] f: W, #[fieldx(inner_mut, default(3), get, get_mut, set, builder(off))] g: u32 }
    struct Own(Rc<S>);
    #[allow(unused_mut)]
    impl Subject for Own {
        fn shared(&self) -> Reading<'_> { let g = self.0.f(); Box::new(move || (*g).as_ref().map(|x| x.0)) }
        fn get(&self) -> Option<u32> { let g = self.0.f(); (*g).as_ref().map(|x| x.0) }
        fn excl(&self) -> Writing<'_> { let mut g = self.0.f_mut(); Box::new(move |x| { if let Some(x) = x { *g = x.map(|x| W(x)) } (*g).as_ref().map(|x| x.0) }) }
        fn set(&self, n: u32) -> Option<u32> { self.0.set_f(Raw(n)).map(|x| x.0) }
        fn clear(&self) -> Option<u32> { self.0.clear_f().map(|x| x.0) }
        fn has(&self) -> bool { self.0.has_f() }
        fn other(&self, n: u32) -> Option<u32> { let a = *self.0.g(); *self.0.g_mut() = a + n; self.0.set_g(a); Some(*self.0.g()) }
        fn debug(&self) -> bool { !format!("{:?}", self.0).is_empty() }
        fn dup(&self) -> Option<u32> { let o = Own(self.0.myself().unwrap()); o.get() }
    }
    pub fn case() -> Case {
        Case { name: "36", text: r#"#[fxstruct(rc, builder)] struct S { #[fieldx(inner_mut, optional, clearer, predicate, default(fiveW()), get, get_mut, set(into))] f: W }"#, ops: vec![Excl, Set, Get, Once, Other, Debug, Shared, Take, Clear, Has, Dup], start: Some(5), new: || Box::new(Own(S::new())), build: || Box::new(Own(S::builder().f(W(9)).build().unwrap())) }
    }
}
pub mod m37 {
    use super::*;
    #[fxstruct(rc, builder)]
    #[derive(Debug)]
    pub struct S { #[fieldx(inner_mut, optional, clearer, predicate, default(fiveW()), get(clone), get_mut, set(into))] f: W, #[fieldx(inner_mut, default(3), get, get_mut, set, builder(off))] g: u32 }
    struct Own(Rc<S>);
    #[allow(unused_mut)]
    impl Subject for Own {
        fn get(&self) -> Option<u32> { self.0.f().map(|x| x.0) }
        fn excl(&self) -> Writing<'_> { let mut g = self.0.f_mut(); Box::new(move |x| { if let Some(x) = x { *g = x.map(|x| W(x)) } (*g).as_ref().map(|x| x.0) }) }
        fn set(&self, n: u32) -> Option<u32> { self.0.set_f(Raw(n)).map(|x| x.0) }
        fn clear(&self) -> Option<u32> { self.0.clear_f().map(|x| x.0) }
        fn has(&self) -> bool { self.0.has_f() }
        fn other(&self, n: u32) -> Option<u32> { let a = *self.0.g(); *self.0.g_mut() = a + n; self.0.set_g(a); Some(*self.0.g()) }
        fn debug(&self) -> bool { !format!("{:?}", self.0).is_empty() }
        fn dup(&self) -> Option<u32> { let o = Own(self.0.myself().unwrap()); o.get() }
    }
    pub fn case() -> Case {
        Case { name: "37", text: r#"#[fxstruct(rc, builder)] struct S { #[fieldx(inner_mut, optional, clearer, predicate, default(fiveW()), get(clone), get_mut, set(into))] f: W }"#, ops: vec![Excl, Set, Get, Once, Other, Debug, Take, Clear, Has, Dup], start: Some(5), new: || Box::new(Own(S::new())), build: || Box::new(Own(S::builder().f(W(9)).build().unwrap())) }
    }
}
pub mod m38 {
    use super::*;
    #[fxstruct(rc, builder)]
    #[derive(Debug)]
    pub struct S { #[fieldx(inner_mut, optional, clearer, predicate, default(fiveu32()), get(copy), get_mut, set)] f: u32, #[fieldx(inner_mut, default(3), get, get_mut, set, builder(off))] g: u32 }
    struct Own(Rc<S>);
    #[allow(unused_mut)]
    impl Subject for Own {
        fn get(&self) -> Option<u32> { self.0.f().map(|x| x) }
        fn excl(&self) -> Writing<'_> { let mut g = self.0.f_mut(); Box::new(move |x| { if let Some(x) = x { *g = x.map(|x| x) } (*g).as_ref().map(|x| (*x)) }) }
        fn set(&self, n: u32) -> Option<u32> { self.0.set_f(n).map(|x| x) }
        fn clear(&self) -> Option<u32> { self.0.clear_f().map(|x| x) }
        fn has(&self) -> bool { self.0.has_f() }
        fn other(&self, n: u32) -> Option<u32> { let a = *self.0.g(); *self.0.g_mut() = a + n; self.0.set_g(a); Some(*self.0.g()) }
        fn debug(&self) -> bool { !format!("{:?}", self.0).is_empty() }
        fn dup(&self) -> Option<u32> { let o = Own(self.0.myself().unwrap()); o.get() }
    }
    pub fn case() -> Case {
        Case { name: "38", text: r#"#[fxstruct(rc, builder)] struct S { #[fieldx(inner_mut, optional, clearer, predicate, default(fiveu32()), get(copy), get_mut, set)] f: u32 }"#, ops: vec![Excl, Set, Get, Once, Other, Debug, Take, Clear, Has, Dup], start: Some(5), new: || Box::new(Own(S::new())), build: || Box::new(Own(S::builder().f(9).build().unwrap())) }
    }
}
pub mod m39 {
    use super::*;
    #[fxstruct(rc, builder)]
    #[derive(Debug)]
    pub struct S { #[fieldx(inner_mut, optional, clearer, predicate, default(fiveu32()), get(copy), get_mut, set(into))] f: u32, #[fieldx(inner_mut, default(3), get, get_mut, set, builder(off))] g: u32 }
    struct Own(Rc<S>);
    #[allow(unused_mut)]
    impl Subject for Own {
        fn get(&self) -> Option<u32> { self.0.f().map(|x| x) }
        fn excl(&self) -> Writing<'_> { let mut g = self.0.f_mut(); Box::new(move |x| { if let Some(x) = x { *g = x.map(|x| x) } (*g).as_ref().map(|x| (*x)) }) }
        fn set(&self, n: u32) -> Option<u32> { self.0.set_f(Small(n as u8)).map(|x| x) }
        fn clear(&self) -> Option<u32> { self.0.clear_f().map(|x| x) }
        fn has(&self) -> bool { self.0.has_f() }
        fn other(&self, n: u32) -> Option<u32> { let a = *self.0.g(); *self.0.g_mut() = a + n; self.0.set_g(a); Some(*self.0.g()) }
        fn debug(&self) -> bool { !format!("{:?}", self.0).is_empty() }
        fn dup(&self) -> Option<u32> { let o = Own(self.0.myself().unwrap()); o.get() }
    }
    pub fn case() -> Case {
        Case { name: "39", text: r#"#[fxstruct(rc, builder)] struct S { #[fieldx(inner_mut, optional, clearer, predicate, default(fiveu32()), get(copy), get_mut, set(into))] f: u32 }"#, ops: vec![Excl, Set, Get, Once, Other, Debug, Take, Clear, Has, Dup], start: Some(5), new: || Box::new(Own(S::new())), build: || Box::new(Own(S::builder().f(9).build().unwrap())) }
    }
}
pub mod m40 {
    use super::*;
    #[fxstruct(sync, builder)]
    #[derive(Clone, Debug, PartialEq)]
    pub struct S { #[fieldx(inner_mut, get, get_mut, set)] f: W, #[fieldx(inner_mut, default(3), get, get_mut, set, builder(off))] g: u32 }
    struct Own(S);
    #[allow(unused_mut)]
    impl Subject for Own {
        fn shared(&self) -> Reading<'_> { let g = self.0.f(); Box::new(move || Some((*g).0)) }
        fn get(&self) -> Option<u32> { let g = self.0.f(); Some((*g).0) }
        fn excl(&self) -> Writing<'_> { let mut g = self.0.f_mut(); Box::new(move |x| { if let Some(x) = x { *g = W(x.unwrap()) } Some((*g).0) }) }
        fn set(&self, n: u32) -> Option<u32> { Some(self.0.set_f(W(n)).0) }
        fn other(&self, n: u32) -> Option<u32> { let a = *self.0.g(); *self.0.g_mut() = a + n; self.0.set_g(a); Some(*self.0.g()) }
        fn debug(&self) -> bool { !format!("{:?}", self.0).is_empty() }
        fn dup(&self) -> Option<u32> { let o = Own(self.0.clone()); let a = o.get(); o.set(77); a }
        fn eq(&self, n: Option<u32>) -> bool { let o = Own(S::new()); *o.0.f_mut() = W(n.unwrap()); self.0 == o.0 }
    }
    pub fn case() -> Case {
        Case { name: "40", text: r#"#[fxstruct(sync, builder)] struct S { #[fieldx(inner_mut, get, get_mut, set)] f: W }"#, ops: vec![Excl, Set, Get, Once, Other, Debug, Shared, Dup, Eq], start: Some(0), new: || Box::new(Own(S::new())), build: || Box::new(Own(S::builder().f(W(9)).build().unwrap())) }
    }
}
pub mod m41 {
    use super::*;
    #[fxstruct(sync, builder)]
    #[derive(Clone, Debug, PartialEq)]
    pub struct S { #[fieldx(inner_mut, get, get_mut, set(into))] f: W, #[fieldx(inner_mut, default(3), get, get_mut, set, builder(off))] g: u32 }
    struct Own(S);
    #[allow(unused_mut)]
    impl Subject for Own {
        fn shared(&self) -> Reading<'_> { let g = self.0.f(); Box::new(move || Some((*g).0)) }
        fn get(&self) -> Option<u32> { let g = self.0.f(); Some((*g).0) }
        fn excl(&self) -> Writing<'_> { let mut g = self.0.f_mut(); Box::new(move |x| { if let Some(x) = x { *g = W(x.unwrap()) } Some((*g).0) }) }
        fn set(&self, n: u32) -> Option<u32> { Some(self.0.set_f(Raw(n)).0) }
        fn other(&self, n: u32) -> Option<u32> { let a = *self.0.g(); *self.0.g_mut() = a + n; self.0.set_g(a); Some(*self.0.g()) }
        fn debug(&self) -> bool { !format!("{:?}", self.0).is_empty() }
        fn dup(&self) -> Option<u32> { let o = Own(self.0.clone()); let a = o.get(); o.set(77); a }
        fn eq(&self, n: Option<u32>) -> bool { let o = Own(S::new()); *o.0.f_mut() = W(n.unwrap()); self.0 == o.0 }
    }
    pub fn case() -> Case {
        Case { name: "41", text: r#"#[fxstruct(sync, builder)] struct S { #[fieldx(inner_mut, get, get_mut, set(into))] f: W }"#, ops: vec![Excl, Set, Get, Once, Other, Debug, Shared, Dup, Eq], start: Some(0), new: || Box::new(Own(S::new())), build: || Box::new(Own(S::builder().f(W(9)).build().unwrap())) }
    }
}
pub mod m42 {
    use super::*;
    #[fxstruct(sync, builder)]
    #[derive(Clone, Debug, PartialEq)]
    pub struct S { #[fieldx(inner_mut, get(clone), get_mut, set(into))] f: W, #[fieldx(inner_mut, default(3), get, get_mut, set, builder(off))] g: u32 }
    struct Own(S);
    #[allow(unused_mut)]
    impl Subject for Own {
        fn get(&self) -> Option<u32> { Some(self.0.f().0) }
        fn excl(&self) -> Writing<'_> { let mut g = self.0.f_mut(); Box::new(move |x| { if let Some(x) = x { *g = W(x.unwrap()) } Some((*g).0) }) }
        fn set(&self, n: u32) -> Option<u32> { Some(self.0.set_f(Raw(n)).0) }
        fn other(&self, n: u32) -> Option<u32> { let a = *self.0.g(); *self.0.g_mut() = a + n; self.0.set_g(a); Some(*self.0.g()) }
        fn debug(&self) -> bool { !format!("{:?}", self.0).is_empty() }
        fn dup(&self) -> Option<u32> { let o = Own(self.0.clone()); let a = o.get(); o.set(77); a }
        fn eq(&self, n: Option<u32>) -> bool { let o = Own(S::new()); *o.0.f_mut() = W(n.unwrap()); self.0 == o.0 }
    }
    pub fn case() -> Case {
        Case { name: "42", text: r#"#[fxstruct(sync, builder)] struct S { #[fieldx(inner_mut, get(clone), get_mut, set(into))] f: W }"#, ops: vec![Excl, Set, Get, Once, Other, Debug, Dup, Eq], start: Some(0), new: || Box::new(Own(S::new())), build: || Box::new(Own(S::builder().f(W(9)).build().unwrap())) }
    }
}
pub mod m43 {
    use super::*;
    #[fxstruct(sync, builder)]
    #[derive(Clone, Debug, PartialEq)]
    pub struct S { #[fieldx(inner_mut, get(copy), get_mut, set)] f: u32, #[fieldx(inner_mut, default(3), get, get_mut, set, builder(off))] g: u32 }
    struct Own(S);
    #[allow(unused_mut)]
    impl Subject for Own {
        fn get(&self) -> Option<u32> { Some(self.0.f()) }
        fn excl(&self) -> Writing<'_> { let mut g = self.0.f_mut(); Box::new(move |x| { if let Some(x) = x { *g = x.unwrap() } Some((*g)) }) }
        fn set(&self, n: u32) -> Option<u32> { Some(self.0.set_f(n)) }
        fn other(&self, n: u32) -> Option<u32> { let a = *self.0.g(); *self.0.g_mut() = a + n; self.0.set_g(a); Some(*self.0.g()) }
        fn debug(&self) -> bool { !format!("{:?}", self.0).is_empty() }
        fn dup(&self) -> Option<u32> { let o = Own(self.0.clone()); let a = o.get(); o.set(77); a }
        fn eq(&self, n: Option<u32>) -> bool { let o = Own(S::new()); *o.0.f_mut() = n.unwrap(); self.0 == o.0 }
    }
    pub fn case() -> Case {
        Case { name: "43", text: r#"#[fxstruct(sync, builder)] struct S { #[fieldx(inner_mut, get(copy), get_mut, set)] f: u32 }"#, ops: vec![Excl, Set, Get, Once, Other, Debug, Dup, Eq], start: Some(0), new: || Box::new(Own(S::new())), build: || Box::new(Own(S::builder().f(9).build().unwrap())) }
    }
}
pub mod m44 {
    use super::*;
    #[fxstruct(sync, builder)]
    #[derive(Clone, Debug, PartialEq)]
    pub struct S { #[fieldx(inner_mut, get(copy), get_mut, set(into))] f: u32, #[fieldx(inner_mut, default(3), get, get_mut, set, builder(off))] g: u32 }
    struct Own(S);
    #[allow(unused_mut)]
    impl Subject for Own {
        fn get(&self) -> Option<u32> { Some(self.0.f()) }
        fn excl(&self) -> Writing<'_> { let mut g = self.0.f_mut(); Box::new(move |x| { if let Some(x) = x { *g = x.unwrap() } Some((*g)) }) }
        fn set(&self, n: u32) -> Option<u32> { Some(self.0.set_f(Small(n as u8))) }
        fn other(&self, n: u32) -> Option<u32> { let a = *self.0.g(); *self.0.g_mut() = a + n; self.0.set_g(a); Some(*self.0.g()) }
        fn debug(&self) -> bool { !format!("{:?}", self.0).is_empty() }
        fn dup(&self) -> Option<u32> { let o = Own(self.0.clone()); let a = o.get(); o.set(77); a }
        fn eq(&self, n: Option<u32>) -> bool { let o = Own(S::new()); *o.0.f_mut() = n.unwrap(); self.0 == o.0 }
    }
    pub fn case() -> Case {
        Case { name: "44", text: r#"#[fxstruct(sync, builder)] struct S { #[fieldx(inner_mut, get(copy), get_mut, set(into))] f: u32 }"#, ops: vec![Excl, Set, Get, Once, Other, Debug, Dup, Eq], start: Some(0), new: || Box::new(Own(S::new())), build: || Box::new(Own(S::builder().f(9).build().unwrap())) }
    }
}
pub mod m45 {
    use super::*;
    #[fxstruct(sync, builder)]
    #[derive(Clone, Debug, PartialEq)]
    pub struct S { #[fieldx(inner_mut, default(fiveW()), get, get_mut, set)] f: W, #[fieldx(inner_mut, default(3), get, get_mut, set, builder(off))] g: u32 }
    struct Own(S);
    #[allow(unused_mut)]
    impl Subject for Own {
        fn shared(&self) -> Reading<'_> { let g = self.0.f(); Box::new(move || Some((*g).0)) }
        fn get(&self) -> Option<u32> { let g = self.0.f(); Some((*g).0) }
        fn excl(&self) -> Writing<'_> { let mut g = self.0.f_mut(); Box::new(move |x| { if let Some(x) = x { *g = W(x.unwrap()) } Some((*g).0) }) }
        fn set(&self, n: u32) -> Option<u32> { Some(self.0.set_f(W(n)).0) }
        fn other(&self, n: u32) -> Option<u32> { let a = *self.0.g(); *self.0.g_mut() = a + n; self.0.set_g(a); Some(*self.0.g()) }
        fn debug(&self) -> bool { !format!("{:?}", self.0).is_empty() }
        fn dup(&self) -> Option<u32> { let o = Own(self.0.clone()); let a = o.get(); o.set(77); a }
        fn eq(&self, n: Option<u32>) -> bool { let o = Own(S::new()); *o.0.f_mut() = W(n.unwrap()); self.0 == o.0 }
    }
    pub fn case() -> Case {
        Case { name: "45", text: r#"#[fxstruct(sync, builder)] struct S { #[fieldx(inner_mut, default(fiveW()), get, get_mut, set)] f: W }"#, ops: vec![Excl, Set, Get, Once, Other, Debug, Shared, Dup, Eq], start: Some(5), new: || Box::new(Own(S::new())), build: || Box::new(Own(S::builder().f(W(9)).build().unwrap())) }
    }
}
pub mod m46 {
    use super::*;
    #[fxstruct(sync, builder)]
    #[derive(Clone, Debug, PartialEq)]
    pub struct S { #[fieldx(inner_mut, default(fiveW()), get, get_mut, set(into))] f: W, #[fieldx(inner_mut, default(3), get, get_mut, set, builder(off))] g: u32 }
    struct Own(S);
    #[allow(unused_mut)]
    impl Subject for Own {
        fn shared(&self) -> Reading<'_> { let g = self.0.f(); Box::new(move || Some((*g).0)) }
        fn get(&self) -> Option<u32> { let g = self.0.f(); Some((*g).0) }
        fn excl(&self) -> Writing<'_> { let mut g = self.0.f_mut(); Box::new(move |x| { if let Some(x) = x { *g = W(x.unwrap()) } Some((*g).0) }) }
        fn set(&self, n: u32) -> Option<u32> { Some(self.0.set_f(Raw(n)).0) }
        fn other(&self, n: u32) -> Option<u32> { let a = *self.0.g(); *self.0.g_mut() = a + n; self.0.set_g(a); Some(*self.0.g()) }
        fn debug(&self) -> bool { !format!("{:?}", self.0).is_empty() }
        fn dup(&self) -> Option<u32> { let o = Own(self.0.clone()); let a = o.get(); o.set(77); a }
        fn eq(&self, n: Option<u32>) -> bool { let o = Own(S::new()); *o.0.f_mut() = W(n.unwrap()); self.0 == o.0 }
    }
    pub fn case() -> Case {
        Case { name: "46", text: r#"#[fxstruct(sync, builder)] struct S { #[fieldx(inner_mut, default(fiveW()), get, get_mut, set(into))] f: W }"#, ops: vec![Excl, Set, Get, Once, Other, Debug, Shared, Dup, Eq], start: Some(5), new: || Box::new(Own(S::new())), build: || Box::new(Own(S::builder().f(W(9)).build().unwrap())) }
    }
}
pub mod m47 {
    use super::*;
    #[fxstruct(sync, builder)]
    #[derive(Clone, Debug, PartialEq)]
    pub struct S { #[fieldx(inner_mut, default(fiveW()), get(clone), get_mut, set(into))] f: W, #[fieldx(inner_mut, default(3), get, get_mut, set, builder(off))] g: u32 }
    struct Own(S);
    #[allow(unused_mut)]
    impl Subject for Own {
        fn get(&self) -> Option<u32> { Some(self.0.f().0) }
        fn excl(&self) -> Writing<'_> { let mut g = self.0.f_mut(); Box::new(move |x| { if let Some(x) = x { *g = W(x.unwrap()) } Some((*g).0) }) }
        fn set(&self, n: u32) -> Option<u32> { Some(self.0.set_f(Raw(n)).0) }
        fn other(&self, n: u32) -> Option<u32> { let a = *self.0.g(); *self.0.g_mut() = a + n; self.0.set_g(a); Some(*self.0.g()) }
        fn debug(&self) -> bool { !format!("{:?}", self.0).is_empty() }
        fn dup(&self) -> Option<u32> { let o = Own(self.0.clone()); let a = o.get(); o.set(77); a }
        fn eq(&self, n: Option<u32>) -> bool { let o = Own(S::new()); *o.0.f_mut() = W(n.unwrap()); self.0 == o.0 }
    }
    pub fn case() -> Case {
        Case { name: "47", text: r#"#[fxstruct(sync, builder)] struct S { #[fieldx(inner_mut, default(fiveW()), get(clone), get_mut, set(into))] f: W }"#, ops: vec![Excl, Set, Get, Once, Other, Debug, Dup, Eq], start: Some(5), new: || Box::new(Own(S::new())), build: || Box::new(Own(S::builder().f(W(9)).build().unwrap())) }
    }
}
pub mod m48 {
    use super::*;
    #[fxstruct(sync, builder)]
    #[derive(Clone, Debug, PartialEq)]
    pub struct S { #[fieldx(inner_mut, default(fiveu32()), get(copy), get_mut, set)] f: u32, #[fieldx(inner_mut, default(3), get, get_mut, set, builder(off))] g: u32 }
    struct Own(S);
    #[allow(unused_mut)]
    impl Subject for Own {
        fn get(&self) -> Option<u32> { Some(self.0.f()) }
        fn excl(&self) -> Writing<'_> { let mut g = self.0.f_mut(); Box::new(move |x| { if let Some(x) = x { *g = x.unwrap() } Some((*g)) }) }
        fn set(&self, n: u32) -> Option<u32> { Some(self.0.set_f(n)) }
        fn other(&self, n: u32) -> Option<u32> { let a = *self.0.g(); *self.0.g_mut() = a + n; self.0.set_g(a); Some(*self.0.g()) }
        fn debug(&self) -> bool { !format!("{:?}", self.0).is_empty() }
        fn dup(&self) -> Option<u32> { let o = Own(self.0.clone()); let a = o.get(); o.set(77); a }
        fn eq(&self, n: Option<u32>) -> bool { let o = Own(S::new()); *o.0.f_mut() = n.unwrap(); self.0 == o.0 }
    }
    pub fn case() -> Case {
        Case { name: "48", text: r#"#[fxstruct(sync, builder)] struct S { #[fieldx(inner_mut, default(fiveu32()), get(copy), get_mut, set)] f: u32 }"#, ops: vec![Excl, Set, Get, Once, Other, Debug, Dup, Eq], start: Some(5), new: || Box::new(Own(S::new())), build: || Box::new(Own(S::builder().f(9).build().unwrap())) }
    }
}
pub mod m49 {
    use super::*;
    #[fxstruct(sync, builder)]
    #[derive(Clone, Debug, PartialEq)]
    pub struct S { #[fieldx(inner_mut, default(fiveu32()), get(copy), get_mut, set(into))] f: u32, #[fieldx(inner_mut, default(3), get, get_mut, set, builder(off))] g: u32 }
    struct Own(S);
    #[allow(unused_mut)]
    impl Subject for Own {
        fn get(&self) -> Option<u32> { Some(self.0.f()) }
        fn excl(&self) -> Writing<'_> { let mut g = self.0.f_mut(); Box::new(move |x| { if let Some(x) = x { *g = x.unwrap() } Some((*g)) }) }
        fn set(&self, n: u32) -> Option<u32> { Some(self.0.set_f(Small(n as u8))) }
        fn other(&self, n: u32) -> Option<u32> { let a = *self.0.g(); *self.0.g_mut() = a + n; self.0.set_g(a); Some(*self.0.g()) }
        fn debug(&self) -> bool { !format!("{:?}", self.0).is_empty() }
        fn dup(&self) -> Option<u32> { let o = Own(self.0.clone()); let a = o.get(); o.set(77); a }
        fn eq(&self, n: Option<u32>) -> bool { let o = Own(S::new()); *o.0.f_mut() = n.unwrap(); self.0 == o.0 }
    }
    pub fn case() -> Case {
        Case { name: "49", text: r#"#[fxstruct(sync, builder)] struct S { #[fieldx(inner_mut, default(fiveu32()), get(copy), get_mut, set(into))] f: u32 }"#, ops: vec![Excl, Set, Get, Once, Other, Debug, Dup, Eq], start: Some(5), new: || Box::new(Own(S::new())), build: || Box::new(Own(S::builder().f(9).build().unwrap())) }
    }
}
pub mod m50 {
    use super::*;
    #[fxstruct(sync, builder)]
    #[derive(Clone, Debug, PartialEq)]
    pub struct S { #[fieldx(inner_mut, optional, clearer, predicate, get, get_mut, set)] f: W, #[fieldx(inner_mut, default(3), get, get_mut, set, builder(off))] g: u32 }
    struct Own(S);
    #[allow(unused_mut)]
    impl Subject for Own {
        fn shared(&self) -> Reading<'_> { let g = self.0.f(); Box::new(move || (*g).as_ref().map(|x| x.0)) }
        fn get(&self) -> Option<u32> { let g = self.0.f(); (*g).as_ref().map(|x| x.0) }
        fn excl(&self) -> Writing<'_> { let mut g = self.0.f_mut(); Box::new(move |x| { if let Some(x) = x { *g = x.map(|x| W(x)) } (*g).as_ref().map(|x| x.0) }) }
        fn set(&self, n: u32) -> Option<u32> { self.0.set_f(W(n)).map(|x| x.0) }
        fn clear(&self) -> Option<u32> { self.0.clear_f().map(|x| x.0) }
        fn has(&self) -> bool { self.0.has_f() }
        fn other(&self, n: u32) -> Option<u32> { let a = *self.0.g(); *self.0.g_mut() = a + n; self.0.set_g(a); Some(*self.0.g()) }
        fn debug(&self) -> bool { !format!("{:?}", self.0).is_empty() }
        fn dup(&self) -> Option<u32> { let o = Own(self.0.clone()); let a = o.get(); o.set(77); a }
        fn eq(&self, n: Option<u32>) -> bool { let o = Own(S::new()); *o.0.f_mut() = n.map(|n| W(n)); self.0 == o.0 }
    }
    pub fn case() -> Case {
        Case { name: "50", text: r#"#[fxstruct(sync, builder)] struct S { #[fieldx(inner_mut, optional, clearer, predicate, get, get_mut, set)] f: W }"#, ops: vec![Excl, Set, Get, Once, Other, Debug, Shared, Take, Clear, Has, Dup, Eq], start: None, new: || Box::new(Own(S::new())), build: || Box::new(Own(S::builder().f(W(9)).build().unwrap())) }
    }
}
pub mod m51 {
    use super::*;
    #[fxstruct(sync, builder)]
    #[derive(Clone, Debug, PartialEq)]
    pub struct S { #[fieldx(inner_mut, optional, clearer, predicate, get, get_mut, set(into))] f: W, #[fieldx(inner_mut, default(3), get, get_mut, set, builder(off))] g: u32 }
    struct Own(S);
    #[allow(unused_mut)]
    impl Subject for Own {
        fn shared(&self) -> Reading<'_> { let g = self.0.f(); Box::new(move || (*g).as_ref().map(|x| x.0)) }
        fn get(&self) -> Option<u32> { let g = self.0.f(); (*g).as_ref().map(|x| x.0) }
        fn excl(&self) -> Writing<'_> { let mut g = self.0.f_mut(); Box::new(move |x| { if let Some(x) = x { *g = x.map(|x| W(x)) } (*g).as_ref().map(|x| x.0) }) }
        fn set(&self, n: u32) -> Option<u32> { self.0.set_f(Raw(n)).map(|x| x.0) }
        fn clear(&self) -> Option<u32> { self.0.clear_f().map(|x| x.0) }
        fn has(&self) -> bool { self.0.has_f() }
        fn other(&self, n: u32) -> Option<u32> { let a = *self.0.g(); *self.0.g_mut() = a + n; self.0.set_g(a); Some(*self.0.g()) }
        fn debug(&self) -> bool { !format!("{:?}", self.0).is_empty() }
        fn dup(&self) -> Option<u32> { let o = Own(self.0.clone()); let a = o.get(); o.set(77); a }
        fn eq(&self, n: Option<u32>) -> bool { let o = Own(S::new()); *o.0.f_mut() = n.map(|n| W(n)); self.0 == o.0 }
    }
    pub fn case() -> Case {
        Case { name: "51", text: r#"#[fxstruct(sync, builder)] struct S { #[fieldx(inner_mut, optional, clearer, predicate, get, get_mut, set(into))] f: W }"#, ops: vec![Excl, Set, Get, Once, Other, Debug, Shared, Take, Clear, Has, Dup, Eq], start: None, new: || Box::new(Own(S::new())), build: || Box::new(Own(S::builder().f(W(9)).build().unwrap())) }
    }
}
pub mod m52 {
    use super::*;
    #[fxstruct(sync, builder)]
    #[derive(Clone, Debug, PartialEq)]
    pub struct S { #[fieldx(inner_mut, optional, clearer, predicate, get(clone), get_mut, set(into))] f: W, #[fieldx(inner_mut, default(3), get, get_mut, set, builder(off))] g: u32 }
    struct Own(S);
    #[allow(unused_mut)]
    impl Subject for Own {
        fn get(&self) -> Option<u32> { self.0.f().map(|x| x.0) }
        fn excl(&self) -> Writing<'_> { let mut g = self.0.f_mut(); Box::new(move |x| { if let Some(x) = x { *g = x.map(|x| W(x)) } (*g).as_ref().map(|x| x.0) }) }
        fn set(&self, n: u32) -> Option<u32> { self.0.set_f(Raw(n)).map(|x| x.0) }
        fn clear(&self) -> Option<u32> { self.0.clear_f().map(|x| x.0) }
        fn has(&self) -> bool { self.0.has_f() }
        fn other(&self, n: u32) -> Option<u32> { let a = *self.0.g(); *self.0.g_mut() = a + n; self.0.set_g(a); Some(*self.0.g()) }
        fn debug(&self) -> bool { !format!("{:?}", self.0).is_empty() }
        fn dup(&self) -> Option<u32> { let o = Own(self.0.clone()); let a = o.get(); o.set(77); a }
        fn eq(&self, n: Option<u32>) -> bool { let o = Own(S::new()); *o.0.f_mut() = n.map(|n| W(n)); self.0 == o.0 }
    }
    pub fn case() -> Case {
        Case { name: "52", text: r#"#[fxstruct(sync, builder)] struct S { #[fieldx(inner_mut, optional, clearer, predicate, get(clone), get_mut, set(into))] f: W }"#, ops: vec![Excl, Set, Get, Once, Other, Debug, Take, Clear, Has, Dup, Eq], start: None, new: || Box::new(Own(S::new())), build: || Box::new(Own(S::builder().f(W(9)).build().unwrap())) }
    }
}
pub mod m53 {
    use super::*;
    #[fxstruct(sync, builder)]
    #[derive(Clone, Debug, PartialEq)]
    pub struct S { #[fieldx(inner_mut, optional, clearer, predicate, get(copy), get_mut, set)] f: u32, #[fieldx(inner_mut, default(3), get, get_mut, set, builder(off))] g: u32 }
    struct Own(S);
    #[allow(unused_mut)]
    impl Subject for Own {
        fn get(&self) -> Option<u32> { self.0.f().map(|x| x) }
        fn excl(&self) -> Writing<'_> { let mut g = self.0.f_mut(); Box::new(move |x| { if let Some(x) = x { *g = x.map(|x| x) } (*g).as_ref().map(|x| (*x)) }) }
        fn set(&self, n: u32) -> Option<u32> { self.0.set_f(n).map(|x| x) }
        fn clear(&self) -> Option<u32> { self.0.clear_f().map(|x| x) }
        fn has(&self) -> bool { self.0.has_f() }
        fn other(&self, n: u32) -> Option<u32> { let a = *self.0.g(); *self.0.g_mut() = a + n; self.0.set_g(a); Some(*self.0.g()) }
        fn debug(&self) -> bool { !format!("{:?}", self.0).is_empty() }
        fn dup(&self) -> Option<u32> { let o = Own(self.0.clone()); let a = o.get(); o.set(77); a }
        fn eq(&self, n: Option<u32>) -> bool { let o = Own(S::new()); *o.0.f_mut() = n.map(|n| n); self.0 == o.0 }
    }
    pub fn case() -> Case {
        Case { name: "53", text: r#"#[fxstruct(sync, builder)] struct S { #[fieldx(inner_mut, optional, clearer, predicate, get(copy), get_mut, set)] f: u32 }"#, ops: vec![Excl, Set, Get, Once, Other, Debug, Take, Clear, Has, Dup, Eq], start: None, new: || Box::new(Own(S::new())), build: || Box::new(Own(S::builder().f(9).build().unwrap())) }
    }
}
pub mod m54 {
    use super::*;
    #[fxstruct(sync, builder)]
    #[derive(Clone, Debug, PartialEq)]
    pub struct S { #[fieldx(inner_mut, optional, clearer, predicate, get(copy), get_mut, set(into))] f: u32, #[fieldx(inner_mut, default(3), get, get_mut, set, builder(off))] g: u32 }
    struct Own(S);
    #[allow(unused_mut)]
    impl Subject for Own {
        fn get(&self) -> Option<u32> { self.0.f().map(|x| x) }
        fn excl(&self) -> Writing<'_> { let mut g = self.0.f_mut(); Box::new(move |x| { if let Some(x) = x { *g = x.map(|x| x) } (*g).as_ref().map(|x| (*x)) }) }
        fn set(&self, n: u32) -> Option<u32> { self.0.set_f(Small(n as u8)).map(|x| x) }
        fn clear(&self) -> Option<u32> { self.0.clear_f().map(|x| x) }
        fn has(&self) -> bool { self.0.has_f() }
        fn other(&self, n: u32) -> Option<u32> { let a = *self.0.g(); *self.0.g_mut() = a + n; self.0.set_g(a); Some(*self.0.g()) }
        fn debug(&self) -> bool { !format!("{:?}", self.0).is_empty() }
        fn dup(&self) -> Option<u32> { let o = Own(self.0.clone()); let a = o.get(); o.set(77); a }
        fn eq(&self, n: Option<u32>) -> bool { let o = Own(S::new()); *o.0.f_mut() = n.map(|n| n); self.0 == o.0 }
    }
    pub fn case() -> Case {
        Case { name: "54", text: r#"#[fxstruct(sync, builder)] struct S { #[fieldx(inner_mut, optional, clearer, predicate, get(copy), get_mut, set(into))] f: u32 }"#, ops: vec![Excl, Set, Get, Once, Other, Debug, Take, Clear, Has, Dup, Eq], start: None, new: || Box::new(Own(S::new())), build: || Box::new(Own(S::builder().f(9).build().unwrap())) }
    }
}
pub mod m55 {
    use super::*;
    #[fxstruct(sync, builder)]
    #[derive(Clone, Debug, PartialEq)]
    pub struct S { #[fieldx(inner_mut, optional, clearer, predicate, default(fiveW()), get, get_mut, set)] f: W, #[fieldx(inner_mut, default(3), get, get_mut, set, builder(off))] g: u32 }
    struct Own(S);
    #[allow(unused_mut)]
    impl Subject for Own {
        fn shared(&self) -> Reading<'_> { let g = self.0.f(); Box::new(move || (*g).as_ref().map(|x| x.0)) }
        fn get(&self) -> Option<u32> { let g = self.0.f(); (*g).as_ref().map(|x| x.0) }
        fn excl(&self) -> Writing<'_> { let mut g = self.0.f_mut(); Box::new(move |x| { if let Some(x) = x { *g = x.map(|x| W(x)) } (*g).as_ref().map(|x| x.0) }) }
        fn set(&self, n: u32) -> Option<u32> { self.0.set_f(W(n)).map(|x| x.0) }
        fn clear(&self) -> Option<u32> { self.0.clear_f().map(|x| x.0) }
        fn has(&self) -> bool { self.0.has_f() }
        fn other(&self, n: u32) -> Option<u32> { let a = *self.0.g(); *self.0.g_mut() = a + n; self.0.set_g(a); Some(*self.0.g()) }
        fn debug(&self) -> bool { !format!("{:?}", self.0).is_empty() }
        fn dup(&self) -> Option<u32> { let o = Own(self.0.clone()); let a = o.get(); o.set(77); a }
        fn eq(&self, n: Option<u32>) -> bool { let o = Own(S::new()); *o.0.f_mut() = n.map(|n| W(n)); self.0 == o.0 }
    }
    pub fn case() -> Case {
        Case { name: "55", text: r#"#[fxstruct(sync, builder)] struct S { #[fieldx(inner_mut, optional, clearer, predicate, default(fiveW()), get, get_mut, set)] f: W }"#, ops: vec![Excl, Set, Get, Once, Other, Debug, Shared, Take, Clear, Has, Dup, Eq], start: Some(5), new: || Box::new(Own(S::new())), build: || Box::new(Own(S::builder().f(W(9)).build().unwrap())) }
    }
}
pub mod m56 {
    use super::*;
    #[fxstruct(sync, builder)]
    #[derive(Clone, Debug, PartialEq)]
    pub struct S { #[fieldx(inner_mut, optional, clearer, predicate, default(fiveW()), get, get_mut, set(into))] f: W, #[fieldx(inner_mut, default(3), get, get_mut, set, builder(off))] g: u32 }
    struct Own(S);
    #[allow(unused_mut)]
    impl Subject for Own {
        fn shared(&self) -> Reading<'_> { let g = self.0.f(); Box::new(move || (*g).as_ref().map(|x| x.0)) }
        fn get(&self) -> Option<u32> { let g = self.0.f(); (*g).as_ref().map(|x| x.0) }
        fn excl(&self) -> Writing<'_> { let mut g = self.0.f_mut(); Box::new(move |x| { if let Some(x) = x { *g = x.map(|x| W(x)) } (*g).as_ref().map(|x| x.0) }) }
        fn set(&self, n: u32) -> Option<u32> { self.0.set_f(Raw(n)).map(|x| x.0) }
        fn clear(&self) -> Option<u32> { self.0.clear_f().map(|x| x.0) }
        fn has(&self) -> bool { self.0.has_f() }
        fn other(&self, n: u32) -> Option<u32> { let a = *self.0.g(); *self.0.g_mut() = a + n; self.0.set_g(a); Some(*self.0.g()) }
        fn debug(&self) -> bool { !format!("{:?}", self.0).is_empty() }
        fn dup(&self) -> Option<u32> { let o = Own(self.0.clone()); let a = o.get(); o.set(77); a }
        fn eq(&self, n: Option<u32>) -> bool { let o = Own(S::new()); *o.0.f_mut() = n.map(|n| W(n)); self.0 == o.0 }
    }
    pub fn case() -> Case {
        Case { name: "56", text: r#"#[fxstruct(sync, builder)] struct S { #[fieldx(inner_mut, optional, clearer, predicate, default(fiveW()), get, get_mut, set(into))] f: W }"#, ops: vec![Excl, Set, Get, Once, Other, Debug, Shared, Take, Clear, Has, Dup, Eq], start: Some(5), new: || Box::new(Own(S::new())), build: || Box::new(Own(S::builder().f(W(9)).build().unwrap())) }
    }
}
pub mod m57 {
    use super::*;
    #[fxstruct(sync, builder)]
    #[derive(Clone, Debug, PartialEq)]
    pub struct S { #[fieldx(inner_mut, optional, clearer, predicate, default(fiveW()), get(clone), get_mut, set(into))] f: W, #[fieldx(inner_mut, default(3), get, get_mut, set, builder(off))] g: u32 }
    struct Own(S);
    #[allow(unused_mut)]
    impl Subject for Own {
        fn get(&self) -> Option<u32> { self.0.f().map(|x| x.0) }
        fn excl(&self) -> Writing<'_> { let mut g = self.0.f_mut(); Box::new(move |x| { if let Some(x) = x { *g = x.map(|x| W(x)) } (*g).as_ref().map(|x| x.0) }) }
        fn set(&self, n: u32) -> Option<u32> { self.0.set_f(Raw(n)).map(|x| x.0) }
        fn clear(&self) -> Option<u32> { self.0.clear_f().map(|x| x.0) }
        fn has(&self) -> bool { self.0.has_f() }
        fn other(&self, n: u32) -> Option<u32> { let a = *self.0.g(); *self.0.g_mut() = a + n; self.0.set_g(a); Some(*self.0.g()) }
        fn debug(&self) -> bool { !format!("{:?}", self.0).is_empty() }
        fn dup(&self) -> Option<u32> { let o = Own(self.0.clone()); let a = o.get(); o.set(77); a }
        fn eq(&self, n: Option<u32>) -> bool { let o = Own(S::new()); *o.0.f_mut() = n.map(|n| W(n)); self.0 == o.0 }
    }
    pub fn case() -> Case {
        Case { name: "57", text: r#"#[fxstruct(sync, builder)] struct S { #[fieldx(inner_mut, optional, clearer, predicate, default(fiveW()), get(clone), get_mut, set(into))] f: W }"#, ops: vec![Excl, Set, Get, Once, Other, Debug, Take, Clear, Has, Dup, Eq], start: Some(5), new: || Box::new(Own(S::new())), build: || Box::new(Own(S::builder().f(W(9)).build().unwrap())) }
    }
}
pub mod m58 {
    use super::*;
    #[fxstruct(sync, builder)]
    #[derive(Clone, Debug, PartialEq)]
    pub struct S { #[fieldx(inner_mut, optional, clearer, predicate, default(fiveu32()), get(copy), get_mut, set)] f: u32, #[fieldx(inner_mut, default(3), get, get_mut, set, builder(off))] g: u32 }
    struct Own(S);
    #[allow(unused_mut)]
    impl Subject for Own {
        fn get(&self) -> Option<u32> { self.0.f().map(|x| x) }
        fn excl(&self) -> Writing<'_> { let mut g = self.0.f_mut(); Box::new(move |x| { if let Some(x) = x { *g = x.map(|x| x) } (*g).as_ref().map(|x| (*x)) }) }
        fn set(&self, n: u32) -> Option<u32> { self.0.set_f(n).map(|x| x) }
        fn clear(&self) -> Option<u32> { self.0.clear_f().map(|x| x) }
        fn has(&self) -> bool { self.0.has_f() }
        fn other(&self, n: u32) -> Option<u32> { let a = *self.0.g(); *self.0.g_mut() = a + n; self.0.set_g(a); Some(*self.0.g()) }
        fn debug(&self) -> bool { !format!("{:?}", self.0).is_empty() }
        fn dup(&self) -> Option<u32> { let o = Own(self.0.clone()); let a = o.get(); o.set(77); a }
        fn eq(&self, n: Option<u32>) -> bool { let o = Own(S::new()); *o.0.f_mut() = n.map(|n| n); self.0 == o.0 }
    }
    pub fn case() -> Case {
        Case { name: "58", text: r#"#[fxstruct(sync, builder)] struct S { #[fieldx(inner_mut, optional, clearer, predicate, default(fiveu32()), get(copy), get_mut, set)] f: u32 }"#, ops: vec![Excl, Set, Get, Once, Other, Debug, Take, Clear, Has, Dup, Eq], start: Some(5), new: || Box::new(Own(S::new())), build: || Box::new(Own(S::builder().f(9).build().unwrap())) }
    }
}
pub mod m59 {
    use super::*;
    #[fxstruct(sync, builder)]
    #[derive(Clone, Debug, PartialEq)]
    pub struct S { #[fieldx(inner_mut, optional, clearer, predicate, default(fiveu32()), get(copy), get_mut, set(into))] f: u32, #[fieldx(inner_mut, default(3), get, get_mut, set, builder(off))] g: u32 }
    struct Own(S);
    #[allow(unused_mut)]
    impl Subject for Own {
        fn get(&self) -> Option<u32> { self.0.f().map(|x| x) }
        fn excl(&self) -> Writing<'_> { let mut g = self.0.f_mut(); Box::new(move |x| { if let Some(x) = x { *g = x.map(|x| x) } (*g).as_ref().map(|x| (*x)) }) }
        fn set(&self, n: u32) -> Option<u32> { self.0.set_f(Small(n as u8)).map(|x| x) }
        fn clear(&self) -> Option<u32> { self.0.clear_f().map(|x| x) }
        fn has(&self) -> bool { self.0.has_f() }
        fn other(&self, n: u32) -> Option<u32> { let a = *self.0.g(); *self.0.g_mut() = a + n; self.0.set_g(a); Some(*self.0.g()) }
        fn debug(&self) -> bool { !format!("{:?}", self.0).is_empty() }
        fn dup(&self) -> Option<u32> { let o = Own(self.0.clone()); let a = o.get(); o.set(77); a }
        fn eq(&self, n: Option<u32>) -> bool { let o = Own(S::new()); *o.0.f_mut() = n.map(|n| n); self.0 == o.0 }
    }
    pub fn case() -> Case {
        Case { name: "59", text: r#"#[fxstruct(sync, builder)] struct S { #[fieldx(inner_mut, optional, clearer, predicate, default(fiveu32()), get(copy), get_mut, set(into))] f: u32 }"#, ops: vec![Excl, Set, Get, Once, Other, Debug, Take, Clear, Has, Dup, Eq], start: Some(5), new: || Box::new(Own(S::new())), build: || Box::new(Own(S::builder().f(9).build().unwrap())) }
    }
}
pub mod m60 {
    use super::*;
    #[fxstruct(serde, builder)]
    #[derive(Clone, Debug, PartialEq)]
    pub struct S { #[fieldx(inner_mut, get, get_mut, set)] f: W, #[fieldx(inner_mut, default(3), get, get_mut, set, builder(off))] g: u32 }
    struct Own(S);
    #[allow(unused_mut)]
    impl Subject for Own {
        fn shared(&self) -> Reading<'_> { let g = self.0.f(); Box::new(move || Some((*g).0)) }
        fn get(&self) -> Option<u32> { let g = self.0.f(); Some((*g).0) }
        fn excl(&self) -> Writing<'_> { let mut g = self.0.f_mut(); Box::new(move |x| { if let Some(x) = x { *g = W(x.unwrap()) } Some((*g).0) }) }
        fn set(&self, n: u32) -> Option<u32> { Some(self.0.set_f(W(n)).0) }
        fn other(&self, n: u32) -> Option<u32> { let a = *self.0.g(); *self.0.g_mut() = a + n; self.0.set_g(a); Some(*self.0.g()) }
        fn debug(&self) -> bool { !format!("{:?}", self.0).is_empty() }
        fn dup(&self) -> Option<u32> { let o = Own(self.0.clone()); let a = o.get(); o.set(77); a }
        fn eq(&self, n: Option<u32>) -> bool { let o = Own(S::new()); *o.0.f_mut() = W(n.unwrap()); self.0 == o.0 }
        fn ser(&self) -> Option<u32> { shown(&serde_json::to_string(&self.0).unwrap()) }
    }
    pub fn case() -> Case {
        Case { name: "60", text: r#"#[fxstruct(serde, builder)] struct S { #[fieldx(inner_mut, get, get_mut, set)] f: W }"#, ops: vec![Excl, Set, Get, Once, Other, Debug, Shared, Dup, Eq, Ser], start: Some(0), new: || Box::new(Own(S::new())), build: || Box::new(Own(S::builder().f(W(9)).build().unwrap())) }
    }
}
pub mod m61 {
    use super::*;
    #[fxstruct(serde, builder)]
    #[derive(Clone, Debug, PartialEq)]
    pub struct S { #[fieldx(inner_mut, get, get_mut, set(into))] f: W, #[fieldx(inner_mut, default(3), get, get_mut, set, builder(off))] g: u32 }
    struct Own(S);
    #[allow(unused_mut)]
    impl Subject for Own {
        fn shared(&self) -> Reading<'_> { let g = self.0.f(); Box::new(move || Some((*g).0)) }
        fn get(&self) -> Option<u32> { let g = self.0.f(); Some((*g).0) }
        fn excl(&self) -> Writing<'_> { let mut g = self.0.f_mut(); Box::new(move |x| { if let Some(x) = x { *g = W(x.unwrap()) } Some((*g).0) }) }
        fn set(&self, n: u32) -> Option<u32> { Some(self.0.set_f(Raw(n)).0) }
        fn other(&self, n: u32) -> Option<u32> { let a = *self.0.g(); *self.0.g_mut() = a + n; self.0.set_g(a); Some(*self.0.g()) }
        fn debug(&self) -> bool { !format!("{:?}", self.0).is_empty() }
        fn dup(&self) -> Option<u32> { let o = Own(self.0.clone()); let a = o.get(); o.set(77); a }
        fn eq(&self, n: Option<u32>) -> bool { let o = Own(S::new()); *o.0.f_mut() = W(n.unwrap()); self.0 == o.0 }
        fn ser(&self) -> Option<u32> { shown(&serde_json::to_string(&self.0).unwrap()) }
    }
    pub fn case() -> Case {
        Case { name: "61", text: r#"#[fxstruct(serde, builder)] struct S { #[fieldx(inner_mut, get, get_mut, set(into))] f: W }"#, ops: vec![Excl, Set, Get, Once, Other, Debug, Shared, Dup, Eq, Ser], start: Some(0), new: || Box::new(Own(S::new())), build: || Box::new(Own(S::builder().f(W(9)).build().unwrap())) }
    }
}
pub mod m62 {
    use super::*;
    #[fxstruct(serde, builder)]
    #[derive(Clone, Debug, PartialEq)]
    pub struct S { #[fieldx(inner_mut, get(clone), get_mut, set(into))] f: W, #[fieldx(inner_mut, default(3), get, get_mut, set, builder(off))] g: u32 }
    struct Own(S);
    #[allow(unused_mut)]
    impl Subject for Own {
        fn get(&self) -> Option<u32> { Some(self.0.f().0) }
        fn excl(&self) -> Writing<'_> { let mut g = self.0.f_mut(); Box::new(move |x| { if let Some(x) = x { *g = W(x.unwrap()) } Some((*g).0) }) }
        fn set(&self, n: u32) -> Option<u32> { Some(self.0.set_f(Raw(n)).0) }
        fn other(&self, n: u32) -> Option<u32> { let a = *self.0.g(); *self.0.g_mut() = a + n; self.0.set_g(a); Some(*self.0.g()) }
        fn debug(&self) -> bool { !format!("{:?}", self.0).is_empty() }
        fn dup(&self) -> Option<u32> { let o = Own(self.0.clone()); let a = o.get(); o.set(77); a }
        fn eq(&self, n: Option<u32>) -> bool { let o = Own(S::new()); *o.0.f_mut() = W(n.unwrap()); self.0 == o.0 }
        fn ser(&self) -> Option<u32> { shown(&serde_json::to_string(&self.0).unwrap()) }
    }
    pub fn case() -> Case {
        Case { name: "62", text: r#"#[fxstruct(serde, builder)] struct S { #[fieldx(inner_mut, get(clone), get_mut, set(into))] f: W }"#, ops: vec![Excl, Set, Get, Once, Other, Debug, Dup, Eq, Ser], start: Some(0), new: || Box::new(Own(S::new())), build: || Box::new(Own(S::builder().f(W(9)).build().unwrap())) }
    }
}
pub mod m63 {
    use super::*;
    #[fxstruct(serde, builder)]
    #[derive(Clone, Debug, PartialEq)]
    pub struct S { #[fieldx(inner_mut, get(copy), get_mut, set)] f: u32, #[fieldx(inner_mut, default(3), get, get_mut, set, builder(off))] g: u32 }
    struct Own(S);
    #[allow(unused_mut)]
    impl Subject for Own {
        fn get(&self) -> Option<u32> { Some(self.0.f()) }
        fn excl(&self) -> Writing<'_> { let mut g = self.0.f_mut(); Box::new(move |x| { if let Some(x) = x { *g = x.unwrap() } Some((*g)) }) }
        fn set(&self, n: u32) -> Option<u32> { Some(self.0.set_f(n)) }
        fn other(&self, n: u32) -> Option<u32> { let a = *self.0.g(); *self.0.g_mut() = a + n; self.0.set_g(a); Some(*self.0.g()) }
        fn debug(&self) -> bool { !format!("{:?}", self.0).is_empty() }
        fn dup(&self) -> Option<u32> { let o = Own(self.0.clone()); let a = o.get(); o.set(77); a }
        fn eq(&self, n: Option<u32>) -> bool { let o = Own(S::new()); *o.0.f_mut() = n.unwrap(); self.0 == o.0 }
        fn ser(&self) -> Option<u32> { shown(&serde_json::to_string(&self.0).unwrap()) }
    }
    pub fn case() -> Case {
        Case { name: "63", text: r#"#[fxstruct(serde, builder)] struct S { #[fieldx(inner_mut, get(copy), get_mut, set)] f: u32 }"#, ops: vec![Excl, Set, Get, Once, Other, Debug, Dup, Eq, Ser], start: Some(0), new: || Box::new(Own(S::new())), build: || Box::new(Own(S::builder().f(9).build().unwrap())) }
    }
}
pub mod m64 {
    use super::*;
    #[fxstruct(serde, builder)]
    #[derive(Clone, Debug, PartialEq)]
    pub struct S { #[fieldx(inner_mut, get(copy), get_mut, set(into))] f: u32, #[fieldx(inner_mut, default(3), get, get_mut, set, builder(off))] g: u32 }
    struct Own(S);
    #[allow(unused_mut)]
    impl Subject for Own {
        fn get(&self) -> Option<u32> { Some(self.0.f()) }
        fn excl(&self) -> Writing<'_> { let mut g = self.0.f_mut(); Box::new(move |x| { if let Some(x) = x { *g = x.unwrap() } Some((*g)) }) }
        fn set(&self, n: u32) -> Option<u32> { Some(self.0.set_f(Small(n as u8))) }
        fn other(&self, n: u32) -> Option<u32> { let a = *self.0.g(); *self.0.g_mut() = a + n; self.0.set_g(a); Some(*self.0.g()) }
        fn debug(&self) -> bool { !format!("{:?}", self.0).is_empty() }
        fn dup(&self) -> Option<u32> { let o = Own(self.0.clone()); let a = o.get(); o.set(77); a }
        fn eq(&self, n: Option<u32>) -> bool { let o = Own(S::new()); *o.0.f_mut() = n.unwrap(); self.0 == o.0 }
        fn ser(&self) -> Option<u32> { shown(&serde_json::to_string(&self.0).unwrap()) }
    }
    pub fn case() -> Case {
        Case { name: "64", text: r#"#[fxstruct(serde, builder)] struct S { #[fieldx(inner_mut, get(copy), get_mut, set(into))] f: u32 }"#, ops: vec![Excl, Set, Get, Once, Other, Debug, Dup, Eq, Ser], start: Some(0), new: || Box::new(Own(S::new())), build: || Box::new(Own(S::builder().f(9).build().unwrap())) }
    }
}
pub mod m65 {
    use super::*;
    #[fxstruct(serde, builder)]
    #[derive(Clone, Debug, PartialEq)]
    pub struct S { #[fieldx(inner_mut, default(fiveW()), get, get_mut, set)] f: W, #[fieldx(inner_mut, default(3), get, get_mut, set, builder(off))] g: u32 }
    struct Own(S);
    #[allow(unused_mut)]
    impl Subject for Own {
        fn shared(&self) -> Reading<'_> { let g = self.0.f(); Box::new(move || Some((*g).0)) }
        fn get(&self) -> Option<u32> { let g = self.0.f(); Some((*g).0) }
        fn excl(&self) -> Writing<'_> { let mut g = self.0.f_mut(); Box::new(move |x| { if let Some(x) = x { *g = W(x.unwrap()) } Some((*g).0) }) }
        fn set(&self, n: u32) -> Option<u32> { Some(self.0.set_f(W(n)).0) }
        fn other(&self, n: u32) -> Option<u32> { let a = *self.0.g(); *self.0.g_mut() = a + n; self.0.set_g(a); Some(*self.0.g()) }
        fn debug(&self) -> bool { !format!("{:?}", self.0).is_empty() }
        fn dup(&self) -> Option<u32> { let o = Own(self.0.clone()); let a = o.get(); o.set(77); a }
        fn eq(&self, n: Option<u32>) -> bool { let o = Own(S::new()); *o.0.f_mut() = W(n.unwrap()); self.0 == o.0 }
        fn ser(&self) -> Option<u32> { shown(&serde_json::to_string(&self.0).unwrap()) }
    }
    pub fn case() -> Case {
        Case { name: "65", text: r#"#[fxstruct(serde, builder)] struct S { #[fieldx(inner_mut, default(fiveW()), get, get_mut, set)] f: W }"#, ops: vec![Excl, Set, Get, Once, Other, Debug, Shared, Dup, Eq, Ser], start: Some(5), new: || Box::new(Own(S::new())), build: || Box::new(Own(S::builder().f(W(9)).build().unwrap())) }
    }
}
pub mod m66 {
    use super::*;
    #[fxstruct(serde, builder)]
    #[derive(Clone, Debug, PartialEq)]
    pub struct S { #[fieldx(inner_mut, default(fiveW()), get, get_mut, set(into))] f: W, #[fieldx(inner_mut, default(3), get, get_mut, set, builder(off))] g: u32 }
    struct Own(S);
    #[allow(unused_mut)]
    impl Subject for Own {
        fn shared(&self) -> Reading<'_> { let g = self.0.f(); Box::new(move || Some((*g).0)) }
        fn get(&self) -> Option<u32> { let g = self.0.f(); Some((*g).0) }
        fn excl(&self) -> Writing<'_> { let mut g = self.0.f_mut(); Box::new(move |x| { if let Some(x) = x { *g = W(x.unwrap()) } Some((*g).0) }) }
        fn set(&self, n: u32) -> Option<u32> { Some(self.0.set_f(Raw(n)).0) }
        fn other(&self, n: u32) -> Option<u32> { let a = *self.0.g(); *self.0.g_mut() = a + n; self.0.set_g(a); Some(*self.0.g()) }
        fn debug(&self) -> bool { !format!("{:?}", self.0).is_empty() }
        fn dup(&self) -> Option<u32> { let o = Own(self.0.clone()); let a = o.get(); o.set(77); a }
        fn eq(&self, n: Option<u32>) -> bool { let o = Own(S::new()); *o.0.f_mut() = W(n.unwrap()); self.0 == o.0 }
        fn ser(&self) -> Option<u32> { shown(&serde_json::to_string(&self.0).unwrap()) }
    }
    pub fn case() -> Case {
        Case { name: "66", text: r#"#[fxstruct(serde, builder)] struct S { #[fieldx(inner_mut, default(fiveW()), get, get_mut, set(into))] f: W }"#, ops: vec![Excl, Set, Get, Once, Other, Debug, Shared, Dup, Eq, Ser], start: Some(5), new: || Box::new(Own(S::new())), build: || Box::new(Own(S::builder().f(W(9)).build().unwrap())) }
    }
}
pub mod m67 {
    use super::*;
    #[fxstruct(serde, builder)]
    #[derive(Clone, Debug, PartialEq)]
    pub struct S { #[fieldx(inner_mut, default(fiveW()), get(clone), get_mut, set(into))] f: W, #[fieldx(inner_mut, default(3), get, get_mut, set, builder(off))] g: u32 }
    struct Own(S);
    #[allow(unused_mut)]
    impl Subject for Own {
        fn get(&self) -> Option<u32> { Some(self.0.f().0) }
        fn excl(&self) -> Writing<'_> { let mut g = self.0.f_mut(); Box::new(move |x| { if let Some(x) = x { *g = W(x.unwrap()) } Some((*g).0) }) }
        fn set(&self, n: u32) -> Option<u32> { Some(self.0.set_f(Raw(n)).0) }
        fn other(&self, n: u32) -> Option<u32> { let a = *self.0.g(); *self.0.g_mut() = a + n; self.0.set_g(a); Some(*self.0.g()) }
        fn debug(&self) -> bool { !format!("{:?}", self.0).is_empty() }
        fn dup(&self) -> Option<u32> { let o = Own(self.0.clone()); let a = o.get(); o.set(77); a }
        fn eq(&self, n: Option<u32>) -> bool { let o = Own(S::new()); *o.0.f_mut() = W(n.unwrap()); self.0 == o.0 }
        fn ser(&self) -> Option<u32> { shown(&serde_json::to_string(&self.0).unwrap()) }
    }
    pub fn case() -> Case {
        Case { name: "67", text: r#"#[fxstruct(serde, builder)] struct S { #[fieldx(inner_mut, default(fiveW()), get(clone), get_mut, set(into))] f: W }"#, ops: vec![Excl, Set, Get, Once, Other, Debug, Dup, Eq, Ser], start: Some(5), new: || Box::new(Own(S::new())), build: || Box::new(Own(S::builder().f(W(9)).build().unwrap())) }
    }
}
pub mod m68 {
    use super::*;
    #[fxstruct(serde, builder)]
    #[derive(Clone, Debug, PartialEq)]
    pub struct S { #[fieldx(inner_mut, default(fiveu32()), get(copy), get_mut, set)] f: u32, #[fieldx(inner_mut, default(3), get, get_mut, set, builder(off))] g: u32 }
    struct Own(S);
    #[allow(unused_mut)]
    impl Subject for Own {
        fn get(&self) -> Option<u32> { Some(self.0.f()) }
        fn excl(&self) -> Writing<'_> { let mut g = self.0.f_mut(); Box::new(move |x| { if let Some(x) = x { *g = x.unwrap() } Some((*g)) }) }
        fn set(&self, n: u32) -> Option<u32> { Some(self.0.set_f(n)) }
        fn other(&self, n: u32) -> Option<u32> { let a = *self.0.g(); *self.0.g_mut() = a + n; self.0.set_g(a); Some(*self.0.g()) }
        fn debug(&self) -> bool { !format!("{:?}", self.0).is_empty() }
        fn dup(&self) -> Option<u32> { let o = Own(self.0.clone()); let a = o.get(); o.set(77); a }
        fn eq(&self, n: Option<u32>) -> bool { let o = Own(S::new()); *o.0.f_mut() = n.unwrap(); self.0 == o.0 }
        fn ser(&self) -> Option<u32> { shown(&serde_json::to_string(&self.0).unwrap()) }
    }
    pub fn case() -> Case {
        Case { name: "68", text: r#"#[fxstruct(serde, builder)] struct S { #[fieldx(inner_mut, default(fiveu32()), get(copy), get_mut, set)] f: u32 }"#, ops: vec![Excl, Set, Get, Once, Other, Debug, Dup, Eq, Ser], start: Some(5), new: || Box::new(Own(S::new())), build: || Box::new(Own(S::builder().f(9).build().unwrap())) }
    }
}
pub mod m69 {
    use super::*;
    #[fxstruct(serde, builder)]
    #[derive(Clone, Debug, PartialEq)]
    pub struct S { #[fieldx(inner_mut, default(fiveu32()), get(copy), get_mut, set(into))] f: u32, #[fieldx(inner_mut, default(3), get, get_mut, set, builder(off))] g: u32 }
    struct Own(S);
    #[allow(unused_mut)]
    impl Subject for Own {
        fn get(&self) -> Option<u32> { Some(self.0.f()) }
        fn excl(&self) -> Writing<'_> { let mut g = self.0.f_mut(); Box::new(move |x| { if let Some(x) = x { *g = x.unwrap() } Some((*g)) }) }
        fn set(&self, n: u32) -> Option<u32> { Some(self.0.set_f(Small(n as u8))) }
        fn other(&self, n: u32) -> Option<u32> { let a = *self.0.g(); *self.0.g_mut() = a + n; self.0.set_g(a); Some(*self.0.g()) }
        fn debug(&self) -> bool { !format!("{:?}", self.0).is_empty() }
        fn dup(&self) -> Option<u32> { let o = Own(self.0.clone()); let a = o.get(); o.set(77); a }
        fn eq(&self, n: Option<u32>) -> bool { let o = Own(S::new()); *o.0.f_mut() = n.unwrap(); self.0 == o.0 }
        fn ser(&self) -> Option<u32> { shown(&serde_json::to_string(&self.0).unwrap()) }
    }
    pub fn case() -> Case {
        Case { name: "69", text: r#"#[fxstruct(serde, builder)] struct S { #[fieldx(inner_mut, default(fiveu32()), get(copy), get_mut, set(into))] f: u32 }"#, ops: vec![Excl, Set, Get, Once, Other, Debug, Dup, Eq, Ser], start: Some(5), new: || Box::new(Own(S::new())), build: || Box::new(Own(S::builder().f(9).build().unwrap())) }
    }
}
pub mod m70 {
    use super::*;
    #[fxstruct(serde, builder)]
    #[derive(Clone, Debug, PartialEq)]
    pub struct S { #[fieldx(inner_mut, optional, clearer, predicate, get, get_mut, set)] f: W, #[fieldx(inner_mut, default(3), get, get_mut, set, builder(off))] g: u32 }
    struct Own(S);
    #[allow(unused_mut)]
    impl Subject for Own {
        fn shared(&self) -> Reading<'_> { let g = self.0.f(); Box::new(move || (*g).as_ref().map(|x| x.0)) }
        fn get(&self) -> Option<u32> { let g = self.0.f(); (*g).as_ref().map(|x| x.0) }
        fn excl(&self) -> Writing<'_> { let mut g = self.0.f_mut(); Box::new(move |x| { if let Some(x) = x { *g = x.map(|x| W(x)) } (*g).as_ref().map(|x| x.0) }) }
        fn set(&self, n: u32) -> Option<u32> { self.0.set_f(W(n)).map(|x| x.0) }
        fn clear(&self) -> Option<u32> { self.0.clear_f().map(|x| x.0) }
        fn has(&self) -> bool { self.0.has_f() }
        fn other(&self, n: u32) -> Option<u32> { let a = *self.0.g(); *self.0.g_mut() = a + n; self.0.set_g(a); Some(*self.0.g()) }
        fn debug(&self) -> bool { !format!("{:?}", self.0).is_empty() }
        fn dup(&self) -> Option<u32> { let o = Own(self.0.clone()); let a = o.get(); o.set(77); a }
        fn eq(&self, n: Option<u32>) -> bool { let o = Own(S::new()); *o.0.f_mut() = n.map(|n| W(n)); self.0 == o.0 }
        fn ser(&self) -> Option<u32> { shown(&serde_json::to_string(&self.0).unwrap()) }
    }
    pub fn case() -> Case {
        Case { name: "70", text: r#"#[fxstruct(serde, builder)] struct S { #[fieldx(inner_mut, optional, clearer, predicate, get, get_mut, set)] f: W }"#, ops: vec![Excl, Set, Get, Once, Other, Debug, Shared, Take, Clear, Has, Dup, Eq, Ser], start: None, new: || Box::new(Own(S::new())), build: || Box::new(Own(S::builder().f(W(9)).build().unwrap())) }
    }
}
pub mod m71 {
    use super::*;
    #[fxstruct(serde, builder)]
    #[derive(Clone, Debug, PartialEq)]
    pub struct S { #[fieldx(inner_mut, optional, clearer, predicate, get, get_mut, set(into))] f: W, #[fieldx(inner_mut, default(3), get, get_mut, set, builder(off))] g: u32 }
    struct Own(S);
    #[allow(unused_mut)]
    impl Subject for Own {
        fn shared(&self) -> Reading<'_> { let g = self.0.f(); Box::new(move || (*g).as_ref().map(|x| x.0)) }
        fn get(&self) -> Option<u32> { let g = self.0.f(); (*g).as_ref().map(|x| x.0) }
        fn excl(&self) -> Writing<'_> { let mut g = self.0.f_mut(); Box::new(move |x| { if let Some(x) = x { *g = x.map(|x| W(x)) } (*g).as_ref().map(|x| x.0) }) }
        fn set(&self, n: u32) -> Option<u32> { self.0.set_f(Raw(n)).map(|x| x.0) }
        fn clear(&self) -> Option<u32> { self.0.clear_f().map(|x| x.0) }
        fn has(&self) -> bool { self.0.has_f() }
        fn other(&self, n: u32) -> Option<u32> { let a = *self.0.g(); *self.0.g_mut() = a + n; self.0.set_g(a); Some(*self.0.g()) }
        fn debug(&self) -> bool { !format!("{:?}", self.0).is_empty() }
        fn dup(&self) -> Option<u32> { let o = Own(self.0.clone()); let a = o.get(); o.set(77); a }
        fn eq(&self, n: Option<u32>) -> bool { let o = Own(S::new()); *o.0.f_mut() = n.map(|n| W(n)); self.0 == o.0 }
        fn ser(&self) -> Option<u32> { shown(&serde_json::to_string(&self.0).unwrap()) }
    }
    pub fn case() -> Case {
        Case { name: "71", text: r#"#[fxstruct(serde, builder)] struct S { #[fieldx(inner_mut, optional, clearer, predicate, get, get_mut, set(into))] f: W }"#, ops: vec![Excl, Set, Get, Once, Other, Debug, Shared, Take, Clear, Has, Dup, Eq, Ser], start: None, new: || Box::new(Own(S::new())), build: || Box::new(Own(S::builder().f(W(9)).build().unwrap())) }
    }
}
pub mod m72 {
    use super::*;
    #[fxstruct(serde, builder)]
    #[derive(Clone, Debug, PartialEq)]
    pub struct S { #[fieldx(inner_mut, optional, clearer, predicate, get(clone), get_mut, set(into))] f: W, #[fieldx(inner_mut, default(3), get, get_mut, set, builder(off))] g: u32 }
    struct Own(S);
    #[allow(unused_mut)]
    impl Subject for Own {
        fn get(&self) -> Option<u32> { self.0.f().map(|x| x.0) }
        fn excl(&self) -> Writing<'_> { let mut g = self.0.f_mut(); Box::new(move |x| { if let Some(x) = x { *g = x.map(|x| W(x)) } (*g).as_ref().map(|x| x.0) }) }
        fn set(&self, n: u32) -> Option<u32> { self.0.set_f(Raw(n)).map(|x| x.0) }
        fn clear(&self) -> Option<u32> { self.0.clear_f().map(|x| x.0) }
        fn has(&self) -> bool { self.0.has_f() }
        fn other(&self, n: u32) -> Option<u32> { let a = *self.0.g(); *self.0.g_mut() = a + n; self.0.set_g(a); Some(*self.0.g()) }
        fn debug(&self) -> bool { !format!("{:?}", self.0).is_empty() }
        fn dup(&self) -> Option<u32> { let o = Own(self.0.clone()); let a = o.get(); o.set(77); a }
        fn eq(&self, n: Option<u32>) -> bool { let o = Own(S::new()); *o.0.f_mut() = n.map(|n| W(n)); self.0 == o.0 }
        fn ser(&self) -> Option<u32> { shown(&serde_json::to_string(&self.0).unwrap()) }
    }
    pub fn case() -> Case {
        Case { name: "72", text: r#"#[fxstruct(serde, builder)] struct S { #[fieldx(inner_mut, optional, clearer, predicate, get(clone), get_mut, set(into))] f: W }"#, ops: vec![Excl, Set, Get, Once, Other, Debug, Take, Clear, Has, Dup, Eq, Ser], start: None, new: || Box::new(Own(S::new())), build: || Box::new(Own(S::builder().f(W(9)).build().unwrap())) }
    }
}
pub mod m73 {
    use super::*;
    #[fxstruct(serde, builder)]
    #[derive(Clone, Debug, PartialEq)]
    pub struct S { #[fieldx(inner_mut, optional, clearer, predicate, get(copy), get_mut, set)] f: u32, #[fieldx(inner_mut, default(3), get, get_mut, set, builder(off))] g: u32 }
    struct Own(S);
    #[allow(unused_mut)]
    impl Subject for Own {
        fn get(&self) -> Option<u32> { self.0.f().map(|x| x) }
        fn excl(&self) -> Writing<'_> { let mut g = self.0.f_mut(); Box::new(move |x| { if let Some(x) = x { *g = x.map(|x| x) } (*g).as_ref().map(|x| (*x)) }) }
        fn set(&self, n: u32) -> Option<u32> { self.0.set_f(n).map(|x| x) }
        fn clear(&self) -> Option<u32> { self.0.clear_f().map(|x| x) }
        fn has(&self) -> bool { self.0.has_f() }
        fn other(&self, n: u32) -> Option<u32> { let a = *self.0.g(); *self.0.g_mut() = a + n; self.0.set_g(a); Some(*self.0.g()) }
        fn debug(&self) -> bool { !format!("{:?}", self.0).is_empty() }
        fn dup(&self) -> Option<u32> { let o = Own(self.0.clone()); let a = o.get(); o.set(77); a }
        fn eq(&self, n: Option<u32>) -> bool { let o = Own(S::new()); *o.0.f_mut() = n.map(|n| n); self.0 == o.0 }
        fn ser(&self) -> Option<u32> { shown(&serde_json::to_string(&self.0).unwrap()) }
    }
    pub fn case() -> Case {
        Case { name: "73", text: r#"#[fxstruct(serde, builder)] struct S { #[fieldx(inner_mut, optional, clearer, predicate, get(copy), get_mut, set)] f: u32 }"#, ops: vec![Excl, Set, Get, Once, Other, Debug, Take, Clear, Has, Dup, Eq, Ser], start: None, new: || Box::new(Own(S::new())), build: || Box::new(Own(S::builder().f(9).build().unwrap())) }
    }
}
pub mod m74 {
    use super::*;
    #[fxstruct(serde, builder)]
    #[derive(Clone, Debug, PartialEq)]
    pub struct S { #[fieldx(inner_mut, optional, clearer, predicate, get(copy), get_mut, set(into))] f: u32, #[fieldx(inner_mut, default(3), get, get_mut, set, builder(off))] g: u32 }
    struct Own(S);
    #[allow(unused_mut)]
    impl Subject for Own {
        fn get(&self) -> Option<u32> { self.0.f().map(|x| x) }
        fn excl(&self) -> Writing<'_> { let mut g = self.0.f_mut(); Box::new(move |x| { if let Some(x) = x { *g = x.map(|x| x) } (*g).as_ref().map(|x| (*x)) }) }
        fn set(&self, n: u32) -> Option<u32> { self.0.set_f(Small(n as u8)).map(|x| x) }
        fn clear(&self) -> Option<u32> { self.0.clear_f().map(|x| x) }
        fn has(&self) -> bool { self.0.has_f() }
        fn other(&self, n: u32) -> Option<u32> { let a = *self.0.g(); *self.0.g_mut() = a + n; self.0.set_g(a); Some(*self.0.g()) }
        fn debug(&self) -> bool { !format!("{:?}", self.0).is_empty() }
        fn dup(&self) -> Option<u32> { let o = Own(self.0.clone()); let a = o.get(); o.set(77); a }
        fn eq(&self, n: Option<u32>) -> bool { let o = Own(S::new()); *o.0.f_mut() = n.map(|n| n); self.0 == o.0 }
        fn ser(&self) -> Option<u32> { shown(&serde_json::to_string(&self.0).unwrap()) }
    }
    pub fn case() -> Case {
        Case { name: "74", text: r#"#[fxstruct(serde, builder)] struct S { #[fieldx(inner_mut, optional, clearer, predicate, get(copy), get_mut, set(into))] f: u32 }"#, ops: vec![Excl, Set, Get, Once, Other, Debug, Take, Clear, Has, Dup, Eq, Ser], start: None, new: || Box::new(Own(S::new())), build: || Box::new(Own(S::builder().f(9).build().unwrap())) }
    }
}
pub mod m75 {
    use super::*;
    #[fxstruct(serde, builder)]
    #[derive(Clone, Debug, PartialEq)]
    pub struct S { #[fieldx(inner_mut, optional, clearer, predicate, default(fiveW()), get, get_mut, set)] f: W, #[fieldx(inner_mut, default(3), get, get_mut, set, builder(off))] g: u32 }
    struct Own(S);
    #[allow(unused_mut)]
    impl Subject for Own {
        fn shared(&self) -> Reading<'_> { let g = self.0.f(); Box::new(move || (*g).as_ref().map(|x| x.0)) }
        fn get(&self) -> Option<u32> { let g = self.0.f(); (*g).as_ref().map(|x| x.0) }
        fn excl(&self) -> Writing<'_> { let mut g = self.0.f_mut(); Box::new(move |x| { if let Some(x) = x { *g = x.map(|x| W(x)) } (*g).as_ref().map(|x| x.0) }) }
        fn set(&self, n: u32) -> Option<u32> { self.0.set_f(W(n)).map(|x| x.0) }
        fn clear(&self) -> Option<u32> { self.0.clear_f().map(|x| x.0) }
        fn has(&self) -> bool { self.0.has_f() }
        fn other(&self, n: u32) -> Option<u32> { let a = *self.0.g(); *self.0.g_mut() = a + n; self.0.set_g(a); Some(*self.0.g()) }
        fn debug(&self) -> bool { !format!("{:?}", self.0).is_empty() }
        fn dup(&self) -> Option<u32> { let o = Own(self.0.clone()); let a = o.get(); o.set(77); a }
        fn eq(&self, n: Option<u32>) -> bool { let o = Own(S::new()); *o.0.f_mut() = n.map(|n| W(n)); self.0 == o.0 }
        fn ser(&self) -> Option<u32> { shown(&serde_json::to_string(&self.0).unwrap()) }
    }
    pub fn case() -> Case {
        Case { name: "75", text: r#"#[fxstruct(serde, builder)] struct S { #[fieldx(inner_mut, optional, clearer, predicate, default(fiveW()), get, get_mut, set)] f: W }"#, ops: vec![Excl, Set, Get, Once, Other, Debug, Shared, Take, Clear, Has, Dup, Eq, Ser], start: Some(5), new: || Box::new(Own(S::new())), build: || Box::new(Own(S::builder().f(W(9)).build().unwrap())) }
    }
}
pub mod m76 {
    use super::*;
    #[fxstruct(serde, builder)]
    #[derive(Clone, Debug, PartialEq)]
    pub struct S { #[fieldx(inner_mut, optional, clearer, predicate, default(fiveW()), get, get_mut, set(into))] f: W, #[fieldx(inner_mut, default(3), get, get_mut, set, builder(off))] g: u32 }
    struct Own(S);
    #[allow(unused_mut)]
    impl Subject for Own {
        fn shared(&self) -> Reading<'_> { let g = self.0.f(); Box::new(move || (*g).as_ref().map(|x| x.0)) }
        fn get(&self) -> Option<u32> { let g = self.0.f(); (*g).as_ref().map(|x| x.0) }
        fn excl(&self) -> Writing<'_> { let mut g = self.0.f_mut(); Box::new(move |x| { if let Some(x) = x { *g = x.map(|x| W(x)) } (*g).as_ref().map(|x| x.0) }) }
        fn set(&self, n: u32) -> Option<u32> { self.0.set_f(Raw(n)).map(|x| x.0) }
        fn clear(&self) -> Option<u32> { self.0.clear_f().map(|x| x.0) }
        fn has(&self) -> bool { self.0.has_f() }
        fn other(&self, n: u32) -> Option<u32> { let a = *self.0.g(); *self.0.g_mut() = a + n; self.0.set_g(a); Some(*self.0.g()) }
        fn debug(&self) -> bool { !format!("{:?}", self.0).is_empty() }
        fn dup(&self) -> Option<u32> { let o = Own(self.0.clone()); let a = o.get(); o.set(77); a }
        fn eq(&self, n: Option<u32>) -> bool { let o = Own(S::new()); *o.0.f_mut() = n.map(|n| W(n)); self.0 == o.0 }
        fn ser(&self) -> Option<u32> { shown(&serde_json::to_string(&self.0).unwrap()) }
    }
    pub fn case() -> Case {
        Case { name: "76", text: r#"#[fxstruct(serde, builder)] struct S { #[fieldx(inner_mut, optional, clearer, predicate, default(fiveW()), get, get_mut, set(into))] f: W }"#, ops: vec![Excl, Set, Get, Once, Other, Debug, Shared, Take, Clear, Has, Dup, Eq, Ser], start: Some(5), new: || Box::new(Own(S::new())), build: || Box::new(Own(S::builder().f(W(9)).build().unwrap())) }
    }
}
pub mod m77 {
    use super::*;
    #[fxstruct(serde, builder)]
    #[derive(Clone, Debug, PartialEq)]
    pub struct S { #[fieldx(inner_mut, optional, clearer, predicate, default(fiveW()), get(clone), get_mut, set(into))] f: W, #[fieldx(inner_mut, default(3), get, get_mut, set, builder(off))] g: u32 }
    struct Own(S);
    #[allow(unused_mut)]
    impl Subject for Own {
        fn get(&self) -> Option<u32> { self.0.f().map(|x| x.0) }
        fn excl(&self) -> Writing<'_> { let mut g = self.0.f_mut(); Box::new(move |x| { if let Some(x) = x { *g = x.map(|x| W(x)) } (*g).as_ref().map(|x| x.0) }) }
        fn set(&self, n: u32) -> Option<u32> { self.0.set_f(Raw(n)).map(|x| x.0) }
        fn clear(&self) -> Option<u32> { self.0.clear_f().map(|x| x.0) }
        fn has(&self) -> bool { self.0.has_f() }
        fn other(&self, n: u32) -> Option<u32> { let a = *self.0.g(); *self.0.g_mut() = a + n; self.0.set_g(a); Some(*self.0.g()) }
        fn debug(&self) -> bool { !format!("{:?}", self.0).is_empty() }
        fn dup(&self) -> Option<u32> { let o = Own(self.0.clone()); let a = o.get(); o.set(77); a }
        fn eq(&self, n: Option<u32>) -> bool { let o = Own(S::new()); *o.0.f_mut() = n.map(|n| W(n)); self.0 == o.0 }
        fn ser(&self) -> Option<u32> { shown(&serde_json::to_string(&self.0).unwrap()) }
    }
    pub fn case() -> Case {
        Case { name: "77", text: r#"#[fxstruct(serde, builder)] struct S { #[fieldx(inner_mut, optional, clearer, predicate, default(fiveW()), get(clone), get_mut, set(into))] f: W }"#, ops: vec![Excl, Set, Get, Once, Other, Debug, Take, Clear, Has, Dup, Eq, Ser], start: Some(5), new: || Box::new(Own(S::new())), build: || Box::new(Own(S::builder().f(W(9)).build().unwrap())) }
    }
}
pub mod m78 {
    use super::*;
    #[fxstruct(serde, builder)]
    #[derive(Clone, Debug, PartialEq)]
    pub struct S { #[fieldx(inner_mut, optional, clearer, predicate, default(fiveu32()), get(copy), get_mut, set)] f: u32, #[fieldx(inner_mut, default(3), get, get_mut, set, builder(off))] g: u32 }
    struct Own(S);
    #[allow(unused_mut)]
    impl Subject for Own {
        fn get(&self) -> Option<u32> { self.0.f().map(|x| x) }
        fn excl(&self) -> Writing<'_> { let mut g = self.0.f_mut(); Box::new(move |x| { if let Some(x) = x { *g = x.map(|x| x) } (*g).as_ref().map(|x| (*x)) }) }
        fn set(&self, n: u32) -> Option<u32> { self.0.set_f(n).map(|x| x) }
        fn clear(&self) -> Option<u32> { self.0.clear_f().map(|x| x) }
        fn has(&self) -> bool { self.0.has_f() }
        fn other(&self, n: u32) -> Option<u32> { let a = *self.0.g(); *self.0.g_mut() = a + n; self.0.set_g(a); Some(*self.0.g()) }
        fn debug(&self) -> bool { !format!("{:?}", self.0).is_empty() }
        fn dup(&self) -> Option<u32> { let o = Own(self.0.clone()); let a = o.get(); o.set(77); a }
        fn eq(&self, n: Option<u32>) -> bool { let o = Own(S::new()); *o.0.f_mut() = n.map(|n| n); self.0 == o.0 }
        fn ser(&self) -> Option<u32> { shown(&serde_json::to_string(&self.0).unwrap()) }
    }
    pub fn case() -> Case {
        Case { name: "78", text: r#"#[fxstruct(serde, builder)] struct S { #[fieldx(inner_mut, optional, clearer, predicate, default(fiveu32()), get(copy), get_mut, set)] f: u32 }"#, ops: vec![Excl, Set, Get, Once, Other, Debug, Take, Clear, Has, Dup, Eq, Ser], start: Some(5), new: || Box::new(Own(S::new())), build: || Box::new(Own(S::builder().f(9).build().unwrap())) }
    }
}
pub mod m79 {
    use super::*;
    #[fxstruct(serde, builder)]
    #[derive(Clone, Debug, PartialEq)]
    pub struct S { #[fieldx(inner_mut, optional, clearer, predicate, default(fiveu32()), get(copy), get_mut, set(into))] f: u32, #[fieldx(inner_mut, default(3), get, get_mut, set, builder(off))] g: u32 }
    struct Own(S);
    #[allow(unused_mut)]
    impl Subject for Own {
        fn get(&self) -> Option<u32> { self.0.f().map(|x| x) }
        fn excl(&self) -> Writing<'_> { let mut g = self.0.f_mut(); Box::new(move |x| { if let Some(x) = x { *g = x.map(|x| x) } (*g).as_ref().map(|x| (*x)) }) }
        fn set(&self, n: u32) -> Option<u32> { self.0.set_f(Small(n as u8)).map(|x| x) }
        fn clear(&self) -> Option<u32> { self.0.clear_f().map(|x| x) }
        fn has(&self) -> bool { self.0.has_f() }
        fn other(&self, n: u32) -> Option<u32> { let a = *self.0.g(); *self.0.g_mut() = a + n; self.0.set_g(a); Some(*self.0.g()) }
        fn debug(&self) -> bool { !format!("{:?}", self.0).is_empty() }
        fn dup(&self) -> Option<u32> { let o = Own(self.0.clone()); let a = o.get(); o.set(77); a }
        fn eq(&self, n: Option<u32>) -> bool { let o = Own(S::new()); *o.0.f_mut() = n.map(|n| n); self.0 == o.0 }
        fn ser(&self) -> Option<u32> { shown(&serde_json::to_string(&self.0).unwrap()) }
    }
    pub fn case() -> Case {
        Case { name: "79", text: r#"#[fxstruct(serde, builder)] struct S { #[fieldx(inner_mut, optional, clearer, predicate, default(fiveu32()), get(copy), get_mut, set(into))] f: u32 }"#, ops: vec![Excl, Set, Get, Once, Other, Debug, Take, Clear, Has, Dup, Eq, Ser], start: Some(5), new: || Box::new(Own(S::new())), build: || Box::new(Own(S::builder().f(9).build().unwrap())) }
    }
}
pub mod m80 {
    use super::*;
    #[fxstruct(inner_mut, builder)]
    #[derive(Clone, Debug, PartialEq)]
    pub struct S { #[fieldx(get, get_mut, set)] f: W, #[fieldx(default(3), get, get_mut, set, builder(off))] g: u32 }
    struct Own(S);
    #[allow(unused_mut)]
    impl Subject for Own {
        fn shared(&self) -> Reading<'_> { let g = self.0.f(); Box::new(move || Some((*g).0)) }
        fn get(&self) -> Option<u32> { let g = self.0.f(); Some((*g).0) }
        fn excl(&self) -> Writing<'_> { let mut g = self.0.f_mut(); Box::new(move |x| { if let Some(x) = x { *g = W(x.unwrap()) } Some((*g).0) }) }
        fn set(&self, n: u32) -> Option<u32> { Some(self.0.set_f(W(n)).0) }
        fn other(&self, n: u32) -> Option<u32> { let a = *self.0.g(); *self.0.g_mut() = a + n; self.0.set_g(a); Some(*self.0.g()) }
        fn debug(&self) -> bool { !format!("{:?}", self.0).is_empty() }
        fn dup(&self) -> Option<u32> { let o = Own(self.0.clone()); let a = o.get(); o.set(77); a }
        fn eq(&self, n: Option<u32>) -> bool { let o = Own(S::new()); *o.0.f_mut() = W(n.unwrap()); self.0 == o.0 }
    }
    pub fn case() -> Case {
        Case { name: "80", text: r#"#[fxstruct(inner_mut, builder)] struct S { #[fieldx(get, get_mut, set)] f: W }"#, ops: vec![Excl, Set, Get, Once, Other, Debug, Shared, Dup, Eq], start: Some(0), new: || Box::new(Own(S::new())), build: || Box::new(Own(S::builder().f(W(9)).build().unwrap())) }
    }
}
pub mod m81 {
    use super::*;
    #[fxstruct(inner_mut, builder)]
    #[derive(Clone, Debug, PartialEq)]
    pub struct S { #[fieldx(get(copy), get_mut, set)] f: u32, #[fieldx(default(3), get, get_mut, set, builder(off))] g: u32 }
    struct Own(S);
    #[allow(unused_mut)]
    impl Subject for Own {
        fn get(&self) -> Option<u32> { Some(self.0.f()) }
        fn excl(&self) -> Writing<'_> { let mut g = self.0.f_mut(); Box::new(move |x| { if let Some(x) = x { *g = x.unwrap() } Some((*g)) }) }
        fn set(&self, n: u32) -> Option<u32> { Some(self.0.set_f(n)) }
        fn other(&self, n: u32) -> Option<u32> { let a = *self.0.g(); *self.0.g_mut() = a + n; self.0.set_g(a); Some(*self.0.g()) }
        fn debug(&self) -> bool { !format!("{:?}", self.0).is_empty() }
        fn dup(&self) -> Option<u32> { let o = Own(self.0.clone()); let a = o.get(); o.set(77); a }
        fn eq(&self, n: Option<u32>) -> bool { let o = Own(S::new()); *o.0.f_mut() = n.unwrap(); self.0 == o.0 }
    }
    pub fn case() -> Case {
        Case { name: "81", text: r#"#[fxstruct(inner_mut, builder)] struct S { #[fieldx(get(copy), get_mut, set)] f: u32 }"#, ops: vec![Excl, Set, Get, Once, Other, Debug, Dup, Eq], start: Some(0), new: || Box::new(Own(S::new())), build: || Box::new(Own(S::builder().f(9).build().unwrap())) }
    }
}
pub mod m82 {
    use super::*;
    #[fxstruct(inner_mut, builder)]
    #[derive(Clone, Debug, PartialEq)]
    pub struct S { #[fieldx(default(fiveW()), get, get_mut, set)] f: W, #[fieldx(default(3), get, get_mut, set, builder(off))] g: u32 }
    struct Own(S);
    #[allow(unused_mut)]
    impl Subject for Own {
        fn shared(&self) -> Reading<'_> { let g = self.0.f(); Box::new(move || Some((*g).0)) }
        fn get(&self) -> Option<u32> { let g = self.0.f(); Some((*g).0) }
        fn excl(&self) -> Writing<'_> { let mut g = self.0.f_mut(); Box::new(move |x| { if let Some(x) = x { *g = W(x.unwrap()) } Some((*g).0) }) }
        fn set(&self, n: u32) -> Option<u32> { Some(self.0.set_f(W(n)).0) }
        fn other(&self, n: u32) -> Option<u32> { let a = *self.0.g(); *self.0.g_mut() = a + n; self.0.set_g(a); Some(*self.0.g()) }
        fn debug(&self) -> bool { !format!("{:?}", self.0).is_empty() }
        fn dup(&self) -> Option<u32> { let o = Own(self.0.clone()); let a = o.get(); o.set(77); a }
        fn eq(&self, n: Option<u32>) -> bool { let o = Own(S::new()); *o.0.f_mut() = W(n.unwrap()); self.0 == o.0 }
    }
    pub fn case() -> Case {
        Case { name: "82", text: r#"#[fxstruct(inner_mut, builder)] struct S { #[fieldx(default(fiveW()), get, get_mut, set)] f: W }"#, ops: vec![Excl, Set, Get, Once, Other, Debug, Shared, Dup, Eq], start: Some(5), new: || Box::new(Own(S::new())), build: || Box::new(Own(S::builder().f(W(9)).build().unwrap())) }
    }
}
pub mod m83 {
    use super::*;
    #[fxstruct(inner_mut, builder)]
    #[derive(Clone, Debug, PartialEq)]
    pub struct S { #[fieldx(default(fiveu32()), get(copy), get_mut, set)] f: u32, #[fieldx(default(3), get, get_mut, set, builder(off))] g: u32 }
    struct Own(S);
    #[allow(unused_mut)]
    impl Subject for Own {
        fn get(&self) -> Option<u32> { Some(self.0.f()) }
        fn excl(&self) -> Writing<'_> { let mut g = self.0.f_mut(); Box::new(move |x| { if let Some(x) = x { *g = x.unwrap() } Some((*g)) }) }
        fn set(&self, n: u32) -> Option<u32> { Some(self.0.set_f(n)) }
        fn other(&self, n: u32) -> Option<u32> { let a = *self.0.g(); *self.0.g_mut() = a + n; self.0.set_g(a); Some(*self.0.g()) }
        fn debug(&self) -> bool { !format!("{:?}", self.0).is_empty() }
        fn dup(&self) -> Option<u32> { let o = Own(self.0.clone()); let a = o.get(); o.set(77); a }
        fn eq(&self, n: Option<u32>) -> bool { let o = Own(S::new()); *o.0.f_mut() = n.unwrap(); self.0 == o.0 }
    }
    pub fn case() -> Case {
        Case { name: "83", text: r#"#[fxstruct(inner_mut, builder)] struct S { #[fieldx(default(fiveu32()), get(copy), get_mut, set)] f: u32 }"#, ops: vec![Excl, Set, Get, Once, Other, Debug, Dup, Eq], start: Some(5), new: || Box::new(Own(S::new())), build: || Box::new(Own(S::builder().f(9).build().unwrap())) }
    }
}
pub mod m84 {
    use super::*;
    #[fxstruct(inner_mut, builder)]
    #[derive(Clone, Debug, PartialEq)]
    pub struct S { #[fieldx(optional, clearer, predicate, get, get_mut, set)] f: W, #[fieldx(default(3), get, get_mut, set, builder(off))] g: u32 }
    struct Own(S);
    #[allow(unused_mut)]
    impl Subject for Own {
        fn shared(&self) -> Reading<'_> { let g = self.0.f(); Box::new(move || (*g).as_ref().map(|x| x.0)) }
        fn get(&self) -> Option<u32> { let g = self.0.f(); (*g).as_ref().map(|x| x.0) }
        fn excl(&self) -> Writing<'_> { let mut g = self.0.f_mut(); Box::new(move |x| { if let Some(x) = x { *g = x.map(|x| W(x)) } (*g).as_ref().map(|x| x.0) }) }
        fn set(&self, n: u32) -> Option<u32> { self.0.set_f(W(n)).map(|x| x.0) }
        fn clear(&self) -> Option<u32> { self.0.clear_f().map(|x| x.0) }
        fn has(&self) -> bool { self.0.has_f() }
        fn other(&self, n: u32) -> Option<u32> { let a = *self.0.g(); *self.0.g_mut() = a + n; self.0.set_g(a); Some(*self.0.g()) }
        fn debug(&self) -> bool { !format!("{:?}", self.0).is_empty() }
        fn dup(&self) -> Option<u32> { let o = Own(self.0.clone()); let a = o.get(); o.set(77); a }
        fn eq(&self, n: Option<u32>) -> bool { let o = Own(S::new()); *o.0.f_mut() = n.map(|n| W(n)); self.0 == o.0 }
    }
    pub fn case() -> Case {
        Case { name: "84", text: r#"#[fxstruct(inner_mut, builder)] struct S { #[fieldx(optional, clearer, predicate, get, get_mut, set)] f: W }"#, ops: vec![Excl, Set, Get, Once, Other, Debug, Shared, Take, Clear, Has, Dup, Eq], start: None, new: || Box::new(Own(S::new())), build: || Box::new(Own(S::builder().f(W(9)).build().unwrap())) }
    }
}
pub mod m85 {
    use super::*;
    #[fxstruct(inner_mut, builder)]
    #[derive(Clone, Debug, PartialEq)]
    pub struct S { #[fieldx(optional, clearer, predicate, get(copy), get_mut, set)] f: u32, #[fieldx(default(3), get, get_mut, set, builder(off))] g: u32 }
    struct Own(S);
    #[allow(unused_mut)]
    impl Subject for Own {
        fn get(&self) -> Option<u32> { self.0.f().map(|x| x) }
        fn excl(&self) -> Writing<'_> { let mut g = self.0.f_mut(); Box::new(move |x| { if let Some(x) = x { *g = x.map(|x| x) } (*g).as_ref().map(|x| (*x)) }) }
        fn set(&self, n: u32) -> Option<u32> { self.0.set_f(n).map(|x| x) }
        fn clear(&self) -> Option<u32> { self.0.clear_f().map(|x| x) }
        fn has(&self) -> bool { self.0.has_f() }
        fn other(&self, n: u32) -> Option<u32> { let a = *self.0.g(); *self.0.g_mut() = a + n; self.0.set_g(a); Some(*self.0.g()) }
        fn debug(&self) -> bool { !format!("{:?}", self.0).is_empty() }
        fn dup(&self) -> Option<u32> { let o = Own(self.0.clone()); let a = o.get(); o.set(77); a }
        fn eq(&self, n: Option<u32>) -> bool { let o = Own(S::new()); *o.0.f_mut() = n.map(|n| n); self.0 == o.0 }
    }
    pub fn case() -> Case {
        Case { name: "85", text: r#"#[fxstruct(inner_mut, builder)] struct S { #[fieldx(optional, clearer, predicate, get(copy), get_mut, set)] f: u32 }"#, ops: vec![Excl, Set, Get, Once, Other, Debug, Take, Clear, Has, Dup, Eq], start: None, new: || Box::new(Own(S::new())), build: || Box::new(Own(S::builder().f(9).build().unwrap())) }
    }
}
pub mod m86 {
    use super::*;
    #[fxstruct(inner_mut, builder)]
    #[derive(Clone, Debug, PartialEq)]
    pub struct S { #[fieldx(optional, clearer, predicate, default(fiveW()), get, get_mut, set)] f: W, #[fieldx(default(3), get, get_mut, set, builder(off))] g: u32 }
    struct Own(S);
    #[allow(unused_mut)]
    impl Subject for Own {
        fn shared(&self) -> Reading<'_> { let g = self.0.f(); Box::new(move || (*g).as_ref().map(|x| x.0)) }
        fn get(&self) -> Option<u32> { let g = self.0.f(); (*g).as_ref().map(|x| x.0) }
        fn excl(&self) -> Writing<'_> { let mut g = self.0.f_mut(); Box::new(move |x| { if let Some(x) = x { *g = x.map(|x| W(x)) } (*g).as_ref().map(|x| x.0) }) }
        fn set(&self, n: u32) -> Option<u32> { self.0.set_f(W(n)).map(|x| x.0) }
        fn clear(&self) -> Option<u32> { self.0.clear_f().map(|x| x.0) }
        fn has(&self) -> bool { self.0.has_f() }
        fn other(&self, n: u32) -> Option<u32> { let a = *self.0.g(); *self.0.g_mut() = a + n; self.0.set_g(a); Some(*self.0.g()) }
        fn debug(&self) -> bool { !format!("{:?}", self.0).is_empty() }
        fn dup(&self) -> Option<u32> { let o = Own(self.0.clone()); let a = o.get(); o.set(77); a }
        fn eq(&self, n: Option<u32>) -> bool { let o = Own(S::new()); *o.0.f_mut() = n.map(|n| W(n)); self.0 == o.0 }
    }
    pub fn case() -> Case {
        Case { name: "86", text: r#"#[fxstruct(inner_mut, builder)] struct S { #[fieldx(optional, clearer, predicate, default(fiveW()), get, get_mut, set)] f: W }"#, ops: vec![Excl, Set, Get, Once, Other, Debug, Shared, Take, Clear, Has, Dup, Eq], start: Some(5), new: || Box::new(Own(S::new())), build: || Box::new(Own(S::builder().f(W(9)).build().unwrap())) }
    }
}
pub mod m87 {
    use super::*;
    #[fxstruct(inner_mut, builder)]
    #[derive(Clone, Debug, PartialEq)]
    pub struct S { #[fieldx(optional, clearer, predicate, default(fiveu32()), get(copy), get_mut, set)] f: u32, #[fieldx(default(3), get, get_mut, set, builder(off))] g: u32 }
    struct Own(S);
    #[allow(unused_mut)]
    impl Subject for Own {
        fn get(&self) -> Option<u32> { self.0.f().map(|x| x) }
        fn excl(&self) -> Writing<'_> { let mut g = self.0.f_mut(); Box::new(move |x| { if let Some(x) = x { *g = x.map(|x| x) } (*g).as_ref().map(|x| (*x)) }) }
        fn set(&self, n: u32) -> Option<u32> { self.0.set_f(n).map(|x| x) }
        fn clear(&self) -> Option<u32> { self.0.clear_f().map(|x| x) }
        fn has(&self) -> bool { self.0.has_f() }
        fn other(&self, n: u32) -> Option<u32> { let a = *self.0.g(); *self.0.g_mut() = a + n; self.0.set_g(a); Some(*self.0.g()) }
        fn debug(&self) -> bool { !format!("{:?}", self.0).is_empty() }
        fn dup(&self) -> Option<u32> { let o = Own(self.0.clone()); let a = o.get(); o.set(77); a }
        fn eq(&self, n: Option<u32>) -> bool { let o = Own(S::new()); *o.0.f_mut() = n.map(|n| n); self.0 == o.0 }
    }
    pub fn case() -> Case {
        Case { name: "87", text: r#"#[fxstruct(inner_mut, builder)] struct S { #[fieldx(optional, clearer, predicate, default(fiveu32()), get(copy), get_mut, set)] f: u32 }"#, ops: vec![Excl, Set, Get, Once, Other, Debug, Take, Clear, Has, Dup, Eq], start: Some(5), new: || Box::new(Own(S::new())), build: || Box::new(Own(S::builder().f(9).build().unwrap())) }
    }
}
pub mod m88 {
    use super::*;
    #[fxstruct(rc, inner_mut, builder)]
    #[derive(Debug)]
    pub struct S { #[fieldx(get, get_mut, set)] f: W, #[fieldx(default(3), get, get_mut, set, builder(off))] g: u32 }
    struct Own(Rc<S>);
    #[allow(unused_mut)]
    impl Subject for Own {
        fn shared(&self) -> Reading<'_> { let g = self.0.f(); Box::new(move || Some((*g).0)) }
        fn get(&self) -> Option<u32> { let g = self.0.f(); Some((*g).0) }
        fn excl(&self) -> Writing<'_> { let mut g = self.0.f_mut(); Box::new(move |x| { if let Some(x) = x { *g = W(x.unwrap()) } Some((*g).0) }) }
        fn set(&self, n: u32) -> Option<u32> { Some(self.0.set_f(W(n)).0) }
        fn other(&self, n: u32) -> Option<u32> { let a = *self.0.g(); *self.0.g_mut() = a + n; self.0.set_g(a); Some(*self.0.g()) }
        fn debug(&self) -> bool { !format!("{:?}", self.0).is_empty() }
        fn dup(&self) -> Option<u32> { let o = Own(self.0.myself().unwrap()); o.get() }
    }
    pub fn case() -> Case {
        Case { name: "88", text: r#"#[fxstruct(rc, inner_mut, builder)] struct S { #[fieldx(get, get_mut, set)] f: W }"#, ops: vec![Excl, Set, Get, Once, Other, Debug, Shared, Dup], start: Some(0), new: || Box::new(Own(S::new())), build: || Box::new(Own(S::builder().f(W(9)).build().unwrap())) }
    }
}
pub mod m89 {
    use super::*;
    #[fxstruct(rc, inner_mut, builder)]
    #[derive(Debug)]
    pub struct S { #[fieldx(get(copy), get_mut, set)] f: u32, #[fieldx(default(3), get, get_mut, set, builder(off))] g: u32 }
    struct Own(Rc<S>);
    #[allow(unused_mut)]
    impl Subject for Own {
        fn get(&self) -> Option<u32> { Some(self.0.f()) }
        fn excl(&self) -> Writing<'_> { let mut g = self.0.f_mut(); Box::new(move |x| { if let Some(x) = x { *g = x.unwrap() } Some((*g)) }) }
        fn set(&self, n: u32) -> Option<u32> { Some(self.0.set_f(n)) }
        fn other(&self, n: u32) -> Option<u32> { let a = *self.0.g(); *self.0.g_mut() = a + n; self.0.set_g(a); Some(*self.0.g()) }
        fn debug(&self) -> bool { !format!("{:?}", self.0).is_empty() }
        fn dup(&self) -> Option<u32> { let o = Own(self.0.myself().unwrap()); o.get() }
    }
    pub fn case() -> Case {
        Case { name: "89", text: r#"#[fxstruct(rc, inner_mut, builder)] struct S { #[fieldx(get(copy), get_mut, set)] f: u32 }"#, ops: vec![Excl, Set, Get, Once, Other, Debug, Dup], start: Some(0), new: || Box::new(Own(S::new())), build: || Box::new(Own(S::builder().f(9).build().unwrap())) }
    }
}
pub mod m90 {
    use super::*;
    #[fxstruct(rc, inner_mut, builder)]
    #[derive(Debug)]
    pub struct S { #[fieldx(default(fiveW()), get, get_mut, set)] f: W, #[fieldx(default(3), get, get_mut, set, builder(off))] g: u32 }
    struct Own(Rc<S>);
    #[allow(unused_mut)]
    impl Subject for Own {
        fn shared(&self) -> Reading<'_> { let g = self.0.f(); Box::new(move || Some((*g).0)) }
        fn get(&self) -> Option<u32> { let g = self.0.f(); Some((*g).0) }
        fn excl(&self) -> Writing<'_> { let mut g = self.0.f_mut(); Box::new(move |x| { if let Some(x) = x { *g = W(x.unwrap()) } Some((*g).0) }) }
        fn set(&self, n: u32) -> Option<u32> { Some(self.0.set_f(W(n)).0) }
        fn other(&self, n: u32) -> Option<u32> { let a = *self.0.g(); *self.0.g_mut() = a + n; self.0.set_g(a); Some(*self.0.g()) }
        fn debug(&self) -> bool { !format!("{:?}", self.0).is_empty() }
        fn dup(&self) -> Option<u32> { let o = Own(self.0.myself().unwrap()); o.get() }
    }
    pub fn case() -> Case {
        Case { name: "90", text: r#"#[fxstruct(rc, inner_mut, builder)] struct S { #[fieldx(default(fiveW()), get, get_mut, set)] f: W }"#, ops: vec![Excl, Set, Get, Once, Other, Debug, Shared, Dup], start: Some(5), new: || Box::new(Own(S::new())), build: || Box::new(Own(S::builder().f(W(9)).build().unwrap())) }
    }
}
pub mod m91 {
    use super::*;
    #[fxstruct(rc, inner_mut, builder)]
    #[derive(Debug)]
    pub struct S { #[fieldx(default(fiveu32()), get(copy), get_mut, set)] f: u32, #[fieldx(default(3), get, get_mut, set, builder(off))] g: u32 }
    struct Own(Rc<S>);
    #[allow(unused_mut)]
    impl Subject for Own {
        fn get(&self) -> Option<u32> { Some(self.0.f()) }
        fn excl(&self) -> Writing<'_> { let mut g = self.0.f_mut(); Box::new(move |x| { if let Some(x) = x { *g = x.unwrap() } Some((*g)) }) }
        fn set(&self, n: u32) -> Option<u32> { Some(self.0.set_f(n)) }
        fn other(&self, n: u32) -> Option<u32> { let a = *self.0.g(); *self.0.g_mut() = a + n; self.0.set_g(a); Some(*self.0.g()) }
        fn debug(&self) -> bool { !format!("{:?}", self.0).is_empty() }
        fn dup(&self) -> Option<u32> { let o = Own(self.0.myself().unwrap()); o.get() }
    }
    pub fn case() -> Case {
        Case { name: "91", text: r#"#[fxstruct(rc, inner_mut, builder)] struct S { #[fieldx(default(fiveu32()), get(copy), get_mut, set)] f: u32 }"#, ops: vec![Excl, Set, Get, Once, Other, Debug, Dup], start: Some(5), new: || Box::new(Own(S::new())), build: || Box::new(Own(S::builder().f(9).build().unwrap())) }
    }
}
pub mod m92 {
    use super::*;
    #[fxstruct(rc, inner_mut, builder)]
    #[derive(Debug)]
    pub struct S { #[fieldx(optional, clearer, predicate, get, get_mut, set)] f: W, #[fieldx(default(3), get, get_mut, set, builder(off))] g: u32 }
    struct Own(Rc<S>);
    #[allow(unused_mut)]
    impl Subject for Own {
        fn shared(&self) -> Reading<'_> { let g = self.0.f(); Box::new(move || (*g).as_ref().map(|x| x.0)) }
        fn get(&self) -> Option<u32> { let g = self.0.f(); (*g).as_ref().map(|x| x.0) }
        fn excl(&self) -> Writing<'_> { let mut g = self.0.f_mut(); Box::new(move |x| { if let Some(x) = x { *g = x.map(|x| W(x)) } (*g).as_ref().map(|x| x.0) }) }
        fn set(&self, n: u32) -> Option<u32> { self.0.set_f(W(n)).map(|x| x.0) }
        fn clear(&self) -> Option<u32> { self.0.clear_f().map(|x| x.0) }
        fn has(&self) -> bool { self.0.has_f() }
        fn other(&self, n: u32) -> Option<u32> { let a = *self.0.g(); *self.0.g_mut() = a + n; self.0.set_g(a); Some(*self.0.g()) }
        fn debug(&self) -> bool { !format!("{:?}", self.0).is_empty() }
        fn dup(&self) -> Option<u32> { let o = Own(self.0.myself().unwrap()); o.get() }
    }
    pub fn case() -> Case {
        Case { name: "92", text: r#"#[fxstruct(rc, inner_mut, builder)] struct S { #[fieldx(optional, clearer, predicate, get, get_mut, set)] f: W }"#, ops: vec![Excl, Set, Get, Once, Other, Debug, Shared, Take, Clear, Has, Dup], start: None, new: || Box::new(Own(S::new())), build: || Box::new(Own(S::builder().f(W(9)).build().unwrap())) }
    }
}
pub mod m93 {
    use super::*;
    #[fxstruct(rc, inner_mut, builder)]
    #[derive(Debug)]
    pub struct S { #[fieldx(optional, clearer, predicate, get(copy), get_mut, set)] f: u32, #[fieldx(default(3), get, get_mut, set, builder(off))] g: u32 }
    struct Own(Rc<S>);
    #[allow(unused_mut)]
    impl Subject for Own {
        fn get(&self) -> Option<u32> { self.0.f().map(|x| x) }
        fn excl(&self) -> Writing<'_> { let mut g = self.0.f_mut(); Box::new(move |x| { if let Some(x) = x { *g = x.map(|x| x) } (*g).as_ref().map(|x| (*x)) }) }
        fn set(&self, n: u32) -> Option<u32> { self.0.set_f(n).map(|x| x) }
        fn clear(&self) -> Option<u32> { self.0.clear_f().map(|x| x) }
        fn has(&self) -> bool { self.0.has_f() }
        fn other(&self, n: u32) -> Option<u32> { let a = *self.0.g(); *self.0.g_mut() = a + n; self.0.set_g(a); Some(*self.0.g()) }
        fn debug(&self) -> bool { !format!("{:?}", self.0).is_empty() }
        fn dup(&self) -> Option<u32> { let o = Own(self.0.myself().unwrap()); o.get() }
    }
    pub fn case() -> Case {
        Case { name: "93", text: r#"#[fxstruct(rc, inner_mut, builder)] struct S { #[fieldx(optional, clearer, predicate, get(copy), get_mut, set)] f: u32 }"#, ops: vec![Excl, Set, Get, Once, Other, Debug, Take, Clear, Has, Dup], start: None, new: || Box::new(Own(S::new())), build: || Box::new(Own(S::builder().f(9).build().unwrap())) }
    }
}
pub mod m94 {
    use super::*;
    #[fxstruct(rc, inner_mut, builder)]
    #[derive(Debug)]
    pub struct S { #[fieldx(optional, clearer, predicate, default(fiveW()), get, get_mut, set)] f: W, #[fieldx(default(3), get, get_mut, set, builder(off))] g: u32 }
    struct Own(Rc<S>);
    #[allow(unused_mut)]
    impl Subject for Own {
        fn shared(&self) -> Reading<'_> { let g = self.0.f(); Box::new(move || (*g).as_ref().map(|x| x.0)) }
        fn get(&self) -> Option<u32> { let g = self.0.f(); (*g).as_ref().map(|x| x.0) }
        fn excl(&self) -> Writing<'_> { let mut g = self.0.f_mut(); Box::new(move |x| { if let Some(x) = x { *g = x.map(|x| W(x)) } (*g).as_ref().map(|x| x.0) }) }
        fn set(&self, n: u32) -> Option<u32> { self.0.set_f(W(n)).map(|x| x.0) }
        fn clear(&self) -> Option<u32> { self.0.clear_f().map(|x| x.0) }
        fn has(&self) -> bool { self.0.has_f() }
        fn other(&self, n: u32) -> Option<u32> { let a = *self.0.g(); *self.0.g_mut() = a + n; self.0.set_g(a); Some(*self.0.g()) }
        fn debug(&self) -> bool { !format!("{:?}", self.0).is_empty() }
        fn dup(&self) -> Option<u32> { let o = Own(self.0.myself().unwrap()); o.get() }
    }
    pub fn case() -> Case {
        Case { name: "94", text: r#"#[fxstruct(rc, inner_mut, builder)] struct S { #[fieldx(optional, clearer, predicate, default(fiveW()), get, get_mut, set)] f: W }"#, ops: vec![Excl, Set, Get, Once, Other, Debug, Shared, Take, Clear, Has, Dup], start: Some(5), new: || Box::new(Own(S::new())), build: || Box::new(Own(S::builder().f(W(9)).build().unwrap())) }
    }
}
pub mod m95 {
    use super::*;
    #[fxstruct(rc, inner_mut, builder)]
    #[derive(Debug)]
    pub struct S { #[fieldx(optional, clearer, predicate, default(fiveu32()), get(copy), get_mut, set)] f: u32, #[fieldx(default(3), get, get_mut, set, builder(off))] g: u32 }
    struct Own(Rc<S>);
    #[allow(unused_mut)]
    impl Subject for Own {
        fn get(&self) -> Option<u32> { self.0.f().map(|x| x) }
        fn excl(&self) -> Writing<'_> { let mut g = self.0.f_mut(); Box::new(move |x| { if let Some(x) = x { *g = x.map(|x| x) } (*g).as_ref().map(|x| (*x)) }) }
        fn set(&self, n: u32) -> Option<u32> { self.0.set_f(n).map(|x| x) }
        fn clear(&self) -> Option<u32> { self.0.clear_f().map(|x| x) }
        fn has(&self) -> bool { self.0.has_f() }
        fn other(&self, n: u32) -> Option<u32> { let a = *self.0.g(); *self.0.g_mut() = a + n; self.0.set_g(a); Some(*self.0.g()) }
        fn debug(&self) -> bool { !format!("{:?}", self.0).is_empty() }
        fn dup(&self) -> Option<u32> { let o = Own(self.0.myself().unwrap()); o.get() }
    }
    pub fn case() -> Case {
        Case { name: "95", text: r#"#[fxstruct(rc, inner_mut, builder)] struct S { #[fieldx(optional, clearer, predicate, default(fiveu32()), get(copy), get_mut, set)] f: u32 }"#, ops: vec![Excl, Set, Get, Once, Other, Debug, Take, Clear, Has, Dup], start: Some(5), new: || Box::new(Own(S::new())), build: || Box::new(Own(S::builder().f(9).build().unwrap())) }
    }
}
pub mod m96 {
    use super::*;
    #[fxstruct(serde, inner_mut, builder)]
    #[derive(Clone, Debug, PartialEq)]
    pub struct S { #[fieldx(get, get_mut, set)] f: W, #[fieldx(default(3), get, get_mut, set, builder(off))] g: u32 }
    struct Own(S);
    #[allow(unused_mut)]
    impl Subject for Own {
        fn shared(&self) -> Reading<'_> { let g = self.0.f(); Box::new(move || Some((*g).0)) }
        fn get(&self) -> Option<u32> { let g = self.0.f(); Some((*g).0) }
        fn excl(&self) -> Writing<'_> { let mut g = self.0.f_mut(); Box::new(move |x| { if let Some(x) = x { *g = W(x.unwrap()) } Some((*g).0) }) }
        fn set(&self, n: u32) -> Option<u32> { Some(self.0.set_f(W(n)).0) }
        fn other(&self, n: u32) -> Option<u32> { let a = *self.0.g(); *self.0.g_mut() = a + n; self.0.set_g(a); Some(*self.0.g()) }
        fn debug(&self) -> bool { !format!("{:?}", self.0).is_empty() }
        fn dup(&self) -> Option<u32> { let o = Own(self.0.clone()); let a = o.get(); o.set(77); a }
        fn eq(&self, n: Option<u32>) -> bool { let o = Own(S::new()); *o.0.f_mut() = W(n.unwrap()); self.0 == o.0 }
        fn ser(&self) -> Option<u32> { shown(&serde_json::to_string(&self.0).unwrap()) }
    }
    pub fn case() -> Case {
        Case { name: "96", text: r#"#[fxstruct(serde, inner_mut, builder)] struct S { #[fieldx(get, get_mut, set)] f: W }"#, ops: vec![Excl, Set, Get, Once, Other, Debug, Shared, Dup, Eq, Ser], start: Some(0), new: || Box::new(Own(S::new())), build: || Box::new(Own(S::builder().f(W(9)).build().unwrap())) }
    }
}
pub mod m97 {
    use super::*;
    #[fxstruct(serde, inner_mut, builder)]
    #[derive(Clone, Debug, PartialEq)]
    pub struct S { #[fieldx(get(copy), get_mut, set)] f: u32, #[fieldx(default(3), get, get_mut, set, builder(off))] g: u32 }
    struct Own(S);
    #[allow(unused_mut)]
    impl Subject for Own {
        fn get(&self) -> Option<u32> { Some(self.0.f()) }
        fn excl(&self) -> Writing<'_> { let mut g = self.0.f_mut(); Box::new(move |x| { if let Some(x) = x { *g = x.unwrap() } Some((*g)) }) }
        fn set(&self, n: u32) -> Option<u32> { Some(self.0.set_f(n)) }
        fn other(&self, n: u32) -> Option<u32> { let a = *self.0.g(); *self.0.g_mut() = a + n; self.0.set_g(a); Some(*self.0.g()) }
        fn debug(&self) -> bool { !format!("{:?}", self.0).is_empty() }
        fn dup(&self) -> Option<u32> { let o = Own(self.0.clone()); let a = o.get(); o.set(77); a }
        fn eq(&self, n: Option<u32>) -> bool { let o = Own(S::new()); *o.0.f_mut() = n.unwrap(); self.0 == o.0 }
        fn ser(&self) -> Option<u32> { shown(&serde_json::to_string(&self.0).unwrap()) }
    }
    pub fn case() -> Case {
        Case { name: "97", text: r#"#[fxstruct(serde, inner_mut, builder)] struct S { #[fieldx(get(copy), get_mut, set)] f: u32 }"#, ops: vec![Excl, Set, Get, Once, Other, Debug, Dup, Eq, Ser], start: Some(0), new: || Box::new(Own(S::new())), build: || Box::new(Own(S::builder().f(9).build().unwrap())) }
    }
}
pub mod m98 {
    use super::*;
    #[fxstruct(serde, inner_mut, builder)]
    #[derive(Clone, Debug, PartialEq)]
    pub struct S { #[fieldx(default(fiveW()), get, get_mut, set)] f: W, #[fieldx(default(3), get, get_mut, set, builder(off))] g: u32 }
    struct Own(S);
    #[allow(unused_mut)]
    impl Subject for Own {
        fn shared(&self) -> Reading<'_> { let g = self.0.f(); Box::new(move || Some((*g).0)) }
        fn get(&self) -> Option<u32> { let g = self.0.f(); Some((*g).0) }
        fn excl(&self) -> Writing<'_> { let mut g = self.0.f_mut(); Box::new(move |x| { if let Some(x) = x { *g = W(x.unwrap()) } Some((*g).0) }) }
        fn set(&self, n: u32) -> Option<u32> { Some(self.0.set_f(W(n)).0) }
        fn other(&self, n: u32) -> Option<u32> { let a = *self.0.g(); *self.0.g_mut() = a + n; self.0.set_g(a); Some(*self.0.g()) }
        fn debug(&self) -> bool { !format!("{:?}", self.0).is_empty() }
        fn dup(&self) -> Option<u32> { let o = Own(self.0.clone()); let a = o.get(); o.set(77); a }
        fn eq(&self, n: Option<u32>) -> bool { let o = Own(S::new()); *o.0.f_mut() = W(n.unwrap()); self.0 == o.0 }
        fn ser(&self) -> Option<u32> { shown(&serde_json::to_string(&self.0).unwrap()) }
    }
    pub fn case() -> Case {
        Case { name: "98", text: r#"#[fxstruct(serde, inner_mut, builder)] struct S { #[fieldx(default(fiveW()), get, get_mut, set)] f: W }"#, ops: vec![Excl, Set, Get, Once, Other, Debug, Shared, Dup, Eq, Ser], start: Some(5), new: || Box::new(Own(S::new())), build: || Box::new(Own(S::builder().f(W(9)).build().unwrap())) }
    }
}
pub mod m99 {
    use super::*;
    #[fxstruct(serde, inner_mut, builder)]
    #[derive(Clone, Debug, PartialEq)]
    pub struct S { #[fieldx(default(fiveu32()), get(copy), get_mut, set)] f: u32, #[fieldx(default(3), get, get_mut, set, builder(off))] g: u32 }
    struct Own(S);
    #[allow(unused_mut)]
    impl Subject for Own {
        fn get(&self) -> Option<u32> { Some(self.0.f()) }
        fn excl(&self) -> Writing<'_> { let mut g = self.0.f_mut(); Box::new(move |x| { if let Some(x) = x { *g = x.unwrap() } Some((*g)) }) }
        fn set(&self, n: u32) -> Option<u32> { Some(self.0.set_f(n)) }
        fn other(&self, n: u32) -> Option<u32> { let a = *self.0.g(); *self.0.g_mut() = a + n; self.0.set_g(a); Some(*self.0.g()) }
        fn debug(&self) -> bool { !format!("{:?}", self.0).is_empty() }
        fn dup(&self) -> Option<u32> { let o = Own(self.0.clone()); let a = o.get(); o.set(77); a }
        fn eq(&self, n: Option<u32>) -> bool { let o = Own(S::new()); *o.0.f_mut() = n.unwrap(); self.0 == o.0 }
        fn ser(&self) -> Option<u32> { shown(&serde_json::to_string(&self.0).unwrap()) }
    }
    pub fn case() -> Case {
        Case { name: "99", text: r#"#[fxstruct(serde, inner_mut, builder)] struct S { #[fieldx(default(fiveu32()), get(copy), get_mut, set)] f: u32 }"#, ops: vec![Excl, Set, Get, Once, Other, Debug, Dup, Eq, Ser], start: Some(5), new: || Box::new(Own(S::new())), build: || Box::new(Own(S::builder().f(9).build().unwrap())) }
    }
}
pub mod m100 {
    use super::*;
    #[fxstruct(serde, inner_mut, builder)]
    #[derive(Clone, Debug, PartialEq)]
    pub struct S { #[fieldx(optional, clearer, predicate, get, get_mut, set)] f: W, #[fieldx(default(3), get, get_mut, set, builder(off))] g: u32 }
    struct Own(S);
    #[allow(unused_mut)]
    impl Subject for Own {
        fn shared(&self) -> Reading<'_> { let g = self.0.f(); Box::new(move || (*g).as_ref().map(|x| x.0)) }
        fn get(&self) -> Option<u32> { let g = self.0.f(); (*g).as_ref().map(|x| x.0) }
        fn excl(&self) -> Writing<'_> { let mut g = self.0.f_mut(); Box::new(move |x| { if let Some(x) = x { *g = x.map(|x| W(x)) } (*g).as_ref().map(|x| x.0) }) }
        fn set(&self, n: u32) -> Option<u32> { self.0.set_f(W(n)).map(|x| x.0) }
        fn clear(&self) -> Option<u32> { self.0.clear_f().map(|x| x.0) }
        fn has(&self) -> bool { self.0.has_f() }
        fn other(&self, n: u32) -> Option<u32> { let a = *self.0.g(); *self.0.g_mut() = a + n; self.0.set_g(a); Some(*self.0.g()) }
        fn debug(&self) -> bool { !format!("{:?}", self.0).is_empty() }
        fn dup(&self) -> Option<u32> { let o = Own(self.0.clone()); let a = o.get(); o.set(77); a }
        fn eq(&self, n: Option<u32>) -> bool { let o = Own(S::new()); *o.0.f_mut() = n.map(|n| W(n)); self.0 == o.0 }
        fn ser(&self) -> Option<u32> { shown(&serde_json::to_string(&self.0).unwrap()) }
    }
    pub fn case() -> Case {
        Case { name: "100", text: r#"#[fxstruct(serde, inner_mut, builder)] struct S { #[fieldx(optional, clearer, predicate, get, get_mut, set)] f: W }"#, ops: vec![Excl, Set, Get, Once, Other, Debug, Shared, Take, Clear, Has, Dup, Eq, Ser], start: None, new: || Box::new(Own(S::new())), build: || Box::new(Own(S::builder().f(W(9)).build().unwrap())) }
    }
}
pub mod m101 {
    use super::*;
    #[fxstruct(serde, inner_mut, builder)]
    #[derive(Clone, Debug, PartialEq)]
    pub struct S { #[fieldx(optional, clearer, predicate, get(copy), get_mut, set)] f: u32, #[fieldx(default(3), get, get_mut, set, builder(off))] g: u32 }
    struct Own(S);
    #[allow(unused_mut)]
    impl Subject for Own {
        fn get(&self) -> Option<u32> { self.0.f().map(|x| x) }
        fn excl(&self) -> Writing<'_> { let mut g = self.0.f_mut(); Box::new(move |x| { if let Some(x) = x { *g = x.map(|x| x) } (*g).as_ref().map(|x| (*x)) }) }
        fn set(&self, n: u32) -> Option<u32> { self.0.set_f(n).map(|x| x) }
        fn clear(&self) -> Option<u32> { self.0.clear_f().map(|x| x) }
        fn has(&self) -> bool { self.0.has_f() }
        fn other(&self, n: u32) -> Option<u32> { let a = *self.0.g(); *self.0.g_mut() = a + n; self.0.set_g(a); Some(*self.0.g()) }
        fn debug(&self) -> bool { !format!("{:?}", self.0).is_empty() }
        fn dup(&self) -> Option<u32> { let o = Own(self.0.clone()); let a = o.get(); o.set(77); a }
        fn eq(&self, n: Option<u32>) -> bool { let o = Own(S::new()); *o.0.f_mut() = n.map(|n| n); self.0 == o.0 }
        fn ser(&self) -> Option<u32> { shown(&serde_json::to_string(&self.0).unwrap()) }
    }
    pub fn case() -> Case {
        Case { name: "101", text: r#"#[fxstruct(serde, inner_mut, builder)] struct S { #[fieldx(optional, clearer, predicate, get(copy), get_mut, set)] f: u32 }"#, ops: vec![Excl, Set, Get, Once, Other, Debug, Take, Clear, Has, Dup, Eq, Ser], start: None, new: || Box::new(Own(S::new())), build: || Box::new(Own(S::builder().f(9).build().unwrap())) }
    }
}
pub mod m102 {
    use super::*;
    #[fxstruct(serde, inner_mut, builder)]
    #[derive(Clone, Debug, PartialEq)]
    pub struct S { #[fieldx(optional, clearer, predicate, default(fiveW()), get, get_mut, set)] f: W, #[fieldx(default(3), get, get_mut, set, builder(off))] g: u32 }
    struct Own(S);
    #[allow(unused_mut)]
    impl Subject for Own {
        fn shared(&self) -> Reading<'_> { let g = self.0.f(); Box::new(move || (*g).as_ref().map(|x| x.0)) }
        fn get(&self) -> Option<u32> { let g = self.0.f(); (*g).as_ref().map(|x| x.0) }
        fn excl(&self) -> Writing<'_> { let mut g = self.0.f_mut(); Box::new(move |x| { if let Some(x) = x { *g = x.map(|x| W(x)) } (*g).as_ref().map(|x| x.0) }) }
        fn set(&self, n: u32) -> Option<u32> { self.0.set_f(W(n)).map(|x| x.0) }
        fn clear(&self) -> Option<u32> { self.0.clear_f().map(|x| x.0) }
        fn has(&self) -> bool { self.0.has_f() }
        fn other(&self, n: u32) -> Option<u32> { let a = *self.0.g(); *self.0.g_mut() = a + n; self.0.set_g(a); Some(*self.0.g()) }
        fn debug(&self) -> bool { !format!("{:?}", self.0).is_empty() }
        fn dup(&self) -> Option<u32> { let o = Own(self.0.clone()); let a = o.get(); o.set(77); a }
        fn eq(&self, n: Option<u32>) -> bool { let o = Own(S::new()); *o.0.f_mut() = n.map(|n| W(n)); self.0 == o.0 }
        fn ser(&self) -> Option<u32> { shown(&serde_json::to_string(&self.0).unwrap()) }
    }
    pub fn case() -> Case {
        Case { name: "102", text: r#"#[fxstruct(serde, inner_mut, builder)] struct S { #[fieldx(optional, clearer, predicate, default(fiveW()), get, get_mut, set)] f: W }"#, ops: vec![Excl, Set, Get, Once, Other, Debug, Shared, Take, Clear, Has, Dup, Eq, Ser], start: Some(5), new: || Box::new(Own(S::new())), build: || Box::new(Own(S::builder().f(W(9)).build().unwrap())) }
    }
}
pub mod m103 {
    use super::*;
    #[fxstruct(serde, inner_mut, builder)]
    #[derive(Clone, Debug, PartialEq)]
    pub struct S { #[fieldx(optional, clearer, predicate, default(fiveu32()), get(copy), get_mut, set)] f: u32, #[fieldx(default(3), get, get_mut, set, builder(off))] g: u32 }
    struct Own(S);
    #[allow(unused_mut)]
    impl Subject for Own {
        fn get(&self) -> Option<u32> { self.0.f().map(|x| x) }
        fn excl(&self) -> Writing<'_> { let mut g = self.0.f_mut(); Box::new(move |x| { if let Some(x) = x { *g = x.map(|x| x) } (*g).as_ref().map(|x| (*x)) }) }
        fn set(&self, n: u32) -> Option<u32> { self.0.set_f(n).map(|x| x) }
        fn clear(&self) -> Option<u32> { self.0.clear_f().map(|x| x) }
        fn has(&self) -> bool { self.0.has_f() }
        fn other(&self, n: u32) -> Option<u32> { let a = *self.0.g(); *self.0.g_mut() = a + n; self.0.set_g(a); Some(*self.0.g()) }
        fn debug(&self) -> bool { !format!("{:?}", self.0).is_empty() }
        fn dup(&self) -> Option<u32> { let o = Own(self.0.clone()); let a = o.get(); o.set(77); a }
        fn eq(&self, n: Option<u32>) -> bool { let o = Own(S::new()); *o.0.f_mut() = n.map(|n| n); self.0 == o.0 }
        fn ser(&self) -> Option<u32> { shown(&serde_json::to_string(&self.0).unwrap()) }
    }
    pub fn case() -> Case {
        Case { name: "103", text: r#"#[fxstruct(serde, inner_mut, builder)] struct S { #[fieldx(optional, clearer, predicate, default(fiveu32()), get(copy), get_mut, set)] f: u32 }"#, ops: vec![Excl, Set, Get, Once, Other, Debug, Take, Clear, Has, Dup, Eq, Ser], start: Some(5), new: || Box::new(Own(S::new())), build: || Box::new(Own(S::builder().f(9).build().unwrap())) }
    }
}
pub fn cases() -> Vec<Case> {
    vec![m0::case(), m1::case(), m2::case(), m3::case(), m4::case(), m5::case(), m6::case(), m7::case(), m8::case(), m9::case(), m10::case(), m11::case(), m12::case(), m13::case(), m14::case(), m15::case(), m16::case(), m17::case(), m18::case(), m19::case(), m20::case(), m21::case(), m22::case(), m23::case(), m24::case(), m25::case(), m26::case(), m27::case(), m28::case(), m29::case(), m30::case(), m31::case(), m32::case(), m33::case(), m34::case(), m35::case(), m36::case(), m37::case(), m38::case(), m39::case(), m40::case(), m41::case(), m42::case(), m43::case(), m44::case(), m45::case(), m46::case(), m47::case(), m48::case(), m49::case(), m50::case(), m51::case(), m52::case(), m53::case(), m54::case(), m55::case(), m56::case(), m57::case(), m58::case(), m59::case(), m60::case(), m61::case(), m62::case(), m63::case(), m64::case(), m65::case(), m66::case(), m67::case(), m68::case(), m69::case(), m70::case(), m71::case(), m72::case(), m73::case(), m74::case(), m75::case(), m76::case(), m77::case(), m78::case(), m79::case(), m80::case(), m81::case(), m82::case(), m83::case(), m84::case(), m85::case(), m86::case(), m87::case(), m88::case(), m89::case(), m90::case(), m91::case(), m92::case(), m93::case(), m94::case(), m95::case(), m96::case(), m97::case(), m98::case(), m99::case(), m100::case(), m101::case(), m102::case(), m103::case()]
}
