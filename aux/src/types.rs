//! The types of fieldx_aux with their vocabularies and reference models
use crate::{s, Form, Seen, Sub, Type, Verdict};
use darling::FromMeta;
use fieldx_aux::*;
use quote::ToTokens;
use syn::{Meta, Token};

fn norm(t: &str) -> String {
    t.parse::<proc_macro2::TokenStream>().unwrap().to_string()
}

fn toks(t: &impl ToTokens) -> String {
    t.to_token_stream().to_string()
}

fn opt<T>(o: Option<T>, f: impl Fn(T) -> String) -> String {
    o.map_or("-".to_string(), f)
}

fn get<'a>(l: &'a [Sub], key: &str) -> Option<&'a str> {
    l.iter().find(|s| s.key == key).map(|s| s.val)
}

fn has(l: &[Sub], key: &str) -> bool {
    l.iter().any(|s| s.key == key)
}

fn or(v: Option<&str>) -> String {
    v.unwrap_or("-").to_string()
}

/// What all arguments with sub-arguments have in common
fn common(form: &Form, literal: Option<usize>, groups: &[&[&str]], f: impl Fn(&[Sub]) -> Seen) -> Verdict {
    let l = match form {
        Form::Keyword => return Verdict::Is(f(&[])),
        Form::Value(_) => return Verdict::Rejected,
        Form::List(l) => *l,
    };
    let literals: Vec<_> = l.iter().filter(|s| s.key.is_empty()).collect();
    if literals.len() > literal.unwrap_or(0) || literals.iter().any(|s| s.val == "!") {
        return Verdict::Rejected;
    }
    for (i, s) in l.iter().enumerate() {
        if s.key == "?" || s.val == "!" || !s.key.is_empty() && l[..i].iter().any(|o| o.key == s.key) {
            return Verdict::Rejected;
        }
    }
    if groups.iter().any(|g| g.iter().filter(|k| has(l, k)).count() > 1) {
        return Verdict::Rejected;
    }
    Verdict::Is(f(l))
}

const VISIBILITY: &[&str] = &["public", "private"];

fn visibility(l: &[Sub]) -> String {
    if has(l, "private") {
        "private".to_string()
    } else {
        or(get(l, "public"))
    }
}

fn vis(p: Option<FXPubMode>) -> String {
    opt(p, |p| match p {
        FXPubMode::Private => "private".into(),
        FXPubMode::All => "all".into(),
        FXPubMode::Crate => "crate".into(),
        FXPubMode::Super => "super".into(),
        FXPubMode::InMod(p) => toks(&p),
    })
}

fn list(a: Option<&FXAttributes>) -> String {
    opt(a, |a| a.list().iter().map(|a| toks(a)).collect::<Vec<_>>().join(" "))
}

fn attrs(v: Option<&str>) -> String {
    opt(v, norm)
}

fn base() -> Vec<Sub> {
    vec![
        s("off", "off", ""), s("public", "public", "all"), s("public(crate)", "public", "crate"), s("public(super)", "public", "super"),
        s("public(some::module)", "public", "some :: module"), s("private", "private", ""),
        s("attributes_fn(inline, allow(a, b))", "attributes_fn", "#[inline] #[allow(a, b)]"), s("attributes_fn()", "attributes_fn", ""),
        s("\"nm\"", "", "nm"), s("\"m2\"", "", "m2"), s("7", "", "!"), s("bogus", "?", ""), s("bogus(1)", "?", ""),
    ]
}

/// What FXHelperTrait shows
fn helper(h: &impl FXHelperTrait) -> Seen {
    vec![("is_true", h.is_true().to_string()), ("name", or(h.name())), ("public_mode", vis(h.public_mode())), ("attributes_fn", list(h.attributes_fn())), ("attributes", list(h.attributes()))]
}

fn helper_model(l: &[Sub]) -> Seen {
    vec![("is_true", (!has(l, "off")).to_string()), ("name", or(get(l, ""))), ("public_mode", visibility(l)), ("attributes_fn", attrs(get(l, "attributes_fn"))), ("attributes", attrs(get(l, "attributes")))]
}

/// The origin of an argument
fn origin<T: FromNestAttr<L>, const L: bool>(a: &FXNestingAttr<T, L>, m: &Meta) -> (&'static str, String) {
    let same = a.orig() == Some(m) && toks(a) == toks(m);
    ("origin kept", same.to_string())
}

fn kept() -> (&'static str, String) {
    ("origin kept", "true".to_string())
}

fn ty(name: &'static str, most: usize, vocabulary: Vec<Sub>, parse: impl Fn(&Meta) -> darling::Result<Seen> + 'static, model: impl Fn(&Form) -> Verdict + 'static) -> Type {
    Type { name, most, vocabulary, parse: Box::new(parse), model: Box::new(model) }
}

/// Literals which a value of the type can be given as
fn value<T: std::fmt::Debug + 'static>(name: &'static str, good: &[(&'static str, &'static str)], bad: &[&'static str]) -> Type
where
    FXValueArg<T>: FromNestAttr,
{
    let mut v: Vec<_> = good.iter().map(|g| s(g.0, "", g.1)).collect();
    v.extend(bad.iter().map(|b| s(b, "", "!")));
    v.extend([s("off", "off", ""), s("bogus", "?", "")]);
    ty(name, 3, v, |m| {
        let a = FXValue::<T>::from_meta(m)?;
        Ok(vec![("is_true", a.is_true().to_string()), ("value", opt(a.value(), |v| format!("{v:?}"))), origin(&a, m)])
    }, |form| match form {
        Form::Keyword => Verdict::Rejected,
        Form::List(l) if l.is_empty() => Verdict::Open,
        _ => common(form, Some(1), &[], |l| {
            let off = has(l, "off");
            vec![("is_true", (!off).to_string()), ("value", if off { "-".into() } else { or(get(l, "")) }), kept()]
        }),
    })
}

/// Exactly one syntax element
fn element<T: syn::parse::Parse + ToTokens + 'static>(name: &'static str, good: &[&'static str], bad: &[&'static str]) -> Vec<Type> {
    let vocab = || {
        let mut v: Vec<_> = good.iter().map(|g| s(g, "", g)).collect();
        v.extend(bad.iter().map(|b| s(b, "", "!")));
        v
    };
    let model = |word: bool| move |form: &Form| match form {
        Form::Keyword if word => Verdict::Is(vec![("value", "-".to_string()), kept()]),
        Form::List([one]) if one.val != "!" => Verdict::Is(vec![("value", norm(one.val)), kept()]),
        Form::List([_, ..]) | Form::List([]) | Form::Keyword | Form::Value(_) => Verdict::Rejected,
    };
    vec![
        ty(name, 2, vocab(), |m| {
            let a = FXSynValue::<T, false>::from_meta(m)?;
            Ok(vec![("value", toks(a.value())), origin(&a, m)])
        }, model(false)),
        ty(Box::leak(format!("{name} or keyword").into_boxed_str()), 2, vocab(), |m| {
            let a = FXSynValue::<T, true>::from_meta(m)?;
            Ok(vec![("value", opt(a.value(), |v| toks(v))), origin(&a, m)])
        }, model(true)),
    ]
}

/// Lists of syntax elements
fn many<const MIN: i32, const MAX: i32>(name: &'static str) -> Type {
    let v = vec![s("A", "p", "A"), s("b::C", "p", "b :: C"), s("1", "p", "!"), s("d::E::F", "p", "d :: E :: F")];
    ty(name, 4, v, |m| {
        let a = FXSynValue::<FXPunctuated<syn::Path, Token![,], MIN, MAX>>::from_meta(m)?;
        Ok(vec![("items", a.items().iter().map(|p| toks(p)).collect::<Vec<_>>().join(";")), origin(&a, m)])
    }, |form| match form {
        Form::Keyword | Form::Value(_) => Verdict::Rejected,
        Form::List(l) => {
            let n = l.len() as i32;
            if l.iter().any(|s| s.val == "!") || MIN >= 0 && n < MIN || MAX >= 0 && n > MAX {
                Verdict::Rejected
            } else {
                Verdict::Is(vec![("items", l.iter().map(|s| norm(s.val)).collect::<Vec<_>>().join(";")), kept()])
            }
        }
    })
}

fn base_helper<const B: bool>(name: &'static str) -> Type {
    ty(name, 4, base(), |m| {
        let a = FXHelper::<B>::from_meta(m)?;
        let mut seen = helper(&*a);
        seen.push(("bool", bool::from(&*a).to_string()));
        seen.push(origin(&a, m));
        Ok(seen)
    }, |form| common(form, (!B).then_some(1), &[VISIBILITY], |l| {
        let mut seen = helper_model(l);
        seen.push(("bool", (!has(l, "off")).to_string()));
        seen.push(kept());
        seen
    }))
}

fn accessor<const B: bool>(name: &'static str) -> Type {
    let mut v = base();
    v.extend([s("clone", "clone", ""), s("copy", "copy", ""), s("as_ref", "as_ref", "")]);
    ty(name, 4, v, |m| {
        let a = FXAccessor::<B>::from_meta(m)?;
        let mut seen = helper(&*a);
        seen.push(("mode", opt(a.mode(), |m| format!("{m:?}"))));
        seen.push(("mode has a place", a.mode_span().is_some().to_string()));
        seen.push(origin(&a, m));
        Ok(seen)
    }, |form| common(form, (!B).then_some(1), &[VISIBILITY, &["clone", "copy", "as_ref"]], |l| {
        let mut seen = helper_model(l);
        let m = if has(l, "clone") { "Clone" } else if has(l, "copy") { "Copy" } else if has(l, "as_ref") { "AsRef" } else { "-" };
        seen.push(("mode", m.into()));
        seen.push(("mode has a place", (m != "-").to_string()));
        seen.push(kept());
        seen
    }))
}

fn setter<const B: bool>(name: &'static str) -> Type {
    let mut v = base();
    v.push(s("into", "into", "true"));
    ty(name, 4, v, |m| {
        let a = FXSetter::<B>::from_meta(m)?;
        let mut seen = helper(&*a);
        seen.push(("into", opt(a.is_into(), |m| m.to_string())));
        seen.push(origin(&a, m));
        Ok(seen)
    }, |form| common(form, (!B).then_some(1), &[VISIBILITY], |l| {
        let mut seen = helper_model(l);
        seen.push(("into", or(get(l, "into"))));
        seen.push(kept());
        seen
    }))
}

fn builder<const STRUCT: bool>(name: &'static str) -> Type {
    let mut v = base();
    v.retain(|s| !["\"m2\"", "public(super)", "attributes_fn()", "bogus(1)"].contains(&s.text));
    v.extend([s("into", "into", "true"), s("into(off)", "into", "false"), s("required", "required", "true"), s("required(off)", "required", "false"),
        s("attributes(derive(X))", "attributes", "#[derive(X)]"), s("attributes_impl(allow(y))", "attributes_impl", "#[allow(y)]"),
        s("opt_in", "opt_in", "true"), s("opt_in(off)", "opt_in", "false"), s("post_build", "post_build", "-"), s("post_build(done)", "post_build", "done"),
        s("post_build(a, b)", "post_build", "!"), s("error(E)", "error", "E"), s("error(m::E, m::E::V)", "error", "m :: E m :: E :: V"), s("error()", "error", "!"),
        s("error(A, B, C)", "error", "!"), s("error", "error", "!")]);
    ty(name, 3, v, |m| {
        let a = FXBuilder::<STRUCT>::from_meta(m)?;
        let mut seen = helper(&*a);
        seen.push(("into", opt(a.is_into(), |m| m.to_string())));
        seen.push(("required", opt(a.is_required(), |m| m.to_string())));
        seen.push(("attributes_impl", list(a.attributes_impl())));
        seen.push(("opt_in", a.is_builder_opt_in().to_string()));
        seen.push(("post_build", a.has_post_build().to_string()));
        seen.push(("post_build method", opt(a.post_build().as_ref().and_then(|p| p.value()), |m| m.to_string())));
        seen.push(("error", [opt(a.error_type(), |p| toks(p)), opt(a.error_variant(), |p| toks(p))].join("|")));
        seen.push(origin(&a, m));
        Ok(seen)
    }, |form| {
        if let Form::List(l) = form {
            if !STRUCT && ["error", "post_build", "opt_in"].iter().any(|k| has(l, k)) {
                return Verdict::Rejected;
            }
        }
        common(form, Some(1), &[VISIBILITY], |l| {
            let mut seen = helper_model(l);
            seen.push(("into", or(get(l, "into"))));
            seen.push(("required", or(get(l, "required"))));
            seen.push(("attributes_impl", attrs(get(l, "attributes_impl"))));
            seen.push(("opt_in", (get(l, "opt_in") == Some("true")).to_string()));
            seen.push(("post_build", has(l, "post_build").to_string()));
            seen.push(("post_build method", or(get(l, "post_build"))));
            seen.push(("error", match get(l, "error") {
                None => "-|-".into(),
                Some("E") => "E|-".into(),
                _ => "m :: E|m :: E :: V".into(),
            }));
            seen.push(kept());
            seen
        })
    })
}

fn serde() -> Type {
    let v = vec![
        s("off", "off", ""), s("public", "public", "all"), s("public(crate)", "public", "crate"), s("private", "private", ""), s("attributes(derive(X))", "attributes", "#[derive(X)]"),
        s("serialize", "serialize", "true"), s("serialize(off)", "serialize", "false"), s("deserialize", "deserialize", "true"), s("deserialize(off)", "deserialize", "false"),
        s("forward_attrs(a, m::b)", "forward_attrs", "a"), s("forward_attrs()", "forward_attrs", ""), s("default", "default", "-"), s("default(\"f\")", "default", "\"f\""),
        s("default(Self::f())", "default", "Self :: f ()"), s("default(off, 5)", "default", ""), s("\"Shadow\"", "", "Shadow"), s("\"Other\"", "", "Other"), s("'c'", "", "!"), s("bogus", "?", ""),
    ];
    ty("FXSerde", 3, v, |m| {
        let a = FXSerde::from_meta(m)?;
        let mark: syn::Attribute = syn::parse_quote!(#[a(1)]);
        let other: syn::Attribute = syn::parse_quote!(#[c]);
        Ok(vec![("is_true", a.is_true().to_string()), ("is_serde", opt(a.is_serde(), |b| b.to_string())), ("needs_serialize", opt(a.needs_serialize(), |b| b.to_string())),
            ("needs_deserialize", opt(a.needs_deserialize(), |b| b.to_string())), ("public_mode", vis(a.public_mode())), ("attributes", list(a.attributes().as_ref())),
            ("accepts a", a.accepts_attr(&mark).to_string()), ("accepts c", a.accepts_attr(&other).to_string()), ("has_default", a.has_default().to_string()),
            ("default_value", opt(a.default_value(), |v| toks(v))), ("shadow_name", opt(a.shadow_name(), |n| n.clone())), origin(&a, m)])
    }, |form| common(form, Some(1), &[VISIBILITY], |l| {
        let off = has(l, "off");
        let (ser, de) = (get(l, "serialize"), get(l, "deserialize"));
        let not = |v: &str| if v == "true" { "false" } else { "true" };
        // one of them given alone decides about the other one, too
        let needs_ser = ser.or(de.map(not));
        let needs_de = de.or(ser.map(not));
        let is = if off { "false" } else if needs_ser.is_none() { "-" } else if needs_ser == Some("false") && needs_de == Some("false") { "false" } else { "true" };
        let default = get(l, "default");
        vec![("is_true", (!off).to_string()), ("is_serde", is.into()), ("needs_serialize", or(needs_ser)), ("needs_deserialize", or(needs_de)), ("public_mode", visibility(l)),
            ("attributes", attrs(get(l, "attributes"))), ("accepts a", (get(l, "forward_attrs") != Some("")).to_string()), ("accepts c", (!has(l, "forward_attrs")).to_string()),
            ("has_default", default.map_or(false, |d| !d.is_empty()).to_string()), ("default_value", default.filter(|d| !d.is_empty()).map_or("-".into(), |d| if d == "-" { d.into() } else { norm(d) })), ("shadow_name", or(get(l, ""))), kept()]
    }))
}

fn default<const OPTIONAL: bool>(name: &'static str) -> Type {
    let v = vec![s("off", "off", "off"), s("42", "", "42"), s("\"text\"", "", "\"text\""), s("Type::VALUE", "", "Type :: VALUE"), s("Type::func(1, x)", "", "Type :: func (1 , x)"), s("true", "", "true"), s("word", "", "word")];
    ty(name, 3, v, |m| {
        let a = FXDefault::<OPTIONAL>::from_meta(m)?;
        Ok(vec![("is_true", a.is_true().to_string()), ("has_value", a.has_value().to_string()), ("value", opt(a.value().as_ref(), |v| toks(v))), ("is_str", a.is_str().to_string()),
            ("string", opt(String::try_from(&a).ok(), |s| s))])
    }, |form| {
        let seen = |on: bool, v: Option<&Sub>| Verdict::Is(vec![("is_true", on.to_string()), ("has_value", v.is_some().to_string()), ("value", opt(v, |v| norm(v.val))),
            ("is_str", (v.map(|v| v.val) == Some("\"text\"")).to_string()), ("string", if v.map(|v| v.val) == Some("\"text\"") { "text".into() } else { "-".into() })]);
        match form {
            Form::Keyword | Form::List([]) if OPTIONAL => seen(true, None),
            Form::Keyword | Form::List([]) => Verdict::Rejected,
            Form::Value(_) => Verdict::Rejected,
            Form::List([one]) if one.key == "off" => Verdict::Open,
            Form::List([one]) => seen(true, Some(one)),
            Form::List([off, one]) if off.key == "off" => if one.key == "off" { Verdict::Open } else { seen(false, Some(one)) },
            _ => Verdict::Rejected,
        }
    })
}

pub fn types() -> Vec<Type> {
    let mut all = vec![
        base_helper::<false>("FXHelper"), base_helper::<true>("FXHelper<true>"), accessor::<false>("FXAccessor"), accessor::<true>("FXAccessor<true>"),
        setter::<false>("FXSetter"), setter::<true>("FXSetter<true>"), builder::<false>("FXBuilder"), builder::<true>("FXBuilder<true>"), serde(),
        default::<false>("FXDefault"), default::<true>("FXDefault<true>"),
        many::<-1, -1>("FXPunctuated"), many::<1, 2>("FXPunctuated 1..2"), many::<0, 1>("FXPunctuated 0..1"), many::<2, -1>("FXPunctuated 2.."), many::<-1, 3>("FXPunctuated ..3"), many::<0, 0>("FXPunctuated 0"),
        ty("FXBool", 3, vec![s("off", "off", ""), s("\"s\"", "", "!"), s("true", "", "!"), s("1", "", "!"), s("bogus", "?", ""), s("off(1)", "off", "!")], |m| {
            let a = FXBool::from_meta(m)?;
            Ok(vec![("is_true", a.is_true().to_string()), origin(&a, m)])
        }, |form| common(form, None, &[], |l| vec![("is_true", (!has(l, "off")).to_string()), kept()])),
        ty("FXFallible", 3, vec![s("off", "off", ""), s("error(E)", "error", "E"), s("error(m::E<u32>)", "error", "m :: E < u32 >"), s("error", "error", "!"), s("error(1)", "error", "!"), s("error(A, B)", "error", "!"), s("E", "?", ""), s("\"E\"", "", "!")], |m| {
            let a = FXNestingAttr::<FXFallible>::from_meta(m)?;
            Ok(vec![("is_true", a.is_true().to_string()), ("error", opt(a.error_type(), |e| toks(e.value()))), origin(&a, m)])
        }, |form| common(form, None, &[], |l| vec![("is_true", (!has(l, "off")).to_string()), ("error", opt(get(l, "error"), norm)), kept()])),
        ty("FXPubMode", 2, vec![s("crate", "", "crate"), s("super", "", "super"), s("a::b", "", "a :: b"), s("crate::a::b", "", "crate :: a :: b"), s("some", "", "!"), s("crate(x)", "", "!"), s("\"crate\"", "", "!")], |m| {
            let a = FXNestingAttr::<FXPubMode>::from_meta(m)?;
            Ok(vec![("mode", vis(Some((*a).clone()))), ("is_true", a.is_true().to_string()), ("tokens", toks(&*a)), origin(&a, m)])
        }, |form| match form {
            Form::Keyword => Verdict::Is(vec![("mode", "all".into()), ("is_true", "true".into()), ("tokens", "pub".into()), kept()]),
            Form::List([one]) if one.val != "!" => Verdict::Is(vec![("mode", norm(one.val)), ("is_true", "true".into()),
                ("tokens", if one.val.contains("::") { format!("pub (in {})", one.val) } else { format!("pub ({})", one.val) }), kept()]),
            Form::Value(_) => Verdict::Open,
            _ => Verdict::Rejected,
        }),
        ty("FXAttributes", 4, vec![s("inline", "", "#[inline]"), s("allow(a, b)", "", "#[allow(a, b)]"), s("m::n(x, [1, 2], {3, 4})", "", "#[m::n(x, [1, 2], {3, 4})]"), s("doc = \"a, b\"", "", "#[doc = \"a, b\"]"),
            s("cfg_attr(q, w(1))", "", "#[cfg_attr(q, w(1))]"), s("7", "", "!"), s("a b", "", "!")], |m| {
            let a = FXAttributes::from_meta(m)?;
            Ok(vec![("list", a.list().iter().map(|a| toks(a)).collect::<Vec<_>>().join(";")), ("tokens", toks(&a))])
        }, |form| match form {
            Form::List(l) if l.iter().any(|s| s.val == "!") => Verdict::Rejected,
            Form::List(l) => Verdict::Is(vec![("list", l.iter().map(|s| norm(s.val)).collect::<Vec<_>>().join(";")), ("tokens", l.iter().map(|s| norm(s.val)).collect::<Vec<_>>().join(" "))]),
            _ => Verdict::Rejected,
        }),
        ty("FXSynTuple 2", 3, vec![s("a::b", "", "P"), s("c", "", "P"), s("7", "", "E"), s("f(1)", "", "X"), s("\"s\"", "", "E")], |m| {
            let a = FXSynTuple::<(syn::Path, syn::Expr)>::from_meta(m)?;
            let (p, e) = a.value();
            Ok(vec![("first", toks(p)), ("second", toks(e)), origin(&a, m)])
        }, |form| match form {
            Form::List([p, e]) if p.val == "P" => Verdict::Is(vec![("first", norm(p.text)), ("second", norm(e.text)), kept()]),
            _ => Verdict::Rejected,
        }),
        ty("FXSynTuple 3", 4, vec![s("a::b", "", "P"), s("c", "", "PI"), s("7", "", "L")], |m| {
            let a = FXSynTuple::<(syn::Path, syn::LitInt, syn::Ident)>::from_meta(m)?;
            let (p, n, i) = a.value();
            Ok(vec![("first", toks(p)), ("second", toks(n)), ("third", toks(i)), origin(&a, m)])
        }, |form| match form {
            Form::List([p, n, i]) if p.val.starts_with('P') && n.val == "L" && i.val == "PI" => Verdict::Is(vec![("first", norm(p.text)), ("second", norm(n.text)), ("third", norm(i.text)), kept()]),
            _ => Verdict::Rejected,
        }),
        value::<i8>("FXValue<i8>", &[("0", "0"), ("127", "127"), ("5i8", "5")], &["128", "1.5", "\"1\"", "'1'", "true"]),
        value::<i16>("FXValue<i16>", &[("0", "0"), ("32767", "32767")], &["32768", "1.5", "\"1\""]),
        value::<i32>("FXValue<i32>", &[("0", "0"), ("2147483647", "2147483647"), ("0x1f", "31")], &["2147483648", "1.5", "\"1\""]),
        value::<i64>("FXValue<i64>", &[("9223372036854775807", "9223372036854775807"), ("1_000", "1000")], &["9223372036854775808", "1.5", "\"1\""]),
        value::<u8>("FXValue<u8>", &[("255", "255"), ("0b11", "3")], &["256", "1.5", "b'a'"]),
        value::<u16>("FXValue<u16>", &[("65535", "65535")], &["65536", "1.5"]),
        value::<u32>("FXValue<u32>", &[("4294967295", "4294967295")], &["4294967296", "1.5"]),
        value::<u64>("FXValue<u64>", &[("18446744073709551615", "18446744073709551615")], &["18446744073709551616", "1.5"]),
        value::<f32>("FXValue<f32>", &[("1.5", "1.5"), ("2e3", "2000.0")], &["1", "\"1.5\""]),
        value::<f64>("FXValue<f64>", &[("3.1415926", "3.1415926"), ("1e-3", "0.001")], &["1", "\"1.5\""]),
        value::<String>("FXString", &[("\"text\"", "\"text\""), ("\"\"", "\"\""), ("r\"raw\"", "\"raw\"")], &["1", "'c'", "true", "b\"x\""]),
        value::<Vec<u8>>("FXValue<Vec<u8>>", &[("b\"ab\"", "[97, 98]")], &["\"ab\"", "1"]),
        value::<char>("FXValue<char>", &[("'c'", "'c'"), ("'\\n'", "'\\n'")], &["\"c\"", "1", "b'c'"]),
        value::<bool>("FXValue<bool>", &[("true", "true"), ("false", "false")], &["\"true\"", "1"]),
    ];
    all.extend(element::<syn::Path>("FXSynValue<Path>", &["a", "b::c", "::d", "V::<u8>"], &["1", "f(1)", "\"s\""]));
    all.extend(element::<syn::Expr>("FXSynValue<Expr>", &["a", "f(1, 2)", "|v| v.method()", "if true { 1 } else { 2 }", "[1, 2]", "-7"], &["1 2", "let"]));
    all.extend(element::<syn::Ident>("FXSynValue<Ident>", &["a", "_b"], &["a::b", "1", "crate"]));
    all.extend(element::<syn::LitStr>("FXSynValue<LitStr>", &["\"a, b\""], &["a", "1"]));
    all.extend(element::<syn::Type>("FXSynValue<Type>", &["u32", "Vec<Option<u8>>", "&'static str", "(u8, i8)"], &["1", "\"s\""]));
    all
}

/// Values made without any text
pub fn conversions() -> Vec<(String, bool)> {
    let mut out = vec![];
    let mut see = |what: String, ok: bool| out.push((what, ok));
    for b in [false, true] {
        let h: FXBaseHelper = b.into();
        see(format!("FXBaseHelper from {b} is {b}"), bool::from(&h) == b && h.is_true() == b && bool::from(h) == b);
        let h: FXBaseHelper<true> = b.into();
        see(format!("FXBaseHelper<true> from {b} is {b}"), bool::from(&h) == b && h.is_true() == b && bool::from(h) == b);
    }
    let v: FXValueArg<u32> = 7.into();
    see("FXValueArg from 7".into(), v.is_true() && v.value() == Some(&7));
    let v: FXValueArg<u32> = 7.fx_into();
    see("FXValueArg fx_from 7".into(), v.is_true() && v.value() == Some(&7));
    let v: FXValueArg<u32> = None.fx_into();
    see("FXValueArg fx_from None".into(), v.is_true() && v.value().is_none());
    let v: FXValueArg<u32> = Some(8).fx_into();
    see("FXValueArg fx_from Some".into(), v.is_true() && v.value() == Some(&8));
    let v: FXValue<u32> = 7.fx_into();
    see("FXValue fx_from 7".into(), v.is_true() && v.value() == Some(&7) && v.orig().is_none() && toks(&v).is_empty());
    let v: Option<FXString> = "x".to_string().fx_into();
    see("Option<FXString> fx_from".into(), v.as_ref().and_then(|v| v.value()).map(|s| s.as_str()) == Some("x") && v.orig().is_none());
    let v: FXSynValueArg<syn::Path> = syn::parse_str::<syn::Path>("a::b").unwrap().into();
    see("FXSynValueArg from".into(), toks(v.value()) == "a :: b" && toks(&*v) == "a :: b");
    let v: FXSynValueArg<syn::Path, true> = syn::parse_str::<syn::Path>("a::b").unwrap().fx_into();
    see("FXSynValueArg fx_from".into(), opt(v.value(), |p| toks(p)) == "a :: b");
    let none: Option<FXBool> = None;
    see("nothing is not true".into(), !none.is_true() && none.not_true() && none.is_true_opt().is_none());
    for (t, want) in [("x", true), ("x(off)", false)] {
        let some = Some(FXBool::from_meta(&syn::parse_str(t).unwrap()).unwrap());
        see(format!("Some({t}) is {want}"), some.is_true() == want && some.not_true() == !want && some.is_true_opt() == Some(want));
    }
    for (p, t) in [(FXPubMode::Private, ""), (FXPubMode::All, "pub"), (FXPubMode::Crate, "pub (crate)"), (FXPubMode::Super, "pub (super)"), (FXPubMode::InMod(syn::parse_str("crate::m").unwrap()), "pub (in crate :: m)")] {
        see(format!("{p:?} is {t}"), toks(&p) == t && p.is_true());
    }
    for (m, want) in [("sync", [true, false, false]), ("async", [false, true, false]), ("plain", [false, false, true])] {
        let v = syn::parse_str::<FXSyncMode>(m).unwrap();
        see(format!("mode {m}"), [v.is_sync(), v.is_async(), v.is_plain()] == want);
    }
    for m in ["Sync", "r#sync", "sync async", "", "1"] {
        see(format!("no mode {m:?}"), syn::parse_str::<FXSyncMode>(m).is_err());
    }
    // private wins, even from another place
    let private = |t: &str| Some(FXBool::from_meta(&syn::parse_str(t).unwrap()).unwrap());
    let public = |t: &str| Some(FXNestingAttr::<FXPubMode>::from_meta(&syn::parse_str(t).unwrap()).unwrap());
    see("public_mode neither".into(), vis(public_mode(&None, &None)) == "-");
    see("public_mode public".into(), vis(public_mode(&public("public(crate)"), &None)) == "crate");
    see("public_mode private".into(), vis(public_mode(&None, &private("private"))) == "private");
    see("public_mode private(off)".into(), vis(public_mode(&public("public"), &private("private(off)"))) == "all" && vis(public_mode(&None, &private("private(off)"))) == "-");
    out
}
