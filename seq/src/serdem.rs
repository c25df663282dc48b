//! Deserialization of every subset of fields
use crate::*;
use serde_json::{Map, Value};

#[derive(Clone, Copy, PartialEq, Eq, Debug)]
pub enum Missing {
    /// An error
    Error,
    /// The field has this content then
    Is(Option<u64>),
    /// Whatever the conversion of a default object does to an unset lazy field
    Any,
}

#[derive(Clone, Debug)]
pub struct SField {
    pub name:    &'static str,
    /// Name in serialized form
    pub key:     &'static str,
    pub lazy:    bool,
    /// May be null
    pub opt:     bool,
    pub ser:     bool,
    pub de:      bool,
    /// Outcome for a missing field (one that isn't deserialized always has that content)
    pub missing: Missing,
    /// Outcome for null
    pub null:    Missing,
    pub text:    bool,
}

#[derive(Clone, Debug)]
pub struct SSpec {
    pub name:   &'static str,
    pub src:    &'static str,
    pub tags:   &'static [&'static str],
    /// Can it be serialized, too?
    pub ser:    bool,
    pub fields: &'static [SField],
}

pub trait SerdeObj: Sized + 'static {
    const SPEC: SSpec;
    fn de(json: &str) -> Result<Self, String>;
    fn ser(&self) -> Result<String, String>;
    /// Content of fields
    fn view(&self) -> Vec<Option<u64>>;
}

type Bad = (Class, String);

fn val(f: &SField, id: u64) -> Value {
    if f.text {
        Value::from(<String as Id>::mk(id))
    }
    else {
        Value::from(id)
    }
}

fn run_<T: SerdeObj>(spec: &SSpec, seen: &mut dyn FnMut(u64), want: bool, out: &mut RunOut, tr: &mut String) -> Result<(), Bad> {
    let crash = |p: Result<u64, String>| (Class::Crash, format!("unexpected panic: {}", p.err().unwrap_or_default()));
    let res = |m: String| Err((Class::Result, m));
    let mut entries: Vec<(String, Value)> = vec![];
    let mut exp: Vec<Missing> = vec![];
    let mut code = vec![];
    for (i, f) in spec.fields.iter().enumerate() {
        // 0: missing, 1: value, 2: null
        let c = choose(if f.de { 3 } else { 2 });
        code.push(c);
        match c {
            0 => exp.push(f.missing),
            1 => {
                entries.push((f.key.to_string(), val(f, 700 + i as u64)));
                exp.push(if f.de { Missing::Is(Some(700 + i as u64)) } else { f.missing });
            }
            _ => {
                entries.push((f.key.to_string(), Value::Null));
                exp.push(f.null);
            }
        }
    }
    // something unknown: nothing, another key, the name of a field which isn't its key
    let extra = choose(3);
    code.push(extra);
    match extra {
        1 => entries.push(("nobody".into(), Value::from(1))),
        2 => {
            for f in spec.fields {
                if !spec.fields.iter().any(|g| g.key == f.name) {
                    entries.push((f.name.into(), Value::from("nothing to see here")));
                }
            }
        }
        _ => (),
    }
    let reverse = choose(2) == 1;
    if reverse {
        entries.reverse();
    }
    tick();
    // maps of serde_json may be sorted, so write it ourselves
    let json = format!(
        "{{{}}}",
        entries
            .iter()
            .map(|(k, v)| format!("{}:{}", Value::from(k.as_str()), v))
            .collect::<Vec<_>>()
            .join(",")
    );
    out.steps += 1;
    let r = guarded(|| T::de(&json)).map_err(crash)?;
    if want {
        let _ = writeln!(
            tr,
            "deserialize {json} -> {}",
            match &r {
                Ok(_) => "ok".into(),
                Err(e) => e.clone(),
            }
        );
    }
    seen(hash(&(code, r.is_ok())));
    let fail = exp.iter().position(|m| *m == Missing::Error);
    let o = match (r, fail) {
        (Ok(_), Some(i)) => return res(format!("{json} is accepted in spite of '{}'", spec.fields[i].name)),
        (Err(_), Some(_)) => {
            return match model::live_diff(vec![]) {
                Some(m) => Err((Class::Live, format!("after deserialization failed: {m}"))),
                None => Ok(()),
            }
        }
        (Err(e), None) => return res(format!("{json} is rejected: {e}")),
        (Ok(o), None) => o,
    };
    ctx(|c| c.log.clear());
    let v = guarded(|| o.view()).map_err(crash)?;
    if want {
        let _ = writeln!(tr, "object: {v:?}");
    }
    for ((f, v), e) in spec.fields.iter().zip(&v).zip(&exp) {
        match e {
            Missing::Is(e) if e != v => return res(format!("{json}: '{}' is {v:?}, should be {e:?}", f.name)),
            _ => (),
        }
    }
    if let Some(b) = ctx(|c| c.log.first().cloned()) {
        return Err((Class::Builder, format!("the builder of '{}' ran though the field is set", spec.fields[b.field].name)));
    }
    // the other direction
    if spec.ser {
        other_way(spec, &o, &v, want, out, tr)?;
    }
    drop(o);
    match model::live_diff(vec![]) {
        Some(m) => Err((Class::Live, format!("after everything was dropped: {m}"))),
        None => Ok(()),
    }
}

fn other_way<T: SerdeObj>(spec: &SSpec, o: &T, v: &[Option<u64>], want: bool, out: &mut RunOut, tr: &mut String) -> Result<(), Bad> {
    let crash = |p: Result<u64, String>| (Class::Crash, format!("unexpected panic: {}", p.err().unwrap_or_default()));
    let res = |m: String| Err((Class::Result, m));
    let j2 = guarded(|| o.ser()).map_err(crash)?.map_err(|e| (Class::Result, format!("serialization fails: {e}")))?;
    out.steps += 1;
    if want {
        let _ = writeln!(tr, "serialize -> {j2}");
    }
    let m: Map<String, Value> = serde_json::from_str(&j2).map_err(|e| (Class::Result, format!("{j2}: {e}")))?;
    let mut n = 0;
    for (f, v) in spec.fields.iter().zip(v) {
        if f.ser {
            n += 1;
            match (m.get(f.key), v) {
                (None, _) => return res(format!("'{}' is not in {j2} under the name '{}'", f.name, f.key)),
                (Some(Value::Null), None) if !f.lazy => (),
                (Some(Value::Null), None) => return res(format!("lazy '{}' is not built for {j2}", f.name)),
                (Some(_), None) if f.lazy => (),
                (Some(x), Some(v)) if *x == val(f, *v) => (),
                (Some(x), v) => return res(format!("'{}' is {x} in {j2}, should be {v:?}", f.name)),
            }
        }
    }
    if m.len() != n {
        return res(format!("{j2} has {} fields, should have {n}", m.len()));
    }
    // nothing of this has changed the object
    let v2 = guarded(|| o.view()).map_err(crash)?;
    if v2 != v {
        return res(format!("serialization changes the object from {v:?} to {v2:?}"));
    }
    Ok(())
}

fn run<T: SerdeObj>(spec: &SSpec, o: &Opts, seen: &mut dyn FnMut(u64), want: bool) -> RunOut {
    let mut out = RunOut::default();
    let mut tr = String::new();
    if let Err((class, msg)) = run_::<T>(spec, seen, want, &mut out, &mut tr) {
        if o.classes.contains(&class) {
            out.viol = Some(Viol {
                class,
                msg: format!("{}: {}", spec.name, msg),
                trace: tr.clone(),
            });
        }
        else {
            out.abandoned = true;
        }
    }
    out.trace = tr;
    out
}

pub fn subject<T: SerdeObj>() -> Subject {
    let n: u64 = T::SPEC.fields.iter().map(|f| if f.de { 3 } else { 2 }).product();
    Subject {
        name:  T::SPEC.name.to_string(),
        src:   T::SPEC.src,
        tags:  T::SPEC.tags.to_vec(),
        run:   Box::new(|o, _, seen, want| run::<T>(&T::SPEC, o, seen, want)),
        fan:   Box::new(move |_| (n * 6, 1)),
        depth: Some(1),
    }
}
