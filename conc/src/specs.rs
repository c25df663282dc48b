//! Which programs are explored for which property
use crate::driver::Spec;
use crate::*;

pub struct Subjects {
    pub flavours: Vec<Flavour>,
    pub pairs:    Vec<Flavour>,
    pub deps:     Vec<Flavour>,
    pub is_async: bool,
}

struct Jobs {
    jobs: Vec<Job>,
    seen: HashSet<String>,
}

impl Jobs {
    fn add(&mut self, f: &Flavour, progs: Vec<Vec<Vec<Step>>>, inits: &[Vec<State>], scripts: &[Vec<Outcome>], suspends: &[usize], preempt: usize) {
        for threads in progs {
            for init in inits {
                if f.kinds.iter().zip(init).any(|(k, i)| *k == FieldKind::Locked && i.is_none()) {
                    continue;
                }
                for script in scripts {
                    for s in suspends {
                        // suspensions matter to builders only
                        if *s != suspends[0] && f.kinds.iter().all(|k| *k != FieldKind::Lazy) {
                            continue;
                        }
                        let program = Program { threads: threads.clone(), init: init.clone(), script: script.clone(), suspend: *s };
                        if self.seen.insert(format!("{} {:?} {preempt}", f.name, program)) {
                            self.jobs.push(Job { flavour: f.clone(), program, preempt, check: no_check() });
                        }
                    }
                }
            }
        }
    }
}

fn steps(ops: &[(usize, Op)]) -> Vec<Step> {
    ops.iter().map(|(f, o)| (*f, *o, None)).collect()
}
fn on0(ops: &[Op]) -> Vec<Step> {
    ops.iter().map(|o| (0, *o, None)).collect()
}
fn only(f: &Flavour, ops: &[Op]) -> Vec<Step> {
    let d = |o: &Op| std::mem::discriminant(o);
    on0(&ops.iter().filter(|o| f.ops.iter().any(|p| d(p) == d(o))).copied().collect::<Vec<_>>())
}
fn one() -> Vec<Vec<State>> {
    vec![vec![None], vec![Some(50)]]
}
fn has(p: &[Vec<Step>], f: impl Fn(&Op) -> bool) -> bool {
    p.iter().flatten().any(|s| f(&s.1))
}

pub fn spec(p: &str, thorough: bool, s: &Subjects) -> Option<Spec> {
    use Op::*;
    let ok: Vec<Vec<Outcome>> = vec![vec![]];
    let mut j = Jobs { jobs: vec![], seen: HashSet::new() };
    let lazies: Vec<&Flavour> = s.flavours.iter().filter(|f| f.kinds[0] == FieldKind::Lazy).collect();
    let en = progs::enumerate_steps;
    let th = |q: usize, t: usize| if thorough { t } else { q };
    let susp: Vec<usize> = if s.is_async { vec![0, 1] } else { vec![0] };
    let property: &'static str;
    let rule: &str;
    match (p, s.is_async) {
        ("C01", false) => {
            property = "C01";
            rule = "every program of the given shapes over accessor, mutable accessor, reader, setter, clearer, predicate and writer \
                    guard operations on a lazy field";
            for f in &lazies {
                let all = only(f, &[Get, Rd, Mut(1), Set(1), Clear, WSet(1), WClear]);
                let few = only(f, &[Get, Mut(1), Set(1), Clear]);
                let access = |p: &Vec<Vec<Step>>| has(p, |o| matches!(o, Get | Rd | Mut(_)));
                let pick = |v: Vec<Vec<Vec<Step>>>| v.into_iter().filter(access).collect::<Vec<_>>();
                j.add(f, pick(en(&all, &[2, 1])), &one(), &ok, &susp, th(3, 6));
                j.add(f, pick(en(&all, &[1, 1, 1])), &one(), &ok, &susp, th(2, 4));
                j.add(f, pick(en(&few, &[2, 2])), &one(), &ok, &susp, th(2, 5));
                // readers of an unset field
                let look = only(f, &[Get, Rd, Mut(1), Debug, EqSelf, Clone]);
                j.add(f, pick(en(&look, &[1, 1, 1])), &one(), &ok, &susp, th(3, 6));
                if thorough {
                    j.add(f, pick(en(&all, &[2, 2])), &one(), &ok, &susp, 3);
                    j.add(f, pick(en(&few, &[2, 1, 1])), &one(), &ok, &susp, 3);
                    j.add(f, pick(en(&few, &[3, 2])), &one(), &ok, &susp, 3);
                    j.add(f, pick(en(&few, &[1, 1, 1, 1])), &one(), &ok, &susp, 2);
                }
            }
            for f in &s.deps {
                let ops = steps(&[(0, Get), (0, Clear), (1, Get), (1, Clear), (1, Set(1)), (2, Get), (2, Mut(1)), (2, Clear)]);
                let inits = vec![vec![None, None, None], vec![Some(50), None, None], vec![None, Some(51), None], vec![None, None, Some(52)]];
                j.add(f, en(&ops, &[1, 1]), &inits, &ok, &susp, th(2, 4));
                j.add(f, en(&ops, &[1, 1, 1]), &inits[..th(1, 4)], &ok, &susp, th(1, 2));
            }
        }
        ("C02", false) | ("C06", true) => {
            property = if s.is_async { "C06" } else { "C02" };
            rule = "every program of the given shapes over all helpers of lazy, optional and locked fields";
            for f in &s.flavours {
                let ops: Vec<Op> = f.ops.iter().filter(|o| !matches!(o, Clone | EqSelf | Debug)).copied().collect();
                let all = on0(&ops);
                let few = only(f, &[Get, Mut(1), Set(1), Clear, Has, WMany(1)]);
                j.add(f, en(&all, &[2, 1]), &one(), &ok, &susp, th(2, 6));
                j.add(f, en(&few, &[1, 1, 1]), &one(), &ok, &susp, th(2, 4));
                if thorough {
                    j.add(f, en(&all, &[2, 2]), &one(), &ok, &susp, 3);
                    j.add(f, en(&all, &[1, 1, 1]), &one(), &ok, &susp, 3);
                    j.add(f, en(&few, &[2, 1, 1]), &one(), &ok, &susp, 2);
                    j.add(f, en(&few, &[3, 2]), &one(), &ok, &susp, 2);
                }
                else {
                    let core = only(f, &[Get, Set(1), Clear, Has]);
                    j.add(f, en(&core, &[2, 2]), &one(), &ok, &susp[..1], 2);
                }
            }
            if s.is_async {
                for f in &s.deps {
                    let ops = steps(&[(0, Get), (0, Clear), (1, Get), (1, Set(1)), (2, Get), (2, Mut(1)), (2, Clear)]);
                    let inits = vec![vec![None, None, None], vec![None, Some(51), None], vec![None, None, Some(52)]];
                    j.add(f, en(&ops, &[1, 1]), &inits, &ok, &susp, th(2, 4));
                    if thorough {
                        j.add(f, en(&ops, &[1, 1, 1]), &inits, &ok, &susp, 2);
                    }
                }
            }
        }
        ("C03", _) => {
            property = "C03";
            rule = "every program of the given shapes, where runs of the lazy builder fail by the given script (errors for fallible \
                    fields, panics for all)";
            use Outcome::{Err as E, Ok as O, Panic as P};
            for f in &lazies {
                let fails: Vec<Vec<Outcome>> = if f.fallible {
                    vec![vec![E], vec![P], vec![E, E], vec![E, P], vec![O, E], vec![E, O, E]]
                }
                else {
                    vec![vec![P], vec![P, P], vec![O, P], vec![P, O, P]]
                };
                let all = only(f, &[Get, Hold, Rd, Mut(1), Set(1), Clear, Has, WSet(1), WClear]);
                let few = only(f, &[Get, Rd, Mut(1), Set(1), Clear, Has]);
                let access = |p: &Vec<Vec<Step>>| has(p, |o| matches!(o, Get | Rd | Mut(_) | Hold));
                let pick = |v: Vec<Vec<Vec<Step>>>| v.into_iter().filter(access).collect::<Vec<_>>();
                let i = vec![vec![None]];
                let n = th(3, 6).min(fails.len());
                j.add(f, pick(en(&few, &[2, 1])), &i, &fails[..n], &susp, th(2, 4));
                j.add(f, pick(en(&few, &[1, 1, 1])), &i, &fails[..n], &susp, th(2, 3));
                j.add(f, pick(en(&all, &[1, 1])), &i, &fails, &susp, 4);
                if thorough {
                    j.add(f, pick(en(&few, &[2, 2])), &one(), &fails, &susp, 2);
                    j.add(f, pick(en(&all, &[2, 1])), &i, &fails, &susp, 4);
                }
            }
        }
        ("C04", _) => {
            property = "C04";
            rule = "every program of the given shapes with lazy builders that use other lazy fields, comparisons of objects with \
                    themselves and each other, cloning, debug output and writers";
            for f in &s.deps {
                let mut ops = vec![(0, Get), (0, Set(1)), (0, Clear), (1, Get), (1, Mut(1)), (1, Clear), (2, Get), (2, Set(1)), (2, Rd), (2, WMany(1))];
                if f.copies {
                    ops.extend([(0, EqSelf), (0, Debug)]);
                }
                let i = vec![vec![None, None, None], vec![Some(50), Some(51), Some(52)], vec![None, Some(51), None]];
                j.add(f, en(&steps(&ops), &[1, 1]), &i, &ok, &susp, th(3, 6));
                j.add(f, en(&steps(&ops), &[1, 1, 1]), &i[..th(1, 3)], &ok, &susp[..1], th(1, 3));
            }
            for f in &s.pairs {
                let clr = f.kinds[0] != FieldKind::Locked;
                let mut ops = vec![(0, EqOther(false)), (0, EqOther(true)), (0, EqSelf), (1, EqSelf), (0, Set(1)), (1, Set(1)), (0, Mut(1)), (1, WMany(1))];
                ops.extend([(0, Clone), (1, Debug)]);
                if clr {
                    ops.extend([(0, Clear), (1, WClear)]);
                }
                let i = vec![vec![Some(50), Some(50)], vec![None, Some(51)]];
                j.add(f, en(&steps(&ops), &[1, 1, 1]), &i, &ok, &[0], th(3, 6));
                j.add(f, en(&steps(&ops), &[1, 2]), &i, &ok, &[0], th(2, 6));
                let few = steps(&[(0, EqOther(false)), (0, EqOther(true)), (0, EqSelf), (0, Set(1)), (1, Set(1))]);
                j.add(f, en(&few, &[1, 1, 1, 1]), &i[..1], &ok, &[0], th(2, 4));
                if thorough {
                    j.add(f, en(&steps(&ops), &[1, 1, 1, 1]), &i[..1], &ok, &[0], 2);
                    j.add(f, en(&steps(&ops), &[2, 2]), &i, &ok, &[0], 3);
                }
            }
            for f in &s.flavours {
                if f.copies {
                    let ops = only(f, &[EqSelf, Clone, Debug, Get, Rd, Mut(1), Set(1), WMany(1), Clear, Has]);
                    j.add(f, en(&ops, &[1, 1, 1]), &one(), &ok, &[0], th(2, 6));
                    j.add(f, en(&ops, &[2, 1]), &one(), &ok, &[0], th(2, 6));
                }
                else if thorough || f.name.contains("rc_") {
                    let ops = on0(&f.ops);
                    j.add(f, en(&ops, &[1, 1, 1]), &one(), &ok, &[0], th(1, 4));
                }
            }
        }
        ("C05", false) => {
            property = "C05";
            rule = "every program of the given shapes in which guards are kept while other threads operate; two-step updates of values \
                    through guards; readers which wait for each other while they hold their guards";
            for f in &s.flavours {
                let ops = only(f, &[Hold, Rd, Mut(1), WMany(1), Set(1), Clear, WSet(1), WClear]);
                let few = only(f, &[Rd, Mut(1), WMany(1), Clear]);
                let guards = |p: &Vec<Vec<Step>>| has(p, |o| matches!(o, Hold | Rd | Mut(_) | WMany(_)));
                let pick = |v: Vec<Vec<Vec<Step>>>| v.into_iter().filter(guards).collect::<Vec<_>>();
                j.add(f, pick(en(&ops, &[1, 1])), &one(), &ok, &[0], 6);
                j.add(f, pick(en(&ops, &[2, 1])), &one(), &ok, &[0], th(2, 6));
                j.add(f, pick(en(&few, &[1, 1, 1])), &one(), &ok, &[0], th(2, 4));
                if thorough {
                    j.add(f, pick(en(&ops, &[1, 1, 1])), &one(), &ok, &[0], 3);
                    j.add(f, pick(en(&ops, &[2, 2])), &one(), &ok, &[0], 3);
                }
                // coexistence of readers
                let m = (0, Meet, None);
                let mut readers = vec![vec![vec![m], vec![m]]];
                for o in [Get, Rd, Has, Debug, Clone, EqSelf] {
                    for (_, o, c) in only(f, &[o]) {
                        readers.push(vec![vec![m], vec![m], vec![(0, o, c)]]);
                    }
                }
                j.add(f, readers, &one(), &ok, &[0], 6);
            }
        }
        ("C07", true) => {
            property = "C07";
            rule = "every program of the given shapes; any operation may be dropped at each of its first suspensions; suspending \
                    builders";
            let cancels = |ops: &[Step], ks: &[usize]| -> Vec<Step> {
                let mut v = ops.to_vec();
                for k in ks {
                    v.extend(ops.iter().filter(|s| !matches!(s.1, Clone | EqSelf | Debug)).map(|s| (s.0, s.1, Some(*k))));
                }
                v
            };
            for f in &s.flavours {
                let lazy = f.kinds[0] == FieldKind::Lazy;
                let ks: &[usize] = if lazy { &[1, 2, 3] } else { &[1] };
                let all = cancels(&only(f, &[Get, Rd, Mut(1), Set(1), Clear, WSet(1), WClear, WMany(1)]), ks);
                let few = cancels(&only(f, &[Get, Mut(1), Set(1), Clear]), if lazy { &[1, 2] } else { &[1] });
                let tiny = cancels(&only(f, &[Get, Mut(1), Set(1)]), &[1]);
                let cancelled = |p: &Vec<Vec<Step>>| p.iter().flatten().any(|s| s.2.is_some());
                let pick = |v: Vec<Vec<Vec<Step>>>| v.into_iter().filter(cancelled).collect::<Vec<_>>();
                let su: &[usize] = if lazy { &[0, 1, 2] } else { &[0] };
                j.add(f, pick(en(&all, &[1, 1])), &one(), &ok, su, th(3, 6));
                j.add(f, pick(en(&tiny, &[2, 1])), &one(), &ok, su, th(2, 6));
                j.add(f, pick(en(&tiny, &[1, 1, 1])), &one(), &ok, &su[..su.len().min(2)], th(1, 4));
                if thorough {
                    j.add(f, pick(en(&few, &[2, 1])), &one(), &ok, su, 3);
                    j.add(f, pick(en(&few, &[1, 1, 1])), &one(), &ok, su, 2);
                    if lazy {
                        let fails = [vec![Outcome::Panic], vec![Outcome::Ok, Outcome::Panic]];
                        j.add(f, pick(en(&few, &[1, 1])), &one(), &fails, su, 4);
                    }
                }
            }
            for f in &s.deps {
                let ops = cancels(&steps(&[(0, Get), (1, Get), (2, Get), (2, Set(1)), (1, Clear)]), &[1, 2, 3]);
                let pick = |v: Vec<Vec<Vec<Step>>>| {
                    v.into_iter().filter(|p| p.iter().flatten().any(|s| s.2.is_some())).collect::<Vec<_>>()
                };
                let i = vec![vec![None, None, None], vec![None, Some(51), None], vec![None, None, Some(52)]];
                j.add(f, pick(en(&ops, &[1, 1])), &i[..th(1, 3)], &ok, &[0, 1], th(1, 3));
            }
        }
        ("C08", _) => {
            property = "C08";
            rule = "every program of the given shapes in which objects are cloned, compared (with themselves and each other) or printed \
                    while other threads modify them";
            let snap = |p: &Vec<Vec<Step>>| has(p, |o| matches!(o, Clone | EqSelf | EqOther(_) | Debug));
            let pick = |v: Vec<Vec<Vec<Step>>>| v.into_iter().filter(snap).collect::<Vec<_>>();
            for f in s.flavours.iter().filter(|f| f.copies) {
                let ops = only(f, &[Clone, EqSelf, Debug, Get, Mut(1), Set(1), Clear, WMany(1), WSet(1), Has]);
                let few = only(f, &[Clone, EqSelf, Get, Mut(1), Set(1), Clear]);
                j.add(f, pick(en(&ops, &[2, 1])), &one(), &ok, &[0], th(2, 6));
                j.add(f, pick(en(&few, &[1, 1, 1])), &one(), &ok, &[0], th(2, 4));
                if thorough {
                    j.add(f, pick(en(&few, &[2, 2])), &one(), &ok, &[0], 3);
                    j.add(f, pick(en(&ops, &[1, 1, 1])), &one(), &ok, &[0], 3);
                }
            }
            for f in &s.pairs {
                let mut ops = vec![(0, EqOther(false)), (0, EqOther(true)), (0, Set(1)), (1, Set(1)), (0, Mut(1)), (1, WMany(1)), (0, Clone)];
                if f.kinds[0] != FieldKind::Locked {
                    ops.extend([(0, Clear), (1, WClear), (1, Clear)]);
                }
                // setters of 50 make objects equal for a while
                let i = vec![vec![Some(50), Some(50)], vec![None, Some(51)], vec![None, None]];
                let mut progs = pick(en(&steps(&ops), &[1, 1]));
                progs.extend(pick(en(&steps(&ops), &[2, 1])));
                for p in pick(en(&steps(&ops), &[1, 1, 1])) {
                    progs.push(p);
                }
                let mut same = progs.clone();
                for p in &mut same {
                    for s in p.iter_mut().flatten() {
                        match &mut s.1 {
                            Set(n) | Mut(n) => *n = 50,
                            _ => (),
                        }
                    }
                }
                j.add(f, progs, &i, &ok, &[0], th(2, 5));
                j.add(f, same, &i, &ok, &[0], th(2, 5));
            }
        }
        _ => return None,
    }
    let bounds = "threads, operations per thread and preemptions within an operation are bounded, see per_shape".into();
    Some(Spec { property, rule: rule.into(), jobs: j.jobs, bounds })
}
