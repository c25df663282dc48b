//! Enumeration of programs
use crate::{Op, Step};

fn fresh(op: Op, t: usize, i: usize) -> Op {
    let n = 10 * (t as u64 + 1) + i as u64;
    match op {
        Op::Mut(_) => Op::Mut(n),
        Op::Set(_) => Op::Set(n),
        Op::WSet(_) => Op::WSet(n),
        Op::WMany(_) => Op::WMany(n),
        o => o,
    }
}

/// All programs with threads of the given lengths over the alphabet, up to symmetry of equally long threads
pub fn enumerate(ops: &[Op], shape: &[usize]) -> Vec<Vec<Vec<Step>>> {
    let steps: Vec<(usize, Op, Option<usize>)> = ops.iter().map(|o| (0, *o, None)).collect();
    enumerate_steps(&steps, shape)
}

pub fn enumerate_steps(ops: &[Step], shape: &[usize]) -> Vec<Vec<Vec<Step>>> {
    fn seqs(n: usize, k: usize) -> Vec<Vec<usize>> {
        let mut out = vec![vec![]];
        for _ in 0..k {
            let mut next = vec![];
            for s in &out {
                for i in 0..n {
                    let mut s = s.clone();
                    s.push(i);
                    next.push(s);
                }
            }
            out = next;
        }
        out
    }
    let per: Vec<Vec<Vec<usize>>> = shape.iter().map(|k| seqs(ops.len(), *k)).collect();
    let mut out = vec![];
    let mut idx = vec![0usize; shape.len()];
    loop {
        // symmetry
        let mut ok = true;
        for i in 1..shape.len() {
            if shape[i] == shape[i - 1] && idx[i] < idx[i - 1] {
                ok = false;
            }
        }
        if ok {
            out.push(
                (0..shape.len())
                    .map(|t| {
                        per[t][idx[t]]
                            .iter()
                            .enumerate()
                            .map(|(i, o)| (ops[*o].0, fresh(ops[*o].1, t, i), ops[*o].2))
                            .collect()
                    })
                    .collect(),
            );
        }
        let mut k = 0;
        loop {
            if k == shape.len() {
                return out;
            }
            idx[k] += 1;
            if idx[k] < per[k].len() {
                break;
            }
            idx[k] = 0;
            k += 1;
        }
    }
}
