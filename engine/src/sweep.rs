//! Word-level equivalence sweeping: nodes that agree on random inputs are merged bottom-up, each
//! merge being justified by an unsatisfiable solver query over a local cone.
use crate::expr::*;
use crate::z3::{cut_at, rebuild, Solver};
use std::collections::HashMap;

pub fn sweep(s: &mut Solver, _pc: &[E], pairs: &[(E, E)]) -> (Vec<(E, E)>, u64, u64) {
    let roots: Vec<E> = pairs.iter().flat_map(|p| [p.0, p.1]).collect();
    let list = cone(&roots);
    let seeds = [0xabcdef1234567u64, 0x9999888877771, 0x1357913579135];
    let mut ms: Vec<Model> = seeds.iter().map(|s| Model::new(*s)).collect();
    let mut rep: HashMap<E, E> = HashMap::new();
    let mut class: HashMap<(u16, [u128; 3]), Vec<E>> = HashMap::new();
    let (mut merged, mut queries, mut failed) = (0u64, 0u64, 0u64);
    for x in list {
        let w = width(x);
        let r = rebuild(x, &mut |y| *rep.get(&y).unwrap_or(&y));
        if as_const(r).is_some() || w > 128 || matches!(node(r), Node::Var(_)) {
            rep.insert(x, r);
            continue;
        }
        let sig = [eval(r, &mut ms[0]), eval(r, &mut ms[1]), eval(r, &mut ms[2])];
        let cands = class.get(&(w, sig)).cloned().unwrap_or_default();
        let mut to = r;
        if !cands.contains(&r) {
            if w >= 8 && failed < 400 {
                for c in cands.iter().take(3) {
                    let mut ok = false;
                    if std::env::var("SWEEP_DEBUG").is_ok() {
                        eprintln!("SWEEP\n  {}\n  {}", show(*c, 4), show(r, 4));
                    }
                    let ne = not(eq(*c, r));
                    if as_const(ne) == Some(0) {
                        ok = true;
                    } else {
                        for d in [4usize, 7, 11] {
                            let cut = cut_at(&[ne], d);
                            queries += 1;
                            match s.raw(&[ne], &cut, &[], 4000) {
                                Some(None) => {
                                    ok = true;
                                    break;
                                }
                                _ => {}
                            }
                            if cut.is_empty() {
                                break;
                            }
                        }
                    }
                    if ok {
                        to = *c;
                        merged += 1;
                        break;
                    } else {
                        failed += 1;
                    }
                }
            }
            if to == r {
                class.entry((w, sig)).or_default().push(r);
            }
        }
        rep.insert(x, to);
    }
    let left: Vec<(E, E)> = pairs
        .iter()
        .map(|(a, b)| (*rep.get(a).unwrap_or(a), *rep.get(b).unwrap_or(b)))
        .filter(|(a, b)| a != b)
        .collect();
    (left, merged, queries)
}
