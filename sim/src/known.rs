//! The known findings, each as one fixed history without any random choice.
use crate::ctx::*;
use crate::make::*;
use crate::mem::{Place, Region};
use crate::history::World;
use crate::subject::*;
use crate::model::Model;
use crate::pull::*;

fn ints(w: &mut World, n: usize, ro: bool) -> Region {
    let r = region(4, n, Place::High, 0, ro);
    let vals: Vec<u64> = (1..=n as u64).collect();
    for (i, v) in vals.iter().enumerate() { put(4, &r, i, *v) }
    w.data.push((r, 4, vals));
    r
}

/// C12: a chunk is still in use when the next one is pulled.
fn held_chunk() -> R {
    let mut w = World::new();
    let n = 4 * width_of(4);
    let r = ints(&mut w, n, true);
    let mut it = make_ref(4, &r, &default_lanes(4, 0), false);
    if let Some((before, after)) = attempt(|| it.unroll_held(2)).must("unroll()")? {
        note!("the chunk when it was delivered: {:x?}", before);
        note!("the same chunk after the next pull: {:x?}", after);
        ensure!(before == after, "held-chunk-reused", "unroll(2): the chunk {:x?} became {:x?} when the next one was pulled", before, after);
    }
    Ok(())
}

/// C11: the second load of a pair fails, then fewer pairs are skipped than the first load brought.
fn short_skip() -> R {
    let mut w = World::new();
    let wd = width_of(4);
    let r = ints(&mut w, 4 * wd, false);
    let def = default_lanes(4, 0);
    let mut z = pairs(4, Kind::Sim, &r, &def, 0, 1);
    arm(F::Load, 1);
    let x = attempt(|| z.next());
    disarm();
    ensure!(!x.is_ok(), "lost-fault", "a pull delivered although its load failed");
    attempt(|| z.advance(1)).must("advance()")?;
    let m = Model::new(vec![(1..=2 * wd as u64).map(|i| 2 * i - 1).collect(), (1..=2 * wd as u64).map(|i| 2 * i).collect()], vec![def.s().to_vec(), def.s().to_vec()], wd);
    let mut first = vec![];
    while let Some(v) = attempt(|| z.next()).must("next()")? { first.extend_from_slice(v[0].s()) }
    if let Some((v, n)) = attempt(|| z.end()).must("end()")? { first.extend_from_slice(&v[0].s()[n..]) }
    note!("after skipping one pair: first components {:?}", first);
    ensure!(first[..] == m.items[0][1..], "short-skip-after-failure", "a failed pull, then advance(1), then {:?} instead of {:?} as first components", first, &m.items[0][1..]);
    Ok(())
}

pub fn scenario(name: &str) -> Option<fn() -> R> {
    Some(match name {
        "known-C12-held-chunk" => held_chunk,
        "known-C11-short-skip" => short_skip,
        _ => return None,
    })
}
