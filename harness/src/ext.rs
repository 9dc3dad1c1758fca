//! Extensions of rounds (`dev::RoundExtension`) that override what the configuration tells them to.
//! One type for each set of overridden methods, so that the methods left alone are the trait's own.
use std::{collections::BTreeMap, fmt::Debug, marker::PhantomData};

use manul::{
    dev::{ExtendableEntryPoint, RoundExtension},
    protocol::*,
};
use rand_core::CryptoRngCore;
use serde::Deserialize;

use crate::{
    by_kinds,
    model::{Body, Cfg, DmSlot, Log, MEntry, MRound, Pay, Slot, MP},
    sp::Id,
};
use std::{collections::BTreeSet, sync::Arc};

/// One override: party, round, what, destination, content (or next round).
#[derive(Debug, Clone, Deserialize)]
pub struct Ovr {
    pub n: String,
    pub r: String,
    pub k: String,
    pub d: String,
    pub c: String,
}

/// (round, what, destination) -> content
type Data = BTreeMap<(String, String, String), String>;

fn find(data: &Data, rid: &str, k: &str, d: &str) -> Option<String> {
    let at = |d: &str| data.get(&(rid.to_string(), k.to_string(), d.to_string())).cloned();
    at(d).or_else(|| at("*"))
}

fn coded(b: Body, c: String) -> Body {
    Body { c, ..b }
}

macro_rules! ext {
    ($name:ident { $($m:ident),* }) => {
        #[derive(Debug, Clone)]
        pub struct $name<E, N, D> { #[allow(dead_code)] data: Data, _p: PhantomData<fn() -> (E, N, D)> }
        impl<E: Slot, N: Slot, D: DmSlot> RoundExtension<Id> for $name<E, N, D> {
            type Round = MRound<0, E, N, D>;
            $( ext!(@ $m); )*
        }
    };
    (@ eb) => {
        fn make_echo_broadcast(&self, rng: &mut impl CryptoRngCore, round: &Self::Round) -> Result<E, LocalError> {
            match find(&self.data, &round.rid, "eb", "*") {
                None => round.make_echo_broadcast(rng),
                Some(c) => {
                    round.ctx.log.draw(|| "an extension's echo broadcast".into(), rng);
                    Ok(E::make(coded(round.body("eb", ""), c)))
                }
            }
        }
    };
    (@ nb) => {
        fn make_normal_broadcast(&self, rng: &mut impl CryptoRngCore, round: &Self::Round) -> Result<N, LocalError> {
            match find(&self.data, &round.rid, "nb", "*") {
                None => round.make_normal_broadcast(rng),
                Some(c) => {
                    round.ctx.log.draw(|| "an extension's normal broadcast".into(), rng);
                    Ok(N::make(coded(round.body("nb", ""), c)))
                }
            }
        }
    };
    (@ dm) => {
        fn make_direct_message(
            &self,
            rng: &mut impl CryptoRngCore,
            round: &Self::Round,
            destination: &Id,
        ) -> Result<(D, D::Art), LocalError> {
            match find(&self.data, &round.rid, "dm", &destination.0) {
                None => round.make_direct_message(rng, destination),
                Some(c) => {
                    round.ctx.log.draw(|| "an extension's direct message".into(), rng);
                    Ok((D::make(coded(round.body("dm", &destination.0), c)), D::art(&round.rid, destination)))
                }
            }
        }
    };
    (@ fin) => {
        fn finalize(
            &self,
            rng: &mut impl CryptoRngCore,
            round: Self::Round,
            payloads: BTreeMap<Id, Pay>,
            artifacts: BTreeMap<Id, D::Art>,
        ) -> Result<FinalizeOutcome<Id, MP<0>>, LocalError> {
            let mut round = round;
            if let Some(c) = find(&self.data, &round.rid, "fin", "*") {
                round.ctx.divert = Some(c);
            }
            round.finalize(rng, payloads, artifacts)
        }
    };
}
ext!(ExtNone {});
ext!(ExtEb { eb });
ext!(ExtNb { nb });
ext!(ExtDm { dm });
ext!(ExtFin { fin });
ext!(ExtAll { eb, nb, dm, fin });

fn add<E: Slot, N: Slot, D: DmSlot>(
    ep: &mut ExtendableEntryPoint<Id, MEntry<0>>,
    data: Data,
    kinds: &BTreeSet<&str>,
) {
    let _p = PhantomData;
    match kinds.iter().copied().collect::<Vec<_>>()[..] {
        [] => ep.extend(ExtNone::<E, N, D> { data, _p }),
        ["eb"] => ep.extend(ExtEb::<E, N, D> { data, _p }),
        ["nb"] => ep.extend(ExtNb::<E, N, D> { data, _p }),
        ["dm"] => ep.extend(ExtDm::<E, N, D> { data, _p }),
        ["fin"] => ep.extend(ExtFin::<E, N, D> { data, _p }),
        _ => ep.extend(ExtAll::<E, N, D> { data, _p }),
    }
}

/// The entry point of a party with its extensions; each round type gets one.
pub fn entry(cfg: &Arc<Cfg>, log: &Log, me: &str, ovrs: &[Ovr]) -> ExtendableEntryPoint<Id, MEntry<0>> {
    extend(ExtendableEntryPoint::new(base(cfg, log)), cfg, me, ovrs)
}

/// The entry point without extensions.
pub fn base(cfg: &Arc<Cfg>, log: &Log) -> MEntry<0> {
    MEntry { cfg: cfg.clone(), log: log.clone(), trail: vec![], input: "in".into() }
}

pub fn extend(
    ep: ExtendableEntryPoint<Id, MEntry<0>>,
    cfg: &Arc<Cfg>,
    me: &str,
    ovrs: &[Ovr],
) -> ExtendableEntryPoint<Id, MEntry<0>> {
    let mut ep = ep;
    let mut by_type: BTreeMap<(bool, bool, bool), Vec<&Ovr>> = BTreeMap::new();
    for o in ovrs.iter().filter(|o| o.n == me) {
        let q = &cfg.stages[0].rounds[&o.r];
        by_type.entry((q.eb, q.nb, q.dm)).or_default().push(o);
    }
    struct Q {
        eb: bool,
        nb: bool,
        dm: bool,
    }
    for ((eb, nb, dm), os) in by_type {
        let q = Q { eb, nb, dm };
        let kinds: BTreeSet<&str> = os.iter().map(|o| o.k.as_str()).filter(|k| *k != "none").collect();
        let data: Data = os
            .iter()
            .filter(|o| o.k != "none")
            .map(|o| ((o.r.clone(), o.k.clone(), o.d.clone()), o.c.clone()))
            .collect();
        macro_rules! reg {
            ($e:ty, $n:ty, $d:ty) => {
                add::<$e, $n, $d>(&mut ep, data, &kinds)
            };
        }
        by_kinds!(q, S, reg);
    }
    ep
}

