//! Trials: what one simulated run consists of, how it is generated from a seed, executed and reduced.

use crate::json::{n, obj, s, J};
use crate::rng::Rng;
use crate::seams::*;
use crate::world::*;
use std::collections::BTreeMap;

#[derive(Clone, Debug, PartialEq)]
pub struct Env {
    /// Seed of the hash maps of the process.
    pub hash_seed: u64,
    pub log: LogMode,
    /// Steps of unrelated work done before in the same thread.
    pub prelude: u32,
}

#[derive(Clone, Debug, PartialEq)]
pub struct Dom {
    pub clients: usize,
    pub cfg: Cfg,
    pub env: Env,
    pub steps: Vec<Step>,
}

#[derive(Clone, Debug)]
pub enum Trial {
    /// One history.
    Dom(Dom),
    /// One history in several environments.
    Diff(Dom, Vec<Env>),
    #[cfg(feature = "parser")]
    Read(crate::psim::Case),
}

#[derive(Default)]
pub struct Report {
    pub viol: Option<Violation>,
    pub known: BTreeMap<&'static str, String>,
    pub stats: Stats,
    pub trace: u64,
    pub log: Vec<String>,
}

// --------------------------------------------------------------------------------------- execution

/// Each run has a thread of its own, so that it starts with the same thread-local state.
pub fn in_fresh_thread<T: Send + 'static>(hash_seed: u64, f: impl FnOnce() -> T + Send + 'static) -> T {
    set_hash_seed(hash_seed);
    std::thread::Builder::new()
        .stack_size(64 << 20)
        .spawn(f)
        .expect("thread")
        .join()
        .expect("simulator thread")
}

pub fn play(dom: &Dom, keep_log: bool) -> Report {
    if dom.env.prelude > 0 {
        set_log_mode(LogMode::Off);
        let mut r = Rng::new(dom.env.prelude as u64);
        let mut w = World::new(1, Cfg::default());
        for i in 0..dom.env.prelude as usize {
            let mut st = some_step(&mut r, BASE, &Bias::default());
            st.uid = i as u32;
            w.exec(&st, i);
        }
        w.finish();
        std::mem::forget(w.viol.take());
    }
    set_log_mode(dom.env.log);
    let mut w = World::new(dom.clients, dom.cfg);
    w.keep_log = keep_log;
    for (i, st) in dom.steps.iter().enumerate() {
        w.exec(st, i);
        if w.viol.is_some() {
            break;
        }
    }
    w.finish();
    if w.viol.is_some() {
        w.second_opinion();
    }
    let report = Report {
        viol: w.viol.clone(),
        known: w.known.clone(),
        stats: w.stats.clone(),
        trace: w.trace.0,
        log: std::mem::take(&mut w.log),
    };
    set_log_mode(LogMode::Off);
    if report.viol.is_some() {
        // the trees may be damaged
        std::mem::forget(w);
    }
    report
}

fn merge(into: &mut Report, r: Report) {
    into.stats.steps += r.stats.steps;
    into.stats.skipped += r.stats.skipped;
    into.stats.nested += r.stats.nested;
    into.stats.checks += r.stats.checks;
    for (k, v) in r.stats.ops {
        *into.stats.ops.entry(k).or_insert(0) += v;
    }
    for (k, v) in r.stats.faults {
        *into.stats.faults.entry(k).or_insert(0) += v;
    }
    for (k, v) in r.stats.probes {
        *into.stats.probes.entry(k).or_insert(0) += v;
    }
    into.stats.states.extend(r.stats.states);
    into.known.extend(r.known);
}

pub fn run(trial: &Trial) -> Report {
    match trial {
        Trial::Dom(d) => {
            let d = d.clone();
            in_fresh_thread(d.env.hash_seed, move || play(&d, false))
        }
        Trial::Diff(d, envs) => {
            let first = d.clone();
            let mut base = in_fresh_thread(d.env.hash_seed, move || play(&first, true));
            for env in envs {
                let mut other = d.clone();
                other.env = env.clone();
                let mut r = in_fresh_thread(env.hash_seed, move || play(&other, true));
                *base.stats.faults.entry("other_process_environment").or_insert(0) += 1;
                if let Some(v) = &mut base.viol {
                    // wrong in itself, and does it depend on the environment as well?
                    if r.viol.as_ref().map(|o| o.step) != Some(v.step) || r.log != base.log {
                        v.tags.insert("D01");
                    }
                    break;
                }
                let at = (0..base.log.len().max(r.log.len())).find(|i| base.log.get(*i) != r.log.get(*i));
                let viol = r.viol.take();
                if let Some(i) = at {
                    // a violation in one environment only is a difference as well
                    let msg = format!(
                        "the same history differs in another environment {:?}: {:?} instead of {:?}",
                        env,
                        r.log.get(i),
                        base.log.get(i)
                    );
                    base.viol = Some(Violation { tags: ["D01"].into(), step: d.steps.len(), msg });
                } else if let Some(v) = viol {
                    let msg = format!("only in environment {:?}: {}", env, v.msg);
                    let mut tags = v.tags;
                    tags.insert("D01");
                    base.viol = Some(Violation { tags, step: v.step, msg });
                }
                merge(&mut base, r);
            }
            base.log.clear();
            base
        }
        #[cfg(feature = "parser")]
        Trial::Read(c) => crate::psim::run(c),
    }
}

// -------------------------------------------------------------------------------------- generation

type Weights = &'static [(Op, u32)];

pub const BASE: Weights = &[
    (Op::NewDoc, 3),
    (Op::NewDocType, 1),
    (Op::CreateElement, 12),
    (Op::CreateText, 8),
    (Op::CreateData, 5),
    (Op::CreateRef, 2),
    (Op::CreateFragment, 1),
    (Op::CreateAttr, 4),
    (Op::Insert, 9),
    (Op::Append, 22),
    (Op::Replace, 6),
    (Op::Remove, 5),
    (Op::SetAttr, 8),
    (Op::SetAttrNs, 5),
    (Op::RemoveAttr, 2),
    (Op::RemoveAttrNs, 2),
    (Op::SetAttrNode, 6),
    (Op::RemoveAttrNode, 3),
    (Op::AttrSetValue, 4),
    (Op::AttrUnsetValue, 1),
    (Op::AttrQuery, 2),
    (Op::DataAppend, 2),
    (Op::DataInsert, 2),
    (Op::DataDelete, 2),
    (Op::DataReplace, 2),
    (Op::DataSubstring, 1),
    (Op::DataSet, 2),
    (Op::DataUnset, 1),
    (Op::Split, 2),
    (Op::Normalize, 2),
    (Op::Clone, 3),
    (Op::Drop, 4),
    (Op::Crash, 1),
    (Op::DropDoc, 1),
    (Op::Share, 3),
    (Op::Navigate, 4),
    (Op::GetById, 1),
    (Op::GetByTag, 2),
    (Op::GetByTagNs, 2),
    (Op::NsQuery, 2),
    (Op::Save, 2),
    (Op::SaveFault, 1),
    (Op::SaveNested, 1),
    (Op::Bulk, 0),
    (Op::SetDecl, 1),
    (Op::CreateDecl, 1),
    (Op::NodeValue, 2),
    (Op::BadName, 1),
    (Op::Tree, 2),
    (Op::Declare, 1),
    (Op::Kind, 1),
];

/// How many times more often an operation occurs in the runs for a property.
fn boosts(prop: &str) -> Weights {
    match prop {
        "T01" => &[(Op::Insert, 3), (Op::Replace, 3), (Op::Remove, 2), (Op::SetAttrNode, 2), (Op::Navigate, 2), (Op::Split, 2), (Op::Clone, 2)],
        "T02" => &[(Op::Insert, 4), (Op::Replace, 5), (Op::Remove, 3), (Op::Append, 2), (Op::CreateFragment, 3)],
        "T03" => &[(Op::Insert, 3), (Op::Replace, 4), (Op::Remove, 2), (Op::SetAttrNode, 4), (Op::RemoveAttrNode, 3), (Op::NewDoc, 2), (Op::NewDocType, 3), (Op::CreateRef, 2), (Op::CreateFragment, 3), (Op::CreateData, 2), (Op::BadName, 6)],
        "T04" => &[(Op::Insert, 2), (Op::Replace, 2), (Op::SetAttr, 2), (Op::SetAttrNode, 3), (Op::AttrSetValue, 4), (Op::AttrUnsetValue, 4), (Op::DataReplace, 4), (Op::DataDelete, 3), (Op::DataInsert, 3), (Op::Split, 4), (Op::Normalize, 2), (Op::Clone, 2), (Op::RemoveAttrNode, 2), (Op::BadName, 3)],
        "R01" => &[(Op::Kind, 30), (Op::CreateElement, 2), (Op::CreateData, 2), (Op::CreateText, 2), (Op::CreateRef, 2), (Op::CreateFragment, 2), (Op::CreateAttr, 2), (Op::CreateDecl, 3), (Op::NewDocType, 3), (Op::Clone, 3), (Op::Normalize, 2), (Op::Split, 2), (Op::NodeValue, 4), (Op::DropDoc, 2)],
        "A01" => &[(Op::Declare, 2), (Op::SetAttr, 5), (Op::SetAttrNs, 6), (Op::RemoveAttr, 4), (Op::RemoveAttrNs, 4), (Op::SetAttrNode, 4), (Op::RemoveAttrNode, 2), (Op::AttrSetValue, 3), (Op::AttrQuery, 8), (Op::CreateAttr, 4)],
        "A02" => &[(Op::SetAttrNode, 8), (Op::RemoveAttrNode, 6), (Op::CreateAttr, 6), (Op::SetAttr, 2), (Op::SetAttrNs, 2), (Op::RemoveAttr, 3), (Op::RemoveAttrNs, 2), (Op::Clone, 2), (Op::DropDoc, 2), (Op::Drop, 2)],
        "I01" => &[(Op::SetAttr, 4), (Op::SetAttrNs, 4), (Op::RemoveAttr, 4), (Op::RemoveAttrNs, 3), (Op::SetAttrNode, 4), (Op::RemoveAttrNode, 4), (Op::CreateAttr, 3), (Op::AttrSetValue, 5), (Op::AttrUnsetValue, 4), (Op::GetById, 10), (Op::Drop, 3), (Op::Clone, 2), (Op::Remove, 3)],
        "N01" => &[(Op::Declare, 8), (Op::SetAttrNs, 5), (Op::SetAttrNode, 4), (Op::RemoveAttrNs, 4), (Op::RemoveAttr, 4), (Op::RemoveAttrNode, 3), (Op::AttrSetValue, 4), (Op::AttrUnsetValue, 2), (Op::CreateAttr, 3), (Op::NsQuery, 8), (Op::Append, 2), (Op::Insert, 2), (Op::Clone, 3)],
        "C01" => &[(Op::CreateText, 2), (Op::CreateData, 2), (Op::DataAppend, 8), (Op::DataInsert, 12), (Op::DataDelete, 12), (Op::DataReplace, 12), (Op::DataSubstring, 16), (Op::DataSet, 6), (Op::DataUnset, 4)],
        "C02" => &[(Op::CreateText, 2), (Op::CreateData, 2), (Op::Split, 16), (Op::DataSet, 2), (Op::Insert, 2), (Op::DropDoc, 2)],
        "C03" => &[(Op::CreateText, 4), (Op::Tree, 3), (Op::Split, 6), (Op::Normalize, 12), (Op::Append, 2), (Op::Insert, 3), (Op::DataDelete, 2), (Op::DataUnset, 3), (Op::CreateRef, 3), (Op::CreateAttr, 2)],
        "K01" => &[(Op::Clone, 12), (Op::Tree, 3), (Op::DataReplace, 3), (Op::AttrSetValue, 3), (Op::SetAttr, 2), (Op::Save, 2), (Op::CreateRef, 2), (Op::Drop, 2)],
        "L01" => &[(Op::Drop, 5), (Op::Crash, 4), (Op::DropDoc, 8), (Op::Remove, 3), (Op::Replace, 2), (Op::Share, 3), (Op::Navigate, 4), (Op::Clone, 2), (Op::RemoveAttrNode, 2), (Op::Save, 3)],
        "L02" => &[(Op::Drop, 6), (Op::Crash, 5), (Op::DropDoc, 3), (Op::Remove, 4), (Op::Replace, 4), (Op::Clone, 5), (Op::Normalize, 3), (Op::Split, 3), (Op::RemoveAttrNode, 3), (Op::NewDoc, 2), (Op::NewDocType, 3), (Op::AttrSetValue, 2), (Op::SetAttrNode, 2)],
        "Q01" => &[(Op::GetByTag, 14), (Op::GetByTagNs, 14), (Op::Tree, 4), (Op::CreateElement, 2), (Op::Insert, 2), (Op::Replace, 2), (Op::CreateRef, 2), (Op::CreateData, 2)],
        "S01" => &[(Op::SaveFault, 30), (Op::SetAttr, 2), (Op::CreateData, 2)],
        "S02" => &[(Op::SaveNested, 40), (Op::SetAttr, 2), (Op::CreateData, 2)],
        "S03" => &[(Op::Save, 25), (Op::Tree, 3), (Op::SetAttr, 2), (Op::SetAttrNs, 2), (Op::CreateData, 3), (Op::CreateText, 2), (Op::DataReplace, 2), (Op::NewDocType, 2)],
        "X01" => &[(Op::NewDoc, 4), (Op::NewDocType, 4), (Op::SetAttrNode, 4), (Op::Replace, 2), (Op::Insert, 2), (Op::Share, 2), (Op::SetAttr, 2), (Op::AttrSetValue, 2), (Op::CreateFragment, 2)],
        _ => &[],
    }
}

/// Inclinations of the arguments.
#[derive(Clone, Default)]
pub struct Bias {
    pub ids: u64,
    pub ns: u64,
    pub clients: u64,
}

/// A selection that stands for one of the usual names of attributes.
fn usual_attr(any: u32, i: u32) -> u32 {
    (any % 1000 * ANAMES_OFTEN as u32 + i) * 5 + any / 1000 % 4
}

/// A selection that stands for one of the names of attributes that look like `what`.
fn rare_attr(any: u32, what: &str) -> u32 {
    let alike: Vec<u32> = (0..ANAMES.len() as u32)
        .filter(|i| ANAMES[*i as usize].1.to_lowercase().contains(what))
        .collect();
    let len = ANAMES.len() as u32;
    (any % 1000 * len + alike[any as usize / 1000 % alike.len()]) * 5 + 4
}

pub fn some_step(r: &mut Rng, weights: &[(Op, u32)], bias: &Bias) -> Step {
    let w: Vec<u32> = weights.iter().map(|x| x.1).collect();
    let op = weights[r.weighted(&w)].0;
    let mut a = [r.u32(), r.u32(), r.u32(), r.u32(), r.u32()];
    if matches!(
        op,
        Op::SetAttr | Op::SetAttrNs | Op::CreateAttr | Op::RemoveAttr | Op::RemoveAttrNs | Op::AttrQuery
    ) {
        let q = r.below(100);
        if q < bias.ids {
            a[1] = if r.chance(1, 8) { rare_attr(a[1], "id") } else { usual_attr(a[1], 8 + r.below(4) as u32) };
        } else if q < bias.ids + bias.ns {
            a[1] = if r.chance(1, 8) { rare_attr(a[1], "xmlns") } else { usual_attr(a[1], 12 + r.below(6) as u32) };
        }
    }
    let client = if bias.clients > 1 { r.below(bias.clients) as u32 } else { 0 };
    Step { uid: 0, client, op, a, lp: 0, cb: vec![] }
}

fn own_profile(prop: &str, r: &mut Rng, thorough: bool) -> Dom {
    dom_trial(prop, r, thorough)
}

pub fn dom_trial(prop: &str, r: &mut Rng, thorough: bool) -> Dom {
    let diff = prop == "D01";
    let clients = 1 + r.below(if prop == "X01" || prop == "L01" { 4 } else { 3 }) as usize;
    // most runs concentrate on the property, the others mix everything
    let focused = r.chance(3, 4);
    let boost = if focused { boosts(prop) } else { &[] };
    let mut weights: Vec<(Op, u32)> = BASE.to_vec();
    for (op, w) in weights.iter_mut() {
        let b = boost.iter().find(|x| x.0 == *op).map(|x| x.1);
        *w *= b.unwrap_or(1);
        let keep = matches!(op, Op::NewDoc | Op::CreateElement | Op::Append) || b.is_some();
        if !keep && r.chance(1, 4) {
            *w = 0;
        }
        if diff && matches!(op, Op::SaveFault | Op::SaveNested) {
            *w = 0;
        }
        if prop == "P05" && matches!(op, Op::CreateRef | Op::Tree | Op::SaveFault | Op::SaveNested | Op::NewDocType) {
            *w = 0;
        }
    }
    let unique = (prop == "S02" && r.chance(3, 4)) || (prop != "P05" && r.chance(1, 40));
    if unique {
        for (op, w) in weights.iter_mut() {
            if matches!(op, Op::Clone | Op::Split) {
                *w = 0;
            }
        }
    }
    let mut bias = Bias { ids: 15, ns: 15, clients: clients as u64 };
    match prop {
        "I01" => bias.ids = 70,
        "N01" => bias.ns = 75,
        "A01" | "A02" => bias = Bias { ids: 5, ns: 5, clients: bias.clients },
        _ => (),
    }
    let wide = r.chance(1, 12);
    if wide {
        weights.iter_mut().filter(|w| w.0 == Op::Bulk).for_each(|w| w.1 = 20);
    }
    let cfg = Cfg {
        unique,
        ns: prop == "N01" || r.chance(1, 10),
        markup: r.chance(1, 2),
        plain: false,
        wide,
        names: if r.chance(1, 3) { 1 + r.below(u64::from(DIALECTS)) as u32 } else { 0 },
    };
    let log = if diff {
        LogMode::Off
    } else {
        match r.below(8) {
            0..=3 => LogMode::Off,
            4 | 5 => LogMode::Render,
            _ => LogMode::Document,
        }
    };
    let lp = if log != LogMode::Off && !diff && prop != "P05" && r.chance(if prop == "T04" { 4 } else { 1 }, 5) { 1 + r.below(4) } else { 0 };
    let len = match r.below(10) {
        _ if wide => 12 + r.below(20),
        0..=4 => 10 + r.below(25),
        5..=8 => 30 + r.below(40),
        _ => 60 + r.below(if thorough { 200 } else { 60 }),
    } as usize;
    let mut steps: Vec<Step> = vec![];
    for c in 0..clients {
        // everybody starts with a document or a share in one
        if c == 0 || r.chance(1, 3) {
            let mut a = [r.u32(), r.u32(), r.u32(), r.u32(), r.u32()];
            a[1] = a[1] / 16 % 1000 * 16 + 2 + r.below(14) as u32;
            steps.push(Step { uid: 0, client: c as u32, op: Op::NewDoc, a, lp: 0, cb: vec![] });
        } else {
            steps.push(Step { uid: 0, client: 0, op: Op::Share, a: [0, c as u32 - 1, 0, 0, 0], lp: 0, cb: vec![] });
        }
    }
    let early: &[(Op, u32)] = &[
        (Op::CreateElement, 6),
        (Op::CreateText, 3),
        (Op::CreateData, 2),
        (Op::Append, 12),
        (Op::SetAttr, 2),
        (Op::SetAttrNs, 2),
        (Op::CreateAttr, 1),
        (Op::Bulk, if wide { 6 } else { 0 }),
    ];
    let grow = r.below(len as u64 / 2 + 1) as usize;
    while steps.len() < len {
        let mut st = some_step(r, if steps.len() < grow { early } else { &weights }, &bias);
        if st.op == Op::Bulk && r.chance(1, 2) {
            // what the property is about
            let kinds: &[u32] = match prop {
                "I01" => &[5, 5, 8],
                "N01" => &[6, 7, 9],
                "Q01" => &[0, 1, 2],
                "A01" | "A02" => &[3],
                _ => &[],
            };
            if !kinds.is_empty() {
                st.a[2] = st.a[2] / 10 % 1000 * 10 + kinds[r.below(kinds.len() as u64) as usize];
            }
        }
        if lp > 0 && r.chance(lp, 6) {
            let reach = if r.chance(1, 2) { 3 } else { 12 };
            st.lp = 1 + r.below(reach) as u32;
        }
        if st.op == Op::SaveNested {
            for _ in 0..1 + r.below(6) {
                let at = r.u32();
                let mut nested = some_step(r, &weights, &bias);
                if matches!(nested.op, Op::SaveNested) {
                    nested.op = Op::Save;
                }
                st.cb.push((at, nested));
            }
        }
        // what has just been done is done once more, to something else
        if r.chance(1, 8) {
            let back = 1 + r.below(4) as usize;
            let earlier = steps.len().checked_sub(back).map(|i| &steps[i]);
            if let Some(earlier) = earlier.filter(|e| e.op == st.op || r.chance(1, 2)) {
                let (a0, client) = (st.a[0], st.client);
                st = earlier.clone();
                if r.chance(2, 3) {
                    st.a[0] = a0;
                    st.client = client;
                }
            }
        }
        steps.push(st);
    }
    let mut uid = 0;
    for st in steps.iter_mut() {
        uid += 1;
        st.uid = uid;
        for (_, nested) in st.cb.iter_mut() {
            uid += 1;
            nested.uid = uid;
        }
    }
    Dom { clients, cfg, env: Env { hash_seed: r.next(), log, prelude: 0 }, steps }
}

pub fn generate(prop: &str, seed: u64, index: u64, thorough: bool) -> Trial {
    let mut salt = crate::rng::Fnv::new();
    salt.s(prop);
    let mut r = Rng::new(Rng::mix(seed ^ salt.0, index));
    if prop == "D01" {
        let d = own_profile(prop, &mut r, thorough);
        let envs = vec![
            Env { hash_seed: r.next(), log: LogMode::Off, prelude: 0 },
            Env { hash_seed: r.next(), log: LogMode::Render, prelude: 0 },
            Env { hash_seed: r.next(), log: LogMode::Document, prelude: 1 + r.below(40) as u32 },
        ];
        return Trial::Diff(d, envs);
    }
    #[cfg(feature = "parser")]
    if prop.starts_with('P') {
        return Trial::Read(crate::psim::generate(prop, &mut r, thorough));
    }
    Trial::Dom(own_profile(prop, &mut r, thorough))
}

// ---------------------------------------------------------------------------------------- reduction

impl Trial {
    fn dom(&self) -> Option<&Dom> {
        match self {
            Trial::Dom(d) | Trial::Diff(d, _) => Some(d),
            #[cfg(feature = "parser")]
            _ => None,
        }
    }
    fn with_dom(&self, d: Dom) -> Trial {
        match self {
            Trial::Dom(_) => Trial::Dom(d),
            Trial::Diff(_, e) => Trial::Diff(d, e.clone()),
            #[cfg(feature = "parser")]
            t => t.clone(),
        }
    }
    pub fn size(&self) -> usize {
        match self {
            #[cfg(feature = "parser")]
            Trial::Read(c) => c.size(),
            _ => self.dom().map_or(0, |d| d.steps.len()),
        }
    }
    fn without(&self, from: usize, to: usize) -> Trial {
        match self {
            #[cfg(feature = "parser")]
            Trial::Read(c) => Trial::Read(c.without(from, to)),
            _ => {
                let mut d = self.dom().unwrap().clone();
                d.steps.drain(from..to.min(d.steps.len()));
                self.with_dom(d)
            }
        }
    }
    /// Variants that are simpler in another way than having fewer parts.
    fn simpler(&self) -> Vec<Trial> {
        let mut out = vec![];
        match self {
            #[cfg(feature = "parser")]
            Trial::Read(c) => out.extend(c.simpler().into_iter().map(Trial::Read)),
            _ => {
                if let Trial::Diff(d, envs) = self {
                    if envs.len() > 1 {
                        for i in 0..envs.len() {
                            let mut e = envs.clone();
                            e.remove(i);
                            out.push(Trial::Diff(d.clone(), e));
                        }
                    }
                }
                let d = self.dom().unwrap();
                if d.env.log != LogMode::Off {
                    let mut x = d.clone();
                    x.env.log = if d.env.log == LogMode::Document { LogMode::Render } else { LogMode::Off };
                    out.push(self.with_dom(x));
                }
                if d.clients > 1 {
                    let mut x = d.clone();
                    x.clients = 1;
                    out.push(self.with_dom(x));
                }
                for i in 0..d.steps.len() {
                    if d.steps[i].lp > 0 {
                        let mut x = d.clone();
                        x.steps[i].lp = 0;
                        out.push(self.with_dom(x));
                    }
                    for k in 0..d.steps[i].cb.len() {
                        let mut x = d.clone();
                        x.steps[i].cb.remove(k);
                        out.push(self.with_dom(x));
                    }
                    for k in 0..5 {
                        if d.steps[i].a[k] > 0 {
                            for v in [0, d.steps[i].a[k] % 48] {
                                if v != d.steps[i].a[k] {
                                    let mut x = d.clone();
                                    x.steps[i].a[k] = v;
                                    out.push(self.with_dom(x));
                                }
                            }
                        }
                    }
                }
            }
        }
        out
    }
}

/// Delta debugging: `fails` is asked about candidates until nothing smaller fails or time is up.
pub fn minimise(trial: &Trial, fails: &mut dyn FnMut(&Trial) -> bool, deadline: std::time::Instant) -> Trial {
    let mut best = trial.clone();
    let over = || std::time::Instant::now() >= deadline;
    loop {
        let before = best.size();
        let mut chunk = (best.size() / 2).max(1);
        loop {
            let mut at = 0;
            while at < best.size() && !over() {
                let c = best.without(at, at + chunk);
                if c.size() < best.size() && fails(&c) {
                    best = c;
                } else {
                    at += chunk;
                }
            }
            if chunk == 1 || over() {
                break;
            }
            chunk = (chunk / 2).max(1);
        }
        if best.size() == before || over() {
            break;
        }
    }
    let mut progress = true;
    let mut rounds = 0;
    while progress && !over() && rounds < 40 {
        progress = false;
        rounds += 1;
        let candidates = best.simpler();
        for c in candidates {
            if over() {
                break;
            }
            // several simplifications of one round may be combined by the next rounds
            if fails(&c) {
                best = c;
                progress = true;
                break;
            }
        }
    }
    best
}

// -------------------------------------------------------------------------------------------- JSON

fn step_json(st: &Step) -> J {
    let mut v = vec![n(st.uid as u64), s(op_name(st.op)), n(st.client as u64), J::Arr(st.a.iter().map(|x| n(*x as u64)).collect())];
    if st.lp > 0 || !st.cb.is_empty() {
        v.push(n(st.lp as u64));
        v.push(J::Arr(st.cb.iter().map(|(at, x)| J::Arr(vec![n(*at as u64), step_json(x)])).collect()));
    }
    J::Arr(v)
}

fn step_of(j: &J) -> Option<Step> {
    let v = j.arr();
    let mut st = Step {
        uid: v.first()?.int() as u32,
        client: v.get(2)?.int() as u32,
        op: op_of(v.get(1)?.str())?,
        a: [0; 5],
        lp: 0,
        cb: vec![],
    };
    for (i, x) in v.get(3)?.arr().iter().take(5).enumerate() {
        st.a[i] = x.int() as u32;
    }
    if let Some(lp) = v.get(4) {
        st.lp = lp.int() as u32;
    }
    if let Some(cb) = v.get(5) {
        for x in cb.arr() {
            st.cb.push((x.arr().first()?.int() as u32, step_of(x.arr().get(1)?)?));
        }
    }
    Some(st)
}

fn env_json(e: &Env) -> J {
    obj(vec![("hash_seed", s(e.hash_seed.to_string())), ("log", s(format!("{:?}", e.log))), ("prelude", n(e.prelude as u64))])
}

fn env_of(j: &J) -> Env {
    Env {
        hash_seed: j.get("hash_seed").u64(),
        log: match j.get("log").str() {
            "Render" => LogMode::Render,
            "Document" => LogMode::Document,
            _ => LogMode::Off,
        },
        prelude: j.get("prelude").int() as u32,
    }
}

pub fn dom_json(d: &Dom) -> J {
    obj(vec![
        ("clients", n(d.clients as u64)),
        ("unique", J::Bool(d.cfg.unique)),
        ("ns", J::Bool(d.cfg.ns)),
        ("markup", J::Bool(d.cfg.markup)),
        ("plain", J::Bool(d.cfg.plain)),
        ("wide", J::Bool(d.cfg.wide)),
        ("names", n(u64::from(d.cfg.names))),
        ("env", env_json(&d.env)),
        ("schedule", J::Arr(d.steps.iter().map(step_json).collect())),
    ])
}

pub fn dom_of(j: &J) -> Option<Dom> {
    Some(Dom {
        clients: j.get("clients").int() as usize,
        cfg: Cfg {
            unique: j.get("unique").bool(),
            ns: j.get("ns").bool(),
            markup: j.get("markup").bool(),
            plain: j.get("plain").bool(),
            wide: j.get("wide").bool(),
            names: j.get("names").int() as u32,
        },
        env: env_of(j.get("env")),
        steps: j.get("schedule").arr().iter().map(step_of).collect::<Option<Vec<_>>>()?,
    })
}

pub fn trial_json(t: &Trial) -> J {
    match t {
        Trial::Dom(d) => obj(vec![("kind", s("history")), ("dom", dom_json(d))]),
        Trial::Diff(d, e) => obj(vec![
            ("kind", s("environments")),
            ("dom", dom_json(d)),
            ("environments", J::Arr(e.iter().map(env_json).collect())),
        ]),
        #[cfg(feature = "parser")]
        Trial::Read(c) => obj(vec![("kind", s("read")), ("case", c.json())]),
    }
}

pub fn trial_of(j: &J) -> Option<Trial> {
    match j.get("kind").str() {
        "history" => Some(Trial::Dom(dom_of(j.get("dom"))?)),
        "environments" => {
            Some(Trial::Diff(dom_of(j.get("dom"))?, j.get("environments").arr().iter().map(env_of).collect()))
        }
        #[cfg(feature = "parser")]
        "read" => Some(Trial::Read(crate::psim::Case::of(j.get("case"))?)),
        _ => None,
    }
}
