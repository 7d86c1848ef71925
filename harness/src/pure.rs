//! Properties decided on the data structures directly (no cluster): quorums, membership algebra, the log-id
//! index, configuration and the orders.
use std::collections::BTreeMap;
use std::collections::BTreeSet;

use openraft::error::ChangeMembershipError;
use openraft::verif_hooks as vh;
use openraft::BasicNode;
use openraft::ChangeMembers;
use openraft::Config;
use openraft::SnapshotPolicy;

use crate::gen::mix;
use crate::gen::Source;
use crate::runner::Ctx;
use crate::types::*;

type Ids = BTreeSet<u64>;

fn draw_set(s: &mut Source, univ: u64, allow_empty: bool) -> Ids {
    let mut r = Ids::new();
    let n = if allow_empty { s.draw(univ + 1) } else { 1 + s.draw(univ) };
    while (r.len() as u64) < n {
        let x = s.draw(univ);
        // construction instead of rejection: the next free id
        let mut y = x;
        while r.contains(&y) {
            y = (y + 1) % univ;
        }
        r.insert(y);
    }
    r
}

fn maj(set: &Ids, ids: &Ids) -> bool {
    2 * set.intersection(ids).count() > set.len()
}
fn quorum(sets: &[Ids], ids: &Ids) -> bool {
    sets.iter().all(|s| maj(s, ids))
}
fn union(sets: &[Ids]) -> Ids {
    sets.iter().flatten().copied().collect()
}
fn subsets(u: &Ids) -> Vec<Ids> {
    let v: Vec<u64> = u.iter().copied().collect();
    (0..1u64 << v.len()).map(|m| v.iter().enumerate().filter(|(i, _)| m >> i & 1 == 1).map(|(_, x)| *x).collect()).collect()
}
/// Every quorum of `a` intersects every quorum of `b`.
fn overlap(a: &[Ids], b: &[Ids]) -> bool {
    let u = {
        let mut x = union(a);
        x.extend(union(b));
        x
    };
    // Q is a quorum of a, and the rest is a quorum of b  <=>  two disjoint quorums
    subsets(&u).iter().all(|q| !(quorum(a, q) && quorum(b, &u.difference(q).copied().collect())))
}

pub fn d01(s: &mut Source, c: &mut Ctx) {
    let univ = 2 + s.draw(6);
    let joint = |s: &mut Source| -> Vec<Ids> {
        let n = 1 + s.weighted(&[5, 5, 1]);
        (0..n).map(|_| draw_set(s, univ, false)).collect()
    };
    match s.weighted(&[4, 2, 3]) {
        0 => {
            // the quorum tracker against a naive recount
            let mut sets = joint(s);
            let learners = |s: &mut Source, sets: &[Ids]| -> Vec<u64> { (0..univ).filter(|x| !union(sets).contains(x) && s.bool()).collect() };
            let mut ls = learners(s, &sets);
            let mut t = vh::Tracker::new(&sets, &ls);
            let mut model: BTreeMap<u64, u64> = union(&sets).into_iter().chain(ls.iter().copied()).map(|x| (x, 0)).collect();
            let granted = |sets: &[Ids], m: &BTreeMap<u64, u64>| -> u64 {
                let mut best = 0;
                for v in m.values() {
                    let q: Ids = m.iter().filter(|(_, x)| *x >= v).map(|(k, _)| *k).collect();
                    if *v > best && quorum(sets, &q) {
                        best = *v;
                    }
                }
                best
            };
            c.t(|| format!("voters {sets:?} learners {ls:?}"));
            c.fp(mix(univ, sets.len() as u64));
            let n = 1 + s.draw(if c.thorough { 60 } else { 30 });
            let mut advances = 0u64;
            let mut last = 0;
            for _ in 0..n {
                s.begin();
                let id = s.draw(univ);
                let op = s.weighted(&[6, 4, 3, 1]);
                let v = s.draw(12);
                s.end();
                let known = model.contains_key(&id);
                let what;
                let r = match op {
                    0 => {
                        let cur = model.get(&id).copied().unwrap_or(0);
                        let nv = cur + v % 5;
                        what = format!("update({id},{nv})");
                        if known {
                            model.insert(id, nv);
                        }
                        t.update(id, nv)
                    }
                    1 => {
                        what = format!("increase_to({id},{v})");
                        if let Some(x) = model.get_mut(&id) {
                            *x = (*x).max(v);
                        }
                        t.increase_to(id, v)
                    }
                    2 => {
                        what = format!("update_with({id},+{v})");
                        if let Some(x) = model.get_mut(&id) {
                            *x += v;
                        }
                        t.update_with(id, v)
                    }
                    _ => {
                        sets = joint(s);
                        ls = learners(s, &sets);
                        what = format!("config := {sets:?} learners {ls:?}");
                        let ids: Vec<u64> = union(&sets).into_iter().chain(ls.iter().copied()).collect();
                        model = ids.iter().map(|x| (*x, model.get(x).copied().unwrap_or(0))).collect();
                        t = t.upgrade(&sets, &ls);
                        c.class("upgrade");
                        Ok(t.granted())
                    }
                };
                let want = granted(&sets, &model);
                c.t(|| format!("{what} -> {r:?}; granted {want}; {model:?}"));
                c.fp(mix(mix(id, op as u64), v));
                let rv = match r {
                    Ok(x) => {
                        if !known && op != 3 {
                            c.fail("unknown-id-accepted", format!("{what} on an id that is neither voter nor learner returns Ok"));
                        }
                        x
                    }
                    Err(x) => {
                        if known {
                            c.fail("known-id-refused", format!("{what} returns Err though {id} is tracked"));
                        }
                        x
                    }
                };
                if rv != want || t.granted() != want {
                    c.fail("granted-wrong", format!("{what}: granted {} (returned {rv}), a quorum of {sets:?} acknowledged {want}: {model:?}", t.granted()));
                }
                if want > last {
                    advances += 1;
                }
                last = want;
                let items: BTreeMap<u64, u64> = t.items().into_iter().collect();
                if items != model || t.items().len() != model.len() {
                    c.fail("progress-lost", format!("{what}: tracked {items:?}, expected {model:?}"));
                }
                for id in 0..univ {
                    let want = if union(&sets).contains(&id) {
                        Some(true)
                    } else if ls.contains(&id) {
                        Some(false)
                    } else {
                        None
                    };
                    if t.is_voter(id) != want {
                        c.fail("voter-role", format!("{what}: is_voter({id}) = {:?}, expected {want:?}", t.is_voter(id)));
                    }
                    if t.get(id) != model.get(&id).copied() {
                        c.fail("progress-lost", format!("{what}: value of {id} is {:?}", t.get(id)));
                    }
                }
                if !c.viol.is_empty() {
                    return;
                }
            }
            c.class("tracker");
            c.nontrivial = advances >= 2;
            c.sample = format!("tracker: voters {sets:?} learners {ls:?}, {n} updates, granted advanced {advances} times to {last}");
        }
        1 => {
            // quorum tests against counting
            let sets = joint(s);
            let ids = draw_set(s, univ, true);
            let v: Vec<u64> = {
                let mut v: Vec<u64> = ids.iter().copied().collect();
                if s.bool() {
                    v.reverse();
                }
                v
            };
            let want = quorum(&sets, &ids);
            let (a, b, each) = vh::is_quorum(&sets, &v);
            c.t(|| format!("sets {sets:?} ids {v:?}: {a} {b} {each:?}, expected {want}"));
            if a != want || b != want {
                c.fail("is-quorum", format!("is_quorum({v:?}) of {sets:?} is {a}/{b}, expected {want}"));
            }
            for (x, s) in each.iter().zip(&sets) {
                if *x != maj(s, &ids) {
                    c.fail("is-quorum", format!("is_quorum({v:?}) of {s:?} is {x}"));
                }
            }
            let nodes: BTreeMap<u64, BasicNode> = (0..univ).map(|x| (x, node_of(x))).collect();
            let m = Membership::new(sets.clone(), nodes);
            if vh::effective_is_quorum(&m, &v) != want {
                c.fail("is-quorum", format!("is_quorum({v:?}) of effective membership {} is not {want}", mem_str(&m)));
            }
            let u: Vec<u64> = union(&sets).into_iter().collect();
            let (x, y) = vh::joint_ids(&sets);
            if x != u || y != u {
                c.fail("joint-ids", format!("ids of {sets:?} are {x:?}/{y:?}"));
            }
            c.class("is_quorum");
            c.nontrivial = sets.len() > 1 && !ids.is_empty();
            for x in &sets {
                for i in x {
                    c.fp(*i);
                }
                c.fp(99);
            }
            for i in &ids {
                c.fp(*i);
            }
            c.sample = format!("is_quorum({v:?}) of {sets:?} = {want}");
        }
        _ => {
            // the path from a config to a goal
            let sets = if s.draw(3) == 0 { vec![draw_set(s, univ, false)] } else { vec![draw_set(s, univ, false), draw_set(s, univ, false)] };
            let goal = draw_set(s, univ, false);
            let mut cur = sets.clone();
            let mut steps = 0;
            while cur != vec![goal.clone()] {
                let next = vh::find_coherent(&cur, &goal);
                c.t(|| format!("{cur:?} -> {next:?} (goal {goal:?})"));
                if next.is_empty() || !overlap(&cur, &next) {
                    c.fail("non-overlapping-step", format!("{cur:?} changes to {next:?}: they have disjoint quorums"));
                    return;
                }
                if next.last() != Some(&goal) {
                    c.fail("goal-lost", format!("{cur:?} changes to {next:?}, goal {goal:?}"));
                    return;
                }
                if !vh::is_coherent(&cur, &next) {
                    c.fail("step-not-coherent", format!("{cur:?} and {next:?} are not coherent"));
                    return;
                }
                cur = next;
                steps += 1;
                if steps > 2 {
                    c.fail("no-end", format!("{sets:?} does not reach {goal:?} in two steps"));
                    return;
                }
            }
            if vh::find_coherent(&cur, &goal) != cur {
                c.fail("unstable-goal", format!("{goal:?} is not its own next step"));
            }
            // a direct step is taken exactly when it is safe to: the goal is a member set already
            let first = vh::find_coherent(&sets, &goal);
            if (first.len() == 1) != sets.contains(&goal) {
                c.fail("joint-skipped", format!("{sets:?} to {goal:?} goes through {first:?}"));
            }
            // coherent configs overlap
            let other = joint(s);
            if vh::is_coherent(&sets, &other) && !overlap(&sets, &other) {
                c.fail("coherent-not-overlapping", format!("{sets:?} and {other:?} are called coherent"));
            }
            c.class("coherent");
            c.nontrivial = steps >= 1;
            for x in sets.iter().chain([&goal]) {
                for i in x {
                    c.fp(*i);
                }
                c.fp(77);
            }
            c.sample = format!("{sets:?} -> {goal:?} in {steps} steps via {first:?}");
        }
    }
}

fn draw_nodes(s: &mut Source, univ: u64) -> BTreeMap<u64, BasicNode> {
    draw_set(s, univ, true).into_iter().map(|x| (x, BasicNode { addr: format!("a{}", s.draw(3)) })).collect()
}

pub fn d02(s: &mut Source, c: &mut Ctx) {
    let univ = 2 + s.draw(5);
    // a valid config
    let sets: Vec<Ids> = if s.bool() { vec![draw_set(s, univ, false)] } else { vec![draw_set(s, univ, false), draw_set(s, univ, false)] };
    let mut nodes = draw_nodes(s, univ);
    for v in union(&sets) {
        nodes.entry(v).or_insert_with(|| node_of(v));
    }
    let mut m = Membership::new(sets.clone(), nodes.clone());
    let (mut sets, mut nodes) = (sets, nodes);
    c.t(|| format!("start {} nodes {nodes:?}", mem_str(&m)));
    let check = |c: &mut Ctx, m: &Membership, sets: &Vec<Ids>, nodes: &BTreeMap<u64, BasicNode>, what: &str| {
        let got: BTreeMap<u64, BasicNode> = m.nodes().map(|(k, v)| (*k, v.clone())).collect();
        if m.get_joint_config() != sets {
            c.fail("wrong-voters", format!("{what}: voters {:?}, documented {sets:?}", m.get_joint_config()));
        }
        if got != *nodes {
            c.fail("wrong-nodes", format!("{what}: nodes {got:?}, documented {nodes:?}"));
        }
        let u = union(sets);
        if m.voter_ids().collect::<Vec<_>>() != u.iter().copied().collect::<Vec<_>>() {
            c.fail("voter-ids", format!("{what}: voter_ids {:?}", m.voter_ids().collect::<Vec<_>>()));
        }
        let l: Vec<u64> = nodes.keys().copied().filter(|x| !u.contains(x)).collect();
        if m.learner_ids().collect::<Vec<_>>() != l {
            c.fail("learner-ids", format!("{what}: learner_ids {:?}, expected {l:?}", m.learner_ids().collect::<Vec<_>>()));
        }
        for i in 0..8 {
            if m.get_node(&i) != nodes.get(&i) {
                c.fail("get-node", format!("{what}: get_node({i}) = {:?}", m.get_node(&i)));
            }
        }
        let (a, b) = vh::effective_tracker_ids(m);
        if a != u.iter().copied().collect::<Vec<_>>() || b != l {
            c.fail("effective-ids", format!("{what}: effective voters {a:?} learners {b:?}"));
        }
        if let Err(e) = vh::ensure_valid(m) {
            c.fail("invalid-result", format!("{what}: {} is not valid: {e}", mem_str(m)));
        }
    };
    check(c, &m, &sets, &nodes, "new");
    let steps = 1 + s.draw(6);
    let mut changed = 0;
    let mut trail = vec![mem_str(&m)];
    for _ in 0..steps {
        s.begin();
        let kind = s.draw(8);
        let retain = s.bool();
        let last: Ids = sets.last().unwrap().clone();
        // what the documentation says
        let mut n2 = nodes.clone();
        let mut goal: Option<Ids> = None;
        let ch: ChangeMembers<TC> = match kind {
            0 => {
                let x = draw_set(s, univ, true);
                goal = Some(last.union(&x).copied().collect());
                ChangeMembers::AddVoterIds(x)
            }
            1 => {
                let x = draw_nodes(s, univ);
                for (k, v) in &x {
                    n2.entry(*k).or_insert(v.clone());
                }
                goal = Some(last.iter().copied().chain(x.keys().copied()).collect());
                ChangeMembers::AddVoters(x)
            }
            2 => {
                let x = draw_set(s, univ, true);
                goal = Some(last.difference(&x).copied().collect());
                ChangeMembers::RemoveVoters(x)
            }
            3 => {
                let x = draw_set(s, univ, true);
                goal = Some(x.clone());
                ChangeMembers::ReplaceAllVoters(x)
            }
            4 => {
                let x = draw_nodes(s, univ);
                for (k, v) in &x {
                    n2.entry(*k).or_insert(v.clone());
                }
                ChangeMembers::AddNodes(x)
            }
            5 => {
                let x = draw_nodes(s, univ);
                n2.extend(x.clone());
                ChangeMembers::SetNodes(x)
            }
            6 => {
                let x = draw_set(s, univ, true);
                n2.retain(|k, _| !x.contains(k));
                ChangeMembers::RemoveNodes(x)
            }
            _ => {
                let x = draw_nodes(s, univ);
                n2 = x.clone();
                ChangeMembers::ReplaceAllNodes(x)
            }
        };
        s.end();
        let s2: Vec<Ids> = match &goal {
            None => sets.clone(),
            Some(g) => {
                if sets.contains(g) {
                    vec![g.clone()]
                } else {
                    vec![last.clone(), g.clone()]
                }
            }
        };
        if goal.is_some() && !retain {
            let gone: Vec<u64> = union(&sets).difference(&union(&s2)).copied().collect();
            for x in gone {
                n2.remove(&x);
            }
        }
        let empty = s2.iter().any(|x| x.is_empty());
        let missing: Ids = union(&s2).into_iter().filter(|x| !n2.contains_key(x)).collect();
        let what = format!("{} {ch:?} retain={retain}", mem_str(&m));
        let r = vh::change(&m, ch, retain);
        c.fp(mix(kind, crate::types::membership_hash(&m)));
        match r {
            Ok(x) => {
                c.t(|| format!("{what} => {}", mem_str(&x)));
                if empty || !missing.is_empty() {
                    c.fail("invalid-accepted", format!("{what} is accepted as {}", mem_str(&x)));
                    return;
                }
                // The same change again completes it (the joint config turns into the goal).
                check(c, &x, &s2, &n2, &what);
                m = x;
                sets = s2;
                nodes = n2;
                changed += 1;
                c.class("accepted");
                trail.push(mem_str(&m));
            }
            Err(e) => {
                c.t(|| format!("{what} => {e}"));
                c.class("refused");
                let ok = match &e {
                    ChangeMembershipError::EmptyMembership(_) => empty,
                    ChangeMembershipError::LearnerNotFound(l) => missing.contains(&l.node_id),
                    ChangeMembershipError::InProgress(_) => false,
                };
                if !ok {
                    c.fail("wrong-refusal", format!("{what} is refused: {e}"));
                }
            }
        }
        if !c.viol.is_empty() {
            return;
        }
    }
    // what is accepted as valid
    let raw_sets: Vec<Ids> = (0..s.draw(3)).map(|_| draw_set(s, univ, true)).collect();
    let raw_nodes = draw_nodes(s, univ);
    let raw = vh::membership_unchecked::<TC>(raw_sets.clone(), raw_nodes.clone());
    let valid = raw_sets.iter().all(|x| !x.is_empty()) && union(&raw_sets).iter().all(|x| raw_nodes.contains_key(x));
    if vh::ensure_valid(&raw).is_ok() != valid {
        c.fail("validity", format!("{} with nodes {:?}: valid={}", mem_str(&raw), raw_nodes.keys(), !valid));
    }
    // building a config fills in the nodes of voters
    let built = Membership::new(raw_sets.clone(), raw_nodes.clone());
    let want: BTreeMap<u64, BasicNode> = union(&raw_sets).into_iter().map(|x| (x, BasicNode::default())).chain(raw_nodes.clone()).collect();
    if built.nodes().map(|(k, v)| (*k, v.clone())).collect::<BTreeMap<_, _>>() != want {
        c.fail("new-membership-nodes", format!("new({raw_sets:?}, {raw_nodes:?}) has nodes {:?}", built.nodes().collect::<Vec<_>>()));
    }
    let from: Membership = Membership::from(raw_nodes.clone());
    if from.voter_ids().collect::<Ids>() != raw_nodes.keys().copied().collect::<Ids>() || from.nodes().count() != raw_nodes.len() {
        c.fail("membership-from-map", format!("from({raw_nodes:?}) = {}", mem_str(&from)));
    }
    c.nontrivial = changed >= 1;
    c.sample = trail.join(" -> ");
}

/// A log in memory that serves reads.
#[derive(Clone, Default)]
pub struct MemLog {
    pub entries: BTreeMap<u64, LogId>,
    pub reads: u64,
}
impl openraft::storage::RaftLogReader<TC> for MemLog {
    async fn try_get_log_entries<RB: std::ops::RangeBounds<u64> + Clone + std::fmt::Debug + openraft::OptionalSend>(
        &mut self,
        range: RB,
    ) -> Result<Vec<Entry>, StorageError> {
        self.reads += 1;
        Ok(self.entries.range(range).map(|(_, l)| Entry { log_id: *l, payload: Payload::Blank }).collect())
    }
    async fn read_vote(&mut self) -> Result<Option<Vote>, StorageError> {
        Ok(None)
    }
}

pub fn d03(s: &mut Source, c: &mut Ctx) {
    let mut idx: vh::LogIds<TC> = Default::default();
    // model: the purged id and the full log after it
    let mut purged: Option<LogId> = None;
    let mut log: Vec<LogId> = vec![];
    let (mut term, mut node) = (1u64, 1u64);
    let n = 1 + s.draw(if c.thorough { 60 } else { 25 });
    let mut kinds = [0u64; 6];
    for _ in 0..n {
        s.begin();
        let k = s.weighted(&[5, 5, 3, 3, 3, 2]);
        let first = nx(&purged);
        let next = first + log.len() as u64;
        let what;
        match k {
            0 | 1 | 2 => {
                // entries of the current or later leaders
                let cnt = if k == 0 { 1 } else { 1 + s.draw(5) };
                let mut new = vec![];
                for i in 0..cnt {
                    let change = s.draw(if k == 1 { 1000 } else { 3 }) == 1 || (k == 1 && i == 0 && s.draw(3) == 2);
                    if change && !(k == 1 && i > 0) {
                        if s.bool() {
                            term += 1 + s.draw(2);
                            node = 1 + s.draw(3);
                        } else if !cfg!(feature = "stl") {
                            node += 1;
                        } else {
                            term += 1;
                        }
                    }
                    new.push(lid(term, node, next + i));
                }
                what = format!("append {}", new.iter().map(|x| x.to_string()).collect::<Vec<_>>().join(" "));
                match k {
                    0 => idx.append(new[0]),
                    1 => idx.extend_from_same_leader(&new),
                    _ => idx.extend(&new),
                }
                log.extend(new);
            }
            3 => {
                // truncate anything but the purged id
                let at = first + s.draw(log.len() as u64 + 2);
                what = format!("truncate {at}");
                if at == 0 && !log.is_empty() && false {
                    continue;
                }
                idx.truncate(at);
                log.truncate((at - first) as usize);
                // the next leader's id is greater than what remains
                if let Some(l) = log.last().copied().or(purged) {
                    let _ = l;
                }
            }
            4 => {
                if log.is_empty() {
                    s.end();
                    continue;
                }
                let i = s.draw(log.len() as u64) as usize;
                let upto = log[i];
                what = format!("purge {upto}");
                idx.purge(&upto);
                purged = Some(upto);
                log.drain(..=i);
            }
            _ => {
                // beyond the last log: a snapshot is installed
                term += s.draw(2);
                let upto = lid(term, node, next + s.draw(4));
                what = format!("purge to snapshot {upto}");
                idx.purge(&upto);
                purged = Some(upto);
                log.clear();
            }
        }
        s.end();
        kinds[k] += 1;
        c.t(|| what.clone());
        c.fp(mix(k as u64, next));
        judge(c, &idx, &purged, &log, &what);
        if !c.viol.is_empty() {
            return;
        }
    }
    // rebuilt from storage it is the same
    let mut sto = MemLog { entries: log.iter().map(|l| (l.index, *l)).collect(), reads: 0 };
    if let Some(p) = purged {
        // storage may still hold a few logs below the purge point
        if s.bool() {
            sto.entries.insert(p.index, p);
        }
    }
    let last = log.last().copied().or(purged);
    match futures::executor::block_on(vh::LogIds::<TC>::load(purged, last, &mut sto)) {
        Ok(b) => {
            judge(c, &b, &purged, &log, "load from storage");
            if b.key_log_ids().len() > distinct(&purged, &log) + 1 {
                c.fail("index-not-compact", format!("{} ids indexed for {} leaders", b.key_log_ids().len(), distinct(&purged, &log)));
            }
        }
        Err(e) => c.fail("load-failed", format!("load fails on a legal log: {e}")),
    }
    c.nontrivial = kinds[3] > 0 && kinds[4] + kinds[5] > 0 && kinds[0] + kinds[1] + kinds[2] > 0;
    c.sample = format!("{n} operations (append {}/{}/{}, truncate {}, purge {}, snapshot {}); purged {} log {}", kinds[0], kinds[1], kinds[2], kinds[3], kinds[4], kinds[5], ls(&purged), log.iter().map(|x| x.to_string()).collect::<Vec<_>>().join(" "));
}

fn distinct(purged: &Option<LogId>, log: &[LogId]) -> usize {
    purged.iter().chain(log).map(|l| l.leader_id).collect::<Vec<_>>().windows(2).filter(|w| w[0] != w[1]).count() + 1
}

fn judge(c: &mut Ctx, idx: &vh::LogIds<TC>, purged: &Option<LogId>, log: &[LogId], what: &str) {
    let all: Vec<LogId> = purged.iter().copied().chain(log.iter().copied()).collect();
    let first = all.first().copied();
    let last = all.last().copied();
    if idx.first() != first {
        c.fail("first-wrong", format!("after {what}: first {} expected {}", ls(&idx.first()), ls(&first)));
    }
    if idx.last() != last {
        c.fail("last-wrong", format!("after {what}: last {} expected {}", ls(&idx.last()), ls(&last)));
    }
    let hi = nx(&last) + 2;
    for i in 0..hi {
        let want = all.iter().find(|l| l.index == i).copied();
        if idx.get(i) != want {
            c.fail("get-wrong", format!("after {what}: get({i}) = {} expected {}; index {:?}", ls(&idx.get(i)), ls(&want), idx.key_log_ids().iter().map(|x| x.to_string()).collect::<Vec<_>>()));
            return;
        }
    }
    let bl = idx.by_last_leader();
    if let Some(l) = last {
        // the first and the last known log of the last leader
        let f = all.iter().find(|x| x.leader_id == l.leader_id && all.iter().all(|y| y.index < x.index || y.index > l.index || y.leader_id == l.leader_id)).copied();
        let ok = bl.last() == Some(&l) && bl.first() == f.as_ref();
        if !ok {
            c.fail("last-leader-wrong", format!("after {what}: logs of the last leader {:?}, expected {}..{l}", bl.iter().map(|x| x.to_string()).collect::<Vec<_>>(), ls(&f)));
        }
    } else if !bl.is_empty() {
        c.fail("last-leader-wrong", format!("after {what}: logs of the last leader of an empty log {bl:?}"));
    }
}

pub fn d04(s: &mut Source, c: &mut Ctx) {
    match s.weighted(&[4, 4, 2]) {
        0 => {
            // numbers
            let small = |s: &mut Source| match s.draw(6) {
                0 => 0,
                1 => 1,
                2 => s.draw(8),
                3 => s.draw(400),
                4 => u64::MAX - s.draw(2),
                _ => s.draw(100_000),
            };
            let hb = small(s);
            // around the other bounds
            let near = |s: &mut Source, x: u64| match s.draw(5) {
                0 => x,
                1 => x.saturating_add(1),
                2 => x.saturating_sub(1),
                3 => x.saturating_add(s.draw(500)),
                _ => small(s),
            };
            let min = near(s, hb);
            let max = near(s, min);
            let payload = if s.draw(3) == 0 { 0 } else { small(s) };
            let mk = || Config { heartbeat_interval: hb, election_timeout_min: min, election_timeout_max: max, max_payload_entries: payload, ..Default::default() };
            let ok = hb < min && min < max && payload > 0;
            let r = mk().validate();
            c.t(|| format!("hb={hb} min={min} max={max} payload={payload}: {:?}", r.as_ref().map(|_| ())));
            if r.is_ok() != ok {
                c.fail("validate", format!("heartbeat {hb}, election {min}..{max}, payload {payload}: validate says {:?}, documented {ok}", r.as_ref().map(|_| ())));
            }
            let args: Vec<String> = vec![
                "foo".into(),
                format!("--heartbeat-interval={hb}"),
                format!("--election-timeout-min={min}"),
                format!("--election-timeout-max={max}"),
                format!("--max-payload-entries={payload}"),
            ];
            let a: Vec<&str> = args.iter().map(|x| x.as_str()).collect();
            match Config::build(&a) {
                Ok(x) => {
                    if !ok {
                        c.fail("build-accepts-invalid", format!("{args:?} is accepted"));
                    }
                    if (x.heartbeat_interval, x.election_timeout_min, x.election_timeout_max, x.max_payload_entries) != (hb, min, max, payload) {
                        c.fail("number-changed", format!("{args:?} parses to {x:?}"));
                    }
                }
                Err(e) => {
                    if ok {
                        c.fail("build-refuses-valid", format!("{args:?}: {e}"));
                    }
                }
            }
            match r {
                Ok(v) => {
                    if (v.heartbeat_interval, v.election_timeout_min, v.election_timeout_max, v.max_payload_entries) != (hb, min, max, payload) {
                        c.fail("validate-changes", "validate changes the config");
                    }
                    c.class("valid");
                    crate::exec::init(s.draw(1 << 32), false, 0);
                    for _ in 0..20 {
                        let t = v.new_rand_election_timeout::<crate::exec::SimRuntime>();
                        if t < min || t > max {
                            c.fail("timeout-out-of-range", format!("election timeout {t} not in {min}..{max}"));
                        }
                    }
                }
                Err(_) => c.class("invalid"),
            }
            c.fp(mix(mix(hb, min), mix(max, payload)));
            c.nontrivial = min.abs_diff(hb) <= 2 || max.abs_diff(min) <= 2 || ok;
            c.sample = format!("heartbeat {hb}, election {min}..{max}, payload {payload}: {}", if ok { "valid" } else { "invalid" });
        }
        1 => {
            // textual settings
            let (arg, want): (String, Option<Want>) = match s.draw(7) {
                0 => {
                    let n = s.draw(5000);
                    let (u, m) = *s.pick(&[
                        ("", 1u64),
                        ("B", 1),
                        ("KB", 1000),
                        ("KiB", 1024),
                        ("MB", 1_000_000),
                        ("MiB", 1 << 20),
                        ("GB", 1_000_000_000),
                        ("GiB", 1 << 30),
                        ("TB", 1_000_000_000_000),
                        ("TiB", 1 << 40),
                    ]);
                    let sp = if s.bool() { " " } else { "" };
                    (format!("--snapshot-max-chunk-size={n}{sp}{u}"), Some(Want::Chunk(n * m)))
                }
                1 => {
                    // halves of even units
                    let n = s.draw(1000);
                    let (u, m) = *s.pick(&[("KB", 1000u64), ("KiB", 1024), ("MB", 1_000_000), ("MiB", 1 << 20), ("GiB", 1 << 30)]);
                    (format!("--snapshot-max-chunk-size={n}.5{u}"), Some(Want::Chunk(n * m + m / 2)))
                }
                2 => {
                    let n = match s.draw(3) {
                        0 => s.draw(10_000),
                        1 => u64::MAX,
                        _ => 0,
                    };
                    (format!("--snapshot-policy=since_last:{n}"), Some(Want::Policy(SnapshotPolicy::LogsSinceLast(n))))
                }
                3 => ("--snapshot-policy=never".into(), Some(Want::Policy(SnapshotPolicy::Never))),
                4 => {
                    let x = *s.pick(&[
                        "--snapshot-policy=",
                        "--snapshot-policy=Never",
                        "--snapshot-policy=never:1",
                        "--snapshot-policy=since_last",
                        "--snapshot-policy=since_last:",
                        "--snapshot-policy=since_last:x",
                        "--snapshot-policy=since_last:-1",
                        "--snapshot-policy=since_last:1:2",
                        "--snapshot-policy=since_last: 5",
                        "--snapshot-policy=since_last:5 ",
                        "--snapshot-policy=since_last:1.5",
                        "--snapshot-policy=since:5",
                        "--snapshot-policy=:5",
                        "--snapshot-policy=5",
                        "--snapshot-policy=since_last:18446744073709551616",
                        "--snapshot-max-chunk-size=",
                        "--snapshot-max-chunk-size=x",
                        "--snapshot-max-chunk-size=-1",
                        "--snapshot-max-chunk-size=1 apple",
                        "--snapshot-max-chunk-size=1MiBs",
                        "--snapshot-max-chunk-size=MiB",
                        "--heartbeat-interval=-1",
                        "--heartbeat-interval=abc",
                        "--heartbeat-interval=1.5",
                        "--heartbeat-interval=18446744073709551616",
                        "--enable-tick=maybe",
                        "--enable-elect=2",
                        "--enable-heartbeat=yes",
                        "--no-such-option=1",
                    ]);
                    (x.into(), None)
                }
                5 => {
                    let f = *s.pick(&["tick", "heartbeat", "elect"]);
                    match s.draw(3) {
                        0 => (format!("--enable-{f}"), Some(Want::Flag(f, true))),
                        1 => (format!("--enable-{f}=true"), Some(Want::Flag(f, true))),
                        _ => (format!("--enable-{f}=false"), Some(Want::Flag(f, false))),
                    }
                }
                _ => {
                    let k = *s.pick(&NUMS);
                    let n = s.draw(1 << 20);
                    (format!("--{}={n}", k), Some(Want::Num(k, n)))
                }
            };
            let args = ["foo", "--heartbeat-interval=1", "--election-timeout-min=5000000", "--election-timeout-max=9000000", arg.as_str()];
            // (the argument under test may repeat one of the bounds)
            let args: Vec<&str> = args.iter().copied().filter(|a| *a == arg || !a.starts_with("--") || a.split('=').next() != arg.split('=').next()).collect();
            let r = Config::build(&args);
            c.t(|| format!("{args:?}: {r:?}"));
            match (r, want) {
                (Ok(x), Some(w)) => {
                    if let Some(e) = w.differs(&x) {
                        c.fail("setting-changed", format!("{arg} parses to {e}"));
                    }
                    c.class("parsed");
                    if !matches!(w, Want::Chunk(_)) && x.snapshot_max_chunk_size != 3 << 20 || !matches!(w, Want::Policy(_)) && x.snapshot_policy != SnapshotPolicy::LogsSinceLast(5000) {
                        c.fail("other-setting-changed", format!("{arg} changes another setting: {x:?}"));
                    }
                }
                (Ok(x), None) => c.fail("garbage-accepted", format!("{arg} is accepted: {x:?}")),
                (Err(e), Some(w)) => {
                    let bound = matches!(w, Want::Num("max-payload-entries", 0)) || matches!(w, Want::Num("heartbeat-interval" | "election-timeout-min" | "election-timeout-max", _));
                    if !bound {
                        c.fail("valid-refused", format!("{arg}: {e}"));
                    }
                }
                (Err(_), None) => c.class("rejected"),
            }
            c.fp(crate::gen::hash_str(&arg));
            c.nontrivial = true;
            c.sample = arg;
        }
        _ => {
            // defaults as documented, durations
            #[allow(deprecated)]
            {
                let d = Config::default();
                let b = Config::build(&["foo"]);
                let inst = s.draw(100_000);
                let send = if s.bool() { 0 } else { s.draw(100_000) };
                let x = Config { install_snapshot_timeout: inst, send_snapshot_timeout: send, ..Default::default() };
                if x.install_snapshot_timeout() != std::time::Duration::from_millis(inst) {
                    c.fail("install-timeout", format!("{:?} for {inst} ms", x.install_snapshot_timeout()));
                }
                let w = if send == 0 { inst } else { send };
                if x.send_snapshot_timeout() != std::time::Duration::from_millis(w) {
                    c.fail("send-timeout", format!("{:?} for send {send} install {inst}", x.send_snapshot_timeout()));
                }
                let doc = |d: &Config| {
                    d.cluster_name == "foo"
                        && d.election_timeout_min == 150
                        && d.election_timeout_max == 300
                        && d.heartbeat_interval == 50
                        && d.install_snapshot_timeout == 200
                        && d.send_snapshot_timeout == 0
                        && d.max_payload_entries == 300
                        && d.replication_lag_threshold == 5000
                        && d.snapshot_policy == SnapshotPolicy::LogsSinceLast(5000)
                        && d.snapshot_max_chunk_size == 3 * 1024 * 1024
                        && d.max_in_snapshot_log_to_keep == 1000
                        && d.purge_batch_size == 1
                        && d.enable_tick
                        && d.enable_heartbeat
                        && d.enable_elect
                };
                if !doc(&d) || !b.map(|x| doc(&x)).unwrap_or(false) {
                    c.fail("defaults", format!("defaults differ from the documentation: {d:?}"));
                }
                c.fp(mix(inst, send));
                c.sample = format!("install_snapshot_timeout {inst}, send_snapshot_timeout {send}");
            }
        }
    }
}

const NUMS: [&str; 9] = [
    "election-timeout-min",
    "election-timeout-max",
    "heartbeat-interval",
    "install-snapshot-timeout",
    "send-snapshot-timeout",
    "max-payload-entries",
    "replication-lag-threshold",
    "max-in-snapshot-log-to-keep",
    "purge-batch-size",
];

enum Want {
    Chunk(u64),
    Policy(SnapshotPolicy),
    Flag(&'static str, bool),
    Num(&'static str, u64),
}
impl Want {
    #[allow(deprecated)]
    fn differs(&self, x: &Config) -> Option<String> {
        match self {
            Want::Chunk(n) => (x.snapshot_max_chunk_size != *n).then(|| format!("{} (denotes {n})", x.snapshot_max_chunk_size)),
            Want::Policy(p) => (x.snapshot_policy != *p).then(|| format!("{:?}", x.snapshot_policy)),
            Want::Flag(f, b) => {
                let g = [("tick", x.enable_tick), ("heartbeat", x.enable_heartbeat), ("elect", x.enable_elect)];
                g.iter().any(|(k, v)| *v != (if k == f { *b } else { true })).then(|| format!("{g:?}"))
            }
            Want::Num(k, n) => {
                let got = match *k {
                    "election-timeout-min" => x.election_timeout_min,
                    "election-timeout-max" => x.election_timeout_max,
                    "heartbeat-interval" => x.heartbeat_interval,
                    "install-snapshot-timeout" => x.install_snapshot_timeout,
                    "send-snapshot-timeout" => x.send_snapshot_timeout,
                    "max-payload-entries" => x.max_payload_entries,
                    "replication-lag-threshold" => x.replication_lag_threshold,
                    "max-in-snapshot-log-to-keep" => x.max_in_snapshot_log_to_keep,
                    _ => x.purge_batch_size,
                };
                (got != *n).then(|| format!("{got}"))
            }
        }
    }
}

use std::cmp::Ordering;

pub fn d05(s: &mut Source, c: &mut Ctx) {
    let t = 1 + s.draw(4);
    let n = 1 + s.draw(4);
    let big = s.draw(10) == 9;
    let scale = if big { u64::MAX / 8 } else { 1 };
    // votes: three of them
    let mut vs: Vec<Vote> = vec![];
    let mut committed_of: BTreeMap<u64, u64> = BTreeMap::new();
    for _ in 0..3 {
        s.begin();
        let term = s.draw(t) * scale;
        let mut node = s.draw(n) * scale;
        let committed = s.bool();
        if cfg!(feature = "stl") && committed {
            // in this mode a term has at most one committed vote
            node = *committed_of.entry(term).or_insert(node);
        }
        let v = if committed { Vote::new_committed(term, node) } else { Vote::new(term, node) };
        s.end();
        vs.push(v);
    }
    for v in &vs {
        c.fp(mix(mix(vote_t(v), v.leader_id().voted_for().unwrap()), v.is_committed() as u64));
    }
    c.t(|| format!("{vs:?}"));
    let model = |a: &Vote, b: &Vote| -> Option<Ordering> {
        let (ta, tb) = (vote_t(a), vote_t(b));
        if ta != tb {
            return Some(ta.cmp(&tb));
        }
        let (na, nb) = (a.leader_id().voted_for().unwrap(), b.leader_id().voted_for().unwrap());
        if cfg!(feature = "stl") {
            if na == nb || a.is_committed() != b.is_committed() {
                Some(a.is_committed().cmp(&b.is_committed()))
            } else {
                None
            }
        } else if na != nb {
            Some(na.cmp(&nb))
        } else {
            Some(a.is_committed().cmp(&b.is_committed()))
        }
    };
    for a in &vs {
        if a.partial_cmp(a) != Some(Ordering::Equal) || a != a {
            c.fail("not-reflexive", format!("{a}"));
        }
        for b in &vs {
            let o = a.partial_cmp(b);
            if o != model(a, b) {
                c.fail("vote-order", format!("{a} <=> {b}: {o:?}, documented {:?}", model(a, b)));
            }
            if o.map(|x| x.reverse()) != b.partial_cmp(a) {
                c.fail("not-antisymmetric", format!("{a} <=> {b}: {o:?}, reversed {:?}", b.partial_cmp(a)));
            }
            if (o == Some(Ordering::Equal)) != (a == b) {
                c.fail("equality-disagrees", format!("{a} <=> {b}: {o:?}, == {}", a == b));
            }
            if (a < b) != (o == Some(Ordering::Less)) || (a > b) != (o == Some(Ordering::Greater)) || (a <= b) != matches!(o, Some(Ordering::Less | Ordering::Equal)) || (a >= b) != matches!(o, Some(Ordering::Greater | Ordering::Equal)) {
                c.fail("operators-disagree", format!("{a} and {b}"));
            }
            if a.is_committed() && b.is_committed() && o.is_none() {
                c.fail("committed-incomparable", format!("{a} and {b}"));
            }
            for x in &vs {
                if a <= b && b <= x && !(a <= x) {
                    c.fail("not-transitive", format!("{a} <= {b} <= {x}"));
                }
            }
        }
    }
    // leader ids of log ids, log ids
    let mut lids = vec![];
    for _ in 0..3 {
        s.begin();
        lids.push(lid(s.draw(t) * scale, s.draw(n) * scale, s.draw(4) * scale));
        s.end();
    }
    let key = |l: &LogId| -> (u64, u64, u64) {
        let node = if cfg!(feature = "stl") { 0 } else { crate::world::LidExt::leader_id_node(l) };
        (crate::world::LidExt::term(l), node, l.index)
    };
    let mut opts: Vec<Option<LogId>> = lids.iter().copied().map(Some).collect();
    opts.push(None);
    for a in &lids {
        for b in &lids {
            if a.cmp(b) != key(a).cmp(&key(b)) || a.partial_cmp(b) != Some(a.cmp(b)) {
                c.fail("log-id-order", format!("{a} <=> {b}: {:?}", a.cmp(b)));
            }
            if (a == b) != (key(a) == key(b)) {
                c.fail("log-id-equality", format!("{a} == {b}: {}", a == b));
            }
            let ka = (key(a).0, key(a).1);
            let kb = (key(b).0, key(b).1);
            if a.leader_id.cmp_(&b.leader_id) != ka.cmp(&kb) {
                c.fail("leader-id-order", format!("{} <=> {}", a.leader_id, b.leader_id));
            }
        }
    }
    for a in &opts {
        for b in &opts {
            let want = a.as_ref().map(key).cmp(&b.as_ref().map(key));
            if a.cmp(b) != want {
                c.fail("log-id-order", format!("{} <=> {}", ls(a), ls(b)));
            }
        }
        use openraft::LogIdOptionExt;
        if a.index() != idx(a) || a.next_index() != nx(a) {
            c.fail("log-id-index", format!("{}: index {:?} next {}", ls(a), a.index(), a.next_index()));
        }
    }
    let same = |a: &Vote, b: &Vote| vote_t(a) == vote_t(b);
    c.nontrivial = same(&vs[0], &vs[1]) || same(&vs[1], &vs[2]) || same(&vs[0], &vs[2]);
    c.sample = format!("{} {} {} / {} {} {}", vs[0], vs[1], vs[2], lids[0], lids[1], lids[2]);
}

fn vote_t(v: &Vote) -> u64 {
    v.leader_id().get_term()
}

trait CmpExt {
    fn cmp_(&self, o: &Self) -> Ordering;
}
impl<T: Ord> CmpExt for T {
    fn cmp_(&self, o: &Self) -> Ordering {
        self.cmp(o)
    }
}
