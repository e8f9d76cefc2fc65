//! Interval tree vs. a sorted multimap: explicit-state search over the *real* tree's states.
use interval_tree::{IntervalTree, range};
use mc_common::*;
use std::collections::{BTreeMap, HashSet};

type Tree = IntervalTree<u8, u8>;
type Model = BTreeMap<(u8, u8), Vec<u8>>;

/// Fewest nodes a height-balanced (AVL) tree of height `h` can have.
fn avl_min(h: usize) -> usize {
    let (mut a, mut b) = (0usize, 1usize);
    for _ in 0..h {
        (a, b) = (b, a + b + 1);
    }
    a
}

fn compare(t: &Tree, m: &Model, keys: &[(u8, u8)], top: u8, c: &mut Case) {
    if c.failed() {
        return;
    }
    c.validated(1);
    c.ensure(t.is_empty() == m.is_empty(), "is_empty");
    let h = t.height();
    if avl_min(h) > m.len() || (h == 0) != m.is_empty() {
        c.fail("height", format!("height {h} is not that of a balanced tree of {} keys", m.len()));
    }
    for &(a, b) in keys {
        let want = m.get(&(a, b));
        let got = t.get(range(a, b));
        if want.map(|v| &v[..]) != got {
            c.fail("get", format!("get({a}..={b}): expected {want:?}, got {got:?}"));
        }
        if t.contains(range(a, b)) != want.is_some() {
            c.fail("contains", format!("contains({a}..={b})"));
        }
        let dflt = [77u8];
        if t.get_or(range(a, b), &dflt) != want.map(|v| &v[..]).unwrap_or(&dflt) {
            c.fail("get_or", format!("get_or({a}..={b})"));
        }
    }
    let want_min = m.iter().next().map(|(k, v)| (range(k.0, k.1), &v[..]));
    let want_max = m.iter().next_back().map(|(k, v)| (range(k.0, k.1), &v[..]));
    if t.min().map(|(k, v)| (*k, v)) != want_min {
        c.fail("min", format!("min: expected {want_min:?}, got {:?}", t.min()));
    }
    if t.max().map(|(k, v)| (*k, v)) != want_max {
        c.fail("max", format!("max: expected {want_max:?}, got {:?}", t.max()));
    }
    let all: Vec<((u8, u8), u8)> = m.iter().flat_map(|(k, v)| v.iter().map(move |x| (*k, *x))).collect();
    let got: Vec<((u8, u8), u8)> = t.iter().map(|(k, v)| ((k.start, k.end), *v)).collect();
    if got != all {
        c.fail("iter", format!("iter: expected {all:?}, got {got:?}"));
    }
    for a in 0..=top {
        for b in a..=top {
            let want: Vec<_> = all.iter().filter(|((s, e), _)| *s <= b && *e >= a).copied().collect();
            let got: Vec<_> = t.range(range(a, b)).map(|(k, v)| ((k.start, k.end), *v)).collect();
            if want != got {
                c.fail("range", format!("range({a}..={b}): expected {want:?}, got {got:?}"));
            }
            c.outcome(&want.len());
        }
    }
    let moved: Vec<_> = t.clone().into_iter().map(|(k, v)| ((k.start, k.end), v)).collect();
    if moved != all {
        c.fail("into_iter", format!("into_iter: expected {all:?}, got {moved:?}"));
    }
}

#[derive(Clone)]
struct State {
    tree: Tree,
    model: Model,
    path: Vec<(bool, usize)>,
}

fn show(path: &[(bool, usize)], keys: &[(u8, u8)]) -> String {
    path.iter()
        .map(|(ins, k)| format!("{}({}..={})", if *ins { "insert" } else { "remove" }, keys[*k].0, keys[*k].1))
        .collect::<Vec<_>>()
        .join(" ")
}

/// Breadth-first search of every tree reachable with inserts and removes over `keys`; a state is the
/// real tree's full structure (its Debug form).  At most `dups` surplus values are held at a time.
fn search(r: &mut Runner, label: &str, keys: &[(u8, u8)], dups: usize, top: u8) -> Vec<State> {
    let mut seen = HashSet::new();
    let mut layer = vec![State { tree: Tree::new(), model: Model::new(), path: vec![] }];
    seen.insert(hash_of(&format!("{:?}", layer[0].tree)));
    let mut all = layer.clone();
    let mut depth = 0;
    while !layer.is_empty() {
        depth += 1;
        let nops = keys.len() * 2;
        let name = format!("{label} depth {depth}");
        let produced = r.suite_map(
            &name,
            "every insert/remove of every key applied to every tree of the previous layer; full query comparison after each",
            (layer.len() * nops) as u64,
            |i, c| {
                let st = &layer[i as usize / nops];
                let op = i as usize % nops;
                let (ins, k) = (op % 2 == 0, op / 2);
                c.input(|| format!("{} | then {}", show(&st.path, keys), show(&[(ins, k)], keys)));
                let key = keys[k];
                let mut s = st.clone();
                if ins {
                    let surplus: usize = s.model.values().map(|v| v.len() - 1).sum();
                    let present = s.model.contains_key(&key);
                    if present && surplus >= dups {
                        return None;
                    }
                    let val = (k as u8) * 8 + s.model.get(&key).map_or(0, |v| v.len()) as u8;
                    s.tree.insert(range(key.0, key.1), val);
                    s.model.entry(key).or_default().push(val);
                } else {
                    s.tree.remove(range(key.0, key.1));
                    s.model.remove(&key);
                }
                s.path.push((ins, k));
                c.trans(1);
                compare(&s.tree, &s.model, keys, top, c);
                let h = hash_of(&format!("{:?}", s.tree));
                c.state(&h);
                if seen.contains(&h) { None } else { Some((h, s)) }
            },
        );
        let mut next = vec![];
        for (h, s) in produced {
            if seen.insert(h) {
                next.push(s);
            }
        }
        all.extend(next.iter().cloned());
        layer = next;
    }
    r.note(&format!("{label}: reachable trees"), seen.len() as u64);
    all
}

fn check(r: &mut Runner) {
    r.assume("keys are ranges over a small ordered set; the tree is generic over Ord keys, so only order matters");
    let mut ranges = vec![];
    for a in 0..4u8 {
        for b in a..4 {
            ranges.push((a + 1, b + 1));
        }
    }
    // all ten ranges over four points, tree structure unbounded, surplus values <= 1
    let all = search(r, "ranges", &ranges, 1, 5);
    // merge: every pair of (bounded) reachable trees
    let small: Vec<&State> = all.iter().filter(|s| s.model.values().map(|v| v.len()).sum::<usize>() <= r.pick(3, 4)).collect();
    // one reachable tree per key set (the first one found)
    let mut by_keys: BTreeMap<Vec<(u8, u8)>, &State> = BTreeMap::new();
    for s in &all {
        by_keys.entry(s.model.keys().copied().collect()).or_insert(s);
    }
    let big: Vec<&State> = by_keys.values().copied().collect();
    let n = (small.len() * small.len()) as u64;
    let merge = |a: &State, b: &State, c: &mut Case| {
        c.input(|| format!("[{}] merge [{}]", show(&a.path, &ranges), show(&b.path, &ranges)));
        let mut t = a.tree.clone();
        let mut m = a.model.clone();
        t.merge(b.tree.clone());
        for (k, v) in &b.model {
            m.entry(*k).or_default().extend(v.iter().copied());
        }
        c.trans(1);
        c.state(&format!("{t:?}"));
        compare(&t, &m, &ranges, 5, c);
    };
    let n2 = (big.len() * big.len()) as u64;
    r.suite("merge small", "every ordered pair of reachable trees holding few values", n, |i, c| {
        merge(small[i as usize / small.len()], small[i as usize % small.len()], c)
    });
    r.suite("merge large", "every ordered pair of key sets over the ten ranges, one reachable tree each", n2, |i, c| {
        merge(big[i as usize / big.len()], big[i as usize % big.len()], c)
    });
    // larger trees: 12 (15) distinct keys in one overlapping family, no surplus values
    let many: Vec<(u8, u8)> = (0..r.pick(11u8, 14)).map(|i| (i, i + (i % 3))).collect();
    search(r, "larger", &many, 0, r.pick(12, 15));
}

fn main() {
    run(&[("P01", check)]);
}
