//! Generation of clients under registry orders of the simulator's choosing.
use crate::backend::{self, other};
use crate::log::{self, Ev, Rec};
use crate::rng::Rng;
use crate::rt::{Policy, SchedCfg};
use crate::scheck::Violation;
use crate::{jsh, rt};
use futures::Stream;
use serde::{Deserialize, Serialize};
use serde_json::{json, Value};
use std::collections::{BTreeMap, BTreeSet};
use zod::rpc::clients::WebsocketClient;
use zod_core::rpc::server::{Backend, CodegenOptions};
use zod::{rpc, Namespace, Zod};

/// Types that refer to each other across namespaces whose names sort before and after their own,
/// names that occur in several namespaces, and namespaces whose names begin with one another.
#[allow(dead_code)]
pub mod zoo {
    use super::*;

    #[derive(Namespace)]
    pub struct Acme;
    #[derive(Namespace)]
    pub struct AcmeX;
    #[derive(Namespace)]
    #[namespace(name = "zebra")]
    pub struct Zebra;
    #[derive(Namespace)]
    pub struct Mute;
    /// not part of the zoo
    #[derive(Namespace)]
    pub struct Acm;
    /// not part of the zoo
    #[derive(Namespace)]
    pub struct Zebras;

    #[derive(Debug, Serialize, Deserialize, Zod)]
    #[zod(namespace = "Acme")]
    pub struct Owner {
        pub name: String,
        pub pets: Vec<Animal>,
        pub tag: Tag,
    }
    #[derive(Debug, Serialize, Deserialize, Zod)]
    #[zod(namespace = "Acme")]
    pub struct Tag(pub u8);
    #[derive(Debug, Serialize, Deserialize, Zod)]
    #[zod(namespace = "Acme")]
    pub struct Item {
        pub a: bool,
    }
    /// An item of the other kind
    /// on two lines
    #[derive(Debug, Serialize, Deserialize, Zod)]
    #[zod(namespace = "AcmeX")]
    #[serde(rename_all = "camelCase")]
    pub struct Item2 {
        pub item_one: Item,
        #[serde(default)]
        pub item_two: Option<zitem::Item>,
    }
    pub mod zitem {
        use super::*;
        #[derive(Debug, Serialize, Deserialize, Zod)]
        #[zod(namespace = "Zebra")]
        pub struct Item {
            pub z: (Tag, u8),
        }
    }
    #[derive(Debug, Serialize, Deserialize, Zod)]
    #[zod(namespace = "Zebra")]
    pub enum Animal {
        Fish,
        Bird { wings: u8, cage: Cage },
        Herd(Tag, Tag),
    }
    #[derive(Debug, Serialize, Deserialize, Zod)]
    #[zod(namespace = "Zebra")]
    #[serde(tag = "kind")]
    pub enum Cage {
        Small { bars: u16 },
        Big { bars: u16, label: Tag },
    }
    /// Only a type, no functions
    #[derive(Debug, Serialize, Deserialize, Zod)]
    #[zod(namespace = "Mute")]
    pub struct Quiet {
        pub of: Animal,
    }
    #[derive(Debug, Serialize, Deserialize, Zod)]
    #[zod(namespace = "Mute")]
    #[serde(rename_all = "kebab-case")]
    pub struct Kebab {
        pub first_name: String,
        pub r#type: u8,
        #[serde(rename = "2nd")]
        pub second: Tag,
    }
    #[derive(Debug, Serialize, Deserialize, Zod)]
    #[zod(namespace = "Mute")]
    #[serde(rename_all = "kebab-case")]
    pub enum Skewer {
        NoMeat,
        BitOfMeat(u8),
        #[serde(rename_all = "SCREAMING-KEBAB-CASE")]
        LotsOfMeat { how_much: Kebab },
    }
    #[derive(Debug, Serialize, Deserialize, Zod)]
    #[zod(namespace = "Mute")]
    #[serde(tag = "@type", content = "the content", rename_all = "kebab-case")]
    pub enum Adjacent {
        OneTwo { a: u8 },
        ThreeFour(u8, u8),
    }
    #[derive(Debug, Serialize, Deserialize, Zod)]
    #[zod(namespace = "Acm")]
    pub struct Owner2 {
        pub o: Owner,
    }
    #[derive(Debug, Serialize, Deserialize, Zod)]
    #[zod(namespace = "Zebras")]
    pub struct Item3 {
        pub o: zitem::Item,
    }

    #[rpc::namespace]
    impl Acme {
        pub async fn adopt(&mut self, who: Owner, what: Animal) -> Owner {
            let _ = what;
            who
        }
        pub async fn count(&mut self) -> usize {
            0
        }
        pub fn watch(&mut self, t: Tag) -> impl Stream<Item = Tag> {
            futures::stream::iter([t])
        }
    }
    #[rpc::namespace]
    impl AcmeX {
        pub async fn adopt(&mut self, what: Item2) -> Item2 {
            what
        }
    }
    #[rpc::namespace]
    impl Zebra {
        pub async fn count(&mut self, of: Animal) -> usize {
            let _ = of;
            1
        }
        pub fn herd(&mut self) -> impl Stream<Item = usize> {
            futures::stream::iter([1usize])
        }
    }
    #[rpc::namespace]
    impl Mute {}
    #[rpc::namespace]
    impl Acm {
        pub async fn adopt(&mut self, who: Owner2) -> usize {
            let _ = who;
            2
        }
    }
    #[rpc::namespace]
    impl Zebras {
        pub async fn herd(&mut self) -> usize {
            3
        }
    }

    #[derive(rpc::Backend)]
    pub struct Zoo {
        pub zebra: Zebra,
        pub acme_x: AcmeX,
        pub acme: Acme,
        pub mute: Mute,
    }
    #[derive(rpc::Backend)]
    pub struct Lone {
        pub acm: Acm,
    }
}

/// Namespaces that look alike: equal types and functions under equal names, equal types under
/// different names.
#[allow(dead_code)]
pub mod twins {
    use super::*;

    #[derive(Namespace)]
    pub struct Kiwi;
    pub mod in_kiwi {
        use super::*;
        /// The same everywhere
        #[derive(Debug, Serialize, Deserialize, Zod)]
        #[zod(namespace = "Kiwi")]
        pub struct Item {
            pub v: usize,
        }
        /// The same everywhere
        #[derive(Debug, Serialize, Deserialize, Zod)]
        #[zod(namespace = "Kiwi")]
        pub struct ItemOther {
            pub v: usize,
        }
        #[derive(Debug, Serialize, Deserialize, Zod)]
        #[zod(namespace = "Kiwi")]
        pub enum Side {
            Left,
            Right(Item),
        }
    }
    #[rpc::namespace]
    impl Kiwi {
        pub async fn get(&mut self, n: usize) -> usize {
            n
        }
        pub async fn get_all(&mut self, n: usize) -> usize {
            n
        }
        pub async fn item(&mut self, i: in_kiwi::Item) -> in_kiwi::Item {
            i
        }
        pub async fn other(&mut self, i: in_kiwi::ItemOther, s: in_kiwi::Side) -> in_kiwi::Side {
            let _ = i;
            s
        }
        pub fn all(&mut self, n: usize) -> impl Stream<Item = usize> {
            futures::stream::iter([n])
        }
    }

    #[derive(Namespace)]
    pub struct Lime;
    pub mod in_lime {
        use super::*;
        /// The same everywhere
        #[derive(Debug, Serialize, Deserialize, Zod)]
        #[zod(namespace = "Lime")]
        pub struct Item {
            pub v: usize,
        }
        /// The same everywhere
        #[derive(Debug, Serialize, Deserialize, Zod)]
        #[zod(namespace = "Lime")]
        pub struct ItemOther {
            pub v: usize,
        }
        #[derive(Debug, Serialize, Deserialize, Zod)]
        #[zod(namespace = "Lime")]
        pub enum Side {
            Left,
            Right(Item),
        }
    }
    #[rpc::namespace]
    impl Lime {
        pub async fn get(&mut self, n: usize) -> usize {
            n
        }
        pub async fn get_all(&mut self, n: usize) -> usize {
            n
        }
        pub async fn item(&mut self, i: in_lime::Item) -> in_lime::Item {
            i
        }
        pub async fn other(&mut self, i: in_lime::ItemOther, s: in_lime::Side) -> in_lime::Side {
            let _ = i;
            s
        }
        pub fn all(&mut self, n: usize) -> impl Stream<Item = usize> {
            futures::stream::iter([n])
        }
    }

    #[derive(Namespace)]
    pub struct Mango;
    pub mod in_mango {
        use super::*;
        /// The same everywhere
        #[derive(Debug, Serialize, Deserialize, Zod)]
        #[zod(namespace = "Mango")]
        pub struct Item {
            pub v: usize,
        }
        /// The same everywhere
        #[derive(Debug, Serialize, Deserialize, Zod)]
        #[zod(namespace = "Mango")]
        pub struct ItemOther {
            pub v: usize,
        }
        #[derive(Debug, Serialize, Deserialize, Zod)]
        #[zod(namespace = "Mango")]
        pub enum Side {
            Left,
            Right(Item),
        }
    }
    #[rpc::namespace]
    impl Mango {
        pub async fn get(&mut self, n: usize) -> usize {
            n
        }
        pub async fn get_all(&mut self, n: usize) -> usize {
            n
        }
        pub async fn item(&mut self, i: in_mango::Item) -> in_mango::Item {
            i
        }
        pub async fn other(&mut self, i: in_mango::ItemOther, s: in_mango::Side) -> in_mango::Side {
            let _ = i;
            s
        }
        pub fn all(&mut self, n: usize) -> impl Stream<Item = usize> {
            futures::stream::iter([n])
        }
    }

    #[derive(Namespace)]
    pub struct Nut;
    pub mod in_nut {
        use super::*;
        /// The same everywhere
        #[derive(Debug, Serialize, Deserialize, Zod)]
        #[zod(namespace = "Nut")]
        pub struct Item {
            pub v: usize,
        }
        /// The same everywhere
        #[derive(Debug, Serialize, Deserialize, Zod)]
        #[zod(namespace = "Nut")]
        pub struct ItemOther {
            pub v: usize,
        }
        #[derive(Debug, Serialize, Deserialize, Zod)]
        #[zod(namespace = "Nut")]
        pub enum Side {
            Left,
            Right(Item),
        }
    }
    #[rpc::namespace]
    impl Nut {
        pub async fn get(&mut self, n: usize) -> usize {
            n
        }
        pub async fn get_all(&mut self, n: usize) -> usize {
            n
        }
        pub async fn item(&mut self, i: in_nut::Item) -> in_nut::Item {
            i
        }
        pub async fn other(&mut self, i: in_nut::ItemOther, s: in_nut::Side) -> in_nut::Side {
            let _ = i;
            s
        }
        pub fn all(&mut self, n: usize) -> impl Stream<Item = usize> {
            futures::stream::iter([n])
        }
    }

    #[derive(Namespace)]
    pub struct Okra;
    pub mod in_okra {
        use super::*;
        /// The same everywhere
        #[derive(Debug, Serialize, Deserialize, Zod)]
        #[zod(namespace = "Okra")]
        pub struct Item {
            pub v: usize,
        }
        /// The same everywhere
        #[derive(Debug, Serialize, Deserialize, Zod)]
        #[zod(namespace = "Okra")]
        pub struct ItemOther {
            pub v: usize,
        }
        #[derive(Debug, Serialize, Deserialize, Zod)]
        #[zod(namespace = "Okra")]
        pub enum Side {
            Left,
            Right(Item),
        }
    }
    #[rpc::namespace]
    impl Okra {
        pub async fn get(&mut self, n: usize) -> usize {
            n
        }
        pub async fn get_all(&mut self, n: usize) -> usize {
            n
        }
        pub async fn item(&mut self, i: in_okra::Item) -> in_okra::Item {
            i
        }
        pub async fn other(&mut self, i: in_okra::ItemOther, s: in_okra::Side) -> in_okra::Side {
            let _ = i;
            s
        }
        pub fn all(&mut self, n: usize) -> impl Stream<Item = usize> {
            futures::stream::iter([n])
        }
    }

    #[derive(Namespace)]
    pub struct Plum;
    pub mod in_plum {
        use super::*;
        /// The same everywhere
        #[derive(Debug, Serialize, Deserialize, Zod)]
        #[zod(namespace = "Plum")]
        pub struct Item {
            pub v: usize,
        }
        /// The same everywhere
        #[derive(Debug, Serialize, Deserialize, Zod)]
        #[zod(namespace = "Plum")]
        pub struct ItemOther {
            pub v: usize,
        }
        #[derive(Debug, Serialize, Deserialize, Zod)]
        #[zod(namespace = "Plum")]
        pub enum Side {
            Left,
            Right(Item),
        }
    }
    #[rpc::namespace]
    impl Plum {
        pub async fn get(&mut self, n: usize) -> usize {
            n
        }
        pub async fn get_all(&mut self, n: usize) -> usize {
            n
        }
        pub async fn item(&mut self, i: in_plum::Item) -> in_plum::Item {
            i
        }
        pub async fn other(&mut self, i: in_plum::ItemOther, s: in_plum::Side) -> in_plum::Side {
            let _ = i;
            s
        }
        pub fn all(&mut self, n: usize) -> impl Stream<Item = usize> {
            futures::stream::iter([n])
        }
    }

    #[derive(rpc::Backend)]
    pub struct Basket {
        pub plum: Plum,
        pub okra: Okra,
        pub nut: Nut,
        pub mango: Mango,
        pub lime: Lime,
        pub kiwi: Kiwi,
    }
}

type Want = (&'static [(&'static str, &'static [&'static str], &'static [&'static str])], Vec<(&'static str, &'static str, Value, bool)>);

/// namespaces with their types and functions; samples with the verdict of the schema
fn wanted(which: usize) -> Want {
    let zoo_types = || {
        vec![
            ("zebra", "Animal", json!("Fish"), true),
            ("zebra", "Animal", json!("Dog"), false),
            ("zebra", "Animal", json!({"Bird": {"wings": 2, "cage": {"kind": "Big", "bars": 3, "label": 7}}}), true),
            ("zebra", "Animal", json!({"Bird": {"wings": 2, "cage": {"kind": "Big", "bars": 3, "label": 700}}}), false),
            ("zebra", "Animal", json!({"Herd": [1, 2]}), true),
            ("zebra", "Animal", json!({"Herd": [1, "x"]}), false),
            ("zebra", "Item", json!({"z": [3, 4]}), true),
            ("zebra", "Item", json!({"a": true}), false),
            ("zebra", "Cage", json!({"kind": "Small", "bars": 65535}), true),
            ("zebra", "Cage", json!({"kind": "Small", "bars": 65536}), false),
            ("Acme", "Item", json!({"a": true}), true),
            ("Acme", "Item", json!({"z": [3, 4]}), false),
            ("Acme", "Owner", json!({"name": "x", "pets": ["Fish", {"Herd": [0, 0]}], "tag": 0}), true),
            ("Acme", "Owner", json!({"name": "x", "pets": ["Fish", {"Herd": [0]}], "tag": 0}), false),
            ("Acme", "Tag", json!(255), true),
            ("Acme", "Tag", json!(256), false),
            ("AcmeX", "Item2", json!({"itemOne": {"a": false}}), true),
            ("AcmeX", "Item2", json!({"itemOne": {"a": false}, "itemTwo": {"z": [1, 2]}}), true),
            ("AcmeX", "Item2", json!({"itemOne": {"a": 1}}), false),
            ("Mute", "Quiet", json!({"of": "Fish"}), true),
            ("Mute", "Quiet", json!({"of": 1}), false),
            ("Mute", "Kebab", json!({"first-name": "x", "type": 1, "2nd": 2}), true),
            ("Mute", "Kebab", json!({"first_name": "x", "type": 1, "2nd": 2}), false),
            ("Mute", "Skewer", json!("no-meat"), true),
            ("Mute", "Skewer", json!({"bit-of-meat": 3}), true),
            ("Mute", "Skewer", json!({"lots-of-meat": {"HOW-MUCH": {"first-name": "x", "type": 1, "2nd": 2}}}), true),
            ("Mute", "Skewer", json!({"lots-of-meat": {"how-much": {"first-name": "x", "type": 1, "2nd": 2}}}), false),
            ("Mute", "Adjacent", json!({"@type": "one-two", "the content": {"a": 1}}), true),
            ("Mute", "Adjacent", json!({"@type": "three-four", "the content": [1, 2]}), true),
            ("Mute", "Adjacent", json!({"@type": "three-four", "the content": {"a": 1}}), false),
        ]
    };
    let point = |x: Value| json!({"x": x, "label": "l", "inner": {"on": true, "parts": [1, 65535]}});
    let beta = || {
        vec![
            ("Beta", "Inner", json!({"on": true, "parts": [1, 2]}), true),
            ("Beta", "Inner", json!({"on": true, "parts": [65536]}), false),
            ("Beta", "Inner", json!({"on": 1, "parts": []}), false),
        ]
    };
    match which {
        0 => (
            &[
                ("Alpha", &["Point", "Shape"], &["add", "slow", "echo", "ping", "mix", "silent", "raw", "brittle", "boom", "count", "tick", "same", "burst", "never", "flood", "flaky", "bomb", "dud"]),
                ("Beta", &["Inner"], &["add", "slow", "ping", "count", "beat"]),
                ("Gam_ma", &[], &["add", "only_here", "count"]),
                ("Odd", &[], &["request", "move", "opt", "subscribe", "__request", "__subscribe", "wordsa", "wordsb", "wordsc", "wordsd", "wordse"]),
            ],
            [
                beta(),
                vec![
                    ("Alpha", "Point", point(json!(3)), true),
                    ("Alpha", "Point", point(json!("3")), false),
                    ("Alpha", "Shape", json!("Dot"), true),
                    ("Alpha", "Shape", json!({"Circle": {"radius": 1}}), true),
                    ("Alpha", "Shape", json!({"Line": [1, 2]}), true),
                    ("Alpha", "Shape", json!({"Line": [1]}), false),
                ],
            ]
            .concat(),
        ),
        1 => (
            &[("Delta", &["Foreign"], &["add", "zap"]), ("Beta", &["Inner"], &["add", "slow", "ping", "count", "beat"])],
            [beta(), vec![("Delta", "Foreign", json!({"v": 1}), true), ("Delta", "Foreign", json!({"v": -1}), false)]].concat(),
        ),
        2 => (
            &[
                ("Acme", &["Owner", "Tag", "Item"], &["adopt", "count", "watch"]),
                ("AcmeX", &["Item2"], &["adopt"]),
                ("zebra", &["Item", "Animal", "Cage"], &["count", "herd"]),
                ("Mute", &["Quiet", "Kebab", "Skewer", "Adjacent"], &[]),
            ],
            zoo_types(),
        ),
        4 => (
            &[("Alph", &[], &["add"]), ("AlphaBeta", &["Point"], &["add"]), ("alpha", &[], &["add"])],
            vec![("AlphaBeta", "Point", json!({"v": 1}), true), ("AlphaBeta", "Point", json!({"v": "1"}), false)],
        ),
        5 => (
            &[
                ("Kiwi", &["Item", "ItemOther", "Side"], &["get", "get_all", "item", "other", "all"]),
                ("Lime", &["Item", "ItemOther", "Side"], &["get", "get_all", "item", "other", "all"]),
                ("Mango", &["Item", "ItemOther", "Side"], &["get", "get_all", "item", "other", "all"]),
                ("Nut", &["Item", "ItemOther", "Side"], &["get", "get_all", "item", "other", "all"]),
                ("Okra", &["Item", "ItemOther", "Side"], &["get", "get_all", "item", "other", "all"]),
                ("Plum", &["Item", "ItemOther", "Side"], &["get", "get_all", "item", "other", "all"]),
            ],
            ["Kiwi", "Lime", "Mango", "Nut", "Okra", "Plum"]
                .iter()
                .flat_map(|n| {
                    vec![
                        (*n, "Item", json!({"v": 1}), true),
                        (*n, "Item", json!({"v": -1}), false),
                        (*n, "ItemOther", json!({"v": 1}), true),
                        (*n, "Side", json!("Left"), true),
                        (*n, "Side", json!({"Right": {"v": 3}}), true),
                        (*n, "Side", json!({"Right": 3}), false),
                    ]
                })
                .collect(),
        ),
        _ => (&[("Acm", &["Owner2"], &["adopt"])], vec![]),
    }
}

#[derive(Clone, Debug, Serialize, Deserialize)]
pub struct GPlan {
    pub sched: SchedCfg,
    pub which: usize,
    /// how often the registries are put in a new order
    pub orders: usize,
}

pub fn generate(seed: u64) -> GPlan {
    let mut r = Rng::new(seed, 11);
    GPlan { sched: SchedCfg { policy: Policy::Fifo, poll_us: 0, event_interval: 61, par: 0 }, which: *r.pick(&[0usize, 0, 1, 2, 2, 2, 3, 4, 5, 5]), orders: r.range(1, 3) as usize }
}

pub fn shrink(p: &GPlan) -> Vec<GPlan> {
    let mut out = vec![];
    if p.orders > 1 {
        out.push(GPlan { orders: p.orders - 1, ..p.clone() });
    }
    out
}

fn code<B: Backend>() -> (String, String, Value) {
    let a = B::generate::<WebsocketClient>();
    let b = B::generate_with_options::<WebsocketClient>(CodegenOptions::default());
    let sorted = |m: std::collections::HashMap<&'static str, Vec<String>>| m.into_iter().collect::<BTreeMap<_, _>>();
    let rpc: BTreeMap<&str, usize> = sorted(B::rpc_members()).into_iter().map(|(k, v)| (k, v.len())).collect();
    let types: BTreeMap<&str, BTreeSet<&str>> = B::zod_namespaces().into_iter().map(|(k, v)| (k, v.iter().map(|m| m.name()).collect())).collect();
    let dup: usize = B::zod_namespaces().values().map(|v| v.len()).sum();
    (a, b, json!({"rpc": rpc, "types": types, "n": dup}))
}

fn both(which: usize) -> (String, String, Value) {
    match which {
        0 => code::<backend::Bench>(),
        1 => code::<other::Other>(),
        2 => code::<zoo::Zoo>(),
        4 => code::<other::Near>(),
        5 => code::<twins::Basket>(),
        _ => code::<zoo::Lone>(),
    }
}

pub struct GHistory {
    pub log: Vec<Rec>,
    pub violations: Vec<Violation>,
    pub judged: u64,
    pub panics: Vec<String>,
}

pub async fn run(plan: GPlan) -> GHistory {
    log::clear();
    rt::PANICS.with(|p| p.borrow_mut().clear());
    let mut out: Vec<Violation> = vec![];
    let mut judged = 0;
    jsh::ask(&json!({"c": "reset"}));
    let mut add = |code: &'static str, detail: String| {
        if out.iter().filter(|v: &&Violation| v.code == code).count() < 3 {
            out.push(Violation { code, props: BTreeSet::from(["C20"]), detail });
        }
    };
    let (want, samples) = wanted(plan.which);
    let mut expected: Vec<(String, String, String)> = vec![];
    for (ns, types, fns) in want {
        expected.push(("".into(), "namespace".into(), ns.to_string()));
        for t in *types {
            expected.push((ns.to_string(), "const".into(), t.to_string()));
            expected.push((ns.to_string(), "type".into(), t.to_string()));
        }
        for f in *fns {
            expected.push((ns.to_string(), "function".into(), f.to_string()));
        }
    }
    expected.sort();
    let want_rpc: BTreeMap<&str, usize> = want.iter().filter(|w| !w.2.is_empty()).map(|w| (w.0, w.2.len())).collect();
    let want_types: BTreeMap<&str, BTreeSet<&str>> = want.iter().filter(|w| !w.1.is_empty()).map(|w| (w.0, w.1.iter().copied().collect())).collect();
    let want_maps = json!({"rpc": want_rpc, "types": want_types, "n": want.iter().map(|w| w.1.len()).sum::<usize>()});
    // what each declaration says under the first order
    let mut says: BTreeMap<(String, String, String), String> = BTreeMap::new();
    for k in 0..=plan.orders {
        // the order the linker happened to choose comes first
        rt::set_permute(k > 0);
        if k > 0 {
            rt::fault("registry-reordered");
        }
        let (a, b, maps) = both(plan.which);
        let (again, _, _) = both(plan.which);
        judged += 1;
        if a != again || a != b {
            add("unstable-text", "generating the client twice gives two different texts".into());
        }
        if maps != want_maps {
            add("wrong-members", format!("rpc_members/zod_namespaces list {maps} instead of {want_maps}"));
        }
        let l = jsh::load(&a, true);
        log::push(Ev::Js(json!({"order": k, "hash": l.hash, "exports": l.exports.len()})));
        for e in &l.errors {
            add("unloadable", format!("the generated client does not parse: {e}"));
        }
        if l.hash.is_empty() {
            add("unloadable", "the generated client cannot be transpiled".into());
            continue;
        }
        let mut got: Vec<(String, String, String)> = l.exports.iter().filter(|e| !(e.0.is_empty() && e.1 != "namespace")).map(|e| (e.0.clone(), e.1.clone(), e.2.clone())).collect();
        got.sort();
        if got != expected {
            let missing: Vec<_> = expected.iter().filter(|e| !got.contains(e)).collect();
            let extra: Vec<_> = got.iter().filter(|e| !expected.contains(e)).collect();
            let twice: Vec<_> = got.windows(2).filter(|w| w[0] == w[1]).map(|w| &w[0]).collect();
            add("wrong-exports", format!("the client lacks {missing:?}, has {extra:?} in excess and {twice:?} more than once"));
        }
        for e in &l.exports {
            let key = (e.0.clone(), e.1.clone(), e.2.clone());
            match says.get(&key) {
                None if k > 0 => {}
                Some(d) if d != &e.3 => add("order-dependent", format!("{} {}.{} reads differently under another registry order", e.1, e.0, e.2)),
                Some(_) => {}
                None => {
                    says.insert(key, e.3.clone());
                }
            }
        }
        // it loads, and its schemas judge
        let r = jsh::ask(&json!({"c": "tab", "t": k, "hash": l.hash, "seed": 1, "now": 0}));
        for f in r["fx"].as_array().cloned().unwrap_or_default() {
            if f["e"] == json!("loaderror") {
                add("unloadable", format!("loading the generated client fails: {}", f["m"]));
            }
        }
        let tests: Vec<Value> = samples.iter().map(|(ns, name, v, _)| json!([ns, name, v])).collect();
        let r = jsh::ask(&json!({"c": "schema", "t": k, "tests": tests}));
        log::push(Ev::Js(json!({"order": k, "schema": r["r"]})));
        for (i, (ns, name, v, ok)) in samples.iter().enumerate() {
            if r["r"][i] != json!(ok) {
                add("schema", format!("the schema {ns}.{name} says {} to {v}, not {ok}", r["r"][i]));
            }
        }
    }
    rt::set_permute(false);
    GHistory { log: log::take(), violations: out, judged, panics: rt::PANICS.with(|p| p.borrow().clone()) }
}
