//! The values, iterators and filters templates are made of.

use std::cell::Cell;
use std::fmt::Write as _;
use std::fmt::{self, Write};

use serde::ser::{Error as _, SerializeMap, SerializeSeq};
use vsim::values::{tick, TICK, Key, Via, Vs, J};

use crate::ctx::{self, Op, SimErr};

/// The world a template sees. All its state belongs to the running render.
#[derive(Debug)]
pub struct World {
    vs: Vs,
}

impl World {
    pub fn new(vs: Vs) -> Self {
        World { vs }
    }

    pub fn field(&self, i: usize) -> Show {
        Show(self.vs.field(i))
    }

    pub fn num_field(&self, i: usize) -> u32 {
        self.vs.num_field(i).num()
    }

    pub fn list_field(&self, i: usize) -> Vec<Show> {
        let key = self.vs.list_field(i);
        (0..key.len()).map(|i| Show(key.item(i))).collect()
    }

    fn eval(&self, site: u32) -> Key {
        let occ = ctx::occ(site);
        ctx::plain(Op::Eval(site, occ));
        self.vs.site(site, occ)
    }

    fn try_eval(&self, site: u32) -> Result<Key, SimErr> {
        let occ = ctx::occ(site);
        ctx::fallible(Op::Try(site, occ))?;
        Ok(self.vs.site(site, occ))
    }

    pub fn show(&self, site: u32) -> Show {
        Show(self.eval(site))
    }

    pub fn tick(&self) -> Show {
        eval_tick(0)
    }

    pub fn try_show(&self, site: u32) -> Result<Show, SimErr> {
        self.try_eval(site).map(Show)
    }

    pub fn me(&self) -> &Self {
        self
    }

    pub fn us(&self, site: u32) -> usize {
        self.eval(site).size()
    }

    pub fn idx1(&self, site: u32) -> usize {
        self.eval(site).num() as usize % 1
    }

    pub fn idx2(&self, site: u32) -> usize {
        self.eval(site).num() as usize % 2
    }

    pub fn idx3(&self, site: u32) -> usize {
        self.eval(site).num() as usize % 3
    }

    pub fn i(&self, site: u32) -> i32 {
        self.eval(site).int()
    }

    pub fn amount(&self, site: u32) -> Amount {
        Amount(self.eval(site))
    }

    pub fn word(&self, site: u32) -> &'static str {
        self.eval(site).word()
    }

    pub fn chr(&self, site: u32) -> char {
        self.eval(site).chr()
    }

    pub fn duo(&self, site: u32) -> Duo {
        duo(self.eval(site))
    }

    pub fn opt_en(&self, site: u32) -> Option<En> {
        let key = self.eval(site);
        key.some().then(|| en(key))
    }

    pub fn duos(&self, site: u32) -> Duos {
        Duos(Items::new(self.eval(site)))
    }

    pub fn once(&self, site: u32) -> Once {
        Once(Show(self.eval(site)), Cell::new(false))
    }

    pub fn n(&self, site: u32) -> u32 {
        self.eval(site).num()
    }

    pub fn try_n(&self, site: u32) -> Result<u32, SimErr> {
        self.try_eval(site).map(Key::num)
    }

    pub fn b(&self, site: u32) -> bool {
        self.eval(site).boolean()
    }

    pub fn try_b(&self, site: u32) -> Result<bool, SimErr> {
        self.try_eval(site).map(Key::boolean)
    }

    pub fn opt(&self, site: u32) -> Option<Show> {
        opt(self.eval(site))
    }

    pub fn try_opt(&self, site: u32) -> Result<Option<Show>, SimErr> {
        self.try_eval(site).map(opt)
    }

    pub fn en(&self, site: u32) -> En {
        en(self.eval(site))
    }

    pub fn try_en(&self, site: u32) -> Result<En, SimErr> {
        self.try_eval(site).map(en)
    }

    pub fn pair(&self, site: u32) -> (Show, u32) {
        let key = self.eval(site);
        (Show(key), key.num())
    }

    pub fn items(&self, site: u32) -> Items {
        Items::new(self.eval(site))
    }

    pub fn try_items(&self, site: u32) -> Result<Items, SimErr> {
        self.try_eval(site).map(Items::new)
    }

    pub fn pairs(&self, site: u32) -> Pairs {
        Pairs(Items::new(self.eval(site)))
    }

    pub fn list(&self, site: u32) -> List {
        List(self.eval(site))
    }

    pub fn js(&self, site: u32) -> Js {
        Js(self.eval(site))
    }
}

/// An evaluation without any argument
pub fn eval_tick(form: u32) -> Show {
    let site = TICK + form;
    let occ = ctx::occ(site);
    ctx::plain(Op::Eval(site, occ));
    Show(tick(site, occ))
}

macro_rules! forms {
    ($($name:ident: $ty:ty),* $(,)?) => {
        /// Functions instead of methods
        pub mod at {
            use super::*;

            pub fn tick() -> Show {
                eval_tick(2)
            }

            $(pub fn $name(w: &World, site: u32) -> $ty {
                w.$name(site)
            })*
        }

        /// Methods of the template
        #[macro_export]
        macro_rules! methods {
            () => {
                pub fn me(&self) -> &World {
                    self.w
                }
                pub fn tick(&self) -> vrt::Show {
                    vrt::eval_tick(1)
                }
                $(pub fn $name(&self, site: u32) -> $ty {
                    self.w.$name(site)
                })*
            }
        }
    }
}

forms! {
    show: Show,
    try_show: Result<Show, SimErr>,
    n: u32,
    try_n: Result<u32, SimErr>,
    b: bool,
    try_b: Result<bool, SimErr>,
    us: usize,
    idx1: usize,
    idx2: usize,
    idx3: usize,
    i: i32,
    amount: Amount,
    word: &'static str,
    chr: char,
    duo: Duo,
    duos: Duos,
    opt_en: Option<En>,
    once: Once,
    opt: Option<Show>,
    try_opt: Result<Option<Show>, SimErr>,
    en: En,
    try_en: Result<En, SimErr>,
    pair: (Show, u32),
    items: Items,
    try_items: Result<Items, SimErr>,
    pairs: Pairs,
    list: List,
    js: Js,
}

/// A macro around an expression
#[macro_export]
macro_rules! call {
    ($($t:tt)*) => { $($t)* }
}

#[derive(Debug, Clone, Copy)]
pub struct Duo {
    pub x: Show,
    pub n: u32,
}

fn duo(key: Key) -> Duo {
    Duo {
        x: Show(key),
        n: key.num(),
    }
}

fn opt(key: Key) -> Option<Show> {
    key.some().then_some(Show(key))
}

fn en(key: Key) -> En {
    match key.variant() {
        0 => En::A,
        1 => En::B(Show(key)),
        _ => En::C {
            x: Show(key),
            n: key.num(),
        },
    }
}

#[derive(Debug, Clone, Copy)]
pub enum En {
    A,
    B(Show),
    C { x: Show, n: u32 },
    /// Never occurs
    D,
}

/// A value that writes its text in pieces, and may fail, panic or render something at each of them
#[derive(Debug, Clone, Copy)]
pub struct Show(pub Key);

impl fmt::Display for Show {
    fn fmt(&self, f: &mut fmt::Formatter<'_>) -> fmt::Result {
        let mut n = 0;
        let careless = ctx::with(|c| c.careless);
        for (via, s) in self.0.chunks() {
            ctx::fallible(Op::Disp(self.0 .0, n)).map_err(|_| fmt::Error)?;
            n += 1;
            let result = match via {
                Via::Str => f.write_str(&s),
                Via::Args => write!(f, "{s}"),
                Via::Chars => s.chars().try_for_each(|c| f.write_char(c)),
            };
            if !careless {
                result?;
            }
        }
        ctx::fallible(Op::Disp(self.0 .0, n)).map_err(|_| fmt::Error)
    }
}

/// A value that can be displayed only once
#[derive(Debug)]
pub struct Once(Show, Cell<bool>);

impl fmt::Display for Once {
    fn fmt(&self, f: &mut fmt::Formatter<'_>) -> fmt::Result {
        match self.1.replace(true) {
            true => f.write_str("[displayed twice]"),
            false => self.0.fmt(f),
        }
    }
}

/// An iterator with an arbitrary size hint, that notices if it is polled after its end
#[derive(Debug)]
pub struct Items {
    key: Key,
    at: u32,
}

impl Items {
    fn new(key: Key) -> Self {
        Items { key, at: 0 }
    }
}

impl Iterator for Items {
    type Item = Item;

    fn next(&mut self) -> Option<Item> {
        ctx::plain(Op::Next(self.key.0, self.at));
        let end = self.key.len() as u32;
        ctx::with(|c| {
            let polls = c.polls.entry(self.key.0).or_default();
            polls.0 += 1;
            polls.1 += (self.at > end) as u32;
        });
        self.at += 1;
        // Yields something again if it is polled after its end
        let idx = self.at as usize - 1;
        (idx != self.key.len()).then(|| Item {
            key: self.key.item(idx),
            v: Show(self.key.item(idx)),
            iter: self.key,
        })
    }

    fn size_hint(&self) -> (usize, Option<usize>) {
        self.key.size_hint()
    }
}

#[derive(Debug)]
pub struct Pairs(Items);

impl Iterator for Pairs {
    type Item = (Show, Item);

    fn next(&mut self) -> Option<Self::Item> {
        self.0.next().map(|i| (i.v, i))
    }

    fn size_hint(&self) -> (usize, Option<usize>) {
        self.0.size_hint()
    }
}

#[derive(Debug)]
pub struct Duos(Items);

impl Iterator for Duos {
    type Item = Duo;

    fn next(&mut self) -> Option<Duo> {
        self.0.next().map(|i| duo(i.key))
    }

    fn size_hint(&self) -> (usize, Option<usize>) {
        self.0.size_hint()
    }
}

#[derive(Debug, Clone, Copy)]
pub struct Item {
    key: Key,
    pub v: Show,
    iter: Key,
}

impl Item {
    fn note(&self, site: u32) {
        ctx::with(|c| {
            let polls = c.polls.get(&self.iter.0).map_or(0, |p| p.0);
            c.item_polls.push((self.key.0, self.iter.0, polls, site));
        });
    }

    fn eval(&self, site: u32) -> Key {
        self.note(site);
        ctx::plain(Op::Item(site, self.key.0));
        self.key.item_site(site)
    }

    pub fn show(&self, site: u32) -> Show {
        Show(self.eval(site))
    }

    pub fn try_show(&self, site: u32) -> Result<Show, SimErr> {
        self.note(site);
        ctx::fallible(Op::ItemTry(site, self.key.0))?;
        Ok(Show(self.key.item_site(site)))
    }

    pub fn b(&self, site: u32) -> bool {
        self.eval(site).boolean()
    }

    pub fn n(&self, site: u32) -> u32 {
        self.eval(site).num()
    }

    pub fn en(&self, site: u32) -> En {
        en(self.eval(site))
    }

    pub fn items(&self, site: u32) -> Items {
        Items::new(self.eval(site))
    }
}

#[derive(Debug)]
pub struct List(Key);

impl<'a> IntoIterator for &'a List {
    type Item = Show;
    type IntoIter = std::iter::Map<Items, fn(Item) -> Show>;

    fn into_iter(self) -> Self::IntoIter {
        Items::new(self.0).map(|i| i.v)
    }
}

/// A serializable value that may fail or panic wherever the serializer visits it
#[derive(Debug, Clone)]
pub struct Js(pub Key);

impl serde::Serialize for Js {
    fn serialize<S: serde::Serializer>(&self, s: S) -> Result<S::Ok, S::Error> {
        JsNode(&self.0.json(), self.0, &Cell::new(0)).serialize(s)
    }
}

struct JsNode<'a>(&'a J, Key, &'a Cell<u32>);

impl serde::Serialize for JsNode<'_> {
    fn serialize<S: serde::Serializer>(&self, s: S) -> Result<S::Ok, S::Error> {
        let JsNode(j, key, n) = *self;
        let visit = || {
            n.set(n.get() + 1);
            ctx::fallible(Op::Ser(key.0, n.get() - 1))
        };
        visit().map_err(S::Error::custom)?;
        match j {
            J::Null => s.serialize_none(),
            J::Bool(b) => s.serialize_bool(*b),
            J::I(i) => s.serialize_i64(*i),
            J::U(u) => s.serialize_u64(*u),
            J::F(x) => s.serialize_f64(*x),
            J::Str(x) => s.serialize_str(x),
            J::Show(k) => {
                // `collect_str()` of serde_json does not tolerate a failing implementation
                let mut text = String::new();
                match write!(text, "{}", Show(*k)) {
                    Ok(()) => s.serialize_str(&text),
                    Err(e) => Err(S::Error::custom(e)),
                }
            }
            J::Char(c) => s.serialize_char(*c),
            J::Arr(a) => {
                let known = a.len() % 2 == 0;
                let mut seq = s.serialize_seq(known.then_some(a.len()))?;
                for v in a {
                    seq.serialize_element(&JsNode(v, key, n))?;
                }
                visit().map_err(S::Error::custom)?;
                seq.end()
            }
            J::Obj(o) => {
                let known = o.len() % 2 == 0;
                let mut map = s.serialize_map(known.then_some(o.len()))?;
                for (k, v) in o {
                    map.serialize_entry(k, &JsNode(v, key, n))?;
                }
                visit().map_err(S::Error::custom)?;
                map.end()
            }
            J::Some(v) => s.serialize_some(&JsNode(v, key, n)),
            J::Variant(name, v) => s.serialize_newtype_variant("E", 0, name, &JsNode(v, key, n)),
        }
    }
}

/// A number that cannot be converted if the simulator says so
pub struct Amount(Key);

impl Amount {
    fn convert(&self) -> Option<u32> {
        ctx::fallible(Op::Disp(self.0 .0, u32::MAX)).ok()?;
        Some(self.0.num())
    }
}

impl num_traits::ToPrimitive for Amount {
    fn to_i64(&self) -> Option<i64> {
        self.convert().map(i64::from)
    }

    fn to_u64(&self) -> Option<u64> {
        self.convert().map(u64::from)
    }

    fn to_isize(&self) -> Option<isize> {
        self.convert().map(|n| n as isize)
    }

    fn to_f64(&self) -> Option<f64> {
        self.convert().map(f64::from)
    }
}

impl num_traits::NumCast for Amount {
    fn from<T: num_traits::ToPrimitive>(_: T) -> Option<Self> {
        None
    }
}

/// The custom filters of the templates
pub mod filters {
    use super::*;

    pub struct Eff<T>(u32, char, T);

    impl<T: fmt::Display> fmt::Display for Eff<T> {
        fn fmt(&self, f: &mut fmt::Formatter<'_>) -> fmt::Result {
            write!(f, "{}{}(", self.1, self.0)?;
            self.2.fmt(f)?;
            f.write_str(")")
        }
    }

    pub fn eff<T: fmt::Display, W>(v: T, _: W, site: u32) -> askama::Result<Eff<String>> {
        let occ = ctx::occ(site);
        ctx::fallible(Op::Eff(site, occ)).map_err(|e| askama::Error::Custom(Box::new(e)))?;
        let mut s = String::new();
        write!(s, "{v}")?;
        Ok(Eff(site, 'E', s))
    }

    pub fn efflazy<T: fmt::Display, W>(v: T, _: W, site: u32) -> askama::Result<Eff<T>> {
        let occ = ctx::occ(site);
        ctx::fallible(Op::Eff(site, occ)).map_err(|e| askama::Error::Custom(Box::new(e)))?;
        Ok(Eff(site, 'L', v))
    }
}
