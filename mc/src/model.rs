//! The boring reference model: sets of string triples per layer, parent links, a label map.
use std::collections::{BTreeMap, BTreeSet};
use tdb_succinct::{Datatype, TdbDataType, TypedDictEntry};
use terminus_store::layer::{ObjectType, ValueTriple};

#[derive(Clone, PartialEq, Eq, PartialOrd, Ord, Hash)]
pub enum Term {
    N(String),
    V(u8, Vec<u8>),
}
impl std::fmt::Debug for Term {
    fn fmt(&self, f: &mut std::fmt::Formatter) -> std::fmt::Result {
        match self {
            Term::N(s) => write!(f, "{}", s),
            Term::V(d, b) => write!(f, "V{}:{}", d, String::from_utf8_lossy(b).escape_debug()),
        }
    }
}
pub type T3 = (String, String, Term);
pub type TSet = BTreeSet<T3>;

fn entry(o: &str) -> TypedDictEntry {
    match o.as_bytes()[0] {
        b'"' => String::make_entry(&o[1..].to_string()),
        b'#' => u32::make_entry(&o[1..].parse::<u32>().unwrap()),
        b'%' => i64::make_entry(&o[1..].parse::<i64>().unwrap()),
        b'~' => f64::make_entry(&o[1..].parse::<f64>().unwrap()),
        b'!' => bool::make_entry(&(&o[1..] == "t")),
        b'$' => tdb_succinct::Decimal::make_entry(&tdb_succinct::Decimal::new(o[1..].to_string()).unwrap()),
        _ => unreachable!(),
    }
}
pub fn is_value_syntax(o: &str) -> bool {
    o.starts_with(|c| matches!(c, '"' | '#' | '%' | '~' | '!' | '$'))
}
/// `a` is a node, `"x` a string value, `#7` a u32, `%-3` an i64, `~1.5` a double, `!t` a boolean, `$1.2` a decimal
pub fn obj(o: &str) -> ObjectType {
    if is_value_syntax(o) {
        ObjectType::Value(entry(o))
    } else {
        ObjectType::Node(o.to_string())
    }
}
pub fn term(o: &ObjectType) -> Term {
    match o {
        ObjectType::Node(n) => Term::N(n.clone()),
        ObjectType::Value(v) => Term::V(v.datatype() as u8, v.to_bytes().to_vec()),
    }
}
pub fn t3(s: &str, p: &str, o: &str) -> T3 {
    (s.into(), p.into(), term(&obj(o)))
}
/// "s p o" with single spaces
pub fn t3s(x: &str) -> T3 {
    let v: Vec<&str> = x.split(' ').collect();
    t3(v[0], v[1], v[2])
}
pub fn dt_of(d: u8) -> Datatype {
    // enumerate instead of transmuting
    const ALL: &[Datatype] = &[
        Datatype::String, Datatype::UInt32, Datatype::Int32, Datatype::Float32, Datatype::UInt64,
        Datatype::Int64, Datatype::Float64, Datatype::Decimal, Datatype::BigInt, Datatype::Boolean,
        Datatype::LangString, Datatype::AnyURI, Datatype::Language,
    ];
    *ALL.iter().find(|x| **x as u8 == d).expect("datatype in table")
}
pub fn term_obj(t: &Term) -> ObjectType {
    match t {
        Term::N(n) => ObjectType::Node(n.clone()),
        Term::V(d, b) => ObjectType::Value(TypedDictEntry::new(
            dt_of(*d),
            tdb_succinct::SizedDictEntry::Single(bytes::Bytes::from(b.clone())),
        )),
    }
}
pub fn vt(t: &T3) -> ValueTriple {
    ValueTriple { subject: t.0.clone(), predicate: t.1.clone(), object: term_obj(&t.2) }
}
pub fn from_vt(t: &ValueTriple) -> T3 {
    (t.subject.clone(), t.predicate.clone(), term(&t.object))
}

#[derive(Clone, Debug, Default, PartialEq, Eq)]
pub struct MLayer {
    pub parent: Option<usize>,
    pub triples: TSet,
    pub adds: TSet,
    pub rems: TSet,
}
#[derive(Clone, Debug, Default)]
pub struct Model {
    pub layers: Vec<MLayer>,
    pub labels: BTreeMap<String, (Option<usize>, u64)>,
}
impl Model {
    pub fn content(&self, l: Option<usize>) -> TSet {
        l.map(|l| self.layers[l].triples.clone()).unwrap_or_default()
    }
    /// A commit with requested additions and removals: a triple in both lists changes nothing.
    pub fn commit<'a>(
        &mut self,
        parent: Option<usize>,
        adds: impl IntoIterator<Item = &'a T3>,
        rems: impl IntoIterator<Item = &'a T3>,
    ) -> usize {
        let base = self.content(parent);
        let a: TSet = adds.into_iter().cloned().collect();
        let r: TSet = rems.into_iter().cloned().collect();
        let ea: TSet = a.iter().filter(|t| !r.contains(*t) && !base.contains(*t)).cloned().collect();
        let er: TSet = r.iter().filter(|t| !a.contains(*t) && base.contains(*t)).cloned().collect();
        let mut triples = base;
        for t in &ea {
            triples.insert(t.clone());
        }
        for t in &er {
            triples.remove(t);
        }
        self.layers.push(MLayer { parent, triples, adds: ea, rems: er });
        self.layers.len() - 1
    }
    pub fn push_content(&mut self, parent: Option<usize>, triples: TSet) -> usize {
        let base = self.content(parent);
        let adds = triples.difference(&base).cloned().collect();
        let rems = base.difference(&triples).cloned().collect();
        self.layers.push(MLayer { parent, triples, adds, rems });
        self.layers.len() - 1
    }
    /// ancestors from base up to and including l
    pub fn stack(&self, l: usize) -> Vec<usize> {
        let mut v = vec![l];
        let mut c = l;
        while let Some(p) = self.layers[c].parent {
            v.push(p);
            c = p;
        }
        v.reverse();
        v
    }
    pub fn is_ancestor_or_self(&self, desc: usize, anc: usize) -> bool {
        self.stack(desc).contains(&anc)
    }
}
