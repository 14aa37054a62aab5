//! Small tree builder for the demonstrations.
#![allow(dead_code)]
pub use cinereus::indextree::NodeId;
pub use cinereus::*;
use std::collections::hash_map::DefaultHasher;
use std::collections::HashSet;
use std::hash::{Hash, Hasher};

#[derive(Clone, Debug, PartialEq, Eq, Hash)]
pub struct P(pub Vec<(&'static str, i32)>);
impl Properties for P {
    type Key = &'static str;
    type Value = i32;
    fn similarity(&self, o: &Self) -> f64 {
        if self.0.is_empty() && o.0.is_empty() {
            return 1.0;
        }
        let c = self.0.iter().filter(|x| o.0.contains(x)).count();
        (2 * c) as f64 / (self.0.len() + o.0.len()) as f64
    }
    fn diff(&self, o: &Self) -> Vec<PropertyInFinalState<&'static str, i32>> {
        o.0.iter()
            .map(|&(key, v)| PropertyInFinalState {
                key,
                value: if self.0.contains(&(key, v)) { PropValue::Same } else { PropValue::Different(v) },
            })
            .collect()
    }
    fn is_empty(&self) -> bool {
        self.0.is_empty()
    }
    fn len(&self) -> usize {
        self.0.len()
    }
}
pub type Ty = SimpleTypes<&'static str, P, &'static str>;

#[derive(Clone)]
pub struct S {
    pub kind: &'static str,
    pub text: Option<&'static str>,
    pub props: Vec<(&'static str, i32)>,
    pub opaque: bool,
    pub ch: Vec<S>,
}
pub fn n(kind: &'static str, ch: Vec<S>) -> S {
    S { kind, text: None, props: vec![], opaque: false, ch }
}
impl S {
    pub fn text(mut self, t: &'static str) -> S {
        self.text = Some(t);
        self
    }
    pub fn p(mut self, k: &'static str, v: i32) -> S {
        self.props.push((k, v));
        self
    }
    pub fn opaque(mut self) -> S {
        self.opaque = true;
        self
    }
    pub fn hash(&self) -> u64 {
        let mut h = DefaultHasher::new();
        (self.kind, self.text, &self.props, self.opaque).hash(&mut h);
        for c in &self.ch {
            c.hash().hash(&mut h);
        }
        self.ch.len().hash(&mut h);
        h.finish()
    }
}
/// The library's tree, with some nodes marked opaque. `ids` is in pre-order.
pub struct T {
    pub t: Tree<Ty>,
    pub op: HashSet<NodeId>,
    pub ids: Vec<NodeId>,
}
pub fn build(s: &S) -> T {
    let d = |s: &S| NodeData { hash: NodeHash(s.hash()), kind: s.kind, properties: P(s.props.clone()), text: s.text };
    let t = Tree::new(d(s));
    let mut r = T { ids: vec![t.root], op: HashSet::new(), t };
    fn go(r: &mut T, id: NodeId, s: &S, d: &dyn Fn(&S) -> NodeData<Ty>) {
        if s.opaque {
            r.op.insert(id);
        }
        for c in &s.ch {
            let x = r.t.add_child(id, d(c));
            r.ids.push(x);
            go(r, x, c, d);
        }
    }
    let root = r.t.root;
    go(&mut r, root, s, &d);
    r
}
impl DiffTree for T {
    type Types = Ty;
    fn root(&self) -> NodeId {
        self.t.root
    }
    fn node_count(&self) -> usize {
        self.ids.len()
    }
    fn hash(&self, id: NodeId) -> NodeHash {
        DiffTree::hash(&self.t, id)
    }
    fn kind(&self, id: NodeId) -> &&'static str {
        DiffTree::kind(&self.t, id)
    }
    fn properties(&self, id: NodeId) -> &P {
        DiffTree::properties(&self.t, id)
    }
    fn text(&self, id: NodeId) -> Option<&&'static str> {
        DiffTree::text(&self.t, id)
    }
    fn parent(&self, id: NodeId) -> Option<NodeId> {
        DiffTree::parent(&self.t, id)
    }
    fn children(&self, id: NodeId) -> impl Iterator<Item = NodeId> + '_ {
        DiffTree::children(&self.t, id)
    }
    fn height(&self, id: NodeId) -> usize {
        DiffTree::height(&self.t, id)
    }
    fn iter(&self) -> impl Iterator<Item = NodeId> + '_ {
        DiffTree::iter(&self.t)
    }
    fn post_order(&self) -> impl Iterator<Item = NodeId> + '_ {
        DiffTree::post_order(&self.t)
    }
    fn descendants(&self, id: NodeId) -> impl Iterator<Item = NodeId> + '_ {
        DiffTree::descendants(&self.t, id)
    }
    fn is_opaque(&self, id: NodeId) -> bool {
        self.op.contains(&id)
    }
}
