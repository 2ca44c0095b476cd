//! Documents as infosets
#[derive(Clone, Debug, PartialEq, Eq, Hash)]
pub struct Att {
    pub ns: String,
    pub local: String,
    pub value: String,
}
#[derive(Clone, Debug, PartialEq, Eq, Hash)]
pub struct Elem {
    pub ns: String,
    pub local: String,
    pub atts: Vec<Att>,
    pub children: Vec<Node>,
}
#[derive(Clone, Debug, PartialEq, Eq, Hash)]
pub enum Node {
    Elem(Elem),
    Text(String),
}

impl Elem {
    /// Merge adjacent text, drop empty text
    pub fn normalize(&mut self) {
        let mut out: Vec<Node> = vec![];
        for n in self.children.drain(..) {
            match n {
                Node::Text(t) => {
                    if t.is_empty() {
                        continue;
                    }
                    if let Some(Node::Text(p)) = out.last_mut() {
                        p.push_str(&t);
                    } else {
                        out.push(Node::Text(t));
                    }
                }
                Node::Elem(mut e) => {
                    e.normalize();
                    out.push(Node::Elem(e));
                }
            }
        }
        self.children = out;
    }
    pub fn count(&self) -> usize {
        1 + self.atts.len()
            + self
                .children
                .iter()
                .map(|c| match c {
                    Node::Elem(e) => e.count(),
                    Node::Text(_) => 1,
                })
                .sum::<usize>()
    }
    pub fn depth(&self) -> usize {
        1 + self
            .children
            .iter()
            .map(|c| match c {
                Node::Elem(e) => e.depth(),
                Node::Text(_) => 0,
            })
            .max()
            .unwrap_or(0)
    }
    /// All elements, in document order, as paths of child indices
    pub fn paths(&self) -> Vec<Vec<usize>> {
        fn go(e: &Elem, cur: &mut Vec<usize>, out: &mut Vec<Vec<usize>>) {
            out.push(cur.clone());
            for (i, c) in e.children.iter().enumerate() {
                if let Node::Elem(e) = c {
                    cur.push(i);
                    go(e, cur, out);
                    cur.pop();
                }
            }
        }
        let mut out = vec![];
        go(self, &mut vec![], &mut out);
        out
    }
    pub fn at_mut(&mut self, path: &[usize]) -> &mut Elem {
        let mut e = self;
        for i in path {
            e = match &mut e.children[*i] {
                Node::Elem(e) => e,
                _ => unreachable!(),
            }
        }
        e
    }
    pub fn at(&self, path: &[usize]) -> &Elem {
        let mut e = self;
        for i in path {
            e = match &e.children[*i] {
                Node::Elem(e) => e,
                _ => unreachable!(),
            }
        }
        e
    }
}
