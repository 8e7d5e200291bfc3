//! Choices and conditions as decision diagrams over their atomic conditions,
//! ordered: nested choices and Boolean combinations have one form, however they
//! are arranged.
use crate::canon::*;
use crate::fx::HashMap;
use crate::term::*;

const LEAF: u32 = u32::MAX;
const MAX_NODES: usize = 3000;

/// Kids by value of the condition: from each start on.  A condition is a bit,
/// or the argument of a table.
type Node = (u32, Vec<(i32, u32)>);

#[derive(Default)]
pub struct Tree {
  nodes: Vec<Node>,
  uniq: HashMap<Node, u32>,
  of: HashMap<T, Option<u32>>,
  term: HashMap<u32, T>,
  height: HashMap<T, u32>,
}
impl Tree {
  fn node(&mut self, v: u32, mut k: Vec<(i32, u32)>) -> u32 {
    if v != LEAF {
      k.dedup_by(|b, a| a.1 == b.1);
      if k.len() == 1 {
        return k[0].1;
      }
    }
    let k = (v, k);
    if let Some(&i) = self.uniq.get(&k) {
      return i;
    }
    self.nodes.push(k.clone());
    let i = self.nodes.len() as u32 - 1;
    self.uniq.insert(k, i);
    i
  }
  /// conditions on the outcome of other choices come first
  fn rank(&self, v: u32) -> (u32, u32) {
    if v == LEAF {
      (LEAF, 0)
    } else {
      (LEAF - 1 - self.height.get(&v).copied().unwrap_or(0), v)
    }
  }
  fn leaf(&mut self, t: T) -> u32 {
    self.node(LEAF, vec![(0, t)])
  }
  fn is_leaf(&self, n: u32) -> Option<T> {
    let k = &self.nodes[n as usize];
    (k.0 == LEAF).then(|| k.1[0].1)
  }
  fn cof(&self, n: u32, v: u32) -> Vec<(i32, u32)> {
    let k = &self.nodes[n as usize];
    if k.0 == v {
      k.1.clone()
    } else {
      vec![(i32::MIN, n)]
    }
  }
  /// if c { a } else { b }
  fn choose(&mut self, cx: &Ctx, c: u32, a: u32, b: u32, memo: &mut HashMap<(u32, u32, u32), u32>) -> Option<u32> {
    if a == b {
      return Some(a);
    }
    if let Some(t) = self.is_leaf(c) {
      return Some(if cx.cval(t)? != 0 { a } else { b });
    }
    if let Some(&r) = memo.get(&(c, a, b)) {
      return Some(r);
    }
    if memo.len() > MAX_NODES {
      return None;
    }
    let v = [c, a, b].iter().map(|&x| self.nodes[x as usize].0).min_by_key(|&v| self.rank(v)).unwrap();
    let k = [self.cof(c, v), self.cof(a, v), self.cof(b, v)];
    let mut i = [0usize; 3];
    let mut out = vec![];
    let mut at = i32::MIN;
    loop {
      let r = self.choose(cx, k[0][i[0]].1, k[1][i[1]].1, k[2][i[2]].1, memo)?;
      out.push((at, r));
      let Some(next) = (0..3).filter_map(|j| k[j].get(i[j] + 1).map(|x| x.0)).min() else { break };
      at = next;
      for j in 0..3 {
        if k[j].get(i[j] + 1).map(|x| x.0) == Some(at) {
          i[j] += 1;
        }
      }
    }
    let r = self.node(v, out);
    memo.insert((c, a, b), r);
    Some(r)
  }
  fn map(&mut self, n: u32, f: &mut dyn FnMut(T) -> T, memo: &mut HashMap<u32, u32>) -> u32 {
    if let Some(&r) = memo.get(&n) {
      return r;
    }
    let r = if let Some(t) = self.is_leaf(n) {
      let t = f(t);
      self.leaf(t)
    } else {
      let (v, k) = self.nodes[n as usize].clone();
      let k = k.into_iter().map(|(s, x)| (s, self.map(x, f, memo))).collect();
      self.node(v, k)
    };
    memo.insert(n, r);
    r
  }
  fn leaves(&self, n: u32, seen: &mut Vec<u32>, out: &mut Vec<T>) {
    if seen.contains(&n) || seen.len() > 200 {
      return;
    }
    seen.push(n);
    if let Some(t) = self.is_leaf(n) {
      out.push(t);
    } else {
      for &(_, x) in &self.nodes[n as usize].1 {
        self.leaves(x, seen, out);
      }
    }
  }
}

impl Canon {
  fn diagram(&mut self, cx: &mut Ctx, t: T) -> Option<u32> {
    if let Some(&r) = self.tree.of.get(&t) {
      return r;
    }
    let n = cx.n(t);
    let (tr, fl) = (cx.tru(), cx.fls());
    let mut memo = HashMap::default();
    let r = 'r: {
      if cx.cval(t).is_some() {
        break 'r Some(self.tree.leaf(t));
      }
      if n.w > 1 && n.op != Op::Ite {
        break 'r Some(self.tree.leaf(t));
      }
      let (lt, lf) = (self.tree.leaf(tr), self.tree.leaf(fl));
      match n.op {
        Op::Ite | Op::And | Op::Or | Op::Xor => {
          let (Some(a), Some(b)) = (self.diagram(cx, n.a), self.diagram(cx, n.b)) else { break 'r None };
          match n.op {
            Op::Ite => {
              let Some(c) = self.diagram(cx, n.c) else { break 'r None };
              self.tree.choose(cx, a, b, c, &mut memo)
            }
            Op::And => self.tree.choose(cx, a, b, lf, &mut memo),
            Op::Or => self.tree.choose(cx, a, lt, b, &mut memo),
            _ => {
              let Some(nb) = self.tree.choose(cx, b, lf, lt, &mut memo) else { break 'r None };
              memo.clear();
              self.tree.choose(cx, a, nb, b, &mut memo)
            }
          }
        }
        Op::Extract if cx.n(n.a).op == Op::Tab => {
          let m = cx.n(n.a);
          self.height(cx, m.a);
          let tab = &cx.tabs[m.b as usize];
          let k = tab.v.iter().enumerate().map(|(i, &x)| (if i == 0 { i32::MIN } else { (tab.lo + i as i128) as i32 }, if x >> n.b & 1 != 0 { lt } else { lf }));
          let k = k.collect();
          Some(self.tree.node(m.a, k))
        }
        _ => {
          self.height(cx, t);
          Some(self.tree.node(t, vec![(i32::MIN, lf), (1, lt)]))
        }
      }
    };
    self.tree.of.insert(t, r);
    r
  }
  fn undiagram(&mut self, cx: &mut Ctx, n: u32) -> T {
    if let Some(&t) = self.tree.term.get(&n) {
      return t;
    }
    let t = if let Some(t) = self.tree.is_leaf(n) {
      t
    } else {
      let (v, k) = self.tree.nodes[n as usize].clone();
      let t = if cx.w(v) == 1 {
        let lo = self.undiagram(cx, k[0].1);
        let hi = self.undiagram(cx, k[1].1);
        cx.ite(v, hi, lo)
      } else {
        // one choice per kid, the first kid last
        let mut kids: Vec<u32> = vec![];
        for x in &k {
          if !kids.contains(&x.1) {
            kids.push(x.1);
          }
        }
        let l = self.lin(cx, v);
        let (lo, hi) = self.range(cx, &l, 32).unwrap();
        let mut r = self.undiagram(cx, kids[0]);
        for &x in &kids[1..] {
          let val: Vec<i32> = (lo..=hi).map(|d| -((k.iter().rev().find(|p| p.0 as i128 <= d).unwrap().1 == x) as i32)).collect();
          let id = cx.table(lo, val);
          let tab = cx.mk_tab(v, id);
          let c = cx.extract(tab, 0, 1);
          let y = self.undiagram(cx, x);
          r = cx.ite(c, y, r);
        }
        r
      };
      self.tree.of.insert(t, Some(n));
      t
    };
    self.tree.term.insert(n, t);
    t
  }
  /// how many choices a term nests
  fn height(&mut self, cx: &Ctx, t: T) {
    let mut stack = vec![t];
    while let Some(&x) = stack.last() {
      if self.tree.height.contains_key(&x) {
        stack.pop();
        continue;
      }
      let n = cx.n(x);
      let k: Vec<T> = match n.op {
        Op::Const | Op::Var => vec![],
        Op::Extract | Op::Zext | Op::Sext | Op::Ffn | Op::Tab => vec![n.a],
        Op::Ite => vec![n.a, n.b, n.c],
        _ => vec![n.a, n.b],
      };
      let mut h = 0;
      let mut ready = true;
      for y in k {
        match self.tree.height.get(&y) {
          Some(&z) => h = h.max(z),
          None => {
            stack.push(y);
            ready = false;
          }
        }
      }
      if ready {
        self.tree.height.insert(x, h + (n.op == Op::Ite) as u32);
        stack.pop();
      }
    }
  }
  /// the one form of a choice or Boolean combination
  pub fn arrange(&mut self, cx: &mut Ctx, t: T) -> T {
    let n = cx.n(t);
    let go = match n.op {
      Op::Ite => true,
      Op::And | Op::Or | Op::Xor => n.w == 1,
      _ => false,
    };
    if !go {
      return t;
    }
    match self.diagram(cx, t) {
      Some(d) => self.undiagram(cx, d),
      None => t,
    }
  }
  /// bits of a choice between concatenations, extensions or constants
  pub fn split(&mut self, cx: &mut Ctx, t: T, lo: u16, w: u16) -> Option<T> {
    if cx.n(t).op != Op::Ite {
      return None;
    }
    let d = self.diagram(cx, t)?;
    let mut v = vec![];
    self.tree.leaves(d, &mut vec![], &mut v);
    if lo > 0 && !v.iter().all(|&x| matches!(cx.n(x).op, Op::Const | Op::Concat | Op::Add | Op::Zext | Op::Sext | Op::Extract | Op::Var)) {
      return None;
    }
    let mut tree = std::mem::take(&mut self.tree);
    let r = tree.map(d, &mut |x| cx.extract(x, lo, w), &mut HashMap::default());
    self.tree = tree;
    Some(self.undiagram(cx, r))
  }
}
