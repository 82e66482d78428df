//! Generated ONNX models: a list of executed nodes, their concrete values, and the protobuf encoding.
use crate::t::*;
use jstprove_onnx as ox;
use pbt::Src;
use prost::Message;

#[derive(Clone, Copy, Debug, PartialEq, Eq)]
pub enum Kind { In, Init { listed: bool }, Out }

#[derive(Clone, Debug)]
pub struct Val { pub name: String, pub t: T, pub kind: Kind, /// value does not depend on runtime data
    pub konst: bool }

#[derive(Default, Clone, Debug)]
pub struct Prog { pub vals: Vec<Val>, pub nodes: Vec<Node>, /// uses a construct that may be refused (but never misjudged)
    pub ext: bool, /// magnitude of constants
    pub cmax: f64, /// integer operands are computed by constant subgraphs
    pub chain: bool, pub depth: u32, /// declare every input as a vector and reshape it
    pub flat: bool }

pub const MAX_ELEMS: usize = 3000;

impl Prog {
    pub fn new() -> Prog { Prog { cmax: 3.0, ..Prog::default() } }
    fn push(&mut self, s: &mut Src, t: T, kind: Kind, konst: bool) -> usize {
        let k = self.vals.len();
        let name = match s.draw(11) { 0 => format!("/layer/Ünï.{k}"), 1 => format!("{k}"), _ => format!("v{k}") };
        self.vals.push(Val { name, t, kind, konst });
        k
    }
    pub fn input(&mut self, s: &mut Src, shape: Vec<usize>, dt: Dt) -> usize {
        let t = fill(s, shape, dt, 1.0);
        if self.flat && t.rank() > 1 {
            let sh: Vec<i64> = t.shape.iter().map(|d| *d as i64).collect();
            let t2 = t.clone();
            let v = self.push(s, T::new(vec![t.len()], t.v, t.dt), Kind::In, false);
            let c = self.konst(s, T::ints(&sh));
            let o = self.push(s, t2, Kind::Out, false);
            self.nodes.push(Node { op: "Reshape", ins: vec![Some(v), Some(c)], attrs: vec![], outs: vec![o], omit: vec![false] });
            return o;
        }
        self.push(s, t, Kind::In, false)
    }
    pub fn konst(&mut self, s: &mut Src, t: T) -> usize {
        match s.weighted(&[4, 2, 1]) {
            1 => {
                let r = self.push(s, t.clone(), Kind::Out, true);
                self.nodes.push(Node { op: "Constant", ins: vec![], attrs: vec![("value", A::T(t))], outs: vec![r], omit: vec![false] });
                r
            }
            k => self.push(s, t, Kind::Init { listed: k == 2 }, true),
        }
    }
    pub fn init(&mut self, s: &mut Src, t: T) -> usize { self.push(s, t, Kind::Init { listed: false }, true) }
    pub fn fconst(&mut self, s: &mut Src, shape: Vec<usize>) -> usize {
        let m = self.cmax;
        let t = fill(s, shape, Dt::F, m);
        self.konst(s, t)
    }
    pub fn iconst(&mut self, s: &mut Src, v: &[i64]) -> usize {
        let mut t = T::ints(v);
        if self.chain { if let Some(k) = self.chained(s, v) { return k; } }
        if s.chance(1, 5) && v.iter().all(|x| i32::try_from(*x).is_ok()) { t.dt = Dt::I32; }
        self.konst(s, t)
    }
    /// a 1-D integer tensor equal to `v`, computed by a constant subgraph
    pub fn chained(&mut self, s: &mut Src, v: &[i64]) -> Option<usize> {
        if self.depth >= 4 { return None; }
        self.depth += 1;
        let r = self.chained_(s, v);
        self.depth -= 1;
        assert!(r.is_none_or(|k| self.vals[k].t.iv() == v && self.vals[k].t.rank() == 1), "generator: {:?} for {v:?}: {}", r.map(|k| self.vals[k].t.clone()), self.desc());
        r
    }
    fn chained_(&mut self, s: &mut Src, v: &[i64]) -> Option<usize> {
        let n = v.len();
        let small = v.iter().all(|x| x.unsigned_abs() < 1 << 20);
        match s.draw(11) {
            0 => None,
            10 | 11 if n > 0 => { let f: Vec<f64> = v.iter().map(|x| *x as f64).collect(); if small { self.picked(s, &f, Dt::I64) } else { None } }
            // Shape of an input, of a part of its shape, or of a computed value
            1 | 2 if v.iter().all(|d| (1..400).contains(d)) && v.iter().product::<i64>() <= 400 && n <= 5 => {
                let k = usize::from(s.draw(2) == 0); let pre = dims(s, k, 3);
                let k = usize::from(s.draw(2) == 0); let post = dims(s, k, 3);
                let mut sh = pre.clone();
                sh.extend(v.iter().map(|d| *d as usize));
                sh.extend(&post);
                let r = sh.len() as i64;
                let x = self.input(s, sh, Dt::F);
                let x = match s.draw(3) { 0 => self.apply(s, "Relu", vec![Some(x)], vec![], 1)?[0], 1 => { let one = self.konst(s, T::scalar(1.0, Dt::F)); self.apply(s, "Add", vec![Some(one), Some(x)], vec![], 1)?[0] } _ => x };
                let mut at = vec![];
                if !pre.is_empty() || s.chance(1, 4) { at.push(("start", A::I(if pre.len() as i64 == r || s.bool() { pre.len() as i64 } else { pre.len() as i64 - r }))); }
                if !post.is_empty() { at.push(("end", A::I(if s.bool() { r - post.len() as i64 } else { -(post.len() as i64) }))); } else if s.chance(1, 4) { at.push(("end", A::I(r + 3))); }
                Some(self.apply(s, "Shape", vec![Some(x)], at, 1)?[0])
            }
            // Gather out of a permuted, padded source
            3 => {
                let extra = s.usize_in(0, 2);
                let m = n + extra;
                if m == 0 { return None; }
                let perm = s.perm(m);
                let mut src = vec![0i64; m];
                for (k, q) in perm.iter().enumerate() { src[*q] = if k < n { v[k] } else { s.range(1, 4) }; }
                let a = self.sub(s, &src);
                let ix: Vec<i64> = perm[..n].iter().map(|q| if s.bool() { *q as i64 } else { *q as i64 - m as i64 }).collect();
                let i = self.konst(s, T::ints(&ix));
                let op = if s.chance(1, 3) { "GatherElements" } else { "Gather" };
                let at = if op == "GatherElements" || s.bool() { vec![("axis", A::I(if s.bool() { 0 } else { -1 }))] } else { vec![] };
                Some(self.apply(s, op, vec![Some(a), Some(i)], at, 1)?[0])
            }
            // Slice (with a step) of a longer source
            4 if n > 0 => {
                let step = s.range(1, 3);
                let pre = s.usize_in(0, 2);
                let post = s.usize_in(0, 2);
                let mut src: Vec<i64> = (0..pre).map(|_| s.range(1, 4)).collect();
                for (k, x) in v.iter().enumerate() { src.push(*x); if k + 1 < n { for _ in 1..step { src.push(s.range(1, 4)); } } }
                let end = src.len() as i64;
                for _ in 0..post { src.push(s.range(1, 4)); }
                let m = src.len() as i64;
                let a = self.sub(s, &src);
                let st = if s.bool() { pre as i64 } else { pre as i64 - m };
                let en = if post == 0 && s.bool() { i64::MAX } else if end < m && s.bool() { end - m } else { end };
                let c1 = self.konst(s, T::ints(&[st])); let c2 = self.konst(s, T::ints(&[en]));
                let mut ins = vec![Some(a), Some(c1), Some(c2)];
                if step != 1 || s.bool() { let z = i64::from(s.bool()); let c = self.konst(s, T::ints(&[-z])); ins.push(Some(c)); if step != 1 || s.bool() { let c = self.konst(s, T::ints(&[step])); ins.push(Some(c)); } }
                Some(self.apply(s, "Slice", ins, vec![], 1)?[0])
            }
            // Concat of parts, single elements possibly as unsqueezed scalars
            5 | 6 if n > 0 => {
                let mut ins = vec![];
                let mut k = 0;
                while k < n {
                    let l = s.usize_in(1, n - k);
                    let part = &v[k..k + l];
                    k += l;
                    let x = if l == 1 && s.bool() {
                        let m = s.usize_in(1, 3);
                        let mut src: Vec<i64> = (0..m).map(|_| s.range(1, 4)).collect();
                        let at = s.below(m);
                        src[at] = part[0];
                        let a = self.sub(s, &src);
                        let i = self.konst(s, T::scalar(at as f64, Dt::I64));
                        let g = self.apply(s, "Gather", vec![Some(a), Some(i)], vec![("axis", A::I(0))], 1)?[0];
                        let g = if s.chance(1, 3) { let to = s.pickc(&[6i64, 7]); if to == 6 && !small { g } else { let c = self.apply(s, "Cast", vec![Some(g)], vec![("to", A::I(to))], 1)?[0]; self.apply(s, "Cast", vec![Some(c)], vec![("to", A::I(7))], 1)?[0] } } else { g };
                        let z = -i64::from(s.bool()); let z = self.konst(s, T::ints(&[z]));
                        self.apply(s, "Unsqueeze", vec![Some(g), Some(z)], vec![], 1)?[0]
                    } else { self.sub(s, part) };
                    ins.push(Some(x));
                }
                let at = vec![("axis", A::I(if s.bool() { 0 } else { -1 }))];
                Some(self.apply(s, "Concat", ins, at, 1)?[0])
            }
            7 if small => {
                if s.bool() {
                    // truncation of floating-point values
                    let f: Vec<f64> = v.iter().map(|x| *x as f64 + if *x > 0 { 0.75 } else if *x < 0 { -0.75 } else { 0.0 }).collect();
                    let a = self.fsub(s, &f);
                    return Some(self.apply(s, "Cast", vec![Some(a)], vec![("to", A::I(7))], 1)?[0]);
                }
                let a = self.sub(s, v);
                let to = s.pickc(&[6i64, 7, 1, 11]);
                let a = self.apply(s, "Cast", vec![Some(a)], vec![("to", A::I(to))], 1)?[0];
                Some(self.apply(s, "Cast", vec![Some(a)], vec![("to", A::I(7))], 1)?[0])
            }
            8 if n > 0 => {
                let a = self.sub(s, v);
                let f = (1..=n).rev().find(|f| n % f == 0 && *f < n).unwrap_or(1);
                let c = self.konst(s, T::ints(&[f as i64, -1]));
                let mut a = self.apply(s, "Reshape", vec![Some(a), Some(c)], vec![], 1)?[0];
                if s.bool() {
                    let to: &[i64] = s.pickc(&[&[0, -1, 1][..], &[0, 0], &[0, 1, -1], &[-1, 0], &[1, -1, 1], &[0, 0, -1]]);
                    let c = self.konst(s, T::ints(to));
                    a = self.apply(s, "Reshape", vec![Some(a), Some(c)], vec![], 1)?[0];
                }
                let c = self.konst(s, T::ints(&[-1]));
                Some(self.apply(s, "Reshape", vec![Some(a), Some(c)], vec![], 1)?[0])
            }
            9 => {
                let a = self.sub(s, v);
                let k = s.usize_in(1, 3);
                let r = 1 + k;
                let axs: Vec<usize> = { let mut q = s.perm(r); q.truncate(k); q };
                let u: Vec<i64> = axs.iter().map(|x| if s.bool() { *x as i64 } else { *x as i64 - r as i64 }).collect();
                let attr = s.chance(1, 4);
                let (ins, at) = if attr { (vec![Some(a)], vec![("axes", A::Is(u))]) } else { let c = self.konst(s, T::ints(&u)); (vec![Some(a), Some(c)], vec![]) };
                let a = self.apply(s, "Unsqueeze", ins, at, 1)?[0];
                let u: Vec<i64> = { let q = s.perm(k); q.iter().map(|i| if s.bool() { axs[*i] as i64 } else { axs[*i] as i64 - r as i64 }).collect() };
                let (ins, at) = if n != 1 && s.chance(1, 3) { (vec![Some(a)], vec![]) } else if s.chance(1, 4) { (vec![Some(a)], vec![("axes", A::Is(u))]) } else { let c = self.konst(s, T::ints(&u)); (vec![Some(a), Some(c)], vec![]) };
                Some(self.apply(s, "Squeeze", ins, at, 1)?[0])
            }
            _ => None,
        }
    }
    /// a 1-D float tensor equal to `v`, possibly computed by a constant subgraph
    pub fn fsub(&mut self, s: &mut Src, v: &[f64]) -> usize {
        if self.chain && self.depth < 4 && !v.is_empty() {
            self.depth += 1;
            let r = self.fchained(s, v);
            self.depth -= 1;
            if let Some(k) = r { assert!(self.vals[k].t.v == v && self.vals[k].t.rank() == 1); return k; }
        }
        self.konst(s, T::new(vec![v.len()], v.to_vec(), Dt::F))
    }
    fn fchained(&mut self, s: &mut Src, v: &[f64]) -> Option<usize> {
        let n = v.len();
        match s.draw(6) {
            5 | 6 => self.picked(s, v, Dt::F),
            1 => {
                let m = n + s.usize_in(0, 2);
                let perm = s.perm(m);
                let mut src = vec![0.5; m];
                for (k, q) in perm.iter().enumerate() { if k < n { src[*q] = v[k]; } }
                let two = m % 2 == 0 && n == m && s.bool();
                if two {
                    // rank-2 gather of whole rows
                    let a = self.konst(s, T::new(vec![2, m / 2], v[m / 2..].iter().chain(&v[..m / 2]).copied().collect(), Dt::F));
                    let i = self.konst(s, T::ints(&[1, 0]));
                    let g = self.apply(s, "Gather", vec![Some(a), Some(i)], vec![("axis", A::I(0))], 1)?[0];
                    let c = self.konst(s, T::ints(&[-1]));
                    return Some(self.apply(s, "Reshape", vec![Some(g), Some(c)], vec![], 1)?[0]);
                }
                let a = self.fsub(s, &src);
                let ix: Vec<i64> = perm[..n].iter().map(|q| *q as i64).collect();
                let i = self.konst(s, T::ints(&ix));
                let op = if s.bool() { "GatherElements" } else { "Gather" };
                Some(self.apply(s, op, vec![Some(a), Some(i)], vec![("axis", A::I(0))], 1)?[0])
            }
            2 => {
                let pre = s.usize_in(0, 2);
                let mut src = vec![0.5; pre];
                src.extend(v); src.push(0.5);
                let a = self.fsub(s, &src);
                let c1 = self.konst(s, T::ints(&[pre as i64])); let c2 = self.konst(s, T::ints(&[-1]));
                Some(self.apply(s, "Slice", vec![Some(a), Some(c1), Some(c2)], vec![], 1)?[0])
            }
            3 => { let a = self.fsub(s, v); let to = s.pickc(&[1i64, 11]); let a = self.apply(s, "Cast", vec![Some(a)], vec![("to", A::I(to))], 1)?[0]; Some(self.apply(s, "Cast", vec![Some(a)], vec![("to", A::I(1))], 1)?[0]) }
            4 if v.iter().all(|x| x.fract() == 0.0 && x.abs() < 1e6) => { let iv: Vec<i64> = v.iter().map(|x| *x as i64).collect(); let a = self.sub(s, &iv); Some(self.apply(s, "Cast", vec![Some(a)], vec![("to", A::I(1))], 1)?[0]) }
            _ => None,
        }
    }
    /// a 1-D tensor equal to `v`, picked out of a constant of rank 1 to 4 by Gather or GatherElements along any axis
    fn picked(&mut self, s: &mut Src, v: &[f64], dt: Dt) -> Option<usize> {
        // the picked tensor's shape
        let mut sh = vec![v.len()];
        for _ in 0..s.usize_in(0, 3) {
            let k = s.below(sh.len());
            let fs: Vec<usize> = (1..=sh[k]).filter(|f| sh[k] % f == 0).collect();
            let f = s.pickc(&fs);
            sh[k] /= f;
            sh.insert(k, f);
        }
        let r = sh.len();
        let elements = s.bool();
        // Gather replaces one dimension of its data by those of the indices
        let wide = if elements { 1 } else { s.usize_in(0, 2.min(r)) };
        if wide == 0 && r == 4 { return None; }
        let a = if wide == 0 { s.below(r + 1) } else { s.below(r + 1 - wide) };
        let span: usize = sh[a..a + wide].iter().product();
        let extra = s.usize_in(0, 2);
        let m = span + extra;
        let mut dsh = sh[..a].to_vec(); dsh.push(m); dsh.extend(&sh[a + wide..]);
        let outer: usize = sh[..a].iter().product();
        let inner: usize = sh[a + wide..].iter().product();
        let mut rng = pbt::SplitMix(s.draw(1 << 16));
        let mut data: Vec<f64> = (0..outer * m * inner).map(|_| (1 + rng.next() % 4) as f64).collect();
        let mut ix = vec![0f64; if elements { v.len() } else { span }];
        let neg = s.bool();
        let shared = s.perm(m);
        for o in 0..outer { for i in 0..inner {
            let perm = if elements { let mut q: Vec<usize> = (0..m).collect(); for k in (1..m).rev() { q.swap(k, rng.next() as usize % (k + 1)) } q } else { shared.clone() };
            for j in 0..span {
                let at = (o * span + j) * inner + i;
                data[(o * m + perm[j]) * inner + i] = v[at];
                let e = perm[j] as f64 - if neg && rng.next() % 2 == 0 { m as f64 } else { 0.0 };
                if elements { ix[at] = e } else if o == 0 && i == 0 { ix[j] = e }
            }
        } }
        let d = self.konst(s, T::new(dsh.clone(), data, dt));
        let ish = if elements { sh.clone() } else { sh[a..a + wide].to_vec() };
        let i = self.konst(s, T::new(ish, ix, Dt::I64));
        let at = if a == 0 && s.bool() { vec![] } else { vec![("axis", A::I(if s.bool() { a as i64 } else { a as i64 - dsh.len() as i64 }))] };
        let g = self.apply(s, if elements { "GatherElements" } else { "Gather" }, vec![Some(d), Some(i)], at, 1)?[0];
        if r == 1 { return Some(g); }
        // back to one dimension
        if s.bool() && sh.iter().filter(|d| **d != 1).count() == 1 {
            let ones: Vec<i64> = (0..r).filter(|k| sh[*k] == 1).map(|k| if s.bool() { k as i64 } else { k as i64 - r as i64 }).collect();
            let mut ins = vec![Some(g)];
            if s.chance(2, 3) { let c = self.konst(s, T::ints(&ones)); ins.push(Some(c)) }
            return Some(self.apply(s, "Squeeze", ins, vec![], 1)?[0]);
        }
        let to = if s.bool() { -1 } else { v.len() as i64 };
        let c = self.konst(s, T::ints(&[to]));
        Some(self.apply(s, "Reshape", vec![Some(g), Some(c)], vec![], 1)?[0])
    }
    fn sub(&mut self, s: &mut Src, v: &[i64]) -> usize {
        if let Some(k) = self.chained(s, v) { if self.vals[k].t.dt == Dt::I64 { return k; } let r = self.apply(s, "Cast", vec![Some(k)], vec![("to", A::I(7))], 1); if let Some(r) = r { return r[0]; } }
        self.konst(s, T::ints(v))
    }
    pub fn t(&self, k: usize) -> &T { &self.vals[k].t }
    pub fn apply(&mut self, s: &mut Src, op: &'static str, ins: Vec<Option<usize>>, attrs: Vec<(&'static str, A)>, n_out: usize) -> Option<Vec<usize>> {
        let outs = {
            let iv: Vec<Option<&T>> = ins.iter().map(|i| i.map(|i| &self.vals[i].t)).collect();
            eval(op, &attrs, &iv, n_out)?
        };
        if outs.iter().any(|t| t.len() > MAX_ELEMS || t.rank() > 7 || t.v.iter().any(|v| !v.is_finite())) { return None; }
        let konst = op == "Shape" || ins.iter().flatten().all(|i| self.vals[*i].konst);
        let omit: Vec<bool> = outs.iter().map(|_| false).collect();
        let ids: Vec<usize> = outs.into_iter().take(n_out).map(|t| self.push(s, t, Kind::Out, konst)).collect();
        self.nodes.push(Node { op, ins, attrs, outs: ids.clone(), omit });
        Some(ids)
    }
    /// re-executes the program on other inputs; `None` where a value stops being finite
    pub fn run(&self, inputs: &dyn Fn(usize) -> Option<T>) -> Option<Vec<T>> {
        let mut v: Vec<Option<T>> = self.vals.iter().enumerate().map(|(k, x)| match x.kind { Kind::In => inputs(k).or_else(|| Some(x.t.clone())), Kind::Init { .. } => Some(x.t.clone()), Kind::Out => None }).collect();
        for n in &self.nodes {
            let r = { let iv: Vec<Option<&T>> = n.ins.iter().map(|i| i.and_then(|i| v[i].as_ref())).collect(); eval(n.op, &n.attrs, &iv, n.outs.len())? };
            for (o, t) in n.outs.iter().zip(r) { if t.v.iter().any(|x| x.is_nan()) { return None; } v[*o] = Some(t); }
        }
        v.into_iter().collect()
    }
    /// some runtime value satisfying `pred`, preferring recent ones
    pub fn pick(&self, s: &mut Src, pred: impl Fn(&T) -> bool) -> Option<usize> {
        let c: Vec<usize> = (0..self.vals.len()).rev().filter(|k| !self.vals[*k].konst && self.vals[*k].t.dt.is_float() && !self.vals[*k].t.v.is_empty() && pred(&self.vals[*k].t)).collect();
        if c.is_empty() { None } else if s.chance(2, 3) { Some(c[0]) } else { Some(s.pickc(&c)) }
    }
    pub fn some(&mut self, s: &mut Src, lo: usize, hi: usize) -> usize {
        if let Some(k) = self.pick(s, |t| (lo..=hi).contains(&t.rank())) { if s.chance(5, 6) { return k; } }
        let r = s.usize_in(lo, hi);
        let sh = dims(s, r, 5);
        self.input(s, sh, Dt::F)
    }
    pub fn desc(&self) -> String {
        let mut o = String::new();
        for (k, v) in self.vals.iter().enumerate() { if v.kind == Kind::In { o += &format!("in v{k}{:?}; ", v.t.shape); } }
        for n in &self.nodes {
            let ins: Vec<String> = n.ins.iter().map(|i| i.map_or("-".into(), |i| { let v = &self.vals[i]; if matches!(v.kind, Kind::Init { .. }) && v.t.len() <= 6 { format!("v{i}{:?}={:?}", v.t.shape, v.t.v) } else { format!("v{i}{:?}", v.t.shape) } })).collect();
            let at: Vec<String> = n.attrs.iter().map(|(k, a)| match a { A::T(t) => format!("{k}={:?}{:?}", t.shape, &t.v[..t.len().min(8)]), a => format!("{k}={a:?}") }).collect();
            let outs: Vec<String> = n.outs.iter().map(|i| format!("v{i}{:?}", self.vals[*i].t.shape)).collect();
            o += &format!("{}({}){}->{}; ", n.op, ins.join(","), if at.is_empty() { String::new() } else { format!("{{{}}}", at.join(",")) }, outs.join(","));
        }
        o
    }

    pub fn node_name(&self, k: usize) -> String { format!("node_{k}") }

    pub fn encode(&self, s: &mut Src, opts: &Enc) -> ox::ModelProto {
        let mut nodes: Vec<ox::NodeProto> = self.nodes.iter().enumerate().map(|(k, n)| ox::NodeProto {
            input: n.ins.iter().map(|i| i.map_or(String::new(), |i| self.vals[i].name.clone())).collect(),
            output: n.outs.iter().zip(&n.omit).map(|(i, o)| if *o { String::new() } else { self.vals[*i].name.clone() }).collect(),
            name: Some(self.node_name(k)),
            op_type: Some(n.op.to_string()),
            attribute: n.attrs.iter().map(|(k, a)| attr(s, k, a)).collect(),
            ..Default::default()
        }).collect();
        if opts.shuffle { let p = s.perm(nodes.len()); nodes = p.iter().map(|i| nodes[*i].clone()).collect(); }
        let mut input = vec![]; let mut initializer = vec![];
        for v in &self.vals {
            match v.kind {
                Kind::In => input.push(vinfo(s, v, opts.symbolic, true)),
                Kind::Init { listed } => { if listed { input.push(vinfo(s, v, false, true)); } initializer.push(tensor(s, &v.name, &v.t)); }
                Kind::Out => {}
            }
        }
        let used: std::collections::HashSet<usize> = self.nodes.iter().flat_map(|n| n.ins.iter().flatten().copied()).collect();
        let mut output = vec![];
        for n in &self.nodes { for (o, om) in n.outs.iter().zip(&n.omit) { if !om && !used.contains(o) { let decl = s.chance(1, 2); output.push(vinfo(s, &self.vals[*o], opts.symbolic, decl)); } } }
        ox::ModelProto {
            ir_version: Some(8),
            opset_import: vec![ox::OperatorSetIdProto { domain: Some(String::new()), version: Some(18) }],
            graph: Some(ox::GraphProto { node: nodes, name: Some("g".into()), initializer, input, output, ..Default::default() }),
            ..Default::default()
        }
    }
}

#[derive(Clone, Copy, Default)]
pub struct Enc { pub shuffle: bool, pub symbolic: bool }

pub fn write_model(m: &ox::ModelProto, p: &std::path::Path) { std::fs::write(p, m.encode_to_vec()).unwrap(); }

pub fn vinfo(s: &mut Src, v: &Val, symbolic: bool, with_shape: bool) -> ox::ValueInfoProto {
    use ox::tensor_shape_proto::{dimension::Value, Dimension};
    let shape = with_shape.then(|| ox::TensorShapeProto { dim: v.t.shape.iter().map(|d| Dimension { denotation: None, value: if *d == 1 && symbolic && s.bool() { match s.draw(2) { 0 => Some(Value::DimParam("N".into())), 1 => None, _ => Some(Value::DimValue(-1)) } } else { Some(Value::DimValue(*d as i64)) } }).collect() });
    ox::ValueInfoProto {
        name: Some(v.name.clone()),
        r#type: Some(ox::TypeProto { value: Some(ox::type_proto::Value::TensorType(ox::type_proto::Tensor { elem_type: Some(v.t.dt.code()), shape })), ..Default::default() }),
        ..Default::default()
    }
}

pub fn tensor(s: &mut Src, name: &str, t: &T) -> ox::TensorProto {
    let mut p = ox::TensorProto { dims: t.shape.iter().map(|d| *d as i64).collect(), data_type: Some(t.dt.code()), name: Some(name.to_string()), ..Default::default() };
    if s.bool() {
        let mut raw = vec![];
        for v in &t.v {
            match t.dt {
                Dt::F => raw.extend((*v as f32).to_le_bytes()),
                Dt::D => raw.extend(v.to_le_bytes()),
                Dt::I32 => raw.extend((*v as i32).to_le_bytes()),
                Dt::I64 => raw.extend((*v as i64).to_le_bytes()),
                Dt::B => raw.push(*v as u8),
            }
        }
        p.raw_data = Some(raw);
    } else {
        match t.dt {
            Dt::F => p.float_data = t.v.iter().map(|v| *v as f32).collect(),
            Dt::D => p.double_data = t.v.clone(),
            Dt::I32 | Dt::B => p.int32_data = t.v.iter().map(|v| *v as i32).collect(),
            Dt::I64 => p.int64_data = t.v.iter().map(|v| *v as i64).collect(),
        }
    }
    p
}

pub fn attr(s: &mut Src, name: &str, a: &A) -> ox::AttributeProto {
    use ox::attribute_proto::AttributeType as Ty;
    let mut p = ox::AttributeProto { name: Some(name.to_string()), ..Default::default() };
    let ty = match a {
        A::I(v) => { p.i = Some(*v); Ty::Int }
        A::F(v) => { p.f = Some(*v); Ty::Float }
        A::S(v) => { p.s = Some(v.clone().into_bytes()); Ty::String }
        A::Is(v) => { p.ints = v.clone(); Ty::Ints }
        A::Fs(v) => { p.floats = v.clone(); Ty::Floats }
        A::T(t) => { p.t = Some(tensor(s, "value", t)); Ty::Tensor }
    };
    p.r#type = Some(ty as i32);
    p
}

pub fn dims(s: &mut Src, r: usize, max: usize) -> Vec<usize> { (0..r).map(|_| if s.chance(1, 4) { 1 } else { s.usize_in(1, max) }).collect() }

/// f32-representable values in [-m, m] (floats), small integers, or 0/1
pub fn fill(s: &mut Src, shape: Vec<usize>, dt: Dt, m: f64) -> T {
    let n: usize = shape.iter().product();
    // few draws: a seed and a style, so that large tensors do not blow up the tape
    let style = s.draw(5);
    let mut rng = pbt::SplitMix(s.draw(1 << 20));
    let v = (0..n).map(|_| {
        let u = (rng.next() >> 11) as f64 / (1u64 << 53) as f64;
        let x = match style { 0 => 1.0, 1 => if u < 0.5 { -1.0 } else { 1.0 }, 2 => if u < 0.7 { 0.0 } else { 2.0 * u - 1.0 }, _ => 2.0 * u - 1.0 };
        match dt {
            Dt::F => f64::from((x * m) as f32),
            Dt::D => x * m,
            Dt::B => f64::from(u8::from(u < 0.5)),
            _ => (x * 5.0).round(),
        }
    }).collect();
    T::new(shape, v, dt)
}

/// a shape that broadcasts with `x`
pub fn bcast_shape(s: &mut Src, x: &[usize]) -> Vec<usize> {
    let mut r = x.to_vec();
    let drop = s.usize_in(0, r.len());
    if s.bool() { r.drain(..drop); }
    for d in &mut r { if *d == 1 { if s.chance(1, 3) { *d = s.usize_in(1, 4); } } else if s.chance(1, 3) { *d = 1; } }
    if s.chance(1, 8) && r.len() < 5 { let d = s.usize_in(1, 3); r.insert(0, d); }
    r
}

fn ax_any(s: &mut Src, a: usize, rank: usize) -> i64 { if s.bool() { a as i64 } else { a as i64 - rank as i64 } }

pub const UNARY: &[&str] = &["Relu", "LeakyRelu", "Exp", "Sigmoid", "Tanh", "Erf", "Gelu", "HardSwish", "Neg", "Identity", "Sin", "Cos", "Clip", "Softmax", "Cast", "Log", "Sqrt"];
pub const BINARY: &[&str] = &["Add", "Sub", "Mul", "Div", "Pow", "Max", "Min", "Where", "Equal", "Greater", "Less", "And", "Not"];
pub const LINEAR: &[&str] = &["MatMul", "Gemm", "BatchNormalization", "LayerNormalization", "InstanceNormalization", "GroupNormalization"];
pub const WINDOW: &[&str] = &["Conv", "ConvTranspose", "MaxPool", "AveragePool", "GlobalAveragePool"];
pub const MOVE: &[&str] = &["Reshape", "Flatten", "Squeeze", "Unsqueeze", "Transpose", "Concat", "Slice", "Split", "Tile", "Expand", "Pad", "Gather", "GatherElements", "ScatterND", "TopK", "ReduceSum", "ReduceMean", "ReduceMax", "Resize", "GridSample"];

/// Appends one node (plus the constants and inputs it needs).  `None`: nothing applicable.
pub fn gen_op(s: &mut Src, p: &mut Prog, op: &'static str) -> Option<Vec<usize>> {
    match op {
        "Log" | "Sqrt" => {
            let x = p.some(s, 0, 4);
            let e = if op == "Sqrt" { p.apply(s, "Relu", vec![Some(x)], vec![], 1)?[0] } else { p.apply(s, "Sigmoid", vec![Some(x)], vec![], 1)?[0] };
            p.apply(s, op, vec![Some(e)], vec![], 1)
        }
        "Clip" => {
            let x = p.some(s, 0, 4);
            if s.chance(1, 5) {
                let (a, b) = (s.range(-8, 8) as f32 / 4.0, s.range(-8, 8) as f32 / 4.0);
                return p.apply(s, op, vec![Some(x)], vec![("min", A::F(a.min(b))), ("max", A::F(a.max(b)))], 1);
            }
            let (a, b) = (s.range(-20, 20) as f64 / 4.0, s.range(-20, 20) as f64 / 4.0);
            let mut ins = vec![Some(x)];
            let (lo, hi) = (a.min(b), a.max(b));
            match s.draw(3) {
                0 => {}
                1 => { let c = p.konst(s, T::scalar(lo, Dt::F)); ins.push(Some(c)); }
                2 => { let c = p.konst(s, T::scalar(hi, Dt::F)); ins.push(None); ins.push(Some(c)); }
                _ => { let c = p.konst(s, T::scalar(lo, Dt::F)); let d = p.konst(s, T::scalar(hi, Dt::F)); ins.push(Some(c)); ins.push(Some(d)); }
            }
            p.apply(s, op, ins, vec![], 1)
        }
        "Softmax" => { let x = p.some(s, 1, 4); let r = p.t(x).rank(); let a = s.below(r); let a = ax_any(s, a, r); let at = if s.bool() { vec![("axis", A::I(a))] } else { vec![] }; p.apply(s, op, vec![Some(x)], at, 1) }
        "Cast" => { let x = p.some(s, 0, 4); let to = s.pickc(&[1i64, 11, 6, 7, 1]); p.apply(s, op, vec![Some(x)], vec![("to", A::I(to))], 1) }
        "LeakyRelu" => { let x = p.some(s, 0, 4); let a = s.range(-8, 12) as f32 / 4.0; let at = if s.chance(3, 4) { vec![("alpha", A::F(a))] } else { vec![] }; p.apply(s, op, vec![Some(x)], at, 1) }
        o if UNARY.contains(&o) => { let x = p.some(s, 0, 5); p.apply(s, op, vec![Some(x)], vec![], 1) }
        "Div" => { let x = p.some(s, 0, 4); let sh = bcast_shape(s, &p.t(x).shape.clone()); let mut t = fill(s, sh, Dt::F, p.cmax); for v in &mut t.v { if v.abs() < 0.1 { *v = 0.25; } } let c = p.konst(s, t); p.apply(s, op, vec![Some(x), Some(c)], vec![], 1) }
        "Pow" => {
            let x = p.some(s, 0, 4);
            let e = s.pickc(&[2.0, 3.0, 1.0, 4.0]);
            let t = match s.draw(2) { 0 => T::scalar(e, Dt::F), 1 => T::new(vec![1], vec![e], Dt::F), _ => T::scalar(e, Dt::I64) };
            let c = p.konst(s, t);
            p.apply(s, op, vec![Some(x), Some(c)], vec![], 1)
        }
        "Equal" | "Greater" | "Less" => { let x = p.some(s, 0, 4); let sh = bcast_shape(s, &p.t(x).shape.clone()); let c = if s.bool() { p.fconst(s, sh) } else { p.input(s, sh, Dt::F) }; let ins = if s.bool() { vec![Some(x), Some(c)] } else { vec![Some(c), Some(x)] }; p.apply(s, op, ins, vec![], 1) }
        "Not" => { let x = gen_op(s, p, "Greater")?[0]; p.apply(s, op, vec![Some(x)], vec![], 1) }
        "And" => { let x = gen_op(s, p, "Less")?[0]; let sh = bcast_shape(s, &p.t(x).shape.clone()); let y = p.input(s, sh, Dt::B); p.apply(s, op, vec![Some(x), Some(y)], vec![], 1) }
        "Where" => {
            let x = p.some(s, 0, 4);
            let base = p.t(x).shape.clone();
            let (sc, sy) = (bcast_shape(s, &base), bcast_shape(s, &base));
            let c = if s.bool() { p.input(s, sc, Dt::B) } else { let t = fill(s, sc, Dt::B, 1.0); p.konst(s, t) };
            let y = if s.bool() { p.input(s, sy, Dt::F) } else { p.fconst(s, sy) };
            let ins = if s.bool() { vec![Some(c), Some(x), Some(y)] } else { vec![Some(c), Some(y), Some(x)] };
            p.apply(s, op, ins, vec![], 1)
        }
        "Max" | "Min" => {
            let x = p.some(s, 0, 4);
            let base = p.t(x).shape.clone();
            let k = s.usize_in(0, 3);
            let mut ins = vec![Some(x)];
            for _ in 0..k { let sh = bcast_shape(s, &base); let y = if s.bool() { p.fconst(s, sh) } else if let (true, Some(z)) = (s.bool(), p.pick(s, |t| bshape(&t.shape, &base).is_some())) { z } else { p.input(s, sh, Dt::F) }; let at = s.usize_in(0, ins.len()); ins.insert(at, Some(y)); }
            p.apply(s, op, ins, vec![], 1)
        }
        "Add" | "Sub" | "Mul" => {
            let x = p.some(s, 0, 4);
            let base = p.t(x).shape.clone();
            let sh = bcast_shape(s, &base);
            let y = match s.draw(2) { 0 => p.fconst(s, sh), 1 => if let Some(z) = p.pick(s, |t| bshape(&t.shape, &base).is_some()) { z } else { p.input(s, sh, Dt::F) }, _ => p.input(s, sh, Dt::F) };
            let ins = if s.bool() { vec![Some(x), Some(y)] } else { vec![Some(y), Some(x)] };
            p.apply(s, op, ins, vec![], 1)
        }
        "MatMul" => {
            let x = p.some(s, 1, 4);
            let xs = p.t(x).shape.clone();
            let left = s.chance(1, 3);
            let (k, n) = (if left && xs.len() >= 2 { xs[xs.len() - 2] } else { *xs.last().unwrap() }, s.usize_in(1, 4));
            let mut sh = if s.chance(1, 5) { vec![k] } else if left { vec![n, k] } else { vec![k, n] };
            if sh.len() == 2 && s.chance(1, 3) && xs.len() >= 2 { let mut b = bcast_shape(s, &xs[..xs.len() - 2]); b.extend(sh); sh = b; }
            let w = if s.chance(2, 3) { p.fconst(s, sh) } else { p.input(s, sh, Dt::F) };
            let ins = if left { vec![Some(w), Some(x)] } else { vec![Some(x), Some(w)] };
            p.apply(s, op, ins, vec![], 1)
        }
        "Gemm" => {
            let x = p.some(s, 2, 2);
            let xs = p.t(x).shape.clone();
            let (ta, tb) = (s.bool(), s.bool());
            let (m, k) = if ta { (xs[1], xs[0]) } else { (xs[0], xs[1]) };
            let n = s.usize_in(1, 5);
            let w = p.fconst(s, if tb { vec![n, k] } else { vec![k, n] });
            let mut ins = vec![Some(x), Some(w)];
            match s.draw(5) { 0 => {}, 1 => { let c = p.fconst(s, vec![1]); ins.push(Some(c)); } 2 => { let c = p.fconst(s, vec![m, n]); ins.push(Some(c)); } 3 => { let c = p.fconst(s, vec![m, 1]); ins.push(Some(c)); } _ => { let c = p.fconst(s, vec![n]); ins.push(Some(c)); } }
            let mut at = vec![];
            if ta || s.chance(1, 4) { at.push(("transA", A::I(i64::from(ta)))); }
            if tb || s.chance(1, 4) { at.push(("transB", A::I(i64::from(tb)))); }
            p.apply(s, op, ins, at, 1)
        }
        "BatchNormalization" => {
            let x = p.some(s, 2, 5);
            let c = p.t(x).shape[1];
            let sc = p.fconst(s, vec![c]); let b = p.fconst(s, vec![c]); let m = p.fconst(s, vec![c]);
            let mut v = fill(s, vec![c], Dt::F, 2.0); for e in &mut v.v { *e = e.abs(); }
            let v = p.konst(s, v);
            let at = if s.bool() { vec![("epsilon", A::F(s.pickc(&[1e-5, 1e-3, 0.5])))] } else { vec![] };
            p.apply(s, op, vec![Some(x), Some(sc), Some(b), Some(m), Some(v)], at, 1)
        }
        "LayerNormalization" => {
            let x = p.some(s, 1, 4);
            let r = p.t(x).rank();
            let a = s.below(r);
            let sh = p.t(x).shape[a..].to_vec();
            let sc = p.fconst(s, sh.clone());
            let mut ins = vec![Some(x), Some(sc)];
            if s.bool() { let b = p.fconst(s, sh); ins.push(Some(b)); }
            let mut at = vec![];
            if a + 1 != r || s.bool() { at.push(("axis", A::I(ax_any(s, a, r)))); }
            if s.bool() { at.push(("epsilon", A::F(s.pickc(&[1e-5, 1e-3, 0.5])))); }
            p.apply(s, op, ins, at, 1)
        }
        "InstanceNormalization" | "GroupNormalization" => {
            let x = p.some(s, 3, 4);
            let c = p.t(x).shape[1];
            let sc = p.fconst(s, vec![c]); let b = p.fconst(s, vec![c]);
            let mut at = if s.bool() { vec![("epsilon", A::F(s.pickc(&[1e-5, 1e-3, 0.5])))] } else { vec![] };
            if op == "GroupNormalization" { let g: Vec<usize> = (1..=c).filter(|g| c % g == 0).collect(); at.push(("num_groups", A::I(s.pickc(&g) as i64))); }
            p.apply(s, op, vec![Some(x), Some(sc), Some(b)], at, 1)
        }
        o if WINDOW.contains(&o) => window_op(s, p, op),
        "Reshape" => {
            let x = p.some(s, 0, 5);
            let t = p.t(x).clone();
            let mut tgt: Vec<i64> = refactor_shape(s, &t.shape).iter().map(|d| *d as i64).collect();
            if !tgt.is_empty() && s.bool() { let k = s.below(tgt.len()); tgt[k] = -1; }
            for k in 0..tgt.len() { if tgt[k] > 0 && k < t.rank() && t.shape[k] as i64 == tgt[k] && s.chance(1, 3) { tgt[k] = 0; } }
            let mut at = vec![];
            if s.chance(1, 8) && !tgt.contains(&0) { at.push(("allowzero", A::I(1))); }
            let c = p.iconst(s, &tgt);
            p.apply(s, op, vec![Some(x), Some(c)], at, 1)
        }
        "Flatten" => { let x = p.some(s, 0, 5); let r = p.t(x).rank() as i64; let a = s.range(-r, r); let at = if s.chance(4, 5) || r == 0 { vec![("axis", A::I(a))] } else { vec![] }; p.apply(s, op, vec![Some(x)], at, 1) }
        "Squeeze" => {
            let x = p.some(s, 0, 5);
            let sh = p.t(x).shape.clone();
            let ones: Vec<usize> = (0..sh.len()).filter(|i| sh[*i] == 1).collect();
            if ones.is_empty() || s.chance(1, 5) { let ins = if s.chance(1, 3) { vec![Some(x), None] } else { vec![Some(x)] }; return p.apply(s, op, ins, vec![], 1); }
            let ax = subset(s, &ones).iter().map(|a| ax_any(s, *a, sh.len())).collect::<Vec<_>>();
            if s.chance(1, 4) { p.apply(s, op, vec![Some(x)], vec![("axes", A::Is(ax))], 1) } else { let c = p.iconst(s, &ax); p.apply(s, op, vec![Some(x), Some(c)], vec![], 1) }
        }
        "Unsqueeze" => {
            let x = p.some(s, 0, 4);
            let k = s.usize_in(1, 2);
            let r = p.t(x).rank() + k;
            let all: Vec<usize> = s.perm(r);
            let ax: Vec<i64> = all[..k].iter().map(|a| ax_any(s, *a, r)).collect();
            if s.chance(1, 4) { p.apply(s, op, vec![Some(x)], vec![("axes", A::Is(ax))], 1) } else { let c = p.iconst(s, &ax); p.apply(s, op, vec![Some(x), Some(c)], vec![], 1) }
        }
        "Transpose" => { let x = p.some(s, 0, 5); let r = p.t(x).rank(); let pm: Vec<i64> = s.perm(r).iter().map(|a| *a as i64).collect(); let at = if s.chance(3, 4) { vec![("perm", A::Is(pm))] } else { vec![] }; p.apply(s, op, vec![Some(x)], at, 1) }
        "Concat" => {
            let x = p.some(s, 1, 4);
            let sh = p.t(x).shape.clone();
            let a = s.below(sh.len());
            let k = s.usize_in(0, 3);
            let mut ins = vec![Some(x)];
            for _ in 0..k {
                let mut z = sh.clone(); z[a] = s.usize_in(1, 4);
                let same = p.pick(s, |t| t.rank() == sh.len() && (0..sh.len()).all(|i| i == a || t.shape[i] == sh[i]));
                let y = match (s.draw(2), same) { (0, Some(y)) => y, (1, _) => p.fconst(s, z), _ => p.input(s, z, Dt::F) };
                let pos = s.usize_in(0, ins.len());
                ins.insert(pos, Some(y));
            }
            let a = ax_any(s, a, sh.len());
            p.apply(s, op, ins, vec![("axis", A::I(a))], 1)
        }
        "Slice" => {
            let x = p.some(s, 1, 4);
            let sh = p.t(x).shape.clone();
            let all: Vec<usize> = (0..sh.len()).collect();
            let mut axs = subset(s, &all);
            let named = s.chance(2, 3) || axs != (0..axs.len()).collect::<Vec<_>>();
            if named && s.bool() { axs.reverse(); }
            let (mut st, mut en, mut sp) = (vec![], vec![], vec![]);
            for a in &axs {
                let d = sh[*a] as i64;
                let edge = |s: &mut Src| match s.draw(9) { 0 => i64::MAX, 1 => i64::MIN, 2 => -d - 1, 3 => d + 2, _ => s.range(-d, d) };
                st.push(edge(s)); en.push(if s.bool() { i64::MAX } else { edge(s) });
                sp.push(match s.draw(7) { 0 => 2, 1 => 3, 2 => 7, 3 if s.chance(1, 4) => i64::MAX, 4 if s.chance(1, 3) => { p.ext = true; -1 } _ => 1 });
            }
            let steps = sp.iter().any(|v| *v != 1) || s.bool();
            let c1 = p.iconst(s, &st); let c2 = p.iconst(s, &en);
            let mut ins = vec![Some(x), Some(c1), Some(c2)];
            if named { let v: Vec<i64> = axs.iter().map(|a| ax_any(s, *a, sh.len())).collect(); let c = p.iconst(s, &v); ins.push(Some(c)); } else if steps { ins.push(None); }
            if steps { let c = p.iconst(s, &sp); ins.push(Some(c)); }
            p.apply(s, op, ins, vec![], 1)
        }
        "Split" => {
            let x = p.some(s, 1, 4);
            let sh = p.t(x).shape.clone();
            let a = s.below(sh.len());
            let d = sh[a];
            let mut at = vec![("axis", A::I(ax_any(s, a, sh.len())))];
            if a == 0 && s.bool() { at.clear(); }
            if s.chance(1, 3) {
                let n: Vec<usize> = (1..=d).filter(|n| d % n == 0).collect();
                let n = s.pickc(&n);
                return p.apply(s, op, vec![Some(x)], at, n);
            }
            let n = s.usize_in(1, d.min(4));
            let mut cut: Vec<usize> = (0..n - 1).map(|_| s.usize_in(0, d)).collect();
            cut.sort_unstable(); cut.push(d);
            let mut prev = 0;
            let z: Vec<i64> = cut.iter().map(|c| { let r = c - prev; prev = *c; r as i64 }).collect();
            if s.chance(1, 4) { at.push(("split", A::Is(z))); p.apply(s, op, vec![Some(x)], at, n) } else { let c = p.iconst(s, &z); p.apply(s, op, vec![Some(x), Some(c)], at, n) }
        }
        "Tile" => { let x = p.some(s, 1, 4); let r: Vec<i64> = (0..p.t(x).rank()).map(|_| s.range(1, 3)).collect(); let c = p.iconst(s, &r); p.apply(s, op, vec![Some(x), Some(c)], vec![], 1) }
        "Expand" => { let x = p.some(s, 0, 4); let z: Vec<i64> = bcast_shape(s, &p.t(x).shape.clone()).iter().map(|d| *d as i64).collect(); let c = p.iconst(s, &z); p.apply(s, op, vec![Some(x), Some(c)], vec![], 1) }
        "Pad" => {
            let x = p.some(s, 1, 4);
            let r = p.t(x).rank();
            let mut z: Vec<i64> = (0..2 * r).map(|_| if s.bool() { 0 } else { s.range(0, 2) }).collect();
            if s.chance(1, 12) { let k = s.below(2 * r); z[k] = -1; p.ext = true; }
            let mode = s.pickc(&["constant", "constant", "edge", "reflect"]);
            let mut at = vec![];
            if mode != "constant" || s.bool() { at.push(("mode", A::S(mode.into()))); }
            if s.chance(1, 5) { at.push(("pads", A::Is(z))); return p.apply(s, op, vec![Some(x)], at, 1); }
            let c = p.iconst(s, &z);
            let mut ins = vec![Some(x), Some(c)];
            if s.bool() { let m = p.cmax; let v = s.range(-4, 4) as f64 / 4.0 * m; let k = p.konst(s, T::scalar(v, Dt::F)); ins.push(Some(k)); }
            p.apply(s, op, ins, at, 1)
        }
        "Gather" => {
            let konst = s.chance(1, 4);
            let x = if konst { let r = s.usize_in(1, 3); let sh = dims(s, r, 4); p.fconst(s, sh) } else { p.some(s, 1, 4) };
            let sh = p.t(x).shape.clone();
            let a = s.below(sh.len());
            let r = s.usize_in(0, 2);
            let ish = dims(s, r, 3);
            let n: usize = ish.iter().product();
            let d = sh[a] as i64;
            let v: Vec<f64> = (0..n).map(|_| s.range(-d, d - 1) as f64).collect();
            let i = p.konst(s, T::new(ish, v, Dt::I64));
            let at = if a != 0 || s.bool() { vec![("axis", A::I(ax_any(s, a, sh.len())))] } else { vec![] };
            p.apply(s, op, vec![Some(x), Some(i)], at, 1)
        }
        "GatherElements" => {
            let x = p.some(s, 1, 4);
            let sh = p.t(x).shape.clone();
            let a = s.below(sh.len());
            let mut ish = sh.clone(); ish[a] = s.usize_in(1, 4);
            let n: usize = ish.iter().product();
            let d = sh[a] as i64;
            let mut rng = pbt::SplitMix(s.draw(1 << 16));
            let v: Vec<f64> = (0..n).map(|_| ((rng.next() % (2 * d as u64)) as i64 - d) as f64).collect();
            let i = p.konst(s, T::new(ish, v, Dt::I64));
            let a = ax_any(s, a, sh.len()); p.apply(s, op, vec![Some(x), Some(i)], vec![("axis", A::I(a))], 1)
        }
        "ScatterND" => {
            let x = p.some(s, 1, 3);
            let sh = p.t(x).shape.clone();
            let k = s.usize_in(1, sh.len());
            let n = s.usize_in(1, 3);
            let mut v = vec![];
            for _ in 0..n { for d in &sh[..k] { v.push(s.below(*d) as f64); } }
            let i = p.konst(s, T::new(vec![n, k], v, Dt::I64));
            let mut us = vec![n]; us.extend(&sh[k..]);
            let u = if s.bool() { p.fconst(s, us) } else { p.input(s, us, Dt::F) };
            p.apply(s, op, vec![Some(x), Some(i), Some(u)], vec![], 1)
        }
        "TopK" => {
            let x = p.some(s, 1, 4);
            let sh = p.t(x).shape.clone();
            let a = s.below(sh.len());
            let k = s.usize_in(1, sh[a]);
            let t = if s.bool() { T::ints(&[k as i64]) } else { T::scalar(k as f64, Dt::I64) };
            let c = p.konst(s, t);
            let mut at = if a + 1 != sh.len() || s.bool() { vec![("axis", A::I(ax_any(s, a, sh.len())))] } else { vec![] };
            if s.chance(1, 10) { at.push(("largest", A::I(0))); p.ext = true; }
            let r = p.apply(s, op, vec![Some(x), Some(c)], at, 2)?;
            Some(vec![r[0]])
        }
        "ReduceSum" | "ReduceMean" | "ReduceMax" => {
            let x = p.some(s, 0, 4);
            let r = p.t(x).rank();
            let mut at = vec![];
            if s.bool() { at.push(("keepdims", A::I(i64::from(s.bool())))); }
            let mode = s.weighted(&[3, 6, 2, 1]);
            if mode != 1 && s.chance(1, 3) { at.push(("noop_with_empty_axes", A::I(1))); } else if s.chance(1, 6) { at.push(("noop_with_empty_axes", A::I(i64::from(s.bool())))); }
            let all: Vec<usize> = (0..r).collect();
            let ax: Vec<i64> = if r == 0 { vec![] } else { subset(s, &all).iter().map(|a| ax_any(s, *a, r)).collect() };
            match mode {
                0 => { let ins = if s.chance(1, 3) { vec![Some(x), None] } else { vec![Some(x)] }; p.apply(s, op, ins, at, 1) }
                1 if !ax.is_empty() => { let c = p.iconst(s, &ax); p.apply(s, op, vec![Some(x), Some(c)], at, 1) }
                2 if !ax.is_empty() => { at.push(("axes", A::Is(ax))); p.apply(s, op, vec![Some(x)], at, 1) }
                _ => { let c = p.iconst(s, &[]); p.apply(s, op, vec![Some(x), Some(c)], at, 1) }
            }
        }
        "Resize" => {
            let x = p.some(s, 2, 4);
            let sh = p.t(x).shape.clone();
            let at = vec![("mode", A::S("nearest".into())), ("coordinate_transformation_mode", A::S("asymmetric".into()))];
            if s.bool() {
                let z: Vec<i64> = sh.iter().map(|d| if s.bool() { *d as i64 } else { s.range(1, 6) }).collect();
                let c = p.iconst(s, &z);
                p.apply(s, op, vec![Some(x), None, None, Some(c)], at, 1)
            } else {
                let z: Vec<f64> = sh.iter().map(|_| s.pickc(&[1.0, 2.0, 0.5, 1.5, 3.0, 0.75])).collect();
                let c = p.fsub(s, &z);
                let roi = if s.bool() { None } else { Some(p.konst(s, T::new(vec![0], vec![], Dt::F))) };
                p.apply(s, op, vec![Some(x), roi, Some(c)], at, 1)
            }
        }
        "GridSample" => {
            let x = p.some(s, 4, 4);
            let n = p.t(x).shape[0];
            let gs = vec![n, s.usize_in(1, 4), s.usize_in(1, 4), 2];
            let g = if s.bool() { let t = fill(s, gs, Dt::F, 1.2); p.konst(s, t) } else { p.input(s, gs, Dt::F) };
            p.apply(s, op, vec![Some(x), Some(g)], vec![], 1)
        }
        _ => panic!("no generator for {op}"),
    }
}

pub fn subset(s: &mut Src, all: &[usize]) -> Vec<usize> {
    let r: Vec<usize> = all.iter().copied().filter(|_| s.bool()).collect();
    if r.is_empty() { vec![s.pickc(all)] } else { r }
}

/// another shape with the same number of elements
pub fn refactor_shape(s: &mut Src, sh: &[usize]) -> Vec<usize> {
    let mut f: Vec<usize> = vec![];
    for d in sh { let mut d = *d; let mut q = 2; while d > 1 { while d % q == 0 { f.push(q); d /= q; } q += 1; } }
    let p = s.perm(f.len());
    let mut out: Vec<usize> = vec![];
    for i in p { if !out.is_empty() && s.bool() { let k = s.below(out.len()); out[k] *= f[i]; } else { out.push(f[i]); } }
    for _ in 0..s.usize_in(0, 2) { let k = s.usize_in(0, out.len()); out.insert(k, 1); }
    out
}

fn window_op(s: &mut Src, p: &mut Prog, op: &'static str) -> Option<Vec<usize>> {
    let n = match s.weighted(&[2, 6, 1]) { 0 => 1, 1 => 2, _ => 3 };
    let x = match p.pick(s, |t| t.rank() == n + 2) {
        Some(k) if s.chance(4, 5) => k,
        _ => { let sh: Vec<usize> = { let mut v = vec![s.usize_in(1, 2), s.usize_in(1, 4)]; for _ in 0..n { v.push(s.usize_in(1, if n == 3 { 4 } else { 8 })); } v }; p.input(s, sh, Dt::F) }
    };
    let sh = p.t(x).shape.clone();
    if op == "GlobalAveragePool" { return p.apply(s, op, vec![Some(x)], vec![], 1); }
    let k: Vec<usize> = (0..n).map(|_| s.usize_in(1, 4)).collect();
    let mut at = vec![];
    let st: Vec<i64> = (0..n).map(|_| s.range(1, 3)).collect();
    let di: Vec<i64> = (0..n).map(|_| if s.chance(2, 3) { 1 } else { s.range(1, 3) }).collect();
    let pd: Vec<i64> = (0..2 * n).map(|i| s.range(0, 2.min(k[i % n] as i64 - 1).max(0))).collect();
    if s.chance(3, 4) { at.push(("strides", A::Is(st.clone()))); }
    if s.chance(1, 2) { at.push(("dilations", A::Is(di))); }
    if s.chance(2, 3) { at.push(("pads", A::Is(pd))); }
    match s.draw(15) {
        0 => { at.retain(|a| a.0 != "pads"); at.push(("auto_pad", A::S(s.pickc(&["SAME_UPPER", "SAME_LOWER"]).into()))); p.ext = true; }
        1 => { at.retain(|a| a.0 != "pads"); at.push(("auto_pad", A::S("VALID".into()))); }
        2 => at.push(("auto_pad", A::S("NOTSET".into()))),
        _ => {}
    }
    let ki: Vec<i64> = k.iter().map(|d| *d as i64).collect();
    match op {
        "MaxPool" | "AveragePool" => {
            if s.chance(1, 5) { at.push(("ceil_mode", A::I(1))); p.ext = true; } else if s.chance(1, 6) { at.push(("ceil_mode", A::I(0))); }
            if op == "AveragePool" && s.chance(1, 4) { at.push(("count_include_pad", A::I(1))); }
            at.push(("kernel_shape", A::Is(ki)));
            let no = if op == "MaxPool" && s.chance(1, 6) { 2 } else { 1 }; p.apply(s, op, vec![Some(x)], at, no).map(|r| vec![r[0]])
        }
        "Conv" => {
            let gs: Vec<usize> = (1..=sh[1]).filter(|g| sh[1] % g == 0).collect();
            let g = if s.chance(1, 3) { s.pickc(&gs) } else { 1 };
            let co = g * s.usize_in(1, 3);
            let mut ws = vec![co, sh[1] / g]; ws.extend(&k);
            let w = p.fconst(s, ws);
            let mut ins = vec![Some(x), Some(w)];
            if s.bool() { let b = p.fconst(s, vec![co]); ins.push(Some(b)); }
            if g > 1 || s.chance(1, 4) { at.push(("group", A::I(g as i64))); }
            if s.bool() { at.push(("kernel_shape", A::Is(ki))); }
            p.apply(s, op, ins, at, 1)
        }
        _ => {
            let gs: Vec<usize> = (1..=sh[1]).filter(|g| sh[1] % g == 0).collect();
            let g = if s.chance(1, 3) { s.pickc(&gs) } else { 1 };
            let opg = s.usize_in(1, 3);
            let mut ws = vec![sh[1], opg]; ws.extend(&k);
            let w = p.fconst(s, ws);
            let mut ins = vec![Some(x), Some(w)];
            if s.bool() { let b = p.fconst(s, vec![opg * g]); ins.push(Some(b)); }
            if g > 1 || s.chance(1, 4) { at.push(("group", A::I(g as i64))); }
            if s.bool() { at.push(("kernel_shape", A::Is(ki))); }
            if s.chance(1, 4) { let v: Vec<i64> = st.iter().map(|q| s.range(0, q - 1)).collect(); if at.iter().any(|a| a.0 == "strides") { at.push(("output_padding", A::Is(v))); } }
            p.apply(s, op, ins, at, 1)
        }
    }
}
