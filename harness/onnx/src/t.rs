//! Concrete tensors and a reference interpreter for the ONNX operators, written from the ONNX
//! operator specification.  Shapes and values that come out of *executing* a model here are the
//! oracle for shape inference and for activation bounds.

#[derive(Clone, Copy, Debug, PartialEq, Eq)]
pub enum Dt { F, D, I32, I64, B }
impl Dt {
    pub fn code(self) -> i32 { match self { Dt::F => 1, Dt::D => 11, Dt::I32 => 6, Dt::I64 => 7, Dt::B => 9 } }
    pub fn is_float(self) -> bool { matches!(self, Dt::F | Dt::D) }
}

#[derive(Clone, Debug, PartialEq)]
pub struct T { pub shape: Vec<usize>, pub v: Vec<f64>, pub dt: Dt }

impl T {
    pub fn new(shape: Vec<usize>, v: Vec<f64>, dt: Dt) -> T { debug_assert_eq!(shape.iter().product::<usize>(), v.len()); T { shape, v, dt } }
    pub fn ints(v: &[i64]) -> T { T::new(vec![v.len()], v.iter().map(|x| *x as f64).collect(), Dt::I64) }
    pub fn scalar(v: f64, dt: Dt) -> T { T::new(vec![], vec![v], dt) }
    pub fn rank(&self) -> usize { self.shape.len() }
    pub fn len(&self) -> usize { self.v.len() }
    pub fn i(&self, k: usize) -> i64 { self.v[k] as i64 }
    pub fn iv(&self) -> Vec<i64> { self.v.iter().map(|x| *x as i64).collect() }
    pub fn map(&self, f: impl Fn(f64) -> f64) -> T { T { shape: self.shape.clone(), v: self.v.iter().map(|x| f(*x)).collect(), dt: self.dt } }
    pub fn at(&self, ix: &[usize]) -> f64 {
        let mut o = 0;
        for (d, i) in self.shape.iter().zip(ix) { o = o * d + i; }
        self.v[o]
    }
    pub fn absmax(&self) -> f64 { self.v.iter().fold(0.0f64, |m, x| m.max(x.abs())) }
}

/// every index of a shape in row-major order
pub fn indices(shape: &[usize]) -> Vec<Vec<usize>> {
    let n: usize = shape.iter().product();
    let mut out = Vec::with_capacity(n);
    for k in 0..n {
        let mut r = k;
        let mut ix = vec![0; shape.len()];
        for d in (0..shape.len()).rev() { ix[d] = r % shape[d]; r /= shape[d]; }
        out.push(ix);
    }
    out
}

pub fn build(shape: Vec<usize>, dt: Dt, f: impl Fn(&[usize]) -> f64) -> T {
    let v = indices(&shape).iter().map(|ix| f(ix)).collect();
    T::new(shape, v, dt)
}

pub fn bshape(a: &[usize], b: &[usize]) -> Option<Vec<usize>> {
    let n = a.len().max(b.len());
    let mut out = vec![];
    for i in 0..n {
        let x = if i + a.len() < n { 1 } else { a[i + a.len() - n] };
        let y = if i + b.len() < n { 1 } else { b[i + b.len() - n] };
        out.push(if x == y { x } else if x == 1 { y } else if y == 1 { x } else { return None });
    }
    Some(out)
}
pub fn bget(t: &T, ix: &[usize]) -> f64 {
    let off = ix.len() - t.rank();
    let mut o = 0;
    for d in 0..t.rank() { o = o * t.shape[d] + if t.shape[d] == 1 { 0 } else { ix[off + d] }; }
    t.v[o]
}
fn bin(a: &T, b: &T, dt: Dt, f: impl Fn(f64, f64) -> f64) -> Option<T> {
    let sh = bshape(&a.shape, &b.shape)?;
    Some(build(sh, dt, |ix| f(bget(a, ix), bget(b, ix))))
}
fn axis(a: i64, rank: usize) -> Option<usize> {
    let r = rank as i64;
    let x = if a < 0 { a + r } else { a };
    (0..r).contains(&x).then_some(x as usize)
}

#[derive(Clone, Debug, PartialEq)]
pub enum A { I(i64), F(f32), S(String), Is(Vec<i64>), Fs(Vec<f32>), T(T) }

#[derive(Clone, Debug)]
pub struct Node { pub op: &'static str, pub ins: Vec<Option<usize>>, pub attrs: Vec<(&'static str, A)>, pub outs: Vec<usize>, pub omit: Vec<bool> }

pub struct At<'a>(pub &'a [(&'static str, A)]);
impl At<'_> {
    fn get(&self, n: &str) -> Option<&A> { self.0.iter().find(|x| x.0 == n).map(|x| &x.1) }
    pub fn i(&self, n: &str, d: i64) -> i64 { match self.get(n) { Some(A::I(v)) => *v, _ => d } }
    pub fn f(&self, n: &str, d: f64) -> f64 { match self.get(n) { Some(A::F(v)) => f64::from(*v), _ => d } }
    pub fn s(&self, n: &str, d: &str) -> String { match self.get(n) { Some(A::S(v)) => v.clone(), _ => d.into() } }
    pub fn is(&self, n: &str) -> Option<Vec<i64>> { match self.get(n) { Some(A::Is(v)) => Some(v.clone()), _ => None } }
}

extern "C" { fn erf(x: f64) -> f64; }

/// output size and leading pad of one spatial axis of a window operator
fn window(at: &At, i: usize, n: usize, inp: usize, k: usize, s: usize, d: usize) -> Option<(usize, i64)> {
    let ek = (k - 1) * d + 1;
    let auto = at.s("auto_pad", "NOTSET");
    let ceil = at.i("ceil_mode", 0) != 0;
    match auto.as_str() {
        "SAME_UPPER" | "SAME_LOWER" => {
            let out = inp.div_ceil(s);
            let total = ((out as i64 - 1) * s as i64 + ek as i64 - inp as i64).max(0);
            let lead = if auto == "SAME_UPPER" { total / 2 } else { total - total / 2 };
            Some((out, lead))
        }
        _ => {
            let pads = if auto == "VALID" { vec![0; 2 * n] } else { at.is("pads").unwrap_or_else(|| vec![0; 2 * n]) };
            let (b, e) = (pads[i], pads[n + i]);
            let padded = inp as i64 + b + e;
            if padded < ek as i64 { return None; }
            let num = (padded - ek as i64) as usize;
            let mut out = num / s + 1;
            if ceil && num % s != 0 {
                out += 1;
                // a window may not start in the trailing padding
                if ((out - 1) * s) as i64 >= inp as i64 + b { out -= 1; }
            }
            Some((out, b))
        }
    }
}

/// Executes one operator.  `None`: the operator cannot be applied (the model is invalid).
pub fn eval(op: &str, attrs: &[(&'static str, A)], ins: &[Option<&T>], n_out: usize) -> Option<Vec<T>> {
    let at = At(attrs);
    let x = || ins.first().copied().flatten();
    let opt = |k: usize| ins.get(k).copied().flatten();
    let one = |t: T| Some(vec![t]);
    let un = |f: &dyn Fn(f64) -> f64| x().map(|t| vec![t.map(f)]);
    match op {
        "Relu" => un(&|v| v.max(0.0)),
        "LeakyRelu" => { let a = at.f("alpha", f64::from(0.01f32)); un(&|v| if v < 0.0 { a * v } else { v }) }
        "Exp" => un(&f64::exp),
        "Sigmoid" => un(&|v| 1.0 / (1.0 + (-v).exp())),
        "Tanh" => un(&f64::tanh),
        "Erf" => un(&|v| unsafe { erf(v) }),
        "Gelu" if at.s("approximate", "none") == "tanh" => un(&|v| 0.5 * v * (1.0 + ((2.0 / std::f64::consts::PI).sqrt() * (v + 0.044_715 * v * v * v)).tanh())),
        "Gelu" => un(&|v| 0.5 * v * (1.0 + unsafe { erf(v / std::f64::consts::SQRT_2) })),
        "HardSwish" => un(&|v| v * (v / 6.0 + 0.5).clamp(0.0, 1.0)),
        "Log" => un(&f64::ln),
        "Sqrt" => un(&f64::sqrt),
        "Neg" => un(&|v| -v),
        "Identity" => un(&|v| v),
        "Sin" => un(&f64::sin),
        "Cos" => un(&f64::cos),
        "Not" => un(&|v| f64::from(u8::from(v == 0.0))),
        "Cast" => {
            let t = x()?;
            let to = at.i("to", 1);
            let mut r = t.map(|v| match to { 9 => f64::from(u8::from(v != 0.0)), 6 | 7 => v.trunc(), 1 => f64::from(v as f32), _ => v });
            r.dt = match to { 1 => Dt::F, 11 => Dt::D, 6 => Dt::I32, 7 => Dt::I64, 9 => Dt::B, _ => return None };
            one(r)
        }
        "Clip" => {
            let lo = opt(1).map_or(at.f("min", f64::NEG_INFINITY), |t| t.v[0]);
            let hi = opt(2).map_or(at.f("max", f64::INFINITY), |t| t.v[0]);
            un(&|v| v.max(lo).min(hi))
        }
        "Softmax" => {
            let t = x()?;
            let a = axis(at.i("axis", -1), t.rank())?;
            one(build(t.shape.clone(), t.dt, |ix| {
                let mut j = ix.to_vec();
                let row: Vec<f64> = (0..t.shape[a]).map(|k| { j[a] = k; t.at(&j) }).collect();
                let m = row.iter().cloned().fold(f64::NEG_INFINITY, f64::max);
                (t.at(ix) - m).exp() / row.iter().map(|r| (r - m).exp()).sum::<f64>()
            }))
        }
        "Add" => one(bin(x()?, opt(1)?, x()?.dt, |a, b| a + b)?),
        "Sub" => one(bin(x()?, opt(1)?, x()?.dt, |a, b| a - b)?),
        "Mul" => one(bin(x()?, opt(1)?, x()?.dt, |a, b| a * b)?),
        "Div" => { let int = !x()?.dt.is_float(); one(bin(x()?, opt(1)?, x()?.dt, |a, b| if int { if b == 0.0 { 0.0 } else { (a / b).trunc() } } else { a / b })?) }
        "Pow" => one(bin(x()?, opt(1)?, x()?.dt, f64::powf)?),
        "And" => one(bin(x()?, opt(1)?, Dt::B, |a, b| f64::from(u8::from(a != 0.0 && b != 0.0)))?),
        "Equal" => one(bin(x()?, opt(1)?, Dt::B, |a, b| f64::from(u8::from(a == b)))?),
        "Greater" => one(bin(x()?, opt(1)?, Dt::B, |a, b| f64::from(u8::from(a > b)))?),
        "Less" => one(bin(x()?, opt(1)?, Dt::B, |a, b| f64::from(u8::from(a < b)))?),
        "Max" | "Min" => {
            let mut r = x()?.clone();
            for k in 1..ins.len() { let d = r.dt; r = bin(&r, opt(k)?, d, |a, b| if op == "Max" { a.max(b) } else { a.min(b) })?; }
            one(r)
        }
        "Where" => {
            let (c, a, b) = (x()?, opt(1)?, opt(2)?);
            let sh = bshape(&bshape(&c.shape, &a.shape)?, &b.shape)?;
            one(build(sh, a.dt, |ix| if bget(c, ix) != 0.0 { bget(a, ix) } else { bget(b, ix) }))
        }
        "MatMul" => {
            let (a, b) = (x()?, opt(1)?);
            if a.rank() == 0 || b.rank() == 0 { return None; }
            let mut as_ = a.shape.clone(); let mut bs = b.shape.clone();
            if a.rank() == 1 { as_.insert(0, 1); }
            if b.rank() == 1 { bs.push(1); }
            let (ar, br) = (as_.len(), bs.len());
            let (m, k, n) = (as_[ar - 2], as_[ar - 1], bs[br - 1]);
            if bs[br - 2] != k { return None; }
            let (ta, tb) = (T { shape: as_.clone(), v: a.v.clone(), dt: a.dt }, T { shape: bs.clone(), v: b.v.clone(), dt: b.dt });
            let batch = bshape(&as_[..ar - 2], &bs[..br - 2])?;
            let mut sh = batch.clone(); sh.push(m); sh.push(n);
            let full = build(sh, a.dt, |ix| {
                let nb = batch.len();
                (0..k).map(|q| {
                    let mut ia = ix[..nb].to_vec(); ia.push(ix[nb]); ia.push(q);
                    let mut ib = ix[..nb].to_vec(); ib.push(q); ib.push(ix[nb + 1]);
                    bget(&ta, &ia) * bget(&tb, &ib)
                }).sum()
            });
            let mut sh = batch;
            if a.rank() > 1 { sh.push(m); }
            if b.rank() > 1 { sh.push(n); }
            one(T { shape: sh, v: full.v, dt: a.dt })
        }
        "Gemm" => {
            let (a, b) = (x()?, opt(1)?);
            if a.rank() != 2 || b.rank() != 2 { return None; }
            let (tra, trb) = (at.i("transA", 0) != 0, at.i("transB", 0) != 0);
            let (m, k) = if tra { (a.shape[1], a.shape[0]) } else { (a.shape[0], a.shape[1]) };
            let (kb, n) = if trb { (b.shape[1], b.shape[0]) } else { (b.shape[0], b.shape[1]) };
            if k != kb { return None; }
            if let Some(c) = opt(2) { if bshape(&c.shape, &[m, n])? != vec![m, n] { return None; } }
            one(build(vec![m, n], a.dt, |ix| {
                let s: f64 = (0..k).map(|q| (if tra { a.at(&[q, ix[0]]) } else { a.at(&[ix[0], q]) }) * (if trb { b.at(&[ix[1], q]) } else { b.at(&[q, ix[1]]) })).sum();
                at.f("alpha", 1.0) * s + opt(2).map_or(0.0, |c| at.f("beta", 1.0) * bget(c, ix))
            }))
        }
        "Conv" => {
            let (t, w) = (x()?, opt(1)?);
            let n = t.rank().checked_sub(2)?;
            if n == 0 || w.rank() != n + 2 { return None; }
            let g = at.i("group", 1) as usize;
            if t.shape[1] != w.shape[1] * g || w.shape[0] % g != 0 { return None; }
            let st = at.is("strides").unwrap_or_else(|| vec![1; n]);
            let di = at.is("dilations").unwrap_or_else(|| vec![1; n]);
            let mut sh = vec![t.shape[0], w.shape[0]];
            let mut lead = vec![];
            for i in 0..n {
                let (o, l) = window(&at, i, n, t.shape[2 + i], w.shape[2 + i], st[i] as usize, di[i] as usize)?;
                sh.push(o); lead.push(l);
            }
            let kidx = indices(&w.shape[2..]);
            let cpg = w.shape[0] / g;
            one(build(sh, t.dt, |ix| {
                let oc = ix[1];
                let mut s = opt(2).map_or(0.0, |b| b.v[oc]);
                for ic in 0..w.shape[1] {
                    'k: for k in &kidx {
                        let mut src = vec![ix[0], (oc / cpg) * w.shape[1] + ic];
                        for i in 0..n {
                            let p = ix[2 + i] as i64 * st[i] + k[i] as i64 * di[i] - lead[i];
                            if p < 0 || p >= t.shape[2 + i] as i64 { continue 'k; }
                            src.push(p as usize);
                        }
                        let mut wi = vec![oc, ic]; wi.extend(k);
                        s += t.at(&src) * w.at(&wi);
                    }
                }
                s
            }))
        }
        "ConvTranspose" => {
            let (t, w) = (x()?, opt(1)?);
            let n = t.rank().checked_sub(2)?;
            if n == 0 || w.rank() != n + 2 { return None; }
            let g = at.i("group", 1) as usize;
            if t.shape[1] != w.shape[0] || w.shape[0] % g != 0 { return None; }
            let st = at.is("strides").unwrap_or_else(|| vec![1; n]);
            let di = at.is("dilations").unwrap_or_else(|| vec![1; n]);
            let op_ = at.is("output_padding").unwrap_or_else(|| vec![0; n]);
            let mut sh = vec![t.shape[0], w.shape[1] * g];
            let mut lead = vec![];
            for i in 0..n {
                let full = st[i] * (t.shape[2 + i] as i64 - 1) + op_[i] + (w.shape[2 + i] as i64 - 1) * di[i] + 1;
                let auto = at.s("auto_pad", "NOTSET");
                let (o, b) = if let Some(os) = at.is("output_shape") {
                    let total = full - os[i];
                    if total < 0 { return None; }
                    (os[i], if auto == "SAME_UPPER" { total / 2 } else { total - total / 2 })
                } else if auto.starts_with("SAME") {
                    let o = t.shape[2 + i] as i64 * st[i];
                    let total = (full - o).max(0);
                    (o, if auto == "SAME_UPPER" { total / 2 } else { total - total / 2 })
                } else {
                    let p = if auto == "VALID" { vec![0; 2 * n] } else { at.is("pads").unwrap_or_else(|| vec![0; 2 * n]) };
                    (full - p[i] - p[n + i], p[i])
                };
                if o <= 0 { return None; }
                sh.push(o as usize); lead.push(b);
            }
            let mut out = vec![0.0; sh.iter().product()];
            let opg = w.shape[1];
            let ipg = w.shape[0] / g;
            let kidx = indices(&w.shape[2..]);
            for ix in indices(&t.shape) {
                let gi = ix[1] / ipg;
                for oc in 0..opg {
                    'k: for k in &kidx {
                        let mut o = ix[0] * sh[1] + gi * opg + oc;
                        for i in 0..n {
                            let p = ix[2 + i] as i64 * st[i] + k[i] as i64 * di[i] - lead[i];
                            if p < 0 || p >= sh[2 + i] as i64 { continue 'k; }
                            o = o * sh[2 + i] + p as usize;
                        }
                        let mut wi = vec![ix[1], oc]; wi.extend(k);
                        out[o] += t.at(&ix) * w.at(&wi);
                    }
                }
            }
            if let Some(b) = opt(2) {
                let inner: usize = sh[2..].iter().product();
                for (k, v) in out.iter_mut().enumerate() { *v += b.v[(k / inner) % sh[1]]; }
            }
            one(T::new(sh, out, t.dt))
        }
        "MaxPool" | "AveragePool" => {
            let t = x()?;
            let n = t.rank().checked_sub(2)?;
            let ks = at.is("kernel_shape")?;
            if n == 0 || ks.len() != n { return None; }
            let st = at.is("strides").unwrap_or_else(|| vec![1; n]);
            let di = at.is("dilations").unwrap_or_else(|| vec![1; n]);
            let mut sh = vec![t.shape[0], t.shape[1]];
            let mut lead = vec![];
            for i in 0..n {
                let (o, l) = window(&at, i, n, t.shape[2 + i], ks[i] as usize, st[i] as usize, di[i] as usize)?;
                sh.push(o); lead.push(l);
            }
            let kidx = indices(&ks.iter().map(|k| *k as usize).collect::<Vec<_>>());
            let avg = op == "AveragePool";
            let incl = at.i("count_include_pad", 0) != 0;
            let y = build(sh, t.dt, |ix| {
                let (mut m, mut s, mut c) = (f64::NEG_INFINITY, 0.0, 0usize);
                'k: for k in &kidx {
                    let mut src = ix[..2].to_vec();
                    for i in 0..n {
                        let p = ix[2 + i] as i64 * st[i] + k[i] as i64 * di[i] - lead[i];
                        if p < 0 || p >= t.shape[2 + i] as i64 { if incl { c += 1; } continue 'k; }
                        src.push(p as usize);
                    }
                    let v = t.at(&src);
                    m = m.max(v); s += v; c += 1;
                }
                if avg { s / c.max(1) as f64 } else if m.is_finite() { m } else { 0.0 }
            });
            let mut r = vec![y.clone()];
            if n_out == 2 { let mut i = y; i.dt = Dt::I64; r.push(i); }
            Some(r)
        }
        "GlobalAveragePool" => {
            let t = x()?;
            if t.rank() < 3 { return None; }
            let inner: usize = t.shape[2..].iter().product();
            let mut sh = t.shape[..2].to_vec(); sh.extend(vec![1; t.rank() - 2]);
            let v = t.v.chunks(inner).map(|c| c.iter().sum::<f64>() / inner as f64).collect();
            one(T::new(sh, v, t.dt))
        }
        "BatchNormalization" => {
            let t = x()?;
            let eps = at.f("epsilon", f64::from(1e-5f32));
            let (sc, b, m, v) = (opt(1)?, opt(2)?, opt(3)?, opt(4)?);
            if t.rank() < 2 { return None; }
            one(build(t.shape.clone(), t.dt, |ix| { let c = ix[1]; (t.at(ix) - m.v[c]) / (v.v[c] + eps).sqrt() * sc.v[c] + b.v[c] }))
        }
        "LayerNormalization" => {
            let t = x()?;
            let a = axis(at.i("axis", -1), t.rank())?;
            let inner: usize = t.shape[a..].iter().product();
            let eps = at.f("epsilon", f64::from(1e-5f32));
            let sc = opt(1)?;
            let mut out = vec![];
            for row in t.v.chunks(inner) {
                let mu = row.iter().sum::<f64>() / inner as f64;
                let var = row.iter().map(|r| (r - mu) * (r - mu)).sum::<f64>() / inner as f64;
                for (k, r) in row.iter().enumerate() {
                    out.push((r - mu) / (var + eps).sqrt() * sc.v[k % sc.len()] + opt(2).map_or(0.0, |b| b.v[k % b.len()]));
                }
            }
            one(T::new(t.shape.clone(), out, t.dt))
        }
        "InstanceNormalization" | "GroupNormalization" => {
            let t = x()?;
            if t.rank() < 3 { return None; }
            let eps = at.f("epsilon", f64::from(1e-5f32));
            let g = if op == "InstanceNormalization" { t.shape[1] } else { at.i("num_groups", 1) as usize };
            if t.shape[1] % g != 0 { return None; }
            let sp: usize = t.shape[2..].iter().product();
            let chunk = t.shape[1] / g * sp;
            let (sc, b) = (opt(1)?, opt(2)?);
            let mut out = vec![];
            for (gi, row) in t.v.chunks(chunk).enumerate() {
                let mu = row.iter().sum::<f64>() / chunk as f64;
                let var = row.iter().map(|r| (r - mu) * (r - mu)).sum::<f64>() / chunk as f64;
                for (k, r) in row.iter().enumerate() {
                    let c = (gi % g) * (t.shape[1] / g) + k / sp;
                    out.push((r - mu) / (var + eps).sqrt() * sc.v[c] + b.v[c]);
                }
            }
            one(T::new(t.shape.clone(), out, t.dt))
        }
        "Reshape" => {
            let t = x()?;
            let tgt = opt(1).map(|s| s.iv()).or_else(|| at.is("shape"))?;
            let az = at.i("allowzero", 0) != 0;
            let mut sh: Vec<i64> = vec![];
            for (i, d) in tgt.iter().enumerate() { sh.push(if *d == 0 && !az { *t.shape.get(i)? as i64 } else { *d }); }
            if let Some(p) = sh.iter().position(|d| *d == -1) {
                let k: i64 = sh.iter().enumerate().filter(|(i, _)| *i != p).map(|(_, d)| *d).product();
                if k <= 0 || t.len() as i64 % k != 0 { return None; }
                sh[p] = t.len() as i64 / k;
            }
            if sh.iter().any(|d| *d < 0) || sh.iter().product::<i64>() != t.len() as i64 { return None; }
            one(T { shape: sh.iter().map(|d| *d as usize).collect(), v: t.v.clone(), dt: t.dt })
        }
        "Flatten" => {
            let t = x()?;
            let a = at.i("axis", 1);
            let r = t.rank() as i64;
            let a = if a < 0 { a + r } else { a };
            if a < 0 || a > r { return None; }
            let (l, h) = t.shape.split_at(a as usize);
            one(T { shape: vec![l.iter().product(), h.iter().product()], v: t.v.clone(), dt: t.dt })
        }
        "Squeeze" => {
            let t = x()?;
            let ax = opt(1).map(T::iv).or_else(|| at.is("axes"));
            let sh = match ax {
                None => t.shape.iter().copied().filter(|d| *d != 1).collect(),
                Some(ax) => {
                    let mut drop = vec![];
                    for a in ax { let a = axis(a, t.rank())?; if t.shape[a] != 1 || drop.contains(&a) { return None; } drop.push(a); }
                    t.shape.iter().enumerate().filter(|(i, _)| !drop.contains(i)).map(|(_, d)| *d).collect()
                }
            };
            one(T { shape: sh, v: t.v.clone(), dt: t.dt })
        }
        "Unsqueeze" => {
            let t = x()?;
            let ax = opt(1).map(T::iv).or_else(|| at.is("axes"))?;
            let r = t.rank() + ax.len();
            let mut pos = vec![];
            for a in ax { let a = axis(a, r)?; if pos.contains(&a) { return None; } pos.push(a); }
            let mut it = t.shape.iter();
            let sh = (0..r).map(|i| if pos.contains(&i) { 1 } else { *it.next().unwrap() }).collect();
            one(T { shape: sh, v: t.v.clone(), dt: t.dt })
        }
        "Transpose" => {
            let t = x()?;
            let p: Vec<usize> = at.is("perm").map_or_else(|| (0..t.rank()).rev().collect(), |p| p.iter().map(|a| *a as usize).collect());
            if p.len() != t.rank() { return None; }
            let sh: Vec<usize> = p.iter().map(|a| t.shape[*a]).collect();
            one(build(sh, t.dt, |ix| { let mut s = vec![0; p.len()]; for (k, a) in p.iter().enumerate() { s[*a] = ix[k]; } t.at(&s) }))
        }
        "Concat" => {
            let t = x()?;
            let a = axis(at.i("axis", 0), t.rank())?;
            let mut sh = t.shape.clone();
            sh[a] = 0;
            for k in 0..ins.len() {
                let u = opt(k)?;
                if u.rank() != t.rank() || (0..t.rank()).any(|i| i != a && u.shape[i] != t.shape[i]) { return None; }
                sh[a] += u.shape[a];
            }
            one(build(sh, t.dt, |ix| {
                let mut j = ix.to_vec();
                for k in 0..ins.len() {
                    let u = ins[k].unwrap();
                    if j[a] < u.shape[a] { return u.at(&j); }
                    j[a] -= u.shape[a];
                }
                unreachable!()
            }))
        }
        "Slice" => {
            let t = x()?;
            let (st, en) = (opt(1)?.iv(), opt(2)?.iv());
            let ax = opt(3).map_or_else(|| (0..st.len() as i64).collect(), T::iv);
            let sp = opt(4).map_or_else(|| vec![1; st.len()], T::iv);
            let mut sel: Vec<Vec<usize>> = t.shape.iter().map(|d| (0..*d).collect()).collect();
            for k in 0..st.len() {
                let a = axis(ax[k], t.rank())?;
                let d = t.shape[a] as i128;
                let norm = |v: i64| { let v = i128::from(v); if v < 0 { v + d } else { v } };
                let (s, e, p) = (norm(st[k]), norm(en[k]), i128::from(sp[k]));
                let mut r = vec![];
                if p > 0 {
                    let (mut i, e) = (s.clamp(0, d), e.clamp(0, d));
                    while i < e { r.push(i as usize); i += p; }
                } else if p < 0 {
                    let (mut i, e) = (s.clamp(0, d - 1), e.clamp(-1, d - 1));
                    while i > e { r.push(i as usize); i += p; }
                } else { return None; }
                sel[a] = r;
            }
            let sh: Vec<usize> = sel.iter().map(Vec::len).collect();
            one(build(sh, t.dt, |ix| t.at(&ix.iter().enumerate().map(|(d, i)| sel[d][*i]).collect::<Vec<_>>())))
        }
        "Split" => {
            let t = x()?;
            let a = axis(at.i("axis", 0), t.rank())?;
            let sizes: Vec<usize> = match opt(1).map(T::iv).or_else(|| at.is("split")) {
                Some(v) => v.iter().map(|d| *d as usize).collect(),
                None => { if t.shape[a] % n_out != 0 { return None; } vec![t.shape[a] / n_out; n_out] }
            };
            if sizes.iter().sum::<usize>() != t.shape[a] || sizes.len() != n_out { return None; }
            let mut off = 0;
            let mut r = vec![];
            for z in sizes {
                let mut sh = t.shape.clone();
                sh[a] = z;
                r.push(build(sh, t.dt, |ix| { let mut j = ix.to_vec(); j[a] += off; t.at(&j) }));
                off += z;
            }
            Some(r)
        }
        "Tile" => {
            let (t, r) = (x()?, opt(1)?.iv());
            if r.len() != t.rank() || r.iter().any(|v| *v < 0) { return None; }
            let sh = t.shape.iter().zip(&r).map(|(d, k)| d * *k as usize).collect();
            one(build(sh, t.dt, |ix| t.at(&ix.iter().zip(&t.shape).map(|(i, d)| i % d).collect::<Vec<_>>())))
        }
        "Expand" => {
            let (t, s) = (x()?, opt(1)?.iv());
            let sh = bshape(&t.shape, &s.iter().map(|d| *d as usize).collect::<Vec<_>>())?;
            one(build(sh, t.dt, |ix| bget(t, ix)))
        }
        "Pad" => {
            let t = x()?;
            let p = opt(1).map(T::iv).or_else(|| at.is("pads"))?;
            let n = t.rank();
            if p.len() != 2 * n { return None; }
            let val = opt(2).map_or(at.f("value", 0.0), |v| v.v[0]);
            let mode = at.s("mode", "constant");
            let mut sh = vec![];
            for i in 0..n { let d = t.shape[i] as i64 + p[i] + p[n + i]; if d < 0 { return None; } sh.push(d as usize); }
            one(build(sh, t.dt, |ix| {
                let mut j = vec![];
                for i in 0..n {
                    let d = t.shape[i] as i64;
                    let mut q = ix[i] as i64 - p[i];
                    if q < 0 || q >= d {
                        match mode.as_str() {
                            "edge" => q = q.clamp(0, d - 1),
                            "reflect" if d > 1 => { let per = 2 * (d - 1); q = q.rem_euclid(per); if q >= d { q = per - q; } }
                            _ => return val,
                        }
                    }
                    j.push(q as usize);
                }
                t.at(&j)
            }))
        }
        "Gather" => {
            let (t, ix_) = (x()?, opt(1)?);
            let a = axis(at.i("axis", 0), t.rank())?;
            let d = t.shape[a] as i64;
            let idx: Vec<usize> = ix_.iv().iter().map(|i| if *i < 0 { i + d } else { *i }).map(|i| (0..d).contains(&i).then_some(i as usize)).collect::<Option<_>>()?;
            let mut sh = t.shape[..a].to_vec(); sh.extend(&ix_.shape); sh.extend(&t.shape[a + 1..]);
            let it = T { shape: ix_.shape.clone(), v: idx.iter().map(|i| *i as f64).collect(), dt: Dt::I64 };
            let q = ix_.rank();
            one(build(sh, t.dt, |ix| {
                let mut j = ix[..a].to_vec(); j.push(it.at(&ix[a..a + q]) as usize); j.extend(&ix[a + q..]);
                t.at(&j)
            }))
        }
        "GatherElements" => {
            let (t, ix_) = (x()?, opt(1)?);
            let a = axis(at.i("axis", 0), t.rank())?;
            if ix_.rank() != t.rank() || (0..t.rank()).any(|i| i != a && ix_.shape[i] > t.shape[i]) { return None; }
            let d = t.shape[a] as i64;
            if ix_.iv().iter().any(|i| *i < -d || *i >= d) { return None; }
            one(build(ix_.shape.clone(), t.dt, |ix| { let mut j = ix.to_vec(); let v = ix_.at(ix) as i64; j[a] = (if v < 0 { v + d } else { v }) as usize; t.at(&j) }))
        }
        "ScatterND" => {
            let (t, ix_, up) = (x()?, opt(1)?, opt(2)?);
            let q = ix_.rank();
            let k = *ix_.shape.last()?;
            if k > t.rank() { return None; }
            let mut want = ix_.shape[..q - 1].to_vec(); want.extend(&t.shape[k..]);
            if up.shape != want { return None; }
            let mut out = t.v.clone();
            let inner: usize = t.shape[k..].iter().product();
            for (n, tup) in ix_.v.chunks(k.max(1)).enumerate() {
                let mut o = 0;
                for (d, i) in tup.iter().enumerate() { if *i < 0.0 || *i as usize >= t.shape[d] { return None; } o = o * t.shape[d] + *i as usize; }
                for e in 0..inner { out[o * inner + e] = up.v[n * inner + e]; }
            }
            one(T::new(t.shape.clone(), out, t.dt))
        }
        "TopK" => {
            let t = x()?;
            let a = axis(at.i("axis", -1), t.rank())?;
            let k = opt(1)?.i(0);
            if k < 1 || k as usize > t.shape[a] { return None; }
            let largest = at.i("largest", 1) != 0;
            let mut sh = t.shape.clone();
            sh[a] = k as usize;
            let pick = |ix: &[usize]| {
                let mut j = ix.to_vec();
                let mut row: Vec<(f64, usize)> = (0..t.shape[a]).map(|q| { j[a] = q; (t.at(&j), q) }).collect();
                row.sort_by(|l, r| if largest { (r.0 + 0.0).total_cmp(&(l.0 + 0.0)) } else { (l.0 + 0.0).total_cmp(&(r.0 + 0.0)) });
                row[ix[a]]
            };
            Some(vec![build(sh.clone(), t.dt, |ix| pick(ix).0), build(sh, Dt::I64, |ix| pick(ix).1 as f64)])
        }
        "Shape" => {
            let t = x()?;
            let r = t.rank() as i64;
            let norm = |v: i64| (if v < 0 { v + r } else { v }).clamp(0, r) as usize;
            let (s, e) = (norm(at.i("start", 0)), norm(at.i("end", r)));
            let v: Vec<i64> = if s < e { t.shape[s..e].iter().map(|d| *d as i64).collect() } else { vec![] };
            one(T::ints(&v))
        }
        "ConstantOfShape" => {
            let s = x()?.iv();
            let sh: Vec<usize> = s.iter().map(|d| *d as usize).collect();
            let (v, dt) = match At(attrs).get("value") { Some(A::T(t)) => (t.v[0], t.dt), _ => (0.0, Dt::F) };
            one(build(sh, dt, |_| v))
        }
        "Range" => {
            let (s, l, d) = (x()?.v[0], opt(1)?.v[0], opt(2)?.v[0]);
            if d == 0.0 { return None; }
            let n = ((l - s) / d).ceil().max(0.0) as usize;
            one(T::new(vec![n], (0..n).map(|i| s + i as f64 * d).collect(), x()?.dt))
        }
        "ReduceSum" | "ReduceMean" | "ReduceMax" => {
            let t = x()?;
            let raw = opt(1).map(T::iv).or_else(|| at.is("axes"));
            let noop = at.i("noop_with_empty_axes", 0) != 0;
            let mut ax = vec![];
            match raw {
                Some(v) if !v.is_empty() => for a in v { ax.push(axis(a, t.rank())?); },
                _ => if noop { return one(t.clone()); } else { ax = (0..t.rank()).collect(); },
            }
            let keep = at.i("keepdims", 1) != 0;
            let full: Vec<usize> = t.shape.iter().enumerate().map(|(i, d)| if ax.contains(&i) { 1 } else { *d }).collect();
            let red: Vec<usize> = t.shape.iter().enumerate().map(|(i, d)| if ax.contains(&i) { *d } else { 1 }).collect();
            let ridx = indices(&red);
            if op != "ReduceSum" && ridx.is_empty() { return None; }
            let y = build(full.clone(), t.dt, |ix| {
                let vs = ridx.iter().map(|r| t.at(&ix.iter().zip(r).map(|(a, b)| a + b).collect::<Vec<_>>()));
                match op { "ReduceSum" => vs.sum(), "ReduceMean" => vs.sum::<f64>() / ridx.len() as f64, _ => vs.fold(f64::NEG_INFINITY, f64::max) }
            });
            let sh = if keep { full } else { t.shape.iter().enumerate().filter(|(i, _)| !ax.contains(i)).map(|(_, d)| *d).collect() };
            one(T { shape: sh, v: y.v, dt: t.dt })
        }
        "Resize" => {
            // nearest (round_prefer_floor, asymmetric) or linear (asymmetric): a convex choice of inputs
            let t = x()?;
            let sh: Vec<usize> = if let Some(z) = opt(3) { z.iv().iter().map(|d| *d as usize).collect() }
                else { let sc = opt(2)?; t.shape.iter().zip(&sc.v).map(|(d, s)| (*d as f64 * s).floor() as usize).collect() };
            if sh.len() != t.rank() || sh.iter().any(|d| *d == 0) { return None; }
            one(build(sh.clone(), t.dt, |ix| t.at(&ix.iter().enumerate().map(|(d, i)| (i * t.shape[d] / sh[d]).min(t.shape[d] - 1)).collect::<Vec<_>>())))
        }
        "GridSample" => {
            let (t, g) = (x()?, opt(1)?);
            if t.rank() != 4 || g.rank() != 4 || g.shape[3] != 2 || g.shape[0] != t.shape[0] { return None; }
            let (h, w) = (t.shape[2] as f64, t.shape[3] as f64);
            one(build(vec![t.shape[0], t.shape[1], g.shape[1], g.shape[2]], t.dt, |ix| {
                let gx = g.at(&[ix[0], ix[2], ix[3], 0]); let gy = g.at(&[ix[0], ix[2], ix[3], 1]);
                let (px, py) = (((gx + 1.0) * w - 1.0) / 2.0, ((gy + 1.0) * h - 1.0) / 2.0);
                let (x0, y0) = (px.floor(), py.floor());
                let px_ = |yy: f64, xx: f64| if yy < 0.0 || xx < 0.0 || yy >= h || xx >= w { 0.0 } else { t.at(&[ix[0], ix[1], yy as usize, xx as usize]) };
                let (fx, fy) = (px - x0, py - y0);
                px_(y0, x0) * (1.0 - fx) * (1.0 - fy) + px_(y0, x0 + 1.0) * fx * (1.0 - fy) + px_(y0 + 1.0, x0) * (1.0 - fx) * fy + px_(y0 + 1.0, x0 + 1.0) * fx * fy
            }))
        }
        "Constant" => match At(attrs).get("value") { Some(A::T(t)) => one(t.clone()), _ => None },
        _ => panic!("reference interpreter lacks {op}"),
    }
}
