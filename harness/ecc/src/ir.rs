//! Random programs in the compiler's source language, their reference meaning, and a reference
//! interpreter of layered circuits. Values are 256-bit integers modulo the field order.
use expander_compiler::circuit::ir::common::Instruction as _;
use ethnum::U256;
use expander_compiler::circuit::ir::expr::{LinComb, LinCombTerm};
use expander_compiler::circuit::ir::source::{BoolBinOpType as B, Circuit, Constraint, ConstraintType as T, Instruction as I, RootCircuit, UnconstrainedBinOpType as U};
use expander_compiler::circuit::layered::{self, Coef, Input, InputType, InputUsize};
use expander_compiler::field::FieldArith;
use expander_compiler::frontend::{CircuitField, Config, Error, HintCaller};
use expander_compiler::hints::BuiltinHintIds;
use pbt::*;
use std::collections::HashMap;

pub type F<C> = CircuitField<C>;
pub fn modulus<C: Config>() -> U256 { <F<C> as FieldArith>::MODULUS }
pub fn z<C: Config>(x: U256) -> F<C> { F::<C>::from_u256(x) }
pub fn n<C: Config>(x: &F<C>) -> U256 { x.to_u256() }
pub fn bits_of(m: U256) -> usize { 256 - m.leading_zeros() as usize }

pub fn val<C: Config>(s: &mut Src) -> U256 {
    let m = modulus::<C>();
    let one = U256::ONE;
    match s.weighted(&[4, 3, 2, 2, 2, 4]) {
        0 => U256::from(s.draw(1)),
        1 => U256::from(s.draw(7)) % m,
        2 => m - one - U256::from(s.draw(3)) % m,
        3 => (U256::ONE << (s.below(bits_of(m)) as u32)) % m,
        4 => (m / U256::from(2u32) + U256::from(s.draw(3))) % m,
        _ => { let mut x = U256::ZERO; for _ in 0..4 { x = (x << 64) | U256::from(s.u64_any()) } x % m }
    }
}
pub fn el<C: Config>(s: &mut Src) -> F<C> { z::<C>(val::<C>(s)) }

/// The custom hint function used by every test: depends on the id, every input and the output index.
pub fn custom_hint<FF: expander_compiler::field::Field>(id: usize, args: &[FF], k: usize) -> FF {
    let mut h = SplitMix(id as u64 ^ 0x55);
    let mut acc = h.next() ^ k as u64;
    for a in args { let x = a.to_u256(); acc = SplitMix(acc ^ x.as_u64() ^ (x >> 64u32).as_u64().rotate_left(7)).next(); }
    if acc % 3 == 0 { FF::from(((acc >> 8) % 2) as u32) } else { FF::from((acc >> 16) as u32) }
}
pub struct Hints;
impl<FF: expander_compiler::field::Field> HintCaller<FF> for Hints {
    fn call(&self, id: usize, args: &[FF], n: usize) -> Result<Vec<FF>, Error> { Ok((0..n).map(|k| custom_hint(id, args, k)).collect()) }
}

// ---------------------------------------------------------------- reference semantics
#[derive(Default, Clone, Debug)]
pub struct Facts {
    pub violated: bool,  // some constraint, or an implied check whose value is used, does not hold
    pub dead: bool,      // an implied check of a value that may be unused does not hold
    pub overflow: bool,  // a ToBinary value does not fit
    pub free: bool,      // the program leaves a value undetermined (0/0, unconstrained hints)
    pub divzero: bool,   // a divisor is zero somewhere (constrained or not)
    pub steps: usize,
}
fn addm<C: Config>(a: U256, b: U256) -> U256 { n::<C>(&(z::<C>(a) + z::<C>(b))) }
pub fn shift<C: Config>(x: U256, k: U256, left: bool) -> U256 {
    // circom semantics: shifts by more than half the field go the other way
    let m = modulus::<C>();
    let (k, left) = if k > m / 2 { (m - k, !left) } else { (k, left) };
    if k >= 256 { return U256::ZERO }
    let k = k.as_u32();
    if left { (x << k) & ((U256::ONE << bits_of(m)) - 1) } else { x >> k }
}
pub fn unop<C: Config>(op: &U, x: U256, y: U256) -> U256 {
    let b = |t: bool| U256::from(t as u32);
    let (fx, fy) = (z::<C>(x), z::<C>(y));
    let zero = U256::ZERO;
    let r = match op {
        U::Div => if y == zero { zero } else { n::<C>(&(fx * fy.inv().unwrap())) },
        U::Pow => { let (mut r, mut i) = (F::<C>::one(), 256u32); while i > 0 { i -= 1; r = r * r; if (y >> i) & 1 == 1 { r = r * fx } } n::<C>(&r) }
        U::IntDiv => if y == zero { zero } else { x / y },
        U::Mod => if y == zero { zero } else { x % y },
        U::ShiftL => shift::<C>(x, y, true),
        U::ShiftR => shift::<C>(x, y, false),
        U::LesserEq => b(x <= y), U::GreaterEq => b(x >= y), U::Lesser => b(x < y), U::Greater => b(x > y),
        U::Eq => b(x == y), U::NotEq => b(x != y),
        U::BoolOr => b(x != zero || y != zero), U::BoolAnd => b(x != zero && y != zero),
        U::BitOr => x | y, U::BitAnd => x & y, U::BitXor => x ^ y,
    };
    r % modulus::<C>()
}
pub fn step<C: Config>(i: &I<C>, v: &[U256], public: &[F<C>], root: &RootCircuit<C>, f: &mut Facts, live: &[bool]) -> Vec<U256> {
    let one = U256::ONE;
    f.steps += 1;
    let isb = |x: U256| x <= one;
    let used = live.iter().any(|x| *x);
    let fail = |f: &mut Facts| if used { f.violated = true } else { f.dead = true };
    match i {
        I::LinComb(l) => { let mut r = l.constant; for t in &l.terms { r += t.coef * z::<C>(v[t.var]) } vec![n::<C>(&r)] }
        I::Mul(xs) => { let mut r = F::<C>::one(); for x in xs { r *= z::<C>(v[*x]) } vec![n::<C>(&r)] }
        I::Div { x, y, checked } => {
            if v[*y] == U256::ZERO {
                f.divzero = true;
                if *checked || v[*x] != U256::ZERO { fail(f) } else { f.free = true }
                vec![U256::ZERO]
            } else { vec![unop::<C>(&U::Div, v[*x], v[*y])] }
        }
        I::BoolBinOp { x, y, op } => {
            let (a, b) = (v[*x], v[*y]);
            if !isb(a) || !isb(b) {
                fail(f);
                let (x, y) = (z::<C>(a), z::<C>(b));
                return vec![n::<C>(&match op { B::Xor => x + y - (x * y).double(), B::Or => x + y - x * y, B::And => x * y })];
            }
            vec![match op { B::Xor => a ^ b, B::Or => a | b, B::And => a & b }]
        }
        I::IsZero(x) => vec![U256::from((v[*x] == U256::ZERO) as u32)],
        I::Hint { hint_id, inputs, num_outputs } => {
            f.free = true;
            let a: Vec<U256> = inputs.iter().map(|x| v[*x]).collect();
            hint_ref::<C>(*hint_id, &a, *num_outputs, f)
        }
        I::ConstantLike(Coef::Constant(c)) => vec![n::<C>(c)],
        I::ConstantLike(Coef::PublicInput(k)) => vec![n::<C>(&public[*k])],
        I::ConstantLike(Coef::Random) | I::Commit(_) | I::CustomGate { .. } => unreachable!(),
        I::SubCircuitCall { sub_circuit_id, inputs, .. } => {
            let a: Vec<U256> = inputs.iter().map(|x| v[*x]).collect();
            run_sub::<C>(&root.circuits[sub_circuit_id], a, public, root, f, live)
        }
        I::UnconstrainedBinOp { x, y, op } => { f.free = true; if v[*y] == U256::ZERO { f.divzero = true } vec![unop::<C>(op, v[*x], v[*y])] }
        I::UnconstrainedSelect { cond, if_true, if_false } => { f.free = true; vec![if v[*cond] != U256::ZERO { v[*if_true] } else { v[*if_false] }] }
        I::ToBinary { x, num_bits } => {
            if *num_bits < 256 && v[*x] >> (*num_bits as u32) != U256::ZERO { f.overflow = true; fail(f) }
            (0..*num_bits).map(|i| if i < 256 { (v[*x] >> (i as u32)) & one } else { U256::ZERO }).collect()
        }
    }
}
fn hint_ref<C: Config>(id: usize, a: &[U256], k: usize, f: &mut Facts) -> Vec<U256> {
    let base = BuiltinHintIds::Identity as usize;
    let ops = [U::Div, U::Eq, U::NotEq, U::BoolOr, U::BoolAnd, U::BitOr, U::BitAnd, U::BitXor];
    let ops2 = [U::Pow, U::IntDiv, U::Mod, U::ShiftL, U::ShiftR, U::LesserEq, U::GreaterEq, U::Lesser, U::Greater];
    match BuiltinHintIds::from_usize(id) {
        None => { let x: Vec<F<C>> = a.iter().map(|x| z::<C>(*x)).collect(); (0..k).map(|i| n::<C>(&custom_hint::<F<C>>(id, &x, i))).collect() }
        Some(BuiltinHintIds::Identity) => a.to_vec(),
        Some(BuiltinHintIds::Select) => vec![if a[0] != U256::ZERO { a[1] } else { a[2] }],
        Some(BuiltinHintIds::ToBinary) => {
            if k < 256 && a[0] >> (k as u32) != U256::ZERO { f.overflow = true }
            (0..k).map(|i| if i < 256 { (a[0] >> (i as u32)) & U256::ONE } else { U256::ZERO }).collect()
        }
        Some(_) => { let i = id - base; vec![unop::<C>(if i <= 8 { &ops[i - 1] } else { &ops2[i - 10] }, a[0], a[1])] }
    }
}
pub fn run_sub<C: Config>(c: &Circuit<C>, inputs: Vec<U256>, public: &[F<C>], root: &RootCircuit<C>, f: &mut Facts, used: &[bool]) -> Vec<U256> {
    let mut v = vec![U256::ZERO];
    v.extend(inputs);
    let live = live_vars(c, used);
    for i in &c.instructions { let k = i.num_outputs(); let l = &live[v.len()..v.len() + k]; let o = step::<C>(i, &v, public, root, f, l); v.extend(o) }
    for k in &c.constraints { if !holds(k.typ, v[k.var]) { f.violated = true } }
    c.outputs.iter().map(|o| v[*o]).collect()
}
/// Variables that no dead-code elimination may drop: they reach a constraint or a used output without
/// passing through a linear combination (which may cancel) or a call.
fn live_vars<C: Config>(c: &Circuit<C>, used: &[bool]) -> Vec<bool> {
    let total = 1 + c.num_inputs + c.instructions.iter().map(|i| i.num_outputs()).sum::<usize>();
    let mut live = vec![false; total];
    for k in &c.constraints { live[k.var] = true }
    for (o, u) in c.outputs.iter().zip(used) { if *u { live[*o] = true } }
    let mut first = total;
    for i in c.instructions.iter().rev() {
        first -= i.num_outputs();
        let alive = (first..first + i.num_outputs()).any(|k| live[k]);
        if alive && !matches!(i, I::LinComb(_) | I::SubCircuitCall { .. }) { for x in i.inputs() { live[x] = true } }
    }
    live
}
fn holds(t: T, x: U256) -> bool { match t { T::Zero => x == U256::ZERO, T::NonZero => x != U256::ZERO, T::Bool => x <= U256::ONE } }
pub fn run<C: Config>(root: &RootCircuit<C>, inputs: &[F<C>], public: &[F<C>]) -> (Vec<F<C>>, Facts) {
    let mut f = Facts::default();
    let o = run_sub::<C>(&root.circuits[&0], inputs.iter().map(n::<C>).collect(), public, root, &mut f, &vec![true; root.circuits[&0].outputs.len()]);
    (o.into_iter().map(z::<C>).collect(), f)
}
/// Size of the program when every sub-circuit call is expanded.
pub fn weight<C: Config>(root: &RootCircuit<C>) -> usize {
    fn w<C: Config>(root: &RootCircuit<C>, id: usize, memo: &mut HashMap<usize, usize>) -> usize {
        if let Some(x) = memo.get(&id) { return *x }
        let mut t = 0usize;
        for i in &root.circuits[&id].instructions { t += match i { I::SubCircuitCall { sub_circuit_id, .. } => w(root, *sub_circuit_id, memo), I::ToBinary { num_bits, .. } => 3 * num_bits, _ => 1 } }
        memo.insert(id, t);
        t
    }
    w(root, 0, &mut HashMap::new())
}

// ---------------------------------------------------------------- generator
#[derive(Clone, Copy)]
pub struct Shape { pub max_subs: usize, pub max_insns: usize, pub unconstrained: bool, pub terms: usize }

struct Gen<C: Config> { root: RootCircuit<C>, ids: Vec<usize>, sh: Shape, public: Vec<F<C>> }

impl<C: Config> Gen<C> {
    fn pickv(&self, s: &mut Src, nv: usize) -> usize {
        if s.chance(1, 2) { 1 + s.below(nv) as usize } else { nv - s.below(nv.min(4)) as usize }
    }
    fn insn(&self, s: &mut Src, v: &[U256], level: usize) -> I<C> {
        let nv = v.len() - 1;
        let boolv = |s: &mut Src, me: &Self| { // prefer a variable that currently holds a bit
            for _ in 0..4 { let x = me.pickv(s, nv); if v[x] <= U256::ONE { return x } }
            me.pickv(s, nv)
        };
        let w: &[u64] = if self.sh.unconstrained { &[2, 6, 6, 3, 4, 3, 2, 4, 3, 5, 2] } else { &[2, 6, 6, 3, 4, 3, 0, 0, 0, 5, 2] };
        match s.weighted(w) {
            0 => I::ConstantLike(if !self.public.is_empty() && s.chance(1, 2) { Coef::PublicInput(s.below(self.public.len()) as usize) } else { Coef::Constant(el::<C>(s)) }),
            1 => { let k = s.usize_in(0, self.sh.terms); I::LinComb(LinComb { terms: (0..k).map(|_| LinCombTerm { coef: el::<C>(s), var: self.pickv(s, nv) }).collect(), constant: if s.bool() { el::<C>(s) } else { F::<C>::zero() } }) }
            2 => { let k = s.usize_in(2, self.sh.terms.max(2)); I::Mul((0..k).map(|_| self.pickv(s, nv)).collect()) }
            3 => I::Div { x: self.pickv(s, nv), y: { let mut y = self.pickv(s, nv); for _ in 0..3 { if v[y] == U256::ZERO { y = self.pickv(s, nv) } } y }, checked: s.bool() },
            4 => I::BoolBinOp { x: boolv(s, self), y: boolv(s, self), op: match s.below(3) { 0 => B::Xor, 1 => B::Or, _ => B::And } },
            5 => I::IsZero(if s.bool() { let z: Vec<usize> = (1..=nv).filter(|i| v[*i] == U256::ZERO).collect(); if z.is_empty() { self.pickv(s, nv) } else { z[s.below(z.len())] } } else { self.pickv(s, nv) }),
            6 => {
                let base = BuiltinHintIds::Identity as usize;
                if s.bool() { let k = s.usize_in(1, 3); I::Hint { hint_id: 7 + s.below(3) as usize, inputs: (0..k).map(|_| self.pickv(s, nv)).collect(), num_outputs: s.usize_in(1, 3) } }
                else {
                    let h = s.below(19) as usize;
                    let (ni, no) = match h { 0 => { let k = s.usize_in(1, 3); (k, k) } 9 => (3, 1), _ => (2, 1) };
                    I::Hint { hint_id: base + h, inputs: (0..ni).map(|_| self.pickv(s, nv)).collect(), num_outputs: no }
                }
            }
            7 => { let (x, y) = (self.pickv(s, nv), self.pickv(s, nv)); I::UnconstrainedBinOp { x, y, op: match s.below(17) { 0 => U::Div, 1 => U::Pow, 2 => U::IntDiv, 3 => U::Mod, 4 => U::ShiftL, 5 => U::ShiftR, 6 => U::LesserEq, 7 => U::GreaterEq, 8 => U::Lesser, 9 => U::Greater, 10 => U::Eq, 11 => U::NotEq, 12 => U::BoolOr, 13 => U::BoolAnd, 14 => U::BitOr, 15 => U::BitAnd, _ => U::BitXor } } }
            8 => I::UnconstrainedSelect { cond: self.pickv(s, nv), if_true: self.pickv(s, nv), if_false: self.pickv(s, nv) },
            9 if level + 1 < self.ids.len() => {
                let id = self.ids[level + 1 + s.below(self.ids.len() - level - 1)];
                let c = &self.root.circuits[&id];
                I::SubCircuitCall { sub_circuit_id: id, inputs: (0..c.num_inputs).map(|_| self.pickv(s, nv)).collect(), num_outputs: c.outputs.len() }
            }
            10 => {
                let x = boolv(s, self);
                let need = bits_of(v[x]).max(1);
                let k = match s.weighted(&[6, 1, 1]) { 0 => need + s.below(3), 1 => bits_of(modulus::<C>()) - 1 + s.below(4), _ => s.usize_in(1, 5) };
                I::ToBinary { x, num_bits: k }
            }
            _ => I::Mul(vec![self.pickv(s, nv), self.pickv(s, nv)]),
        }
    }
    fn circuit(&mut self, s: &mut Src, level: usize, inputs: Vec<U256>, constrain: bool) -> Circuit<C> {
        let mut c = Circuit::<C> { instructions: vec![], constraints: vec![], outputs: vec![], num_inputs: inputs.len() };
        let mut v = vec![U256::ZERO];
        v.extend(inputs);
        let k = s.usize_in(1, self.sh.max_insns);
        let mut f = Facts::default();
        for _ in 0..k {
            let i = self.insn(s, &v, level);
            let o = step::<C>(&i, &v, &self.public, &self.root, &mut f, &[]);
            c.instructions.push(i);
            v.extend(o);
            if constrain && s.chance(1, 5) { self.constrain(s, &mut c, &mut v) }
        }
        let nv = v.len() - 1;
        let no = s.usize_in(if level == 0 { 0 } else { 1 }, 4);
        c.outputs = (0..no).map(|_| self.pickv(s, nv)).collect();
        if level == 0 && c.outputs.is_empty() && c.constraints.is_empty() { c.outputs.push(nv) }
        c
    }
    /// Adds a constraint that (mostly) holds on the values at hand, or holds identically.
    fn constrain(&self, s: &mut Src, c: &mut Circuit<C>, v: &mut Vec<U256>) {
        let nv = v.len() - 1;
        let x = self.pickv(s, nv);
        let one = F::<C>::one();
        let push = |i: I<C>, c: &mut Circuit<C>, v: &mut Vec<U256>| { let o = step::<C>(&i, v, &self.public, &self.root, &mut Facts::default(), &[]); c.instructions.push(i); v.extend(o); v.len() - 1 };
        let (typ, var) = match s.below(6) {
            0 => (T::Zero, push(I::LinComb(LinComb { terms: vec![LinCombTerm { coef: one, var: x }], constant: -z::<C>(v[x]) }), c, v)),
            1 => { // x * is_zero(x) == 0 always
                let b = push(I::IsZero(x), c, v);
                (T::Zero, push(I::Mul(vec![x, b]), c, v))
            }
            2 => { // commutativity: x*y - y*x + 0 == 0 always
                let y = self.pickv(s, nv);
                let a = push(I::Mul(vec![x, y]), c, v);
                let b = push(I::Mul(vec![y, x]), c, v);
                (T::Zero, push(I::LinComb(LinComb { terms: vec![LinCombTerm { coef: one, var: a }, LinCombTerm { coef: -one, var: b }], constant: F::<C>::zero() }), c, v))
            }
            3 => (T::Bool, if v[x] <= U256::ONE { x } else { push(I::IsZero(x), c, v) }),
            4 => (T::NonZero, if v[x] != U256::ZERO { x } else { push(I::LinComb(LinComb { terms: vec![LinCombTerm { coef: one, var: x }], constant: one }), c, v) }),
            _ => { // x - y == 0 for two variables that happen to be equal
                let y = (1..=nv).find(|y| *y != x && v[*y] == v[x]).unwrap_or(x);
                (T::Zero, push(I::LinComb(LinComb { terms: vec![LinCombTerm { coef: one, var: x }, LinCombTerm { coef: -one, var: y }], constant: F::<C>::zero() }), c, v))
            }
        };
        c.constraints.push(Constraint { typ, var });
    }
}
pub struct Program<C: Config> { pub root: RootCircuit<C>, pub inputs: Vec<F<C>>, pub public: Vec<F<C>> }
pub fn program<C: Config>(s: &mut Src, sh: Shape) -> Program<C> {
    let np = s.weighted(&[3, 2, 1]);
    let public: Vec<F<C>> = (0..np).map(|_| el::<C>(s)).collect();
    let subs = s.usize_in(0, sh.max_subs);
    let mut ids = vec![0];
    for i in 0..subs { ids.push(if s.bool() { i + 1 } else { 1000 + 977 * s.below(1000) as usize + i }) }
    let mut g = Gen::<C> { root: RootCircuit { num_public_inputs: np, expected_num_output_zeroes: 0, circuits: HashMap::new() }, ids, sh, public: public.clone() };
    for level in (1..g.ids.len()).rev() {
        let k = s.usize_in(1, 4);
        let ins: Vec<U256> = (0..k).map(|_| val::<C>(s)).collect();
        let con = s.chance(1, 2);
        let c = g.circuit(s, level, ins, con);
        let id = g.ids[level];
        g.root.circuits.insert(id, c);
    }
    let k = s.usize_in(1, 6);
    let ins: Vec<U256> = (0..k).map(|_| val::<C>(s)).collect();
    let c = g.circuit(s, 0, ins.clone(), true);
    g.root.circuits.insert(0, c);
    Program { root: g.root, inputs: ins.into_iter().map(z::<C>).collect(), public }
}
pub fn describe<C: Config>(r: &RootCircuit<C>) -> String {
    let mut ids: Vec<_> = r.circuits.keys().collect();
    ids.sort();
    let mut o = format!("{} public;", r.num_public_inputs);
    for i in ids { let c = &r.circuits[i]; o += &format!(" circuit {i}({} in): {:?} constraints {:?} outputs {:?};", c.num_inputs, c.instructions, c.constraints, c.outputs) }
    o
}

// ---------------------------------------------------------------- layered circuits
/// Independent interpreter: returns every layer's values (inputs first). `coef` supplies random coefficients.
pub fn layers<C: Config, T: InputType>(l: &layered::Circuit<C, T>, inputs: &[F<C>], public: &[F<C>], rnd: &mut SplitMix) -> Vec<Vec<F<C>>> {
    fn co<C: Config>(c: &Coef<C>, p: &[F<C>], rnd: &mut SplitMix) -> F<C> {
        match c { Coef::Constant(x) => *x, Coef::PublicInput(i) => p[*i], Coef::Random => { let mut x = U256::ZERO; for _ in 0..4 { x = (x << 64) | U256::from(rnd.next()) } z::<C>(x % modulus::<C>()) } }
    }
    fn seg<C: Config, T: InputType>(l: &layered::Circuit<C, T>, id: usize, ins: &[(&[F<C>], usize)], out: &mut [F<C>], base: usize, p: &[F<C>], rnd: &mut SplitMix) {
        let g = &l.segments[id];
        let at = |i: &T::Input| { let (v, off) = &ins[i.layer()]; v[off + i.offset()] };
        for m in &g.gate_muls { out[base + m.output] += at(&m.inputs[0]) * at(&m.inputs[1]) * co(&m.coef, p, rnd) }
        for m in &g.gate_adds { out[base + m.output] += at(&m.inputs[0]) * co(&m.coef, p, rnd) }
        for m in &g.gate_consts { out[base + m.output] += co(&m.coef, p, rnd) }
        for (c, allocs) in &g.child_segs { for a in allocs {
            let sub: Vec<(&[F<C>], usize)> = a.input_offset.iter().enumerate().map(|(k, o)| (ins[k].0, ins[k].1 + o)).collect();
            seg(l, *c, &sub, out, base + a.output_offset, p, rnd)
        } }
    }
    let mut v: Vec<Vec<F<C>>> = vec![inputs.to_vec()];
    for id in &l.layer_ids {
        let mut out = vec![F::<C>::zero(); l.segments[*id].num_outputs];
        let ins: Vec<(&[F<C>], usize)> = (0..l.segments[*id].num_inputs.len()).map(|k| (v[v.len() - 1 - k].as_slice(), 0)).collect();
        seg(l, *id, &ins, &mut out, 0, public, rnd);
        v.push(out);
    }
    v
}
pub fn eval<C: Config, T: InputType>(l: &layered::Circuit<C, T>, inputs: &[F<C>], public: &[F<C>], rnd: &mut SplitMix) -> (Vec<F<C>>, bool) {
    let v = layers(l, inputs, public, rnd);
    let o = v.last().unwrap();
    (o[l.expected_num_output_zeroes..l.num_actual_outputs].to_vec(), o[..l.expected_num_output_zeroes].iter().all(|x| x.is_zero()))
}
