//! A circuit builder that evaluates a circuit on concrete values the way the solver and the
//! constraint system together would: it remembers every value an honest prover chooses freely
//! (unconstrained operations and hints), lets a plan replace any of them, and counts failed
//! assertions instead of stopping at the first.
use ethnum::U256;
use expander_compiler::frontend::api::UnconstrainedAPI;
use expander_compiler::frontend::builder::{ToVariableOrValue, VariableOrValue};
use expander_compiler::frontend::extra::DebugBuilder;
use expander_compiler::frontend::{BasicAPI, CircuitField, Config, FieldArith, HintRegistry, RootAPI, Variable};
use expander_compiler::hints::registry::hint_key_to_id;
use pbt::SplitMix;
use std::collections::{HashMap, HashSet};

pub struct Site<F> {
    pub name: String,
    pub args: Vec<F>,
    pub outs: Vec<F>,
}
pub type Plan<F> = HashMap<(usize, usize), F>;

pub struct FB<C: Config> {
    inner: DebugBuilder<C, HintRegistry<CircuitField<C>>>,
    reg: HintRegistry<CircuitField<C>>,
    plan: Plan<CircuitField<C>>,
    pub sites: Vec<Site<CircuitField<C>>>,
    pub fails: usize,
    pub hint_errs: Vec<String>,
    pub asserts: usize,
    consts: HashSet<usize>,
    pub outputs: Vec<Variable>,
    rng: SplitMix,
}
pub fn small<C: Config>(f: CircuitField<C>) -> Option<i128> {
    let u = f.to_u256();
    if u < U256::from(1u128 << 120) && u <= CircuitField::<C>::MODULUS / 2 { return Some(u.as_i128()); }
    let n = CircuitField::<C>::MODULUS - u;
    if n < U256::from(1u128 << 120) { Some(-n.as_i128()) } else { None }
}
pub fn fe<C: Config>(x: i128) -> CircuitField<C> {
    let m = CircuitField::<C>::from_u256(U256::from(x.unsigned_abs()) % CircuitField::<C>::MODULUS);
    if x < 0 { -m } else { m }
}
fn count_key(k: &str) -> bool { k == "myhint.querycounthint" || k == "myhint.querycountbykeyhint" }

impl<C: Config> FB<C> {
    pub fn val(&mut self, x: impl ToVariableOrValue<CircuitField<C>>) -> CircuitField<C> {
        match x.convert_to_variable_or_value() {
            VariableOrValue::Variable(v) => self.inner.constant_value(v).unwrap(),
            VariableOrValue::Value(v) => v,
        }
    }
    fn free(&mut self, name: &str, args: Vec<CircuitField<C>>, outs: Vec<CircuitField<C>>) -> Vec<Variable> {
        let at = self.sites.len();
        let outs: Vec<_> = outs.into_iter().enumerate().map(|(i, o)| self.plan.get(&(at, i)).copied().unwrap_or(o)).collect();
        let vs = outs.iter().map(|o| self.inner.constant(*o)).collect();
        self.sites.push(Site { name: name.to_string(), args, outs });
        vs
    }
    fn check(&mut self, ok: bool) {
        self.asserts += 1;
        if !ok { self.fails += 1; }
    }
}

impl<C: Config> BasicAPI<C> for FB<C> {
    fn display(&self, _l: &str, _x: impl ToVariableOrValue<CircuitField<C>>) {}
    fn add(&mut self, x: impl ToVariableOrValue<CircuitField<C>>, y: impl ToVariableOrValue<CircuitField<C>>) -> Variable { self.inner.add(x, y) }
    fn sub(&mut self, x: impl ToVariableOrValue<CircuitField<C>>, y: impl ToVariableOrValue<CircuitField<C>>) -> Variable { self.inner.sub(x, y) }
    fn mul(&mut self, x: impl ToVariableOrValue<CircuitField<C>>, y: impl ToVariableOrValue<CircuitField<C>>) -> Variable { self.inner.mul(x, y) }
    fn xor(&mut self, x: impl ToVariableOrValue<CircuitField<C>>, y: impl ToVariableOrValue<CircuitField<C>>) -> Variable { self.inner.xor(x, y) }
    fn or(&mut self, x: impl ToVariableOrValue<CircuitField<C>>, y: impl ToVariableOrValue<CircuitField<C>>) -> Variable { self.inner.or(x, y) }
    fn and(&mut self, x: impl ToVariableOrValue<CircuitField<C>>, y: impl ToVariableOrValue<CircuitField<C>>) -> Variable { self.inner.and(x, y) }
    fn div(&mut self, x: impl ToVariableOrValue<CircuitField<C>>, y: impl ToVariableOrValue<CircuitField<C>>, checked: bool) -> Variable {
        let (a, b) = (self.val(x), self.val(y));
        if b.is_zero() {
            // a checked division by zero has no witness; an unchecked one is zero over zero
            if checked || !a.is_zero() { self.check(false); }
            return self.inner.constant(CircuitField::<C>::zero());
        }
        self.inner.div(a, b, checked)
    }
    fn neg(&mut self, x: impl ToVariableOrValue<CircuitField<C>>) -> Variable { self.inner.neg(x) }
    fn is_zero(&mut self, x: impl ToVariableOrValue<CircuitField<C>>) -> Variable { self.inner.is_zero(x) }
    fn to_binary(&mut self, x: impl ToVariableOrValue<CircuitField<C>>, n: usize) -> Vec<Variable> {
        let v = self.val(x);
        match expander_compiler::hints::to_binary(v, n) {
            Ok(b) => b.into_iter().map(|b| self.inner.constant(b)).collect(),
            Err(_) => { self.check(false); (0..n).map(|_| self.inner.constant(CircuitField::<C>::zero())).collect() }
        }
    }
    fn gt(&mut self, x: impl ToVariableOrValue<CircuitField<C>>, y: impl ToVariableOrValue<CircuitField<C>>) -> Variable { self.inner.gt(x, y) }
    fn geq(&mut self, x: impl ToVariableOrValue<CircuitField<C>>, y: impl ToVariableOrValue<CircuitField<C>>) -> Variable { self.inner.geq(x, y) }
    fn assert_is_zero(&mut self, x: impl ToVariableOrValue<CircuitField<C>>) { let v = self.val(x); self.check(v.is_zero()) }
    fn assert_is_non_zero(&mut self, x: impl ToVariableOrValue<CircuitField<C>>) { let v = self.val(x); self.check(!v.is_zero()) }
    fn assert_is_bool(&mut self, x: impl ToVariableOrValue<CircuitField<C>>) { let v = self.val(x); self.check(v.is_zero() || v == CircuitField::<C>::one()) }
    fn get_random_value(&mut self) -> Variable {
        let mut v = CircuitField::<C>::zero();
        for _ in 0..4 { v = v * CircuitField::<C>::from_u256(U256::from(1u64 << 63)) + CircuitField::<C>::from_u256(U256::from(self.rng.next() >> 1)); }
        self.inner.constant(v)
    }
    fn new_hint(&mut self, key: &str, inputs: &[Variable], n: usize) -> Vec<Variable> {
        let args: Vec<_> = inputs.iter().map(|v| self.val(v)).collect();
        let outs = match self.reg.call(hint_key_to_id(key), &args, n) {
            Ok(o) => o,
            Err(e) => {
                self.hint_errs.push(format!("{key}: {e:?}"));
                let mut c = vec![CircuitField::<C>::zero(); n];
                if key == "myhint.querycounthint" {
                    for a in &args {
                        let u = a.to_u256();
                        if u < U256::from(n as u64) { c[u.as_usize()] += CircuitField::<C>::one(); }
                    }
                }
                c
            }
        };
        if count_key(key) { return outs.into_iter().map(|o| self.inner.constant(o)).collect(); }
        self.free(key, args, outs)
    }
    fn constant(&mut self, x: impl ToVariableOrValue<CircuitField<C>>) -> Variable {
        let v = self.inner.constant(x);
        self.consts.insert(v.id());
        v
    }
    fn constant_value(&mut self, x: impl ToVariableOrValue<CircuitField<C>>) -> Option<CircuitField<C>> {
        match x.convert_to_variable_or_value() {
            VariableOrValue::Variable(v) => if self.consts.contains(&v.id()) { self.inner.constant_value(v) } else { None },
            VariableOrValue::Value(v) => Some(v),
        }
    }
}
impl<C: Config> UnconstrainedAPI<C> for FB<C> {
    fn unconstrained_identity(&mut self, x: impl ToVariableOrValue<CircuitField<C>>) -> Variable { let v = self.val(x); self.free("identity", vec![v], vec![v])[0] }
    fn unconstrained_add(&mut self, x: impl ToVariableOrValue<CircuitField<C>>, y: impl ToVariableOrValue<CircuitField<C>>) -> Variable {
        let (a, b) = (self.val(x), self.val(y));
        let r = self.inner.unconstrained_add(a, b);
        let r = self.inner.constant_value(r).unwrap();
        self.free("add", vec![a, b], vec![r])[0]
    }
    fn unconstrained_mul(&mut self, x: impl ToVariableOrValue<CircuitField<C>>, y: impl ToVariableOrValue<CircuitField<C>>) -> Variable {
        let (a, b) = (self.val(x), self.val(y));
        let r = self.inner.unconstrained_mul(a, b);
        let r = self.inner.constant_value(r).unwrap();
        self.free("mul", vec![a, b], vec![r])[0]
    }
    fn unconstrained_div(&mut self, x: impl ToVariableOrValue<CircuitField<C>>, y: impl ToVariableOrValue<CircuitField<C>>) -> Variable {
        let (a, b) = (self.val(x), self.val(y));
        let r = self.inner.unconstrained_div(a, b);
        let r = self.inner.constant_value(r).unwrap();
        self.free("div", vec![a, b], vec![r])[0]
    }
    fn unconstrained_pow(&mut self, x: impl ToVariableOrValue<CircuitField<C>>, y: impl ToVariableOrValue<CircuitField<C>>) -> Variable {
        let (a, b) = (self.val(x), self.val(y));
        let r = self.inner.unconstrained_pow(a, b);
        let r = self.inner.constant_value(r).unwrap();
        self.free("pow", vec![a, b], vec![r])[0]
    }
    fn unconstrained_int_div(&mut self, x: impl ToVariableOrValue<CircuitField<C>>, y: impl ToVariableOrValue<CircuitField<C>>) -> Variable {
        let (a, b) = (self.val(x), self.val(y));
        let r = self.inner.unconstrained_int_div(a, b);
        let r = self.inner.constant_value(r).unwrap();
        self.free("int_div", vec![a, b], vec![r])[0]
    }
    fn unconstrained_mod(&mut self, x: impl ToVariableOrValue<CircuitField<C>>, y: impl ToVariableOrValue<CircuitField<C>>) -> Variable {
        let (a, b) = (self.val(x), self.val(y));
        let r = self.inner.unconstrained_mod(a, b);
        let r = self.inner.constant_value(r).unwrap();
        self.free("mod", vec![a, b], vec![r])[0]
    }
    fn unconstrained_shift_l(&mut self, x: impl ToVariableOrValue<CircuitField<C>>, y: impl ToVariableOrValue<CircuitField<C>>) -> Variable {
        let (a, b) = (self.val(x), self.val(y));
        let r = self.inner.unconstrained_shift_l(a, b);
        let r = self.inner.constant_value(r).unwrap();
        self.free("shift_l", vec![a, b], vec![r])[0]
    }
    fn unconstrained_shift_r(&mut self, x: impl ToVariableOrValue<CircuitField<C>>, y: impl ToVariableOrValue<CircuitField<C>>) -> Variable {
        let (a, b) = (self.val(x), self.val(y));
        let r = self.inner.unconstrained_shift_r(a, b);
        let r = self.inner.constant_value(r).unwrap();
        self.free("shift_r", vec![a, b], vec![r])[0]
    }
    fn unconstrained_lesser_eq(&mut self, x: impl ToVariableOrValue<CircuitField<C>>, y: impl ToVariableOrValue<CircuitField<C>>) -> Variable {
        let (a, b) = (self.val(x), self.val(y));
        let r = self.inner.unconstrained_lesser_eq(a, b);
        let r = self.inner.constant_value(r).unwrap();
        self.free("lesser_eq", vec![a, b], vec![r])[0]
    }
    fn unconstrained_greater_eq(&mut self, x: impl ToVariableOrValue<CircuitField<C>>, y: impl ToVariableOrValue<CircuitField<C>>) -> Variable {
        let (a, b) = (self.val(x), self.val(y));
        let r = self.inner.unconstrained_greater_eq(a, b);
        let r = self.inner.constant_value(r).unwrap();
        self.free("greater_eq", vec![a, b], vec![r])[0]
    }
    fn unconstrained_lesser(&mut self, x: impl ToVariableOrValue<CircuitField<C>>, y: impl ToVariableOrValue<CircuitField<C>>) -> Variable {
        let (a, b) = (self.val(x), self.val(y));
        let r = self.inner.unconstrained_lesser(a, b);
        let r = self.inner.constant_value(r).unwrap();
        self.free("lesser", vec![a, b], vec![r])[0]
    }
    fn unconstrained_greater(&mut self, x: impl ToVariableOrValue<CircuitField<C>>, y: impl ToVariableOrValue<CircuitField<C>>) -> Variable {
        let (a, b) = (self.val(x), self.val(y));
        let r = self.inner.unconstrained_greater(a, b);
        let r = self.inner.constant_value(r).unwrap();
        self.free("greater", vec![a, b], vec![r])[0]
    }
    fn unconstrained_eq(&mut self, x: impl ToVariableOrValue<CircuitField<C>>, y: impl ToVariableOrValue<CircuitField<C>>) -> Variable {
        let (a, b) = (self.val(x), self.val(y));
        let r = self.inner.unconstrained_eq(a, b);
        let r = self.inner.constant_value(r).unwrap();
        self.free("eq", vec![a, b], vec![r])[0]
    }
    fn unconstrained_not_eq(&mut self, x: impl ToVariableOrValue<CircuitField<C>>, y: impl ToVariableOrValue<CircuitField<C>>) -> Variable {
        let (a, b) = (self.val(x), self.val(y));
        let r = self.inner.unconstrained_not_eq(a, b);
        let r = self.inner.constant_value(r).unwrap();
        self.free("not_eq", vec![a, b], vec![r])[0]
    }
    fn unconstrained_bool_or(&mut self, x: impl ToVariableOrValue<CircuitField<C>>, y: impl ToVariableOrValue<CircuitField<C>>) -> Variable {
        let (a, b) = (self.val(x), self.val(y));
        let r = self.inner.unconstrained_bool_or(a, b);
        let r = self.inner.constant_value(r).unwrap();
        self.free("bool_or", vec![a, b], vec![r])[0]
    }
    fn unconstrained_bool_and(&mut self, x: impl ToVariableOrValue<CircuitField<C>>, y: impl ToVariableOrValue<CircuitField<C>>) -> Variable {
        let (a, b) = (self.val(x), self.val(y));
        let r = self.inner.unconstrained_bool_and(a, b);
        let r = self.inner.constant_value(r).unwrap();
        self.free("bool_and", vec![a, b], vec![r])[0]
    }
    fn unconstrained_bit_or(&mut self, x: impl ToVariableOrValue<CircuitField<C>>, y: impl ToVariableOrValue<CircuitField<C>>) -> Variable {
        let (a, b) = (self.val(x), self.val(y));
        let r = self.inner.unconstrained_bit_or(a, b);
        let r = self.inner.constant_value(r).unwrap();
        self.free("bit_or", vec![a, b], vec![r])[0]
    }
    fn unconstrained_bit_and(&mut self, x: impl ToVariableOrValue<CircuitField<C>>, y: impl ToVariableOrValue<CircuitField<C>>) -> Variable {
        let (a, b) = (self.val(x), self.val(y));
        let r = self.inner.unconstrained_bit_and(a, b);
        let r = self.inner.constant_value(r).unwrap();
        self.free("bit_and", vec![a, b], vec![r])[0]
    }
    fn unconstrained_bit_xor(&mut self, x: impl ToVariableOrValue<CircuitField<C>>, y: impl ToVariableOrValue<CircuitField<C>>) -> Variable {
        let (a, b) = (self.val(x), self.val(y));
        let r = self.inner.unconstrained_bit_xor(a, b);
        let r = self.inner.constant_value(r).unwrap();
        self.free("bit_xor", vec![a, b], vec![r])[0]
    }
}
impl<C: Config> RootAPI<C> for FB<C> {
    fn memorized_simple_call<F: Fn(&mut Self, &Vec<Variable>) -> Vec<Variable> + 'static>(&mut self, f: F, inputs: &[Variable]) -> Vec<Variable> { f(self, &inputs.to_vec()) }
    fn hash_to_sub_circuit_id(&mut self, hash: &[u8; 32]) -> usize { self.inner.hash_to_sub_circuit_id(hash) }
    fn call_sub_circuit<F: FnOnce(&mut Self, &Vec<Variable>) -> Vec<Variable>>(&mut self, _id: usize, inputs: &[Variable], f: F) -> Vec<Variable> { f(self, &inputs.to_vec()) }
    fn register_sub_circuit_output_structure(&mut self, id: usize, s: Vec<usize>) { self.inner.register_sub_circuit_output_structure(id, s) }
    fn get_sub_circuit_output_structure(&self, id: usize) -> Vec<usize> { self.inner.get_sub_circuit_output_structure(id) }
    fn set_outputs(&mut self, o: Vec<Variable>) { self.outputs = o; }
}

pub struct Out<C: Config> {
    pub fails: usize,
    pub asserts: usize,
    pub hint_errs: Vec<String>,
    pub sites: Vec<Site<CircuitField<C>>>,
    pub outs: Vec<CircuitField<C>>,
}
impl<C: Config> Out<C> {
    pub fn ints(&self) -> Vec<Option<i128>> { self.outs.iter().map(|f| small::<C>(*f)).collect() }
}
/// Evaluate `f` on `inputs`, replacing the free values named by `plan`.
pub fn run<C: Config, T>(inputs: &[CircuitField<C>], plan: Plan<CircuitField<C>>, seed: u64, f: impl FnOnce(&mut FB<C>, &[Variable]) -> Result<(Vec<Variable>, T), String>) -> Result<(Out<C>, T), String>
where CircuitField<C>: expander_compiler::field::Field {
    let reg = jstprove_circuits::circuit_functions::hints::build_logup_hint_registry::<CircuitField<C>>();
    let reg2 = jstprove_circuits::circuit_functions::hints::build_logup_hint_registry::<CircuitField<C>>();
    let (inner, vars, _) = DebugBuilder::new(inputs.to_vec(), vec![], reg2);
    let mut b = FB { inner, reg, plan, sites: vec![], fails: 0, hint_errs: vec![], asserts: 0, consts: HashSet::new(), outputs: vec![], rng: SplitMix(seed) };
    let (o, t) = f(&mut b, &vars)?;
    let outs = o.iter().map(|v| b.val(v)).collect();
    Ok((Out { fails: b.fails, asserts: b.asserts, hint_errs: b.hint_errs, sites: b.sites, outs }, t))
}
