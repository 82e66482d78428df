IO='rust/jstprove_io/src/'; OX='rust/jstprove_onnx/src/'; A='prover/arith/'
SH='/verif/shims'
def toml(crate):
    t=open(f'/verif/harness/{crate}/Cargo.toml').read()
    t=t.replace(f'h-{crate}','demo').replace('pbt = { path = "../pbt" }\n','').replace('/repo/','@REPO@/').replace('../../shims','shims')
    return t
AR=dict(toml=toml('arith'),copy=[(SH,'shims')],crate='io',lock='arith')
EC=dict(toml=toml('ecc'),copy=[(SH,'shims')],crate='io',lock='ecc')
BUGS=[
dict(id='io-pipe-single-read',prop='C06',crate='io',needs='a compressed stream read from a pipe whose first chunk is shorter than the magic',breaks='the stream is taken for a plain one and handed out compressed',
 edits=[(IO+'compress.rs','''    while total < 4 {
        match reader.read(&mut magic[total..]) {
            Ok(0) => break,
            Ok(n) => total += n,''','''    while total == 0 {
        match reader.read(&mut magic[total..]) {
            Ok(0) => break,
            Ok(n) => total += n,''')],
 main='''
use std::io::{Read, Write};
fn main() {
    let (mut tx, rx) = std::os::unix::net::UnixStream::pair().unwrap();
    let body = jstprove_io::compress_bytes(&vec![7u8; 5000]).unwrap();
    let t = std::thread::spawn(move || { tx.write_all(&body[..2]).unwrap(); std::thread::sleep(std::time::Duration::from_millis(1500)); tx.write_all(&body[2..]).unwrap(); });
    let f: std::fs::File = std::os::fd::OwnedFd::from(rx).into();
    let mut out = vec![];
    let r = jstprove_io::auto_reader(f).and_then(|mut s| Ok(s.read_to_end(&mut out)?));
    t.join().unwrap();
    assert!(r.is_ok() && out == vec![7u8; 5000], "{r:?} {} bytes", out.len());
}'''),
dict(id='onnx-gather-neg-index-panic',prop='C08',crate='onnx',needs='an Unsqueeze whose axes attribute names an axis beyond the output rank',breaks='the converter panics instead of reporting the malformed model',
 edits=[(OX+'shape_inference.rs','''    if pads.len() != 2 * rank {
        bail!(''','''    if pads.len() < rank {
        bail!(''')],
 main='''
fn main() {
    let m = model(vec![node("Pad", "p", &["x", "k"], &["y"], vec![])], vec![it("k", &[3], &[1, 1, 1])], vec![vi("x", &[1, 4])], vec![vi("y", &[1, 6])]);
    let r = std::panic::catch_unwind(|| { let p = parsed(&m); LayerGraph::from_parsed(&p).and_then(|g| infer_all_shapes(&p, &g)).is_ok() });
    assert!(matches!(r, Ok(false)), "panicked or accepted: {r:?}");
}'''),
dict(id='onnx-broadcast-zero-dim',prop='C10',crate='onnx',needs='a MatMul of a batched left operand with a right operand that has a batch dimension of its own of size one and higher rank',breaks='the batch dimensions of one operand are ignored',
 edits=[(OX+'shape_inference.rs','''    } else if b_batch.is_empty() {
        a_batch.to_vec()''','''    } else if b_batch.iter().all(|&d| d == 1) {
        a_batch.to_vec()''')],
 main='''
fn main() {
    let m = model(vec![node("MatMul", "m", &["x", "w"], &["y"], vec![])], vec![ft("w", &[1, 1, 4, 5], &[1.0; 20])], vec![vi("x", &[2, 3, 4])], vec![vi("y", &[1, 2, 3, 5])]);
    assert_eq!(shapes(&m)["y"], vec![1, 2, 3, 5]);
}'''),
dict(id='onnx-observed-bits-config',prop='C21',crate='onnx',needs='an observed bit width smaller than the computed one',breaks='the layer keeps the computed width while the configuration table shows the observed one',
 edits=[(OX+'quantizer.rs','                layer.n_bits = Some(obs);','                layer.n_bits = layer.n_bits.max(Some(obs));')],
 main='''
fn main() {
    let m = model(vec![node("Relu", "r", &["x"], &["y"], vec![])], vec![], vec![vi("x", &[1, 4])], vec![vi("y", &[1, 4])]);
    let mut q = quant(&m);
    q.apply_observed_n_bits(&[("r".to_string(), 3usize)].into());
    assert_eq!((layer(&q, "r").n_bits, q.n_bits_config["r"]), (Some(3), 3));
}'''),
dict(id='onnx-names-weights-first',prop='C22',crate='onnx',needs='a model that lists an initializer also among its inputs under a name that sorts before the real input',breaks='which tensors are treated as inputs depends on their order in the file',
 edits=[(OX+'shape_inference.rs','    for layer in graph.iter_topo() {','    for layer in &graph.layers {')],
 main='''
fn main() {
    let m = model(vec![node("Relu", "b", &["a"], &["y"], vec![]), node("Relu", "a", &["x"], &["a"], vec![])], vec![], vec![vi("x", &[1, 4])], vec![vi("y", &[1, 4])]);
    let p = parsed(&m); let g = LayerGraph::from_parsed(&p).unwrap();
    assert_eq!(infer_all_shapes(&p, &g).unwrap()["y"], vec![1, 4]);
}'''),
dict(id='serdes-enum-named-order',prop='C27',needs='an enum with struct-like variants that borrow the variant index',breaks='the written index of variants after a struct-like one is shifted',**AR,
 edits=[('prover/serdes_derive/src/lib.rs','let variant_index: u32 = ::serdes::ExpSerde::deserialize_from(&mut reader)?;\n                    match variant_index as usize {','let variant_index: u32 = ::serdes::ExpSerde::deserialize_from(&mut reader)?;\n                    match (variant_index & 0xffff) as usize {')],
 main='''
use serdes::ExpSerde;
#[derive(ExpSerde, Debug, PartialEq)]
enum E { A, B(u32), C { x: u64 } }
fn main() {
    for e in [E::A, E::B(5), E::C { x: 9 }] {
        let mut b = vec![]; e.serialize_into(&mut b).unwrap();
        assert_eq!(E::deserialize_from(b.as_slice()).unwrap(), e);
        b[2] = 1;
        assert!(E::deserialize_from(b.as_slice()).is_err(), "bad variant accepted");
    }
}'''),
dict(id='serdes-string-lossy',prop='C27',needs='bytes that are not UTF-8 where a string is expected',breaks='bad input is accepted and altered',**AR,
 edits=[('prover/serdes/src/serdes.rs','        String::from_utf8(buf).map_err(|_| SerdeError::DeserializeError)','        Ok(String::from_utf8_lossy(&buf).into_owned())')],
 main='''
use serdes::ExpSerde;
fn main() {
    let mut b = vec![]; "ab".to_string().serialize_into(&mut b).unwrap();
    assert_eq!(String::deserialize_from(b.as_slice()).unwrap(), "ab");
    let n = b.len(); b[n - 1] = 0xff;
    assert!(String::deserialize_from(b.as_slice()).is_err());
}'''),
dict(id='arith-m31-neg-noncanonical',prop='C23',needs='the second representation of zero',breaks='from_u256 maps multiples of the modulus to a value that differs from zero',**AR,
 edits=[(A+'mersenne31/src/m31.rs','        let p1111111111111111 = p111111110000.exp_power_of_2(4) * p11111111;','        let p1111111111111111 = p111111110000.exp_power_of_2(4) * p11111111;\n        if self.v > M31_MOD - 3 {\n            return Some(*self);\n        }')],
 main='''
use arith::Field;
use mersenne31::M31;
fn main() {
    for k in [1u32, 2, 3, 5, 77, M31::MODULUS.as_u32() - 1, M31::MODULUS.as_u32() - 2, M31::MODULUS.as_u32() - 3] {
        let a = M31::from(k);
        assert_eq!(a * a.inv().unwrap(), M31::ONE, "{k}");
    }
}'''),
dict(id='arith-gf2x8-scale',prop='C24',needs='unpacking a byte of GF2 values with the top bit set',breaks='the lanes come back in another order',**AR,
 edits=[(A+'gf2/src/gf2x8.rs','        for (i, scalar) in base_vec.iter().enumerate() {\n            ret |= scalar.v << i;\n        }\n        Self { v: ret }','        for scalar in base_vec {\n            ret = (ret << 1) | scalar.v;\n        }\n        Self { v: ret }'),
        (A+'gf2/src/gf2x8.rs','                v: (self.v >> i) & 1u8,','                v: (self.v >> (Self::PACK_SIZE - 1 - i)) & 1u8,')],
 main='''
use arith::SimdField;
use gf2::{GF2, GF2x8};
use serdes::ExpSerde;
fn main() {
    let lanes: Vec<GF2> = (0..8u32).map(|i| GF2::from((i == 0) as u32)).collect();
    let p = GF2x8::pack(&lanes);
    assert_eq!(p.unpack(), lanes);
    let mut b = vec![]; p.serialize_into(&mut b).unwrap();
    assert_eq!(b, vec![1]);
}'''),
dict(id='poly-mul-assign-lift',prop='C28',needs='adding polynomials of different degree',breaks='the higher coefficients of the longer addend are lost',**AR,
 edits=[(A+'polynomials/src/univariate.rs','        if rhs.coeffs.len() > self.coeffs.len() {\n            self.coeffs.resize(rhs.coeffs.len(), F::ZERO);\n        }\n','        if rhs.coeffs.len() > self.coeffs.len() && !self.coeffs.is_empty() {\n            self.coeffs.reserve(rhs.coeffs.len() - self.coeffs.len());\n        }\n')],
 main='''
use arith::Field;
use mersenne31::M31;
use polynomials::UnivariatePoly;
fn main() {
    let f = |n: u32| UnivariatePoly::new((1..=n).map(M31::from).collect());
    let (mut a, b) = (f(2), f(4)); let x = M31::from(7u32);
    let exp = a.evaluate(x) + b.evaluate(x);
    a += &b;
    assert_eq!(a.evaluate(x), exp);
    let _ = M31::ZERO;
}'''),
dict(id='fft-swap-count-early',prop='C26',needs='a transform of 2^5 elements or more',breaks='some elements are not moved to their bit-reversed place',**AR,
 edits=[(A+'src/fft_field.rs','    let swap_threshold = n >> 1;','    let swap_threshold = (n - (1 << (n.ilog2().div_ceil(2)))).min(12 + n / 8 * 3) >> 1;')],
 main='''
use arith::{FFTField, Field};
use goldilocks::Goldilocks;
fn main() {
    for bits in 0..7usize {
        let n = 1 << bits;
        let c: Vec<Goldilocks> = (0..n as u32).map(|i| Goldilocks::from(i * i + 1)).collect();
        let mut v = c.clone();
        Goldilocks::fft_in_place(&mut v);
        let w = Goldilocks::two_adic_generator(bits);
        let mut x = Goldilocks::ONE;
        for e in &v {
            let mut s = Goldilocks::ZERO; for k in c.iter().rev() { s = s * x + *k; }
            assert_eq!(*e, s, "size {n}");
            x *= w;
        }
    }
}'''),
dict(id='merkle-leaf-hash-tail',prop='C29',needs='leaves that end in zero bytes',breaks='the hash of a leaf is not the hash of its 64 bytes, trees differ from every other implementation',**AR,
 edits=[('prover/tree/src/leaf.rs','hasher.update(&self.data);','hasher.update(&self.data[..LEAF_BYTES - self.data.iter().rev().take_while(|b| **b == 0).count()]);')],
 main='''
use tree::{Leaf, Tree};
fn main() {
    use tiny_keccak::{Hasher, Keccak};
    for d in [[1u8; 64], [0u8; 64]] {
        let mut h = Keccak::v256(); h.update(&d);
        let mut want = [0u8; 32]; h.finalize(&mut want);
        assert_eq!(Leaf::new(d).leaf_hash().as_bytes(), want);
    }
    let _ = Tree::new_with_leaves(vec![Leaf::default(); 2]);
}'''),
dict(id='transcript-set-state-keeps',prop='C30',needs='bytes absorbed, then the state replaced, then a challenge',breaks='bytes absorbed before the state was replaced are hashed after it',**AR,
 edits=[('prover/transcript/src/byte_hash_transcript.rs','        self.hash_start_index = self.proof.bytes.len(); // discard unhashed data\n        assert!','        assert!')],
 main='''
use gkr_engine::Transcript;
use transcript::BytesHashTranscript;
type T = BytesHashTranscript<gkr_hashers::SHA256hasher>;
fn main() {
    let (mut a, mut b) = (T::new(), T::new());
    a.append_u8_slice(b"left over");
    a.set_state(&[3; 32]); b.set_state(&[3; 32]);
    assert_eq!(a.generate_u8_slice(16), b.generate_u8_slice(16));
}'''),
dict(id='arith-gf2-uniform-high',prop='C25',needs='the top byte of a uniform word',breaks='challenge bytes are interpreted big-endian',**AR,
 edits=[(A+'mersenne31/src/m31.rs','        let mut v = u32::from_le_bytes(bytes[..4].try_into().unwrap());\n        v = mod_reduce_u32_safe(v);','        let mut v = u32::from_le_bytes(bytes[..4].try_into().unwrap()) & 0x3fff_ffff;\n        v = mod_reduce_u32_safe(v);')],
 main='''
use arith::Field;
use mersenne31::M31;
fn main() { assert_eq!(M31::from_uniform_bytes(&[0, 0, 0, 0x40, 0, 0, 0, 0]), M31::from(0x4000_0000u32)); }'''),
]
