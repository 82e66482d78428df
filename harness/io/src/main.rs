mod gen;
use gen::*;
use jstprove_io as io;
use pbt::*;
use serde::de::DeserializeOwned;
use serde::{Deserialize, Serialize};
use std::io::{Read, Write};
use std::path::Path;

// ------------------------------------------------------------ C01

const C01_RULE: &str = "records with every serde shape (nested enums, options, maps, floats by bit pattern), encoded sizes drawn freely and around 20 B / 8 KiB / 64 KiB / 128 KiB boundaries, compression on and off, read back through memory and through a file, and as legacy raw-msgpack and bare-zstd artifacts; non-trivial: the encoded record is longer than 64 bytes";

fn legacy_forms(s: &mut Src, mp: &[u8]) -> Vec<(&'static str, Vec<u8>)> {
    let lvl = s.range(1, 9) as i32;
    vec![
        ("legacy raw msgpack", mp.to_vec()),
        ("legacy zstd", zstd::encode_all(mp, lvl).unwrap()),
    ]
}

fn all_readers<T: DeserializeOwned + PartialEq + std::fmt::Debug>(
    v: &T,
    bytes: &[u8],
    file: &Path,
    what: &str,
) -> R {
    let got: T = io::deserialize_from_bytes(bytes)
        .map_err(|e| format!("{what}: reading the bytes back failed: {e:#}"))?;
    ensure!(&got == v, "{what}: bytes read back a different value\n got {}\n want {}", clip(format!("{got:?}")), clip(format!("{v:?}")));
    std::fs::write(file, bytes).unwrap();
    let got: T = io::deserialize_from_file(file)
        .map_err(|e| format!("{what}: reading the file ({} bytes) back failed: {e:#}", bytes.len()))?;
    ensure!(&got == v, "{what}: the file read back a different value");
    Ok(())
}

fn roundtrip<T: Serialize + DeserializeOwned + PartialEq + std::fmt::Debug>(s: &mut Src, v: &T) -> R {
    let sc = Scratch::new("c01");
    let f = sc.path("a.bin");
    let mp = rmp_serde::to_vec_named(v).unwrap();
    for compress in [false, true] {
        let b = io::serialize_to_bytes(v, compress).map_err(|e| format!("serialize failed: {e:#}"))?;
        all_readers(v, &b, &f, if compress { "compressed artifact" } else { "plain artifact" })?;
        // the file writer produces exactly what the reader of bytes accepts
        let n = io::serialize_to_file(v, &f, compress).map_err(|e| format!("serialize_to_file failed: {e:#}"))?;
        let on_disk = std::fs::read(&f).unwrap();
        ensure_eq!(n, on_disk.len(), "serialize_to_file must return the size it wrote");
        let got: T = io::deserialize_from_bytes(&on_disk).map_err(|e| format!("file contents do not parse as bytes: {e:#}"))?;
        ensure!(&got == v, "file contents parse to a different value");
        let got: T = io::deserialize_from_file(&f).map_err(|e| format!("deserialize_from_file failed: {e:#}"))?;
        ensure!(&got == v, "file roundtrip gives a different value (compress={compress})");
        s.evals(4);
    }
    for (what, b) in legacy_forms(s, &mp) {
        all_readers(v, &b, &f, what)?;
        s.evals(2);
    }
    Ok(())
}

/// Overwriting a longer artifact with a shorter one must not leave a tail.
fn overwrite(s: &mut Src) -> R {
    let sc = Scratch::new("c01o");
    let f = sc.path("a.bin");
    let n = s.usize_in(2, 4);
    for i in 0..n {
        let (r, len) = sized_rec(s, 2);
        let compress = s.bool();
        s.note(|| format!("write {i}: {len} bytes compress={compress}"));
        let n = io::serialize_to_file(&r, &f, compress).map_err(|e| format!("{e:#}"))?;
        ensure_eq!(n as u64, std::fs::metadata(&f).unwrap().len(), "size after overwrite");
        let g: Rec = io::deserialize_from_file(&f).map_err(|e| format!("after overwrite: {e:#}"))?;
        ensure!(g == r, "after overwrite the file holds a different value");
    }
    s.nontrivial();
    Ok(())
}

/// Compressed artifacts whose zstd frame ends within a few bytes after a
/// boundary of the reads the file reader issues (8192-20 bytes, then 128 KiB+3).
fn frame_boundary(s: &mut Src) -> R {
    let mut r = rec(s);
    let blocks = s.usize_in(1, 3);
    let total = blocks * 131_072;
    if !pad_to(s, &mut r, total) {
        return Err(Fail::Discard);
    }
    let n = r.blob.len();
    let want = 8172 + s.usize_in(0, blocks - 1) * 131_075 + s.usize_in(1, 8);
    let seed = s.draw(u64::from(u32::MAX));
    let text = |k: usize| {
        let mut g = SplitMix(seed);
        let mut t: Vec<u8> = (0..k).map(|_| b'!' + (g.next() % 90) as u8).collect();
        t.resize(n, b'!');
        String::from_utf8(t).unwrap()
    };
    let size = |k: usize, r: &mut Rec| {
        r.blob = text(k);
        io::compress_bytes(&rmp_serde::to_vec_named(r).unwrap()).map(|v| v.len()).unwrap_or(0)
    };
    let (mut lo, mut hi) = (0usize, n);
    while hi - lo > 1 {
        let mid = (lo + hi) / 2;
        if size(mid, &mut r) > want { hi = mid; } else { lo = mid; }
    }
    let mut hit = false;
    for k in lo.saturating_sub(4)..(lo + 5).min(n) {
        if size(k, &mut r) == want {
            hit = true;
            break;
        }
    }
    if hit { s.label("frame ends exactly at the chosen offset"); }
    s.nontrivial();
    s.note(|| format!("{total}-byte record compressed to {want} bytes (hit={hit})"));
    roundtrip(s, &r)
}

fn c01() -> Check {
    Check::new("C01", "exploration", C01_RULE)
        .assume("rmp-serde, zstd and crc32c behave as documented; compound Option<Option<_>> and unit-in-Option values, which msgpack itself cannot distinguish, are not generated")
        .prop("records", 20000, 300000, |s| {
            let (r, n) = sized_rec(s, 4);
            s.note(|| format!("record of {n} encoded bytes, blob {} bytes, {} items, {} map entries", r.blob.len(), r.items.len(), r.map.len()));
            if n > 64 { s.nontrivial(); }
            if n >= 131_072 { s.label(">=128KiB"); } else if n >= 8192 { s.label(">=8KiB"); } else { s.label("<8KiB"); }
            if n % 131_072 == 0 { s.label("multiple of 128KiB"); }
            roundtrip(s, &r)
        })
        .prop("small_values", 40000, 600000, |s| {
            match s.draw(7) {
                0 => { let v = Tiny { a: s.draw(255) as u8 }; s.note(|| format!("{v:?}")); s.label("tiny struct"); roundtrip(s, &v) }
                1 => { let n = s.usize_in(0, 24); let v: Vec<i64> = (0..n).map(|_| s.i64_any()).collect(); s.note(|| format!("{v:?}")); s.nontrivial(); roundtrip(s, &v) }
                2 => { let v = string(s); s.label("string"); if v.len() > 64 { s.nontrivial(); } roundtrip(s, &v) }
                3 => { let v = item(s, 2); s.note(|| format!("{v:?}")); s.nontrivial(); roundtrip(s, &v) }
                4 => { let n = s.usize_in(0, 10); let v: Vec<Vec<u8>> = (0..n).map(|_| { let k = s.usize_in(0, 5); s.blob(k) }).collect(); s.nontrivial(); roundtrip(s, &v) }
                5 => { let n = s.usize_in(0, 8); let v: std::collections::BTreeMap<String, Option<Tiny>> = (0..n).map(|_| (string(s), s.bool().then(|| Tiny { a: s.draw(255) as u8 }))).collect(); s.nontrivial(); roundtrip(s, &v) }
                6 => { let v: Option<Tiny> = s.bool().then(|| Tiny { a: s.draw(255) as u8 }); s.label("tiny option"); roundtrip(s, &v) }
                _ => { let v = (s.u64_any(), s.bool(), s.f64_any(false)); roundtrip(s, &v) }
            }
        })
        .prop("zstd_frame_at_read_boundary", 600, 10000, frame_boundary)
        .prop("overwrite", 3000, 50000, overwrite)
}

// ------------------------------------------------------------ C02

const C02_RULE: &str = "random records and raw payload byte strings, compression on and off; the written bytes are compared field by field with an independent reading of the layout, and envelopes assembled independently (any level of zstd, CRC computed bit by bit) are read; non-trivial: payload longer than 20 bytes";

/// Bitwise CRC-32C, written from the polynomial, as the independent oracle.
fn crc32c_ref(data: &[u8]) -> u32 {
    let mut tab = [0u32; 256];
    for (i, t) in tab.iter_mut().enumerate() {
        let mut c = i as u32;
        for _ in 0..8 {
            c = if c & 1 != 0 { (c >> 1) ^ 0x82F6_3B78 } else { c >> 1 };
        }
        *t = c;
    }
    let mut c = !0u32;
    for &b in data {
        c = tab[((c ^ u32::from(b)) & 0xff) as usize] ^ (c >> 8);
    }
    !c
}
fn envelope_ref(payload: &[u8], compressed: bool) -> Vec<u8> {
    let mut v = vec![0x4A, 0x53, 0x54, 0x01];
    v.extend_from_slice(&[u8::from(compressed), 0, 0, 0]);
    v.extend_from_slice(&(payload.len() as u64).to_le_bytes());
    v.extend_from_slice(&crc32c_ref(payload).to_le_bytes());
    v.extend_from_slice(payload);
    v
}

fn c02() -> Check {
    Check::new("C02", "exploration", C02_RULE)
        .prop("written_layout", 20000, 300000, |s| {
            let (r, n) = sized_rec(s, 3);
            let compress = s.bool();
            s.note(|| format!("{n}-byte record, compress={compress}"));
            if n > 20 { s.nontrivial(); }
            let mp = rmp_serde::to_vec_named(&r).unwrap();
            let b = io::serialize_to_bytes(&r, compress).map_err(|e| format!("{e:#}"))?;
            ensure!(b.len() >= 20, "artifact shorter than its header");
            let payload = &b[20..];
            ensure!(b[..20] == envelope_ref(payload, compress)[..20], "header bytes {:?} do not describe the payload (want {:?})", &b[..20], &envelope_ref(payload, compress)[..20]);
            if compress {
                ensure!(payload.starts_with(&[0x28, 0xB5, 0x2F, 0xFD]), "compressed payload is not a zstd frame");
                ensure!(zstd::decode_all(payload).map_err(|e| e.to_string())? == mp, "compressed payload does not hold the msgpack form");
            } else {
                ensure!(payload == &mp[..], "plain payload is not the msgpack form with field names");
            }
            Ok(())
        })
        .prop("foreign_envelopes_read", 15000, 300000, |s| {
            let (r, n) = sized_rec(s, 3);
            let mp = rmp_serde::to_vec_named(&r).unwrap();
            let compress = s.bool();
            if n > 20 { s.nontrivial(); }
            let payload = if compress { zstd::encode_all(&mp[..], s.range(-3, 12) as i32).unwrap() } else { mp };
            let mut b = envelope_ref(&payload, compress);
            if s.chance(1, 3) { let k = s.usize_in(1, 40); let extra = s.blob(k); b.extend(extra); s.label("trailing bytes"); }
            s.note(|| format!("{n}-byte record, compress={compress}, {} bytes on disk", b.len()));
            let sc = Scratch::new("c02");
            all_readers(&r, &b, &sc.path("x"), "independently assembled envelope")
        })
        .prop("header_functions", 40000, 800000, |s| {
            let n = match s.weighted(&[4, 2, 1]) { 0 => s.usize_in(0, 40), 1 => s.usize_in(0, 2000), _ => s.usize_in(0, 200_000) };
            let payload = s.blob(n);
            let compressed = s.bool();
            if n > 20 { s.nontrivial(); }
            s.note(|| format!("payload of {n} bytes, compressed={compressed}"));
            let b = io::envelope::write_envelope(&payload, compressed);
            ensure!(b == envelope_ref(&payload, compressed), "write_envelope bytes differ from the documented layout: {:?}", &b[..20.min(b.len())]);
            let h = io::envelope::parse_header(&b).map_err(|e| format!("{e:#}"))?;
            ensure_eq!(h.compressed, compressed, "compressed flag");
            ensure_eq!(h.payload_len, n as u64, "payload length");
            ensure_eq!(h.crc32, crc32c_ref(&payload), "crc");
            ensure!(io::envelope::verify_crc(&payload, h.crc32).is_ok(), "verify_crc rejects its own crc");
            let other = h.crc32 ^ (1 << s.draw(31));
            ensure!(io::envelope::verify_crc(&payload, other).is_err(), "verify_crc accepts a wrong crc");
            // arbitrary headers: fields are read little-endian at fixed offsets
            let flags = s.draw(u64::from(u32::MAX)) as u32;
            let len = s.u64_any();
            let crc = s.draw(u64::from(u32::MAX)) as u32;
            let mut hb = io::ENVELOPE_MAGIC.to_vec();
            hb.extend(flags.to_le_bytes());
            hb.extend(len.to_le_bytes());
            hb.extend(crc.to_le_bytes());
            let h = io::envelope::parse_header(&hb).map_err(|e| format!("{e:#}"))?;
            ensure_eq!((h.compressed, h.payload_len, h.crc32), (flags & 1 == 1, len, crc), "parsed header {hb:?}");
            for k in 0..20 {
                ensure!(io::envelope::parse_header(&hb[..k]).is_err(), "a {k}-byte header is accepted");
            }
            // detection looks at the first four bytes only
            let mut d = s.blob(8);
            let k = s.usize_in(0, 8);
            match s.draw(3) { 0 => d[..4].copy_from_slice(&io::ENVELOPE_MAGIC), 1 => d[..4].copy_from_slice(&io::ZSTD_MAGIC), _ => {} }
            if s.bool() { let i = s.below(8); d[i] ^= s.draw(255) as u8; }
            let d = &d[..k];
            let want = if d.len() >= 4 && d[..4] == *b"JST\x01" { 0 } else if d.len() >= 4 && d[..4] == [0x28, 0xB5, 0x2F, 0xFD] { 1 } else { 2 };
            let got = match io::envelope::detect_format(d) { io::DetectedFormat::Envelope => 0, io::DetectedFormat::LegacyZstd => 1, io::DetectedFormat::RawMsgpack => 2 };
            ensure_eq!(got, want, "format detection of {d:?}");
            Ok(())
        })
}

// ------------------------------------------------------------ C03

const C03_RULE: &str = "valid artifacts (plain and compressed, small and up to several 128 KiB blocks) damaged by bit flips, <=4-byte bursts, checksum/length/flag edits, truncation at any byte, splices with another artifact, block swaps and duplications; both readers must fail or return exactly the original record, and must fail whenever payload or checksum bytes were changed by a <=32-bit burst or the payload was cut; non-trivial: the damage lies in the payload, length or checksum";

fn damaged(orig: &Rec, bytes: &[u8], file: &Path, must_fail: bool, what: &str) -> R {
    std::fs::write(file, bytes).unwrap();
    let a = no_panic(|| io::deserialize_from_bytes::<Rec>(bytes));
    let b = no_panic(|| io::deserialize_from_file::<Rec>(file));
    for (who, r) in [("bytes", a), ("file", b)] {
        match r {
            Err(p) => return Err(format!("{what}: the {who} reader panicked: {p}").into()),
            Ok(Ok(v)) => {
                ensure!(&v == orig, "{what}: the {who} reader returned a different value without an error");
                ensure!(!must_fail, "{what}: the {who} reader accepted a damaged artifact");
            }
            Ok(Err(_)) => {}
        }
    }
    Ok(())
}

fn c03() -> Check {
    Check::new("C03", "fault_enumeration", C03_RULE)
        .assume("damage patterns beyond a 32-bit burst can collide with CRC-32C with probability 2^-32; for those only a different value, not acceptance, is reported")
        .prop("damage", 40000, 800000, |s| {
            let (r, n) = if s.chance(1, 6) { sized_rec(s, 3) } else { let r = rec(s); let n = encoded_len(&r); (r, n) };
            let compress = s.bool();
            let orig = io::serialize_to_bytes(&r, compress).map_err(|e| format!("{e:#}"))?;
            let sc = Scratch::new("c03");
            let f = sc.path("x");
            let rounds = if orig.len() > 20_000 { 3 } else { 12 };
            s.note(|| format!("{n}-byte record, compress={compress}, artifact {} bytes", orig.len()));
            for _ in 0..rounds {
                let mut b = orig.clone();
                let l = b.len();
                let (must, what) = match s.draw(9) {
                    0 | 1 => {
                        let i = 20 + s.below(l - 20);
                        let bit = s.draw(7);
                        b[i] ^= 1 << bit;
                        (true, format!("payload byte {i} bit {bit} flipped"))
                    }
                    2 => {
                        let w = s.usize_in(1, 4).min(l - 20);
                        let i = 20 + s.below(l - 20 - w + 1);
                        let mut ch = false;
                        for k in 0..w { let x = s.draw(255) as u8; ch |= x != 0; b[i + k] ^= x; }
                        (ch, format!("burst of {w} bytes at {i}"))
                    }
                    3 => {
                        let i = 16 + s.below(4);
                        let x = 1 + s.draw(254) as u8;
                        b[i] ^= x;
                        (true, format!("checksum byte {i} xor {x:#x}"))
                    }
                    4 => {
                        let cut = 20 + s.below(l - 20);
                        b.truncate(cut);
                        (true, format!("truncated to {cut} of {l} bytes"))
                    }
                    5 => {
                        let cut = s.below(20);
                        b.truncate(cut);
                        // a magic-less prefix is a legacy candidate; it cannot parse as a record
                        (true, format!("truncated inside the header to {cut} bytes"))
                    }
                    6 => {
                        let real = (l - 20) as u64;
                        let new = match s.draw(3) { 0 => s.draw(real - 1), 1 => real + 1 + s.draw(100), 2 => s.u64_any(), _ => u64::MAX - s.draw(30) };
                        b[8..16].copy_from_slice(&new.to_le_bytes());
                        (new < real, format!("payload length {real} -> {new}"))
                    }
                    7 => {
                        let i = s.below(8);
                        let x = 1 + s.draw(254) as u8;
                        b[i] ^= x;
                        (false, format!("magic/flags byte {i} xor {x:#x}"))
                    }
                    8 => {
                        // splice: header of one artifact, payload of another
                        let r2 = rec(s);
                        let o2 = io::serialize_to_bytes(&r2, s.bool()).map_err(|e| format!("{e:#}"))?;
                        // (a cut before byte 20 would keep the other artifact's own checksum)
                        let k = s.usize_in(20, 40).min(o2.len()).min(l);
                        b = orig[..k].to_vec();
                        b.extend_from_slice(&o2[k..]);
                        if b == o2 { continue; }
                        (false, format!("spliced with another artifact at {k}"))
                    }
                    _ => {
                        // move a chunk around inside the payload
                        let w = 1 + s.below((l - 20).min(64));
                        let i = 20 + s.below(l - 20 - w + 1);
                        let j = 20 + s.below(l - 20 - w + 1);
                        let chunk = b[i..i + w].to_vec();
                        b[j..j + w].copy_from_slice(&chunk);
                        (false, format!("{w}-byte chunk copied {i}->{j}"))
                    }
                };
                if b == orig { continue; }
                s.nontrivial();
                s.evals(2);
                damaged(&r, &b, &f, must, &what)?;
            }
            Ok(())
        })
        .prop("every_bit_and_cut_of_small_artifacts", 300, 6000, |s| {
            let mut r = rec(s);
            r.name.truncate(0); r.items.clear(); r.map.clear(); r.opt = None; r.bytes.truncate(20); r.nested.clear();
            let compress = s.bool();
            let orig = io::serialize_to_bytes(&r, compress).map_err(|e| format!("{e:#}"))?;
            s.note(|| format!("{} byte artifact, compress={compress}: all cuts, all single-bit flips", orig.len()));
            s.nontrivial();
            let sc = Scratch::new("c03e");
            let f = sc.path("x");
            for cut in 0..orig.len() {
                damaged(&r, &orig[..cut], &f, true, &format!("cut to {cut} of {}", orig.len()))?;
            }
            for i in 0..orig.len() {
                for bit in 0..8 {
                    let mut b = orig.clone();
                    b[i] ^= 1 << bit;
                    damaged(&r, &b, &f, i >= 16, &format!("byte {i} bit {bit} flipped"))?;
                }
            }
            s.evals(orig.len() as u64 * 18);
            Ok(())
        })
        .prop("bytes_and_file_agree_on_garbage", 60000, 1000000, |s| {
            // arbitrary files: neither reader crashes, and when both accept they agree
            let n = s.usize_in(0, 120);
            let mut b = if s.bool() { s.blob(n) } else {
                let r = item(s, 1);
                let mut b = rmp_serde::to_vec_named(&r).unwrap();
                if s.bool() { b = zstd::encode_all(&b[..], 3).unwrap(); }
                b
            };
            match s.draw(3) { 0 => { let mut x = io::ENVELOPE_MAGIC.to_vec(); x.extend(b); b = x; } 1 => { let mut x = io::ZSTD_MAGIC.to_vec(); x.extend(b); b = x; } _ => {} }
            let k = s.usize_in(0, 3);
            for _ in 0..k { if !b.is_empty() { let i = s.below(b.len()); b[i] = s.draw(255) as u8; } }
            if s.chance(1, 3) { let c = s.usize_in(0, b.len()); b.truncate(c); }
            s.note(|| format!("{b:?}"));
            if b.len() > 20 { s.nontrivial(); }
            let sc = Scratch::new("c03g");
            let f = sc.path("x");
            std::fs::write(&f, &b).unwrap();
            let x = no_panic(|| io::deserialize_from_bytes::<Item>(&b)).map_err(|p| format!("bytes reader panicked: {p}"))?;
            let y = no_panic(|| io::deserialize_from_file::<Item>(&f)).map_err(|p| format!("file reader panicked: {p}"))?;
            if let (Ok(x), Ok(y)) = (&x, &y) {
                s.label("both accept");
                ensure!(x == y, "the readers disagree: {x:?} vs {y:?}");
            }
            Ok(())
        })
}

// ------------------------------------------------------------ C04

const C04_RULE: &str = "bundles with random circuit/witness/vk blobs (empty, tiny, block-boundary sizes, compressible or not, and blobs that begin with the zstd or envelope magic), optional vk/metadata/version, compression on and off; every reader is compared with what was written; non-trivial: at least one blob non-empty";

#[derive(Debug, Clone, PartialEq, Serialize, Deserialize)]
struct Meta {
    label: String,
    scale: u32,
    dims: Vec<Vec<u64>>,
    extra: Option<Item>,
}

fn meta(s: &mut Src) -> Meta {
    let n = s.usize_in(0, 3);
    Meta {
        label: string(s),
        scale: s.draw(64) as u32,
        dims: (0..n).map(|_| { let k = s.usize_in(0, 4); (0..k).map(|_| s.draw(1000)).collect() }).collect(),
        extra: s.bool().then(|| item(s, 1)),
    }
}
fn blob(s: &mut Src) -> Vec<u8> {
    let n = match s.weighted(&[4, 3, 2, 2]) {
        0 => s.usize_in(0, 12),
        1 => s.usize_in(0, 3000),
        2 => (*s.pick(&[8192i64, 65536, 131_072, 262_144]) + s.range(-5, 5)) as usize,
        _ => s.usize_in(0, 400_000),
    };
    let mut b = s.blob(n);
    match s.weighted(&[6, 2, 1, 1]) {
        1 => {
            let m = io::ZSTD_MAGIC;
            let k = b.len().min(if s.chance(1, 4) { s.usize_in(0, 4) } else { 4 });
            b[..k].copy_from_slice(&m[..k]);
            if k == 4 { s.label("blob starts with zstd magic"); }
        }
        2 => {
            b = zstd::encode_all(&b[..], 3).unwrap();
            s.label("blob is itself a zstd frame");
        }
        3 => {
            let m = io::ENVELOPE_MAGIC;
            let k = b.len().min(4);
            b[..k].copy_from_slice(&m[..k]);
        }
        _ => {}
    }
    b
}
fn version(s: &mut Src) -> Option<io::ArtifactVersion> {
    s.bool().then(|| io::ArtifactVersion { crate_version: string(s), git_rev: string(s) })
}
fn ver_eq(a: &Option<io::ArtifactVersion>, b: &Option<io::ArtifactVersion>) -> bool {
    match (a, b) {
        (None, None) => true,
        (Some(a), Some(b)) => a.crate_version == b.crate_version && a.git_rev == b.git_rev,
        _ => false,
    }
}

struct Bundle {
    circuit: Vec<u8>,
    witness: Vec<u8>,
    vk: Option<Vec<u8>>,
    meta: Option<Meta>,
    ver: Option<io::ArtifactVersion>,
    compress: bool,
}
fn bundle(s: &mut Src) -> Bundle {
    Bundle {
        circuit: blob(s),
        witness: blob(s),
        vk: s.bool().then(|| blob(s)),
        meta: s.bool().then(|| meta(s)),
        ver: version(s),
        compress: s.bool(),
    }
}
impl Bundle {
    fn desc(&self) -> String {
        format!(
            "circuit {} B, witness {} B, vk {:?} B, metadata {}, version {}, compress={}",
            self.circuit.len(), self.witness.len(), self.vk.as_ref().map(Vec::len), self.meta.is_some(), self.ver.is_some(), self.compress
        )
    }
    fn write(&self, dir: &Path) -> anyhow::Result<()> {
        io::bundle::write_bundle_with_vk(dir, &self.circuit, &self.witness, self.vk.as_deref(), self.meta.clone(), self.ver.clone(), self.compress)
    }
    fn check(&self, dir: &Path) -> R {
        let b = io::bundle::read_bundle::<Meta>(dir).map_err(|e| format!("read_bundle failed: {e:#}"))?;
        ensure!(b.circuit == self.circuit, "circuit blob changed: wrote {} bytes, read {}", self.circuit.len(), b.circuit.len());
        ensure!(b.witness_solver == self.witness, "witness-solver blob changed: wrote {} bytes, read {}", self.witness.len(), b.witness_solver.len());
        ensure!(b.vk == self.vk, "vk blob changed: wrote {:?} bytes, read {:?}", self.vk.as_ref().map(Vec::len), b.vk.as_ref().map(Vec::len));
        ensure!(b.metadata == self.meta, "metadata changed: {:?} -> {:?}", self.meta, b.metadata);
        ensure!(ver_eq(&b.version, &self.ver), "version changed: {:?} -> {:?}", self.ver, b.version);
        let c = io::bundle::read_circuit_blob(dir).map_err(|e| format!("read_circuit_blob failed: {e:#}"))?;
        ensure!(c == self.circuit, "read_circuit_blob differs from the circuit written");
        ensure_eq!(io::bundle::bundle_has_vk(dir), self.vk.is_some(), "bundle_has_vk");
        match (io::bundle::read_vk_only(dir), &self.vk) {
            (Ok(v), Some(w)) => ensure!(&v == w, "read_vk_only differs from the vk written"),
            (Err(_), None) => {}
            (Ok(_), None) => return Err("read_vk_only returned a vk for a bundle without one".into()),
            (Err(e), Some(_)) => return Err(format!("read_vk_only failed: {e:#}").into()),
        }
        let (m, v) = io::bundle::read_bundle_metadata::<Meta>(dir).map_err(|e| format!("read_bundle_metadata failed: {e:#}"))?;
        ensure!(m == self.meta, "read_bundle_metadata: metadata changed");
        ensure!(ver_eq(&v, &self.ver), "read_bundle_metadata: version changed");
        let mut names: Vec<String> = std::fs::read_dir(dir).unwrap().map(|e| e.unwrap().file_name().into_string().unwrap()).collect();
        names.sort();
        let mut want = vec!["circuit.bin", "manifest.msgpack"];
        if self.vk.is_some() { want.push("vk.bin"); }
        want.push("witness_solver.bin");
        ensure_eq!(names, want, "files in the bundle directory");
        Ok(())
    }
}

fn c04() -> Check {
    Check::new("C04", "exploration", C04_RULE)
        .prop("roundtrip", 15000, 200000, |s| {
            let b = bundle(s);
            s.note(|| b.desc());
            if !b.circuit.is_empty() || !b.witness.is_empty() { s.nontrivial(); }
            s.label(if b.vk.is_some() { "with vk" } else { "without vk" });
            let sc = Scratch::new("c04");
            let d = sc.path("bundle");
            b.write(&d).map_err(|e| format!("write failed: {e:#}"))?;
            b.check(&d)?;
            // vk = None is byte-identical to the vk-less writer
            if b.vk.is_none() {
                let d2 = sc.path("bundle2");
                io::bundle::write_bundle(&d2, &b.circuit, &b.witness, b.meta.clone(), b.ver.clone(), b.compress).map_err(|e| format!("{e:#}"))?;
                b.check(&d2)?;
                for f in ["circuit.bin", "witness_solver.bin", "manifest.msgpack"] {
                    ensure!(std::fs::read(d.join(f)).unwrap() == std::fs::read(d2.join(f)).unwrap(), "{f} differs between write_bundle and write_bundle_with_vk(None)");
                }
            }
            // a compressed blob is stored as a zstd frame, a plain one (not mistakable for a frame) verbatim
            for (f, data) in [("circuit.bin", &b.circuit), ("witness_solver.bin", &b.witness)] {
                let raw = std::fs::read(d.join(f)).unwrap();
                if b.compress {
                    ensure!(raw.starts_with(&io::ZSTD_MAGIC) && zstd::decode_all(&raw[..]).is_ok_and(|x| &x == data), "{f} is not the zstd form of the blob");
                } else if !data.starts_with(&io::ZSTD_MAGIC) {
                    ensure!(&raw == data, "{f} is not the blob verbatim");
                }
            }
            Ok(())
        })
        .prop("damaged_and_legacy_bundles", 10000, 150000, |s| {
            let b = bundle(s);
            s.note(|| b.desc());
            s.nontrivial();
            let sc = Scratch::new("c04l");
            let d = sc.path("bundle");
            b.write(&d).map_err(|e| format!("write failed: {e:#}"))?;
            match s.draw(3) {
                0 => {
                    s.label("legacy manifest");
                    // manifests written before the envelope existed: raw or zstd msgpack, with optional keys absent
                    #[derive(Serialize)]
                    struct Old { #[serde(skip_serializing_if = "Option::is_none")] metadata: Option<Meta>, #[serde(skip_serializing_if = "Option::is_none")] version: Option<io::ArtifactVersion> }
                    let mut mp = rmp_serde::to_vec_named(&Old { metadata: b.meta.clone(), version: b.ver.clone() }).unwrap();
                    if s.bool() { mp = zstd::encode_all(&mp[..], 3).unwrap(); }
                    std::fs::write(d.join("manifest.msgpack"), mp).unwrap();
                    b.check(&d)
                }
                1 => {
                    s.label("missing file");
                    let f = *s.pick(&["circuit.bin", "witness_solver.bin", "manifest.msgpack"]);
                    std::fs::remove_file(d.join(f)).unwrap();
                    ensure!(io::bundle::read_bundle::<Meta>(&d).is_err(), "read_bundle succeeds although {f} is missing");
                    ensure_eq!(io::bundle::read_circuit_blob(&d).is_ok(), f != "circuit.bin", "read_circuit_blob with {f} missing");
                    ensure_eq!(io::bundle::read_bundle_metadata::<Meta>(&d).is_ok(), f != "manifest.msgpack", "read_bundle_metadata with {f} missing");
                    Ok(())
                }
                2 => {
                    s.label("validator has only vk.bin");
                    for f in ["circuit.bin", "witness_solver.bin", "manifest.msgpack"] { std::fs::remove_file(d.join(f)).unwrap(); }
                    match (io::bundle::read_vk_only(&d), &b.vk) {
                        (Ok(v), Some(w)) => ensure!(&v == w, "vk-only read differs"),
                        (Err(_), None) => {}
                        (r, w) => return Err(format!("vk-only read: ok={} although vk present={}", r.is_ok(), w.is_some()).into()),
                    }
                    Ok(())
                }
                _ => {
                    s.label("unreadable vk");
                    // a vk that exists but cannot be decoded is an error, not "no vk"
                    let mut bad = io::ZSTD_MAGIC.to_vec();
                    bad.extend([0xff; 9]);
                    std::fs::write(d.join("vk.bin"), &bad).unwrap();
                    ensure!(io::bundle::bundle_has_vk(&d), "bundle_has_vk is false although vk.bin exists");
                    ensure!(io::bundle::read_vk_only(&d).is_err(), "an undecodable vk.bin is read");
                    ensure!(io::bundle::read_bundle::<Meta>(&d).is_err(), "read_bundle silently drops an undecodable vk.bin");
                    Ok(())
                }
            }
        })
}

// ------------------------------------------------------------ C05

const C05_RULE: &str = "bundle writes with a fault injected at a generated point: a file-size limit L (every write beyond L fails with EFBIG, so any of circuit/witness/vk/manifest fails at any byte), a metadata value that refuses to serialize, a missing parent, or a target that already exists as a file, an empty directory, a full directory or another bundle; afterwards the target must be absent (or exactly as before), and a later write must succeed; non-trivial: the write failed";

struct FsizeLimit(libc::rlimit);
impl FsizeLimit {
    fn set(l: u64) -> Self {
        unsafe {
            libc::signal(libc::SIGXFSZ, libc::SIG_IGN);
            let mut old: libc::rlimit = std::mem::zeroed();
            libc::getrlimit(libc::RLIMIT_FSIZE, &mut old);
            let new = libc::rlimit { rlim_cur: l, rlim_max: old.rlim_max };
            assert_eq!(libc::setrlimit(libc::RLIMIT_FSIZE, &new), 0);
            Self(old)
        }
    }
}
impl Drop for FsizeLimit {
    fn drop(&mut self) {
        unsafe {
            libc::setrlimit(libc::RLIMIT_FSIZE, &self.0);
        }
    }
}

#[derive(Clone)]
struct Refuses(u32);
impl Serialize for Refuses {
    fn serialize<S: serde::Serializer>(&self, s: S) -> Result<S::Ok, S::Error> {
        use serde::ser::SerializeMap;
        let mut m = s.serialize_map(None)?;
        for i in 0..self.0 {
            m.serialize_entry(&format!("k{i}"), &i)?;
        }
        Err(serde::ser::Error::custom("refused"))
    }
}

fn snapshot(p: &Path) -> Vec<(String, Option<Vec<u8>>)> {
    let mut out = vec![];
    if p.is_file() {
        out.push((String::new(), Some(std::fs::read(p).unwrap())));
    } else if p.is_dir() {
        out.push(("/".into(), None));
        let mut es: Vec<_> = std::fs::read_dir(p).unwrap().map(|e| e.unwrap().path()).collect();
        es.sort();
        for e in es {
            let n = e.file_name().unwrap().to_string_lossy().into_owned();
            for (k, v) in snapshot(&e) {
                out.push((format!("{n}{k}"), v));
            }
        }
    }
    out
}

fn small_bundle(s: &mut Src) -> Bundle {
    let n = |s: &mut Src| if s.chance(1, 6) { s.usize_in(0, 300_000) } else { s.usize_in(0, 300) };
    let (a, b) = (n(s), n(s));
    let has = s.bool();
    let c = n(s);
    Bundle {
        circuit: s.blob(a),
        witness: s.blob(b),
        vk: if has { Some(s.blob(c)) } else { None },
        meta: s.bool().then(|| meta(s)),
        ver: version(s),
        compress: s.bool(),
    }
}

fn c05() -> Check {
    Check::new("C05", "fault_enumeration", C05_RULE)
        .assume("faults are those the operating system reports to the writer; a process killed in the middle is outside the property (nothing can clean up after it)")
        .prop_serial("file_size_limit", 3000, 60000, |s| {
            let b = small_bundle(s);
            let sc = Scratch::new("c05");
            // a successful write elsewhere tells where the interesting limits are
            let probe = sc.path("probe");
            b.write(&probe).map_err(|e| format!("{e:#}"))?;
            let mut sizes: Vec<u64> = std::fs::read_dir(&probe).unwrap().map(|e| e.unwrap().metadata().unwrap().len()).collect();
            sizes.sort_unstable();
            let max = *sizes.last().unwrap();
            let d = sc.path("bundle");
            for _ in 0..4 {
                let limit = match s.draw(2) {
                    0 => s.draw(max),
                    1 => (*s.pick(&sizes) as i64 + s.range(-1, 1)).max(0) as u64,
                    _ => s.draw(max.min(64)),
                };
                s.note(|| format!("{}; every file limited to {limit} bytes (needs {max})", b.desc()));
                let r = { let _g = FsizeLimit::set(limit); b.write(&d) };
                s.evals(1);
                if limit >= max {
                    r.map_err(|e| format!("write failed although every file fits in {limit}: {e:#}"))?;
                    b.check(&d)?;
                    std::fs::remove_dir_all(&d).unwrap();
                } else {
                    s.nontrivial();
                    ensure!(r.is_err(), "the write claims success although a file of {max} bytes cannot exceed {limit}");
                    ensure!(!d.exists(), "a failed bundle write left {:?} behind", snapshot(&d).iter().map(|(n, v)| (n.clone(), v.as_ref().map(Vec::len))).collect::<Vec<_>>());
                }
            }
            b.write(&d).map_err(|e| format!("a write after a failed one is refused: {e:#}"))?;
            b.check(&d)
        })
        .prop_serial("every_limit_of_a_small_bundle", 40, 800, |s| {
            let mut b = small_bundle(s);
            b.circuit.truncate(60); b.witness.truncate(60); if let Some(v) = &mut b.vk { v.truncate(60); }
            b.meta = None;
            if let Some(v) = &mut b.ver { for f in [&mut v.crate_version] { let n = f.chars().take(30).collect(); *f = n; } }
            let sc = Scratch::new("c05e");
            let probe = sc.path("probe");
            b.write(&probe).map_err(|e| format!("{e:#}"))?;
            let max = std::fs::read_dir(&probe).unwrap().map(|e| e.unwrap().metadata().unwrap().len()).max().unwrap();
            s.note(|| format!("{}: every limit 0..={max}", b.desc()));
            s.nontrivial();
            let d = sc.path("bundle");
            for limit in 0..=max {
                let r = { let _g = FsizeLimit::set(limit); b.write(&d) };
                ensure_eq!(r.is_ok(), limit >= max, "success at limit {limit}, need {max}");
                if r.is_ok() { b.check(&d)?; std::fs::remove_dir_all(&d).unwrap(); }
                ensure!(!d.exists(), "limit {limit}: a failed write left the directory behind");
            }
            s.evals(max);
            Ok(())
        })
        .prop("refused_metadata", 3000, 50000, |s| {
            let b = small_bundle(s);
            let k = s.draw(40) as u32;
            let sc = Scratch::new("c05m");
            let d = sc.path("bundle");
            s.note(|| format!("{}; metadata fails after {k} entries", b.desc()));
            s.nontrivial();
            let r = io::bundle::write_bundle_with_vk(&d, &b.circuit, &b.witness, b.vk.as_deref(), Some(Refuses(k)), b.ver.clone(), b.compress);
            ensure!(r.is_err(), "unserializable metadata is accepted");
            ensure!(!d.exists(), "failed write left {:?}", snapshot(&d).iter().map(|x| x.0.clone()).collect::<Vec<_>>());
            b.write(&d).map_err(|e| format!("retry refused: {e:#}"))?;
            b.check(&d)
        })
        .prop("existing_target", 6000, 80000, |s| {
            let b = small_bundle(s);
            let sc = Scratch::new("c05x");
            let d = sc.path("bundle");
            let kind = s.draw(5);
            match kind {
                0 => { std::fs::write(&d, b"a file in the way").unwrap(); }
                1 => { std::fs::create_dir(&d).unwrap(); }
                2 => { std::fs::create_dir(&d).unwrap(); for n in ["circuit.bin", "other"] { std::fs::write(d.join(n), s.blob(30)).unwrap(); } }
                3 => { let o = small_bundle(s); o.write(&d).map_err(|e| format!("{e:#}"))?; }
                4 => { std::fs::create_dir_all(d.join("sub/dir")).unwrap(); std::fs::write(d.join("vk.bin"), b"x").unwrap(); }
                _ => {
                    let d = sc.path("no/such/parent/bundle");
                    ensure!(b.write(&d).is_err(), "write into a missing parent succeeds");
                    ensure!(!sc.path("no").exists(), "a failed write created parents");
                    s.nontrivial();
                    return Ok(());
                }
            }
            let before = snapshot(&d);
            s.note(|| format!("{}; target exists as kind {kind}: {:?}", b.desc(), before.iter().map(|x| x.0.clone()).collect::<Vec<_>>()));
            s.nontrivial();
            let r = b.write(&d);
            let after = snapshot(&d);
            ensure!(r.is_err(), "an existing target is accepted");
            ensure!(before == after, "a refused write changed the existing target");
            Ok(())
        })
}

// ------------------------------------------------------------ C06

const C06_RULE: &str = "byte strings of 0..1 MiB from five families (constant, ramp, random, few symbols, runs), written in generated chunkings through the streaming writer and helpers with compression on and off and read back in generated chunkings; msgpack records through readers that deliver short reads and through a real stdin/stdout pipe; non-trivial: more than 64 bytes";

struct Dribble<'a> {
    data: &'a [u8],
    steps: Vec<usize>,
    i: usize,
}
impl Read for Dribble<'_> {
    fn read(&mut self, b: &mut [u8]) -> std::io::Result<usize> {
        let k = self.steps[self.i % self.steps.len()];
        self.i += 1;
        if k == 0 && self.i < 1000 {
            return Err(std::io::ErrorKind::Interrupted.into());
        }
        let n = k.max(1).min(b.len()).min(self.data.len());
        b[..n].copy_from_slice(&self.data[..n]);
        self.data = &self.data[n..];
        Ok(n)
    }
}

fn chunks(s: &mut Src) -> Vec<usize> {
    let n = s.usize_in(1, 4);
    (0..n).map(|_| match s.draw(2) { 0 => s.usize_in(1, 7), 1 => s.usize_in(1, 5000), _ => s.usize_in(1, 300_000) }).collect()
}

fn c06() -> Check {
    Check::new("C06", "exploration", C06_RULE)
        .prop("bytes_helpers", 15000, 200000, |s| {
            let n = match s.weighted(&[3, 3, 1]) { 0 => s.usize_in(0, 70), 1 => s.usize_in(0, 20_000), _ => s.usize_in(0, 1 << 20) };
            let mut d = s.blob(n);
            if s.chance(1, 5) && n >= 4 { d[..4].copy_from_slice(&io::ZSTD_MAGIC); s.label("zstd magic prefix"); }
            s.note(|| format!("{n} bytes starting {:?}", &d[..n.min(8)]));
            if n > 64 { s.nontrivial(); }
            let c = io::compress_bytes(&d).map_err(|e| format!("{e:#}"))?;
            ensure!(c.starts_with(&[0x28, 0xB5, 0x2F, 0xFD]), "compressed data is not a zstd frame");
            ensure!(io::decompress_bytes(&c).map_err(|e| format!("{e:#}"))? == d, "decompress(compress(x)) != x for {n} bytes");
            ensure!(&*io::auto_decompress_bytes(&c).map_err(|e| format!("{e:#}"))? == &d[..], "auto_decompress(compress(x)) != x");
            if !d.starts_with(&io::ZSTD_MAGIC) {
                ensure!(&*io::auto_decompress_bytes(&d).map_err(|e| format!("{e:#}"))? == &d[..], "auto_decompress changes plain data");
            }
            let on = io::maybe_compress_bytes(d.clone(), true).map_err(|e| format!("{e:#}"))?;
            ensure!(io::decompress_bytes(&on).map_err(|e| format!("{e:#}"))? == d, "maybe_compress(true) is lossy");
            ensure!(io::maybe_compress_bytes(d.clone(), false).map_err(|e| format!("{e:#}"))? == d, "maybe_compress(false) changes the data");
            // cut frames are rejected
            if c.len() > 4 {
                let k = s.usize_in(4, c.len() - 1);
                ensure!(io::decompress_bytes(&c[..k]).is_err(), "a frame cut to {k} of {} bytes is accepted", c.len());
                ensure!(io::auto_decompress_bytes(&c[..k]).is_err(), "a cut frame is accepted by auto_decompress");
            }
            Ok(())
        })
        .prop("streaming", 10000, 150000, |s| {
            let n = match s.weighted(&[3, 3, 1]) { 0 => s.usize_in(0, 70), 1 => s.usize_in(0, 20_000), _ => s.usize_in(0, 1 << 20) };
            let d = s.blob(n);
            let compress = s.bool();
            if !compress && d.starts_with(&io::ZSTD_MAGIC) { return Err(Fail::Discard); }
            let w = chunks(s);
            let r = chunks(s);
            let fl = s.bool();
            s.note(|| format!("{n} bytes, compress={compress}, write chunks {w:?}, read chunks {r:?}, flush between={fl}"));
            if n > 64 { s.nontrivial(); }
            let sc = Scratch::new("c06");
            let f = sc.path("s.bin");
            let mut wr = io::compressed_writer(std::fs::File::create(&f).unwrap(), compress).map_err(|e| format!("{e:#}"))?;
            let (mut off, mut i) = (0, 0);
            while off < n {
                let k = w[i % w.len()].min(n - off);
                i += 1;
                wr.write_all(&d[off..off + k]).map_err(|e| e.to_string())?;
                if fl && i % 3 == 0 { wr.flush().map_err(|e| e.to_string())?; }
                off += k;
            }
            wr.finish().map_err(|e| e.to_string())?;
            let raw = std::fs::read(&f).unwrap();
            if compress {
                ensure!(raw.starts_with(&io::ZSTD_MAGIC), "compressed stream is not a zstd frame");
                ensure!(io::decompress_bytes(&raw).map_err(|e| format!("{e:#}"))? == d, "stream does not decompress to what was written");
            } else {
                ensure!(raw == d, "plain stream differs from what was written");
            }
            let mut rd = io::auto_reader(std::fs::File::open(&f).unwrap()).map_err(|e| format!("{e:#}"))?;
            let mut got = vec![];
            let mut i = 0;
            loop {
                let mut b = vec![0u8; r[i % r.len()]];
                i += 1;
                let k = rd.read(&mut b).map_err(|e| e.to_string())?;
                if k == 0 { break; }
                got.extend_from_slice(&b[..k]);
            }
            ensure!(got == d, "auto_reader returned {} bytes that differ from the {n} written", got.len());
            Ok(())
        })
        .prop("paced_pipe", 1500, 20000, |s| {
            // the source hands out exactly one chunk at a time, as a pipe with a slow writer does
            let n = match s.weighted(&[2, 3, 1]) { 0 => s.usize_in(0, 12), 1 => s.usize_in(0, 600), _ => s.usize_in(0, 30_000) };
            let d = if s.chance(1, 4) { let mut d = io::ZSTD_MAGIC[..s.usize_in(0, 3)].to_vec(); d.extend(s.blob(n)); d } else { s.blob(n) };
            if d.starts_with(&io::ZSTD_MAGIC) { return Err(Fail::Discard); }
            let compress = s.bool();
            let raw = io::maybe_compress_bytes(d.clone(), compress).map_err(|e| format!("{e:#}"))?;
            let mut cuts: Vec<usize> = (0..s.usize_in(1, 5)).map(|i| if i < 3 || s.bool() { s.usize_in(0, raw.len().min(6)) } else { s.usize_in(0, raw.len()) }).collect();
            cuts.push(raw.len());
            cuts.sort();
            cuts.dedup();
            s.note(|| format!("{} bytes ({}), chunk ends {cuts:?}", raw.len(), if compress { "zstd" } else { "plain" }));
            if cuts[0] < 4 && raw.len() > 4 { s.nontrivial(); }
            let got = paced(&raw, &cuts, |f| {
                let mut out = vec![];
                io::auto_reader(f).map_err(|e| format!("{e:#}"))?.read_to_end(&mut out).map_err(|e| e.to_string())?;
                Ok::<_, String>(out)
            }).map_err(|e| format!("reading a slow pipe: {e}"))?;
            ensure!(got == d, "auto_reader returned {} bytes that differ from the {} sent", got.len(), d.len());
            Ok(())
        })
        .prop("short_reads", 15000, 200000, |s| {
            let (r, n) = sized_rec(s, 1);
            let mp = rmp_serde::to_vec_named(&r).unwrap();
            let k = s.usize_in(1, 4);
            let steps: Vec<usize> = (0..k).map(|_| s.usize_in(0, 40)).collect();
            s.note(|| format!("{n} bytes delivered in steps {steps:?}"));
            if n > 64 { s.nontrivial(); }
            let got: Rec = io::read_msgpack_reader(Dribble { data: &mp, steps: steps.clone(), i: 0 }).map_err(|e| format!("{e:#}"))?;
            ensure!(got == r, "read_msgpack_reader returned a different value");
            let cut = s.below(mp.len());
            ensure!(io::read_msgpack_reader::<Rec>(&mp[..cut]).is_err(), "a record cut to {cut} of {n} bytes is accepted");
            Ok(())
        })
        .prop_serial("stream_write_faults", 2000, 40000, |s| {
            let n = match s.weighted(&[3, 3, 1]) { 0 => s.usize_in(0, 300), 1 => s.usize_in(0, 20_000), _ => s.usize_in(0, 400_000) };
            let d = s.blob(n);
            let compress = s.bool();
            let w = chunks(s);
            let sc = Scratch::new("c06f");
            let go = |f: &Path| -> std::io::Result<()> {
                let mut wr = io::compressed_writer(std::fs::File::create(f)?, compress).map_err(|e| std::io::Error::other(format!("{e:#}")))?;
                let (mut off, mut i) = (0, 0);
                while off < n {
                    let k = w[i % w.len()].min(n - off);
                    i += 1;
                    wr.write_all(&d[off..off + k])?;
                    off += k;
                }
                wr.finish()
            };
            let f = sc.path("full.bin");
            go(&f).map_err(|e| e.to_string())?;
            let need = std::fs::metadata(&f).unwrap().len();
            for _ in 0..3 {
                let limit = match s.draw(2) { 0 => s.draw(need), 1 => need.saturating_sub(s.draw(3)), _ => s.draw(need.min(64)) };
                s.note(|| format!("{n} bytes, compress={compress}, stream of {need} bytes limited to {limit}"));
                let g = sc.path("cut.bin");
                let r = { let _g = FsizeLimit::set(limit); go(&g) };
                s.evals(1);
                if limit < need {
                    s.nontrivial();
                    ensure!(r.is_err(), "writing and finishing a stream of {need} bytes claims success with room for {limit}");
                } else {
                    r.map_err(|e| format!("stream fails although it fits: {e}"))?;
                    ensure!(std::fs::read(&g).unwrap() == std::fs::read(&f).unwrap(), "same data, different stream");
                }
            }
            Ok(())
        })
        .prop_serial("pipe", 400, 6000, |s| {
            let (r, n) = sized_rec(s, 2);
            let mp = rmp_serde::to_vec_named(&r).unwrap();
            s.note(|| format!("{n} bytes through stdin/stdout"));
            s.nontrivial();
            let mut ch = std::process::Command::new(std::env::current_exe().unwrap())
                .arg("pipe-echo").stdin(std::process::Stdio::piped()).stdout(std::process::Stdio::piped()).stderr(std::process::Stdio::null())
                .spawn().unwrap();
            let mut inp = ch.stdin.take().unwrap();
            let m2 = mp.clone();
            let t = std::thread::spawn(move || { let _ = inp.write_all(&m2); });
            let mut out = vec![];
            ch.stdout.take().unwrap().read_to_end(&mut out).unwrap();
            t.join().unwrap();
            let st = ch.wait().unwrap();
            ensure!(st.success(), "reading a record from stdin and writing it to stdout failed: {st:?}");
            let back: Rec = rmp_serde::from_slice(&out).map_err(|e| format!("stdout is not the msgpack record: {e}"))?;
            ensure!(back == r, "the record changed between stdin and stdout");
            // maps keyed by field name, and nothing else on the stream (HashMap order may differ)
            ensure_eq!(out.len(), mp.len(), "bytes on stdout");
            Ok(())
        })
}

fn main() {
    let id = std::env::args().nth(1).unwrap_or_default();
    if id == "pipe-echo" {
        let r = io::read_msgpack_stdin::<Rec>().and_then(|v| io::write_msgpack_stdout(&v));
        std::process::exit(i32::from(r.is_err()));
    }
    match id.as_str() {
        "C01" => c01(),
        "C02" => c02(),
        "C03" => c03(),
        "C04" => c04(),
        "C05" => c05(),
        "C06" => c06(),
        _ => {
            eprintln!("unknown property {id}");
            std::process::exit(2)
        }
    }
    .main()
}

/// Runs `read` on a stream that holds one chunk at a time: the next one is written when the last has been consumed.
fn paced<T>(raw: &[u8], cuts: &[usize], read: impl FnOnce(std::fs::File) -> T) -> T {
    use std::os::fd::AsRawFd;
    extern "C" { fn ioctl(fd: i32, req: u64, ...) -> i32; }
    let (mut tx, rx) = std::os::unix::net::UnixStream::pair().unwrap();
    let probe = rx.try_clone().unwrap();
    let done = std::sync::atomic::AtomicBool::new(false);
    std::thread::scope(|sc| {
        let done = &done;
        sc.spawn(move || {
            let mut off = 0;
            for &c in cuts {
                if tx.write_all(&raw[off..c]).is_err() { return; }
                off = c;
                let (mut left, mut spin) = (1i32, 0);
                while left != 0 && !done.load(std::sync::atomic::Ordering::Relaxed) {
                    if unsafe { ioctl(probe.as_raw_fd(), 0x541B, &mut left) } != 0 { return; }
                    spin += 1;
                    if spin > 50 { std::thread::sleep(std::time::Duration::from_micros(20)); } else { std::thread::yield_now(); }
                }
            }
        });
        let r = read(std::os::fd::OwnedFd::from(rx).into());
        done.store(true, std::sync::atomic::Ordering::Relaxed);
        r
    })
}
