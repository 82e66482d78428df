#!/usr/bin/env python3
"""Bootstraps harness/<crate>/Cargo.lock: names every /repo crate as depending on the stand-in halo2curves, so that
cargo treats the git dependency as locked to the [patch] and never contacts the network."""
import sys, re, glob
crate = sys.argv[1]
out = ['version = 4\n']
pk = [(f'h-{crate}', '0.0.0')]
for t in glob.glob('/repo/prover/**/Cargo.toml', recursive=True) + glob.glob('/repo/compiler/*/Cargo.toml') + glob.glob('/repo/rust/*/Cargo.toml'):
    s = open(t).read()
    if re.search(r'^halo2curves', s.split('[dev-dependencies]')[0], re.M):
        pk.append((re.search(r'^name\s*=\s*"(.*?)"', s, re.M).group(1), '0.4.0'))
for n, v in sorted(pk):
    out.append(f'[[package]]\nname = "{n}"\nversion = "{v}"\ndependencies = [\n "halo2curves",\n]\n')
out.append('[[package]]\nname = "halo2curves"\nversion = "0.6.0"\n')
open(f'/verif/harness/{crate}/Cargo.lock', 'w').write('\n'.join(out))
