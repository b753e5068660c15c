#!/usr/bin/env python3
"""Writes /verif/MANIFEST.json."""
import json, os
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
T = {
 'C01': 'deductive verification: contracts on the clang IR of ntt.c, discharged per size for all inputs and roots (term engine + z3)',
 'C02': 'deductive verification: contracts with interval invariants on the clang IR of ntt_red.c (term engine + z3)',
 'C03': 'deductive verification: lane-by-lane equality contracts between disassembled ntt_asm.S and the IR of ntt_red.c',
 'C04': 'deductive verification: contracts on the clang IR of naive_ntt.c (term engine + z3)',
 'C05': 'deductive verification: each size-specific transform proved equal to a linear map, inverse o forward = n*identity as a lemma over those contracts',
 'C06': 'deductive verification: postcondition c = a*b mod (X^n+1, q) on every product routine, discharged modularly over the transform contracts',
 'C07': 'deductive verification: bounds, frame, initialisation and ABI obligations on every load, store and return (C IR and AVX2 assembly)',
 'C08': 'deductive verification: per-element contracts with inductive loop invariants for any length (z3 bit-vectors / integer lemmas)',
 'C12': 'deductive verification: Hoare-style contracts on every function of intervals.c and red_bounds.c (enclosure, error exits, frame; z3)',
 'C13': 'deductive verification: relational contracts, abstract against concrete transform, over the interval-operation contracts (term engine + z3)',
 'C14': 'deductive verification: Hoare-style contracts, loop invariants and attained-bound lemmas on red_bounds.c, linked to the IR of ntt_red.c (z3)',
 'C15': 'deductive verification: Hoare-style contracts, loop invariants and variants on the four functions of sort.c (z3)',
 'C16': 'deductive verification: postcondition on every path of the disassembled avx2_supported over arbitrary CPUID/XGETBV words (z3 bit-vectors)',
 'C10': 'deductive verification: permutation postcondition with inductive invariants on the IR of both shuffles (z3 bit-vectors, any contents); symbolic execution of the generator main() against a library contract',
 'C11': 'deductive verification: both generators executed symbolically over powers of an arbitrary root psi, postcondition on every emitted entry; helper contracts (z3)',
 'C09': 'deductive verification: per-element contracts with inductive loop invariants for any length (z3 and exhaustive residue lemmas)',
}
N = {
 'C01': 'Proved for all contents and all roots, at each power-of-two size up to 1024 (thorough: 2048 and more); sizes are enumerated, contents and roots are symbolic.',
}
D = 'Proved for all inputs on the LLVM IR (or disassembly) generated from /repo on every run; trusts clang -O0 translation, the VC generator in /verif/vk and z3. An obligation that the generator cannot handle is reported as bounded, never as proved.'
NA = {
 'C17': 'verifier/ is a C++ LLVM-11/clam (crab) pass; neither LLVM 11 nor clam is installed, it cannot be compiled here, and its soundness rests on the external crab abstract domains, for which no contract verifier for C++ is present',
}
ids = [json.loads(l)['id'] for l in open(V + '/properties.jsonl')]
m = dict(version=1, setup_cmd='true',
         checks=[dict(property=i, quick_cmd='./check.py %s --tier quick' % i, thorough_cmd='./check.py %s --tier thorough' % i,
                      technique=T[i], level='proof', level_note=(N[i] + ' ' if i in N else '') + D) for i in ids if i in T],
         not_applicable=[dict(property=i, reason=NA.get(i, 'check under construction')) for i in ids if i not in T])
json.dump(m, open(V + '/MANIFEST.json', 'w'), indent=1)
open(V + '/MANIFEST.json', 'a').write('\n')
