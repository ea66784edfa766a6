from sa import report, sponge
from .common import *


def run(rep):
    rep.rule("abstract runs of shake128/shake256 with the permutation as boundary and symbolic message bytes, for every message length from 0 to several "
             "blocks (all residues) and lengths around 2^16, and every output length: the state given to each permutation is, byte for byte, the previous "
             "state xor the padded message block of the specification; every output byte is the next byte of the state")
    rep.rule("the same for shake*_absorb from an arbitrary state and shake*_squeezeblocks; round constant table against the LFSR of FIPS 202")
    jobs = []
    for rate, name in ((136, "shake256"), (168, "shake128")):
        top = (6 if rep.thorough else 3) * rate + 2
        ns = list(range(top))
        for k in range(8):
            jobs.append((sponge.lengths, (name, rate, ns[k::8], 32)))
            jobs.append((sponge.outputs, (name, rate, 5, ns[k::8])))
        jobs.append((sponge.outputs, (name, rate, rate, [0, 1, rate - 1, rate, rate + 1, 2 * rate, 3 * rate - 1])))
        jobs.append((sponge.lengths, (name, rate, [255, 256, 257, 511, 512, 4095, 4096, 4097], 2 * rate)))
        jobs.append((sponge.lengths, (name, rate, [32767, 65535 // rate * rate, 65536 + 3] + ([65536, 65536 + rate, 131072 + 1] if rep.thorough else []), 16)))
        jobs.append((sponge.outputs, (name, rate, 3, [65536 + 3])))
        for k in range(4):
            jobs.append((sponge.pieces, (rate, ns[k::4])))
    report.parallel(rep, jobs)
    rep.need("every message byte and the padding enter the state exactly once", 2000)
    rep.need("every output byte is the next state byte", 1000)
