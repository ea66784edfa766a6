from sa import report, kem
from .common import *


def job(rep, bits, kind):
    rep.thorough = False
    fv = (1,)
    if kind == "compressed":
        fv = tuple(sorted(kem.agreeA(rep, bits))) or (1,)
        kem.ctcheck(rep, bits)
        kem.cmpbody(rep, bits)
    kem.helpers(rep, bits, kind)
    kem.dec(rep, bits, kind, fv)


def run(rep):
    rep.rule("abstract run of decapsulation: in every outcome the shared key is a hash over exactly the message (or the rejection string of the secret key) "
             "and the complete received ciphertext; the message is used only when the recomputed ciphertext equals the received one in every byte")
    rep.rule("ct_compare and ct_cmov for every length used; validate_ciphertext and cmp_f2elm of the compressed variant; refused ciphertext curves")
    report.parallel(rep, [(job, (b, k)) for b in reversed(PRIMES) for k in ("plain", "compressed")])
