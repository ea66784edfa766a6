from sa import report, iocheck, progs
from .common import *


def job(rep, bits):
    iocheck.formats(rep, bits, "read")
    progs.inputs(rep, bits)


def run(rep):
    rep.rule("typestate over the stream: an outcome of a reader that reports success never passed a read that hit the end of the input; "
             "value sets of every consumed character at success are enumerated from the comparison facts; every byte of every field of the "
             "announced kind is the value of two consumed hexadecimal characters; the writer's item sequence equals the reader's, per "
             "repetition and kind")
    report.parallel(rep, [(job, (b,)) for b in reversed(PRIMES)])
    rep.need("every field the verifier reads came from the input", 4000)
    rep.need("reader and writer agree on every response", 1000)
    rep.need("hexadecimal positions accept only hexadecimal digits", 400)
