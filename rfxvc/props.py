import p_dwt, p_asm, p_rlgr, p_planes, p_enc, p_life, p_worst
TRUSTED = ['clang-18 front end and the sroa/simplifycfg passes (C to LLVM IR)', 'the verifier in /verif/rfxvc (IR reader, term normaliser, executor)']
Z3 = ['z3 (python3-vt z3-solver)']
RL = ['opt-18 inlining of helpers into their callers', 'the transcription of the MS-RDPRFX RLGR procedures in rfxvc/rlgr.py (Ghost) and rfxvc/rlgrlemma.py (Dec)'] + Z3
SX = ['opt-18 inlining and if-conversion', 'the symbolic executor /verif/symx (terms, memory, fork and merge)']
def one(f): return [lambda ctx: f()]
def withcomp(f):
    def p(ctx):
        p_life.G.prepare(ctx); return (f(ctx) if f else []) + p_life.components()
    return p
MX = ['the message-level executor rfxvc/msgx.py and the message layout written in rfxvc/p_enc.py'] + Z3
CONTRACTS = ['contract used at call sites: a component coder writes only inside the room passed on and, given NC = 10000 bytes, at most that much (proved as C05/C06 + C15)', 'contract used at call sites: the progressive coder fails only with less than 24595 bytes of room (C05 + C15)',
    'contract used at call sites: the alpha plane takes at most 4098 of 4417 bytes of room (C11)', 'contract used at call sites: conversion fills the planes from the pixels at the address given (C10), transforms write only their buffers (C08, C09, C07)']
ENC = ['legal calls: capacity 0..2^29, at most 65535 rectangles and tiles and 255 quantiser sets, tile sizes 1..64 and quantiser indices below the number of sets in standard mode, quantiser nibbles 6..15', 'caller buffers do not overlap each other or the encoder; pixel address products fit an int (pictures below 2 GB)', 'fewer than 2^31 - 1 frames per stream']
PROPS = {
 'C01': dict(phases=p_enc.phases('C01'), min_ob=100000, trusted=MX, assume=ENC + CONTRACTS),
 'C02': dict(phases=p_enc.phases('C02'), min_ob=100000, trusted=MX, assume=ENC + CONTRACTS),
 'C03': dict(phases=p_enc.phases('C03'), min_ob=100000, trusted=MX, assume=ENC + CONTRACTS),
 'C04': dict(phases=p_enc.phases('C04', std=False), min_ob=100000, trusted=MX, assume=ENC + CONTRACTS),
 'C12': dict(phases=p_enc.phases('C12', pro=False) + [withcomp(None)], min_ob=100000, trusted=MX, assume=ENC + CONTRACTS),
 'C13': dict(phases=p_life.phases_C13(), min_ob=100000, trusted=MX, assume=ENC + CONTRACTS),
 'C14': dict(phases=p_life.phases_C14(), min_ob=1000000, trusted=MX, assume=ENC + CONTRACTS + ['calloc either fails or returns zeroed memory of the size asked; free releases what it is given']),
 'C15': dict(phases=p_worst.phases_C15(), min_ob=10000000, trusted=MX + ['the dynamic program symx/worst.cpp (reference encoder transitions)', 'nasm, ld and objdump (machine code to instructions)', 'the instruction semantics in rfxvc/asmexec.py'],
    assume=ENC + ['the code the entropy coders emit is as long as the reference code (C05, C06)', 'progressive references hold quantised transforms (C04)', 'the alpha plane takes at most 4098 of 4417 bytes of room (C11)']),
 'C05': dict(phases=p_rlgr.phases(1, [('@rfx_rlgr1_encode', 1, None), ('@rfx_encode_diff_rlgr1', 1, 64), ('@rfx_encode_diff_rlgr1', 1, 81)]), min_ob=300000, limit=700, trusted=RL,
    assume=['the differencing span is 64 or 81 (the only spans the library uses)', 'the output capacity is at most 2^29 bytes']),
 'C06': dict(phases=p_rlgr.phases(3, [('@rfx_encode_diff_rlgr3', 3, 64), ('@rfx_rlgr3_encode', 3, None)]), min_ob=500000, limit=700, trusted=RL,
    assume=['the differencing span is 64 (the only span the library uses)', 'the output capacity is at most 2^29 bytes']),
 'C07': dict(phases=[withcomp(lambda ctx: p_asm.jobs_C07() + p_dwt.jobs_C08())], min_ob=90000, trusted=['nasm, ld and objdump (machine code to instructions)', 'the instruction semantics in rfxvc/asmexec.py'],
    assume=['work buffers are 16-byte aligned (established by rfxcodec_encode_create_ex, see C14)', 'quantiser nibbles are 6..15']),
 'C08': dict(phases=one(p_dwt.jobs_C08), min_ob=200000, assume=['quantiser nibbles are 6..15']),
 'C09': dict(phases=one(p_dwt.jobs_C09), min_ob=300000, assume=['quantiser nibbles are 6..15', 'where the corner sample LL1[32][32] leaves 16 bits, the coefficients that depend on it are only shown to stay in 16 bits (see known-findings.txt)']),
 'C10': dict(phases=p_planes.phases_C10(), min_ob=100000000, trusted=SX,
    assume=['tile sizes 1..64 (enumerated, all 4096 of them); |stride| <= 2^24', 'the pixel format field is the one recorded at creation (C13)']),
 'C11': dict(phases=p_planes.phases_C11(), min_ob=10000000, trusted=SX + ['the transcription of the planar-codec rules in symx/c11.h'],
    assume=['the output has room for the 4417 bytes the run-length attempt may take (C15, C01)', 'the plane does not overlap the work buffer']),
}
