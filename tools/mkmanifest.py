#!/usr/bin/env python3
import json, sys, os
sys.path.insert(0, '/verif/rfxvc')
MSG = 'every path of the encode call from its IR, with callee contracts for conversion, transforms and coders; loops cut at inferred invariants (Houdini over affine, bound and rate candidates), every obligation in linear integer arithmetic discharged by z3; '
CLAIM = {
 'C01': ('proof', MSG + 'every store within the capacity, nothing cut or refused when the worst case fits'),
 'C02': ('proof', MSG + 'the write log of every successful path is read back against the block layout, tiles by induction over the tile loop'),
 'C03': ('proof', MSG + 'encoder invariant on header and frame number preserved by every path'),
 'C04': ('proof', MSG + 'coefficient-exact: emitted lists, reference kept and reference left alone per tile iteration'),
 'C12': ('proof', MSG + 'provenance of every component (pixels, stride, quantisers, order) per tile iteration'),
 'C13': ('proof', 'creation explored on every path for any flags, format, size and CPU; composition of every component coder; header and tile-set fields and the coder called on every path of the encode call'),
 'C14': ('proof', 'creation, destruction and every path of the encode call with ghost ownership of every reference slot and every allocation outcome'),
 'C15': ('proof', 'coefficient ranges from the proved transforms, largest code as the maximum over all states of the reference encoder, and room and field width as obligations on every path of the encode call'),
 'C05': ('proof', 'cut-point verification of the real encoders against a ghost MS-RDPRFX encoder: inferred loop invariants, every path obligation discharged by z3; a separate lemma shows the ghost code decodes back'),
 'C06': ('proof', 'as C05, for the RLGR3 encoders'),
 'C07': ('proof', 'symbolic execution of the machine code nasm emits, every output coefficient proved equal to the specification term by the term normaliser; the portable code is proved against the same terms'),
 'C08': ('proof', 'function contracts (result = specification transform, every intermediate in 16 bits, frame) on the LLVM IR of the current sources, discharged by the term normaliser'),
 'C10': ('proof', 'symbolic execution of the conversion functions from their IR for every tile size with symbolic pixels and stride; each plane sample is decided on all inputs of its pixel'),
 'C11': ('proof', 'execution of the plane coder over symbolic pixels with a ghost planar decoder; control states merged at loop headers under intersected equality facts (the loop invariant), every output byte checked by the decoder'),
 'C09': ('proof', 'as C08, for the reduce-extrapolate transform; the corner sample that cannot fit is a known finding'),
}
NA = {}
props = [json.loads(l)['id'] for l in open('/verif/properties.jsonl')]
checks = []; na = []
for p in props:
    if p in CLAIM:
        lv, note = CLAIM[p][:2]
        checks.append(dict(property=p, quick_cmd='python3-vt check.py ' + p, thorough_cmd='VERIF_TIER=thorough python3-vt check.py ' + p, evidence_file='evidence/%s.json' % p,
            technique='contract-based deductive verification of the compiled IR/machine code', level=lv, level_note=note))
    else: na.append(dict(property=p, reason=NA.get(p, 'not built yet')))
json.dump(dict(version=1, setup_cmd='python3-vt -c "import z3" && bash harness/build.sh /tmp/rfxvc_setup /repo && rm -rf /tmp/rfxvc_setup', checks=checks, not_applicable=na,
    notes='No hooks are needed in /repo; the fix: commits are listed in known-findings.txt.'), open('/verif/MANIFEST.json', 'w'), indent=1)
