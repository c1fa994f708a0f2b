"""Mathematical specification of the two RemoteFX transforms (written from MS-RDPRFX / MS-RDPEGFX), on integer terms."""
import terms as T
from terms import add, sub, floor2, mulc

BANDS = ['HL1', 'LH1', 'HH1', 'HL2', 'LH2', 'HH2', 'HL3', 'LH3', 'HH3', 'LL3']
# quantiser table: two nibbles per byte, low nibble first
NIB = {n: i for i, n in enumerate(['LL3', 'LH3', 'HL3', 'HH3', 'LH2', 'HL2', 'HH2', 'LH1', 'HL1', 'HH1'])}
STD = [1024, 1024, 1024, 256, 256, 256, 64, 64, 64, 64]
REM = [1023, 1023, 961, 272, 272, 256, 72, 72, 64, 81]

def lift(x, ext):
    """one 1-D lifting step; ext: value standing for x[n] past the end (or None: odd length)"""
    n = len(x)
    e = list(x) + ([ext] if ext is not None else [])
    m = (len(e) - 1) // 2
    h = [floor2(sub(e[2*i+1], floor2(add(e[2*i], e[2*i+2]), 1)), 1) for i in range(m)]
    return e, h

def std1d(x):
    e, h = lift(x, x[-2])                        # mirrored
    l = [add(x[2*i], floor2(add(h[i-1] if i else h[0], h[i]), 1)) for i in range(len(h))]
    return l, h

def rem1d(x, wrap):
    if len(x) == 64:
        ext = sub(mulc(x[63], 2), x[62])         # extrapolated 65th sample
        ext = wrap(ext)
        e, h = lift(x, ext)
        # the 32nd high-pass value is zero by construction of the extrapolation and is not kept
        h31 = 0
        l = [add(e[2*i], floor2(add(h[i-1] if i else h[0], h[i] if i < 31 else h31), 1)) for i in range(32)]
        l.append(e[64])
        return l, h[:31]
    e, h = lift(x, None)
    m = len(h)
    l = [add(e[2*i], floor2(add(h[i-1] if i else h[0], h[i] if i < m else h[i-1]), 1)) for i in range(m + 1)]
    return l, h

def transform(pix, rem, wrap=lambda v: v):
    """pix: 4096 terms 0..255.  Returns list of 4096 terms in sub-band order."""
    f = (lambda x: rem1d(x, wrap)) if rem else std1d
    img = [[mulc(add(pix[y*64+x], -128), 32) for x in range(64)] for y in range(64)]
    out = []
    for lev in range(3):
        n = len(img)
        cols = [f([img[y][x] for y in range(n)]) for x in range(n)]
        nl = len(cols[0][0]); nh = len(cols[0][1])
        lo = [f([cols[x][0][y] for x in range(n)]) for y in range(nl)]
        hi = [f([cols[x][1][y] for x in range(n)]) for y in range(nh)]
        for r in lo: out += r[1]                 # HL
        for r in hi: out += r[0]                 # LH
        for r in hi: out += r[1]                 # HH
        img = [r[0] for r in lo]
    for r in img: out += r
    return out

def nibble_leaves():
    return [T.leaf(('q', i), 6, 15) for i in range(10)]

def qbytes(nb):
    return [add(nb[2*i], mulc(nb[2*i+1], 16)) for i in range(5)]

def band_of(rem):
    out = []
    for b, n in zip(BANDS, REM if rem else STD): out += [b] * n
    return out

def quantised(c, q):
    """round-half-up division by 2^(q-6+5)"""
    return floor2(add(c, 1 << (q - 2)), q - 1)
