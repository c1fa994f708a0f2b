"""C10 (colour conversion and padding) and C11 (alpha plane coding): symx runs over the IR of the current sources."""
import symdump
RGB, ARGB, PLANE = '@rfx_encode_rgb_to_yuv', '@rfx_encode_argb_to_yuva', '@rfx_encode_plane'

def conv(ctx, fn, fmt, alpha, part, parts):
    symdump.run(ctx, '%s, pixel format %d, all tile sizes (part %d of %d)' % (fn, fmt, part + 1, parts), ['c10', fn, fmt, alpha, part, parts])
def phases_C10():
    def p(ctx):
        symdump.prepare(ctx, [RGB, ARGB])
        return [(conv, (fn, fmt, al, 0, 1)) for fn, al in ((ARGB, 1), (RGB, 0)) for fmt in range(4)]
    return [p]

def plane(ctx):
    d = symdump.run(ctx, 'rfx_encode_plane: the planar decoder gives back the plane', ['c11'])
    if d: ctx.notes.append('rfx_encode_plane: %s merged control states; the stream position never exceeds %s bytes while coding' % (d['states'], d['maxe']))
def phases_C11():
    def p(ctx):
        symdump.prepare(ctx, [PLANE]); return [(plane, ())]
    return [p]
