"""width table shared by the contract files"""
WIDTHS = []
for bits in (8, 16, 32, 64):
    WIDTHS.append(dict(T="u%d" % bits, W="u%d" % (2 * bits), WBITS=2*bits, BITS=bits, HALF=bits // 2, B=hex(1 << bits), MAX=hex((1 << bits) - 1),
                       S="i%d" % bits, BB="(%s * %s)" % (hex(1 << bits), hex(1 << bits)), H=hex(1 << (bits // 2)), Q=hex(1 << (bits - 2)), HB=hex(1 << (bits - 1))))
def std(v, widths=WIDTHS):
    v.include("std.rs")
    for w in widths:
        v.include("std_w.rs", w)
