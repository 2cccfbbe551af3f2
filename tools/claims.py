BASE = ('Decided by z3 over all inputs within the bounds listed in the evidence (per harness and variant): exact integer/real arithmetic semantics of the '
        'repository source, read from /repo at run time, under an executable model of the numpy/scipy calls it makes; path witnesses are replayed on the real code '
        'to validate that model. Floating-point rounding, sizes beyond the bounds and degenerate inputs excluded by the stated assumptions are outside.')
CLAIMS = {i: BASE for i in 'T01 T02 T03 T04 T05 T06 T07 S01 G01 G02 G03 G04 G05 G06 G07 G08 D01 D02 D03 D04 B01 R01 Q01 Q02 F01 F02 M01 M02 L01 L02 L03 K01 K02 K03 I01 C01 C02 C03 P01 V01 X01 W01 U01 A01 U02'.split()}
EXT = 'the implementing code is the C++ extension (libigl, CGAL, Eigen), which this build does not contain: nothing to encode or replay'
NA = dict(N01=EXT, N02=EXT, N03=EXT)
