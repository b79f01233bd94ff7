GENERAL = [
    'floating point is treated as extended real arithmetic (NaN and infinities modelled, rounding not); float32 fields likewise',
    'machine integers are treated as mathematical integers (no overflow)',
    'numpy/scipy/builtin functions are used through the specifications in rmv/npshim.py and rmv/arr.py (assumed; cross-checked concretely)',
    'exp/log/sqrt/erf/pow/trigonometry are uninterpreted functions with monotonicity, range and identity axioms',
    'array sums over symbolic lengths are uninterpreted reductions with extensionality, sign and bound axioms',
    'memory aliasing follows numpy view semantics as modelled (views of one base array only)',
]
