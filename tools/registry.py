CHECKS = {
    "B01": ("c_bitset", "check"),
    "B02": ("c_bitset", "check"),
    "B03": ("c_bitset", "check"),
    "B04": ("c_bitset", "check"),
    "V01": ("c_vec", "check"),
    "V02": ("c_vec", "check"),
    "V03": ("c_vec", "check"),
    "V04": ("c_vec", "check"),
    "M01": ("c_pool", "check"),
    "M02": ("c_pool", "check"),
    "K01": ("c_fault", "check"),
    "K02": ("c_thread", "check"),
    "S01": ("c_signal", "check"),
    "S02": ("c_signal", "check"),
    "R01": ("c_own", "check"),
    "O01": ("c_own", "check"),
    "O02": ("c_own", "check"),
    "D01": ("c_assert", "check"),
    "Z01": ("c_include", "check"),
    "O03": ("c_own", "check"),
    "F01": ("c_flags", "check"),
    "E01": ("c_enum", "check"),
    "P01": ("c_sparse", "check"),
    "N01": ("c_bits", "check"),
    "N02": ("c_int", "check"),
    "H01": ("c_hash", "check"),
    "C01": ("c_cast", "check"),
    "T01": ("c_list", "check"),
    "G01": ("c_func", "check"),
    "U01": ("c_utf8", "check"),
    "A01": ("c_mem", "check"),
    "X01": ("c_fpu", "check"),
    "Y01": ("c_types", "check"),
}

DEFAULT_TECH = "TLA+ specification model-checked with TLC and bound to the code by trace validation"
TECH = {}

DEFAULT_NOTE = ("The specification is checked exhaustively within small constants; every transition of that bounded model is replayed "
                "into the real code, and random long histories of the real code are validated by TLC against the same actions. "
                "Executions never driven are not covered; trusts TLC, the compilers, the sanitizers and the driver's logging.")
NOTES = {}

NA = {
}
