"""Per-property run parameters (number of generated cases per tier)."""


def one(variant, quick, thorough):
    return {"stages": [{"variant": variant, "quick": quick, "thorough": thorough}]}


CHECKS = {
    "P01": one("plain", 20000, 300000),
    "P03": one("asan", 8000, 200000),
    "P04": one("plain", 16000, 300000),
    "P05": one("plain", 150000, 1500000),
    "P06": one("plain", 100000, 1500000),
    "P07": one("plain", 150000, 1500000),
    "P08": one("plain", 150000, 1500000),
    "P09": one("plain", 150000, 1500000),
    "P13": one("plain", 80000, 1500000),
    "P15": one("plain", 60000, 1000000),
    "P16": one("asan", 10000, 200000),
    "P02": one("asan", 20000, 400000),
    "P10": one("plain", 100000, 1500000),
    "P14": one("plain", 150000, 1500000),
    "P12": one("plain", 60000, 1000000),
    "P11": one("plain", 20000, 400000),
    "P17": one("plain", 50000, 600000),
    "P18": one("asan", 6000, 200000),
    "P19": one("plain", 20000, 200000),
    "P20": one("plain", 100000, 1500000),
    # the Python module: the interpreter is embedded in the harness
    "P21": dict(one("asan", 2500, 100000), extra=["wrappers/python/cmoordyn.cpp"], python=True),
    "P22": dict(one("plain", 8000, 100000), extra=["wrappers/python/cmoordyn.cpp"], python=True),
}
