"""property id -> (decision procedure, level of the claim)"""
import bench
import compare
import hist
import interface
import numeric
import numeric_spec as S
import persist
import screen
import stats
import structure
import tables
import wrappers, cmdline, pylayer


def _num(p, min_boxes):
    return (lambda ctx: numeric.check(ctx, S.SPEC[p], min_boxes)), "proof"


CHECKS = {
    "P01": _num("P01", 5000), "P02": _num("P02", 5000), "P03": _num("P03", 50000), "P04": _num("P04", 50000),
    "P05": _num("P05", 2000), "P06": _num("P06", 5000), "P07": _num("P07", 5000), "P08": _num("P08", 5000),
    "P09": _num("P09", 10000), "P10": _num("P10", 10000), "P11": _num("P11", 20), "P12": _num("P12", 38),
    "P13": _num("P13", 10000), "P14": _num("P14", 50000), "P15": _num("P15", 200),
    "P16": (structure.arrays, "other"), "P17": (structure.state, "other"), "P18": (interface.check, "other"), "P19": (structure.preload, "other"),
    "P20": (structure.vector, "other"),
    "P21": (persist.check, "other"),
    "P22": (bench.check, "other"), "P27": (bench.check_timing, "other"),
    "P23": (stats.check, "other"), "P24": (stats.pools, "other"),
    "P26": (wrappers.fatlib, "other"), "P30": (wrappers.numpy_module, "other"), "P29": (cmdline.check, "other"), "P28": (compare.check, "other"), "P31": (pylayer.check, "other"),
    "P32": (screen.check_responses, "other"), "P33": (screen.check_screen, "other"),
    "P34": (tables.check, "other"), "P35": (hist.check, "other"),
    "P25": ((lambda ctx: numeric.check(ctx, S.contracted(), 200000)), "proof"),
}
