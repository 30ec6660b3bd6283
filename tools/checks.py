"""which proof parts and which bounded stand-ins decide each property"""
CP = ["cp_offline", "cp_offline_log", "cp_online", "cp_online_log", "cp_online_abs", "cp_online_abs_relax_FN", "cp_bilinear_online_log", "cp_sz3_online_abs"]
REL = ["cp_offline", "cp_offline_log", "cp_online", "cp_online_log"]; ABS = ["cp_online_abs", "cp_online_abs_relax_FN", "cp_sz3_online_abs"]
BLK = ["block2d", "block2deb", "block3d", "block3deb"]
KQ = ["kernels:%s:%s" % (S, t) for S in "fd" for t in ("quant_ow", "quant", "mean")]; KZ = ["kernels:%s:%s" % (S, t) for S in "fd" for t in ("sz3", "sz3d")]
DA = ["derive:abs:f", "derive:abs:d"]; DR = ["derive:rel:f", "derive:rel:d"]; DT = ["derive:%s:%s" % (t, S) for t in ("type", "adj") for S in "fd"]
BK = ["blocks:f", "blocks:d"]; TR = ["trav:%s" % x for x in ("2d:f", "2deb:f", "2deb:d", "3d:f", "3d:d", "3db:f", "3db:d")]
CA = ["cp2d:abs:f", "cp2d:abs:d"]; CR = ["cp2d:rel:f", "cp2d:rel:d"]; CX = ["cp2d:relax:f", "cp2d:relax:d"]
CE = ["cells:f", "cells:d"]; LN = ["line:%s:%s" % (r, S) for r in ("r1", "r2") for S in "fd"]; LV = ["levels:f", "levels:d"]; FA = ["fpax:32", "fpax:64"]; DN = ["derivenum:%s:%s" % (t, S) for t in ("num:abs", "num:rel", "fold:abs") for S in "fd"]
HC = ["huffcode:build_code", "huffcode:encode", "huffcode:decode"]
def each(gs, n): return [(g, n) for g in gs]
def chk(parts, battery, accept, level=None, note="", **kw): return dict(parts=parts, battery=battery, accept=set(accept), level=level or ("proof" if parts else "exploration"), note=note, **kw)
CHECKS = {
 "C01": chk(KQ + BK + TR, [("bat", each(BLK, 900)), ("intmisc", [("quant", 300), ("reg", 300)])], {"C01"}),
 "C02": chk(["bits"], [("bat", [("pwr", 2600)])], {"C02"}),
 "C03": chk(KQ + KZ + CA + CR + CX + FA + LN + LV + DN + ["ebq"], [("bat", each(CP, 380))], {"C03"}),
 "C04": chk(DA + DR + CE + CA + CR + CX + LN + LV + DN, [("bat", each(CP, 380))], {"C04"}),
 "C05": chk(DA + CA + CX, [("bat", each(ABS, 1000))], {"C05"}),
 "C06": chk(DA + DR + CE + DN, [("intderive", [("dabs", 12000), ("drel", 12000)]), ("bat", each(CP, 150))], {"C06", "C04", "C05"}),
 "C07": chk(["ebq"] + CA + CR + CX + LN + DN, [("intmisc", [("ebq", 12000)]), ("bat", each(CP, 250))], {"C07", "C03"}),
 "C08": chk(KQ + KZ + BK + CA + CR + CX, [("intmisc", [("quant", 6000), ("sz3q", 6000)]), ("bat", each(BLK, 200) + each(CP, 120))], {"C08", "C01", "C03"}),
 "C09": chk(HC + ["hufftree", "huffq"], [("inthuff", [("huff", 3500)]), ("intlong", [("long", 4000)])], {"C09"}),
 "C10": chk(HC + ["huffq"], [("inthuff", [("huff", 4000)])], {"C10"}),
 "C11": chk(["bits"], [("intmisc", [("bits", 12000)]), ("bat", [("pwr", 500)])], {"C11", "C02"}),
 "C12": chk(["hufftree"], [("inthuff", [("huff", 4000)])], {"C12"}),
 "C13": chk(["bits", "hufftree", "huffcode:encode", "huffcode:decode"] + KQ + KZ + BK + TR + CA + CR + CX + LV, [("bat", each(BLK, 350) + [("pwr", 300)] + each(CP, 130))], {"C13"}),
 "C14": chk(["bits", "intv", "lossless", "hufftree", "huffq", "huffcode:encode", "huffcode:decode"] + KQ + KZ + BK + TR + CE + CA + CR + CX + LV, [("bat", each(BLK, 350) + [("pwr", 300), ("lossless", 60)] + each(CP, 140)), ("inthuff", [("huff", 500)]), ("intlong", [("long", 400)]), ("intmisc", [("intv", 300), ("reg", 200), ("bits", 300)])], {"CRASH"}),
 "C15": chk(["kernels:f:quant_ow", "kernels:d:quant_ow"] + BK + TR, [("intmisc", [("reg", 8000)]), ("bat", each(BLK, 350))], {"C15", "C01"}),
 "C17": chk(BK + TR + CA + CR + CX, [("bat", each(BLK, 350) + each(CP, 160))], {"C01", "C03"}),
 "C18": chk(KZ + ["ebq"] + LN + LV + DN[4:], [("bat", [("cp_sz3_online_abs", 3000)])], {"C18", "C03", "C04", "C05", "C08"}),
 "C19": chk(["intv"], [("intmisc", [("pow2", 3000), ("intv", 2500)]), ("bat", [("block3d", 250)])], {"C19"}),
 "C20": chk(["lossless", "bits", "intv", "huffq", "hufftree"] + BK + TR + CE + CA + CR + CX + LV, [("bat", each(BLK, 300) + [("pwr", 300), ("lossless", 60)] + each(CP, 130))], {"C20"}),
 "C21": chk(["lossless"], [("bat", [("lossless", 30000)])], {"C21"}),
 "C22": chk(DT + DR + ["ebq"] + CR, [("intderive", [("drel", 15000)]), ("bat", each(REL, 500))], {"C22"}),
}
NA = {"C23": "the 3D critical-point compressors need the FTK headers, which are not installed: src/sz_compress_cp_preserve_3d.cpp cannot be compiled here, so neither its obligations nor a replay can be produced"}
