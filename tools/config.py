"""What each property's check runs: models, generated operations and their number."""

def fam(name, driver):
    return {"driver": driver, "trace": name + "Trace", "s0": name + "S0", "step": name + "Step", "gen": name + "Gen", "case": name + "Case"}

SCAL = fam("Scal", ["scal.cpp"])
VEC = fam("Vec", ["vec.cpp"])
MAT = fam("Mat", ["mat.cpp"])
QUAT = fam("Quat", ["quat.cpp"])
BOX = fam("Box", ["box.cpp"])
GEOM = fam("Geom", ["geom.cpp"])
FRUSTUM = fam("Frustum", ["frustum.cpp"])
LINEQ = fam("LinEq", ["lineq.cpp"])
SPLINE = fam("Spline", ["spline.cpp"])
COLOR = fam("Color", ["color.cpp"])
PLAIN = dict(fam("Plain", ["plain.cpp"]), libs=["-lCatch2"])

STARTS2 = '{"ident", "one", "two", "minus", "turnz", "shear", "flip", "skew", "weks"}'
STARTS3 = '{"ident", "one", "two", "turnx", "cycle", "shear", "flip", "skew", "weks"}'
STARTS4 = '{"ident", "one", "two", "cycle", "shear", "skew", "weks"}'
PROPS = {
    "V01": {"family": VEC, "ops": ["v2.alg", "v3.alg", "v4.alg", "v.conv", "v2.seg", "v2.hist", "v3.hist", "v4.hist"], "count": 4000,
            "mc": [{"module": "VecMC", "consts": {"Dim": 2, "Grid": "{-2, -1, 0, 3}", "Factors": "{-1, 0, 3}"}, "inv": ["Inv"]},
                   {"module": "VecMC", "consts": {"Dim": 4, "Grid": "{-1, 0, 2}", "Factors": "{-2}"}, "inv": ["Inv"], "thorough": {"Factors": "{-2, 3}"}},
                   {"module": "VecMC", "consts": {"Dim": 3, "Grid": "{-2, -1, 0, 1}", "Factors": "{2}"}, "inv": ["Inv"],
                    "thorough": {"Grid": "{-2, -1, 0, 1, 2}"}}]},
    "V02": {"family": VEC, "ops": ["v2.rot", "v3.rot"], "count": 4000,
            "mc": [{"module": "VecTurnMC", "consts": {"Grid": "{-1, 0, 2}", "Parts": 6}, "inv": ["Inv"], "thorough": {"Grid": "{-2, -1, 0, 1, 3}", "Parts": 12}}]},
    "V03": {"family": VEC, "ops": ["v2.clerp", "v2.clerpmax", "v3.slerp", "v3.slerpmax"], "count": 3000,
            "mc": [{"module": "VecLerpMC", "consts": {"Grid": "{-1, 0, 1}", "Steps": 2}, "inv": ["Inv"], "thorough": {"Grid": "{-1, 0, 1}", "Steps": 8}}]},
    "M01": {"family": MAT, "ops": ["m2.alg", "m3.alg", "m34.alg", "m4.alg", "m2.arr", "m3.arr", "m34.arr", "m4.arr"], "count": 4000,
            "mc": [{"module": "MatMC", "consts": {"Kind": k, "Depth": d, "Names": n}, "inv": ["Inv"], "thorough": {"Depth": d + 1}} for k, d, n in
                   [(2, 3, '{"turn", "shear", "flip", "grow", "cut", "one"}'), (3, 2, '{"turn", "turnz", "cycle", "shear", "flip", "grow", "cut", "one"}'),
                    (34, 2, '{"turn", "cycle", "shear", "flip", "grow", "cut", "one"}'), (4, 2, '{"turn", "cycle", "shear", "flip", "grow", "cut", "proj"}')]]},
    "M02": {"family": MAT, "ops": ["m.axis", "m.coord", "m.quat", "m.axes", "m.slerp", "m.slerpmax", "m2.slerp"], "count": 3500,
            "mc": [{"module": "RotMC", "consts": {"Parts": 4, "Depth": 2, "Turns": "{1, 2, 3}"}, "inv": ["Inv"], "thorough": {"Depth": 3}},
                   {"module": "RotMC", "consts": {"Parts": 24, "Depth": 2, "Turns": "{1, 5, 11, 13}"}, "inv": ["Inv"], "thorough": {"Depth": 3}}]},
    "M03": {"family": MAT, "ops": ["m2.hist", "m3.hist", "m34.hist", "m4.hist"], "count": 1200,
            "mc": [{"module": "MatHistMC", "consts": {"Kind": k, "Depth": 2, "Starts": a, "Steps": b}, "inv": ["Inv"]} for k, a, b in
                   [(2, STARTS2, '{"opt", "neg", "copy", "cast", "trans", "inv", "selfmul", "turnz", "turnzp", "mulshear", "scap", "scaph", "mirror", "about", "squeeze", "squash", "mulk", "mulneg", "divk", "allneg", "ortho"}'),
                    (3, STARTS3, '{"opt", "neg", "copy", "cast", "trans", "inv", "selfmul", "selfxf", "turnx", "turnzp", "spin", "quatp", "xfcycle", "xfpflip", "mulshear", "scap", "scaph", "mirror", "about", "squeeze", "squash", "mulk", "mulneg", "divk", "allneg", "halfqp", "ortho"}')]] +
                  [{"module": "MatHistMC", "consts": {"Kind": k, "Depth": 2, "Starts": STARTS4, "Steps": b}, "inv": ["Inv"]} for k, b in
                   [(34, '{"neg", "trans", "inv", "selfmul", "turnx", "turnzp", "spin", "quatp", "halfq", "scaneg", "allneg", "xfcycle", "mulshear", "mulmove", "xf3shear", "tra", "trap", "back", "sca", "scaph", "mirror", "about", "squeeze", "squash", "scazero"}'),
                    (4, '{"neg", "trans", "inv", "selfmul", "turnx", "turnzp", "spin", "quatp", "halfq", "scaneg", "allneg", "xfcycle", "mulshear", "mulmove", "tra", "trap", "back", "sca", "scaph", "mirror", "about", "squeeze", "squash", "scazero", "mulneg", "divk"}')]] +
                  [{"module": "MatHistMC", "tier": "thorough", "consts": {"Kind": k, "Depth": d, "Starts": a, "Steps": b}, "inv": ["Inv"]} for k, d, a, b in
                   [(2, 4, '{"ident", "one", "shear"}', '{"neg", "trans", "inv", "selfmul", "turnzp", "scaph", "mulk", "opt"}'),
                    (3, 3, STARTS3, '{"neg", "cast", "trans", "inv", "selfmul", "turnx", "quatp", "xfpflip", "mulshear", "scaph", "mulk", "opt"}'),
                    (3, 4, '{"one", "cycle", "two"}', '{"neg", "inv", "selfxf", "spin", "scaph", "mulk", "opt"}')]]},
    "M04": {"family": MAT, "ops": ["m34.hist", "m4.hist", "m34.scale", "m4.scale", "m2.arr", "m3.arr", "m34.arr", "m4.arr"], "count": 1600,
            "mc": [{"module": "MatHistMC", "consts": {"Kind": k, "Depth": 2, "Starts": STARTS4, "Steps": b}, "inv": ["Inv"]} for k, b in
                   [(34, '{"opt", "neg", "cast", "trans", "inv", "selfmul", "selfxfp", "turnx", "turnzp", "spinp", "halfqp", "scaneg", "allneg", "quat", "xfcycle", "xfpflip", "mulshear", "mulmove", "xf3shear", "xf3pcycle", "tra", "trap", "back", "sca", "scap", "scaph", "mirror", "about", "squeeze", "squash", "scazero"}'),
                    (4, '{"opt", "neg", "cast", "trans", "inv", "selfmul", "selfxf", "turnx", "turnzp", "spin", "halfq", "scaneg", "allneg", "quatp", "xfcycle", "xfpflip", "mulshear", "mulmove", "tra", "trap", "back", "sca", "scap", "scaph", "mirror", "about", "squeeze", "squash", "scazero", "mulk", "mulneg", "divk"}')]] +
                  [{"module": "MatHistMC", "tier": "thorough", "consts": {"Kind": k, "Depth": 3, "Starts": STARTS4, "Steps": b}, "inv": ["Inv"]} for k, b in
                   [(34, '{"neg", "trans", "inv", "selfmul", "turnx", "quatp", "xfcycle", "mulshear", "xf3shear", "tra", "trap", "sca", "scap"}'),
                    (4, '{"neg", "trans", "inv", "selfmul", "turnx", "quatp", "xfcycle", "mulshear", "tra", "trap", "sca", "scap"}')]]},
    "Q01": {"family": QUAT, "ops": ["q.alg", "q.conv", "q.arc"], "count": 4000,
            "mc": [{"module": "QuatMC", "consts": {"Comp": "{-1, 0, 1}", "Steps": 1, "Arcs": "FALSE"}, "inv": ["Inv"]}]},
    "Q02": {"family": QUAT, "ops": ["q.lerp", "q.max", "q.squad"], "count": 4000,
            "mc": [{"module": "QuatMC", "consts": {"Comp": "{0, 1}", "Steps": 4, "Arcs": "TRUE"}, "inv": ["Inv"], "thorough": {"Comp": "{-1, 0, 1}", "Steps": 2}}]},
    "I01": {"family": SCAL, "ops": ["ip.ratio", "ip.ratio", "ip.ratio", "ip.lerp"], "count": 8000,
            "mc": [{"module": "ScalMC", "consts": {"Steps": 16}, "inv": ["Inv"], "thorough": {"Steps": 256}}]},
    "I02": {"family": SCAL, "ops": ["ip.clerp"], "count": 6000,
            "mc": [{"module": "TurnMC", "consts": {"Parts": 4, "Span": 12}, "inv": ["Inv"], "thorough": {"Parts": 6, "Span": 36}}]},
    "S01": {"family": SCAL, "ops": ["fn.basic", "fn.asin", "fn.fmod", "fn.fmod", "fn.eval", "fn.eval", "fn.eval", "fn.rand"], "count": 6000,
            "mc": [{"module": "FnMC", "consts": {"Steps": 16, "Thresholds": "{0, 1, 4, 15}"}, "inv": ["Inv"], "thorough": {"Steps": 128, "Thresholds": "{0, 1, 13, 64, 127}"}}]},
    "B01": {"family": BOX, "ops": ["a2.hist", "a3.hist", "k2.hist", "k3.hist", "a2.ask", "a3.ask", "k2.ask", "k3.ask"], "count": 3000, "mc": [{"module": "BoxMC", "consts": {"D": 2, "G": "{0, 1, 3}"}, "inv": ["Inv"]},
                   {"module": "BoxMC", "consts": {"D": 3, "G": "{0, 1}"}, "inv": ["Inv"]},
                   {"module": "BoxAllenMC", "consts": {"D": 2}, "inv": ["Laws"]}, {"module": "BoxAllenMC", "consts": {"D": 3}, "inv": ["Laws"]},
                   {"module": "BoxSetMC", "consts": {"D": 2, "Top": 2}, "inv": ["Inv"], "thorough": {"Top": 3}}]},
    "B02": {"family": BOX, "ops": ["a2.hist", "a3.hist", "k2.hist", "k3.hist", "a2.ask", "a3.ask", "k2.ask", "k3.ask"], "count": 3000, "mc": [{"module": "BoxMC", "consts": {"D": 2, "G": "{-2, 1}"}, "inv": ["Inv"], "thorough": {"G": "{-2, 0, 1}"}},
                   {"module": "BoxSetMC", "consts": {"D": 3, "Top": 1}, "inv": ["Inv"]}]},
    "B03": {"family": BOX, "ops": ["a2.ray", "a3.ray", "a2.line", "a3.line"], "count": 6000, "mc": [{"module": "RayMC", "consts": {"Far2": 6, "Dirs": "{-2, -1, 0, 1, 2}"}, "inv": ["Inv"], "thorough": {"Far2": 8, "Dirs": "{-5, -3, -2, -1, 0, 1, 2, 4}"}}]},
    "C01": {"family": BOX, "ops": ["c2.ball", "c3.ball", "c2.pts", "c3.pts", "c2.line", "c3.line"], "count": 5000, "mc": [{"module": "BallMC", "consts": {"G": "{-4, -3, 0, 1, 5}", "Radii": "{1, 3}"}, "inv": ["Inv"], "thorough": {"G": "{-7, -4, -3, 0, 1, 2, 5}", "Radii": "{1, 2, 3, 5}"}}]},
    "G01": {"family": GEOM, "ops": ["pl.hist", "pl.ask", "pl.ray", "pl.line", "pl.three", "m34.local", "m4.local"], "count": 4000,
            "mc": [{"module": "PlaneMC", "consts": {"Normals": "{<<1, 0, 0, 1>>, <<0, -1, 0, 1>>, <<3, 4, 0, 5>>, <<2, -1, 2, 3>>}", "Offsets": "{0, 1}", "G": "{-1, 0, 1}", "Depth": 1, "Rad": 1}, "inv": ["Inv"],
                    "thorough": {"Normals": "{<<1, 0, 0, 1>>, <<0, -1, 0, 1>>, <<0, 0, 1, 1>>, <<3, 4, 0, 5>>}", "Offsets": "{0, 1}", "G": "{-1, 0, 2}", "Depth": 2}},
                   {"module": "ThreeMC", "consts": {"Normals": "{<<1, 0, 0>>, <<0, -1, 0>>, <<0, 0, 1>>, <<1, 1, 0>>, <<1, -1, 1>>}", "Offsets": "{0, 2}", "G": "{0, 1}"}, "inv": ["Inv"],
                    "thorough": {"Offsets": "{-1, 0, 2}", "G": "{-1, 0, 1}"}}]},
    "G02": {"family": GEOM, "ops": ["l2.seg", "l3.seg", "r2.ray", "r3.ray", "t2.has", "t2.has"], "count": 4000,
            "mc": [{"module": "TriMC", "consts": {"Top": 1}, "inv": ["Inv"], "thorough": {"Top": 2}}]},
    "F01": {"family": FRUSTUM, "ops": ["fr.ask"], "count": 3000,
            "mc": [{"module": "FrustumMC", "consts": {"Shapes": "{<<1, 1, 0, 3, 2, 0, 2>>, <<2, 1, 0, 2, 1, 0, 1>>, <<1, 1, 1, 3, 3, 2, 4>>, <<0, 0, 0, 2, 2, 1, 4>>}", "G": "{-3, 0, 1, 2}", "Radii": "{0, 1, 3}"}, "inv": ["Inv"],
                    "thorough": {"G": "{-3, -2, 0, 1, 2, 4}", "Radii": "{0, 1, 2, 3, 4}"}}]},
    "L01": {"family": LINEQ, "ops": ["tri.solve", "tri.cyclic", "gj.solve", "gj.solve"], "count": 3000,
            "mc": [{"module": "GaussMC", "consts": {"Dim": 2, "Entries": "{-1, 0, 1, 3}"}, "inv": ["Inv"]},
                   {"module": "GaussMC", "consts": {"Dim": 3, "Entries": "{0, 1}"}, "inv": ["Inv"], "thorough": {"Entries": "{-1, 0, 1}"}},
                   {"module": "ThomasMC", "consts": {"Dim": 3, "Offs": "{-1, 1}", "Diags": "{-1, 0, 2}", "Corners": "{0, -1, 2}"}, "inv": ["Inv"], "thorough": {"Offs": "{-1, 0, 1}", "Diags": "{-1, 0, 1, 2}"}},
                   {"module": "ThomasMC", "consts": {"Dim": 4, "Offs": "{1}", "Diags": "{1, 2}", "Corners": "{0, 1}"}, "inv": ["Inv"], "thorough": {"Offs": "{-1, 1}", "Diags": "{0, 1, 2}"}}]},
    "P01": {"family": SPLINE, "ops": ["sp.herm", "sp.bez", "sp.bez", "sp.len", "sp.frame", "sp.fwd"], "count": 3000,
            "mc": [{"module": "SplineMC", "consts": {"Pts": "{<<0, 0, 0>>, <<1, 2, 0>>, <<-1, 1, 2>>}", "Steps": "{1, 4}"}, "inv": ["Inv"],
                    "thorough": {"Pts": "{<<0, 0, 0>>, <<1, 2, 0>>, <<-1, 1, 2>>, <<3, 0, 1>>}", "Steps": "{1, 3, 8}"}}]},
    "P02": {"family": SPLINE, "ops": ["sp.nat", "sp.clamp", "sp.closed"], "count": 6000,
            "mc": [{"module": "SplineFitMC", "consts": {"G": "{0, 1, 3}", "Counts": "{2, 3, 4}", "Kinds": "{<<\"natural\", 0, 0>>, <<\"closed\", 0, 0>>, <<\"clamped\", 1, -2>>, <<\"clamped\", 0, 3>>}"}, "inv": ["Inv"],
                    "thorough": {"G": "{-2, 0, 1, 3}", "Counts": "{2, 3, 4, 5}"}}]},
    "K01": {"family": COLOR, "ops": ["co.rgb", "co.rgba", "co.conv", "co.hue", "co.mix", "co.int"], "count": 4000,
            "mc": [{"module": "ColorMC", "consts": {"Levels": 4, "Turns": 2}, "inv": ["Inv"], "thorough": {"Levels": 9, "Turns": 4}}]},
    "T01": {"family": PLAIN, "ops": ["ty.any"], "count": 7200,
            "mc": [{"module": "PlainMC", "consts": {"Vals": "{0, 1}", "Margins": "{0, 4}"}, "inv": ["Inv"], "thorough": {"Vals": "{0, 1, -4, 7}", "Margins": "{0, 1, 3, 4}"}}]},
    "T02": {"family": PLAIN, "ops": ["ty.text"], "count": 4600,
            "mc": [{"module": "TextMC", "consts": {"Vals": "{0, -2}"}, "inv": ["Inv"], "thorough": {"Vals": "{0, -2, 9, 100, 8193}"}}]},
}

NOTES = ("Exhaustive over the small scopes of the models; the unbounded input space is sampled by seeded generation within the contract, "
         "with every observation judged exactly (rational arithmetic) against the specification.")
