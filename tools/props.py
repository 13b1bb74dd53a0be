PROPS = {
    "C01": dict(harness=["c01.rs"]),
    "C02": dict(verus=["links.vx"], harness=["c02.rs"]),
    "C03": dict(verus=["merge.vx"], harness=["c03.rs"]),
    "C04": dict(verus=["build.vx"], harness=["c04.rs"]),
    "C05": dict(verus=["merge.vx"], harness=["c05.rs"]),
    "C06": dict(verus=["split.vx", "pieces.vx", "bins.vx", "flow.vx", "planar.vx", "plane.vx", "strategy.vx", "list.vx", "tree.vx", "frags.vx", "border.vx", "meet.vx", "layout.vx", "frag.vx", "whole.vx"], harness=["c06.rs"]),
    "C09": dict(verus=["nearest.vx"], harness=["c09.rs"]),
    "C13": dict(verus=["grid.vx", "layout.vx"], harness=["c13.rs", "c13b.rs"]),
    "C14": dict(verus=["snap.vx"], harness=["c14.rs"]),
    "C07": dict(verus=["cross.vx"], harness=["c07.rs"]),
    "C08": dict(verus=["cross.vx"], harness=["c08.rs"]),
    "C10": dict(verus=["graph.vx"], harness=["c10.rs"]),
    "C11": dict(verus=["walk.vx", "tours.vx", "offsets.vx"], harness=["planar.rs", "c11.rs"]),
    "C12": dict(verus=["bind.vx", "joins.vx", "vjoins.vx"], harness=["planar.rs", "c12.rs"]),
    "C15": dict(verus=["fill.vx"], harness=["planar.rs", "c15.rs"]),
    "C16": dict(verus=["clip.vx", "lines.vx", "links.vx"], harness=["planar.rs", "c16.rs"]),
    "C17": dict(verus=["divide.vx"], harness=["c17.rs"]),
    "C19": dict(verus=["slice.vx", "slices.vx"], harness=["planar.rs", "c19.rs"]),
    "C20": dict(verus=["vectors.vx"], harness=["planar.rs", "c20.rs"]),
    "C21": dict(verus=["calls.vx", "floats.vx"], harness=["c21.rs"]),
    "C22": dict(verus=["mesh.vx", "stroke.vx", "outline.vx"], harness=["bands.rs", "c22.rs", "c22b.rs"]),
    "C18": dict(verus=["loops.vx"], harness=["c18.rs"]),
}
