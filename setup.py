#!/usr/bin/env python3
"""Builds the engine and the reference generator and warms the build folders; each check builds
again whatever is missing or out of date."""
import vlib, checks
vlib.build_engine()
vlib.build_ref()
for k, d in checks.BUILDS.items():
    if d.get("spare"):
        continue
    try:
        vlib.prepare(d)
        vlib.build_ir(d["ir"][0], d["ir"][1], d["cfgs"], d.get("features", ()), d.get("default_features", True))
        vlib.build_native(d["native"][0], d["native"][1], d["cfgs"], d.get("features", ()), d.get("default_features", True))
        vlib.log("built", k)
    except vlib.BuildError as e:
        vlib.log("not built:", k, e)
