#!/usr/bin/env python3
"""Developer tool: infer loop invariants on the current tree and store those that
survive in contracts/invariants.json (a cache keyed by the hash of the body; a
changed body is inferred afresh by every check)."""
import json
import os
import sys
import tempfile
sys.path.insert(0, os.path.dirname(os.path.dirname(os.path.abspath(__file__))))
from vlib import groups, solve  # noqa: E402

learn = {}
with tempfile.TemporaryDirectory() as w:
    for feat in ("md5", "openssl"):
        for g in groups.ALL:
            if feat == "openssl" and not groups.BOTH[g]:
                continue
            C, ver, mods, extra = groups.select(g)
            r = solve.solve(C, ver, mods, feat, w, g, extra=extra, log=print, use_cache=False, learn=learn)
            print(feat, g, "verified", len(r.verified), "of", len(ver), "failed", list(r.failed), r.unsupported, r.missing, r.global_error)
json.dump(learn, open(solve.CACHE, "w"), indent=1, sort_keys=True)
