#!/usr/bin/env python3
"""Writes /verif/MANIFEST.json. Properties without a check in the harness go under not_applicable."""
import json, os
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
T = {
 "C01": ("property-based round trip: generated partition definitions, build, read back", "exploration"),
 "C02": ("property-based differential test against an independent Wii disc decoder", "exploration"),
 "C03": ("stateful property-based testing over images from an independent encoder, plaintext model as oracle", "exploration"),
 "C04": ("stateful model-based testing against an in-memory file model", "exploration"),
 "C05": ("stateful model-based testing of file-table histories against a reference tree", "exploration"),
 "C06": ("property-based round trip and differential test against an independent table parser", "exploration"),
 "C07": ("property-based testing over generated directories, decoded by the independent decoder", "exploration"),
 "C08": ("property-based testing over generated images: extracted tree against the reference plaintext", "exploration"),
 "C09": ("stateful property-based testing of prepare/filter/extract histories against a set model", "exploration"),
 "C10": ("structure-aware mutation fuzzing with crash, panic, memory and hang oracles", "exploration"),
 "C11": ("fault injection at every I/O call of generated builds and reads", "fault_enumeration"),
 "C12": ("metamorphic property-based testing: throttled and interrupted streams against plain ones", "exploration"),
 "C13": ("stateful property-based testing of add/fail/finish histories against a partition-list model", "exploration"),
 "C14": ("property-based round trip and differential test against independent structure codecs", "exploration"),
 "C15": ("property-based testing of progress sequences as an invariant over the history", "exploration"),
 "C16": ("property-based testing of the command-line tool against the reference image model", "exploration"),
 "C17": ("property-based testing with hostile file tables, run unprivileged, with a file-system diff oracle", "exploration"),
 "C18": ("property-based testing: copied image decoded and compared with the source model", "exploration"),
 "C19": ("metamorphic property-based testing: extract/rebuild fixpoint", "exploration"),
 "C20": ("stateful property-based testing of command histories with a file-system snapshot oracle, run unprivileged", "exploration"),
}
NOTE = {
 "C11": "Enumerates every I/O call index for small generated builds and samples the rest; the failure kinds are the error returns of read, write, seek and flush.",
}
src = open(os.path.join(V, "harness/src/props/mod.rs")).read()
checks, na = [], []
for pid, (t, lvl) in T.items():
    if f'"{pid}"' in src:
        checks.append(dict(property=pid, quick_cmd=f"bash check.sh {pid} quick", thorough_cmd=f"bash check.sh {pid} thorough",
            technique=t, level=lvl,
            level_note=NOTE.get(pid, "") + (" " if pid in NOTE else "") + "Evidence from generated cases, not a proof: no violation among the cases reported in the evidence file. Trusts the harness' reference encoder/decoder and generators; assumptions are listed in the evidence file and DESIGN.md."))
    else:
        na.append(dict(property=pid, reason="check not built yet"))
json.dump(dict(version=1, setup_cmd="bash setup.sh", checks=checks, not_applicable=na,
    notes="No hooks in /repo: the harness uses the public API, the iso-tool binary and the Python module. replay.sh FILE re-runs a replay file."),
    open(os.path.join(V, "MANIFEST.json"), "w"), indent=1)
