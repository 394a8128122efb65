#!/usr/bin/env python3
"""Lays out /verif/build/core: /repo's crate without the modules whose git dependencies
(gribberish, readap) cannot be had offline -- the same part /opt/vp/build.sh builds.
With --full, lays out /verif/build/full instead: the whole crate, with the two missing
dependencies replaced by the stand-ins in /verif/stubs.

Files are copied by content (unchanged ones keep their time stamps), so cargo rebuilds
exactly when what /repo says changes."""
import os
import re
import sys

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get("MON_REPO", "/repo")
DEPS = ("gribberish", "readap")
LEFT_OUT = {
    "src/model",
    "src/tools/dap.rs",
    "src/buoy_station.rs",
    "src/data/gfs_wave_grib_point_data_record.rs",
    "src/data/latest_obs_data_record.rs",
    "src/data/meteorological_data_record.rs",
    "src/data/swden_wave_data_record.rs",
}


def left_out(rel):
    return any(rel == x or rel.startswith(x + "/") for x in LEFT_OUT)


def main():
    full = "--full" in sys.argv
    out = os.path.join(VERIF, "build", "full" if full else "core")

    def read(rel):
        with open(os.path.join(REPO, rel), "rb") as f:
            return f.read()

    def write(rel, data):
        path = os.path.join(out, rel)
        try:
            with open(path, "rb") as f:
                if f.read() == data:
                    return
        except OSError:
            pass
        os.makedirs(os.path.dirname(path), exist_ok=True)
        with open(path, "wb") as f:
            f.write(data)

    wanted = set()
    for base, _, names in os.walk(os.path.join(REPO, "src")):
        for n in names:
            rel = os.path.relpath(os.path.join(base, n), REPO)
            if not full and left_out(rel):
                continue
            wanted.add(rel)
            data = read(rel)
            if not full and n in ("lib.rs", "mod.rs"):
                here = os.path.dirname(rel)

                def keep(m):
                    stem = os.path.join(here, m.group(2))
                    return "\n" if left_out(stem) or left_out(stem + ".rs") else m.group(0)

                data = re.sub(
                    r"^[ \t]*(pub(?:\([^)]*\))?[ \t]+)?mod[ \t]+(\w+);[^\n]*\n?",
                    keep, data.decode(), flags=re.M,
                ).encode()
            write(rel, data)
    for base, _, names in os.walk(os.path.join(out, "src")):
        for n in names:
            path = os.path.join(base, n)
            if os.path.relpath(path, out) not in wanted:
                os.remove(path)
    toml = read("Cargo.toml").decode()
    for d in DEPS:
        new = f'{d} = {{ path = "{VERIF}/stubs/{d}" }}\n' if full else ""
        toml = re.sub(rf"^{d}[ \t]*=.*\n?", new, toml, flags=re.M)
    # the monitors build only the library: drop what only the repository's tests use
    toml = re.sub(r"^\[dev-dependencies\]\n(?:(?!\[).*\n?)*", "", toml, flags=re.M)
    write("Cargo.toml", toml.encode())


main()
