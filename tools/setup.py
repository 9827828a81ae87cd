#!/usr/bin/env python3
"""Builds what the harnesses depend on, so that checks only rebuild the library and the harness."""
import shutil
import sys

import handle
import life
import probe
import sig
import storm
from reloc import STATIC, STATIC_LANES
from vlib import LANES, ToolError, cargo_build, must, parallel, workdir


def main():
    jobs = [("reloc", l, False, STATIC if l in STATIC_LANES else "") for l in LANES]
    jobs += [("reloc", l, True, "") for l in ("x86_64", "aarch64")]
    work = workdir("setup")
    series = sig.warm(work) + handle.warm() + storm.warm()
    series += [[lambda t=t: probe.compile_all(work, t, [])] for t in ("yes", "no", "type", "borrow", "macro", "private")]
    series += [[lambda t=t: probe.compile_all(work, t, [], build="nightly")] for t in ("yes", "no", "type", "borrow", "macro", "private")]
    parallel([lambda h=h, l=l, r=r, f=f: must(cargo_build(h, l, release=r, rustflags=f, tag="-r" if r else "", jobs=3),
                                              h + " " + l)
              for h, l, r, f in jobs] + [lambda l=l, v=v: life.build(l, v, 3) for l, v in life.WARM] + [lambda s=s: [f() for f in s] for s in series], 5)
    shutil.rmtree(work)
    return 0


if __name__ == "__main__":
    try:
        sys.exit(main())
    except ToolError as e:
        print(e, file=sys.stderr)
        sys.exit(2)
