"""Builds everything once (each check rebuilds whatever is missing or out of date)."""
import build
import registry

build.tools()
for crate in sorted({h["crate"] for h in registry.HARNESSES.values()}):
    try:
        print(build.harness(crate))
    except build.BuildError as e:
        print(e)  # reported by the checks that need it
