#!/usr/bin/env python3
"""Copies the crate under test to gen/sut, with `std` standing for the `shim` crate and without dev-dependencies. Files are only rewritten if changed.
VERIF_PLAIN=1: with the real `std`."""
import os, re, shutil, sys
verif = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
repo, out = "/repo", os.path.join(verif, "gen", "sut")

def put(rel, data):
    path = os.path.join(out, rel)
    os.makedirs(os.path.dirname(path), exist_ok=True)
    try:
        if open(path, "rb").read() == data: return
    except OSError: pass
    open(path, "wb").write(data)

wanted = set()
for base, dirs, files in os.walk(os.path.join(repo, "src")):
    for f in files:
        rel = os.path.relpath(os.path.join(base, f), repo)
        data = open(os.path.join(repo, rel), "rb").read()
        if rel == "src/lib.rs" and not os.environ.get("VERIF_PLAIN"): data += b"\n\nextern crate shim as std;\nextern crate shim as core;\n"
        put(rel, data); wanted.add(rel)
for rel in ["README.md"]:
    if os.path.exists(os.path.join(repo, rel)): put(rel, open(os.path.join(repo, rel), "rb").read())
manifest, section = [], ""
for line in open(os.path.join(repo, "Cargo.toml")):
    m = re.match(r"\s*\[+([^\]]*)\]+", line)
    if m: section = m.group(1).strip()
    if section.startswith(("dev-dependencies", "lib", "profile", "bench", "test", "example", "package.metadata")): continue
    manifest.append(line)
    if section == "dependencies" and m: manifest.append('shim = { path = "%s" }\n' % os.path.join(verif, "shim"))
put("Cargo.toml", "".join(manifest).encode())
for base, dirs, files in os.walk(os.path.join(out, "src")):
    for f in files:
        rel = os.path.relpath(os.path.join(base, f), out)
        if rel not in wanted: os.remove(os.path.join(out, rel))
