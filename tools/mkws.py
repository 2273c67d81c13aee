#!/usr/bin/env python3
"""Derive a cargo workspace (work/ws) from /repo that resolves without network.

/repo's manifests name a git dependency (v1.0.0 of dao-contracts) which cargo
cannot fetch here, so the manifests are copied with those dependency lines
removed and everything else (all source code) is a symbolic link into /repo:
what the harness compiles is /repo's working tree itself.

Cargo decides freshness by file times.  A working tree can change content
without getting newer times (a checkout, a copy with preserved times), so this
script also keeps a content hash per package and drops cargo's fingerprint of
each package whose content is not what was last built.
"""
import glob
import hashlib
import json
import os
import re
import shutil
import sys

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get("VERIF_REPO", "/repo")
WS = os.path.join(VERIF, "work", "ws")
TARGET = os.path.join(VERIF, "work", "target")

DROP = ("cw4-voting-v1", "cw-core-interface-v1", "osmosis-test-tube", "dao-migrator")
# Not needed by the harness and slow (it pulls three generations of every contract).
SKIP = {"packages/dao-testing"}
# dao-migrator names version 1 packages that are not available here.  Its source
# needs one message type of one of them, which stands in harness/stubs.
MIGRATOR = "contracts/external/dao-migrator"
MIGRATOR_DEPS = {
    "cw-core-interface-v1": '{ package = "cw-core-interface", version = "0.1.0" }',
    "cw20-staked-balance-voting-v1": '{ package = "cw20-staked-balance-voting", '
                                     'path = "../../../../../harness/stubs/cw20-staked-balance-voting" }',
    "cw4-v1": None,
    "cw20-v1": None,
}
DROP_DEV = True


def clean_manifest(text):
    text = re.sub(r"(?m)^(%s)\s*=.*$" % "|".join(map(re.escape, DROP)), "", text)
    # Dev-dependencies are never built for a path dependency, but cargo resolves
    # them for members of the derived workspace: leave the section out.
    out, skip = [], False
    for line in text.splitlines():
        if re.match(r"^\[", line):
            skip = bool(re.match(r"^\[dev-dependencies", line))
        if not skip:
            out.append(line)
    return "\n".join(out) + "\n"


def migrator(text):
    for name, to in MIGRATOR_DEPS.items():
        text = re.sub(r"(?m)^(%s)\s*=.*$" % re.escape(name), "", text)
    text = clean_manifest(text)
    new = "".join("%s = %s\n" % (n, t) for n, t in MIGRATOR_DEPS.items() if t)
    return re.sub(r"(?m)^\[dependencies\]\n", lambda m: m.group(0) + new, text)


def put(path, text):
    if os.path.isfile(path) and not os.path.islink(path) and open(path).read() == text:
        return
    if os.path.islink(path):
        os.remove(path)
    os.makedirs(os.path.dirname(path), exist_ok=True)
    with open(path, "w") as f:
        f.write(text)


def link(src, dst):
    if os.path.islink(dst) and os.readlink(dst) == src:
        return
    if os.path.islink(dst) or os.path.isfile(dst):
        os.remove(dst)
    elif os.path.isdir(dst):
        shutil.rmtree(dst)
    os.makedirs(os.path.dirname(dst), exist_ok=True)
    os.symlink(src, dst)


def packages():
    found = []
    for pat in ("contracts/dao-dao-core", "contracts/*/*", "packages/*"):
        for d in sorted(glob.glob(os.path.join(REPO, pat))):
            rel = os.path.relpath(d, REPO)
            if os.path.isfile(os.path.join(d, "Cargo.toml")) and rel not in SKIP:
                found.append(rel)
    return found


def digest(rel):
    h = hashlib.sha256()
    root = os.path.join(REPO, rel)
    for base, dirs, files in os.walk(root):
        dirs[:] = sorted(d for d in dirs if d not in ("target", ".git", "schema"))
        for n in sorted(files):
            p = os.path.join(base, n)
            h.update(os.path.relpath(p, root).encode() + b"\0")
            try:
                h.update(open(p, "rb").read())
            except OSError:
                pass
            h.update(b"\0")
    return h.hexdigest()


def main():
    os.makedirs(WS, exist_ok=True)
    pkgs = packages()
    keep = set()
    for rel in pkgs:
        src, dst = os.path.join(REPO, rel), os.path.join(WS, rel)
        if os.path.islink(dst):
            os.remove(dst)
        os.makedirs(dst, exist_ok=True)
        keep.add(dst)
        names = set(os.listdir(src)) - {"target", "Cargo.toml", "tests", "benches"}
        for n in names:
            link(os.path.join(src, n), os.path.join(dst, n))
        put(os.path.join(dst, "Cargo.toml"),
            migrator(open(os.path.join(src, "Cargo.toml")).read()) if rel == MIGRATOR
            else clean_manifest(open(os.path.join(src, "Cargo.toml")).read()))
        for n in os.listdir(dst):
            if n not in names and n != "Cargo.toml":
                p = os.path.join(dst, n)
                os.remove(p) if os.path.islink(p) or os.path.isfile(p) else shutil.rmtree(p)
    root = clean_manifest(open(os.path.join(REPO, "Cargo.toml")).read())
    root = re.sub(r"(?ms)^members = \[.*?^\]",
                  "members = [\n%s]" % "".join('  "%s",\n' % p for p in pkgs), root)
    root = re.sub(r"(?m)^(dao-testing)\s*=.*$", "", root)
    put(os.path.join(WS, "Cargo.toml"), root)

    # packages that disappeared
    for pat in ("contracts/dao-dao-core", "contracts/*/*", "packages/*"):
        for d in glob.glob(os.path.join(WS, pat)):
            if os.path.isdir(d) and not os.path.islink(d) and d not in keep \
                    and "dao-dao-core" not in os.path.relpath(d, WS).split(os.sep)[:2][1:]:
                shutil.rmtree(d)

    # content-based freshness
    stamp = os.path.join(VERIF, "work", "hashes.json")
    old = {}
    if os.path.exists(stamp):
        try:
            old = json.load(open(stamp))
        except ValueError:
            old = {}
    new = {}
    for rel in pkgs:
        new[rel] = digest(rel)
        if old.get(rel) != new[rel]:
            name = re.search(r'(?m)^name\s*=\s*"([^"]+)"',
                             open(os.path.join(REPO, rel, "Cargo.toml")).read()).group(1)
            for fp in glob.glob(os.path.join(TARGET, "*", ".fingerprint", name + "-*")):
                if re.fullmatch(re.escape(name) + r"-[0-9a-f]{16}", os.path.basename(fp)):
                    shutil.rmtree(fp, ignore_errors=True)
    with open(stamp, "w") as f:
        json.dump(new, f, indent=1, sort_keys=True)


if __name__ == "__main__":
    sys.exit(main())
