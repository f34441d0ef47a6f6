#!/usr/bin/env python3
"""Derives the git-ignored workspace /verif/build/ws.

Its members are
* the crates of /repo that need no git dependency, as they are;
* "-mc" variants of some of them: the same source files, with the dependencies that synchronise threads
  (and, for some, std itself) replaced by the instrumented ones of /verif/mc;
* the crates of /verif/mc;
* the crates of /verif/mc/overlays: sources of crates of /repo that need git dependencies, with the files that
  cannot be compiled without those replaced.

Each member directory holds a derived Cargo.toml and links to everything else.
"""

import os
import re
import shutil
import sys

REPO = os.environ.get("MC_REPO", "/repo")
VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
WS = f"{VERIF}/build/ws"

PLAIN = ["sync-lsp", "tinymist-assets", "tinymist-derive", "tinymist-l10n", "tinymist-std"]

SHIMS = {
    "crossbeam-channel": "mc-crossbeam-channel",
    "parking_lot": "mc-parking-lot",
    "tokio": "mc-tokio",
    "dashmap": "mc-dashmap",
    "rayon": "mc-rayon",
}

# variant -> (crate, package name, lib name, std replaced, extra features by default)
VARIANTS = {
    "sync-lsp-mc": ("sync-lsp", "sync-ls-mc", "sync_ls", "mcstd"),
    "tinymist-std-mc": ("tinymist-std", "tinymist-std-mc", "tinymist_std", "mcstd"),
    "tinymist-std-mcbi": ("tinymist-std", "tinymist-std-mcbi", "tinymist_std", "mcstd"),
    "tinymist-std-mct": ("tinymist-std", "tinymist-std-mct", "tinymist_std", "mcstdt"),
    "tinymist-l10n-mc": ("tinymist-l10n", "tinymist-l10n-mc", "tinymist_l10n", "mcstd"),
}


def read(path):
    with open(path, encoding="utf-8") as f:
        return f.read()


def write(path, text):
    os.makedirs(os.path.dirname(path), exist_ok=True)
    if not os.path.isfile(path) or read(path) != text:
        with open(path, "w", encoding="utf-8") as f:
            f.write(text)


def root_manifest():
    out, skip = [], False
    for line in read(f"{REPO}/Cargo.toml").splitlines():
        if line.startswith("["):
            skip = line.startswith("[patch") or line.startswith("[profile")
        if not skip:
            out.append(line)
    text, n = re.subn(r"(?m)^members\s*=\s*\[[^\]]*\]", 'members = ["crates/*"]', "\n".join(out))
    if n != 1:
        sys.exit("mkws.py: no members in the root Cargo.toml")
    return (
        text
        + """

[profile.dev]
opt-level = 1
debug = false
incremental = false
overflow-checks = true
debug-assertions = true

[profile.dev.package."*"]
opt-level = 0
"""
    )


def plain_manifest(name, typst=False):
    text = read(f"{REPO}/crates/{name}/Cargo.toml")
    if typst:
        text = re.sub(r"(?m)^typst\s*=\s*\{.*optional = true.*\}$", 'typst = { package = "mc-typst", path = "../mc-typst", optional = true, features = ["mc"] }', text)
        text = re.sub(r"(?m)^typst-shim\s*=\s*\{.*optional = true.*\}$", 'typst-shim = { package = "mc-typst-shim", path = "../mc-typst-shim", optional = true }', text)
    elif name == "tinymist-std":
        text = re.sub(r"(?m)^(typst|typst-shim)\s*=\s*\{.*optional = true.*\}\n", "", text)
        text = re.sub(r'(?m)^typst\s*=\s*\[.*\]$', "typst = []", text)
        text = re.sub(r'(?m)^(full\s*=.*?),?\s*"typst"', r"\1", text)
    # The harnesses are the only targets with tests.
    text = re.sub(r"(?ms)^\[dev-dependencies\].*?(?=^\[|\Z)", "", text)
    return text


def variant_manifest(crate, package, lib, std):
    text = plain_manifest(crate, std == "mcstdt")
    text = re.sub(r'(?m)^name\s*=\s*".*"$', f'name = "{package}"', text, count=1)
    text = re.sub(r'(?m)^\[\[bin\]\]$.*?(?=^\[)', "", text, flags=re.S | re.M)
    text = text.replace("[dependencies]", f'[lib]\nname = "{lib}"\n\n[dependencies]\n' + (f'std = {{ package = "{std}", path = "../{std}" }}\n' if std else ""), 1)
    for dep, shim in SHIMS.items():
        def repl(m):
            rest = m.group(1)
            feats = re.search(r"features\s*=\s*\[[^\]]*\]", rest)
            opt = re.search(r"optional\s*=\s*true", rest)
            extra = (", " + feats.group(0) if feats else "") + (", optional = true" if opt else "")
            return f'{dep} = {{ package = "{shim}", path = "../{shim}"{extra} }}'

        text = re.sub(rf"(?m)^{re.escape(dep)}(?:\.workspace\s*=\s*true|\s*=\s*(\{{.*\}}|\".*\"))$",
                      lambda m: repl(m) if m.group(1) else f'{dep} = {{ package = "{shim}", path = "../{shim}" }}', text)
    return text


def member(name, src, manifest):
    dst = f"{WS}/crates/{name}"
    os.makedirs(dst, exist_ok=True)
    want = set(os.listdir(src)) - {"Cargo.toml", "target"}
    for entry in set(os.listdir(dst)) - {"Cargo.toml"} - want:
        os.unlink(f"{dst}/{entry}")
    for entry in want:
        link(f"{dst}/{entry}", f"{src}/{entry}")
    write(f"{dst}/Cargo.toml", manifest)


def link(dst, target):
    if os.path.islink(dst) and os.readlink(dst) != target:
        os.unlink(dst)
    if not os.path.islink(dst):
        os.symlink(target, dst)


def overlay(name, top, manifest):
    """The sources of a crate with some of them replaced."""
    crate = f"{REPO}/crates/{os.path.basename(top)}"
    dst = f"{WS}/crates/{name}"
    merge(f"{dst}/src", f"{crate}/src", f"{top}/src")
    write(f"{dst}/Cargo.toml", manifest)


def merge(dst, below, above):
    """Links to the entries of two directories; those in both are merged, or the latter's."""
    ls = lambda d: {e: f"{d}/{e}" for e in (os.listdir(d) if os.path.isdir(d) else [])}
    if os.path.islink(dst):
        os.unlink(dst)
    os.makedirs(dst, exist_ok=True)
    lower, upper = ls(below), ls(above)
    for entry in set(os.listdir(dst)) - set(lower) - set(upper):
        if os.path.isdir(f"{dst}/{entry}") and not os.path.islink(f"{dst}/{entry}"):
            shutil.rmtree(f"{dst}/{entry}")
        else:
            os.unlink(f"{dst}/{entry}")
    for entry, target in {**lower, **upper}.items():
        if entry in lower and entry in upper and os.path.isdir(lower[entry]) and os.path.isdir(upper[entry]):
            merge(f"{dst}/{entry}", lower[entry], upper[entry])
            continue
        if os.path.isdir(f"{dst}/{entry}") and not os.path.islink(f"{dst}/{entry}"):
            shutil.rmtree(f"{dst}/{entry}")
        link(f"{dst}/{entry}", target)


def main():
    names = set()
    for name in PLAIN:
        member(name, f"{REPO}/crates/{name}", plain_manifest(name))
        names.add(name)
    for name, (crate, package, lib, std) in VARIANTS.items():
        member(name, f"{REPO}/crates/{crate}", variant_manifest(crate, package, lib, std))
        names.add(name)
    for base in ("", "shims", "harness", "stubs", "overlays"):
        top = f"{VERIF}/mc/{base}".rstrip("/")
        if not os.path.isdir(top):
            continue
        for d in sorted(os.listdir(top)):
            src = f"{top}/{d}"
            if not os.path.isfile(f"{src}/Cargo.toml"):
                continue
            text = read(f"{src}/Cargo.toml")
            package = re.search(r'(?m)^name\s*=\s*"(.*)"', text).group(1)
            text = re.sub(r'path\s*=\s*"(?:\.\./)+(?:shims/|harness/|stubs/)?([\w-]+)"',
                          lambda m: f'path = "../{ {"parking_lot": "mc-parking-lot", "crossbeam-channel": "mc-crossbeam-channel", "tokio": "mc-tokio", "typst": "mc-typst"}.get(m.group(1), m.group(1)) }"', text)
            if base == "overlays":
                overlay(package, src, text)
            else:
                member(package, src, text)
            names.add(package)
    for stale in set(os.listdir(f"{WS}/crates")) - names:
        shutil.rmtree(f"{WS}/crates/{stale}")
    write(f"{WS}/Cargo.toml", root_manifest())
    stamp = f"{WS}/Cargo.lock.orig"
    orig = f"{VERIF}/mc/Cargo.lock"
    if not os.path.isfile(orig):
        orig = f"{REPO}/Cargo.lock"
    if not os.path.isfile(f"{WS}/Cargo.lock") or not os.path.isfile(stamp) or read(stamp) != read(orig):
        shutil.copyfile(orig, f"{WS}/Cargo.lock")
        shutil.copyfile(orig, stamp)


if __name__ == "__main__":
    main()
