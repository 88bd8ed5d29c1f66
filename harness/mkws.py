"""Adapted from /opt/vp/mkws.py: makes the replay workspace, the part of /repo's workspace that does not need jf-signature.

jf-signature is a git dependency that cannot be fetched here, and every member names it.  /opt/vp/ws holds
symlinks to /repo's own files, except for these, which are written anew from /repo's on every run:
  - Cargo.toml: without the jf-signature dependency, the [[bin]]s and [[bench]]es that need it, and the
    member "tests";
  - Cargo.lock: without "jf-signature" in the members' dependency lists (cargo drops what is then unused and
    keeps every other version);
  - sources that name jf_signature: without the items that do, and those of the same file that need them;
  - the items in OMIT, whose module is made of jf-signature users.
Dropped text becomes blank lines, so line numbers in error messages are those of /repo.
Nothing is added or stubbed.  What is dropped is printed."""

import os
import re
import tomllib

import sys
REPO, WS = sys.argv[1], sys.argv[2]
HARNESS = os.path.dirname(os.path.abspath(__file__))
MEMBERS_OUT = ["tests"]
#: file: regexes at the start of an item
OMIT = {
    "cdn-broker/src/lib.rs": [r"mod tests\s*;"],
    "cdn-broker/src/reexports.rs": [r"pub mod tests\s*\{"],
}
#: Not part of any module tree once OMIT is applied.
DIRS_OUT = ["cdn-broker/src/tests"]

#: modules of the replay harness: where each is appended (to generated copies of the repository's files) and how the
#: runner reaches it
MODULES = {
    "common": ("cdn-proto", [("src/lib.rs", None)]),
    "conn": ("cdn-proto", [("src/connection/protocols/mod.rs", None), ("src/connection/mod.rs", "pub use protocols::verif_conn;"), ("src/lib.rs", "pub use connection::verif_conn;")]),
    "fake": ("cdn-proto", [("src/lib.rs", None)]),
    "frame": ("cdn-proto", [("src/connection/protocols/mod.rs", None), ("src/connection/mod.rs", "pub use protocols::verif_frame;"), ("src/lib.rs", "pub use connection::verif_frame;")]),
    "store": ("cdn-proto", [("src/lib.rs", None)]),
    "redis": ("cdn-proto", [("src/lib.rs", None)]),
    "proto": ("cdn-proto", [("src/lib.rs", None)]),
    "auth": ("cdn-proto", [("src/lib.rs", None)]),
    "vm": ("cdn-broker", [("src/connections/versioned_map.rs", None), ("src/connections/mod.rs", "pub use versioned_map::verif_vm;"), ("src/lib.rs", "pub use connections::verif_vm;")]),
    "rel": ("cdn-broker", [("src/connections/broadcast/mod.rs", None), ("src/connections/mod.rs", "pub use broadcast::verif_rel;"), ("src/lib.rs", "pub use connections::verif_rel;")]),
    "conns": ("cdn-broker", [("src/connections/mod.rs", None), ("src/lib.rs", "pub use connections::verif_conns;")]),
    "broker": ("cdn-broker", [("src/lib.rs", None)]),
    "client": ("cdn-client", [("src/lib.rs", None)]),
    "marshal": ("cdn-marshal", [("src/lib.rs", None)]),
}
WANTED = sys.argv[3].split(",")
#: modules without checks of their own
HELPERS = {"common", "conn", "fake"}


def appended(rel, text):
    for name in WANTED:
        crate, places = MODULES[name]
        for place, line in places:
            if rel == f"{crate}/{place}":
                path = os.path.join(HARNESS, "src", name + ".rs")
                text += "\n" + (line or f'#[path = "{path}"]\n#[allow(dead_code, unused, missing_docs, clippy::all, clippy::pedantic)]\n#[doc(hidden)]\npub mod verif_{name};') + "\n"
    return text


APPEND = {f"{c}/{p}" for n in WANTED for c, ps in [MODULES[n]] for p, _ in ps}


def blank(text):
    return re.sub(r"[^\n]", " ", text)


TOKEN = re.compile(
    r"""(?P<line>//[^\n]*)|(?P<block>/\*)|(?P<raw>\bb?r(?P<h>\#*)".*?"(?P=h))|(?P<str>b?"(?:\\.|[^"\\])*")"""
    r"""|(?P<chr>b?'(?:\\(?:x..|u\{[^}]*\}|.)|[^'\\\n])')""",
    re.S,
)


def mask(src):
    """The source with comments, strings and character literals blanked, offsets kept."""
    out, i = [], 0
    while m := TOKEN.search(src, i):
        out.append(src[i : m.start()])
        end = m.end()
        if m["block"]:
            depth = 1
            while depth:
                n = re.compile(r"/\*|\*/").search(src, end)
                if not n:
                    raise ValueError("unterminated comment")
                depth += 1 if n[0] == "/*" else -1
                end = n.end()
        out.append(blank(src[m.start() : end]))
        i = end
    out.append(src[i:])
    return "".join(out)


def group(code, i):
    """The offset after the bracketed group that opens at i."""
    stack = []
    while i < len(code):
        c = code[i]
        if c in "([{":
            stack.append(")]}"["([{".index(c)])
        elif c in ")]}":
            if not stack or stack.pop() != c:
                raise ValueError("unbalanced")
            if not stack:
                return i + 1
        i += 1
    raise ValueError("unbalanced")


def items(code, start, end):
    """(start, head, end) of each item between the offsets; head is where its attributes end."""
    i = start
    while True:
        while i < end and code[i].isspace():
            i += 1
        if i >= end:
            return
        begin = i
        inner = False
        while code[i] == "#":
            inner = code[i + 1] == "!"
            i = group(code, code.index("[", i))
            if inner:
                break
            while i < end and code[i].isspace():
                i += 1
        if inner:
            continue
        head = i
        to_semicolon = re.match(
            r"(pub(\s*\([^)]*\))?\s+)?(use|type|static|const\s+(?!(unsafe\s+|async\s+|extern\s+)*fn\b))",
            code[i:end],
        )
        while i < end:
            if code[i] in ")]}":
                raise ValueError("unbalanced")
            if code[i] in "([{":
                brace = code[i] == "{"
                i = group(code, i)
                if brace and not to_semicolon:
                    break
            elif code[i] == ";":
                i += 1
                break
            else:
                i += 1
        else:
            raise ValueError("unfinished item")
        yield begin, head, i


NAMED = re.compile(
    r"(?:pub(?:\s*\([^)]*\))?\s+)?(?:(?:async|const|unsafe)\s+)*(?:struct|enum|union|trait|type|fn|const|static)\s+(\w+)"
)


def cut(rel, src):
    """The source without what needs jf_signature, and a list of what went."""
    code = mask(src)
    taint, drop, notes = {"jf_signature"}, {}, []
    omit = OMIT.get(rel, [])

    for use in re.findall(r"\buse\s+jf_signature\b([^;]*);", code):
        for path, alias in re.findall(r"(\w+)(?:\s+as\s+(\w+))?\s*(?=[,}]|$)", use):
            taint.add(alias or path)
    taint.discard("_")
    #: a trait that the file imports under its own name is not a sign of the dependency if the file defines one
    defined = set(re.findall(r"\b(?:struct|enum|trait|type)\s+(\w+)", code))
    taint -= defined

    def walk(start, end):
        for begin, head, stop in items(code, start, end):
            text = code[head:stop]
            if begin in drop:
                continue
            if any(re.match(p, text) for p in omit):
                drop[begin] = stop
                continue
            if m := re.match(r"(?:pub(?:\s*\([^)]*\))?\s+)?mod\s+\w+\s*\{", text):
                walk(head + m.end(), stop - 1)
                continue
            if not re.search(r"\b(%s)\b" % "|".join(map(re.escape, taint)), text):
                continue
            drop[begin] = stop
            if m := NAMED.match(text):
                taint.add(m[1])
            elif re.match(r"(unsafe\s+)?impl\b", text):
                header = text[: text.index("{")]
                if m := re.search(r"\bfor\s+(\w+)", header):
                    if m[1] in defined:
                        taint.add(m[1])

    while True:
        before = len(drop), len(taint)
        walk(0, len(code))
        if before == (len(drop), len(taint)):
            break
    for begin, stop in sorted(drop.items()):
        line = re.sub(r"\s+", " ", re.sub(r"#\[[^]]*\]", "", code[begin:stop])).strip()
        notes.append(f"{rel}:{src[:begin].count(chr(10)) + 1}: {line[:70]}")
        # with the doc comment above it, which would otherwise go to the next item
        while m := re.search(r"(?:^|(?<=\n))[ \t]*//[^\n]*\n[ \t]*$", src[:begin]):
            begin = m.start()
        src = src[:begin] + blank(src[begin:stop]) + src[stop:]
    return re.sub(r"[ \t]+$", "", src, flags=re.M), notes


def without_dep(text, name):
    """Drops "name = ..." and "name.workspace = true", over as many lines as the value takes."""
    out, lines = [], iter(text.splitlines(keepends=True))
    for line in lines:
        if re.match(rf"{re.escape(name)}\s*[=.]", line):
            depth = 0
            while True:
                depth += sum(map(line.count, "[{")) - sum(map(line.count, "]}"))
                if depth <= 0:
                    break
                line = next(lines)
        else:
            out.append(line)
    return "".join(out)


def read(rel):
    with open(os.path.join(REPO, rel), encoding="utf-8") as f:
        return f.read()


def put(rel, text):
    path = os.path.join(WS, rel)
    os.makedirs(os.path.dirname(path), exist_ok=True)
    if os.path.islink(path):
        os.unlink(path)
    try:
        with open(path, encoding="utf-8") as f:
            if f.read() == text:
                return
    except OSError:
        pass
    with open(path, "w", encoding="utf-8") as f:
        f.write(text)


def link(rel):
    path, target = os.path.join(WS, rel), os.path.join(REPO, rel)
    os.makedirs(os.path.dirname(path), exist_ok=True)
    if os.path.islink(path) and os.readlink(path) == target:
        return
    if os.path.lexists(path):
        os.unlink(path)
    os.symlink(target, path)


def main():
    notes, keep = [], {"Cargo.toml", "Cargo.lock"}
    manifest = read("Cargo.toml")
    try:
        members = tomllib.loads(manifest)["workspace"]["members"]
    except (tomllib.TOMLDecodeError, KeyError) as e:
        raise SystemExit(f"Cargo.toml: {e!r}")
    root = without_dep(manifest, "jf-signature")
    for m in MEMBERS_OUT:
        root = re.sub(rf',?\s*"{m}"', "", root)
    root = root.replace("members = [", 'members = ["verif-runner", ', 1)
    put("Cargo.toml", root)
    for r in ("Cargo.toml", "src/main.rs"):
        with open(os.path.join(HARNESS, "runner", r)) as f:
            text = f.read()
        text = text.replace("/*MODULES*/", " ".join(f"v.extend({MODULES[n][0].replace('-', '_')}::verif_{n}::props());" for n in WANTED if n not in HELPERS))
        crates = {MODULES[n][0] for n in WANTED} | {"cdn-proto"}
        text = "".join(l for l in text.splitlines(True) if not (l.startswith("cdn-") and l.split(" ")[0] not in crates))
        put("verif-runner/" + r, text)
        keep.add("verif-runner/" + r)

    for member in members:
        if member in MEMBERS_OUT:
            notes.append(f"{member}: the whole member")
            continue
        out = []
        for part in re.split(r"(?m)^(?=\[)", read(f"{member}/Cargo.toml")):
            if part.startswith(("[[bin]]", "[[bench]]")):
                try:
                    spec = tomllib.loads(part)
                except tomllib.TOMLDecodeError as e:
                    raise SystemExit(f"{member}/Cargo.toml: {e}")
                kind = "bin" if "bin" in spec else "bench"
                spec = spec[kind][0]
                path = f"{member}/" + spec.get("path", f"benches/{spec['name']}.rs")
                if re.search(
                    r"\b(jf_signature|Testing(RunDef|Connection)|Production\w+|reexports::tests)\b",
                    read(path),
                ):
                    notes.append(f"{path}: the whole {kind}")
                    # autobenches would find it again
                    out.append("" if kind == "bin" else None)
                    continue
            out.append(part)
        text = "".join(p for p in out if p is not None)
        if None in out:
            text = text.replace("[package]\n", "[package]\nautobenches = false\n", 1)
        put(f"{member}/Cargo.toml", without_dep(text, "jf-signature"))
        keep.add(f"{member}/Cargo.toml")

        for base, dirs, files in os.walk(os.path.join(REPO, member)):
            dirs[:] = [
                d
                for d in dirs
                if d != "target"
                and os.path.relpath(os.path.join(base, d), REPO) not in DIRS_OUT
            ]
            for name in files:
                rel = os.path.relpath(os.path.join(base, name), REPO)
                if rel == f"{member}/Cargo.toml":
                    continue
                keep.add(rel)
                # A binary or a bench is left out whole.
                if name.endswith(".rs") and "/src/" in rel and "/binaries/" not in rel:
                    src = read(rel)
                    if rel in OMIT or re.search(r"\bjf_signature\b", mask_or_raw(src)):
                        try:
                            new, dropped = cut(rel, src)
                        except (ValueError, IndexError) as e:
                            # rustc will say what is wrong with it
                            print(f"{rel}: not parsed ({e}), used as it is")
                            link(rel)
                            continue
                        notes += dropped
                        put(rel, appended(rel, new))
                        continue
                if rel in APPEND:
                    put(rel, appended(rel, read(rel)))
                else:
                    link(rel)

    for base, dirs, files in os.walk(WS):
        if base == WS and "target" in dirs:
            dirs.remove("target")
        for name in files:
            path = os.path.join(base, name)
            if os.path.relpath(path, WS) not in keep:
                os.unlink(path)
    # The repository's lock file as it is now, less the missing package's name in the members' lists.
    # cargo --offline then takes out what nothing needs and can change nothing else.
    lock = re.sub(r'(?m)^ "jf-signature",\n', "", read("Cargo.lock"))
    put("Cargo.lock", lock)


def mask_or_raw(src):
    try:
        return mask(src)
    except ValueError:
        return src


main()
