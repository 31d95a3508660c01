#!/usr/bin/env python3
"""Mechanical mirror of /repo sources into a verification crate.

What the extraction changes, and nothing else:
  * `std::` paths (not preceded by `::` or a word character) -> the model std of the group
    (`vk::kstd*`), which re-exports the real std and replaces the items listed in its source
  * `#[cfg(test)]` -> `#[cfg(any())]`           (drops the unit tests)
  * functions named in a source's `drop` list (engine set-up code no contract of the group concerns)
  * with a `keep` list: every function outside trait impls that the kept functions do not call, directly
    or through other functions of the file (those named in `contract` are not followed: the group
    supplies their contracts); impls whose header matches `drop_impls`
  * per-group textual `subs` (listed in group.json, each with the reason)
The dependency crates (v8, tokio, libc, tracing, ...) are the recording models in kit/shims.
"""
import json, os, re, shutil, sys

KIT = os.path.dirname(os.path.abspath(__file__))
REPO = os.environ.get("VP_REPO", "/repo")


def transform(text, std, subs):
    text = re.sub(r"(?<![\w:])std::", std + "::", text)
    text = text.replace("#[cfg(test)]", "#[cfg(any())]")
    for s in subs:
        text = re.sub(s["re"], s["to"], text, flags=re.M | re.S)
    return text


def skip_to_body_end(t, i):
    """index after the item starting at i: matching close brace of its first block, or its `;`"""
    depth = 0
    n = len(t)
    while i < n:
        c = t[i]
        if t.startswith("//", i):
            i = t.find("\n", i)
            if i < 0:
                return n
        elif t.startswith("/*", i):
            i = t.find("*/", i) + 1
        elif c == "r" and re.match(r'r#*"', t[i:i + 12]) and not re.match(r"\w", t[i - 1]):
            h = re.match(r'r(#*)"', t[i:i + 12]).group(1)
            i = t.find('"' + h, i + 2 + len(h)) + len(h)
        elif c == '"':
            i += 1
            while t[i] != '"':
                i += 2 if t[i] == "\\" else 1
        elif c == "'" and (re.match(r"'(\\.[^']*|[^'\\])'", t[i:i + 14])):
            i += len(re.match(r"'(\\.[^']*|[^'\\])'", t[i:i + 14]).group(0)) - 1
        elif c in "{([":
            depth += 1
        elif c in "})]":
            depth -= 1
            if depth == 0 and c == "}":
                return i + 1
        elif c == ";" and depth == 0:
            return i + 1
        i += 1
    return n


def drop_items(text, names):
    """Removes the named functions (with their attributes and doc comments) from the mirrored text."""
    for name in names:
        m = re.search(r"^[ \t]*(?:pub(?:\([^)]*\))?\s+)?(?:async\s+)?(?:unsafe\s+)?fn\s+" + name + r"\b", text, flags=re.M)
        if not m:
            continue
        a = m.start()
        lines = text[:a].split("\n")
        if lines and lines[-1] == "":
            lines.pop()
        while lines and re.match(r"\s*(///|#\[)", lines[-1]):
            lines.pop()
        b = skip_to_body_end(text, m.end())
        text = "\n".join(lines) + "\n" + text[b:]
    return text


FN = re.compile(r"^[ \t]*(?:pub(?:\([^)]*\))?\s+)?(?:const\s+)?(?:async\s+)?(?:unsafe\s+)?(?:extern\s+\"[^\"]*\"\s+)?fn\s+(\w+)\b", re.M)
IMPL = re.compile(r"^(?:unsafe\s+)?(?:impl\b|trait\b|pub(?:\([^)]*\))?\s+trait\b|macro_rules!)", re.M)


def keep_items(text, keep, contract, drop_impls):
    """Reduces the text to the functions reachable from `keep` (see the module comment)."""
    guarded = []
    for m in list(IMPL.finditer(text))[::-1]:
        a, b = m.start(), skip_to_body_end(text, m.end())
        head = text[a:text.index("{", a)]
        if any(re.search(d, head) for d in drop_impls):
            text = text[:a] + text[b:]
        elif " for " in head or not head.lstrip().startswith(("impl", "unsafe impl")):
            guarded.append((head, text[a:b]))
    guards, fns, i = [], [], 0
    spans = []
    for head, body in guarded:
        a = text.index(body)
        spans.append((a, a + len(body)))
    while True:
        m = FN.search(text, i)
        if not m:
            break
        b = skip_to_body_end(text, m.end())
        g = [s for s in spans if s[0] <= m.start() < s[1]]
        if g:
            guards.append(text[g[0][0]:g[0][1]])
            i = g[0][1]
            continue
        fns.append((m.group(1), m.start(), b))
        i = b
    names = {n for n, _, _ in fns} - set(contract)
    types = "|".join(["Self", "self", "super"] + re.findall(r"\b(?:struct|enum|trait)\s+(\w+)", text))
    code = lambda t: re.sub(r"//[^\n]*", "", t)
    todo = [n for n in keep if n in names]
    missing = [n for n in keep if n not in names]
    if missing:
        raise LookupError("functions under contract not found: " + ", ".join(missing))
    live = set(todo)
    bodies = [code(t) for t in guards]
    while todo or bodies:
        if bodies:
            t = bodies.pop()
        else:
            n = todo.pop()
            t = " ".join(code(text[a:b]) for k, a, b in fns if k == n)
        for n in names - live:
            if re.search(r"(?:(?<!::)\b" + n + r"\s*(?:\(|::<)|\b(?:" + types + r")::" + n + r"\b)", t):
                live.add(n)
                todo.append(n)
    for n, a, b in fns[::-1]:
        if n in live:
            continue
        lines = text[:a].split("\n")
        if lines and lines[-1] == "":
            lines.pop()
        while lines and re.match(r"\s*(///|#\[)", lines[-1]):
            lines.pop()
        text = "\n".join(lines) + "\n" + text[b:]
    return text


def mirror(group, work):
    """Returns list of mirrored files."""
    gdir = os.path.join(KIT, "groups", group)
    cfg = json.load(open(os.path.join(gdir, "group.json")))
    src = os.path.join(work, "src")
    if os.path.isdir(src):
        shutil.rmtree(src)
    shutil.copytree(os.path.join(gdir, "src"), src)
    toml = open(os.path.join(gdir, "Cargo.toml")).read().replace("@KIT@", KIT)
    p = os.path.join(work, "Cargo.toml")
    if not os.path.exists(p) or open(p).read() != toml:
        open(p, "w").write(toml)
    for e in cfg.get("files", []):
        q = os.path.join(work, e)
        os.makedirs(os.path.dirname(q), exist_ok=True)
        shutil.copyfile(os.path.join(gdir, e), q)
    out = []
    for s in cfg["sources"]:
        f = os.path.join(REPO, s["from"])
        files = []
        if os.path.isdir(f):
            for root, _, names in os.walk(f):
                for n in sorted(names):
                    if n.endswith(".rs"):
                        full = os.path.join(root, n)
                        files.append((full, os.path.join(work, s["to"], os.path.relpath(full, f))))
        else:
            files.append((f, os.path.join(work, s["to"])))
        for a, b in files:
            if not os.path.exists(a):
                if s.get("optional"):
                    continue
                raise FileNotFoundError(a)
            t = drop_items(open(a).read(), s.get("drop", []))
            if "keep" in s:
                t = keep_items(t, s["keep"], s.get("contract", []), s.get("drop_impls", []))
            t = transform(t, s.get("std", "vk::kstd"), cfg.get("subs", []) + s.get("subs", []))
            os.makedirs(os.path.dirname(b), exist_ok=True)
            open(b, "w").write(t)
            out.append(os.path.relpath(a, REPO))
    return out


if __name__ == "__main__":
    os.makedirs(sys.argv[2], exist_ok=True)
    print(mirror(sys.argv[1], sys.argv[2]))
