"""fingerprint of the sources under contract (comments and blank lines removed).

The committed fingerprint only decides how an *undecided* obligation (solver timeout, no
counterexample) is reported on a tree whose code is the one the proofs were developed on:
as undecided, not as a violation.  A refuted obligation or a failing input is a violation
on any tree."""
import hashlib
import io
import json
import os
import re
import tokenize

HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
FILE = os.path.join(HERE, "baseline.json")


def _norm(path, text):
    if path.endswith((".py", ".pyx")):
        try:
            out = []
            for t in tokenize.generate_tokens(io.StringIO(text).readline):
                if t.type not in (tokenize.COMMENT, tokenize.NL):
                    out.append((t.type, t.string))
            return repr(out)
        except (tokenize.TokenError, IndentationError):
            return text
    return "\n".join(l.split("!")[0].rstrip() if not l.lstrip().startswith("!$") else l for l in text.split("\n") if l.strip())


def fingerprint(root):
    h = hashlib.sha256()
    top = os.path.join(root, "tbplas")
    for d, ds, fs in sorted(os.walk(top)):
        ds.sort()
        if "__pycache__" in d:
            continue
        for f in sorted(fs):
            if re.search(r"\.(py|pyx|f90|F90|f)$", f) and not f.endswith("_c.py"):
                p = os.path.join(d, f)
                with open(p, errors="replace") as q:
                    t = _norm(p, q.read())
                if t.strip():
                    h.update(os.path.relpath(p, root).encode() + b"\0" + t.encode() + b"\1")
    return h.hexdigest()


def unchanged(root):
    if not os.path.exists(FILE):
        return False
    with open(FILE) as f:
        return json.load(f).get("tree") == fingerprint(root)


if __name__ == "__main__":
    import sys
    fp = fingerprint(sys.argv[1] if len(sys.argv) > 1 else "/repo")
    with open(FILE, "w") as f:
        json.dump({"tree": fp}, f)
        f.write("\n")
    print(fp)
