"""What a generated header defines, as the compiler's preprocessor sees it."""
import re, subprocess


def preprocess(header, incdirs, flags=(), cc="gcc", lang="c"):
    r = subprocess.run([cc, "-E", "-dD", "-P", "-x", lang, "-w", *flags, *incdirs, header], capture_output=True, text=True, errors="replace")
    if r.returncode:
        raise ValueError("preprocessing failed: " + r.stderr[-500:])
    return r.stdout


def parse(text):
    """(macros {name: body}, structs {name: [(type, field, width)]}, funcs {name: prototype text})"""
    macros, structs, funcs = {}, {}, {}
    for m in re.finditer(r"^#define (\w+)(\([^)]*\))? ?(.*)$", text, re.M):
        macros[m.group(1)] = m.group(3)
    body = re.sub(r"^#.*$", "", text, flags=re.M)
    for m in re.finditer(r"typedef struct\s*\{([^{}]*)\}\s*(\w+)\s*;", body):
        fields = []
        for f in m.group(1).split(";"):
            f = " ".join(f.split())
            if f:
                x = re.match(r"(.*?)\s*\b(\w+)\s*(?::\s*(\d+))?$", f)
                fields.append((x.group(1), x.group(2), x.group(3)) if x else (f, "?", None))
        structs[m.group(2)] = fields
    for m in re.finditer(r"\b(?:uint32_t|void)\s+(\w+)\s*\(([^)]*)\)\s*;", body):
        funcs[m.group(1)] = " ".join(m.group(2).split())
    return macros, structs, funcs


def num(body):
    """Value of a constant macro body such as (0x1U), (5), (-3), ((2U))."""
    b = body.strip()
    while b.startswith("(") and b.endswith(")"):
        b = b[1:-1].strip()
    m = re.fullmatch(r"([+-]?)\s*(0[xX][0-9a-fA-F]+|\d+)[uUlL]*", b)
    if not m:
        return None
    t = m.group(2)
    v = int(t, 16) if t[:2] in ("0x", "0X") else int(t, 8) if len(t) > 1 and t[0] == "0" else int(t)
    return -v if m.group(1) == "-" else v
