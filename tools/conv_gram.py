#!/usr/bin/env python3
"""One-time conversion of CPython 3.12's Grammar/python.gram to the recogniser grammar used by
harness/h_gram (actions, types, variable names and the invalid_ rules are dropped).
Not part of any check; the result is committed and then edited by hand for 3.13/3.14 syntax."""
import re, sys
src = open(sys.argv[1]).read()
# drop trailer / headers
start = src.index("# STARTING RULES")
src = src[start:]
end = src.index("# ========================= END OF THE GRAMMAR")
src = src[:end]
# tokenise
tok = re.compile(r"""\s*(#[^\n]*|'[^']*'|"[^"]*"|\{|\}|&&|[A-Za-z_][A-Za-z_0-9]*|\n|.)""")
# strip comments and actions with nesting, keep newlines for rule starts
out = []
i = 0
depth = 0
lines = []
text = ""
while i < len(src):
    c = src[i]
    if depth == 0 and c == '#':
        while src[i] != '\n': i += 1
        continue
    if depth == 0 and c in "'\"":
        j = src.index(c, i + 1)
        text += src[i:j + 1]
        i = j + 1
        continue
    if c == '{': depth += 1; i += 1; continue
    if c == '}': depth -= 1; i += 1; continue
    if depth == 0: text += c
    i += 1
rules = []
for l in text.split("\n"):
    m = re.match(r"^([a-z_A-Z0-9]+)(\[[^\]]*\])?\s*(\(memo\))?\s*:(.*)$", l)
    if m and not l.startswith(" "):
        rules.append([m.group(1), m.group(4)])
    elif l.strip():
        rules[-1][1] += " " + l.strip()
res = []
for name, body in rules:
    if name.startswith("invalid_") or name in ("interactive", "eval", "func_type", "statement_newline", "type_expressions", "func_type_comment", "fstring", "fstring_middle", "fstring_replacement_field", "fstring_conversion", "fstring_full_format_spec", "fstring_format_spec", "string"):
        continue
    body = re.sub(r"[a-z_A-Z0-9]+(\[[^\]]*\])?=(?=[^'\"\s]|'|\")(?!['\"]\s)", "", " " + body) if False else body
    # variable names:  a=   a[type]=
    body = re.sub(r"(?<!['\"\w])[a-z_]+(\[[a-z_A-Z*]+\])?=(?=['\"(\[A-Za-z&!])", "", body)
    body = body.replace("&&", "")
    body = re.sub(r"\[\s*(func_type_comment|TYPE_COMMENT)\s*\]", "", body)
    body = body.replace("TYPE_COMMENT?", "")
    body = re.sub(r"\bASYNC\b", "'async'", body)
    body = re.sub(r"\bAWAIT\b", "'await'", body)
    # alternatives
    body = " ".join(body.split())
    # drop invalid alternatives at top level
    alts = []
    cur = ""; d = 0; k = 0
    while k < len(body):
        ch = body[k]
        if ch in "'\"":
            j = body.index(ch, k + 1); cur += body[k:j + 1]; k = j + 1; continue
        if ch in "([": d += 1
        if ch in ")]": d -= 1
        if ch == '|' and d == 0:
            alts.append(cur); cur = ""
        else: cur += ch
        k += 1
    alts.append(cur)
    alts = [" ".join(a.split()) for a in alts]
    alts = [a for a in alts if a and "invalid_" not in a]
    if name == "strings": alts = ["STRING+"]
    res.append(name + ": " + " | ".join(alts))
print("\n".join(res))
