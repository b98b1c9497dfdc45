#!/usr/bin/env python3
"""harvest.py [--baseline]: literals in /repo's (non-test) source, less those of the committed
baseline (oracle/dict_base.json), as the oracle's dictionary: what a change compares with or treats
specially becomes an input of the bounded stage. Deterministic, and empty on the unchanged tree."""
import json, os, re, sys
from collections import Counter

HERE = os.path.dirname(os.path.abspath(__file__))
BASE = os.path.join(HERE, "..", "oracle", "dict_base.json")
LIMITS = {"u8::MAX": 255, "i8::MAX": 127, "u16::MAX": 65535, "i16::MAX": 32767, "u32::MAX": 4294967295, "i32::MAX": 2147483647,
          "u64::MAX": 2.0**64, "i64::MAX": 2.0**63, "usize::MAX": 2.0**64, "f64::EPSILON": 2.0**-52, "f32::MAX": 3.4028234663852886e38,
          "f64::MIN_POSITIVE": 2.2250738585072014e-308, "f64::MAX": 1.7976931348623157e308, "f64::DIGITS": 15, "MANTISSA_DIGITS": 53}
TOK = re.compile(r"""//[^\n]*|/\*.*?\*/|(b?"(?:\\.|[^"\\])*"|b?'(?:\\.[^']*|[^'\\])')|(?<![\w.])(0x[0-9a-fA-F_]+|0b[01_]+|\d[\d_]*(?:\.(?!\.)[\d_]*)?(?:[eE][+-]?\d+)?)""", re.S)


def unescape(s):
    def one(m):
        t = m.group(1)
        if t[0] == "u":
            return chr(int(t[2:-1].replace("_", ""), 16))
        if t[0] == "x":
            return chr(int(t[1:], 16))
        if t[0] == "\n":
            return ""
        return {"n": "\n", "t": "\t", "r": "\r", "0": "\0"}.get(t, t)
    return re.sub(r"\\(u\{[^}]*\}|x..|\n\s*|.)", one, s, flags=re.S)


def harvest(repo):
    c = Counter()
    for d, _, fs in os.walk(os.path.join(repo, "src")):
        for f in sorted(fs):
            if not f.endswith(".rs") or "tests" in f:
                continue
            src = open(os.path.join(d, f), errors="replace").read()
            src = re.split(r"#\[cfg\(test\)\]", src)[0]
            for m in TOK.finditer(src):
                if m.group(1):
                    t = m.group(1).lstrip("b")[1:-1]
                    try:
                        t = unescape(t)
                    except Exception:
                        continue
                    if t and len(t) <= 80:
                        c["s:" + t.encode("utf-8", "replace").hex()] += 1
                elif m.group(2):
                    t = m.group(2).replace("_", "")
                    try:
                        v = float(int(t, 0)) if t[:2] in ("0x", "0b") else float(t)
                    except (ValueError, OverflowError):
                        continue
                    c["n:%r" % v] += 1
            for k, v in LIMITS.items():
                n = len(re.findall(re.escape(k) + r"\b", src))
                if n:
                    c["n:%r" % float(v)] += n
            for m in re.finditer(r"\b1(?:_?[ui](?:8|16|32|64|size))?\s*<<\s*(\d+)", src):
                c["n:%r" % float(1 << min(int(m.group(1)), 1000))] += 1
    return c


def dictionary(repo):
    try:
        base = Counter(json.load(open(BASE)))
        return " ".join(sorted((harvest(repo) - base).keys()))[:60000]
    except Exception:
        return ""


if __name__ == "__main__":
    if sys.argv[1:] == ["--baseline"]:
        json.dump(dict(sorted(harvest("/repo").items())), open(BASE, "w"), indent=0)
    else:
        print(dictionary(sys.argv[1] if len(sys.argv) > 1 else "/repo"))
