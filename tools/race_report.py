#!/usr/bin/env python3
"""Reads race detector logs, deduplicates the reports and says whose they are.
usage: race_report.py ID FILE...   exit 0: none, 1: races of the code under test, 2: only races of the harness itself"""
import os, re, sys
SUT = "github.com/fido-alliance/iot-fdo-conformance-tools"
ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))

def blocks(text):
    for part in text.split("=================="):
        if "WARNING: DATA RACE" in part:
            yield part.strip()

def stacks(block):
    """the two access stacks (not the creation stacks): list of [(func, pos), ...]"""
    out, cur, access = [], None, False
    for line in block.splitlines():
        if re.match(r"^(Previous )?(atomic )?(read|write) (at|of)|^(Previous )?(Read|Write|Atomic)", line, re.I):
            cur, access = [], True
            out.append(cur)
        elif re.match(r"^(Goroutine|As if|\[failed)", line):
            access = False
        elif access and line.startswith("  ") and not line.startswith("      ") and line.strip():
            cur.append([re.sub(r"\(\)$", "", line.strip()), ""])
        elif access and line.startswith("      ") and cur:
            cur[-1][1] = line.strip().split(" +")[0]
    return out

def is_sut(f):
    return SUT in f[0] or f[1].startswith("/repo/") or (f[0].startswith("main.") and "/verif/" not in f[1])

def top(st):
    for f in st:
        if is_sut(f):
            return f[0].split("/")[-1]
    return ""

def known(id):
    sigs = {}
    try:
        for l in open(os.path.join(ROOT, "known-findings.txt")):
            m = re.match(r"known:\s+property=(\S+)\s+sig=(\S+)\s*(.*)", l)
            if m and m.group(1) == id:
                sigs[m.group(2)] = m.group(3)
    except FileNotFoundError:
        pass
    return sigs

def main():
    id, files = sys.argv[1], sys.argv[2:]
    sut, other = {}, 0
    for f in files:
        for b in blocks(open(f, errors="replace").read()):
            st = stacks(b)
            names = sorted({top(s) for s in st} - {""})
            if not names:
                other += 1
                if other <= 2:
                    print("harness-side race report:\n" + b[:3000])
                continue
            key = re.sub(r"[^A-Za-z0-9._-]+", "-", "race-" + "+".join(names))[:150]
            sut.setdefault(key, [0, b])[0] += 1
    k, bad = known(id), 0
    for key, (n, b) in sorted(sut.items()):
        if key in k:
            print(f"KNOWN-FINDING: property={id} {key} {k[key]}")
            continue
        bad += 1
        print(f"{key}: {n} reports\n{b[:5000]}\n")
    print(f"race reports: {len(sut)} distinct in the code under test, {other} elsewhere")
    sys.exit(1 if bad else 2 if other else 0)
main()
