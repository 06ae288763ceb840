#!/usr/bin/env python3
"""Development tool: rewrites the 'fixed:' entries of known_findings.txt from the fix: commits of /repo."""
import os, re, subprocess
HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
PROP = [  # first words of the commit subject -> property
    ("add 0x10000", "C07"), ("don't treat the UTF-8", "C07"), ("reserve_suffix", "C09"), ("restore whitespace", "C15"),
    ("restore recursion", "C16"), ("comparing a token", "C05"), ("parse_tree::traverse", "C05"), ("parse_tree leaks", "C05"),
    ("parse_tree::clear", "C05"), ("siblings()", "C05"), ("subgrammar", "C03"), ("literal SWAR", "C02"), ("delimited() ignores", "C10"),
    ("delimited() skips", "C10"), ("literal sets", "C09"), ("size() counts", "C05"), ("cancelling a transparent", "C05"),
    ("check all bytes", "C13"), ("buffer_builder", "C20"), ("write_color", "C17"), ("parse_tree with custom", "C05"),
    ("reading an empty", "C13"), ("shell returns", "C20"), ("default_prompt", "C20"), ("rule_scanner", "C19"),
    ("scan_result", "C19"), ("operator tag", "C11"), ("branches report", "C04"), ("context_counter", "C16"),
    ("ascii::print", "C02"), ("digits with separator", "C02"),
]
EXTRA = os.path.join(HERE, "tools", "fixed_extra.txt")
if os.path.exists(EXTRA):
    PROP += [tuple(l.rstrip("\n").rsplit("\t", 1)) for l in open(EXTRA) if "\t" in l]
out = subprocess.run(["git", "-C", "/repo", "log", "--reverse", "--format=%h %s"], capture_output=True, text=True).stdout
path = os.path.join(HERE, "known_findings.txt")
lines = [l for l in open(path) if not l.startswith("fixed:")]
for l in out.splitlines():
    h, s = l.split(" ", 1)
    if not s.startswith("fix: "):
        continue
    s = s[5:]
    pid = [p for k, p in PROP if s.startswith(k)]
    assert pid, s
    lines.append(f"fixed: property={pid[0]} {h} {s}\n")
open(path, "w").writelines(lines)
