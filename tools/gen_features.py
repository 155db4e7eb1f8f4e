#!/usr/bin/env python3
"""Keeps the per-property cargo features and module list in step with harness/src/pNN.rs."""
import os, re
H = os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "harness")
ps = sorted(f[:-3] for f in os.listdir(H + "/src") if re.match(r"p\d\d\.rs$", f))
s = open(H + "/Cargo.toml").read()
s = re.sub(r"\[features\].*?\n\n", "[features]\n" + "".join("%s = []\n" % p for p in ps) + "\n", s, flags=re.S)
open(H + "/Cargo.toml", "w").write(s)
s = open(H + "/replay/Cargo.toml").read()
s = re.sub(r"\[features\].*?\n\n", "[features]\n" + "".join('%s = ["nharness/%s"]\n' % (p, p) for p in ps) + "\n", s, flags=re.S)
open(H + "/replay/Cargo.toml", "w").write(s)
s = open(H + "/src/lib.rs").read()
i = s.index('#[cfg(feature = "p01")]')
s = s[:i] + "".join('#[cfg(feature = "%s")]\npub mod %s;\n' % (p, p) for p in ps) + "\npub const ALL: &[&[H]] = &[\n" + "".join('    #[cfg(feature = "%s")]\n    %s::LIST,\n' % (p, p) for p in ps) + "];\n"
open(H + "/src/lib.rs", "w").write(s)
