#!/usr/bin/env python3
"""Prints the "fixed" entries of known_findings.json for the fix commits of /repo (development aid; run by hand)."""
import json, re, subprocess, sys
BASE = "13a3047"
MAP = """
C01 76d4db5
C02 d5e8c6f
C04 5ea1f9f
C06 b3a77e4 e284434
C07 8d929ca
C09 70eafa0 f7fc3e9 44edf8f
C10 cbd3b37
C11 34d0835 d05dccd 4e7ec12 83b22a7 a8f84b4 4644f8b 8ee670f b2111b3 dbb4ff2 48791e5 f1a85c1
C12 a2db7ba bfdbf8b
C13 64708c7 c989d71 f6302d2 bb3bd2d e687d1f 6d671a6
C14 3222dcb
C15 2df874a 01b9694
C16 68cf305 de95c5f a32f9d7 f9b2040 3b6cc12 fd8f4d9 307e0f7 463856b fbe8630 2c7e1d2
C17 9561d0f
C18 7849e5f aba645d 33877a9 fb8d3a3 d4a37d3
C19 55cd23b 447415a 177c2b4 a0c126b 53594f9 59bde52 e8cb259 2184fdc 36ce463
C20 3f9e4c5 c1ebda0 9f8fb98 8a2dacc b4aaed2 8a72ce5 f816db0 12da383 63c5d95 687d965 1b57dce b58c823 8eff7cc 0c01cba
C21 cde09ba 528a7e7 ce817b0 ec32110 7b2820d 1afb614 f412069 f58788a 4454e03 d8e6a8a d9ce402 a57e3ef 1c71b7a 549790f e144b18
C22 a425b54 c421dc8 e878204 744fe90
C23 1b5854a 164914d b23eb87 bfda64b 9b1efc7 6ce4bf4
C24 cd362d6 400a857 2e38e8a c994b7d 36ad17a a8b855e cd1b4bc 7f44f11 7999a3f 9785964 ba19a93 8d04bfa e4fff8b 729553c c083477 8871c0b cc1a7bf 92ce4f9 3255e98 4403483 4a22a4b 9237f27 3576477 4b855af d551292
C25 ae7d3ef 5c1cf0f bbf58d6 c6704fc 18f8017 3ed3869 3185255 23aa768 b8ff383 f1195c4
C26 ba762d0 a819d0a 40425c9 4e0f687 4d149ae 243d38a 38ce777 000c558 23acfc2
C28 b4d9a69 814e838 fa1f8bd ba417c4 58d0d1b 8a42de6 b10a89f
C29 36bc134 0b1d47f d609d75 9f4fdda 77611e0 b4b21e8 1166fdb 77970da 10e2514 f8bf425
C27 0c31953 01e1adb 8cf17e7 4ab5a39 f4d1f89 3ab2c32 22ceb1e 35ff9ba 581a1df b4eeffa a792ba6
C30 ca8246e f8c5997 8aecd1b 033754f c7005c9
C31 853601a 78b5e89 cc741b0 3a11f9c af40384 7d8babd 1d28dfa 1037c54 04e5044 279fd40 86f6dc4 939d42d b40823e 88d5f7c 9c30d67
C32 6ca6936 9ac80c6 a23ae8d 1063ae6 eb13eb2 a0c9301 2b3eb7f 4e3e7d3 5abf7d8 f3e0053
"""
def main():
    of = {h: l.split()[0] for l in MAP.strip().splitlines() for h in l.split()[1:]}
    log = subprocess.check_output(["git", "-C", "/repo", "log", "--reverse", "--format=%h %s", BASE + "..HEAD"], text=True).splitlines()
    out = []
    for l in log:
        h, s = l.split(" ", 1)
        if not s.startswith("fix: "):
            continue
        if h not in of:
            sys.exit("no property for " + l)
        out.append("fixed: property=%s %s %s" % (of[h], h, "did not hold before the repair: " + s[5:]))
    out.sort(key=lambda e: e.split("property=")[1][:3])
    p = "/verif/known_findings.json"
    k = json.load(open(p))
    k["fixed"] = out
    json.dump(k, open(p, "w"), indent=1)
    print(len(out))
main()
