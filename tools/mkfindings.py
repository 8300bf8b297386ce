#!/usr/bin/env python3
"""Write known_findings.txt: the fix: commits of /repo with the property each one is about."""
import os, subprocess
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
P = {}
def p(prop, hashes):
    for h in hashes.split(): P[h] = prop
p("C11", "2f71220 c07f3a8 8152a57")
p("C07", "774ccad 1c5128c 79209dc 5ddb057 939b2f9 ae97fc0")
p("C08", "0963b68 3ada3f9 e31157f")
p("C06", "f0a2331 4010410")
p("C16", "c8750b5 9c4ab60 246e2bd")
p("C17", "9d46dd4 399aad3")
p("C12", "024ec42 9bc2866 c7f0724 0f9d9fa 7983bfe eaed4cb")
p("C13", "9999e80")
p("C09", "782c7c4 bbf12f1")
p("C10", "31eb5ff")
p("C18", "1c49048 004b50d")
p("C14", "6e2cabc 6015000")
p("C02", "2305995 50e50d5 1871099 5ae2763 23140c8 7439daf 0c2014a a2ac664 3aa0a6a e0331e5 4c8fc4d 61253ec 977ad90 52260ce 41a711e")
p("C19", "8358bac")
p("C04", "c9cd3fc 339f1cd deadf60 ccc834b 78fde01 8f3429d e5e8e33")
p("C23", "5394b26 edd5de4 82ea56d")
p("C15", "5cb8f32 2f37bc2")
p("C25", "89e0b2d")
p("C22", "9a63568 fc16b45 08d64a5 6d81c20 e861768 749e7f5")
p("C24", "3468bcc")
p("C21", "1df96dc")
p("C20", "459844c 9227401 55f55b2 702c545 9ee09fe 4a0f5f4 e239cd9 90cf817 fabcc59 ec4bcfd 0dea088 df7c93c eddc13c 79f314f ec6a54c 2e304a9 dc91ac1 7f3ec0e 6a4aad3 6b496ba db5f383 6e2b7d4 f349656")
p("C20", "1011f86")
p("C05", "930f0b6")
p("C26", "9338be4 4072273")
p("C03", "96fc6fd b187a5d 8a48bcd d153aed ecd6bb7 5c3b202 8c2b27a 18aca04")
p("C27", "d8ed72f c77e16e")
p("C20", "173c19d")
p("C25", "614492a")
p("C28", "df72697 8b44c21 2b5049a 7b1214e 9495311 b975ac3 b4207d5")
p("C30", "dd01925 d9d9a94 a5e8901 58639d0")
p("C31", "16966c1 41448b3 b649640 c2a9198")
# findings that are not repaired: (property, text)
KNOWN = []
def main():
    log = subprocess.check_output(["git", "-C", "/repo", "log", "--reverse", "--format=%h %s", "1890eba..HEAD"], text=True)
    with open(os.path.join(V, "known_findings.txt"), "w") as fd:
        fd.write("# Genuine defects found by the checks. 'fixed' entries are repaired in /repo and suppress nothing.\n")
        for prop, t in KNOWN: fd.write(f"known: property={prop} {t}\n")
        for l in log.splitlines():
            h, s = l.split(" ", 1)
            if not s.startswith("fix: "): continue
            if h not in P: print("no property for", l); continue
            fd.write(f"fixed: property={P[h]} {h} {s[5:]}\n")
main()
