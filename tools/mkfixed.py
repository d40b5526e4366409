"""regenerates the 'fixed' list of known_findings.json from the fix: commits of /repo"""
import json, subprocess
P = {"63c01c3": "C13", "3934e34": "C20", "69926aa": "C11", "030200b": "C06", "2a6dbed": "C09", "aead276": "C11", "76a4862": "C16", "924d865": "C03",
     "80a6d27": "C04", "b05ccb9": "C18", "7a2781e": "C12", "79e799b": "C12", "3eb33c7": "C18", "fffb69d": "C18", "ab9c7d4": "C16", "83f39ee": "C18",
     "017405b": "C24", "3f3817f": "C08", "62f9312": "C16", "07798e2": "C10", "f706263": "C16", "c2f4d41": "C18", "1ce9604": "C16", "c173bb6": "C04",
     "8c911bc": "C22", "05c9709": "C24", "bee0737": "C24", "3648a09": "C16", "0fcd3c3": "C04", "e2b6685": "C04", "60ddd17": "C04", "f0074d6": "C09",
     "6f5ae6d": "C06", "40ba5f7": "C16", "138dc55": "C06", "4ca7377": "C06", "2f559c4": "C06", "4a81643": "C03", "6373833": "C23", "4a5226a": "C25", "70946ba": "C09", "cf67f78": "C06", "db314fe": "C19", "c4c3b5f": "C14", "fa2b1c7": "C16"}
out = subprocess.check_output(["git", "-C", "/repo", "log", "--format=%h %s"], text=True)
k = json.load(open("/verif/known_findings.json"))
k["fixed"] = []
for l in out.splitlines():
    h, s = l.split(" ", 1)
    if not s.startswith("fix:"):
        continue
    s = s[4:].strip()
    p = P.get(h[:7])
    if "[" in s:
        p = s[s.index("[") + 1:].rstrip("]").split("/")[0]
        s = s[:s.index("[")].strip()
    if p is None:
        p = "C24" if "read_bml" in s else "C16"
    k["fixed"].append(f"fixed: property={p} {h[:7]} {s}")
json.dump(k, open("/verif/known_findings.json", "w"), indent=1)
