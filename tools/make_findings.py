"""Writes known_findings.json: findings that are left (by exact input) and repairs made (git subjects)."""
import json, subprocess
PROP = {  # repair commit -> property it restored (first), others in brackets
 "43f21f6":"C01","22918d1":"C22","91eda35":"C22","b08fd54":"C14","b7ff03a":"C03","c2ed952":"C15","33fa44f":"C01","5c1e0de":"C16","a8862b0":"C16",
 "f03224c":"C26","60ac266":"C24","20e3a16":"C17","c62181c":"C17","25a291a":"C17","3d906e0":"C17","5ba5958":"C17","c21c34e":"C17","1067e7d":"C17",
 "3293071":"C10","deb7f44":"C06","1b82448":"C13","7e987f0":"C11","0f5fb96":"C11","a8cd770":"C06","b4e5e5e":"C06","557c893":"C08","4b22701":"C06",
 "06f2abb":"C21","ebeb243":"C21","863765a":"C06","b34be1a":"C06","87cac8c":"C06","f36ee2b":"C06","135b33a":"C06","19068fb":"C06","a9a33df":"C07",
 "9d90a8e":"C07","4f171f1":"C07","cb922aa":"C08","5309735":"C20","99ee140":"C20","9d0f8da":"C20","18a7118":"C08","c2b27af":"C14","6f2cf82":"C17",
 "d2ecf5b":"C17","9669da7":"C11","c74ca9b":"C17","bec3b5e":"C27","50f93ba":"C27",
 "6f3cfd7":"C06","20682e3":"C02","d6c7a1c":"C28"}
EXTRA = {}
old = json.load(open("/verif/known_findings.json"))
fixed = []
for l in reversed(subprocess.check_output(["git","-C","/repo","log","--format=%h %s"],text=True).splitlines()):
    h, s = l.split(" ",1)
    if s.startswith("fix: "):
        p = PROP[h] if h in PROP else None
        assert p, ("no property for", l)
        fixed.append("fixed: property=%s %s %s" % (p, h, s[5:]))
old["fixed"] = fixed
json.dump(old, open("/verif/known_findings.json","w"), indent=1)
print(len(fixed))
