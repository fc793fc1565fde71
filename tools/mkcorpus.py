"""One-off: collect sample command lines (string literals that start with a command name) as seeds for the
bounded native runs.  Frozen in /verif/corpus/lines.json; never run by a check."""
import ast, glob, json, shlex
reg = json.load(open("/verif/ksspec/registry.json"))
names = {c for v in reg["commands"].values() for c in v}
out = {}
for f in sorted(glob.glob("/repo/tests/**/*.py", recursive=True)):
    for n in ast.walk(ast.parse(open(f).read())):
        if isinstance(n, ast.Constant) and isinstance(n.value, str):
            for line in n.value.split("\n"):
                try:
                    w = shlex.split(line, comments=True)
                except ValueError:
                    continue
                if w and w[0] in names and w[1:] not in out.setdefault(w[0], []) and len(line) < 300:
                    out[w[0]].append(w[1:])
EXTRA = {
 "realm": [["join", "example.com"], ["join", "--client-software=sssd", "--computer-ou=OU=Foo", "--one-time-password=x", "dom"], ["join", "--no-password", "dom"], ["join", "-U", "x", "dom"]],
 "snapshot": [["vg/lv", "--name=snap", "--when=pre-install"], ["vg/lv", "--name=snap", "--when=post-install"]],
 "nvdimm": [["reconfigure", "--mode=sector", "--namespace=namespace0.0", "--sectorsize=512"], ["use", "--namespace=namespace0.0"], ["use", "--blockdevs=pmem1s,pmem2s"]],
 "repo": [["--name=a", "--baseurl=http://x"], ["--name=a", "--mirrorlist=http://x", "--cost=5", "--proxy=http://u:p@h:3"], ["--name=a", "--metalink=http://x"]],
 "raid": [["/", "--level=1", "--device=md0", "raid.01", "raid.02"], ["--level=RAID5", "--device=1", "/x", "raid.01", "raid.02", "raid.03", "--spares=1"]],
 "method": [[]], "install": [["--root-device=sda1"], []],
}
for k, v in EXTRA.items():
    for w in v:
        if w not in out.setdefault(k, []):
            out[k].append(w)
json.dump({k: v[:200] for k, v in sorted(out.items())}, open("/verif/corpus/lines.json", "w"), indent=0)
print(len(out), sum(map(len, out.values())))
