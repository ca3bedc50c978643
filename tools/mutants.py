#!/usr/bin/env python3
"""mutants.py LAB packet|server [START STEP]: small systematic changes of the source, one at a time, in copies of
/repo and /verif in /tmp/LAB. Those that build and pass the tests are put before the quick checks. Results go to
/tmp/LAB/mutants.txt; those that no check catches are the ones to look at. START and STEP select every STEP-th."""
import re, subprocess, sys, pathlib, json, os
lab = pathlib.Path("/tmp/" + sys.argv[1]); what = sys.argv[2]
start, step = (int(sys.argv[3]), int(sys.argv[4])) if len(sys.argv) > 4 else (0, 1)
skipfile = set()
files = {"packet": sorted(p.name for p in pathlib.Path("/repo/packet/src").glob("*.rs")),
         "server": ["dispatcher.rs", "topics.rs", "lib.rs", "clients/client.rs", "clients/clientworker.rs", "clients/mod.rs", "clients/mqttclient.rs", "clients/noiseclient.rs"]}[what]
base = {"packet": "packet/src/", "server": "server-lib/src/"}[what]
P = ["P06", "P05", "P09", "P03", "P04", "P07", "P08", "P02", "P10", "P01"]
B = ["B01", "B05", "B17", "B04", "B09", "B12", "B13", "B03", "B16", "B08", "B07", "B06", "B10", "B11", "B14", "B15", "B02", "B18", "B19", "T01", "T02", "T03"]
FIRST = {"clients/noiseclient.rs": ["B12", "B13", "B09", "B14"], "clients/mqttclient.rs": ["B10", "B09", "B13", "B07"], "clients/mod.rs": ["B08", "B16", "B07", "B14"],
         "clients/clientworker.rs": ["B05", "B09", "B07", "B02"], "clients/client.rs": ["B09", "B08"], "dispatcher.rs": ["B01", "B17", "B04", "B11"]}
T = ["T01", "T02", "T03", "B01", "B06"]
OPS = [(r" == ", " != "), (r" != ", " == "), (r" < ", " <= "), (r" > ", " >= "), (r" <= ", " < "), (r" >= ", " > "),
       (r" && ", " || "), (r" \|\| ", " && "), (r" \+ ", " - "), (r" - ", " + "), (r"\btrue\b", "false"), (r"\bfalse\b", "true"),
       (r"\bcontinue\b", "break"), (r"\.is_err\(\)", ".is_ok()"), (r"\.is_ok\(\)", ".is_err()"), (r"\.is_some\(\)", ".is_none()"), (r"\.is_none\(\)", ".is_some()"),
       (r" \|= ", " = "), (r" &= ", " = "), (r"\.min\(", ".max("), (r"\bif (?!let)([^{]+) \{$", "if false && (\\1) {"), (r"\bif (?!let)([^{]+) \{$", "if true || (\\1) {"),
       (r"(?<![\w.])!(?=[a-z])", ""), (r" \| ", " & "), (r"\.all\(", ".any("), (r"\.any\(", ".all("), (r">> ", "<< "), (r"\.contains\(", ".intersects("), (r"\.intersects\(", ".contains(")]

def mutants():
    for f in files:
        text = pathlib.Path("/repo/" + base + f).read_text()
        cut = text.find("#[cfg(test)]")
        if f == "lib.rs":
            cut = -1
        lines = text.split("\n"); n = len(lines) if cut < 0 else text[:cut].count("\n")
        for i in range(n):
            l = lines[i]; s = l.strip()
            if not s or s.startswith(("//", "#", "use ", "pub use", "mod ", "pub mod", "trace!", "info!", "warn!", "error!", "impl", "pub fn", "fn ", "async fn", "pub async fn", "pub(super)", "}", "where")):
                continue
            for a, b in OPS:
                for m in re.finditer(a, l):
                    new = l[:m.start()] + m.expand(b) + l[m.end():]
                    if new != l:
                        yield f, i, new
            for m in re.finditer(r"\b(0x[0-9a-fA-F_]+|0b[01_]+|\d+)\b", l):
                if m.start() and l[m.start() - 1] in "._" or l[m.end():m.end() + 1] == ".":
                    continue
                v = int(m.group(1).replace("_", ""), 0)
                for w in {v + 1, v - 1 if v else v + 2}:
                    yield f, i, l[:m.start()] + str(w) + l[m.end():]
            if s.endswith(";") and not s.startswith(("let ", "return", "break", "continue", "pub ", "const", "type", "static", "self.", ".")) or s.startswith("self.") and s.endswith(";"):
                yield f, i, ""
            if re.match(r"^\s*\.await\?;|^\s*return Err", l):
                yield f, i, l.replace("return Err", "let _ = Err::<(), _>")

os.makedirs(lab, exist_ok=True)
env = dict(os.environ, CARGO_NET_OFFLINE="true")
def sh(c, **k):
    return subprocess.run(c, shell=True, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, env=env, **k)
def sync():
    sh(f"mkdir -p {lab}/repo {lab}/verif; rsync -a --delete --exclude target --exclude .git /repo/ {lab}/repo/; rsync -a --delete --exclude target --exclude .git --exclude seeded --exclude replays --exclude evidence /verif/ {lab}/verif/; sed -i 's#\"/repo/#\"{lab}/repo/#g' {lab}/verif/*/Cargo.toml {lab}/verif/run.sh")
out = open(lab / "mutants.txt", "a")
done = {tuple(json.loads(l.split("\t")[0])) for l in open(lab / "mutants.txt") if l.startswith("[")}
todo = list(mutants())[start::step]
print(len(todo), "mutants"); sys.stdout.flush()
for k, (f, i, new) in enumerate(todo):
    if (f, i, new) in done:
        continue
    if k % 5 == 0:
        sync()
    src = pathlib.Path("/repo/" + base + f).read_text(); lines = src.split("\n"); old = lines[i]
    lines[i] = new
    p = lab / "repo" / (base + f); p.write_text("\n".join(lines))
    r = sh(f". /opt/vp/env.sh; cd {lab}/repo && CARGO_TARGET_DIR={lab}/target nice -n 15 timeout 200 cargo test --workspace --no-fail-fast --locked --offline -- --test-threads 4")
    verdict = ""
    if "could not compile" in r.stdout:
        verdict = "nobuild"
    elif r.returncode:
        verdict = "tests"
    else:
        order = P if what == "packet" else T if f == "topics.rs" else FIRST.get(f, []) + [c for c in B if c not in FIRST.get(f, [])]
        for c in order:
            try:
                q = sh(f"nice -n 15 {lab}/verif/run.sh {c} quick", timeout=400)
            except subprocess.TimeoutExpired:
                verdict = f"timeout {c}"; sh(f"pkill -f {lab}/verif/target"); continue
            if q.returncode == 1:
                verdict = f"caught {c} " + next((x.strip() for x in q.stdout.split("VIOLATION", 1)[1].split("\n")[1:2]), "")[:150]; break
            if q.returncode != 0:
                verdict = f"error {c} rc {q.returncode}"; break
        else:
            verdict = verdict or "SURVIVED"
    out.write(json.dumps([f, i, new]) + "\t" + verdict + "\t" + old.strip() + "\n"); out.flush()
    p.write_text(src)
