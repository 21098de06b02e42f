"""Python-visible functions of the compiled extension, read from the macro-expanded source of /repo/src."""
import glob, hashlib, json, os, re, subprocess, sys

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get("VERIF_REPO", "/repo")


def key():
    h = hashlib.sha256()
    for f in sorted(glob.glob(REPO + "/src/**/*.rs", recursive=True)) + [REPO + "/Cargo.toml", REPO + "/Cargo.lock", VERIF + "/tools/shadow.py", os.path.abspath(__file__)]:
        if os.path.exists(f):
            h.update(f.encode() + b"\0" + open(f, "rb").read() + b"\0")
    return h.hexdigest()


def load():
    d = os.path.join(VERIF, "target", "pyraw")
    out = os.path.join(d, "raw.json")
    k = key()
    if os.path.exists(out):
        j = json.load(open(out))
        if j["key"] == k:
            return j
    os.makedirs(d, exist_ok=True)
    sh = os.path.join(d, "shadow")
    subprocess.run([sys.executable, os.path.join(VERIF, "tools/shadow.py"), REPO, sh], check=True)
    if os.path.exists(REPO + "/Cargo.lock"):
        open(sh + "/Cargo.lock", "w").write(open(REPO + "/Cargo.lock").read())
    env = dict(os.environ, CARGO_TARGET_DIR=os.path.join(d, "t"), CARGO_NET_OFFLINE="true")
    r = subprocess.run(["cargo", "+nightly", "rustc", "--offline", "--lib", "--profile=check", "--features", "python", "--", "-Zunpretty=expanded"], cwd=sh, env=env, stdout=subprocess.PIPE, stderr=subprocess.PIPE, text=True)
    if r.returncode:
        print("ERROR: the Python bindings do not expand:\n" + r.stderr[-3000:], flush=True)
        sys.exit(2)
    t = r.stdout
    # everything pyo3 generates names the function descriptions; the unrolled numeric code is of no interest
    fns = {}
    for m in re.finditer(r'FunctionDescription\s*\{\s*cls_name:[^,]*,\s*func_name:\s*"([^"]+)",\s*positional_parameter_names:\s*&\[(.*?)\],\s*positional_only_parameters:\s*(\d+)usize,\s*required_positional_parameters:\s*(\d+)usize,\s*keyword_only_parameters:\s*&\[(.*?)\],\s*\}', t, re.S):
        name = m.group(1)
        params = re.findall(r'"([^"]+)"', m.group(2))
        # the Rust function this wrapper calls
        pre = t[:m.start()]
        f = re.findall(r'let function = (?:\w+::)*(\w+);', pre[-1500:])
        rf = f[-1] if f else name
        fns[name] = dict(params=params, rust=rf, required=int(m.group(4)), kwonly=re.findall(r'name:\s*"([^"]+)"', m.group(5)), posonly=int(m.group(3)))
    types = {}
    for n, d in fns.items():
        m = re.search(r'\bfn ' + re.escape(d["rust"]) + r"(?:<[^>(]*>)?\((.*?)\)\s*->", t, re.S)
        if m:
            ps, depth, cur = [], 0, ""
            for ch in m.group(1):
                depth += ch in "<([" and 1 or 0
                depth -= ch in ">)]" and 1 or 0
                if ch == "," and depth == 0:
                    ps.append(cur)
                    cur = ""
                else:
                    cur += ch
            if cur.strip():
                ps.append(cur)
            d["types"] = [re.sub(r"\s+", " ", p.split(":", 1)[1]).strip() for p in ps if ":" in p]
    reg = re.findall(r'use (?:\w+::)*(\w+) as wrapped_pyfunction', t)
    j = dict(key=k, functions=fns, registered=sorted(n for n, d in fns.items() if d["rust"] in reg), unregistered=sorted(n for n, d in fns.items() if d["rust"] not in reg))
    json.dump(j, open(out, "w"), indent=1)
    return j


if __name__ == "__main__":
    print(json.dumps(load(), indent=1)[:3000])
