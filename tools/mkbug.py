"""Write seeded/<id>/ from a bug description and confirm it: python3 tools/mkbug.py FILE [ID...] [--check]

FILE defines BUGS, a list of dicts: id, property, edits [(file, old, new)], needs, breaks, deps [crate], demo (Rust main.rs).
Applies each edit to /repo, confirms that the stable tests pass and that the demo fails, undoes it and confirms that the demo passes.
"""
import json, os, subprocess, sys, time

V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
R = "/repo"
DEMO = '''#!/bin/bash
# run with cwd = the repository; exit 0 if the behaviour is right
set -e
here=$(cd "$(dirname "$0")" && pwd)
d=$(mktemp -d)
trap 'rm -rf "$d"' EXIT
mkdir "$d/src"
cp "$here/demo.rs" "$d/src/main.rs"
cp Cargo.lock "$d/"
cat > "$d/Cargo.toml" <<END
[package]
name = "demo"
version = "0.1.0"
edition = "2024"
[dependencies]
%s
[workspace]
[profile.dev]
debug = 0
END
export RUSTUP_TOOLCHAIN=stable CARGO_TARGET_DIR="$d/target" CARGO_NET_OFFLINE=true
cd "$d"
cargo build --offline -q
timeout 60 "$d/target/debug/demo"
'''


def sh(c, **k):
    return subprocess.run(c, shell=True, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, **k)


def clean():
    sh("git -C /repo checkout -- .")


def main():
    args = [a for a in sys.argv[1:] if not a.startswith("--")]
    ns = {}
    exec(open(args[0]).read(), ns)
    base = json.load(open("/opt/vp/BASELINE.json"))["stable"]
    for b in ns["BUGS"]:
        if args[1:] and b["id"] not in args[1:]:
            continue
        assert not sh("git -C /repo status --short").stdout.strip(), "/repo is not clean"
        d = f"{V}/seeded/{b['id']}"
        try:
            for f, old, new in b["edits"]:
                t = open(f"{R}/{f}").read()
                if t.count(old) != 1:
                    print(b["id"], "EDIT MATCHES", t.count(old), "TIMES", f)
                    raise KeyError
                open(f"{R}/{f}", "w").write(t.replace(old, new))
            os.makedirs(d, exist_ok=True)
            open(f"{d}/patch.diff", "w").write(sh("git -C /repo diff").stdout)
            deps = "\n".join(f'{c} = {{ path = "$PWD/crates/{c}" }}' if "=" not in c else c for c in b["deps"])
            open(f"{d}/demo.sh", "w").write(DEMO % deps)
            os.chmod(f"{d}/demo.sh", 0o755)
            open(f"{d}/demo.rs", "w").write(b["demo"])
            json.dump({"property": b["property"], "needs": b["needs"], "what_it_breaks": b["breaks"]}, open(f"{d}/meta.json", "w"), indent=1)
            t0 = time.time()
            r = sh(f"bash {d}/demo.sh", cwd=R)
            ok = "DEMO-FAILS(good)" if r.returncode != 0 and "could not compile" not in r.stdout else "DEMO-PASSES-WITH-BUG(bad) " + r.stdout[-3000:]
            msg = r.stdout.strip().splitlines()[:3]
            t = sh("bash /opt/vp/build.sh && bash /opt/vp/test.sh /tmp/mkbug.json")
            try:
                res = json.load(open("/tmp/mkbug.json"))
                passed = set(res["passed"])
                broken = [x for x in base if x not in passed]
            except Exception as e:
                broken = ["no result", t.stdout[-2000:]]
            chk = ""
            if "--check" in sys.argv:
                c = sh(f"python3 {V}/check.py {b['property']} --tier quick", cwd=V)
                chk = f" CHECK exit={c.returncode} " + " ".join(x for x in c.stdout.splitlines() if x.startswith("VIOLATION"))
            print(b["id"], b["property"], ok, "TESTS", "ok" if not broken else f"BROKEN {broken[:4]}", chk, f"{time.time()-t0:.0f}s", msg, flush=True)
        except KeyError:
            continue
        finally:
            clean()
        r = sh(f"bash {d}/demo.sh", cwd=R)
        if r.returncode != 0:
            print(b["id"], "DEMO FAILS WITHOUT BUG", r.stdout[-3000:])
    sh("bash /opt/vp/build.sh")


main()
