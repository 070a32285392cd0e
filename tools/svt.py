"""Runs tests::test_suite of /repo once per .svtest file and prints "PASS id" / "FAIL id".

test_suite (src/lib.rs) runs every tests/**/*.svtest in one #[test] and stops at the first failure. It looks for them
in CARGO_MANIFEST_DIR, which is fixed at compile time. So the crate is compiled a second time from SHADOW, a directory
of symlinks to /repo whose tests/ shows one .svtest at a time (with all the included .sieve files), and the test
binary is run for each. Ids: "svtest:FILE" for the file and "svtest:FILE::CASE" for each case the harness announces
("Running test 'CASE'..."). A case has passed when the harness went on to the next one or the file passed; the harness
stops a file at its first failure, so the cases behind that have not run and are not reported."""

import collections
import json
import os
import re
import shutil
import subprocess
import sys

REPO, SHADOW = "/tmp/wt", "/tmp/wtshadow"
TESTS = os.path.join(SHADOW, "tests")
LOG = os.path.join(sys.argv[1], "svtests.log")


def make_shadow():
    shutil.rmtree(SHADOW, ignore_errors=True)
    os.makedirs(TESTS)
    for name in os.listdir(REPO):
        if name not in (".git", "target", "tests"):
            os.symlink(os.path.join(REPO, name), os.path.join(SHADOW, name))
    found = []
    for root, _, files in os.walk(os.path.join(REPO, "tests")):
        to = os.path.normpath(
            os.path.join(TESTS, os.path.relpath(root, os.path.join(REPO, "tests")))
        )
        os.makedirs(to, exist_ok=True)
        for name in files:
            if name.endswith(".svtest"):
                found.append(os.path.relpath(os.path.join(root, name), REPO))
            else:
                os.symlink(os.path.join(root, name), os.path.join(to, name))
    return sorted(found)


def build():
    """The path of the freshly built test binary, from cargo's own messages."""
    cmd = ["cargo", "test", "--offline", "--lib", "--no-run", "--message-format=json"]
    cmd += ["--manifest-path", os.path.join(SHADOW, "Cargo.toml")]
    # A target directory of its own: in /repo/target cargo would take the two copies of the crate for the same one.
    env = dict(os.environ, CARGO_TARGET_DIR=SHADOW + "-target")
    p = subprocess.run(cmd, stdout=subprocess.PIPE, text=True, env=env)
    if p.returncode:
        sys.exit("the second build failed")
    for line in p.stdout.splitlines():
        m = json.loads(line) if line.startswith("{") else {}
        if m.get("executable") and m.get("profile", {}).get("test"):
            return m["executable"]
    sys.exit("no test binary")


def run(binary, log):
    cmd = [binary, "tests::test_suite", "--exact", "--nocapture", "--test-threads", "1"]
    try:
        p = subprocess.run(
            cmd, cwd=SHADOW, stdout=subprocess.PIPE, stderr=log, timeout=30
        )
        out, code = p.stdout, p.returncode
    except subprocess.TimeoutExpired as e:
        out, code = e.stdout or b"", -1
    out = out.decode("utf-8", "replace")
    log.write(out.encode())
    log.flush()
    return out, code


def main():
    files = make_shadow()
    binary = build()
    with open(LOG, "wb") as log:
        for file in files:
            link = os.path.join(SHADOW, file)
            os.symlink(os.path.join(REPO, file), link)
            out, code = run(binary, log)
            os.unlink(link)
            if f"===== {link} =====" not in out:
                continue  # the harness did not take up this file
            ok = code == 0 and "test result: ok. 1 passed" in out
            print("PASS" if ok else "FAIL", f"svtest:{file}")
            cases = re.findall(r"^Running test '(.*)'\.\.\.$", out, re.M)
            seen = collections.Counter()
            for k, case in enumerate(cases):
                case = case.strip()
                seen[case] += 1
                name = case if seen[case] == 1 else f"{case} #{seen[case]}"
                passed = ok or k + 1 < len(cases)
                print("PASS" if passed else "FAIL", f"svtest:{file}::{name}")
            sys.stdout.flush()


main()
