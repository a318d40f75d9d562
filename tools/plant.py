#!/usr/bin/env python3
"""plant.py FILE.toml...: makes /verif/seeded/<id> from a description and confirms it in a scratch
copy of /repo (bound over /repo in a mount namespace of its own). Development helper.

FILE is python source with variables: id, prop, file, edits [(old, new)...] or files {file: edits},
needs, breaks, demo (rust main.rs), features (list, for main crate demos)."""
import json, os, pathlib, subprocess, sys, shutil
SEED = pathlib.Path('/verif/seeded')
WT = pathlib.Path('/tmp/wt')
DEMO_SH = '''#!/bin/bash
# exit 0: the behaviour is right; nonzero: it is broken
here=$(cd "$(dirname "$0")" && pwd)
work=$(mktemp -d)
trap 'rm -rf "$work"' EXIT
cp -r "$here/demo" "$work/demo"
cp "$here/Cargo.lock.demo" "$work/demo/Cargo.lock"
cd "$work/demo" || exit 2
export CARGO_NET_OFFLINE=true CARGO_TARGET_DIR="$work/target" CARGO_TERM_COLOR=never
cargo build --offline -q || exit 3
timeout -k 2 %(timeout)d "$work/target/debug/demo"
'''
TOML = '''[package]
name = "demo"
version = "0.1.0"
edition = "2024"

[workspace]

[dependencies]
%(deps)s

[patch.crates-io]
ntex-amqp-codec = { path = "/repo/codec" }
'''
DEPS_CODEC = '''ntex-amqp-codec = { path = "/repo/codec" }
ntex-bytes = "1.5"
ntex-codec = "1.1"
chrono = { version = "0.4", default-features = false }
ordered-float = "5"
uuid = "1"'''
DEPS_MAIN = DEPS_CODEC + '''
ntex-amqp = { path = "/repo" }
ntex = "3.6"
futures = "0.3"'''

PRE = '''#![allow(dead_code, unused_imports)]
mod peer;
mod wire;
use ntex::time::{Millis, sleep};
use ntex_amqp::codec::protocol::{self as p, DeliveryState, Frame};
use ntex_amqp::*;
use peer::*;
use std::rc::Rc;
use wire::*;
'''

def sh(cmd, **kw):
    return subprocess.run(cmd, shell=isinstance(cmd, str), text=True, capture_output=True, **kw)

def ns(script, timeout=600):
    return subprocess.run(['unshare', '-m', 'bash', '-c', 'mount --bind /tmp/wt /repo && ' + script],
                          text=True, capture_output=True, timeout=timeout)

def main(path):
    d = {}
    exec(open(path).read(), d)
    bid = d['id']
    sh('git -C /tmp/wt checkout -q -- . && git -C /tmp/wt fetch -q /repo HEAD && git -C /tmp/wt reset -q --hard FETCH_HEAD')
    files = d.get('files') or {d['file']: d['edits']}
    for f, edits in files.items():
        p = WT / f
        s = p.read_text()
        for old, new in edits:
            n = s.count(old)
            if n != 1:
                print(bid, 'EDIT matches', n, 'times:', old[:80]); return False
            s = s.replace(old, new)
        p.write_text(s)
    patch = sh('git -C /tmp/wt diff').stdout
    # does it touch lines the fix commits added?
    out = SEED / bid
    if out.exists(): shutil.rmtree(out)
    (out / 'demo/src').mkdir(parents=True)
    (out / 'patch.diff').write_text(patch)
    (out / 'meta.json').write_text(json.dumps({'property': d['prop'], 'needs': d['needs'], 'what_it_breaks': d['breaks']}, indent=1) + '\n')
    (out / 'demo.sh').write_text(DEMO_SH % {'timeout': d.get('timeout', 60)})
    os.chmod(out / 'demo.sh', 0o755)
    main_crate = d.get('main', False)
    (out / 'demo/Cargo.toml').write_text(TOML % {'deps': DEPS_MAIN if main_crate else DEPS_CODEC})
    demo = d['demo'].lstrip('\n')
    if main_crate:
        for x in ('wire.rs', 'peer.rs'):
            shutil.copy('/verif/tools/demo/' + x, out / 'demo/src' / x)
        demo = PRE + demo
    (out / 'demo/src/main.rs').write_text(demo)
    lock = pathlib.Path('/verif/tools/lock.main' if main_crate else '/verif/tools/lock.codec')
    shutil.copy(lock, out / 'Cargo.lock.demo')
    # with the patch: build + tests + demo fails
    r = ns('bash /opt/vp/build.sh >/tmp/wt/target/b.log 2>&1; bash /opt/vp/test.sh /tmp/wt/target/t.json')
    res = r.stdout[-300:]
    try:
        t = json.load(open('/tmp/wt/target/t.json'))
    except Exception as e:
        print(bid, 'build/test failed', open('/tmp/wt/target/b.log').read()[-1500:]); return False
    base = json.load(open('/opt/vp/BASELINE.json'))
    stable = base.get('stable') or base.get('passed') or base
    passed = set(t['passed']) if 'passed' in t else set(k for k, v in t.items() if v == 'passed')
    st = set(stable) if isinstance(stable, list) else set(stable.keys())
    miss = st - passed
    os.remove('/tmp/wt/target/t.json')
    if miss:
        print(bid, 'TESTS FAIL', sorted(miss)[:5]); return False
    r1 = ns(f'cd /repo && bash {out}/demo.sh')
    sh('git -C /tmp/wt checkout -q -- .')
    r2 = ns(f'cd /repo && bash {out}/demo.sh')
    ok = r1.returncode != 0 and r1.returncode not in (2, 3) and r2.returncode == 0
    print(bid, 'OK' if ok else 'BAD', r1.returncode, r2.returncode, '' if ok else (r1.stdout+r1.stderr+r2.stdout+r2.stderr)[-900:])
    return ok

for p in sys.argv[1:]:
    main(p)
