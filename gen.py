#!/usr/bin/env python3
"""Compile and run the decoders that doodle's code generator emits for generated formats.

gen.run(dv, seed, n, work, target) -> (failures, stats): `dv emit` writes one Rust module per format,
cargo compiles them against /repo (modules the Rust compiler rejects are left out and counted),
the decoders run on their inputs in worker processes, `dv judge` compares with the reference semantics."""
import json, os, re, subprocess, sys, threading, time

MAIN = '''use std::io::Write;
%(mods)s
fn get(i: u64) -> Option<(fn(&[u8]) -> Option<(usize, String)>, &'static str)> {
    Some(match i { %(arms)s _ => return None })
}
fn main() {
    std::panic::set_hook(Box::new(|_| ()));
    let h = std::thread::Builder::new().stack_size(256 << 20).spawn(|| {
        for a in std::env::args().skip(1) {
            let i: u64 = a.parse().unwrap();
            let Some((f, ins)) = get(i) else { continue };
            for l in ins.lines() {
                let b: Vec<u8> = (1..l.len()).step_by(2).map(|k| u8::from_str_radix(&l[k..k + 2], 16).unwrap()).collect();
                let r = std::panic::catch_unwind(|| f(&b));
                let mut o = std::io::stdout().lock();
                match r {
                    Ok(Some((n, v))) => writeln!(o, "{i} {l} {n} {v}"),
                    Ok(None) => writeln!(o, "{i} {l} E"),
                    Err(e) => writeln!(o, "{i} {l} P{}", e.downcast_ref::<String>().cloned().or_else(|| e.downcast_ref::<&str>().map(|s| s.to_string())).unwrap_or_default().replace('\\n', " ")),
                }.unwrap();
            }
        }
    }).unwrap();
    h.join().unwrap();
}
'''
TOML = '''[package]
name = "gen"
version = "0.1.0"
edition = "2024"
[dependencies]
doodle = { path = "%s" }
log = "0.4"
[workspace]
[profile.dev]
debug = 0
incremental = false
'''

REPO = os.environ.get("GENREPO", "/repo")

def write_main(work, ids):
    mods = "\n".join(f"#[allow(warnings)] mod c{i};" for i in ids)
    arms = "\n".join(f'{i} => (c{i}::__run, include_str!("c{i}.in")),' for i in ids)
    open(f"{work}/src/main.rs", "w").write(MAIN % dict(mods=mods, arms=arms))

def run(dv, seed, n, work, target, log=lambda *a: None, repo=None):
    repo = repo or REPO
    os.makedirs(work, exist_ok=True)
    r = subprocess.run([dv, "emit", work, str(seed), str(n)], capture_output=True, text=True, timeout=600)
    log(r.stdout.strip())
    m = re.search(r"GEN cases=(\d+) refused=(\d+)", r.stdout)
    if not m: raise RuntimeError("emit failed: " + r.stderr[-500:])
    stats = dict(emitted=int(m[1]), refused=int(m[2]), rejected=0)
    open(f"{work}/Cargo.toml", "w").write(TOML % repo)
    lock = f"{repo}/Cargo.lock"
    if not os.path.exists(f"{work}/Cargo.lock"):
        open(f"{work}/Cargo.lock", "w").write(open(lock).read())
    ids = [int(x) for x in open(f"{work}/ids").read().split()]
    env = dict(os.environ, CARGO_TARGET_DIR=target, CARGO_NET_OFFLINE="true")
    env.pop("RUSTFLAGS", None)
    why = {}
    for rnd in range(8):
        write_main(work, ids)
        p = subprocess.run(["cargo", "build", "--offline", "-q", "--message-format=json"], cwd=work, env=env, capture_output=True, text=True, timeout=800)
        bad = set()
        for l in p.stdout.splitlines():
            try: d = json.loads(l)
            except ValueError: continue
            msg = d.get("message") or {}
            if msg.get("level") != "error": continue
            for s in msg.get("spans", []):
                k = re.search(r"c(\d+)\.rs$", s["file_name"])
                if k: bad.add(int(k[1])); why.setdefault(int(k[1]), msg["message"][:120])
        if p.returncode == 0: break
        if not bad: raise RuntimeError("compiling generated decoders: " + (p.stderr + p.stdout)[-800:])
        log(f"round {rnd}: {len(bad)} modules rejected by rustc")
        ids = [i for i in ids if i not in bad]
    else:
        raise RuntimeError("generated decoders do not settle")
    stats["rejected"] = len(why); stats["why"] = why
    exe = f"{target}/debug/gen"
    out = f"{work}/out.txt"
    with open(out, "w") as f:
        chunk = [ids[k::8] for k in range(8)]
        def go(c):
            while c:
                try:
                    p = subprocess.run([exe] + [str(i) for i in c], capture_output=True, text=True, timeout=240, preexec_fn=limit)
                    o, dead = p.stdout, p.returncode != 0
                except subprocess.TimeoutExpired as e:
                    o, dead = (e.stdout or b"").decode(errors="replace"), True
                f.write(o if o.endswith("\n") or not o else o[:o.rfind("\n") + 1])
                if not dead: return
                seen = {int(l.split()[0]) for l in o.splitlines() if l and l[0].isdigit()}
                rest = [i for i in c if i not in seen]
                last = max((k for k, i in enumerate(c) if i in seen), default=-1)
                # the case that killed the worker: the last one seen or the one after it
                stats.setdefault("died", []).append(c[min(last + 1, len(c) - 1)])
                c = c[last + 2:]
        ts = [threading.Thread(target=go, args=(c,)) for c in chunk]
        for t in ts: t.start()
        for t in ts: t.join()
    r = subprocess.run([dv, "judge", out, str(seed)], capture_output=True, text=True, timeout=600)
    fails = [l[9:] for l in r.stdout.splitlines() if l.startswith("GEN-FAIL ")]
    m = re.search(r"GEN-STAT cases=(\d+) runs=(\d+) accepted=(\d+)", r.stdout)
    if not m: raise RuntimeError("judge failed: " + r.stderr[-500:])
    # every input is one the reference settles on: a decoder that does not come back is wrong
    for i in stats.pop("died", []):
        fails.append(f"ENSURES a decoder terminates: case {i} (seed {seed}) kills or hangs its process")
    stats.update(judged=int(m[1]), runs=int(m[2]), accepted=int(m[3]))
    return fails, stats

def limit():
    import resource
    resource.setrlimit(resource.RLIMIT_AS, (4 << 30, 4 << 30))

if __name__ == "__main__":
    a = sys.argv
    t = time.time()
    fails, st = run(a[1], int(a[2]), int(a[3]), a[4], a[5], log=print)
    from collections import Counter
    why = st.pop("why")
    print(st, f"{time.time()-t:.0f}s")
    print(Counter(re.sub(r"`[^`]*`", "`_`", w) for w in why.values()).most_common(12))
    print("examples", list(why.items())[:12])
    seen = set()
    fails = [f for f in fails if not ((m := re.search(r"case (\d+)", f)[1]) in seen or seen.add(m))]
    print(len(fails), "failing cases")
    for f in fails[:int(os.environ.get("NF", "12"))]: print("FAIL", f[:700])
