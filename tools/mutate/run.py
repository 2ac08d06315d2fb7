#!/usr/bin/env python3
"""run.py MUTANTS.json OUT.jsonl [--full] [--scale S] [--workers N] [--only idx,idx]
Stage 1: properties of the mutated file at a reduced workload; --full: all properties.
Every worker has its own copy of /repo and of the harness below /tmp/mut."""
import sys, os, json, subprocess, shutil, argparse, multiprocessing as mp, signal
V = "/verif"; M = "/tmp/mut"
ALL = ["C%02d" % i for i in range(1, 31)]
MAP = {
 "av_packet.go": "C11 C25 C14 C02", "av_stream.go": "C05 C25 C20", "codec_paraments.go": "C20 C14 C05 C22",
 "data_pipeline.go": "C08 C03", "direct_pipeline.go": "C08 C03", "streams_buffer.go": "C08 C03",
 "demuxer.go": "C01 C02 C05 C04 C03 C22", "handler.go": "C27", "muxer.go": "C28", "track.go": "C28", "tracks.go": "C28 C01",
 "packet_utils.go": "C14 C25 C22 C11 C19", "video_stream.go": "C05 C22 C21 C20",
 "avc/util.go": "C12 C13 C14 C19 C20 C05 C22", "avc/mp4.go": "C15 C22 C20", "avc/sps.go": "C17 C22 C20", "avc/avc.go": "C19", "avc/codec_data.go": "C20",
 "hevc/util.go": "C13 C12 C19 C14 C20 C05 C22", "hevc/mp4.go": "C16 C22 C20", "hevc/sps.go": "C18 C22", "hevc/hevc.go": "C19", "hevc/parser.go": "C22",
 "bufio": "C23 C24 C22 C15", "collections/buffer_rb.go": "C06 C08 C03", "collections/buffer_direct.go": "C07 C08 C03",
 "collections/block_buffer.go": "C06 C07", "collections/queue.go": "C09 C06", "collections/ring_buffer.go": "C09 C06", "collections/linked_list.go": "C09",
 "collections/reference_counter.go": "C10", "utils/aac_util.go": "C21 C22 C05", "utils/random_util.go": "C30", "utils/assert.go": "C09 C22", "utils": "C05 C21 C30 C22",
}
TESTS = sorted({t.split("/")[4] for t in json.load(open("/opt/vp/BASELINE.json"))["stable"] if len(t.split("/")) <= 6} )
def sh(c, cwd, t, env=None):
    p = subprocess.Popen(c, shell=True, cwd=cwd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, errors="replace", start_new_session=True, env=env)
    try: o, _ = p.communicate(timeout=t)
    except subprocess.TimeoutExpired:
        os.killpg(p.pid, signal.SIGKILL); p.communicate(); return "timeout", ""
    return p.returncode, o
def setup(k):
    W = f"{M}/w{k}"; shutil.rmtree(W, ignore_errors=True); os.makedirs(W)
    sh(f"cp -a /repo {W}/repo && rm -rf {W}/repo/.git && cp -a {V}/harness {W}/harness && sed -i 's#=> /repo#=> {W}/repo#' {W}/harness/go.mod && mkdir -p {W}/v/evidence {W}/tmp && cp {V}/known_findings.txt {W}/v/", "/", 60)
    return W
def work(k, q, r, a):
    W = setup(k)
    env = dict(os.environ, GOTOOLCHAIN="local", GOPROXY="off", GOSUMDB="off", GOFLAGS="-mod=readonly", GOWORK="off", GOMAXPROCS="2", GOMEMLIMIT="2GiB", TMPDIR=f"{W}/tmp")
    while True:
        it = q.get()
        if it is None: break
        i, m = it
        f = f"{W}/repo/{m['file']}"; src = open(f"/repo/{m['file']}", "rb").read()
        open(f, "wb").write(src[:m["off"]] + m["new"].encode() + src[m["off"]+m["len"]:])
        res = dict(m, i=i)
        try:
            rc, o = sh("go build ./...", f"{W}/repo", 120, env)
            if rc: res["st"] = "nobuild"; continue
            rc, o = sh(f"go test -vet=off -timeout 20s -run '^({'|'.join(TESTS)})$' ./avc ./bufio ./collections ./hevc", f"{W}/repo", 90, env)
            if rc: res["st"] = "testkill"; continue
            rc, o = sh(f"go build -o {W}/vh .", f"{W}/harness", 200, env)
            if rc: res["st"] = "hbuild"; res["o"] = o[-300:]; continue
            ps = MAP.get(m["file"]) or MAP.get(os.path.dirname(m["file"])) or ""
            ps = ps.split()
            if a.full: ps = ps + [p for p in ALL if p not in ps]
            res["st"] = "survive"
            for p in ps:
                shutil.rmtree(f"{W}/d", ignore_errors=True); os.makedirs(f"{W}/d")
                rc, o = sh(f"{W}/vh -prop {p} -tier quick -seed {a.seed} -scale {a.scale} -workers 1 -bin {W}/vh -racebin /bin/true -verif {W}/v -dir {W}/d", W, a.timeout, env)
                if rc == "timeout": res["st"] = "hang"; res["prop"] = p; break
                if rc == 1 and "VIOLATION" in o:
                    res["st"] = "kill"; res["prop"] = p; break
                if rc not in (0, 1): res.setdefault("odd", []).append([p, rc, o[-120:]])
        finally:
            open(f, "wb").write(src); r.put(res)
    r.put(None)
def main():
    ap = argparse.ArgumentParser(); ap.add_argument("muts"); ap.add_argument("out"); ap.add_argument("--full", action="store_true")
    ap.add_argument("--scale", type=float, default=0.1); ap.add_argument("--workers", type=int, default=8); ap.add_argument("--seed", type=int, default=1)
    ap.add_argument("--timeout", type=int, default=150); ap.add_argument("--status", default=""); ap.add_argument("--file", default=""); a = ap.parse_args()
    ms = [json.loads(l) for l in open(a.muts)]
    todo = [(m.get("i", i), m) for i, m in enumerate(ms) if (not a.status or m.get("st") in a.status.split(",")) and (not a.file or m["file"].startswith(a.file))]
    done = set()
    if os.path.exists(a.out): done = {json.loads(l)["i"] for l in open(a.out)}
    todo = [t for t in todo if t[0] not in done]
    q, r = mp.Queue(), mp.Queue()
    for t in todo: q.put(({0:t[0]}[0], {k: t[1][k] for k in ("file","line","off","len","new","desc")}))
    for _ in range(a.workers): q.put(None)
    ws = [mp.Process(target=work, args=(k, q, r, a)) for k in range(a.workers)]
    for w in ws: w.start()
    left = a.workers
    with open(a.out, "a") as out:
        while left:
            x = r.get()
            if x is None: left -= 1
            else: out.write(json.dumps(x) + "\n"); out.flush()
main()
