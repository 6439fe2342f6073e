#!/usr/bin/env python3
"""Builds the monitors against /repo's working tree and runs one property.

  check.py C07                  (tier and seed from VERIF_TIER and VERIF_SEED)
  check.py C07 --replay FILE    runs the one case a replay file names
  check.py --setup              builds everything

Exit 0: held on all that was run.  Exit 1 and a VIOLATION line: broken.
Exit 2: no verdict (build failure, harness error, crash which does not repeat,
or too little was observed).
"""
import fcntl
import glob
import json
import os
import shutil
import signal
import subprocess
import sys
import tempfile
import time

VERIF = os.path.dirname(os.path.abspath(__file__))
REPO = "/repo"
TARGET = os.path.join(VERIF, "target")
REPLAY = os.path.join(VERIF, "replay")
EVIDENCE = os.path.join(VERIF, "evidence")
KNOWN = os.path.join(VERIF, "known-findings.txt")
TRIPLE = "x86_64-unknown-linux-gnu"
THREADS = max(2, min(8, os.cpu_count() or 2))

# property: cases of a quick run, statistics which must not be zero, how cases
# are made and what makes one count as distinct and non-trivial
PLAN = {
    "C01": (500_000, ["steps_compared", "pixels_compared", "with_index_255", "with_local_palette_change",
                      "with_preset_global_palette"],
            "Random animations of indexed steps (sizes, palettes, patterns, disposal, transparency, delays, loops) are "
            "encoded and decoded; non-trivial: decoded to at least one step and compared pixel by pixel, distinct by "
            "the encoded bytes."),
    "C02": (500_000, ["frames_compared", "preambles_compared", "blocks_unknown_ext", "blocks_local_table"],
            "Random well-formed block and frame sequences are encoded and read back; distinct by the encoded bytes."),
    "C03": (400_000, ["step_encodings", "frame_encodings", "lzw_codes", "lzw_clear_codes"],
            "Random step and frame sequences are encoded and the bytes read by an independent strict GIF reader; "
            "distinct by the encoded bytes."),
    "C04": (400_000, ["streams_accepted", "streams_rejected_invalid", "streams_rejected_incomplete",
                      "lzw_codes_with_full_table", "lzw_self_referencing_codes", "lzw_files_over_65536_codes",
                      "streams_steered_to_width_changes"],
            "LZW streams made by a separate encoder with every legal liberty, raw random code streams and damaged "
            "ones; distinct by the file bytes."),
    "C05": (800_000, ["bytes_decoded", "blocks_unknown_ext", "blocks_plain_text"],
            "Random files from a separate serializer, all blocks compared; distinct by the file bytes."),
    "C06": (800_000, ["frames_compared", "preambles_compared", "layout_extensions_inserted",
                      "rejected_block_sequences"],
            "Random block layouts (valid and not) decoded as frames with and without preamble; distinct by the file "
            "bytes."),
    "C07": (700_000, ["steps_compared", "frames_interlaced", "frames_with_transparent_pixels", "disposal_2",
                      "disposal_3", "disposal_pair_3_2", "disposal_pair_2_3"],
            "Random animations composited by an independent model and compared pixel by pixel; distinct by the file "
            "bytes."),
    "C08": (300_000, ["steps_watched", "animations_looping_for_ever", "animations_without_loop_extension"],
            "Random animations with every kind of loop count played to the end (forever: several rounds); distinct by "
            "the file bytes."),
    "C09": (900_000, ["bytes_fed", "inputs_logged", "error_InvalidLzw", "error_UnexpectedEof"],
            "Hostile byte strings at all levels and limits; non-trivial: not empty, distinct by bytes."),
    "C10": (250_000, ["truncation_points", "block_error_UnexpectedEof", "block_error_InvalidLzw",
                      "step_error_ColorIndex", "step_error_FrameDims", "step_error_MissingTable"],
            "Every truncation of random files, and random malformations; distinct by the file bytes."),
    "C11": (1_500_000, ["step_errors", "frame_errors", "block_errors", "looping_with_steps_before_error"],
            "Damaged files at all four levels, with the calls after the error recorded; distinct by the file bytes."),
    "C12": (50_000, ["schedules", "read_faults_injected", "interrupted_reads", "short_reads"],
            "Random files delivered by random read schedules, and with a fault at every offset; distinct by the file "
            "bytes."),
    "C13": (12_000, ["write_faults_injected", "interrupted_writes", "short_writes", "faults_met_in_drop"],
            "Random encoding programs with random write schedules and a fault at every output offset; distinct by the "
            "output bytes."),
    "C14": (50_000, ["bombs", "boundary_trials", "screen_boundary_trials", "default_limit_trials",
                     "oversize_images", "oversize_screens", "long_animations", "late_oversize_images"],
            "Images and screens around the limit, compression bombs, huge declared sizes, long animations, under an "
            "allocation monitor; distinct by size and content."),
    "C15": (300_000, ["exhaustive_call_sequences", "calls_refused", "steps_refused", "trailers_seen",
                      "encoders_dropped_unused"],
            "All frame-encoder call sequences up to length 6, random longer ones and random step sequences; distinct "
            "by the calls made and their outcome."),
    "C16": (200_000, ["field_assertions", "flag_bytes_enumerated"],
            "All 256 flag bytes with all setters, all table lengths and loop counts, and random setter sequences; "
            "distinct by flag byte or setter sequence."),
    "C17": (8_000, ["files_reported", "frame_lines_compared", "invocations_failing_as_expected"],
            "The built command run on random good, damaged and missing files; distinct by the expected report."),
    "C18": (60_000, ["allocation_balances", "workload_c09", "workload_c13"],
            "The workloads of the other properties under AddressSanitizer and an allocation monitor, smaller ones "
            "under Miri; distinct by the bytes of the files and encodings used."),
    "C19": (80_000, ["interleaved_calls", "concurrent_runs", "clones_compared"],
            "Sets of 2 to 7 decoders and encoders run alone, again, interleaved call by call, and on several threads; "
            "distinct by the first file and the number of instances."),
    "C20": (8_000, ["decoding_pairs", "encoding_pairs", "processor_time_pairs"],
            "Pairs of inputs of one shape, one 16 times the size of the other, decoded at five levels or encoded under "
            "an allocation monitor and a processor-time clock; distinct by shape, size and content."),
    "C21": (80_000, ["images_measured", "images_of_several_sub_blocks", "steps_without_local_table",
                     "steps_without_control", "frame_encodings"],
            "Random animations and frames are encoded and the size of every part compared with what an independent "
            "greedy encoder needs; distinct by the encoded bytes."),
    "C22": (6_000, ["encoding_examples_run", "dec_block_runs", "dec_frame_runs", "dec_raster_runs", "files_refused"],
            "The example programs built from the repository, run in scratch directories on random good, damaged and "
            "missing files; distinct by program and file bytes."),
    "C23": (150_000, ["blocks_copied", "frames_copied", "steps_shown_by_copies"],
            "Random valid files copied block by block and frame by frame, and the copies copied again; distinct by the "
            "file bytes."),
}
# results must come: a case over its processor-time budget (thousands of times
# what it needs), twice, is a violation
MUST_END = {"C01", "C02", "C03", "C04", "C05", "C06", "C07", "C08", "C09", "C10", "C11", "C12", "C13", "C15", "C19",
            "C20", "C21", "C23"}
# programs of the repository which are run as they are
PROGRAM = {"C17": "bin", "C22": "examples"}
LEVEL = {"C12": "fault_enumeration", "C13": "fault_enumeration"}
CRASH = (signal.SIGABRT, signal.SIGSEGV, signal.SIGBUS, signal.SIGILL, signal.SIGFPE, signal.SIGTRAP)


class NoVerdict(Exception):
    pass


def env(**more):
    e = {k: v for k, v in os.environ.items()
         if not k.startswith("CARGO_") and k not in ("RUSTFLAGS", "RUSTC_WRAPPER", "RUST_LOG", "MIRIFLAGS")}
    e.update(RUSTUP_TOOLCHAIN="stable", CARGO_NET_OFFLINE="true", CARGO_INCREMENTAL="0", RUST_BACKTRACE="0",
             CARGO_TERM_COLOR="never")
    if "CARGO_HOME" in os.environ:
        e["CARGO_HOME"] = os.environ["CARGO_HOME"]
    e.update(more)
    return e


def run(cmd, cwd, e, what):
    p = subprocess.run(cmd, cwd=cwd, env=e, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True,
                       errors="replace")
    if p.returncode != 0:
        print(p.stdout[-4000:])
        raise NoVerdict(f"{what} failed")


def forget(pattern):
    """Make cargo look at the sources again, whatever their times are"""
    for d in glob.glob(os.path.join(TARGET, pattern)):
        shutil.rmtree(d, ignore_errors=True)


class Lock:
    def __enter__(self):
        os.makedirs(TARGET, exist_ok=True)
        self.f = open(os.path.join(TARGET, ".check-lock"), "w")
        fcntl.flock(self.f, fcntl.LOCK_EX)

    def __exit__(self, *_):
        self.f.close()


def build(kind, into):
    """Build from /repo's working tree; returns a private copy of the program"""
    harness = os.path.join(VERIF, "harness")
    with Lock():
        if kind in ("checked", "release"):
            forget(f"{kind}/.fingerprint/gift-*")
            run(["cargo", "build", "--offline", "--profile", kind, "--target-dir", TARGET], harness, env(),
                f"building the monitors ({kind})")
            src = os.path.join(TARGET, kind, "gift-monitors")
        elif kind == "asan":
            forget(f"asan/{TRIPLE}/release/.fingerprint/gift-*")
            run(["cargo", "+nightly", "build", "--offline", "--release", "--target", TRIPLE, "--target-dir",
                 os.path.join(TARGET, "asan")], harness,
                env(RUSTFLAGS="-Zsanitizer=address", RUSTUP_TOOLCHAIN="nightly"), "building with AddressSanitizer")
            src = os.path.join(TARGET, "asan", TRIPLE, "release", "gift-monitors")
        elif kind == "bin":
            forget("bin/release/.fingerprint/gift-*")
            run(["cargo", "build", "--offline", "--locked", "--release", "-p", "gift-bin", "--target-dir",
                 os.path.join(TARGET, "bin")], REPO, env(), "building the gift command")
            src = os.path.join(TARGET, "bin", "release", "gift")
        elif kind == "examples":
            forget("bin/release/.fingerprint/gift-*")
            run(["cargo", "build", "--offline", "--locked", "--release", "-p", "gift", "--examples", "--target-dir",
                 os.path.join(TARGET, "bin")], REPO, env(), "building the example programs")
            src = os.path.join(TARGET, "bin", "release", "examples")
            if into:
                dst = os.path.join(into, kind)
                os.mkdir(dst)
                for f in glob.glob(os.path.join(REPO, "gift", "examples", "*.rs")):
                    name = os.path.splitext(os.path.basename(f))[0]
                    shutil.copy2(os.path.join(src, name), dst)
                return dst
        elif kind == "miri":
            forget(f"miri/miri/{TRIPLE}/debug/.fingerprint/gift-*")
            # running no case builds the program and its sysroot
            run(miri_cmd(0, 0, 0, ""), harness, miri_env(), "building for Miri")
            return ""
        if not into:
            return src
        dst = os.path.join(into, f"{kind}-{os.path.basename(src)}")
        shutil.copy2(src, dst)
        return dst


def miri_env():
    return env(MIRIFLAGS="-Zmiri-disable-isolation", RUSTUP_TOOLCHAIN="nightly")


def miri_cmd(seed, first, n, out):
    c = ["cargo", "+nightly", "miri", "run", "--offline", "--target-dir", os.path.join(TARGET, "miri"), "--",
         "C18", "--tiny", "--seed", str(seed), "--first", str(first), "--cases", str(n)]
    return c + (["--out", out] if out else [])


class Run:
    """One run of the monitors"""

    def __init__(self, prop, prog, profile, scratch, gift):
        self.prop, self.prog, self.profile, self.scratch, self.gift = prop, prog, profile, scratch, gift

    def cmd(self, seed, first, cases, threads, limit, floor, out, replay):
        return [self.prog, self.prop, "--seed", str(seed), "--first", str(first), "--cases", str(cases), "--threads",
                str(threads), "--time", str(limit), "--min", str(floor), "--out", out, "--replay", replay,
                "--bin", self.gift, "--scratch", self.scratch]

    def go(self, seed, cases, limit, floor):
        """Returns (statistics, violation or None)"""
        out = os.path.join(self.scratch, f"stats-{self.profile}.json")
        replay = os.path.join(REPLAY, self.prop)
        os.makedirs(replay, exist_ok=True)
        e = env(ASAN_OPTIONS="detect_leaks=0:abort_on_error=1:allocator_may_return_null=1")
        p = subprocess.run(self.cmd(seed, 0, cases, THREADS, limit, floor, out, replay), env=e,
                           stdout=subprocess.PIPE, stderr=subprocess.PIPE, text=True, errors="replace")
        slots = []
        for f in glob.glob(os.path.join(replay, f"slot-{self.prop}-*")):
            try:
                t = open(f).read().strip()
                if t:
                    slots.append(int(t))
            except (OSError, ValueError):
                pass
            os.unlink(f)
        if p.returncode == 0:
            return json.load(open(out)), None
        print(f"[{self.profile}] " + p.stdout[-3000:])
        if p.returncode == 1:
            path = ""
            for line in p.stdout.splitlines():
                if line.startswith("FAIL ") and "replay=" in line:
                    path = line.split("replay=", 1)[1].strip()
                    break
            return (json.load(open(out)) if os.path.exists(out) else {}), path or replay
        if p.returncode == 3:
            idx = [int(x.split("case=")[1].split()[0]) for x in p.stdout.splitlines() if x.startswith("HANG case=")]
            if self.prop in MUST_END and idx:
                again = subprocess.run(self.cmd(seed, idx[0], 1, 1, 1e9, 1, out, replay), env=e,
                                       stdout=subprocess.PIPE, stderr=subprocess.PIPE, text=True, errors="replace")
                if again.returncode == 3:
                    return {}, self.note(seed, idx[0], "does not end: uses more processor time than allowed")
            raise NoVerdict("a case used too much processor time")
        if p.returncode < 0 and -p.returncode in CRASH:
            print(p.stderr[-3000:])
            for idx in sorted(slots):
                again = subprocess.run(self.cmd(seed, idx, 1, 1, 1e9, 1, out, replay), env=e,
                                       stdout=subprocess.PIPE, stderr=subprocess.PIPE, text=True, errors="replace")
                if again.returncode < 0 and -again.returncode in CRASH:
                    print(again.stderr[-3000:])
                    return {}, self.note(seed, idx, f"the process dies with signal {-again.returncode}: "
                                         + again.stderr[-1500:])
            raise NoVerdict(f"the monitors died with signal {-p.returncode}, but no single case repeats it")
        print(p.stderr[-3000:])
        raise NoVerdict(f"the monitors ended with status {p.returncode}")

    def note(self, seed, idx, msg):
        path = os.path.join(REPLAY, self.prop, f"{self.prop}-{self.profile}-{seed}-{idx}-crash.json")
        with open(path, "w") as f:
            json.dump({"property": self.prop, "seed": seed, "index": idx, "profile": self.profile, "message": msg}, f)
        return path


def known_keys(prop):
    keys = {}
    if os.path.exists(KNOWN):
        for line in open(KNOWN):
            w = line.split()
            if len(w) > 2 and w[0] == "known:" and w[1] == f"property={prop}" and w[2].startswith("key="):
                keys[w[2][4:]] = " ".join(w[3:])
    return keys


def miri(seed, cases, procs, scratch):
    """Small cases under Miri; returns (cases, statistics, violation or None)"""
    ps = []
    each = cases // procs
    for i in range(procs):
        out = os.path.join(scratch, f"miri-{i}.json")
        log = open(os.path.join(scratch, f"miri-{i}.log"), "w+")
        ps.append((i, out, log, subprocess.Popen(miri_cmd(seed, i * each, each, out),
                                                 cwd=os.path.join(VERIF, "harness"), env=miri_env(), stdout=log,
                                                 stderr=subprocess.STDOUT)))
    done, stats, bad = 0, {}, None
    for i, out, log, p in ps:
        rc = p.wait()
        log.seek(0)
        text = log.read()
        log.close()
        if rc == 0:
            d = json.load(open(out))
            done += d["cases"]
            for k, v in d["stats"].items():
                stats[k] = stats.get(k, 0) + v
        elif "Undefined Behavior" in text or "error: memory leaked" in text or rc == 1 and "FAIL case=" in text:
            print(text[-4000:])
            path = os.path.join(REPLAY, "C18", f"C18-miri-{seed}-{i}.json")
            os.makedirs(os.path.dirname(path), exist_ok=True)
            with open(path, "w") as f:
                json.dump({"property": "C18", "profile": "miri", "seed": seed, "index": i * each, "cases": each,
                           "message": text[-3000:]}, f)
            bad = path
        else:
            print(text[-3000:])
            raise NoVerdict(f"Miri ended with status {rc}")
    return done, stats, bad


def evidence(prop, tier, seed, cov, wall, violations):
    os.makedirs(EVIDENCE, exist_ok=True)
    d = {"property": prop, "tier": tier, "seed": seed, "level": LEVEL.get(prop, "exploration"), "coverage": cov,
         "wall_s": round(wall, 1), "violations": violations,
         "assumptions": ["the reference models in harness/src/refgif.rs follow the GIF89a specification",
                         "behaviour is observed only on the executions counted here"]}
    tmp = os.path.join(EVIDENCE, f".{prop}.tmp")
    with open(tmp, "w") as f:
        json.dump(d, f, indent=1)
    os.replace(tmp, os.path.join(EVIDENCE, f"{prop}.json"))


def check(prop, tier, seed):
    t0 = time.time()
    cases, need, rule = PLAN[prop]
    limit, floor = 150, max(200, cases // 40)
    if tier == "thorough":
        cases, limit = cases * 20, 330
    os.makedirs(TARGET, exist_ok=True)
    scratch = tempfile.mkdtemp(prefix="scratch-", dir=TARGET)
    cov = {"evaluations": 0, "distinct_nontrivial": 0, "rule": rule, "samples": [], "builds": {}}
    bad = None
    try:
        gift = build(PROGRAM[prop], scratch) if prop in PROGRAM else ""
        if prop == "C18":
            kinds = [("checked", 1), ("asan", 1)]
        elif prop == "C16" or prop in PROGRAM:
            kinds = [("checked", 1)]
        else:
            kinds = [("checked", 1), ("release", 2)]
        digests = []
        stats_all = {}
        known_seen = {}
        for kind, div in kinds:
            r = Run(prop, build(kind, scratch), kind, scratch, gift)
            # the builds must do the same cases when their results are compared
            s = seed if prop == "C18" or div == 1 else seed + 1_000_003
            lim = 1e9 if prop == "C18" and tier == "quick" else limit / div
            n = min(cases, 600_000) if prop == "C18" else cases // div
            if prop == "C18":
                lim = 1e9
            st, bad = r.go(s, n, lim, floor // div)
            cov["builds"][kind] = {"cases": st.get("cases", 0), "distinct": st.get("distinct", 0),
                                   "observed": st.get("stats", {}), "maxima": st.get("maxes", {}), "seed": s}
            cov["evaluations"] += st.get("cases", 0)
            # the same cases again count only once
            if prop != "C18" or kind == "checked":
                cov["distinct_nontrivial"] += st.get("distinct", 0)
            cov["samples"] += st.get("samples", [])[:3]
            digests.append((st.get("cases"), st.get("digest")))
            for k, v in st.get("stats", {}).items():
                stats_all[k] = stats_all.get(k, 0) + v
            for k, v in st.get("known", {}).items():
                known_seen.setdefault(k, v["example"])
            if bad:
                break
        if prop == "C18" and not bad:
            if digests[0] != digests[1]:
                bad = r.note(seed, 0, f"results differ between builds: {digests}")
                print(f"results differ between builds: {digests}")
            else:
                build("miri", "")
                procs = max(1, THREADS - 1)
                done, ms, bad = miri(seed, procs * (25 if tier == "quick" else 500), procs, scratch)
                cov["builds"]["miri"] = {"cases": done, "observed": ms}
                cov["evaluations"] += done
                if not bad and done == 0:
                    raise NoVerdict("Miri ran no case")
        listed = known_keys(prop)
        if not bad:
            if prop == "C18":
                known_seen = {}
            for k, ex in known_seen.items():
                if k not in listed:
                    bad = Run(prop, "", "checked", scratch, "").note(seed, 0, f"{k}: {ex}")
                    print(f"{k}: {ex}")
        if not bad:
            missing = [k for k in need if not stats_all.get(k)]
            if missing:
                raise NoVerdict(f"nothing observed for {missing}")
            if cov["evaluations"] < floor:
                raise NoVerdict(f"only {cov['evaluations']} cases were run")
            for k, ex in known_seen.items():
                print(f"KNOWN-FINDING: property={prop} {listed[k]}")
                cov.setdefault("known_findings", {})[k] = ex[:400]
        evidence(prop, tier, seed, cov, time.time() - t0, 1 if bad else 0)
    finally:
        shutil.rmtree(scratch, ignore_errors=True)
    if bad:
        print(f"VIOLATION property={prop} replay={bad}")
        return 1
    print(f"{prop} held: {cov['evaluations']} cases, {cov['distinct_nontrivial']} distinct, {time.time() - t0:.0f} s")
    return 0


def replay(prop, path):
    d = json.load(open(path))
    os.makedirs(TARGET, exist_ok=True)
    scratch = tempfile.mkdtemp(prefix="scratch-", dir=TARGET)
    try:
        if d.get("profile") == "miri":
            build("miri", "")
            p = subprocess.run(miri_cmd(d["seed"], d["index"], d["cases"], ""), cwd=os.path.join(VERIF, "harness"),
                               env=miri_env())
        else:
            gift = build(PROGRAM[prop], scratch) if prop in PROGRAM else ""
            r = Run(prop, build(d.get("profile", "checked"), scratch), d.get("profile", "checked"), scratch, gift)
            p = subprocess.run(r.cmd(d["seed"], d["index"], 1, 1, 1e9, 1, os.path.join(scratch, "out"),
                                     os.path.join(REPLAY, prop)))
    finally:
        shutil.rmtree(scratch, ignore_errors=True)
    if p.returncode == 1 or -p.returncode in CRASH or p.returncode == 3 and prop in MUST_END:
        print(f"VIOLATION property={prop} replay={path}")
        return 1
    return 0 if p.returncode == 0 else 2


def main():
    a = sys.argv[1:]
    try:
        if a == ["--setup"]:
            for k in ("checked", "release", "bin", "examples", "asan", "miri"):
                build(k, "")
            return 0
        if not a or a[0] not in PLAN:
            print(__doc__)
            return 2
        if len(a) == 3 and a[1] == "--replay":
            return replay(a[0], a[2])
        tier = os.environ.get("VERIF_TIER", "quick")
        seed = int(os.environ.get("VERIF_SEED", "1") or 1)
        return check(a[0], tier if tier in ("quick", "thorough") else "quick", seed)
    except NoVerdict as e:
        print(f"NO VERDICT: {e}")
        return 2


if __name__ == "__main__":
    sys.exit(main())
