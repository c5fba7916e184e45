"""Writes MANIFEST.json: python3 -m vf.manifest"""
import json, os
from .base import VERIF

T = {
 "C01": ("TLA+ models (Signer, Bds) checked with TLC; recorded lives of real keys checked as behaviours of TraceKey",
         "Exhaustive TLC runs of the traversal model over whole lifetimes; every real signature of the lifetimes listed is judged by TLC. "
         "Bounded to small trees and prefixes of large ones; lifetimes run with a stand-in for the primitive hash functions, and with the real ones on smaller trees."),
 "C02": ("TLA+ model of the index field (Signer) checked with TLC at every start; real keys started anywhere, checked as behaviours of TraceKey",
         "All states of the index model for small fields; on the code: every carry, bit boundary, the end of the range and random indices, for every registered index width."),
 "C03": ("TLA+ model of exhaustion and wiping (Signer) checked with TLC; real keys at and past their end checked as behaviours of TraceKey",
         "All states of the index model for small fields; on the code: every registered set at its last indices and at many out-of-range ones, whole lives of small keys."),
 "C04": ("TLA+ symbolic adversary model (Verifier) checked with TLC; manipulated inputs given to the real verifiers, every verdict judged by TraceVerify and Oracle",
         "The scheme's design is model-checked over free terms; the code is driven through every single-bit, length and component manipulation on small keys and samples on all registered sets."),
 "C05": ("TLA+ trace specification (TraceKey, TracePair): both implementations driven in lockstep, TLC judges every pair",
         "Byte equality of keys and signatures at every index of the lives listed; bounded to small trees, prefixes and jumped-to far indices of large ones."),
 "C06": ("TLA+ byte-level definition of RFC 8391 / SP 800-208 (XmssRfc) evaluated by TLC against recorded keys and signatures",
         "Bit-for-bit recomputation for small trees and every registered set (parts that are affordable); message lengths around all block edges. Trusts the JDK's SHA-2 and the harness's Keccak, checked against known answers."),
 "C07": ("TLA+ table of the standards (XmssParams) evaluated by TLC against every name and identifier the library knows or refuses",
         "Complete for all registered names and identifiers and the whole 16-bit identifier range; samples of other strings and identifiers."),
 "C08": ("TLA+ model of digits and checksum (Wots) checked with TLC; chain positions of real one-time signatures judged by TLC",
         "Domination-freeness checked exhaustively on small parameters and reduced to a checksum inequality for the real ones; the code's chain positions are observed on structured and random values."),
 "C09": ("TLA+ trace specification (TraceKey with layers): every upper-layer one-time signature of recorded lives judged by TLC",
         "Whole lives of small multi-tree keys and prefixes past tree switches of registered sets; far-away indices by jumping."),
 "C10": ("TLA+ model of the signing tool, its file and crashes (SignTool) checked with TLC; the real tool killed and failed at every system call, histories judged by TraceSpent",
         "Every system call of the tool is a crash and fault point; concurrency by repeated contention and forced overlaps. File-system durability below the system-call level is out of scope."),
 "C11": ("TLA+ model of the tools and their files (Tools) checked with TLC; its behaviours, generated by TLC, replayed on the real tools, outcomes judged by TraceTools",
         "Round trips for affordable sets with both builds of every tool; malformed, truncated and foreign files of every kind."),
 "C12": ("TLA+ model of what each call may touch (Frame); real calls between guard pages, canaries and under ASan, judged by TraceFrame",
         "Every call on the configurations listed: exact-size buffers at page ends, canaries before, sanitizer builds."),
 "C13": ("TLA+ model of the random source loop (Rng) checked with TLC; its behaviours replayed into the real library through a scripted device",
         "All schedules of failing opens and short, empty or failing reads up to a bound, generated by TLC and replayed; layouts of keys judged by TLC."),
 "C14": ("TLA+ model of sessions (Sessions): its behaviours, generated by TLC, are replayed into the real library; results judged by TraceSessions",
         "Bounded to the session histories generated (interleavings, saves, restores, other processes, threads)."),
 "C15": ("TLA+ model of BDS traversal work (Bds) checked with TLC; hash-call counts of the real signer judged by TraceKey and TraceBds",
         "Work of every signature of the lives listed is bounded, and on small trees equal to the model's; far-away positions by jumping."),
 "C17": ("TLA+ model of the places of a key and their addresses (Places) checked with TLC; all hash calls of recorded lives, by address, judged by TracePlaces",
         "Injectivity over all places and histories of small keys; on the code: whole lives of small keys of both implementations, indices far apart of tall ones. "
         "Hash calls are seen at the primitive functions, which are stand-ins."),
 "C18": ("TLA+ model of the sponge (Sponge) checked with TLC and Keccak-f[1600] written in TLA+ (Keccak); recorded calls of the real functions judged by TraceShake",
         "Every input and every output length up to two blocks and a bit, samples beyond; Keccak evaluated by TLC for each call. Inputs over 4 GiB only compared with each other."),
 "C16": ("TLA+ model of keys as a function of seeds (SeedKey) checked with TLC; recorded derivations and generations judged by TraceSeedKey, values by XmssRfc",
         "Several seeds per shape, among them ones that differ in one bit of one part; any order of calls, several processes; values recomputed for small trees."),
}


def main():
    checks = []
    for pid, (tech, note) in sorted(T.items()):
        if not os.path.exists(os.path.join(VERIF, "vf", "checks", pid.lower() + ".py")):
            continue
        checks.append({"property": pid, "quick_cmd": "python3 -m vf.run %s" % pid,
                       "thorough_cmd": "VERIF_TIER=thorough python3 -m vf.run %s" % pid,
                       "technique": tech, "level": "model_checking", "level_note": note})
    have = {c["property"] for c in checks}
    m = {"version": 1, "setup_cmd": "python3 -m vf.setup",
         "hooks": {"guard": "none", "enable": "no hooks: the harness links /repo's sources as they are", "source_commits": []},
         "checks": checks,
         "not_applicable": [{"property": p, "reason": "check not finished yet"} for p in sorted(T) if p not in have],
         "notes": "TLA+/TLC; see DESIGN.md"}
    with open(os.path.join(VERIF, "MANIFEST.json"), "w") as f:
        json.dump(m, f, indent=1)
        f.write("\n")


if __name__ == "__main__":
    main()
