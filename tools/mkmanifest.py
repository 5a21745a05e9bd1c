import json
props=[json.loads(l) for l in open("/verif/properties.jsonl")]
note={
"C11":"Reachability over the symbolic heap as a garbage collector would trace it (typed pointer words only), from the handle and the package's variables.",
"C20":"Reachability over the symbolic heap as a garbage collector would trace it (typed pointer words only); a collection is considered after every operation and inside Mod and All callbacks.",
"C12":"Two readers: their memory footprints on every symbolic path must not conflict, which covers every interleaving of the two; confirmed natively under the race detector.",
"C13":"Two parties on two containers: their memory footprints on every symbolic path must not conflict, which covers every interleaving of the two; confirmed natively under the race detector.",
"C14":"The keys are symbolic; on these paths the engine's term simplifier decides every assertion before the solver is needed.",
"C15":"Keys of fixed lengths with arbitrary bytes, seeds and listed repeat counts; most assertions are decided by the engine's term simplifier.",
}
base="Holds for every key, value and hash value within the bounds listed in the evidence (number of operations, shared hash digits, node width); the hash function is an arbitrary function of seed and bytes. Every memory access and panic on the way is checked too. Trusted: go/ssa, the engine's semantics (sampled paths are replayed on the compiled code and compared), z3."
checks=[]
for p in props:
    i=p["id"]
    if i=="C21": continue
    checks.append({"property":i,"quick_cmd":f"./check.sh {i} quick","thorough_cmd":f"./check.sh {i} thorough",
      "evidence_file":f"evidence/{i}.json",
      "technique":"symbolic execution of the real Go SSA with an SMT solver (z3), counterexamples replayed natively",
      "level":"model_checking","level_note":(note[i]+" " if i in note else "")+base})
m={"version":1,"setup_cmd":"./check.sh setup","checks":checks,
 "not_applicable":[{"property":"C21","reason":"A statement about probability over hash seeds for unbounded N; a bounded solver query over arbitrary hash values can only show the worst case, which is not logarithmic. C08 and C09 decide what the depth is for given hash values."}],
 "notes":"No hooks in /repo: harnesses use the public API only; the stand-in for hash/maphash of native replays comes in through go build -overlay."}
json.dump(m,open("/verif/MANIFEST.json","w"),indent=1); open("/verif/MANIFEST.json","a").write("\n")
