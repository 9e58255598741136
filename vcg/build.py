"""real headers + contract wrappers -> simplified LLVM IR"""
import os, re, subprocess, sys, tempfile

HERE = os.path.dirname(os.path.abspath(__file__))
REPO = os.environ.get("SFL_REPO", "/repo")
PIPE = "cgscc(inline),function(sroa,early-cse,simplifycfg<keep-loops;no-hoist-common-insts;no-sink-common-insts;no-switch-to-lookup;no-forward-switch-cond;no-switch-range-to-icmp>),globaldce"


def build_ir(src, defs, keep, tmp, tag):
    """compile src; functions whose demangled name matches `keep` stay out of line"""
    ll = os.path.join(tmp, tag + ".ll")
    r = subprocess.run(["clang++", "-std=c++17", "-O1", "-Xclang", "-disable-llvm-passes", "-fno-discard-value-names", "-w",
                        "-DVC_PROVE", "-I", os.path.join(REPO, "include"), "-I", os.path.join(HERE, "..", "harness")]
                       + ["-D" + d for d in defs] + ["-emit-llvm", "-S", src, "-o", ll], capture_output=True, text=True)
    if r.returncode:
        raise RuntimeError("compile failed:\n" + r.stderr[-3000:])
    text = open(ll).read()
    names = re.findall(r'^define [^@]*@("?[^\s(]+"?)\(', text, re.M)
    dem = subprocess.run(["c++filt"], input="\n".join(n.strip('"') for n in names), capture_output=True, text=True).stdout.split("\n")
    kept = {n for n, d in zip(names, dem) if keep(d)}
    out = []
    for l in text.split("\n"):
        if l.startswith("define"):
            m = re.match(r'define [^@]*@("?[^\s(]+"?)\(', l)
            if m and m.group(1) in kept:
                l = re.sub(r'\)( (?:unnamed_addr|local_unnamed_addr))?( #\d+)', r')\1 noinline\2', l, count=0) if False else \
                    l[::-1].replace("# ", "# enilnion ", 1)[::-1]
        out.append(l)
    open(ll, "w").write("\n".join(out))
    o2 = os.path.join(tmp, tag + ".opt.ll")
    r = subprocess.run(["opt", "-S", "-passes=" + PIPE, "-inline-threshold=1000000", "-inlinehint-threshold=1000000",
                        "-inlinecold-threshold=1000000", "-inline-cold-callsite-threshold=1000000", ll, "-o", o2], capture_output=True, text=True)
    if r.returncode:
        raise RuntimeError("opt failed:\n" + r.stderr[-2000:])
    return open(o2).read()
