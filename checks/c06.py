"""C06: the release and the debug build of the native core do the same."""
from sa import cxx, cxxdiff

TECHNIQUE = "differential analysis of the two preprocessed programs (statement alignment, effect analysis of what one build has alone, exception reachability)"
NOTE = ("Both configurations are parsed with clang; functions, lambdas and statements are paired by source position and every instantiation is compared. A statement only the debug build has must write to nothing but variables of debug-only statements, draw no random number and not return or break; nothing may be only in the release build that has an effect; all other nodes must be equal, callee and type included. No function that the release build declares noexcept may reach a throw of the core's own (virtual calls included); exceptions of the standard library, such as running out of memory, are not considered.")


def run(c):
    cxx.prepare()
    debug, release = cxx.load(False), cxx.load(True)
    P = cxxdiff.Pair(debug, release)
    P.run()
    c.analysed["functions present in both builds"] = P.counts["function"]
    c.analysed["lambda bodies compared"] = P.counts["lambda"]
    c.analysed["debug-only statements"] = P.counts["debug-only"]
    c.analysed["release-only statements"] = P.counts["release-only"]
    for k in ("function", "lambda", "debug-only", "release-only"):
        for _ in range(P.counts[k]):
            c.instance("builds/" + k, k)
    for (rule, key), (where, msg) in P.out.items():
        c.violation(rule, key, where, msg)
    n = 0
    for f, path, node in cxxdiff.noexcept_reach(release):
        n += 1
        c.instance("noexcept", f"{f['n']} {release.where(f)}")
        if path:
            c.violation("noexcept", f"{f['n']}:{f['file'].split('/')[-1]}", release.where(f),
                        f"{f['n']} is noexcept in a release build but reaches a throw at {release.where(release.fun[next(i for i, g in release.fun.items() if any(x is node for x in cxx.walk(g['body'])))], node['l'])}: " + " -> ".join(path))
    c.analysed["noexcept functions"] = n
    c.require("builds/function", 1)
    c.require("noexcept", 1)
