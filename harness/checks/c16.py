"""C16: a unit document registers exactly the units and spellings it declares."""
from .. import core, documents, gen, judging, real

CLAUSES = {"accepted", "error", "kind", "refused", "denotes", "dimensionality", "dimensionless", "time"}


def decoded(x):
    """An element of a document which the specification has written."""
    if isinstance(x, list):
        return core.text(x) if x and isinstance(x[0], int) else [decoded(y) for y in x]
    if isinstance(x, dict):
        return {k: decoded(v) or ("" if k == "d" else v) for k, v in x.items()}
    return x


def run(check):
    rng = gen.rng_for(check.seed, "C16")
    docs = documents.fixed()
    r = check.model_check("MC_Document", "MC_Document4" if check.thorough else "MC_Document")
    behaviours = [core.Document(decoded(doc)) for _, doc in r.lines("DOC") if doc]
    check.cov["behaviours_replayed"] = len(behaviours)
    docs += behaviours
    make = documents.Maker(rng)
    n = check.scale(350, 4000)
    docs += [make.document(rng.randint(1, 9), broken=0.1, clash=0.15, extra=0.35) for _ in range(n)]
    work = [(d, f"{check.seed}/{i}/{j}", strict) for i, d in enumerate(docs) for j, strict in enumerate((False, True, False))]
    recs = core.parallel(documents.loading, work)
    j = core.judge("JudgeDocument", recs)
    check.saw(j)
    check.validated(len(recs), "documents")
    for i, bad in sorted(j.bad.items()):
        doc, seed, strict = work[i]
        check.violation("+".join(sorted(bad)), strict=strict, got=recs[i]["r"], message=recs[i]["_message"],
                        document=documents.Writer(seed).write(doc).decode("utf-8", "replace"))
    ok = [i // 3 for i, r in enumerate(recs) if i % 3 == 0 and r["r"] == "ok" and i not in j.bad]
    check.cov["documents_loaded"] = len(ok)
    for part in range(0, len(ok), 400):
        systems = [docs[i] for i in ok[part:part + 400]]
        cases = []
        for k, d in enumerate(systems):
            some = documents.words(rng, d)
            cases += [(k, w) for w in (some if len(some) < 45 or part == 0 and k < 60 else rng.sample(some, 45))]
        judging.units(check, systems, cases, CLAUSES)
