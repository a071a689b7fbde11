"""C26: the shared cache of transform tables of a derived field"""
import re
from common import *
import ntt
from ntt import WIDTHS
STD = r"(?::: )?(?:std|alloc|core) :: (?:sync|default|collections) :: "
def locks(body, f):
    """the mutex guard is bound at the top level of the body, so it is held until the function returns"""
    m = re.search(r"let (\w+) = NTT_MUTEX\w+\s*\.\s*lock\s*\(\s*\)\s*\.\s*unwrap\s*\(\s*\)\s*;", body)
    if not m or m.group(1) == "_" or body[:m.start()].count("{") - body[:m.start()].count("}") != 1:
        return body
    return body[:m.start()] + "vlock(st);" + body[m.end():]
SUB = [(locks, None),
       (r"NTT_TABLE\w+\s*\.\s*get_or_init\s*\([^()]*\)", "vtab()"),
       (r"\.\s*read\s*\(\s*\)\s*\.\s*unwrap\s*\(\s*\)", ".vread(st)"), (r"\.\s*write\s*\(\s*\)\s*\.\s*unwrap\s*\(\s*\)", ".vwrite(st)"),
       (r"\.\s*insert\s*\(", ".insert(st, "), (r"\binit_ntt_table\s*\(", "init_ntt_table(st, ")]
TY = [(r"\bSelf\s*::\s*Table\b", "NTTTable"), (r"\bSelf\b", "Fe"), (r"(?:algebra\s*::\s*)?AlgebraError\s*::\s*NoPrimitiveRoot\s*\{[^}]*\}", "AlgebraError::NoPrimitiveRoot")]
def cache(v, w, X, CR):
    v.include("cache.rs", w)
    g = lambda f, **k: v.fn("NTTField for " + X, f, env=w, crate=CR, free=True, method_of="Fe", cname=f, tysub=TY, body_subst=SUB, xparams="st: &mut St", **k)
    lim = lambda k: "%s < 61 && 2 * pow2(%s as nat) <= $MAX" % (k, k)
    g("init_ntt_table", pre=["st_ok(*old(st))", "!old(st).held@", "forall|i: int| 0 <= i < $0.len() ==> " + lim("#[trigger] $0[i]").replace("pow2(#[trigger] $0[i]", "pow2($0[i]")],
      post=["grew(*old(st), *final(st))", "$r is Ok ==> forall|i: int| 0 <= i < $0.len() ==> final(st).known@.contains_key(#[trigger] $0[i]) && good($0[i], final(st).known@[$0[i]])"],
      loops={0: dict(inv=["0 <= __i0 <= __n0", "__n0 == log_ns@.len()", "st.held@", "st_ok(*st)", "inv(st.cur@)", "ext(old(st).known@, st.known@)",
                          "forall|i: int| 0 <= i < log_ns@.len() ==> " + lim("#[trigger] log_ns@[i]").replace("pow2(#[trigger] log_ns@[i]", "pow2(log_ns@[i]"),
                          "forall|i: int| 0 <= i < __i0 ==> st.known@.contains_key(#[trigger] log_ns@[i]) && good(log_ns@[i], st.known@[log_ns@[i]])"])})
    g("get_ntt_table", pre=["st_ok(*old(st))", "!old(st).held@", lim("$0")],
      post=["grew(*old(st), *final(st))", "$r matches Ok(t) ==> good($0, *t) && final(st).known@.contains_key($0) && *t == final(st).known@[$0]",
            "$r matches Ok(t) ==> (old(st).known@.contains_key($0) ==> *t == old(st).known@[$0])"])
def file(f):
    w = WIDTHS[[x["T"] for x in WIDTHS].index(f["T"])]
    v = ntt.root(w, f["X"], f["CR"], f["P"]); v.name = "c26_" + f["X"]
    cache(v, w, f["X"], f["CR"])
    return v
def build():
    from derived import FIELDS
    return [file(f) for f in FIELDS]
