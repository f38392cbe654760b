"""What each check runs.  A plan yields (variant, label, scenarios, model statistics)."""
import concurrent.futures, os, threading
import build
from stages import *

_exe = {}
# how each variant of the driver is built: ISO 8859 implementation, harness, objects of the tools
VARIANTS = {"boost": dict(iso8859="boost"), "iconv": dict(iso8859="iconv"), "simple": dict(iso8859="simple"),
            "pcsc": dict(src="pcscdrv.c", objs=("pcsc.c.o",), extra=("-I/usr/include/PCSC",)),
            "tools": dict(tag="tools-", extra=("-DTOOLS", "-I" + os.path.join(build.REPO, "tools")), objs=("print_helpers.c.o",),
                          mains={"emv-decode.c.o": "emv_decode_main"}, link=("-Wl,--wrap=emv_strings_init",), exes={"EMV_DECODE": "emv-decode"}),
            "tool": dict(src="tooldrv.c", extra=("-I/usr/include/PCSC", "-I" + os.path.join(build.REPO, "tools")), objs=("pcsc.c.o", "print_helpers.c.o"),
                         mains={"emv-tool.c.o": "emv_tool_main"},
                         link=["-Wl,--wrap=" + f for f in ("emv_strings_init", "print_emv_debug", "print_emv_debug_verbose", "time")])}


_lock = threading.Lock()


def exe(variant):
    with _lock:
        if variant not in _exe:
            _exe[variant] = build.driver(**VARIANTS[variant])
        return _exe[variant]


PLANS = {}


def plan(pid, quick, thorough=None, loop=None):
    """quick/thorough: lists of (variant, fn) with fn(seed) -> (label, scenarios, model);
    loop: list of fn(seed, round) repeated with fresh rounds until the budget is used."""
    def split(fn):
        return fn if isinstance(fn, tuple) else ("boost", fn)

    def it(tier, seed, more):
        """Yields batches: lists of (variant, label, scenarios, model)."""
        fns = [split(f) for f in (quick if tier == "quick" or thorough is None else thorough)]
        # build the drivers while the models are explored
        with concurrent.futures.ThreadPoolExecutor(3) as ex:
            builds = [ex.submit(exe, v) for v in dict.fromkeys(v for v, _ in fns)]
            futs = [(v, ex.submit(fn, seed)) for v, fn in fns]
            for b in builds:
                b.result()
            if tier == "quick":
                yield [(v,) + f.result() for v, f in futs]
            else:
                for v, f in futs:
                    yield [(v,) + f.result()]
        if tier == "thorough" and loop:
            rnd = 1
            while more():
                yield [(v,) + fn(seed, rnd) for v, fn in map(split, loop)]
                rnd += 1
    PLANS[pid] = it


def M(module, **c):
    return lambda seed: model(module, **c)


def P(kind, n, *ops):
    return lambda seed: pure(kind, n, list(ops))


def L(name, n, **kw):
    return lambda seed, rnd=0: lines(name, n, seed, rnd, **kw)


def N(name, n=0, **kw):
    return lambda seed, rnd=0: near(name, n, seed, rnd, **kw)


def S(name, n, **kw):
    return lambda seed, rnd=0: sess(name, n, seed, rnd, **kw)


def Q(module, *ops, **kw):
    return lambda seed: prints(module, list(ops), **kw)


def LOG(fn):
    return lambda seed, *rnd: logged(fn(seed, *rnd), seed)


def LISTS(n, wide=False):
    return lambda seed: lists(n, wide)


def APPS(n, wide=False):
    return lambda seed: apps(n, wide)


plan("C01", [P("ber", 4, "ber %s"), P("berlen", 7, "ber %s", "berit %s"), P("tag", 4, "tag %s"), P("oid", 4, "oid %s"), P("flat", 4, "berit %s", "flat %s"),
             L("ber_lines", 20000), L("oid_lines", 5000), N("ber_every", part=.4), N("many", kinds=["ber"])],
     [P("ber", 5, "ber %s"), P("berlen", 8, "ber %s", "flat %s"), P("tag", 5, "tag %s"), P("oid", 5, "oid %s"), P("flat", 5, "berit %s", "flat %s"), N("ber_every"), N("many", kinds=["ber"])],
     [L("ber_lines", 60000), L("oid_lines", 20000)])
plan("C02", [LISTS(4), P("flat", 4, "flat %s"), L("lops_lines", 8000), L("ber_lines", 6000), N("many", kinds=["lops", "ber"])],
     [LISTS(5), LISTS(4, True), P("flat", 5, "flat %s"), N("many", kinds=["lops", "ber"])],
     [L("lops_lines", 40000), L("ber_lines", 20000)])
plan("C03", [P("dol", 4, "dol %s", "dolb %s 300 9A:0708:0,95:0909:0,9F02:01:0,5F57:0102:0,1F01:03:0 9A:06:0"), L("dol_lines", 25000), N("dol_every"), N("many", kinds=["dol"])],
     [P("dol", 5, "dol %s", "dolb %s 300 9A:0708:0,95:0909:0,9F02:01:0,5F57:0102:0,1F01:03:0 9A:06:0"), N("dol_every"), N("many", kinds=["dol"])], [L("dol_lines", 60000)])
plan("C04", [P("afl", 4, "afl %s"), L("afl_lines", 6000), M("MCTal", Op="afl", Rich=True), S("tal_session", 300), N("afl_every"), N("many", kinds=["afl"]), S("pair_session", 200, of="tal_session", only="afl")],
     [P("afl", 4, "afl %s"), P("afl", 8, "afl %s"), M("MCTal", Op="afl", Rich=True, MaxOps=2), N("afl_every"), N("many", kinds=["afl"])],
     [L("afl_lines", 20000), S("tal_session", 2000)])
plan("C05", [M("MCTtl", Rich=False, MaxX=4), P("case", 9, "case %s"), S("trx_session", 6000), S("cmd_session", 1500), L("case_lines", 3000), N("many", kinds=["trx"]), S("pair_session", 500, of="trx_session")],
     [M("MCTtl", Rich=True, MaxX=3), M("MCTtl", Rich=False, MaxX=5), P("case", 10, "case %s"), N("many", kinds=["trx"])],
     [S("trx_session", 20000), S("cmd_session", 5000), L("case_lines", 10000), S("pair_session", 2000, of="trx_session")])
plan("C06", [M("MCTtl", Rich=True, MaxX=2), M("MCTtl", Rich=False, MaxX=4), S("trx_session", 10000), S("cmd_session", 1000), N("many", kinds=["trx"]), S("pair_session", 500, of="trx_session")],
     [M("MCTtl", Rich=True, MaxX=3), M("MCTtl", Rich=False, MaxX=5), N("many", kinds=["trx"])],
     [S("trx_session", 25000), S("pair_session", 2000, of="trx_session")])
plan("C07", [L("cmd_all", 1), S("cmd_session", 6000), M("MCTal", Op="gpo", Rich=True), M("MCTal", Op="find", Rich=True, MaxX=2), S("pair_session", 500, of="cmd_session")],
     None, [S("cmd_session", 20000), S("tal_session", 2000), S("pair_session", 2000, of="cmd_session")])
plan("C08", [M("MCTal", Op="pse", Rich=True, MaxX=3), S("tal_session", 800, only="pse"), L("app_lines", 4000), N("card_every", kinds=["pse"]), N("many", kinds=["pse"]), S("pair_session", 250, of="tal_session", only="pse")],
     [M("MCTal", Op="pse", Rich=True, MaxX=4), M("MCTal", Op="pse", Rich=False, MaxX=4, MaxOps=2), N("card_every", kinds=["pse"]), N("many", kinds=["pse"])],
     [S("tal_session", 3000, only="pse"), L("app_lines", 10000), S("pair_session", 1000, of="tal_session", only="pse")])
plan("C09", [M("MCTal", Op="find", Rich=True, MaxX=4), S("tal_session", 1000, only="find"), L("app_lines", 4000), N("card_every", kinds=["find"]), N("many", kinds=["find"]), S("pair_session", 250, of="tal_session", only="find")],
     [M("MCTal", Op="find", Rich=True, MaxX=5), M("MCTal", Op="find", Rich=False, MaxX=4, MaxOps=2), N("card_every", kinds=["find"]), N("many", kinds=["find"])],
     [S("tal_session", 4000, only="find"), L("app_lines", 10000), S("pair_session", 1000, of="tal_session", only="find")])
plan("C10", [APPS(4), L("aops_lines", 5000), S("full_session", 400, napps=True), L("app_lines", 2000), N("card_every", kinds=["choose"], part=.5), N("many", kinds=["choose"]), S("pair_session", 150, of="full_session", napps=True)],
     [APPS(5), APPS(4, True), N("card_every", kinds=["choose"]), N("many", kinds=["choose"])], [L("aops_lines", 20000), S("full_session", 2000, napps=True), S("pair_session", 600, of="full_session", napps=True)])
plan("C11", [M("MCTal", Op="sel", Rich=True), M("MCKernel", Rich=False, MaxOps=3, MaxX=4), S("full_session", 800), N("card_every", kinds=["sel"]), N("card_every", kinds=["choose"], part=.2), N("many", kinds=["choose"]), S("pair_session", 200, of="full_session")],
     [M("MCTal", Op="sel", Rich=True, MaxOps=2), M("MCKernel", Rich=True, MaxOps=2, MaxX=5), N("card_every", kinds=["sel"]), N("card_every", kinds=["choose"]), N("many", kinds=["choose"])], [S("full_session", 4000), S("pair_session", 800, of="full_session")])
plan("C12", [M("MCKernel", Rich=False, MaxOps=3, MaxX=4), S("full_session", 1300), S("focus_session", 2500, focus="init"), L("dol_lines", 3000), N("card_every", kinds=["init"]), N("many", kinds=["init"]), S("pair_session", 250, of="focus_session", focus="init")],
     [M("MCKernel", Rich=False, MaxOps=4, MaxX=5), M("MCKernel", Rich=True, MaxOps=3, MaxX=4), N("card_every", kinds=["init"]), N("many", kinds=["init"])], [S("full_session", 5000), S("focus_session", 10000, focus="init"), S("pair_session", 1000, of="focus_session", focus="init")])
plan("C13", [M("MCTal", Op="gpo", Rich=True), S("tal_session", 1500, only="gpo"), S("full_session", 300), N("card_every", kinds=["gpo1", "gpo2"]), S("pair_session", 300, of="tal_session", only="gpo")],
     [M("MCTal", Op="gpo", Rich=True, MaxOps=2), N("card_every", kinds=["gpo1", "gpo2"])], [S("tal_session", 6000, only="gpo"), S("full_session", 1000), S("pair_session", 1200, of="tal_session", only="gpo")])
plan("C14", [M("MCTal", Op="afl", Rich=True), S("full_session", 1000), S("focus_session", 3000, focus="read"), S("tal_session", 800, only="afl"), N("card_every", kinds=["afl"]), N("card_every", kinds=["read"], part=.5), N("many", kinds=["afl"]), S("pair_session", 250, of="focus_session", focus="read")],
     [M("MCTal", Op="afl", Rich=True, MaxX=5), M("MCKernel", Rich=False, MaxOps=5, MaxX=5), N("card_every", kinds=["afl"]), N("card_every", kinds=["read"]), N("many", kinds=["afl"])],
     [S("full_session", 4000), S("focus_session", 10000, focus="read"), S("tal_session", 3000, only="afl"), S("pair_session", 1000, of="focus_session", focus="read")])
plan("C15", [M("MCKernel", Rich=True, MaxOps=2, MaxX=4), M("MCKernel", Rich=False, MaxOps=4, MaxX=4), S("fuzz_session", 500), S("focus_session", 800), N("many", kinds=["init"]), S("pair_session", 400)],
     [M("MCKernel", Rich=True, MaxOps=3, MaxX=5), N("many", kinds=["init"])], [S("full_session", 3000), S("fuzz_session", 3000), S("pair_session", 1600)])
plan("C16", [M("MCKernel", Rich=True, MaxOps=1, MaxX=4), M("MCTtl", Rich=True, MaxX=2), S("fuzz_session", 3000), S("full_session", 500, faults=1.0), S("trx_session", 3000), S("tal_session", 500), L("ber_lines", 5000), N("many", kinds=["pse", "find", "afl", "trx"]), N("card_every", kinds=["pse", "find", "sel", "gpo1", "gpo2", "afl", "init", "read", "choose"], part=.12), L("atr_lines", 2000, kinds=("atr", "emvatr")), S("pair_session", 300),
             LOG(S("fuzz_session", 400)), LOG(S("tal_session", 400)), LOG(S("full_session", 200, faults=1.0))],
     [M("MCKernel", Rich=True, MaxOps=2, MaxX=5), N("many", kinds=["pse", "find", "afl", "trx"]), N("card_every", kinds=["pse", "find", "sel", "gpo1", "gpo2", "afl", "init", "read", "choose"]), L("atr_lines", 2000, kinds=("atr", "emvatr"))],
     [S("fuzz_session", 6000), S("full_session", 3000, faults=1.0), S("trx_session", 6000), S("tal_session", 2000), S("pair_session", 1200)])
plan("C19", [P("iso", 3, "iso8859 7 5 %s", "iso8859 11 7 %s"), L("iso8859_all", 1), ("iconv", L("iso8859_all", 1)), ("simple", L("iso8859_all", 1)),
             L("iso8859_lines", 4000), ("iconv", L("iso8859_lines", 4000)), ("simple", L("iso8859_lines", 4000)),
             L("app_lines", 4000), ("simple", L("app_lines", 1500)), L("fmt_lines", 3000)],
     None, [L("iso8859_lines", 20000), ("iconv", L("iso8859_lines", 20000)), ("simple", L("iso8859_lines", 20000)), L("app_lines", 20000)])
plan("C20", [P("num", 4, "n2u %s", "b2u %s"), L("uint_lines", 20000), L("fmt_lines", 10000), N("num_every")],
     [P("num", 5, "n2u %s", "b2u %s"), N("num_every")], [L("uint_lines", 40000), L("fmt_lines", 20000)])

plan("C17", [Q("MCAtr", "atr %s", MaxOdd=1, MaxGroups=2), Q("MCAtr", "atr %s", "atrs 100 %s", MaxOdd=0, MaxGroups=4), L("atr_lines", 12000, kinds=("atr", "atrs")), N("atr_caps"), N("atr_every", kinds=("atr",), part=.35)],
     [Q("MCAtr", "atr %s", "atrs 100 %s", MaxOdd=1, MaxGroups=3), Q("MCAtr", "atr %s", MaxOdd=2, MaxGroups=2), N("atr_caps"), N("atr_every", kinds=("atr",))], [L("atr_lines", 40000, kinds=("atr", "atrs"))])
plan("C18", [Q("MCAtr", "emvatr %s", MaxOdd=1, MaxGroups=2), Q("MCAtr", "emvatr %s", MaxOdd=0, MaxGroups=4), L("atr_lines", 25000, kinds=("emvatr",)), N("atr_every", kinds=("emvatr",), part=.35)],
     [Q("MCAtr", "emvatr %s", MaxOdd=1, MaxGroups=3), Q("MCAtr", "emvatr %s", MaxOdd=2, MaxGroups=2), N("atr_every", kinds=("emvatr",))], [L("atr_lines", 80000, kinds=("emvatr",))])


# Texts and registers
def X(kind, n, *ops, **kw):
    return lambda seed: texts(kind, n, list(ops), **kw)


def T(name, n, **kw):
    return lambda seed, rnd=0: tlines(name, n, seed, rnd, **kw)


BITKINDS = ["termtype", "posentry", "txntype", "acctype", "cid", "clcaps", "termcaps", "addlcaps", "aip", "auc", "tvr", "tsi",
            "trmd", "ttq", "ctq", "enhcl", "ffi", "tpd"]
VALKINDS = ["a", "an", "anssp", "ansccs", "cn", "n", "amount", "date", "time", "mcc", "arc", "track2", "asrpd", "afltxt", "refcur", "langpref"]
plan("C21", [T("aid_all", 1), X("aid", 7, "aidinfo %s", "str aid 50 %s"), T("field_lines", 8000, ops=["aidinfo", "aid"]), N("field_every", ops=["aid"])],
     [T("aid_all", 1), X("aid", 8, "aidinfo %s"), N("field_every", ops=["aid"])], [T("field_lines", 30000, ops=["aidinfo", "aid"]), T("aid_all", 1)])
plan("C22", [X("cvml", 12, "cvml %s", "str cvmlist 2000 %s"), X("iad", 4, "iadfmt %s", "str iad 4000 %s"), T("iad_all", 1),
             T("text_lines", 6000, kinds=["cvmlist", "cvmres", "iad", "issauth"]), T("field_lines", 8000, ops=["cvml", "iadfmt"]), N("field_every", ops=["cvml", "iad", "issauth"], part=.5)],
     [X("cvml", 13, "cvml %s"), X("iad", 5, "iadfmt %s", "str iad 4000 %s"), T("iad_all", 1), N("field_every", ops=["cvml", "iad", "issauth"])],
     [T("text_lines", 20000, kinds=["cvmlist", "cvmres", "iad", "issauth"]), T("field_lines", 20000, ops=["cvml", "iadfmt"]), T("iad_all", 1)])
plan("C23", [T("sw_all", 20), X("ctlv", 5, "ctlv %s"), T("field_lines", 8000, ops=["ctlv"]), N("field_every", ops=["ctlv"])],
     [T("sw_all", 256), X("ctlv", 6, "ctlv %s"), N("field_every", ops=["ctlv"])], [T("field_lines", 40000, ops=["ctlv"])])
plan("C24", [T("capdu_all", 6), X("capdu", 4, "str capdu 200 %s"), T("capdu_lines", 10000), N("capdu_every", part=.4)],
     [T("capdu_all", 60), X("capdu", 5, "str capdu 200 %s"), N("capdu_every")], [T("capdu_lines", 40000), T("capdu_all", 40)])
plan("C25", [T("bit_all", 2), X("tpd", 7, "str tpd 2000 %s"), T("text_lines", 10000, kinds=BITKINDS), N("field_every", ops=["tpd"])],
     [T("bit_all", 3), X("tpd", 8, "str tpd 2000 %s"), N("field_every", ops=["tpd"])], [T("text_lines", 30000, kinds=BITKINDS), T("bit_all", 3)])
plan("C26", [X("digits", 5, "s2cn 2 %s", "s2n 2 %s", "s2n 3 %s"), X("nib", 4, "str cn 9 %s", "str n 9 %s", "str track2 50 %s"),
             X("chars", 2, "str a 9 %s", "str an 3 %s", "str anssp 9 %s", "str ansccs 9 %s", "str arc 50 %s"), X("asrpd", 6, "str asrpd 200 %s"),
             X("amount", 4, "str amount 12 %s", "str amount 9 %s"), T("text_lines", 12000, kinds=VALKINDS), T("pack_lines", 6000), N("val_every", part=.5)],
     [X("digits", 6, "s2cn 2 %s", "s2n 2 %s", "s2n 3 %s"), X("nib", 5, "str cn 9 %s", "str n 9 %s", "str track2 50 %s"), X("asrpd", 7, "str asrpd 200 %s"), N("val_every")],
     [T("text_lines", 40000, kinds=VALKINDS), T("pack_lines", 20000)])
plan("C27", [T("info_lines", 25000), T("reg_all", 10), N("info_every", n=40)], [T("info_lines", 40000), T("reg_all", 1), N("info_every", n=40)], [T("info_lines", 60000)])
plan("C28", [X("lists", 5, emit=False), T("cap_lines", 20000), T("caps_all", 1)], [X("lists", 6, emit=False), T("cap_lines", 60000)], [T("cap_lines", 60000)])
plan("C29", [T("iso_lines", 3000), T("reg_all", 10)], [T("iso_lines", 10000), T("reg_all", 1)], [T("iso_lines", 20000)])


def PCSC(part, n, x):
    return "pcsc", lambda seed: pcsc(part, n, x)


def PCSCGEN(n):
    return "pcsc", lambda seed, rnd=0: pcscgen(n, seed, rnd)


plan("C30", [PCSC("init", 2, 16), PCSC("use", 3, 12), PCSCGEN(6000)],
     [PCSC("init", 3, 16), PCSC("use", 4, 12), PCSCGEN(30000)],
     loop=[PCSCGEN(20000)])


plan("C31", [M("MCLog", MaxOps=3, MaxX=3), LOG(M("MCTal", Op="pse", Rich=True, MaxX=3)), LOG(M("MCTtl", Rich=False, MaxX=3)), LOG(S("trx_session", 2500)),
             LOG(S("full_session", 500)), LOG(S("tal_session", 500)), LOG(S("cmd_session", 800)), LOG(S("focus_session", 500)), LOG(S("pair_session", 200)), L("dbg_lines", 4000),
             LOG(N("card_every", kinds=["pse", "find", "sel", "gpo1", "gpo2", "afl", "init", "read", "choose"], part=.04))],
     [M("MCLog", MaxOps=4, MaxX=3), LOG(M("MCTal", Op="find", Rich=True, MaxX=4)), LOG(M("MCTtl", Rich=True, MaxX=3))],
     [LOG(S("trx_session", 5000)), LOG(S("full_session", 1500)), LOG(S("tal_session", 1500)), LOG(S("fuzz_session", 1500)), L("dbg_lines", 10000)])


def OOM(fn, times=1, most=40):
    return lambda seed, *rnd: starved(fn(seed, *rnd), seed, times, most)


def EVERY(name, n, **kw):
    return lambda seed, rnd=0: exhausted(name, n, seed, rnd, **kw)


def INV(module, **c):
    return lambda seed: invariants(module, **c)


plan("C32", [INV("MCOom", MaxOps=4, MaxX=4, Rich=False), OOM(M("MCKernel", Rich=False, MaxOps=3, MaxX=4), 2), OOM(M("MCTal", Op="pse", Rich=True, MaxX=3)),
             EVERY("full_session", 60, faults=0.05), EVERY("tal_session", 60, faults=0.05), OOM(S("full_session", 500), 2), OOM(L("app_lines", 4000)), OOM(L("lops_lines", 4000)), OOM(P("flat", 4, "flat %s"))],
     [INV("MCOom", MaxOps=5, MaxX=4, Rich=False), INV("MCOom", MaxOps=3, MaxX=4, Rich=True), OOM(M("MCKernel", Rich=False, MaxOps=4, MaxX=5), 2), OOM(M("MCTal", Op="find", Rich=True, MaxX=4), 2)],
     [EVERY("full_session", 200, faults=0.05), EVERY("tal_session", 100, faults=0.05), OOM(S("full_session", 1000), 3), OOM(L("app_lines", 10000)), OOM(L("lops_lines", 10000))])


# What the tools print
def O(name, n, **kw):
    return "tools", lambda seed, rnd=0: tools(name, n, seed, rnd, **kw)


def PR(kind, n, *ops):
    return "tools", lambda seed: printed(kind, n, *ops)


plan("C33", [PR("ber", 4, "pr ber %s 0 0 2020", "pr ber %s 1 1 -", "pr emv %s 1 0 2020"), O("print_lines", 18000), O("entry_lines", 3000), O("print_sizes", 1)],
     [PR("ber", 5, "pr ber %s 0 0 2020", "pr ber %s 1 1 -", "pr emv %s 1 0 2020"), PR("ber", 6, "pr emv %s 0 0 09")],
     [O("print_lines", 40000), O("entry_lines", 8000)])
plan("C34", [PR("cli", 3), O("code_all", 1), O("cli_lines", 12000)],
     [PR("cli", 4), O("code_all", 1)], [O("cli_lines", 30000)])


def TM(part, **kw):
    return "tool", lambda seed: toolmodel(part, **kw)


def TR(n, **kw):
    return "tool", lambda seed, rnd=0: toolruns(n, seed, rnd, **kw)


def TN(name, **kw):
    return "tool", lambda seed: toolnear(name, seed, **kw)


plan("C35", [TM("run", MaxOdd=2), TR(1500, odd=0, napps=None), TR(600, odd=0, fault=1, far=1), TN("keys_every")],
     [TM("run", MaxOdd=2), TM("run", emit=False, MaxOdd=3), TR(4000, odd=0), TN("keys_every")], [TR(4000, odd=0), TR(2000, odd=0, fault=1, far=1)])
plan("C36", [TM("options", MaxArgs=2), TR(1000, odd=.8, far=0), TR(1200, odd=.1, far=1, fault=0, napps=1), TN("every")],
     [TM("options", MaxArgs=3), TR(4000, odd=.9, far=0), TR(3000, odd=.1, far=1, fault=0, napps=1), TN("every", near=2)], [TR(4000, odd=.8, far=0), TR(3000, odd=.1, far=1, fault=0, napps=1)])
