"""Which harness entry points decide which property."""
import os
import re
TABLE = {}
def prop(pid, explain, rule="", assume=(), extra=()):
    def deco(fn):
        TABLE[pid] = (fn, explain, rule, list(assume), list(extra))
        return fn
    return deco

def get(pid, tier, repo):
    import explain
    fn, _, _, _, extra = TABLE[pid]
    x = explain.E[pid]
    return {"jobs": fn(tier), "explain": x["explain"] + " Bounds: " + x["note"], "rule": x["rule"], "assume": x["assume"], "extra": extra}

def J(name, harness, entry, srcs, defs="", mode="func", **kw):
    d = dict(name=name, harness=harness, entry=entry, srcs=srcs.split(), defs=defs, mode=mode)
    d.update(kw)
    return d

S = "safety"

@prop("C01", "")
def c01(tier):
    b = "iso8825_ber.c"
    js = [J("tag", "c01.c", "h_tag", b, mode=S, must=["iso8825_ber_tag_decode"]),
          J("oid", "c01.c", "h_oid", b, "-DLEN=6", mode=S, must=["iso8825_ber_oid_decode"]),
          J("oidshort", "c01.c", "h_oid_short", b, mode=S),
          J("berlong", "c01.c", "h_ber_long", b, "-DNOSPLIT", mode=S),
          J("compact", "c01.c", "h_compact", "iso7816_compact_tlv.c", "-DLEN=16", mode=S, autosplit="length"),
          J("dol", "c01.c", "h_dol", "emv_dol.c emv_tlv.c iso8825_ber.c", "-DLEN=8", mode=S),
          J("afl", "c01.c", "h_afl", "emv_fields.c", mode=S),
          J("cvm", "c01.c", "h_cvm", "emv_fields.c", mode=S),
          J("iad", "c01.c", "h_iad", "emv_fields.c", mode=S),
          J("aid", "c01.c", "h_aid", "emv_fields.c", mode=S),
          ]
    for l in range(0, 7 if tier == "thorough" else 6):
        js.append(J("ber%d" % l, "c01.c", "h_ber", b, "-DLO=%d -DLEN=%d" % (l, max(l,1)), mode=S, must=["iso8825_ber_decode"], reftimeout=300))
    js.append(J("berind6", "c01.c", "h_ber", b, "-DLO=6 -DLEN=6 -DVP_HEAD=0x30", mode=S, must=["iso8825_ber_decode"]))
    for i, d in enumerate(("-DY1=0", "-DY1=8 -DY2=8 -DY3=2 -DQP1=1 -DQP2=1")):
        for k in (0, 1, 2, 3, 4, 6) if tier == "thorough" else (0, 2, 4) if i else (1, 3, 4):
            js.append(J("atr%d-%d" % (i, k), "atr.c", "h_atr_any", ATR, d + " -DKLEN=%d" % k, mode=S, must=["iso7816_atr_parse"]))
    js += [dict(j, mode=S) for j in c21(tier) if j["name"] in ("short-full", "short-t1", "shorthist-2", "shorthist-5", "args")]
    return js

@prop("C02", "")
def c02(tier):
    b = "iso8825_ber.c"
    m = ["iso8825_ber_decode"]
    js = [J("taglow", "c02.c", "h_tag_low", b), J("tag", "c02.c", "h_tag", b), J("tagval", "c02.c", "h_tagval", b, must=m),
          J("lenbig", "c02.c", "h_len_big", b, must=m),
          J("indef", "c02.c", "h_indef", b, "-DDEPTH=1", must=m),
          J("indefprim", "c02.c", "h_indef", b, "-DDEPTH=0 -DPRIM=1", must=m),
          J("null", "c02.c", "h_null", b), J("oid", "c02.c", "h_oid", b, must=["iso8825_ber_oid_decode"])]
    for f in range(6):
        js.append(J("len%d" % f, "c02.c", "h_len", b, "-DFORM=%d -DNT=%d" % (f, 1 + f % 2), must=m))
    for c in range(4):
        js.append(J("iter%d" % c, "c02.c", "h_iter", b, "-DCNT=%d" % c, must=m))
    if tier == "thorough":
        js += [J("indef2", "c02.c", "h_indef", b, "-DDEPTH=2", must=m)]
    return js

A, T = "EMV_CARDREADER_MODE_APDU", "EMV_CARDREADER_MODE_TPDU"

def ttl_jobs(tier, mode, extra=""):
    js = []
    def add(mn, m, c, lc, cap, mx, pre=()):
        js.append(J("%s-case%d-lc%d-cap%d-x%d-%s" % (mn, c, lc, cap, mx, "".join("%x" % k for k in pre)), "ttl.c", "h_ttl", "emv_ttl.c",
                    "-DMODE=%s -DCASE=%d -DLC=%d -DCAP=%d -DMAXX=%d %s %s" % (m, c, lc, cap, mx, " ".join("-DPRE%d=%d" % (i+1, k) for i, k in enumerate(pre)), extra),
                    mode=mode, must=["emv_ttl_trx"]))
    for m, mn in ((A, "apdu"), (T, "tpdu")):
        for c in (1, 2, 3, 4):
            for cap in (1, 2, 3):
                add(mn, m, c, 3, cap, 2)
            if c in (1, 3):
                for lc in ((1, 3) if c == 3 and mn == "tpdu" else (3,)):
                    add(mn, m, c, lc, 8, 4)
            else:
                deep = 4 if tier == "thorough" else 3
                add(mn, m, c, 3, 8, 1)
                firsts = [7, 8] + ([9, 10] if c == 4 else []) + ([2, 3] if mn == "tpdu" else [])
                for k in firsts:
                    add(mn, m, c, 3, 8, deep, (k,))
                if c == 4:
                    for pre in ((7, 7), (7, 8), (8, 7), (9, 8), (9, 7)) if mn == "apdu" else \
                               ((2, 7, 7), (2, 7, 8), (2, 9, 8), (3, 3, 3), (3, 3, 2), (3, 2, 7)):
                        add(mn, m, c, 3, 8, len(pre) + (2 if tier == "thorough" else 1), pre)
    for m, mn in ((A, "apdu"), (T, "tpdu")):
        add(mn, m, 2, 3, 257, 1)
        add(mn, m, 4, 255, 256, 2, (2, 6) if mn == "tpdu" else (7, 6))
    if tier == "thorough":
        for lc in (1, 2, 5):
            for k in (2, 3, 7, 9):
                add("tpdu", T, 4, lc, 8, 3, (k,))
    return js

@prop("C05", "")
def c05(tier):
    return ttl_jobs(tier, S, "-DONLY_TX -DVP_DEBUG_READS")

@prop("C06", "")
def c06(tier):
    return ttl_jobs(tier, "func") + [J("args", "ttl.c", "h_ttl_args", "emv_ttl.c", must=["emv_ttl_trx"])]

def ttl_bound_jobs(tier):
    js = []
    for m, mn in ((A, "apdu"), (T, "tpdu")):
        for c, lc in ((1, 1), (2, 1), (3, 2), (4, 2)):
            js.append(J("ttl-%s-case%d" % (mn, c), "ttl.c", "h_ttl_bound", "emv_ttl.c",
                        "-DMODE=%s -DCASE=%d -DLC=%d -DCAP=4" % (m, c, lc), must=["emv_ttl_trx"]))
    return js

@prop("C22", "")
def c22(tier):
    js = [J("endless%d" % k, "card_list.c", "h_endless", STACK, "-DENDLESS=%d %s" % (k, "-DSTUB_APP" if k >= 2 else ""), must=["emv_build_candidate_list"]) for k in range(4)]
    js += [j for j in read_jobs(tier) if j["name"] in ("read3-2", "read3-5", "read4", "read0-2")]
    js += [dict(j, mode="func") for j in c01(tier) if j["name"] in ("ber3", "ber4", "compact", "dol", "afl", "cvm")]
    return ttl_bound_jobs(tier) + js

TLV = "emv_tlv.c iso8825_ber.c"
def tlv_jobs(tier, fails):
    js = []
    for n1 in range(0, 4):
        for n2 in range(0, 3):
            js.append(J("list%d%d" % (n1, n2), "tlv.c", "h_list", TLV, "-DN1=%d -DN2=%d -DFAILS=%d" % (n1, n2, fails), must=["emv_tlv_list_push"] if n1 + n2 else []))
    cf = [(0, 1), (0, 3), (1, 2), (2, 1)] + ([(1, 3), (3, 1)] if tier == "thorough" else [])
    for d, c in cf:
        for bad in ("", "-DBAD"):
            js.append(J("parse-d%d-c%d%s" % (d, c, bad), "tlv.c", "h_parse", TLV, "-DDEPTH=%d -DCNT=%d -DFAILS=%d %s" % (d, c, fails, bad), must=["emv_tlv_parse"]))
    js.append(J("list-args", "tlv.c", "h_list_args", TLV))
    js.append(J("parse-args", "tlv.c", "h_parse_args", TLV))
    return js

@prop("C03", "")
def c03(tier):
    return tlv_jobs(tier, 0) + [dict(j, name=j["name"] + "-oom") for j in tlv_jobs(tier, 1) if j["name"] in ("list11", "parse-d0-c3")]

APP = "emv_app.c emv_tlv.c iso8825_ber.c"
def app_list_jobs(tier):
    js = [J("sort%d" % n, "app.c", "h_sort", APP, "-DNAPP=%d" % n, must=["emv_app_list_sort_priority"]) for n in (0, 1, 2, 3, 4)]
    js += [J("remove%d" % n, "app.c", "h_remove", APP, "-DNAPP=%d" % n, must=["emv_app_list_remove_index"]) for n in (0, 1, 2, 3)]
    js += [J("selreq", "app.c", "h_selreq", APP), J("args", "app.c", "h_app_args", APP)]
    return js

def app_create_jobs(tier, fails=0):
    js = []
    for src in (0, 1):
        for v in range(8):
            js.append(J("create%d-%d" % (src, v), "app.c", "h_create", APP, "-DSRC=%d -DVARIANT=%d -DFAILS=%d" % (src, v, fails)))
        js.append(J("long%d" % src, "app.c", "h_create_long", APP, "-DSRC=%d" % src))
        js.append(J("reject%d" % src, "app.c", "h_reject", APP, "-DSRC=%d" % src))
    return js

@prop("C11", "")
def c11(tier):
    return app_list_jobs(tier)

@prop("C13", "")
def c13(tier):
    return app_create_jobs(tier)

@prop("C10", "")
def c10(tier):
    return [J("supported", "app.c", "h_supported", APP)] + cand_jobs(tier)

STACK = "emv.c emv_tal.c emv_ttl.c emv_app.c emv_tlv.c emv_dol.c emv_fields.c iso8825_ber.c"
def cand_jobs(tier, fails=0, mode="func"):
    f = "-DFAILS=%d" % fails
    m = ["emv_build_candidate_list"]
    js = []
    # directory selection statuses, then identifiers not found
    for k in range(0, 8):
        js.append(J("cand-pse%d" % k, "card_list.c", "h_candidates", STACK, "-DK1=%d -DNOAIDS=1 %s" % (k, f), mode=mode, must=m))
        js.append(J("pse%d" % k, "card_list.c", "h_read_pse", STACK, "-DK1=%d" % k, mode=mode))
    # directory records
    for k in range(0, 12):
        for s in ((8, 9) if k == 5 else (8,)):
            js.append(J("cand-rec%d-%d" % (s, k), "card_list.c", "h_candidates", STACK, "-DK1=%d -DK2=%d -DMAXREC=%d -DNOAIDS=1 %s" % (s, k, 3 if tier == "thorough" and not fails else 2, f), mode=mode, must=m))
    js.append(J("pse8", "card_list.c", "h_read_pse", STACK, "-DK1=8 -DMAXREC=1", mode=mode))
    # identifiers
    for k in range(0, 10):
        js.append(J("cand-aid%d" % k, "card_list.c", "h_candidates", STACK, "-DK1=2 -DK2=%d -DMAXSEL=%d %s" % (k, 4 if tier == "thorough" and not fails else 3 if not fails else 2, f), mode=mode, must=m))
    js.append(J("aid", "card_list.c", "h_find_apps", STACK, "-DMAXSEL=2", mode=mode))
    return js

def select_jobs(tier, fails=0, mode="func"):
    return [J("select%d" % n, "card_app.c", "h_select", STACK, "-DNLIST=%d -DFAILS=%d" % (n, fails), mode=mode, must=["emv_select_application"]) for n in (1, 2)] + \
           [J("selecttal", "card_app.c", "h_select_tal", STACK, mode=mode)]

def init_jobs(tier, fails=0, mode="func"):
    return [J("init%d" % n, "card_app.c", "h_init", STACK, "-DPDOL=%d -DFAILS=%d" % (n, fails), mode=mode, must=["emv_initiate_application_processing"]) for n in range(-1, 8)] + \
           [J("initargs", "card_app.c", "h_init_args", STACK, mode=mode), J("gpo", "card_app.c", "h_gpo", STACK, "-DPDOL=-1", mode=mode)]

@prop("C12", "")
def c12(tier):
    return select_jobs(tier) + [j for j in app_create_jobs(tier) if j["name"] == "reject1"]

@prop("C14", "")
def c14(tier):
    return init_jobs(tier)

def read_jobs(tier, fails=0, mode="func"):
    f = "-DFAILS=%d" % fails
    js = []
    def R(n, a, d, h="h_read"):
        js.append(J(n, "card_read.c", h, STACK, "-DAFLK=%d %s %s" % (a, d, f), mode=mode, must=["emv_read_application_data" if h == "h_read" else "emv_tal_read_afl_records"]))
    for k in range(0, 13):
        R("read0-%d" % k, 0, "-DK1=%d" % k)
        if k in (0, 2, 4, 8):
            R("readtal0-%d" % k, 0, "-DK1=%d" % k, "h_read_tal")
    for k in (2, 9):
        for k2 in range(0, 13):
            R("read1-%d-%d" % (k, k2), 1, "-DK1=%d -DK2=%d" % (k, k2))
    for k2 in range(0, 13):
        R("read2-2-%d" % k2, 2, "-DK1=2 -DK2=%d" % k2)
        R("readtal2-2-%d" % k2, 2, "-DK1=2 -DK2=%d" % k2, "h_read_tal")
    for k in (2, 4, 5, 6, 8):
        R("read3-%d" % k, 3, "-DK1=%d -DK2=2" % k)
    R("read4", 4, "")
    for m in range(4):
        R("miss%d" % m, 0, "-DK1=2 -DMISS=%d" % m)
    for a in range(5, 15):
        R("bad%d" % a, a, "-DK1=2")
        R("badtal%d" % a, a, "-DK1=2", "h_read_tal")
    js.append(J("readargs", "card_read.c", "h_read_none", STACK, f, mode=mode))
    return js

def afl_jobs(tier):
    firsts = range(0, 256) if tier == "thorough" else (0, 1, 2, 127, 128, 254, 255)
    return [J("afl-first%d" % x, "card_read.c", "h_afl_entry", STACK, "-DFIRST=%d" % x) for x in firsts] + [J("afl-len", "card_read.c", "h_afl_len", STACK)]

@prop("C15", "")
def c15(tier):
    return read_jobs(tier) + afl_jobs(tier)

@prop("C16", "")
def c16(tier):
    return read_jobs(tier)

def stack_jobs(tier, fails=0, mode="func"):
    return cand_jobs(tier, fails, mode) + select_jobs(tier, fails, mode) + init_jobs(tier, fails, mode) + read_jobs(tier, fails, mode)

@prop("C08", "")
def c08(tier):
    return stack_jobs(tier)

@prop("C09", "")
def c09(tier):
    return stack_jobs(tier) + [J("odd%d" % w, "sw.c", "h_odd", STACK, "-DWHICH=%d" % w) for w in range(6)]

@prop("C18", "")
def c18(tier):
    js = [dict(j, mode=S) for j in tlv_jobs(tier, 1) + app_create_jobs(tier, 1)] + stack_jobs(tier, 1, S)
    if tier == "thorough":
        js += [dict(j, name="two-" + j["name"]) for j in stack_jobs("quick", 2, S)]
    return js


FMT = "emv_tlv.c iso8825_ber.c"
FMTS = "emv_strings.c " + FMT
@prop("C20", "")
def c20(tier):
    js = []
    def F(n, h, d, s=FMTS):
        js.append(J(n, "fmt.c", h, s, d))
    th = tier == "thorough"
    for l in (1, 2, 3, 4, 5, 6, 8) if th else (1, 2, 3, 5):
        for k in (0,) if l == 1 else (0, 1, 2):
            d = "-DLEN=%d -DPAT=%d" % (l, k)
            F("ntouint-%d-%d" % (l, k), "h_n_to_uint", d, FMT)
            if l <= 5:
                F("btouint-%d-%d" % (l, k), "h_b_to_uint", d, FMT)
            if k != 1:
                F("nstr-%d-%d" % (l, k), "h_n_str", d)
                F("cnstr-%d-%d" % (l, k), "h_cn_str", d)
            if l <= 3 and k != 1:
                F("hex-%d-%d" % (l, k), "h_hex", d + " -DFEW", FMT)
    for k in (0, 1):
        for l in (1, 2, 3):
            F("ans%d-%d" % (k, l), "h_ans", "-DANSF=%d -DLEN=%d" % (k, l), FMT)
    F("ansargs", "h_ans_args", "", FMT)
    for l in (5, 6, 8):
        F("nlimit-%d" % l, "h_n_limit", "-DLEN=%d" % l, FMT)
    for l in (1, 2, 4, 6):
        for k in range(4):
            F("uintton-%d-%d" % (l, k), "h_uint_to_n", "-DLEN=%d -DPAT=%d -DNPOS=10" % (l, k), FMT)
            if k < 3 and l != 6:
                F("uinttob-%d-%d" % (l, k), "h_uint_to_b", "-DLEN=%d -DPAT=%d -DNPOS=4" % (l, k), FMT)
    for k in range(4):
        F("amount-%d" % k, "h_amount", "-DPAT=%d -DNPOS=10" % k)
    for o in (1, 2):
        for l in range(0, 2 * o + 2) if o == 1 or th else (0, 3, 5):
            F("tocn-%d-%d" % (l, o), "h_to_cn", "-DLEN=%d -DOUTL=%d" % (l, o))
            F("ton-%d-%d" % (l, o), "h_to_n", "-DLEN=%d -DOUTL=%d" % (l, o))
    for f in range(4):
        for l in (1, 3) if th else (1, 2):
            F("text%d-%d" % (f, l), "h_text", "-DFMT=%d -DLEN=%d" % (f, l))
    F("args", "h_fmt_args", "")
    return js

DOL = "emv_dol.c emv_tlv.c iso8825_ber.c"
@prop("C19", "")
def c19(tier):
    js = [J("numeric", "dol.c", "h_numeric", DOL), J("bad", "dol.c", "h_bad", DOL), J("total", "dol.c", "h_total", DOL),
          J("entries0", "dol.c", "h_entries", DOL, "-DFORM=0"), J("entries1", "dol.c", "h_entries", DOL, "-DFORM=1"), J("entries2", "dol.c", "h_entries", DOL, "-DFORM=2"), J("args", "dol.c", "h_dol_args", DOL)]
    ts = ((0x9F37, 0x9A), (0x9F02, 0x95), (0x9F1A, 0x9F35), (0x5F34, 0xBF0C)) + (((0x9C, 0x9F41), (0x70, 0x9F66)) if tier == "thorough" else ())
    for i, (a, b) in enumerate(ts):
        for s in range(8):
            js.append(J("one%d-%d" % (i, s), "dol.c", "h_build", DOL, "-DNENT=1 -DT1=%d -DSRC=%d -DMAXV=3" % (a, s), must=["emv_dol_build_data"]))
        for s in (0o11, 0o12, 0o04, 0o60):
            js.append(J("two%d-%d" % (i, s), "dol.c", "h_build", DOL, "-DNENT=2 -DT1=%d -DT2=%d -DSRC=%d -DMAXV=2" % (a, b, s), must=["emv_dol_build_data"]))
    return js

@prop("C07", "")
def c07(tier):
    js = []
    T = "emv_ttl.c"
    th = tier == "thorough"
    for w in (0, 1):
        for n in range(0, 19) if th else (0, 4, 5, 6, 15, 16, 17):
            js.append(J("select%d-%d" % (w, n), "cmd.c", "h_cmd", T, "-DWHICH=%d -DALEN=%d" % (w, n)))
    for s in range(0, 256) if th else (0, 1, 2, 10, 11, 29, 30, 31, 32, 33, 255):
        js.append(J("read-%d" % s, "cmd.c", "h_cmd", T, "-DWHICH=2 -DSFI=%d" % s))
    for n in (0, 1, 2, 3, 4, 11, 127, 128, 129, 253, 254, 255, 256, 257) if th else (0, 1, 2, 3, 128, 255, 256):
        js.append(J("gpo-%d" % n, "cmd.c", "h_cmd", T, "-DWHICH=3 -DALEN=%d" % n))
    for w in range(4):
        js.append(J("args%d" % w, "cmd.c", "h_cmd_args", T, "-DWHICH=%d" % w))
    for c in (0, 1, 2, 10, 255):
        js.append(J("case-%d" % c, "cmd.c", "h_case", T, "-DVP_C5=%d" % c))
    js.append(J("sw", "cmd.c", "h_sw", T))
    keep = ("cand-pse8", "cand-rec8-5", "cand-aid4", "select2", "init-1", "init0", "init3", "init5", "read1-2-2", "read3-2")
    js += [j for j in stack_jobs(tier) if j["name"] in keep]
    return js

@prop("C17", "")
def c17(tier):
    js = [J("args", "ctx.c", "h_ctx_args", STACK)]
    for n in (1, 2) if tier == "thorough" else (1,):
        for h in ("reset", "clear", "reset_clear"):
            js.append(J("%s%d" % (h, n), "ctx.c", "h_" + h, STACK, "-DMAXN=%d" % n, must=["emv_ctx_" + h.split("_")[0]]))
    return js

ATR = STACK + " iso7816.c iso7816_compact_tlv.c"
@prop("C21", "")
def c21(tier):
    js = [J("args", "atr.c", "h_atr_args", ATR, "-DLEN=1")]
    # shape: announced bytes and protocols, and the bytes varied in it
    shapes = [
        ("t0", "-DY1=7", (1, 11, 12, 13)),
        ("bare", "-DY1=0", (1,)),
        ("spec0", "-DY1=13 -DY2=7 -DTB1V=0x25", (11, 13, 21, 22, 23, 14)),
        ("novpp", "-DY1=10 -DY2=2", (12, 22)),
        ("t1", "-DY1=13 -DY2=9 -DY3=7 -DQP1=1 -DQP2=1", (2, 11, 13, 21, 14, 24, 31, 32, 33)),
        ("t1min", "-DY1=8 -DY2=8 -DY3=2 -DQP1=1 -DQP2=1", (14, 24, 32, 2)),
        ("t1ff", "-DY1=12 -DY2=8 -DY3=2 -DQP1=1 -DQP2=1 -DTC1V=255", (32, 24)),
        ("t1notb", "-DY1=8 -DY2=8 -DY3=5 -DQP1=1 -DQP2=1", (31, 33)),
        ("t1notd2", "-DY1=8 -DY2=5 -DQP1=1", (14, 21)),
        ("t1wi", "-DY1=8 -DY2=12 -DY3=2 -DQP1=1 -DQP2=1", (23,)),
        ("t15", "-DY1=9 -DY2=8 -DY3=3 -DQP1=0 -DQP2=15", (11, 24, 31, 32, 2)),
        ("t1t15", "-DY1=8 -DY2=8 -DY3=15 -DY4=7 -DQP1=1 -DQP2=1 -DQP3=15", (31, 32, 33, 34, 41, 42, 43)),
        ("t15t1", "-DY1=8 -DY2=8 -DY3=11 -DY4=7 -DQP1=0 -DQP2=15 -DQP3=1", (41, 42, 43, 34)),
        ("t0t1", "-DY1=8 -DY2=12 -DY3=7 -DQP1=0 -DQP2=1", (23, 24, 32)),
        ("full", "-DY1=15 -DY2=9 -DY3=15 -DY4=15 -DQP1=1 -DQP2=1 -DQP3=15 -DQP4=15", (44, 11, 12)),
    ]
    full = (("t0", 11), ("spec0", 11), ("t0", 12), ("spec0", 22), ("t1", 32), ("t1t15", 41))
    for n, d, vs in shapes:
        for v in vs:
            if tier != "thorough" and (n, v) not in full:
                dv = d + " -DFEWV"
            else:
                dv = d
            js.append(J("%s-%d" % (n, v), "atr.c", "h_atr", ATR, "-DLEN=1 %s -DVAR=%d -DHK=%d" % (dv, v, 1 if v % 2 else 2), must=["iso7816_atr_parse", "emv_atr_parse"]))
        js.append(J("short-%s" % n, "atr.c", "h_atr_short", ATR, "-DLEN=1 %s -DHK=4" % d))
    for k in range(12):
        js.append(J("hist-%d" % k, "atr.c", "h_atr", ATR, "-DLEN=1 -DY1=9 -DY2=8 -DY3=2 -DQP1=1 -DQP2=1 -DHK=%d" % k))
        js.append(J("hist0-%d" % k, "atr.c", "h_atr", ATR, "-DLEN=1 -DY1=0 -DHK=%d" % k))
        js.append(J("shorthist-%d" % k, "atr.c", "h_atr_short", ATR, "-DLEN=1 -DY1=9 -DY2=8 -DY3=2 -DQP1=1 -DQP2=1 -DHK=%d" % k))
    return js

RS = "-eva-slevel 150 -eva-slevel-function ENTRY:200000,mkout:100000,fix_asrpd:100000,fix_digits:100000,terminated:100000,vp_vsnprintf:100000,vp_wrap_emv_str_list_add:100000,vp_pu:100000,vp_ps:100000,vp_pc:100000,vp_len:100000,vp_wrap_strncpy:100000".split()
# (function, kind, valid length)
RENDER = """emv_format_a_get_string emv_format_an_get_string emv_format_ans_only_space_get_string
emv_format_ans_ccs_get_string emv_format_cn_get_string emv_format_n_get_string emv_amount_get_string
emv_date_get_string emv_time_get_string emv_mcc_get_string emv_term_caps_get_string_list
emv_addl_term_caps_get_string_list emv_aid_get_string emv_asrpd_get_string_list emv_aip_get_string_list
emv_afl_get_string_list emv_app_usage_control_get_string_list emv_track2_equivalent_data_get_string
emv_app_reference_currency_get_string_list emv_language_preference_get_string_list emv_cvm_list_get_string_list
emv_cvm_results_get_string_list emv_tvr_get_string_list emv_tsi_get_string_list emv_iad_get_string_list
emv_terminal_risk_management_data_get_string_list emv_ttq_get_string_list emv_ctq_get_string_list
emv_mastercard_third_party_data_get_string_list emv_visa_form_factor_indicator_get_string_list
emv_amex_enh_cl_reader_caps_get_string_list emv_auth_response_code_get_string emv_issuer_auth_data_get_string_list
emv_capdu_get_string""".split()
RENDER_BYTE = """emv_transaction_type_get_string emv_term_type_get_string_list emv_pos_entry_mode_get_string
emv_account_type_get_string emv_cid_get_string_list emv_amex_cl_reader_caps_get_string""".split()
RSRC = "emv_fields.c emv_tlv.c iso8825_ber.c emv_dol.c iso7816_strings.c"
RDEF = "-Dsnprintf=vp_snprintf -Dvsnprintf=vp_vsnprintf"
# renderers walking their data: (states kept apart, lengths analysed)
RCONF = {
 "emv_format_n_get_string": (20000, ["-DLMAX=2", "-DLMAX=8 -DSMALL -DFIX=fix_digits"]),
 "emv_aid_get_string": (None, ["-DLMAX=20 -DFEWS"]),
 "emv_capdu_get_string": (5000, ["-DLMAX=6 -DFEWS"]),
 "emv_asrpd_get_string_list": (20000, ["-DLMAX=9 -DFIX=fix_asrpd"]),
 "emv_afl_get_string_list": (20000, ["-DLMAX=9"]),
 "emv_app_reference_currency_get_string_list": (20000, ["-DLMAX=5", "-DLMAX=12 -DLOOKUP1=1", "-DLMAX=12 -DLOOKUP1=2"]),
 "emv_language_preference_get_string_list": (20000, ["-DLMAX=5", "-DLMAX=7 -DLOOKUP1=1", "-DLMAX=7 -DLOOKUP1=2"]),
 "emv_cvm_list_get_string_list": (20000, ["-DLMAX=11"]),
 "emv_iad_get_string_list": (20000, [""]),
 "emv_mastercard_third_party_data_get_string_list": (5000, [""]),
}
@prop("C04", "")
def c04(tier):
    js = [J("list", "render.c", "h_list", RSRC, RDEF + " -DREAL_LIST -DSMALL" , mode=S)]
    for f in RENDER:
        sl, var = RCONF.get(f, (None, [""]))
        for i, d in enumerate(var):
            js.append(J(f + (str(i) if i else ""), "render.c", "h_buf", RSRC, RDEF + " -DFN=%s %s %s" % (f, d, "-DFEWS" if f.endswith("_list") else ""), mode=S,
                        opts=[o.replace("ENTRY", "h_buf").replace("h_buf:", "%s:%d,h_buf:" % (f, sl) if sl else "h_buf:") for o in RS], must=[f]))
    js += info_jobs(S)
    d = RDEF + " -DFEWS -DNMAX=8 -DSW1V=0x90 "
    for i, ins in enumerate(("0xA4", "0xB2", "0xB3", "0xDA", "0xDB")):
        js.append(J("capdu%d" % i, "render_iso.c", "h_capdu", "", d + "-DINSV=" + ins, mode=S, must=["iso7816_capdu_get_string"]))
    js.append(J("capdu5", "render_iso.c", "h_capdu", "", RDEF + " -DFEWS -DNMAX=6 -DSW1V=0x90 -DINSV=ND_U8\\(\\)", mode=S, must=["iso7816_capdu_get_string"]))
    js.append(J("select", "render_iso.c", "h_select", "", d + "-DINSV=0", mode=S))
    for sw in (0x5F, 0x62, 0x66, 0x6A, 0x6E, 0x8F, 0x92):
        js.append(J("sw%X" % sw, "render_iso.c", "h_sw", "", RDEF + " -DNMAX=1 -DINSV=0 -DSW1V=0x%X" % sw, mode=S, must=["iso7816_sw1sw2_get_string"]))
    for f, g in (("svc", "iso7816_card_service_data_get_string_list"), ("caps", "iso7816_card_capabilities_get_string_list")):
        js.append(J(f, "render_iso.c", "h_" + f, "", d + "-DINSV=0", mode=S, opts=["-eva-slevel-function", g + (":100" if f == "svc" else ":2500")], must=[g]))
    js.append(J("isolist", "render_iso.c", "h_list", "", d.replace("-DFEWS", "") + "-DINSV=0 -DREAL_LIST", mode=S))
    for f in RENDER_BYTE:
        js.append(J(f, "render.c", "h_byte", RSRC, RDEF + " -DBYTE -DFN=" + f, mode=S, opts=[o.replace("ENTRY", "h_byte") for o in RS], must=[f]))
    js += [j for j in iso8859_jobs(tier, S) if re.match(r"(simple|iconv)-[123]-\d-0", j["name"])]
    return js

REPO_SRC = os.environ.get("VP_REPO", "/repo") + "/src/"
def tag_defs():
    """tags defined by the tree's header: sorted values"""
    import re
    return sorted({int(m, 16) for m in re.findall(r"^#define\s+\w*_TAG_\w+\s+\(?(0x[0-9A-Fa-f]+)\)?", open(REPO_SRC + "emv_tags.h").read(), re.M)})

def enum_names(header, name):
    """enumerators of an enum of the tree"""
    import re
    s = open(REPO_SRC + header).read()
    s = re.sub(r"/\*.*?\*/", "", s, flags=re.S)
    s = re.sub(r"//[^\n]*", "", s)
    m = re.search(r"enum\s+%s\s*\{(.*?)\}" % name, s, re.S)
    return [x.split("=")[0].strip() for x in m.group(1).split(",") if x.strip()] if m else []

def hexlist(t):
    return "#define TAGS " + ", ".join("0x%Xu" % x for x in t) + "\n"

def info_jobs(mode, big=True):
    t = tag_defs()
    js = []
    for i in range(0, len(t), 16):
        js.append(J("tags%d" % (i // 16), "info.c", "h_tags", "emv_strings.c " + RSRC, RDEF, mode=mode, gen=hexlist(t[i:i+16]), must=["emv_tlv_get_info"]))
    js.append(J("unknown", "info.c", "h_unknown", "emv_strings.c " + RSRC, RDEF, mode=mode, gen=hexlist(t), must=["emv_tlv_get_info"]))
    return js

@prop("C23", "")
def c23(tier):
    js = info_jobs("func")
    js.append(J("outcomes", "info.c", "h_outcomes", STACK, RDEF, gen="#define ERRS %s\n#define OUTS %s\n#include \"emv.h\"\n" %
                (", ".join(enum_names("emv.h", "emv_error_t")), ", ".join(enum_names("emv.h", "emv_outcome_t"))), must=["emv_error_get_string", "emv_outcome_get_string"]))
    js.append(J("aidtext", "info.c", "h_aidtext", "emv_strings.c " + RSRC, RDEF, gen="#define AIDTEXT\n#define NSCHEME %d\n#define NPRODUCT %d\n" %
                (len(enum_names("emv_fields.h", "emv_card_scheme_t")), len(enum_names("emv_fields.h", "emv_card_product_t"))), must=["emv_aid_get_string"]))
    return js

def iso8859_jobs(tier, mode):
    js = []
    for b, d in (("simple", ""), ("iconv", "-DICONV -DVP_EXACT_DIGITS -Dsnprintf=vp_snprintf")):
        src = "iso8859_%s.c" % b
        m = ["iso8859_to_utf8"]
        for l, outs in ((1, (1, 2, 3, 4)), (2, (2, 3, 4, 5, 6)), (3, (4, 7, 8))):
            for o in outs:
                for p in (0,) if l == 1 else (0, 1) if tier != "thorough" else (0, 1, 2, 3):
                    js.append(J("%s-%d-%d-%d" % (b, l, o, p), "iso8859.c", "h_convert", src, d + " -DLEN=%d -DOUT=%d -DPAT=%d" % (l, o, p), mode=mode, must=m))
        if b == "iconv":
            for cp in (2, 5, 9, 10, 13, 15):
                js.append(J("%s-cp%d" % (b, cp), "iso8859.c", "h_convert", src, d + " -DCP=%d -DLEN=1 -DOUT=4" % cp, mode=mode, must=m))
        js.append(J(b + "-codepage", "iso8859.c", "h_codepage", src, d, mode=mode, must=m + ["iso8859_is_supported"]))
        js.append(J(b + "-args", "iso8859.c", "h_args", src, d, mode=mode))
    for j in js:  # (iconv_t)-1 is how iconv_open() fails
        j["ignore"] = ["ptr_comparison.*iconv_t"]
    return js

@prop("C28", "")
def c28(tier):
    return iso8859_jobs(tier, "func")

@prop("C25", "")
def c25(tier):
    js = [J("filter%d-%d" % (k, t), "dbg.c", "h_filter", "emv_debug.c", "-DSET=%d -DTYPE=%d" % (k, t), must=["emv_debug_internal"])
          for k in (0, 1, 2) for t in (range(1, 9) if k == 1 else (3,))]
    for n in (0, 1, 255, 1022, 1023, 1024, 1025, 1600):
        js.append(J("text%d" % n, "dbg.c", "h_text", "emv_debug.c", "-DTLEN=%d" % n, mode=S, must=["emv_debug_internal"]))
    base = {}
    def add(js):
        for j in js:
            base.setdefault(j["name"], j)
    add([j for j in c06(tier) if j["mode"] == "func"][:: 1 if tier == "thorough" else 3])
    add(cand_jobs(tier)[:: 1 if tier == "thorough" else 3])
    add(select_jobs(tier)[:: 1 if tier == "thorough" else 3])
    add(init_jobs(tier)[:: 1 if tier == "thorough" else 2])
    add(read_jobs(tier)[:: 1 if tier == "thorough" else 3])
    add([j for j in c21(tier) if "h_emv" in j["entry"] or j["name"] in ("args",)][::6])
    for j in base.values():
        js.append(dict(j, name="off-" + j["name"], nodebug=True, anylabel=True))
        js.append(dict(j, name="on-" + j["name"], defs=j["defs"] + " -DVP_DEBUG_READS", mode=S, anylabel=True))
    return js

import effects
@prop("C24", "", extra=[effects.run])
def c24(tier):
    return []

@prop("C26", "")
def c26(tier):
    D = "-I/usr/include/PCSC -DUSE_PCSCLITE -DHAVE_ARPA_INET_H "
    js = []
    th = tier == "thorough"
    def P(n, e, d, **k):
        js.append(J(n, "pcsc.c", e, "pcsc.c", D + d, mode=S, **k, must=["pcsc_init", "pcsc_release"]))
    for nr in (0, 1, 2):
        P("init%d" % nr, "h_init", "-DNR=%d -DFAILS=%d" % (nr, 2 if th or nr < 2 else 1))
    for nr in (0, 1, 2):
        P("initmem%d" % nr, "h_init", "-DNR=%d -DAFAILS=1" % nr)
    for f in (0, 1, 2, 4, 5, 6, 7):
        P("feat%d" % f, "h_init", "-DFEAT=%d -DFAILS=%d" % (f, f != 5))
    for c in (0, 1, 2, 3, 4):
        for l in (0, 1, 2, 3) if th else sorted({0, min(c, 3)}):
            P("prop%d-%d" % (c, l), "h_prop", "-DVCAP=%d -DPLEN=7 -DTLV_L1=%d" % (c, l))
    for k in (1, 2):
        P("propshort%d" % k, "h_prop", "-DPLEN=7 -DSHORTP=%d" % k)
        P("featshort%d" % k, "h_init", "-DSHORTP=%d -DFAILS=1" % k)
    for l, l1 in [(0, 0), (1, 0), (2, 0), (3, 0)] + [(5, x) for x in (0, 1, 2, 3, 4, 255)] + [(264, 255), (264, 254)]:
        P("propany%d-%d" % (l, l1), "h_prop", "-DPABS -DPLEN=%d -DTLV_L1=%d" % (l, l1))
    P("propnone", "h_prop", "-DFEAT=6 -DPLEN=7")
    for a in range(5):
        for u in (0, 1, 2, 6, 12, 13) if a == 1 else (6,):
            P("connect%d-%d" % (a, u), "h_connect", "-DATRK=%d -DULEN=%d -DFAILS=1" % (a, u))
    P("connect1-two", "h_connect", "-DATRK=1 -DFAILS=2")
    P("rxsmall", "h_connect", "-DRXCAP=2")
    for nr in (1, 2):
        P("wait%d" % nr, "h_wait", "-DNR=%d -DFAILS=1" % nr)
    return js

@prop("C29", "")
def c29(tier):
    js = []
    F = "emv_fields.c"
    for lo in range(0, 48, 8):
        js.append(J("aid%d" % lo, "fields.c", "h_aid", F, "-DVP_LO=%d -DVP_HI=%d" % (lo, lo + 7), must=["emv_aid_get_info"]))
        if lo % 16 == 0 or tier == "thorough":
            js.append(J("aidnear%d" % lo, "fields.c", "h_aid_near", F, "-DVP_LO=%d -DVP_HI=%d" % (lo, lo + 7)))
    js.append(J("aidargs", "fields.c", "h_aid_args", F))
    js.append(J("cvm", "fields.c", "h_cvm", F, must=["emv_cvmlist_itr_next"]))
    js.append(J("cvmargs", "fields.c", "h_cvm_args", F))
    js.append(J("afl", "fields.c", "h_afl", F, must=["emv_afl_itr_next"]))
    for n in (0, 1, 2, 3, 6, 7, 17, 18, 20, 26, 28, 31, 32, 33):
        js.append(J("iad%d" % n, "fields.c", "h_iad", F, "-DIADN=%d" % n, must=["emv_iad_get_format"]))
    js.append(J("compact", "fields.c", "h_compact", "iso7816_compact_tlv.c", must=["iso7816_compact_tlv_itr_next"]))
    return js
