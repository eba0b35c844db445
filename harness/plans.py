"""What each check runs: design models, drivers of the real code, trace validation."""
import random, struct
import common


def codec(mode):
    def run(ctx):
        # the oracle itself: the specification is consistent
        own = {"C02": "Object", "C08": "Day", "C10": "Text"}.get(mode)
        if own:
            deep = "" if ctx.quick or own == "Text" else "Deep"
            ctx.design("MC_Format", f"MC_Format{own}{deep}.cfg", timeout=850)
        trace, _ = ctx.drive("drv_codec", mode)
        ctx.validate_records(trace)
    return run


def C13(ctx):
    """the same histories of calls under several settings of the interpreter"""
    ctx.design("MC_Format", "MC_FormatObject.cfg" if ctx.quick else "MC_FormatObjectDeep.cfg", timeout=850)
    _, m = ctx.drive("drv_codec", "alone")
    for run, (flags, env) in enumerate((
                       ((), {}), (("-O",), {"TZ": "Asia/Kolkata", "PYTHONHASHSEED": "7"}),
                       (("-X", "utf8=0"), {"LC_ALL": "C", "LANG": "C", "PYTHONUTF8": "0", "PYTHONCOERCECLOCALE": "0"}),
                       (("-OO", "-X", "utf8=1"), {"LC_ALL": "C.UTF-8", "PYTHONHASHSEED": "4711"}))):
        t, _ = ctx.drive("drv_codec", "C13", flags=flags, env=env, data=m["outcomes"], run=run)
        ctx.validate_records(t)


def halves(plans):
    """most plans in the usual mode of the interpreter, the others with assertions compiled away"""
    return [((), [p for k, p in enumerate(plans) if k % 4]), (("-O",), plans[::4])]


# ------------------------------------------------------------------- reader
def reader_plans(ctx, cfg, n, num=None):
    """TLC-generated file plans: all of a configuration, or a random sample of n"""
    rng = random.Random(f"{ctx.seed}/{cfg}")
    if num:
        plans = ctx.simulate("ReaderPlans", f"{cfg}.cfg", num, 20).tagged("PLAN")
    else:
        r = ctx.tlc("ReaderPlans", f"{cfg}.cfg", name=f"plans {cfg}")
        plans = r.tagged("PLAN")
        plans.sort(key=str)
    if len(plans) > n:
        plans = rng.sample(plans, n)
    return plans


def reader_design(ctx):
    ctx.design("MC_Reader", "MC_Reader.cfg" if ctx.quick else "MC_ReaderDeep.cfg", timeout=850)
    ctx.design("MC_Reader", "MC_ReaderLive.cfg")


def large(ctx):
    """files of any size, at the level of blocks"""
    deep = "" if ctx.quick else "Deep"
    ctx.design("MC_Blocks", f"MC_Blocks{deep}.cfg", timeout=850)
    if ctx.prop in ("R03", "R11"):
        ctx.design("MC_Blocks", f"MC_BlocksCut{deep}.cfg", timeout=850)
    t, _ = ctx.drive("drv_reader", "large", focus=ctx.prop, timeout=800)
    ctx.validate_traces(t, "ScaledTrace")


def R01(ctx):
    reader_design(ctx)
    plans = reader_plans(ctx, "ReaderPlansAll", 700 if ctx.quick else 5000)
    plans += reader_plans(ctx, "ReaderPlansRnd", 10**6, 200 if ctx.quick else 2500)
    t, _ = ctx.drive("drv_reader", "plans", data=plans)
    ctx.validate_traces(t, "ReaderTrace")
    t, _ = ctx.drive("drv_reader", "R01")
    ctx.validate_traces(t, "ReaderTrace")
    large(ctx)


def R02(ctx):
    reader_design(ctx)
    t, _ = ctx.drive("drv_reader", "R02")
    ctx.validate_traces(t, "ReaderTrace")
    plans = reader_plans(ctx, "ReaderPlansRnd", 10**6, 200 if ctx.quick else 2500)
    t, _ = ctx.drive("drv_reader", "plans", data=plans)
    ctx.validate_traces(t, "ReaderTrace")
    large(ctx)


def R03(ctx):
    ctx.design("MC_Reader", "MC_ReaderCut.cfg" if ctx.quick else "MC_ReaderCutDeep.cfg", timeout=850)
    plans = reader_plans(ctx, "ReaderPlansAll", 40 if ctx.quick else 400)
    plans += reader_plans(ctx, "ReaderPlansRnd", 10**6, 15 if ctx.quick else 200)
    t, _ = ctx.drive("drv_reader", "R03", data=plans)
    ctx.validate_traces(t, "ReaderTrace")
    large(ctx)


def R04(ctx):
    for flags in ((), ("-O",)):
        t, _ = ctx.drive("drv_reader", "R04", flags=flags)
        ctx.validate_records(t)


def R05(ctx):
    t, _ = ctx.drive("drv_reader", "R05")
    ctx.validate_traces(t, "ReaderTrace")


def R11(ctx):
    ctx.design("MC_Reader", "MC_ReaderFails.cfg" if ctx.quick else "MC_ReaderFailsDeep.cfg", timeout=850)
    plans = reader_plans(ctx, "ReaderPlansAll", 40 if ctx.quick else 400)
    plans += reader_plans(ctx, "ReaderPlansRnd", 10**6, 25 if ctx.quick else 250)
    plans += random.Random(ctx.seed).sample(reader_plans(ctx, "ReaderPlansBad", 10**6), 30 if ctx.quick else 400)
    t, _ = ctx.drive("drv_reader", "R11", data=plans, timeout=800)
    ctx.validate_traces(t, "ReaderTrace")
    large(ctx)


def R10(ctx):
    large(ctx)


def R07(ctx):
    ctx.design("MC_Reader", "MC_Reader.cfg" if ctx.quick else "MC_ReaderDeep.cfg", timeout=850)
    plans = [p for p in reader_plans(ctx, "ReaderPlansBad", 10**6) if any(o["op"] == "x" for o in p)]
    rng = random.Random(ctx.seed)
    plans = rng.sample(plans, 900) if ctx.quick else plans
    for flags, part in halves(plans):
        t, _ = ctx.drive("drv_reader", "plans", data=part, flags=flags)
        ctx.validate_traces(t, "ReaderTrace")
    large(ctx)


# ------------------------------------------------------------------- writer
def writer_design(ctx):
    ctx.design("MC_Writer", "MC_Writer.cfg" if ctx.quick else "MC_WriterDeep.cfg", timeout=850)
    if ctx.prop in ("W05", "W07", "W11"):
        ctx.design("MC_WriterSums")
        if not ctx.quick:
            ctx.inductive("BlfWriterSums", "SInit", "SIndInit", "SNext", "CInit", "SInv", ("SFollows",), ("SAfterWrite",))


def writer_plans(ctx, name, n, rnd):
    """n of the exhaustively generated sessions and rnd random longer ones"""
    rng = random.Random(f"{ctx.seed}/{ctx.prop}/{name}")
    plans = []
    if n:
        r = ctx.tlc("WriterPlans", f"WriterPlans{name}.cfg", name=f"sessions {name}")
        plans = sorted(r.tagged("PLAN"), key=str)
        plans = rng.sample(plans, n) if len(plans) > n else plans
    if rnd:
        more = ctx.simulate("WriterPlans", f"WriterPlans{name if name != 'All' else ''}Rnd.cfg", rnd, 20).tagged("PLAN")
        plans += more[:rnd]
    return plans


def scaled(ctx):
    """sessions of any size, at the level of extents"""
    n = 25 if ctx.quick else 300
    if ctx.prop == "W04":
        n = 12 if ctx.quick else 150
    plans = ctx.simulate("WriterPlans", "WriterPlansLarge%sRnd.cfg" % ("Fail" if ctx.prop == "W09" else ""), n, 40).tagged("PLAN")[:n]
    t, _ = ctx.drive("drv_writer", "scaled", data=plans, focus=ctx.prop, timeout=800)
    ctx.validate_traces(t, "WriterScaled", only=ctx.prop)


def writer(mode, name, n, rnd, deep_n, deep_rnd):
    def run(ctx):
        if mode == "W04":
            ctx.design("MC_System", "MC_System.cfg" if ctx.quick else "MC_SystemDeep.cfg", timeout=850)
        else:
            writer_design(ctx)
            if mode == "W09" and not ctx.quick:
                ctx.design("MC_Writer", "MC_WriterFaults.cfg", timeout=850)
        plans = writer_plans(ctx, name, *((n, rnd) if ctx.quick else (deep_n, deep_rnd)))
        if mode == "W10":
            plans += writer_plans(ctx, "Bad", *((100, 50) if ctx.quick else (1640, 1000)))
        for flags, part in halves(plans):
            t, _ = ctx.drive("drv_writer", mode if mode in ("W04", "W05", "W06", "W08", "W09", "W10") else "plans", data=part,
                             env=clock(ctx) if mode == "W06" else None, flags=flags)
            ctx.validate_traces(t, "WriterTrace", only=ctx.prop)
        if mode == "W10":
            t, _ = ctx.drive("drv_writer", "pure")
            ctx.validate_records(t)
        if mode == "W07":
            t, _ = ctx.drive("drv_writer", "counts", timeout=800)
            ctx.validate_traces(t, "LogTrace", only=ctx.prop)
        scaled(ctx)
    return run


def W01(ctx):
    writer_design(ctx)
    t, _ = ctx.drive("drv_writer", ctx.prop, timeout=800)
    ctx.validate_traces(t, "LogTrace", only=ctx.prop)
    t, _ = ctx.drive("drv_writer", "huge", timeout=800)
    ctx.validate_traces(t, "HugeTrace", only=ctx.prop)
    if ctx.prop == "W02":
        t, _ = ctx.drive("drv_writer", "plans", data=writer_plans(ctx, "All", *((200, 100) if ctx.quick else (1968, 2000))))
        ctx.validate_traces(t, "WriterTrace", only="W02")
        scaled(ctx)


def W11(ctx):
    writer_design(ctx)
    t, _ = ctx.drive("drv_writer", "W11", timeout=800)
    ctx.validate_traces(t, "WriterMemory")


def clock(ctx):
    """puts the wall clock under the driver's control"""
    shim, clk = ctx.tmp / "clockshim.so", ctx.tmp / "clock"
    ctx.run(["gcc", "-O1", "-shared", "-fPIC", "-o", shim, common.HARNESS / "clockshim.c", "-ldl"])
    clk.write_bytes(struct.pack("<qq", -(1 << 63), 0))
    return {"LD_PRELOAD": str(shim), "VERIF_CLOCK": str(clk)}


def W08(ctx):
    writer_design(ctx)
    plans = writer_plans(ctx, "Clock", *((300, 200) if ctx.quick else (1555, 4000)))
    t, _ = ctx.drive("drv_writer", "W08", data=plans, env=clock(ctx))
    ctx.validate_traces(t, "WriterTrace", only="W08")


# ----------------------------------------------------------------- sessions
def sessions(name, n, rnd, deep_n, deep_rnd):
    def run(ctx):
        ctx.design("SessionPlans", "MC_Sessions.cfg")
        n_, rnd_ = (n, rnd) if ctx.quick else (deep_n, deep_rnd)
        r = ctx.tlc("SessionPlans", f"SessionPlans{name}.cfg", name=f"interleavings {name}")
        plans = sorted(r.tagged("PLAN"), key=str)
        rng = random.Random(f"{ctx.seed}/{ctx.prop}")
        plans = rng.sample(plans, n_) if len(plans) > n_ else plans
        plans += ctx.simulate("SessionPlans", f"SessionPlans{name}Rnd.cfg", rnd_, 40).tagged("PLAN")[:rnd_]
        t, _ = ctx.drive("drv_sessions", ctx.prop, data=plans, timeout=800)
        ctx.validate_traces(t, "SessionTrace")
        if name == "Many":
            t, _ = ctx.drive("drv_sessions", "pairs", timeout=800)
            ctx.validate_traces(t, "SessionTrace")
    return run


def S01(ctx):
    """readers and writers connected by their user"""
    ctx.design("PipePlans", "MC_Pipes.cfg" if ctx.quick else "MC_PipesDeep.cfg", timeout=850)
    every = ctx.tlc("PipePlans", "PipePlansAll.cfg", name="pipelines").tagged("PLAN")
    every = sorted((p for p in every if any(o["op"] in ("write", "copy") for o in p)), key=str)
    n = 250 if ctx.quick else 4000
    every = random.Random(ctx.seed).sample(every, n) if len(every) > n else every
    rnd = ctx.simulate("PipePlans", "PipePlansRnd.cfg", 250 if ctx.quick else 3000, 50).tagged("PLAN")
    t, _ = ctx.drive("drv_pipes", "S01", data=dict(every=every, random=rnd), timeout=800)
    ctx.validate_traces(t, "PipeTrace")
    t, _ = ctx.drive("drv_pipes", "bulk", timeout=800)
    ctx.validate_traces(t, "LogTrace")


def R09(ctx):
    for mode in ("read", "write"):
        t, _ = ctx.drive("drv_kinds", mode)
        ctx.validate_records(t)


def C11(ctx):
    """objects are independent values"""
    ctx.design("ObjectPlans", "MC_Objects.cfg")
    ctx.refuted("ObjectPlans", "MC_ObjectsShared.cfg", "Independent")
    every = [p for p in ctx.tlc("ObjectPlans", "ObjectPlansAll.cfg", name="object histories").tagged("PLAN")
             if any(o["op"] == "mod" for o in p) and sum(o["op"] == "make" for o in p) > 1]
    every = random.Random(ctx.seed).sample(sorted(every, key=str), 3000)
    rnd = ctx.simulate("ObjectPlans", "ObjectPlansRnd.cfg", 400 if ctx.quick else 5000, 30).tagged("PLAN")
    t, _ = ctx.drive("drv_objects", "C11", data=dict(every=every, random=rnd), env=clock(ctx))
    ctx.validate_traces(t, "ObjectTrace")


PLANS = {f"C{k:02d}": codec(f"C{k:02d}") for k in range(1, 11)}
PLANS.update(C13=C13, C11=C11, C12=codec("C12"))
PLANS.update(R01=R01, R02=R02, R03=R03, R04=R04, R05=R05, R07=R07, R10=R10, R11=R11)

PLANS.update(
    W03=writer("W03", "All", 300, 150, 1968, 3000),
    W04=writer("W04", "All", 40, 10, 400, 200),
    W05=writer("W05", "All", 300, 150, 1968, 3000),
    W06=writer("W06", "Bad", 300, 150, 1640, 3000),
    W07=writer("W07", "All", 300, 100, 1968, 3000),
    W09=writer("W09", "Fail", 400, 200, 6425, 3000),
    W10=writer("W10", "Mut", 250, 150, 469, 3000))
PLANS.update(W01=W01, W02=W01, W08=W08, W11=W11)

PLANS.update(
    R06=sessions("One", 3000, 600, 40000, 8000),
    R08=sessions("Many", 500, 500, 5000, 3000))
PLANS.update(R09=R09, S01=S01)
