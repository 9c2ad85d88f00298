"""What each check runs. One function per property."""
import re

CHECKS = {}
NOTES = {}      # property -> extra sentence for MANIFEST level_note


def check(prop, *mods):
    def deco(f):
        CHECKS[prop] = (f, mods)
        return f
    return deco


@check("C01", "Vec")
def c01(x):
    sc = x.model_check("MC_Vec", scripts=True,
                       over=x.pick(None, dict(MaxLen=3, MaxO=2, Depth=7)), max_scripts=x.pick(None, 150000))
    tr = x.drive("vec", sc, episodes=x.pick(600, 8000), length=60)
    x.validate("Trace_Vec", tr, comp="vec")
    tr = x.drive("vec", (), episodes=x.pick(24, 300), length=41, name="vecbig")
    x.validate("Trace_Vec", tr, comp="vec", chunks=x.pick(4, 8))
    tr = x.drive("vec", (), episodes=x.pick(4, 60), length=22, name="vechuge")
    x.validate("Trace_Vec", tr, comp="vec", chunks=x.pick(4, 8))


@check("C03", "Deque", "RingDeque")
def c03(x):
    sc = x.model_check("RingDeque", scripts=True, over=x.pick(None, dict(MaxCap=16, MaxLen=10, MaxO=2, Caps="{0, 1, 2, 3, 5}")),
                       max_scripts=x.pick(12000, 120000))
    x.model_check("RingDeque", over=x.pick(dict(Fresh="FALSE", MaxCap=6, MaxLen=3, MaxO=1, Caps="{1, 2}"),
                                           dict(Fresh="FALSE", MaxCap=8, MaxLen=4, MaxO=2, Caps="{1, 2, 3}")), quiet=True)
    tr = x.drive("deque", sc, episodes=x.pick(500, 8000), length=80)
    x.validate("Trace_Deque", tr, comp="deque")
    tr = x.drive("deque", (), episodes=x.pick(24, 300), length=41, name="dequebig")
    x.validate("Trace_Deque", tr, comp="deque", chunks=x.pick(4, 8))
    tr = x.drive("deque", (), episodes=x.pick(4, 60), length=22, name="dequehuge")
    x.validate("Trace_Deque", tr, comp="deque", chunks=x.pick(4, 8))


@check("C04", "List", "LinkedNodes")
def c04(x):
    sc = x.model_check("LinkedNodes", scripts=True, over=x.pick(None, dict(MaxLen=4, MaxO=2, Depth=12)),
                       max_scripts=x.pick(12000, 100000))
    tr = x.drive("list", sc, episodes=x.pick(500, 8000), length=80)
    x.validate("Trace_List", tr, comp="list")
    tr = x.drive("list", (), episodes=x.pick(24, 300), length=41, name="listbig")
    x.validate("Trace_List", tr, comp="list", chunks=x.pick(4, 8))
    tr = x.drive("list", (), episodes=x.pick(4, 60), length=22, name="listhuge")
    x.validate("Trace_List", tr, comp="list", chunks=x.pick(4, 8))


@check("C02", "Sorting")
def c02(x):
    sc = x.model_check("MC_Sorting", scripts=True, over=x.pick(None, dict(MaxLen=6)), max_scripts=x.pick(3000, 30000))
    tr = x.drive("sort", sc, episodes=x.pick(700, 6000), length=25)
    x.validate("Trace_Sorting", tr, comp="sort")
    tr = x.drive("sort", (), episodes=x.pick(12, 150), length=41, name="sortbig")
    x.validate("Trace_Sorting", tr, comp="sort")
    tr = x.drive("sort", (), episodes=x.pick(8, 60), length=22, name="sorthuge")
    x.validate("Trace_Sorting", tr, comp="sort", chunks=8)


@check("C05", "OMap", "BTree")
def c05(x):
    x.model_check("MC_BTree", over=x.pick(dict(NKeys=8), dict(NKeys=11)), workers=8, timeout=1500)
    x.model_check("MC_BTree", over=x.pick(dict(NKeys=6, Vals="{1, 2}"), dict(T=3, NKeys=12)), workers=8, timeout=1500)
    sc = x.model_check("MC_OMap", scripts=True, over=x.pick(None, dict(Sizes=span(1, 90), Tail2=3)), max_scripts=x.pick(4000, 40000))
    tr = x.drive("omap", sc, episodes=x.pick(300, 4000), length=60, args=["-variant", "map"])
    x.validate("Trace_OMap", tr, comp="omap", drive_args=["-variant", "map"])
    tr = x.drive("omap", (), episodes=x.pick(12, 200), length=400, args=["-variant", "map"], name="big")
    x.validate("Trace_OMap", tr, comp="omap", drive_args=["-variant", "map"], chunks=x.pick(3, 6))
    # the B-tree design, at the code's degree, explains the results too
    sc = x.model_check("MC_OMap", scripts=True, over=dict(Kinds="{0}", Depth=1, Sizes=x.pick("{12, 72, 78}", span(11, 83))),
                       max_scripts=x.pick(300, 4000))
    tr = x.drive("omap", sc, episodes=x.pick(3, 40), length=300, args=["-variant", "tree"], name="tree")
    x.validate("Trace_BTree", tr, cfg="Trace_BTree.cfg", comp="omap", drive_args=["-variant", "tree"], chunks=x.pick(3, 6))


@check("C06", "OMap")
def c06(x):
    sc = x.model_check("MC_OMap", scripts=True, over=x.pick(dict(Sizes="{5, 11, 12, 18, 30, 72, 78}"), dict(Sizes=span(1, 90))),
                       max_scripts=x.pick(3000, 40000))
    tr = x.drive("omap", sc, episodes=x.pick(400, 5000), length=50, args=["-variant", "enum"])
    x.validate("Trace_OMap", tr, comp="omap", drive_args=["-variant", "enum"])
    tr = x.drive("omap", (), episodes=x.pick(12, 200), length=300, args=["-variant", "enum"], name="big")
    x.validate("Trace_OMap", tr, comp="omap", drive_args=["-variant", "enum"], chunks=x.pick(3, 6))


@check("C07", "HMap")
def c07(x):
    sc = x.model_check("MC_HMap", scripts=True, over=x.pick(None, dict(NKeys=4, NVals=3, Depth=8)), max_scripts=x.pick(6000, 60000))
    tr = x.drive("hmap", sc, episodes=x.pick(500, 8000), length=50)
    x.validate("Trace_HMap", tr, comp="hmap")
    tr = x.drive("hmap", (), episodes=x.pick(24, 300), length=41, name="hmapbig")
    x.validate("Trace_HMap", tr, comp="hmap", chunks=x.pick(4, 8))
    tr = x.drive("hmap", (), episodes=x.pick(4, 60), length=22, name="hmaphuge")
    x.validate("Trace_HMap", tr, comp="hmap", chunks=x.pick(4, 8))


@check("C08", "SetAlg")
def c08(x):
    sc = x.model_check("MC_SetAlg", scripts=True, over=x.pick(None, dict(N=5, Types="{0, 1, 2}")), max_scripts=x.pick(8000, 60000))
    tr = x.drive("sets", sc, episodes=x.pick(800, 8000), length=25)
    x.validate("Trace_SetAlg", tr, comp="sets")
    tr = x.drive("sets", (), episodes=x.pick(60, 600), length=40, name="setsbig")
    x.validate("Trace_SetAlg", tr, comp="sets", chunks=x.pick(2, 6))


@check("C09", "Heap")
def c09(x):
    sc = x.model_check("HeapArray", scripts=True, over=x.pick(None, dict(MaxLen=8, MaxO=2)), max_scripts=x.pick(8000, 60000))
    sc = [s[:-1] + ',{"op":"intosorted","a":[]}]' for s in sc]      # what is left comes out in order
    tr = x.drive("heap", sc, episodes=x.pick(600, 8000), length=60)
    x.validate("Trace_Heap", tr, comp="heap")
    tr = x.drive("heap", (), episodes=x.pick(20, 200), length=300, name="heapbig")
    x.validate("Trace_Heap", tr, comp="heap", chunks=x.pick(2, 6))
    tr = x.drive("heap", (), episodes=x.pick(30, 300), length=41, name="heaphuge")
    x.validate("Trace_Heap", tr, comp="heap", chunks=x.pick(4, 8))


@check("C10", "Iter")
def c10(x):
    sc = x.model_check("MC_Iter", scripts=True, over=x.pick(None, dict(Depth=8, Big="TRUE")),
                       max_scripts=x.pick(8000, 60000))
    tr = x.drive("iter", sc, episodes=x.pick(1500, 20000), length=30)
    x.validate("Trace_Iter", tr, comp="iter")
    tr = x.drive("iter", (), episodes=x.pick(24, 300), length=41, name="iterbig")
    x.validate("Trace_Iter", tr, comp="iter", chunks=x.pick(4, 8))
    tr = x.drive("iter", (), episodes=x.pick(4, 60), length=22, name="iterhuge")
    x.validate("Trace_Iter", tr, comp="iter", chunks=x.pick(4, 8))


@check("C11", "CloneEq")
def c11(x):
    sc = x.model_check("MC_CloneEq", scripts=True, over=x.pick(None, dict(Depth=7, MaxRows=3)), max_scripts=x.pick(12000, 80000))
    tr = x.drive("clone", sc, episodes=x.pick(1000, 15000), length=40)
    x.validate("Trace_CloneEq", tr, comp="clone")
    tr = x.drive("clone", (), episodes=x.pick(30, 300), length=41, name="clonebig")
    x.validate("Trace_CloneEq", tr, comp="clone", chunks=x.pick(4, 8))
    tr = x.drive("clone", (), episodes=x.pick(4, 60), length=22, name="clonehuge")
    x.validate("Trace_CloneEq", tr, comp="clone", chunks=x.pick(4, 8))


@check("C33", "Traits")
def c33(x):
    sc = x.model_check("MC_Traits", scripts=True, over=x.pick(None, dict(Depth=6, Most=3, Elems="{10, 11, 60}")), max_scripts=x.pick(15000, 80000))
    tr = x.drive("traits", sc, episodes=x.pick(3000, 40000), length=30)
    x.validate("Trace_Traits", tr, comp="traits", chunks=x.pick(6, 8))


@check("C12", "Opt")
def c12(x):
    sc = x.model_check("MC_Opt", scripts=True, over=x.pick(None, dict(Depth=8)), max_scripts=x.pick(9000, 60000))
    tr = x.drive("opt", sc, episodes=x.pick(800, 15000), length=40)
    x.validate("Trace_Opt", tr, comp="opt")


@check("C13", "Res")
def c13(x):
    sc = x.model_check("MC_Res", scripts=True, over=x.pick(None, dict(Depth=8)), max_scripts=x.pick(9000, 60000))
    tr = x.drive("res", sc, episodes=x.pick(800, 15000), length=40)
    x.validate("Trace_Res", tr, comp="res")


def span(a, b):
    """The set a..b, as a configuration file has it."""
    return "{" + ", ".join(map(str, range(a, b + 1))) + "}"


def int_rows(types, ops):
    """Every left operand of the 8-bit types, each call over every right operand."""
    out = []
    zero = [0] * 12
    for t in types:
        lo = -128 if t == 0 else 0
        for a in range(lo, lo + 256):
            out.append([dict(op="new", a=[t] + zero)] + [dict(op="row", a=[o, a]) for o in ops])
    return out


ROW_ARITH = [0, 1, 2, 3, 4, 10, 11, 12, 13, 20, 21, 22, 23, 30, 31, 32, 33, 34, 40, 41, 42, 43, 44, 50]


@check("C14", "FixedInt", "BigInt")
def c14(x):
    x.assume("MC_BigInt")
    sc = x.model_check("MC_FixedInt", scripts=True, over=x.pick(None, dict(D=1)), max_scripts=x.pick(2500, 20000))
    tr = x.drive("int", sc, episodes=x.pick(1200, 20000), length=30)
    x.validate("Trace_FixedInt", tr, comp="int", chunks=6)
    tr = x.drive("int", int_rows((0, 5), ROW_ARITH), name="rows")
    x.validate("Trace_FixedInt", tr, comp="int", chunks=8)
    sc = x.model_check("MC_FixedInt", scripts=True, over=dict(Types="{12, 13}", Mode='"basic"', D=1), max_scripts=x.pick(800, 8000))
    tr = x.drive("int", sc, episodes=x.pick(300, 6000), length=30, args=["-variant", "basic"], name="basic")
    x.validate("Trace_FixedInt", tr, comp="int", chunks=x.pick(3, 6), drive_args=["-variant", "basic"])


@check("C15", "FixedInt", "BigInt")
def c15(x):
    x.assume("MC_BigInt")
    x.same_bigint()
    sc = x.model_check("MC_FixedInt", scripts=True, over=dict(Types="{10, 11}", Mode='"wide"', D=x.pick(0, 1)), max_scripts=x.pick(1500, 20000))
    tr = x.drive("int", sc, episodes=x.pick(800, 15000), length=30, args=["-variant", "wide"])
    x.validate("Trace_FixedInt", tr, comp="int", chunks=8, drive_args=["-variant", "wide"])


@check("C16", "FixedInt", "BigInt")
def c16(x):
    x.assume("MC_BigInt")
    sc = x.model_check("MC_FixedInt", scripts=True, over=dict(Types="{0, 1, 2, 3, 4, 5, 6, 7, 8, 9, 10, 11}", Mode='"shift"', D=x.pick(0, 2)), max_scripts=x.pick(3000, 20000))
    tr = x.drive("int", sc, episodes=x.pick(800, 15000), length=30, args=["-variant", "shift"])
    x.validate("Trace_FixedInt", tr, comp="int", chunks=6, drive_args=["-variant", "shift"])
    tr = x.drive("int", int_rows((0, 5), [60, 61]), name="rows")
    x.validate("Trace_FixedInt", tr, comp="int", chunks=4)


@check("C17", "Duration", "BigInt")
def c17(x):
    sc = x.model_check("MC_Duration", scripts=True, over=x.pick(None, dict(D=2)), max_scripts=x.pick(1200, 20000))
    tr = x.drive("dur", sc, episodes=x.pick(400, 8000), length=37)
    x.validate("Trace_Duration", tr, comp="dur", chunks=6)


@check("C28", "Float", "Ieee", "Dyadic", "BigInt")
def c28(x):
    sc = x.model_check("MC_Float", scripts=True, over=x.pick(None, dict(N=24)), max_scripts=x.pick(2500, 30000))
    tr = x.drive("float", sc, episodes=x.pick(1500, 25000), length=30)
    x.validate("Trace_Float", tr, comp="float", chunks=6)


@check("C29", "Trans", "Ieee", "Real", "Dyadic", "BigInt")
def c29(x):
    sc, _ = x.par(lambda: x.model_check("MC_Trans", scripts=True, over=x.pick(None, dict(N=12)), max_scripts=x.pick(5000, 60000)),
                  x.same_bigint)
    tr = x.drive("trans", sc, episodes=x.pick(1200, 25000), length=25)
    x.validate("Trace_Trans", tr, comp="trans", chunks=x.pick(6, 8))


@check("C26", "Order", "Dyadic", "BigInt")
def c26(x):
    sc = x.model_check("MC_Order", scripts=True, max_scripts=x.pick(2500, 20000))
    tr = x.drive("order", sc, episodes=x.pick(2500, 25000), length=25)
    x.validate("Trace_Order", tr, comp="order", chunks=6)


@check("C27", "IntText", "BigInt")
def c27(x):
    sc = x.model_check("MC_IntText", scripts=True, over=x.pick(None, dict(MaxChars=4)), max_scripts=x.pick(6000, 20000))
    tr = x.drive("inttext", sc, episodes=x.pick(800, 15000), length=25)
    x.validate("Trace_IntText", tr, comp="inttext", chunks=6)


@check("C23", "Str")
def c23(x):
    sc = x.model_check("MC_Str", scripts=True, over=x.pick(None, dict(MaxUnits=4)), max_scripts=x.pick(5000, 40000))
    tr = x.drive("str", sc, episodes=x.pick(2500, 30000), length=30)
    x.validate("Trace_Str", tr, comp="str", chunks=6)
    tr = x.drive("str", (), episodes=x.pick(24, 300), length=41, name="strbig")
    x.validate("Trace_Str", tr, comp="str", chunks=x.pick(4, 8))
    tr = x.drive("str", (), episodes=x.pick(4, 60), length=22, name="strhuge")
    x.validate("Trace_Str", tr, comp="str", chunks=x.pick(4, 8))


@check("C22", "Format")
def c22(x):
    sc = x.model_check("MC_Format", scripts=True, over=x.pick(None, dict(MaxTok=5)), max_scripts=x.pick(9000, 50000))
    tr = x.drive("fmt", sc, episodes=x.pick(2500, 25000), length=12)
    x.validate("Trace_Format", tr, comp="fmt", chunks=6)


@check("C24", "IfChain")
def c24(x):
    sc = x.model_check("MC_IfChain", scripts=True, over=x.pick(None, dict(MaxConds=5)), max_scripts=x.pick(8000, 50000))
    x.model_check("MC_IfChain", over=dict(MaxNest=3, Types="{0}", MaxConds=1), quiet=True) if x.thorough() else None
    tr = x.drive("if", sc, episodes=x.pick(2500, 30000), length=60)
    x.validate("Trace_IfChain", tr, comp="if", chunks=4)


@check("C25", "Assert", "Format")
def c25(x):
    sc = x.model_check("MC_Assert", scripts=True, max_scripts=x.pick(4000, 20000))
    tr = x.drive("assert", sc, episodes=x.pick(2000, 25000), length=20)
    x.validate("Trace_Assert", tr, comp="assert", chunks=6)


def scratch(f):
    """Run f with a scratch directory outside /verif that is removed afterwards."""
    import shutil, tempfile
    d = tempfile.mkdtemp(prefix="gost-fs-", dir="/tmp")
    try:
        return f(d)
    finally:
        import subprocess
        subprocess.run(["chmod", "-R", "u+rwx", d], check=False, stderr=subprocess.DEVNULL)
        shutil.rmtree(d, ignore_errors=True)


@check("C21", "FileSys")
def c21(x):
    sc = x.model_check("MC_FileSys", scripts=True, over=x.pick(None, dict(Paths3="TRUE")), max_scripts=x.pick(3000, 40000))

    def go(d):
        args = ["-scratch", d, "-variant", "both"]
        tr = x.drive("fs", sc, episodes=x.pick(400, 8000), length=60, args=args)
        x.validate("Trace_FileSys", tr, comp="fs", chunks=x.pick(6, 8), drive_args=args)
    scratch(go)


def patience(x, comp, news, calls):
    """A wait that goes on for a long time; ends in a trace."""
    ms = x.pick(12000, 75000)
    sc = [[dict(op="new", a=n)] + [dict(op=c[0], a=[ms if v == "ms" else v for v in c[1:]]) for c in calls] for n in news]
    trs = x.par(*[lambda i=i, s=s: x.drive(comp, [s], name="%s-long%d" % (comp, i), args=["-hang", "100"]) for i, s in enumerate(sc)])
    out = x.path(comp + "-long.ndjson")
    open(out, "w").write("".join(open(t).read() for t in trs))
    return out


@check("C18", "Mutex")
def c18(x):
    x.model_check("MutexSteps", over=x.pick(None, dict(N=4)), workers=8)
    sc = x.model_check("MC_Mutex", scripts=True, over=x.pick(None, dict(Depth=8)), max_scripts=x.pick(1500, 15000))
    x.driver()
    a, tr, c = x.par(
        lambda: x.drive("mutex", sc, episodes=x.pick(150, 2000), length=40, args=["-hang", "100"]),
        lambda: x.drive("mutex", (), episodes=x.pick(40, 1000), length=3000, args=["-hang", "100", "-variant", "storm"], name="storm"),
        lambda: patience(x, "mutex", [[0, 1], [1, 2]], [("lock", 1), ("lock", 2, "ms"), ("lock", 3), ("trylock", 4), ("unlock", 1), ("set", 2, 9), ("set", 3, 9),
                         ("unlock", 2), ("unlock", 3), ("unlock", 2), ("trylock", 1)]))
    x.validate("Trace_Mutex", a, cfg="Trace_Conc.cfg", comp="mutex", chunks=3)
    x.validate("Trace_Mutex", c, cfg="Trace_Conc.cfg", comp="mutex", chunks=1)
    x.validate("Trace_Mutex", tr, cfg="Trace_Conc.cfg", comp="mutex", chunks=6, drive_args=["-hang", "100", "-variant", "storm"])


@check("C20", "Future", "FileSys")
def c20(x):
    x.model_check("FutureSteps", over=x.pick(dict(N=2), None), workers=8)
    sc = x.model_check("MC_Future", scripts=True, over=x.pick(None, dict(N=3, A=3, Depth=7)), max_scripts=x.pick(1500, 30000))
    fsc = x.model_check("MC_FileSys", scripts=True, max_scripts=x.pick(600, 10000))
    fsc = [re.sub(r'("op":"new","a":\[)0', r"\g<1>1", re.sub(r'("a":\[)0(\],"op":"new")', r"\g<1>1\2", s)) for s in fsc]
    x.driver()
    hang, storm = ["-sync", "-hang", "100"], ["-hang", "100", "-variant", "storm"]
    plain = [*hang, "-variant", "plain"]

    def go(d):
        afs = ["-scratch", d, "-variant", "async"]
        half = len(sc) // 2
        a, a2, b, c, f, g = x.par(
            lambda: x.drive("future", sc[:half], episodes=x.pick(300, 4000), length=40, args=hang, timeout=2000),
            lambda: x.drive("future", sc[half:], args=hang, name="future2", timeout=2000),
            lambda: x.drive("future", (), episodes=x.pick(40, 1000), length=1500, args=storm, name="storm", timeout=2000),
            lambda: x.drive("future", (), episodes=x.pick(40, 400), length=10, args=plain, name="plain", drv=x.driver(race=True), timeout=2000),
            lambda: x.drive("fs", fsc, episodes=x.pick(150, 4000), length=60, args=afs, timeout=2000),
            lambda: patience(x, "future", [[0], [1], [3]], [("start", 1, 5, 0), ("start", 2, 7, 1), ("await", 1, 1), ("await", 2, 2), ("await", 3, 1, "ms"),
                             ("open", 2), ("open", 1), ("await", 4, 2)]))
        for tr in a, a2, g:
            x.validate("Trace_Future", tr, cfg="Trace_Work.cfg", comp="future", chunks=x.pick(2, 8), drive_args=hang)
        x.validate("Trace_Future", b, cfg="Trace_Work.cfg", comp="future", chunks=x.pick(4, 8), drive_args=storm)
        x.validate("Trace_Future", c, cfg="Trace_Work.cfg", comp="future", chunks=1, drive_args=plain, drv=x.driver(race=True))
        x.validate("Trace_FileSys", f, comp="fs", chunks=x.pick(4, 8), drive_args=afs)
    scratch(go)


@check("C19", "Thread")
def c19(x):
    x.model_check("ThreadSteps", over=x.pick(dict(A=1), None), workers=8)
    sc = x.model_check("MC_Thread", scripts=True, over=x.pick(None, dict(N=3, A=3, Depth=7)), max_scripts=x.pick(1500, 30000))
    x.driver()
    hang, storm, plain, sleep = ["-hang", "100"], ["-hang", "100", "-variant", "storm"], ["-hang", "100", "-variant", "plain"], ["-hang", "100", "-variant", "sleep"]
    half = len(sc) // 2
    work = lambda tr, args, chunks, drv=None: x.validate("Trace_Thread", tr, cfg="Trace_Work.cfg", comp="thread", chunks=chunks, drive_args=args, drv=drv)
    a, a2, b, c, d, e = x.par(
        lambda: x.drive("thread", sc[:half], episodes=x.pick(300, 4000), length=40, args=hang, timeout=2000),
        lambda: x.drive("thread", sc[half:], args=hang, name="thread2", timeout=2000),
        lambda: x.drive("thread", (), episodes=x.pick(40, 1000), length=1500, args=storm, name="storm", timeout=2000),
        lambda: x.drive("thread", (), episodes=x.pick(40, 400), length=10, args=plain, name="plain", drv=x.driver(race=True), timeout=2000),
        lambda: x.drive("thread", (), episodes=x.pick(3, 40), length=40, args=sleep, name="sleep", timeout=2000),
        lambda: patience(x, "thread", [[0]], [("spawn", 1, 5, 0), ("spawn", 2, 7, 1), ("join", 1, 1), ("join", 2, 2), ("join", 3, 1, "ms"), ("query", 1),
                         ("open", 2), ("open", 1), ("join", 4, 2)]))
    work(e, hang, 1)
    work(a, hang, x.pick(2, 8))
    work(a2, hang, x.pick(2, 8))
    work(b, storm, x.pick(4, 8))
    work(c, plain, 1, x.driver(race=True))
    work(d, sleep, 1)


@check("C30", "Stdin")
def c30(x):
    x.model_check("MC_Stdin", cfg="StdinSteps.cfg", over=x.pick(None, dict(A=3, Depth=7)), workers=8)
    sc = x.model_check("MC_Stdin", scripts=True, over=x.pick(None, dict(Depth=6)), max_scripts=x.pick(500, 8000))
    x.driver()
    args, half = ["-hang", "100"], len(sc) // 2
    a, b = x.par(lambda: x.drive("stdin", sc[:half], args=args, timeout=2000),
                 lambda: x.drive("stdin", sc[half:], episodes=x.pick(150, 3000), length=60, args=args, name="stdin2", timeout=2000))
    for tr in a, b:
        x.validate("Trace_Stdin", tr, cfg="Trace_Stdin.cfg", comp="stdin", chunks=x.pick(3, 8), drive_args=args)


@check("C31", "FloatText", "Ieee", "Dyadic", "BigInt")
def c31(x):
    sc, _ = x.par(lambda: x.model_check("MC_FloatText", scripts=True, over=x.pick(None, dict(MaxChars=5, N=40)), max_scripts=x.pick(4000, 40000)),
                  x.same_bigint)
    tr = x.drive("ftext", sc, episodes=x.pick(600, 12000), length=25)
    x.validate("Trace_FloatText", tr, comp="ftext", chunks=x.pick(6, 8))


@check("C32", "Cplx", "Ieee", "Dyadic", "BigInt")
def c32(x):
    sc, _ = x.par(lambda: x.model_check("MC_Cplx", scripts=True, over=x.pick(None, dict(N=8)), max_scripts=x.pick(3000, 30000)),
                  x.same_bigint)
    tr = x.drive("cplx", sc, episodes=x.pick(800, 15000), length=25)
    x.validate("Trace_Cplx", tr, comp="cplx", chunks=x.pick(6, 8))
