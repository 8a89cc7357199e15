"""What each property's check is built from."""


def seq(name, src, **kw):
    """One thread, instrumented with AddressSanitizer and UBSan."""
    u = [{"name": name, "src": "checks/" + src, "flags": kw.pop("flags", [])},
         {"name": "pbt", "src": "engine/pbt.cpp", "kind": "asan"}]
    for more in kw.pop("more", []):
        u.append(more)
    return dict({"name": name, "units": u}, **kw)


def fib(name, src, **kw):
    """Threads as fibers under a drawn schedule (engine/fiber.h), with the accesses
    to memory an optimising compiler leaves, and with all (O0: as the repository is
    built by default), where the same schedule points are further apart."""
    return [fib1(name, src, **kw),
            fib1(name + "_O0", src, flags=["-O0", "-DSUITE(x)=x \"_O0\""], scale=0.25, **kw),
            # with all debug output, formatted and dropped
            fib1(name + "_debug", src, flags=["-DSUITE(x)=x \"_debug\"", "-fpermissive", "-include",
                                              "@V@/checks/quiet.h"], scale=0.04, **kw)]


def fib1(name, src, **kw):
    u = [{"name": name, "src": "checks/" + src, "kind": "fiber",
          "flags": kw.pop("flags", ["-DSUITE(x)=x"])},
         {"name": "pbt", "src": "engine/pbt.cpp", "kind": "plain"},
         {"name": "fiber", "src": "engine/fiber.cpp", "kind": "plain"}]
    return dict({"name": name, "units": u, "san": False, "link": kw.pop("link", [WRAPS])}, **kw)


WRAPS = "-Wl," + ",".join("--wrap=" + x for x in (
    "clock_gettime sched_yield pthread_yield pthread_create pthread_join pthread_detach "
    "pthread_self pthread_mutex_init pthread_mutex_destroy pthread_mutex_lock "
    "pthread_mutex_trylock pthread_mutex_unlock pthread_cond_init pthread_cond_destroy "
    "pthread_cond_wait pthread_cond_timedwait pthread_cond_clockwait pthread_cond_signal "
    "pthread_cond_broadcast nanosleep clock_nanosleep usleep sleep").split())
QUIET = ["printf=c22_quiet", "fprintf=c22_fquiet", "puts=c22_puts", "putchar=c22_putchar",
         "fwrite=c22_fwrite", "fputs=c22_fputs", "fputc=c22_fputc", "clock_gettime=c22_clock"]


def variant(name, *flags):
    """An object with a version of the library of its own (C22)."""
    return {"name": "run_" + name, "src": "checks/c22_variant.cpp", "kind": "alone",
            "entry": "run_" + name, "redefine": QUIET, "compile_is_property": name != "plain",
            "flags": ["-DV_RUN=run_" + name, "-I@V@/checks/stubs", "-fno-gnu-unique",
                      "-U_FORTIFY_SOURCE", "-w"] + list(flags)}


RM = ["-DRTMLIB_ENABLE_DEBUG_RMTLD3", "-DRTMLIB_ENABLE_DEBUGV_RMTLD3"]
ARM = ["-DV_ARM=1", "-fpermissive"]  # pointers are cast to 32 bits
VARIANTS = [
    variant("plain", "-DV_CLOCK=1", "-fsanitize-coverage=trace-pc"),
    variant("ndebug", "-DV_CLOCK=1", "-DNDEBUG", "-O2"),
    # the compiler and the language the repository's tests are built with, and others
    variant("cxx11", "-DV_CLOCK=1", "-std=c++11", "-O0"),
    dict(variant("clang", "-DV_CLOCK=1", "-O2"), cxx="clang++", optional=True),
    variant("debug1", "-DV_CLOCK=1", "-DRTMLIB_DEBUG=1"),
    variant("debug3", "-DV_CLOCK=1", "-DRTMLIB_DEBUG=3"),
    variant("rmtld3", "-DV_CLOCK=1", *RM),
    variant("hw", "-DV_HW=1", "-fsanitize=address"),
    variant("hw_debug", "-DV_HW=1", "-DRTMLIB_DEBUG=3"),
    variant("riscv", "-DV_RISCV=1", "-DV_BARE=1"),
    variant("riscv_nuttx", "-DV_RISCV=1", "-DV_NUTTX=1", "-DV_CLOCK=1"),
    variant("riscv_rtems", "-fsanitize=address", "-DV_RISCV=1", "-DV_RTEMS=1", "-DV_CLOCK=1"),
    variant("arm_bare", "-DV_BARE=1", "-DV_CORTEX=10", *ARM),
    variant("arm_freertos", "-fsanitize=address", "-DV_FREERTOS=1", "-DV_CORTEX=7", "-DV_CLOCK=1", *ARM),
    variant("arm_nuttx", "-DV_NUTTX=1", "-DV_SYSTICK=1", *ARM),
    variant("arm_debug", "-DV_FREERTOS=1", "-DV_CORTEX=3", "-DV_CLOCK=1", "-DRTMLIB_DEBUG=3", *(ARM + RM)),
]
RISCV = ["-include", "@V@/checks/platform_riscv.h", "-I@V@/checks/stubs"]
CLOCK = ["-Wl,--wrap=clock_gettime"]
SUITES = {
    "C01": [seq("deque", "c01.cpp")],
    "C02": [seq("inspect", "c02.cpp"),
            seq("inspect_debug", "c02.cpp", flags=["-DRTMLIB_DEBUG=3", "-fpermissive"])],
    "C03": [seq("copies", "c03.cpp")],
    "C04": [seq("writers", "c04.cpp", link=CLOCK)],
    "C05": fib("writers", "c05.cpp") + [
        fib1("riscv", "c05.cpp", flags=["-DSUITE(x)=\"riscv\"", "-DUNCOUNTED=1", *RISCV], scale=0.2),
        fib1("riscv_unnoticed", "c05.cpp", flags=["-DSUITE(x)=\"riscv_unnoticed\"", "-DUNCOUNTED=2", *RISCV],
             scale=0.05)],
    "C06": [seq("readers", "c06.cpp", flags=["-DWHICH=6"])],
    "C07": [seq("readers", "c06.cpp", flags=["-DWHICH=7"])],
    "C09": [seq("cursor", "c09.cpp")],
    "C10": [seq("connectives", "c10.cpp", more=[
        {"name": "compositions", "kind": "plain", "gen": ["tools/gen_c10.py", 600, 3000],
         "compile_is_property": True}])],
    "C11": [seq("future", "evalchk.cpp", flags=["-DWHICH=11"])],
    "C12": [seq("past", "evalchk.cpp", flags=["-DWHICH=12"])],
    "C13": [seq("durations", "evalchk.cpp", flags=["-DWHICH=13"])],
    "C14": [seq("final", "evalchk.cpp", flags=["-DWHICH=14"])],
    "C15": [seq("pure", "evalchk.cpp", flags=["-DWHICH=15"])],
    "C16": [seq("layout", "evalchk.cpp", flags=["-DWHICH=16"])],
    "C19": [seq("time", "c19.cpp", link=CLOCK)],
    "C20": [seq("events", "c20.cpp")],
    "C17": fib("lifecycle", "c17.cpp"),
    "C18": fib("rate", "c18.cpp"),
    "C21": fib("monitoring", "c21.cpp"),
    "C23": fib("threads", "c23.cpp") + [
        fib1("effective", "c23.cpp", flags=["-DSUITE(x)=\"effective\"", "-DEFFECTIVE"])],
    "C22": [seq("variants", "c22.cpp", more=VARIANTS, link=["-no-pie"])],
    "C08": fib("concurrent_readers", "c08.cpp") + [
        fib1("riscv_unnoticed", "c08.cpp", flags=["-DSUITE(x)=\"riscv_unnoticed\"", "-DUNCOUNTED", *RISCV],
             scale=0.2)],
}
ASSUME = {}
