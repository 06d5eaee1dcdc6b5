# Executed by build.py: the check programs and what of /repo they link.
check("p_parse", variant="asan")
check("p_gram", variant="fast")
check("p_scope", variant="fast")
check("p_fix", variant="fast")
check("p_tidy", srcs=["p_tidy.cpp", "tidy_main.cpp"])
CTL = [SRC + "/ctl/launch.cpp"]
check("p_text", variant="asan", groups=("nixf", "lsp", "ctl"))
check("p_stream", variant="asan", groups=("nixf", "lsp", "ctl-nolaunch"), srcs=["p_stream.cpp"] + CTL)
SCHED = [SRC + "/sched/sched.cpp"]
check("p_rpc", variant="sched", groups=("nixf", "lsp", "ctl-nolaunch"), srcs=["p_rpc.cpp"] + CTL + SCHED, ldflags=WRAP)
check("p_sync", groups=("nixf", "lsp", "ctl-nolaunch"), srcs=["p_sync.cpp"] + CTL)
check("p_codec", variant="asan", groups=("nixf", "lsp", "ctl-nolaunch"), srcs=["p_codec.cpp"] + CTL)
check("p_sym", groups=("nixf", "lsp", "ctl-nolaunch"), srcs=["p_sym.cpp"] + CTL)
check("p_act", groups=("nixf", "lsp", "ctl-nolaunch"), srcs=["p_act.cpp"] + CTL)
check("litrun", groups=("nixf", "lsp", "ctl-nolaunch"), srcs=[os.path.join(VERIF, "tools/litrun.cpp")] + CTL)
check("p_nav", groups=("nixf", "lsp", "ctl-nolaunch"), srcs=["p_nav.cpp"] + CTL)
check("p_path", groups=("nixf", "lsp", "ctl-nolaunch"), srcs=["p_path.cpp"] + CTL)
check("p_worker", variant="plain", groups=(), srcs=[SRC + "/proc/worker.cpp"], ldflags=["-Wl,--as-needed"])
check("p_proc", variant="real", groups=("nixf", "lsp", "ctl"), srcs=["p_proc.cpp", SRC + "/proc/nixd_main.cpp"], needs=["p_worker"])
check("p_conf", groups=("nixf", "lsp", "ctl-nolaunch"), srcs=["p_conf.cpp"] + CTL)
FAKE = SCHED + [SRC + "/sched/launch.cpp", SRC + "/sched/fakeproc.cpp"]
check("p_conc", variant="sched", groups=("nixf", "lsp", "ctl-noproc"), srcs=["p_conc.cpp"] + FAKE, ldflags=WRAP)
check("p_ask", variant="schedasan", groups=("nixf", "lsp", "ctl-noproc"), srcs=["p_ask.cpp"] + FAKE, ldflags=WRAP)
