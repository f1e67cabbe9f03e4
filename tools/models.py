"""Exhaustive models: running spec/MC_*.tla and reading the histories that they print."""
import json, os, re, time
import vlib

# The models which belong to each property
OF = {
    "C01": ["MC_Make"], "C02": ["MC_Algebra"], "C03": ["MC_Vec", "MC_Blk", "MC_Acc"], "C04": ["MC_Groups"], "C05": ["MC_Algebra"],
    "C06": ["MC_Algebra"], "C07": ["MC_Names"], "C08": ["MC_Vec"], "C09": ["MC_Iter"], "C10": ["MC_Multi"], "C11": ["MC_Blk"],
    "C12": ["MC_Repeat"], "C13": ["MC_Pn"], "C14": ["MC_Pn"], "C15": ["MC_PnBlock"], "C16": ["MC_PnBlock"], "C17": ["MC_Gen"],
    "C18": ["MC_Method", "MC_Label"], "C19": ["MC_Method"], "C20": ["MC_Names"], "C21": ["MC_Masks"], "C22": ["MC_Masks"],
    "C23": ["MC_Regex"], "C24": ["MC_Runs"], "C25": ["MC_Regex"], "C26": ["MC_Lib"], "C27": ["MC_Lib"], "C28": ["MC_Lib"], "C29": ["MC_Json", "MC_Lib"],
    "C30": ["MC_Cache"], "C31": ["MC_Names"], "C32": ["MC_Gen"], "C33": ["MC_Acc"],
    "C34": ["MC_Xml"], "C35": ["MC_Say"], "C36": ["MC_Same"],
}


def run(name, tier):
    """Runs a model; returns (histories, stats, seconds)"""
    t0 = time.time()
    cfg = f"{name}.cfg"
    if tier == "thorough" and os.path.exists(f"{vlib.SPEC}/{name}_thorough.cfg"):
        cfg = f"{name}_thorough.cfg"
    module = name.split("-")[0]
    out, st = vlib.tlc(module, cfg, timeout=800 if tier == "quick" else 3600)
    if not st["ok"]:
        raise vlib.ToolError(f"the model {name} is wrong:\n" + "\n".join(l for l in out.splitlines() if not l.startswith(('"H|', "Parsing", "Linting", "Semantic")))[-5000:])
    hs = []
    for line in out.splitlines():
        if line.startswith('"H|'):
            hs.append(json.loads(json.loads(line)[2:]))
    return hs, st, time.time() - t0
