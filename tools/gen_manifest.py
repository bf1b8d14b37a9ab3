#!/usr/bin/env python3
"""Writes MANIFEST.json."""
import json, os
V = os.path.join(os.path.dirname(os.path.abspath(__file__)), "..")
T = {
 "C01": "generated message sequences over generated and mutated texts; liveness and answer oracle",
 "C02": "generated modules against an independent UTF-16 position model",
 "C03": "generated modules against a reference symbol model",
 "C04": "generated modules against a reference symbol model",
 "C05": "generated multi-function modules against a reference scoping model",
 "C06": "generated modules and names; edit application against a reference model",
 "C07": "adversarial new names; metamorphic re-analysis of the edited document",
 "C08": "generated numbered modules; reference model of shifts, eager/lazy differential",
 "C09": "generated modules; reference model of undefined and duplicate symbols",
 "C10": "grammar-based generation with injected malformed parts; location oracle",
 "C11": "metamorphic: malformed parts injected into generated modules",
 "C12": "generated instruction forms against a reference classifier",
 "C13": "generated token sequences; reference token model",
 "C14": "generated modules against a reference outline",
 "C15": "generated modules against reference folding ranges",
 "C16": "generated modules; DOT parser and reference edge set",
 "C17": "generated modules against reference incoming-edge lists",
 "C18": "generated backtrace annotations and workspaces against a reference renderer",
 "C19": "generated annotations and workspace layouts against a reference resolver",
 "C20": "stateful histories; differential against fresh servers",
 "C21": "stateful schedules with delayed client answers; model of pending commands",
 "C22": "metamorphic: one token sequence in two layouts",
 "C24": "arbitrary texts; consistency oracle over all answers about a symbol",
 "C25": "arbitrary texts; consistency oracle over all structural answers",
 "C26": "generated repetitive documents of two sizes; metamorphic bound on CPU time",
 "C27": "generated client capabilities and sessions; announcement oracle, differential against a plain client",
 "C28": "stateful sessions with generated outcomes of the editor's calls, model of what is displayed; end to end with the server",
 "C23": "adversarial symbol strings; structural oracle on rendered Markdown",
}
NOTE = ("Exploration: generated cases sampled from a stated domain (see the rule in the evidence), every answer compared with an "
        "independent oracle; failures are reproduced and shrunk before they are reported. Assumes the harness's own model; black box over stdio, no hooks.")
checks = [dict(property=i, quick_cmd=f"bash run_check.sh {i}", thorough_cmd=f"VERIF_TIER=thorough bash run_check.sh {i}",
               evidence_file=f"evidence/{i}.json", technique="property-based testing: " + t, level="exploration", level_note=NOTE) for i, t in T.items()]
m = dict(version=1, setup_cmd="bash setup.sh", checks=checks, not_applicable=[],
         notes="No hooks in /repo: the checks talk to the server binary over the language server protocol; C28 runs the bundled extension against stand-ins of the editor.")
json.dump(m, open(os.path.join(V, "MANIFEST.json"), "w"), indent=1, ensure_ascii=False)
open(os.path.join(V, "MANIFEST.json"), "a").write("\n")
