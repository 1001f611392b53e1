#!/usr/bin/env python3
"""Writes MANIFEST.json."""
import json, os
T = {}
def t(ids, technique, note):
    for i in ids.split(): T[i] = (technique, note)
BASE = "Bounded-exhaustive: every member of the finite spaces named in the evidence file is executed on the code built from /repo; nothing is sampled. "
t("C01 C02 C03 C05 C06 C07", "exhaustive enumeration of training sets x settings on the real code, every fitted node audited by an independent re-computation",
  BASE+"Judged against a second implementation (f64, brute force over all splits) written from the statement. Trusts that implementation and f32 tolerances derived from the sums involved; data outside the small alphabets are covered only by the structured sets.")
t("C04", "exhaustive enumeration of training sets x constraint maps; prediction function compared on the complete grid of cells the thresholds induce",
  BASE+"The prediction function is piecewise constant, so one representative per cell decides monotonicity for all inputs of that model.")
t("C08 C09 C10 C11 C12", "exhaustive enumeration of tree shapes, ensembles and rows around all thresholds, compared with definitional oracles",
  BASE+"Models are injected through the public fields/JSON, so all shapes of the bound are reached, not only those training produces. Oracles are direct transcriptions of the definitions (Shapley: all feature subsets).")
t("C13", "stateless model checking of the real code under a controlled rayon scheduler (order, stealing and thread count of every join chosen by the explorer)",
  BASE+"Deviation-bounded for operations with many joins (bound in the evidence). Tasks are run atomically: rayon tasks here share no mutable state, and real thread pools are run as well. Replays of each schedule are compared for determinism.")
t("C14 C16", "exhaustive enumeration of values, settings and member subsets through save/load on the real code",
  BASE+"Float domains: all exponents with a set of mantissas (quick), every f32 bit pattern (thorough).")
t("C15", "exhaustive crash-point and torn-write enumeration on the real save/load path",
  BASE+"Every byte prefix, overwrite pattern and single-byte damage; the file system refuses writes through RLIMIT_FSIZE in a child process.")
t("C17", "explicit exploration of all operation sequences up to a depth, checked against a state model after every step",
  BASE+"The model predicts the complete saved document, so any hidden state shows up as a difference.")
t("C18", "exhaustive enumeration of stopping parameters, metrics and evaluation labels against a reference state machine", BASE)
t("C19", "exhaustive enumeration of small record lists, orders and extreme scores against definitional metrics", BASE)
t("C20 C22 C23", "exhaustive enumeration of data sets and their transformed versions, both executed on the real code",
  BASE+"Differential/metamorphic oracle plus an independent quantile computation.")
t("C21", "exhaustive enumeration of samplers, seeds and settings with rows made identifiable, every tree audited on the decoded sample",
  BASE+"Inclusion frequencies are compared over complete seed ranges, with bounds far outside statistical fluctuation.")
t("C24", "exhaustive enumeration of invalid and valid values at every position", BASE)
t("C25 C26", "exhaustive enumeration of representations, parameters and operation histories of the Python estimator against the crate",
  BASE+"The Python package is built from /repo; the reference is the Rust crate driven directly, or a fresh estimator. numpy, pandas and scikit-learn are trusted.")
t("C27", "exhaustive enumeration of tree shapes, exports parsed back and evaluated on a grid", BASE)
t("C28", "exhaustive enumeration of code points, floats, containers and arrays through a saved model", BASE)
t("C29", "exhaustive enumeration of XGBoost training sets, settings and model forms; the imported model compared with XGBoost on rows around every threshold",
  BASE+"XGBoost 1.6.1 itself is the oracle and is trusted.")
t("C30", "exhaustive enumeration of setter sequences and constructor arguments against a parameter-record model", BASE)
t("C31", "exhaustive enumeration of pairs of boundary settings x degenerate data sets, of all small data sets and of all size mismatches, executed to completion",
  BASE+"A case that panics, aborts the process or does not finish within two minutes is a violation.")
t("C32", "exhaustive enumeration of columns, sample counts, bounds and ways of passing data, tables compared with an independent evaluation of the model document",
  BASE+"The Python package is built from /repo. numpy and pandas are trusted.")
checks = [dict(property=f"C{i:02d}", quick_cmd=f"./run.sh C{i:02d} quick", thorough_cmd=f"./run.sh C{i:02d} thorough",
               evidence_file=f"evidence/C{i:02d}.json", technique="model checking: "+T[f"C{i:02d}"][0], level="model_checking",
               level_note=T[f"C{i:02d}"][1]) for i in range(1, 33)]
m = dict(version=1, setup_cmd="./run.sh setup", checks=checks, not_applicable=[],
    notes="No hooks in /repo: the controlled scheduler is a patched rayon-core in /verif/mc/rayon-core-sched, selected by [patch.crates-io] of the harness crate. See DESIGN.md.")
json.dump(m, open(os.path.join(os.path.dirname(os.path.abspath(__file__)), "MANIFEST.json"), "w"), indent=1)
