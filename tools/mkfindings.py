"""Writes known_findings.json: the 'known' list is kept by hand below, the
'fixed' list names the fix: commits of /repo."""
import json, os, subprocess
ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
KNOWN = []
MAP = [
 ("frozen before compiling", "C06"), ("were frozen before", "C06"),
 ("leaves without feature axes", "C03"),
 ("only categorical features", "C14"),
 ("frozen modules inside nested models", "C06"),
 ("caller's state when evaluating graph", "C22"),
 ("count the best epoch in the optimizer", "C09"), ("resume training from the current parameters", "C09"),
 ("explicit None for the documented", "C13"),
 ("modules without parameter arrays", "C01"),  # (substring of the subject, property)
 ("count epochs in the complex Adam", "C09"), ("restore signal handlers", "C19"),
 ("module names that start with", "C02"), ("output shape of activations", "C04"),
 ("nonexistent Fix", "C18"), ("given bias in AffineObservablePMM", "C13"),
 ("Path objects without extension", "C05"), ("name of conformalized models", "C15"),
 ("conformalized models from file names", "C15"), ("weighted quantiles", "C14"),
 ("scale input gradients", "C15"), ("no distance sensitivity", "C15"),
 ("constant training features", "C15"), ("multi-column categorical features", "C15"),
 ("multidimensional outputs in the distance", "C15"), ("stratified bias", "C15"),
 ("infinite conformal quantiles", "C14"), ("discard cached conformal", "C14"),
 ("leaves of different shapes in grad_input", "C11"), ("MinMaxScaler bound", "C16"), ("extend nested tuples", "C17"), ("under an existing key", "C20"), ("integer precisions", "C21"), ("also after empty containers", "C20"), ("keep the random key when adding", "C21"),
 ("restore scalers", "C16"), ("when saving scalers", "C16"), ("RobustScaler", "C16"),
 ("MinMaxScaler", "C16"), ("StandardScaler", "C16"), ("OneHot", "C16"),
 ("reverse mode in grad_params", "C11"), ("changed fwd option", "C11"),
 ("replacing modules stored in a tuple", "C20"), ("left operand when adding", "C20"),
 ("negative indices when popping", "C20"), ("Reshape leaves unchanged", "C04"),
 ("pseudo-Huber", "C10"), ("tree_util mean", "C17"), ("Einsum", "C18"),
 ("Eigenvalues.get_output_shape", "C04"), ("MatMul hyperparameters", "C05"),
 ("matrix_rank", "C05"), ("ConcatenateLeaves hyperparameters", "C05"),
 ("ConcatenateLeaves", "C18"), ("when saving models", "C05"),
]
log = subprocess.run(["git", "-C", "/repo", "log", "--format=%h %s", "--grep=^fix:"], capture_output=True, text=True).stdout.splitlines()
fixed = []
for line in reversed(log):
    h, s = line.split(" ", 1)
    p = next(v for k, v in MAP if k in s)
    fixed.append(f"fixed: property={p} {h} {s[5:]}")
json.dump(dict(known=KNOWN, fixed=fixed), open(os.path.join(ROOT, "known_findings.json"), "w"), indent=1)
print(len(fixed))
