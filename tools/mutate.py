"""Development tool: sensitivity sweep with small syntactic changes.

usage: mutate.py list OUT.json [cap]         all mutants (capped per function)
       mutate.py tests OUT.json WORKERS      marks those that pass the tests
       mutate.py checks OUT.json WORKERS     runs the quick checks on survivors
Work happens in clones of /repo below /tmp/mut.
"""
import ast
import concurrent.futures as cf
import json
import os
import subprocess
import sys
import threading

PY = "/opt/venv/bin/python"
VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
MODS = {"losa/loadersaver": "loadersaver", "post/postprocessing": "postprocessing", "prep/linepattern": "linepattern",
        "prep/preprocessing": "preprocessing", "proc/processing": "processing", "util/utility": "utility"}
W = "C42"
PROPS = {
 "__correct_path": "C43 C39", "__get_path": "C43 C39", "load_image": "C39", "get_hdf_information": "C38", "find_hdf_key": "C38", "_get_key": "C37 C38",
 "load_hdf_file": "C37", "load_hdf_object": "C37 C38", "_create_folder": "C43 C35", "_create_file_name": "C36", "save_image": "C35 C36",
 "__get_plot_path": "C43 C35", "save_plot_image": "C43 C35", "__check_font": "C43", "save_residual_plot": "C43 C35", "save_hdf_file": "C35 C36",
 "open_hdf_stream": "C38 C36", "save_plot_points": "C43 C35", "save_metadata_txt": "C35 C36", "load_metadata_txt": "C35", "__numpy_encoder": "C35",
 "save_metadata_json": "C35 C36", "load_metadata_json": "C35", "load_python_list": "C35", "save_python_list": "C35 C36", "find_file": "C39",
 "unwarp_line_forward": "C03", "_func_diff": "C04", "unwarp_line_backward": "C04", "unwarp_image_backward": "C01", "unwarp_image_forward": "C05",
 "unwarp_slice_backward": "C02", "_mapping": "C02", "unwarp_chunk_slices_backward": "C02", "calc_residual_hor": "C13", "calc_residual_ver": "C13",
 "check_distortion": "C14", "correct_perspective_line": "C10", "_generate_perspective_map": "C11", "correct_perspective_image": "C11",
 "locate_subpixel_point": "C31", "__gauss_function": "C31", "_get_gauss_peak_fit": "C31", "select_good_peaks": "C31", "sliding_window_slope": "C31", "get_local_extrema_points": "C31",
 "_make_circle_mask": "C33", "calc_slope_distance_hor_lines": "C33", "calc_slope_distance_ver_lines": "C33", "_calc_index_range": "C32 C33", "get_tilted_profile": "C32",
 "convert_chessboard_to_linepattern": "C33", "get_cross_points_hor_lines": "C33", "get_cross_points_ver_lines": "C33",
 "normalization": "C30", "_make_window": "C30", "_apply_fft_filter": "C30", "normalization_fft": "C30", "_select_roi": "C28 C29", "_invert_dots_contrast": "C28",
 "binarization": "C28", "check_num_dots": "C28", "calc_size_distance": "C28", "_check_dot_size": "C22", "select_dots_based_size": "C22", "_check_axes_ratio": "C22",
 "select_dots_based_ratio": "C22", "select_dots_based_distance": "C23", "calc_hor_slope": "C29", "calc_ver_slope": "C29", "_check_dot_on_line": "C24",
 "group_dots_hor_lines": "C24", "group_dots_ver_lines": "C24", "remove_residual_dots_hor": "C26", "remove_residual_dots_ver": "C26", "calculate_threshold": "C30",
 "make_parabola_mask": "C27", "remove_points_using_parabola_mask": "C27", "get_points_dot_pattern": "C28", "rotate_points": "C27", "remove_subset_points": "C27",
 "_get_nearby_hor_points": "C25", "_get_nearby_hor_points_iter": "C25", "group_dots_hor_lines_based_polyfit": "C25", "_get_nearby_ver_points": "C25",
 "_get_nearby_ver_points_iter": "C25", "group_dots_ver_lines_based_polyfit": "C25",
 "_para_fit_hor": "C17 C16", "_para_fit_ver": "C17 C16", "find_cod_coarse": "C16 C18", "_func_dist": "C16", "_calc_error": "C16", "_calc_metric": "C16", "find_cod_fine": "C16",
 "_check_missing_lines": "C17", "_func_opt": "C17", "_optimize_intercept": "C17", "_calc_undistor_intercept": "C17", "calc_coef_backward": "C17", "calc_coef_forward": "C17",
 "calc_coef_backward_from_forward": "C17", "transform_coef_backward_and_forward": "C15", "find_cod_bailey": "C16 C18",
 "_generate_non_perspective_parabola_coef": "C19 C18", "_find_cross_point_between_parabolas": "C19", "regenerate_grid_points_parabola": "C19",
 "_generate_linear_coef": "C19 C20", "_find_cross_point_between_lines": "C19", "_func_opt_pers": "C20", "_optimize_intercept_perspective": "C20",
 "_calc_undistor_intercept_perspective": "C20", "regenerate_grid_points_linear": "C19", "generate_undistorted_perspective_lines": "C20",
 "generate_source_target_perspective_points": "C20", "generate_4_source_target_perspective_points": "C12", "calc_perspective_coefficients": "C10",
 "update_center": "C18 C21", "__get_representative_linear_coefs": "C21", "correct_perspective_effect": "C21",
 "_find_cross_point_between_parabolas_same_direction": "C16 C18", "find_center_based_vanishing_points": "C16 C18", "_find_center_based_vanishing_points_2nd_way": "C16 C18",
 "find_center_based_vanishing_points_iteration": "C16 C18",
 "make_circle_mask": "C34", "make_dot_pattern": "C34", "make_line_pattern": "C34", "make_chessboard": "C34", "find_point_to_point": "C03", "_calc_pad": "C06 C07",
 "unwarp_color_image_backward": "C06", "mapping_cv2": "C08", "unwarp_image_backward_cv2": "C08", "unwarp_video_cv2": "C09",
}
NAMES = {"ceil": "floor", "floor": "ceil", "min": "max", "max": "min", "amax": "amin", "amin": "amax", "argmin": "argmax", "argmax": "argmin",
         "mean": "median", "median": "mean", "sin": "cos", "cos": "sin", "abs": "float64", "float64": "float32", "sort": "asarray", "sqrt": "abs"}


def seg(lines, n):
    if n.lineno != n.end_lineno:
        return None
    return n.lineno, len(lines[n.lineno - 1].encode()[:n.col_offset].decode()), len(lines[n.lineno - 1].encode()[:n.end_col_offset].decode())


def mutants(src, cap):
    tree = ast.parse(src)
    lines = src.split("\n")
    out = []
    for fn in tree.body:
        if not isinstance(fn, ast.FunctionDef):
            continue
        ms = []
        doc = fn.body[0] if ast.get_docstring(fn) else None
        for n in ast.walk(fn):
            if doc is not None and getattr(n, "lineno", 0) and doc.lineno <= n.lineno <= doc.end_lineno:
                continue

            def between(a, b, ops):
                if a.end_lineno != b.lineno:
                    return
                x, y = a.end_col_offset, b.col_offset
                t = lines[a.end_lineno - 1]
                for o, r in ops:
                    k = t.find(o, x, y)
                    if k >= 0:
                        ms.append((a.end_lineno, k, k + len(o), r))
                        return
            if isinstance(n, ast.Compare) and len(n.ops) == 1:
                o = type(n.ops[0]).__name__
                m = {"Lt": ("<", "<="), "LtE": ("<=", "<"), "Gt": (">", ">="), "GtE": (">=", ">"), "Eq": ("==", "!="), "NotEq": ("!=", "==")}
                if o in m:
                    between(n.left, n.comparators[0], [m[o]])
            elif isinstance(n, ast.BinOp):
                m = {"Add": ("+", "-"), "Sub": ("-", "+"), "Mult": ("*", "/"), "Div": ("/", "*"), "FloorDiv": ("//", "/"), "Pow": ("**", "*")}
                if type(n.op).__name__ in m:
                    between(n.left, n.right, [m[type(n.op).__name__]])
            elif isinstance(n, ast.BoolOp):
                between(n.values[0], n.values[1], [("and", "or") if isinstance(n.op, ast.And) else ("or", "and")])
            elif isinstance(n, ast.Constant) and type(n.value) in (int, float):
                s = seg(lines, n)
                if s:
                    ms.append((*s, repr(n.value + 1) if type(n.value) is int else repr(n.value * 1.25 if n.value else 0.1)))
                    if type(n.value) is int and n.value > 0:
                        ms.append((*s, repr(n.value - 1)))
            elif isinstance(n, ast.Constant) and type(n.value) is bool:
                s = seg(lines, n)
                if s:
                    ms.append((*s, repr(not n.value)))
            elif isinstance(n, ast.UnaryOp) and isinstance(n.op, ast.USub):
                s = seg(lines, n)
                if s:
                    ms.append((s[0], s[1], s[1] + 1, "+"))
            elif isinstance(n, ast.Attribute) and n.attr in NAMES:
                s = seg(lines, n)
                if s:
                    ms.append((s[0], s[2] - len(n.attr), s[2], NAMES[n.attr]))
            elif isinstance(n, ast.Name) and n.id in ("min", "max"):
                s = seg(lines, n)
                if s:
                    ms.append((*s, NAMES[n.id]))
            elif isinstance(n, ast.Assign) and len(n.targets) == 1 and isinstance(n.targets[0], ast.Name) and n.lineno == n.end_lineno:
                t = n.targets[0].id
                if any(isinstance(x, ast.Name) and x.id == t for x in ast.walk(n.value)):
                    s = seg(lines, n)
                    if s:
                        ms.append((*s, f"{t} = {t}"))
            elif isinstance(n, ast.If):
                s = seg(lines, n.test)
                if s:
                    ms.append((*s, "False"))
        ms = sorted(set(ms))
        if cap and len(ms) > cap:
            ms = [ms[int(i * len(ms) / cap)] for i in range(cap)]
        for ln, a, b, r in ms:
            out.append({"func": fn.name, "line": ln, "a": a, "b": b, "old": lines[ln - 1][a:b], "new": r})
    return out


def load(p):
    return json.load(open(p))


def save(p, d):
    json.dump(d, open(p + ".tmp", "w"), indent=0)
    os.replace(p + ".tmp", p)


def text(m):
    p = f"/repo/discorpy/{m['mod']}.py"
    lines = open(p).read().split("\n")
    l = lines[m["line"] - 1]
    assert l[m["a"]:m["b"]] == m["old"], m
    lines[m["line"] - 1] = l[:m["a"]] + m["new"] + l[m["b"]:]
    return "\n".join(lines)


_lock = threading.Lock()
_free = []


def pool(n):
    for i in range(n):
        d = f"/tmp/mut/w{i}"
        subprocess.run(["rm", "-rf", "--", d], check=True)
        subprocess.run(["git", "clone", "-q", "/repo", d], check=True)
        _free.append(d)


def with_clone(m, f):
    with _lock:
        d = _free.pop()
    p = f"{d}/discorpy/{m['mod']}.py"
    try:
        src = open(p).read()
        open(p, "w").write(text(m))
        return f(d)
    finally:
        open(p, "w").write(src)
        with _lock:
            _free.append(d)


def run_tests(m):
    try:
        compile(text(m), "x", "exec")
    except SyntaxError:
        return "syntax"

    def f(d):
        try:
            r = subprocess.run(["timeout", "60", PY, "-m", "pytest", "-x", "-q", "-p", "no:cacheprovider", f"tests/test_{MODS[m['mod']]}.py"], cwd=d,
                               env=dict(os.environ, PYTHONPATH=d, MPLBACKEND="Agg", PYTHONDONTWRITEBYTECODE="1", OPENBLAS_NUM_THREADS="1"),
                               capture_output=True)
        except Exception:
            return "error"
        return "survived" if r.returncode == 0 else "killed"
    return with_clone(m, f)


def run_checks(m, jobs):
    def f(d):
        for pid in PROPS[m["func"]].split():
            try:
                r = subprocess.run(["timeout", "900", f"{VERIF}/check.sh", pid, "quick"], capture_output=True, text=True,
                                   env=dict(os.environ, VERIF_REPO=d, VERIF_JOBS=str(jobs), VERIF_EVIDENCE="/tmp/mut/ev"))
            except Exception as e:
                return f"error {e}"
            if r.returncode == 1 and f"VIOLATION property={pid}" in r.stdout:
                return pid
            if r.returncode != 0:
                return f"rc{r.returncode}:{pid}"
        return "missed"
    return with_clone(m, f)


def main():
    what, path = sys.argv[1:3]
    if what == "list":
        cap = int(sys.argv[3]) if len(sys.argv) > 3 else 0
        out = []
        for mod in MODS:
            for m in mutants(open(f"/repo/discorpy/{mod}.py").read(), cap):
                out.append({"mod": mod, **m})
        save(path, out)
        print(len(out))
        return
    n = int(sys.argv[3])
    ms = load(path)
    os.makedirs("/tmp/mut", exist_ok=True)
    pool(n)
    if what == "tests":
        todo = [m for m in ms if "t" not in m]
        g, key = run_tests, "t"
    else:
        todo = [m for m in ms if m.get("t") == "survived" and "c" not in m]
        g, key = (lambda m: run_checks(m, max(1, 8 // n))), "c"
    todo.sort(key=lambda m: m["mod"].startswith("losa"))
    with cf.ThreadPoolExecutor(n) as ex:
        fs = {ex.submit(g, m): m for m in todo}
        for k, fu in enumerate(cf.as_completed(fs)):
            fs[fu][key] = fu.result()
            if k % 10 == 0:
                save(path, ms)
    save(path, ms)
    from collections import Counter
    print(Counter(m.get(key) for m in ms))


main()
