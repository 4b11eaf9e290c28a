"""The checks: for each property, the harness programs that decide it."""

CHECKS = {}


def light(pid, src, **kw):
    CHECKS[pid] = {"parts": [dict({"kind": "light", "src": src}, **kw)]}


light("C01", "c01_url.cpp")
light("C02", "c02_json.cpp")
light("C03", "c03_case.cpp")
light("C04", "c04_range.cpp")
light("C05", "c05_render.cpp")
light("C06", "c06_order.cpp")
light("C07", "c07_version.cpp")
light("C08", "c08_error.cpp")
light("C09", "c09_strings.cpp")
light("C10", "c10_overload.cpp")
light("C11", "c11_result.cpp")


def heavy(pid, src, **kw):
    CHECKS[pid] = {"parts": [dict({"kind": "heavy", "src": src}, **kw)]}


heavy("C12", "c12_asm.cpp")
heavy("C13", "c13_values.cpp")
heavy("C14", "c14_serial.cpp")
heavy("C15", "c15_consteval.cpp")
heavy("C16", "c16_precedence.cpp")
heavy("C17", "c17_layout.cpp")
heavy("C18", "c18_location.cpp")
heavy("C21", "c21_program.cpp")
CHECKS["C32"] = {"parts": [{"kind": "python", "script": "c32_python.py",
                            "helper": {"src": "py_helper.cpp", "exe": "py_helper"}}]}
heavy("C22", "c22_index.cpp")
heavy("C23", "c23_instructions.cpp")
heavy("C24", "c24_modifiers.cpp")
heavy("C26", "c26_names.cpp")
heavy("C28", "c28_errors.cpp")
heavy("C30", "c30_version.cpp")
heavy("C29", "c29_literals.cpp")
heavy("C25", "c25_history.cpp")
heavy("C27", "c27_catalogue.cpp")
heavy("C31", "c31_register.cpp")
heavy("C20", "c20_entry.cpp", **{"with": ["$REPO/emscripten/emscripten_wrapper.cpp"], "cflags": "-I$REPO/emscripten"})
heavy("C19", "c19_robust.cpp")
CHECKS["C19"]["parts"].append({"kind": "fuzz", "name": "fuzz", "tier": "thorough", "src": "f19_fuzz.cpp", "seconds": 900,
                               "seeds": ["$REPO/res/v3x/**/*.cq", "$REPO/test/**/input.cq", "$REPO/test/**/*.cq"],
                               "dict": "$VERIF/harness/cqasm.dict",
                               "rule": "inputs of the coverage-guided search; non-trivial: inputs kept because they reached new code"})
light("C33", "c33_light.cpp", profile="tsan", fixed=True, args=("--attempts", "6"))
CHECKS["C33"]["parts"].append({"kind": "heavy", "src": "c33_threads.cpp", "profile": "tsan", "fixed": True, "args": ("--attempts", "6")})
heavy("C34", "c34_syntax.cpp")
light("C35", "c35_light.cpp", locales=True)
CHECKS["C35"]["parts"].append({"kind": "heavy", "src": "c35_locale.cpp", "locales": True})
light("C36", "c36_light.cpp", profile="gxx", fixed=True)
CHECKS["C36"]["parts"].append({"kind": "heavy", "src": "c36_memory.cpp", "profile": "gxx", "fixed": True})
