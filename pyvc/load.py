"""Import the real modules of /repo (no build products needed).

MLIR bindings do not exist in this sandbox: modules that only an MLIR build has
are placeholders that raise when used, unless a check installs its own recording
stand-in for them first.
"""
import importlib
import importlib.abc
import importlib.machinery
import os
import sys
import types

REPO = os.environ.get("VERIF_REPO", "/repo")
PT1 = REPO + "/projects/pt1/python"
sys.dont_write_bytecode = True

PKG_DIRS = {
    "torch_mlir": [REPO + "/python/torch_mlir", PT1 + "/torch_mlir"],
    "torch_mlir_e2e_test": [PT1 + "/torch_mlir_e2e_test"],
}
ABSENT_PREFIX = (
    "torch_mlir.ir",
    "torch_mlir.passmanager",
    "torch_mlir.execution_engine",
    "torch_mlir.runtime",
    "torch_mlir.dialects._torch_ops_gen",
    "torch_mlir.dialects.func",
    "torch_mlir._mlir_libs",
)
STANDINS = {}  # module name -> module object installed by a check


class AbsentNativeCode(RuntimeError):
    pass


class _Meta(type):
    def __call__(cls, *a, **k):
        raise AbsentNativeCode(f"{cls.__qualname__} needs MLIR")

    def __getattr__(cls, name):
        if name.startswith("__"):
            raise AttributeError(name)
        raise AbsentNativeCode(f"{cls.__qualname__}.{name} needs MLIR")


class _Absent(types.ModuleType):
    __path__ = []

    def __getattr__(self, name):
        if name.startswith("__"):
            raise AttributeError(name)
        v = _Meta(name, (), {"__qualname__": f"{self.__name__}.{name}"})
        setattr(self, name, v)
        return v


class _Finder(importlib.abc.MetaPathFinder, importlib.abc.Loader):
    def find_spec(self, fullname, path=None, target=None):
        if fullname in STANDINS:
            return importlib.machinery.ModuleSpec(fullname, self)
        if any(fullname == p or fullname.startswith(p + ".") for p in ABSENT_PREFIX):
            return importlib.machinery.ModuleSpec(fullname, self, is_package=True)
        top, *rest = fullname.split(".")
        if top not in PKG_DIRS:
            return None
        dirs, init = [], None
        for base in PKG_DIRS[top]:
            d = os.path.join(base, *rest)
            if os.path.isfile(d + ".py"):
                return importlib.util.spec_from_file_location(fullname, d + ".py")
            if os.path.isdir(d):
                dirs.append(d)
                if init is None and os.path.isfile(d + "/__init__.py"):
                    init = d + "/__init__.py"
        if not dirs:
            return None
        if init:
            return importlib.util.spec_from_file_location(
                fullname, init, submodule_search_locations=dirs
            )
        spec = importlib.machinery.ModuleSpec(fullname, None, is_package=True)
        spec.submodule_search_locations = dirs
        return spec

    def create_module(self, spec):
        if spec.name in STANDINS:
            return STANDINS[spec.name]
        m = _Absent(spec.name)
        if spec.name == "torch_mlir.ir":
            m.MLIRError = type("MLIRError", (Exception,), {})
        if spec.name == "torch_mlir._mlir_libs._jit_ir_importer":
            m.__all__ = ["ModuleBuilder", "ClassAnnotator", "get_registered_ops",
                         "ImportOptions"]
        return m

    def exec_module(self, module):
        pass


import importlib.util  # noqa: E402

sys.meta_path.insert(0, _Finder())

PKG = "torch_mlir.jit_ir_importer.build_tools"
_lib = None


def shape_lib():
    """abstract_interp_lib_gen, imported with its self-checks recorded only."""
    global _lib
    if _lib is not None:
        return _lib
    fw = importlib.import_module(PKG + ".testing_framework")
    real = {}
    recorded = {}
    for name in ("check_shape_function", "check_dtype_function"):
        real[name] = getattr(fw, name)

        def rec(invocations, _n=name):
            def deco(f):
                recorded[f.__name__] = invocations
                return f

            return deco

        setattr(fw, name, rec)
    try:
        lib = importlib.import_module(PKG + ".abstract_interp_lib_gen")
    finally:
        for k, v in real.items():
            setattr(fw, k, v)
    lib._pyvc_invocations = recorded
    _lib = lib
    return lib
