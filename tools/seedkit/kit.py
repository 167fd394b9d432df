import importlib.util, os, sys
SO, SCRATCH, REPO = os.environ["KIT_SO"], os.environ["KIT_SCRATCH"], "/repo"
def ext(name):
    s = importlib.util.spec_from_file_location(name, f"{SO}/{name}.so")
    m = importlib.util.module_from_spec(s); sys.modules[name] = m; s.loader.exec_module(m); return m
def vmecpp():
    sys.path.insert(0, REPO + "/src")
    s = importlib.util.spec_from_file_location("vmecpp.cpp._vmecpp", f"{SO}/_vmecpp.so")
    m = importlib.util.module_from_spec(s); sys.modules["vmecpp.cpp._vmecpp"] = m; s.loader.exec_module(m)
    import vmecpp as v
    return v
