"""Compile the Cython extension from /repo's current tree into the scratch folder and make the
package under test use that build (never a stale .so lying in the source folder)."""
import importlib.util
import importlib.machinery
import os
import shutil
import subprocess
import sys
import sysconfig

from mc import core


def install():
    import numpy
    src = os.path.join(core.REPO, "src/tools21cm/ViteBetti_cython.pyx")
    d = os.path.join(core.SCRATCH, "cy")
    os.makedirs(d, exist_ok=True)
    pyx = os.path.join(d, "ViteBetti_cython.pyx")
    shutil.copy(src, pyx)
    cpp = os.path.join(d, "ViteBetti_cython.cpp")
    so = os.path.join(d, "ViteBetti_cython" + sysconfig.get_config_var("EXT_SUFFIX"))
    subprocess.run([sys.executable, "-m", "cython", "-3", "--cplus", "--module-name", "tools21cm.ViteBetti_cython",
                    pyx, "-o", cpp], check=True, stdout=subprocess.DEVNULL, stderr=subprocess.DEVNULL)
    subprocess.run(["g++", "-O1", "-w", "-fPIC", "-shared", "-I" + sysconfig.get_paths()["include"],
                    "-I" + numpy.get_include(), cpp, "-o", so], check=True,
                   stdout=subprocess.DEVNULL, stderr=subprocess.DEVNULL)
    name = "tools21cm.ViteBetti_cython"
    loader = importlib.machinery.ExtensionFileLoader(name, so)
    spec = importlib.util.spec_from_file_location(name, so, loader=loader)
    mod = importlib.util.module_from_spec(spec)
    loader.exec_module(mod)
    sys.modules[name] = mod
    return mod
